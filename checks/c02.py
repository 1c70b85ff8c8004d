"""C02: sharing and cycles survive serialisation. Exhaustive over directed
container graphs: every node kind, every ordered edge list."""
import itertools

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of container graphs (kinds x ordered edge lists) on the real code, lockstep isomorphism walk and reference SCC'
NOTE = 'Complete for the stated graph families (all graphs to 3 nodes with ordered children, 4 nodes with edge sets, 8-node paths with two extra edges); larger graphs only as chains and rings.'
RULE = 'a case is one rooted graph of lists, tuples and dicts, serialised, opened with validation and walked in lockstep with the original; non-trivial when it has a shared or cyclic node'
BOUNDS = {
    'quick': '3 nodes x kinds {list, dict, tuple} x all child sequences of length 0-2 over {nodes, leaf}; 4 list nodes x all edge sets in both orders; 4 nodes with child sequences to length 2; 8-node paths with every pair of extra edges; rings and chains to 60; 136 graphs of 3 nodes before or behind 65600 other containers of one of 6 forms (quick: one or two of the forms each)',
    'thorough': 'as quick, with 5 nodes x all child subsets of size <= 2 in both orders, 3 nodes with sequences to length 3, paths of 10 with every triple of extra edges',
}
NEEDS = ['plain', 'asan']


def tasks(tier):
    t = []
    for i in range(8):
        t.append(('three', dict(part=i, of=8)))
        t.append(('four', dict(part=i, of=8)))
    for i in range(4):
        t.append(('foursets', dict(part=i, of=4)))
        t.append(('paths', dict(part=i, of=4)))
    t.append(('rings', {}))
    t.append(('rings', dict(variant='asan')))
    t.append(('three', dict(variant='asan', part=3, of=30)))
    t.append(('keys', {}))
    for i in range(4):
        t.insert(0, ('many', dict(part=i, of=4, few=tier == 'quick', case_cpu_s=60)))
    if tier == 'thorough':
        for i in range(16):
            t.append(('five', dict(part=i, of=16)))
            t.append(('three3', dict(part=i, of=16)))
            t.append(('paths3', dict(part=i, of=16)))
        t.append(('three', dict(variant='asan')))
    return t


LEAF = -1


def make(kinds, edges):
    """-> the live objects, or None when Python cannot build them (tuple cycles)"""
    n = len(kinds)
    obj = [None] * n
    for i, k in enumerate(kinds):
        if k == 'l':
            obj[i] = []
        elif k == 'd':
            obj[i] = {}
    # tuples: only after everything they need exists
    todo = [i for i, k in enumerate(kinds) if k == 't']
    while todo:
        for i in todo:
            if all(c == LEAF or obj[c] is not None for c in edges[i]):
                obj[i] = tuple(leafval(i) if c == LEAF else obj[c] for c in edges[i])
                todo.remove(i)
                break
        else:
            return None
    for i, k in enumerate(kinds):
        if k == 'l':
            obj[i].extend(leafval(i) if c == LEAF else obj[c] for c in edges[i])
        elif k == 'd':
            for j, c in enumerate(edges[i]):
                obj[i][j] = leafval(i) if c == LEAF else obj[c]
    return obj


def leafval(i):
    return 1000 + i


def reach(edges):
    n = len(edges)
    r = [[False] * n for _ in range(n)]
    for i in range(n):
        for c in edges[i]:
            if c != LEAF:
                r[i][c] = True
    for k in range(n):
        for i in range(n):
            if r[i][k]:
                for j in range(n):
                    if r[k][j]:
                        r[i][j] = True
    return r


def reach_many(kinds, edges):
    """the same of a large graph, in linear time"""
    n = len(edges)
    num, low, comp, stack, on = [0] * n, [0] * n, [-1] * n, [], [False] * n
    cyc, ok = [False] * n, [False] * n
    k = nc = 0
    live = []
    k += 1
    num[0] = low[0] = k
    stack.append(0)
    on[0] = True
    todo = [(0, iter(edges[0]))]
    live.append(0)
    while todo:
        i, it = todo[-1]
        for c in it:
            if c == LEAF:
                continue
            if not num[c]:
                k += 1
                num[c] = low[c] = k
                stack.append(c)
                on[c] = True
                live.append(c)
                todo.append((c, iter(edges[c])))
                break
            if on[c]:
                low[i] = min(low[i], num[c])
        else:
            todo.pop()
            if todo:
                low[todo[-1][0]] = min(low[todo[-1][0]], low[i])
            if low[i] == num[i]:
                part = []
                while True:
                    j = stack.pop()
                    on[j] = False
                    part.append(j)
                    if j == i:
                        break
                loop = len(part) > 1 or i in edges[i]
                for j in part:
                    cyc[j] = loop
                    comp[j] = nc
                # components are completed after all which they reach
                good = not loop and all(c == LEAF or ok[c] and kinds[c] != 'd' for c in edges[i])
                for j in part:
                    ok[j] = good
                nc += 1
    return live, cyc, lambda i: ok[i]


def check(rec, kinds, edges, memo=None, label=None):
    from checks import lib
    import pointless as P
    if label and not rec.begin(label):
        return
    obj = make(kinds, edges)
    if obj is None:
        return
    if not label and not rec.begin((kinds, edges)):
        return
    n = len(kinds)
    if n < 100:
        r = reach(edges)
        live = [0] + [i for i in range(1, n) if r[0][i]]
        cyc = [r[i][i] for i in range(n)]
        cleans = lambda i: not cyc[i] and all(not cyc[j] and kinds[j] != 'd' for j in range(n) if r[i][j])
    else:
        live, cyc, cleans = reach_many(kinds, edges)
    indeg = {}
    for i in live:
        for c in edges[i]:
            if c != LEAF:
                indeg[c] = indeg.get(c, 0) + 1
    if any(cyc[i] for i in live) or any(v > 1 for v in indeg.values()):
        rec.nontrivial()
    e, b = lib.raises(P.serialize_to_bytearray, obj[0])
    if e:
        rec.violation('serialisation refused', repr(b))
        return
    e, p = lib.raises(P.Pointless, b)
    if e:
        rec.violation('the serialised graph fails validation', repr(p))
        return
    rd = {}      # node -> container id
    back = {}
    todo = [(0, p.GetRoot())]
    seen = set()
    nt = lib.PM, lib.PV
    while todo:
        i, v = todo.pop()
        k = kinds[i]
        if type(v) is not (lib.PM if k == 'd' else lib.PV):
            rec.violation('wrong container kind', '%r at node %d' % (type(v), i))
            return
        if len(v) != len(edges[i]):
            rec.violation('wrong number of children', 'node %d: %d, want %d' % (i, len(v), len(edges[i])))
            return
        if edges[i]:
            cid = v.container_id
            if rd.setdefault(i, cid) != cid:
                rec.violation('one object was split in two', 'node %d' % i)
                return
            if back.setdefault(cid, i) != i:
                # distinct empty-free objects must stay distinct
                rec.violation('two objects share a container id', 'nodes %d and %d' % (i, back[cid]))
                return
        if k != 'd' and edges[i]:
            h = v.is_hashable
            if cyc[i] and h:
                rec.violation('a vector on a cycle is marked hashable', 'node %d' % i)
            clean = cleans(i)
            if clean and not h:
                rec.violation('an acyclic vector of vectors is marked unhashable', 'node %d' % i)
            if memo is not None:
                key = (kinds, tuple(tuple(sorted(x)) for x in edges), i)
                if memo.setdefault(key, h) != h:
                    rec.violation('cycle marks depend on edge order', 'node %d' % i)
        if i in seen:
            continue
        seen.add(i)
        for j, c in enumerate(edges[i]):
            w = v[j]
            if c == LEAF:
                if w != leafval(i) or type(w) is not int:
                    rec.violation('wrong leaf', repr(w))
                    return
            else:
                todo.append((c, w))
    rec.count('nodes_walked', len(seen))


def seqs(n, maxlen, leaf=True):
    al = list(range(n)) + ([LEAF] if leaf else [])
    return [s for k in range(maxlen + 1) for s in itertools.product(al, repeat=k)]


def run(name, args, rec):
    part, of = args.get('part', 0), args.get('of', 1)
    memo = {}
    if name in ('three', 'three3'):
        S = seqs(3, 2) if name == 'three' else seqs(3, 3, False)
        for m, kinds in enumerate(itertools.product('ldt', repeat=3)):
            if name == 'three3' and 't' in kinds:
                continue
            memo.clear()
            for e0 in S[part::of]:
                for e1 in S:
                    for e2 in S:
                        check(rec, ''.join(kinds), (e0, e1, e2), memo)
        for kinds in itertools.product('ldt', repeat=2):
            S2 = seqs(2, 3)
            for e0 in S2[part::of]:
                for e1 in S2:
                    check(rec, ''.join(kinds), (e0, e1))
        for k in 'ldt':
            for e0 in seqs(1, 4)[part::of]:
                check(rec, k, (e0,))
    elif name == 'four':
        S = [s for s in seqs(4, 2, False) if len(set(s)) == len(s)]
        for kinds in ('llll', 'lldd', 'dltl', 'tltl'):
            memo.clear()
            for e0 in S[part::of]:
                for e in itertools.product(S[::1] if kinds == 'llll' else S[::3], repeat=3):
                    check(rec, kinds, (e0,) + e, memo)
    elif name == 'foursets':
        subs = [tuple(j for j in range(4) if m >> j & 1) for m in range(16)]
        for e0 in subs[part::of]:
            for e in itertools.product(subs, repeat=3):
                for rev in (0, 1):
                    es = tuple(x[::-1] if rev else x for x in (e0,) + e)
                    check(rec, 'llll', es, memo)
            memo.clear()
    elif name in ('paths', 'paths3'):
        n = 8 if name == 'paths' else 10
        extra = [(i, j) for i in range(n) for j in range(n)]
        k = 2 if name == 'paths' else 3
        it = itertools.combinations(extra, k)
        for ex in itertools.islice(it, part, None, of):
            for pos in ((0, 1) if k == 2 else (0,)):
                edges = [[i + 1] if i + 1 < n else [] for i in range(n)]
                for a, b in ex:
                    if pos:
                        edges[a].append(b)
                    else:
                        edges[a].insert(0, b)
                check(rec, 'l' * n, tuple(map(tuple, edges)))
    elif name == 'five':
        subs = [()] + [(i,) for i in range(5)] + [(i, j) for i in range(5) for j in range(i + 1, 5)]
        for e0 in subs:
            for e in itertools.islice(itertools.product(subs, repeat=4), part, None, of):
                es = (e0,) + e
                check(rec, 'lllll', es)
    elif name == 'rings':
        for n in range(1, 61):
            for k in 'ld':
                check(rec, k * n, tuple(((i + 1) % n,) for i in range(n)))
                check(rec, k * n, tuple(((i + 1) % n, LEAF) for i in range(n)))
                check(rec, k * n, tuple(((i + 1,) if i + 1 < n else (LEAF,)) for i in range(n)))
                check(rec, k * n, tuple(((i + 1, i + 1) if i + 1 < n else (0,)) for i in range(n)))
                check(rec, k * n, tuple(((i + 1, max(0, i - 1)) if i + 1 < n else (LEAF,)) for i in range(n)))
        # a wide root: many children, one of them looping back
        for n in range(1, 40):
            for k in range(1, n + 1):
                check(rec, 'l' * (n + 1), (tuple(range(1, n + 1)),) + tuple((0,) if i == k else (LEAF, LEAF) for i in range(1, n + 1)))
                check(rec, 'l' * (n + 1), (tuple(range(1, n + 1)),) + tuple((k,) if i != k else (LEAF,) for i in range(1, n + 1)))
    elif name == 'many':
        # more containers than 16 bits can number, and small graphs before and after them
        W = 65600
        tails = [('lll', e) for e in itertools.product([(), (1,), (2,), (1, 2), (0, 2), (2, 0)], [(0,), (2,), (LEAF, 2), (1, 2)], [(LEAF,), (1,), (0,), (LEAF, 2), (-9,)])]
        tails += [('ldl', e) for e in itertools.product([(1, 2)], [(0,), (2,), (LEAF, 2), (1, 2)], [(LEAF,), (1,), (0,), (2, -9)])]
        fills = [('l', lambda i: (LEAF,)), ('d', lambda i: (LEAF,)), ('l', lambda i: (0,)), ('l', lambda i: (i ^ 1,)), ('t', lambda i: (LEAF, LEAF)), ('d', lambda i: (i - 1 if i % 2 else LEAF, LEAF))]
        for k, e in tails[part::of]:
            for f, (fk, fe) in enumerate(fills):
                if len(k) == 3 and f and args.get('few') and tails.index((k, e)) % 12 != 2 * f:
                    continue
                # root, fillers, and the tail graph at the end; -9 is a filler
                base = W + 2
                tail = [tuple(2 if c == -9 else c if c == LEAF else c + base for c in x) for x in e]
                kinds = 'l' + fk * (W + 1) + k
                edges = [tuple(range(2, base)) + tuple(base + j for j in range(3)) if f % 2 == 0 else tuple(base + j for j in range(3)) + tuple(range(2, base))]
                edges += [(LEAF,)] + [fe(i) for i in range(2, base)] + tail
                check(rec, kinds, edges, label=(W, f, k, e))
    elif name == 'keys':
        # shared tuples as keys and values, keys below cyclic containers, equal but distinct lists
        from checks import lib
        import pointless as P
        t1, t2 = (1, 'a'), (1, 'a', (2,))
        cases = []
        for order in itertools.permutations(range(4)):
            a = []
            b = {}
            fill = [lambda: a.append(b), lambda: b.__setitem__(t1, a), lambda: a.append({t2: t1, 'k': a}), lambda: b.__setitem__(t2, {t1, t2})]
            for o in order:
                fill[o]()
            cases.append((order, [a, b, t1, t2, [1, 2], [1, 2]], a, b))
        for order, root, a, b in cases:
            if not rec.begin(order):
                continue
            rec.nontrivial()
            e, p = lib.raises(lambda: P.Pointless(P.serialize_to_bytearray(root)))
            if e:
                rec.violation('graph with keys refused or invalid', repr(p))
                continue
            r = p.GetRoot()
            ra, rb = r[0], r[1]
            ok = (type(ra) is lib.PV and type(rb) is lib.PM and rb[t1].container_id == ra.container_id and len(rb) == 2 and
                  set(lib.canon(lib.got(x)) for x in rb[t2]) == {lib.canon(lib.norm(t1)), lib.canon(lib.norm(t2))} and r[4].container_id != r[5].container_id)
            i = [type(x) is lib.PM and x.container_id == rb.container_id for x in ra].index(True)
            m = ra[1 - i]
            ok = ok and m['k'].container_id == ra.container_id and lib.same(lib.got(m[t2]), lib.norm(t1))
            if not ok:
                rec.violation('graph with keys reads back differently')
