"""C19: re-serialising read values loses nothing. Every read object of every
value, every slice, in every embedding, through several generations; whole
files through the C re-creation."""
import ctypes
import itertools
import os

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of read objects x slices x embeddings x generations on the real code against plain-Python normal forms; graphs by lockstep isomorphism walk'
NOTE = 'Complete within the stated value trees and graphs; a sharing between two separately exported read objects is content only, a sharing inside one is checked.'
RULE = 'a case is one value, slice or graph, written, opened and serialised again in all embeddings; non-trivial when a container, slice or bitvector was serialised again'
BOUNDS = {
    'quick': 'all trees of 5 container kinds over 0-2 of 26 leaves, all bit forms and string kinds, nested shapes over 8 leaves; every read object in 8 embeddings; all slices and slices of slices of 22 vectors of 0-6 items; 3 generations; all 3-node container graphs with up to 2 children each; re-creation of all of these as files',
    'thorough': 'as quick over 75 leaves, 3-leaf trees, 4 generations, 4-node graphs, slices of vectors to 9 items',
}
NEEDS = ['plain', 'asan']


def tasks(tier):
    t = [('slices', dict(variant='asan')), ('leaves', {}), ('leaves', dict(variant='asan')), ('gens', {}), ('sizes', {}), ('keys', dict(variant='asan'))]
    for i in range(6):
        t.append(('pairs', dict(part=i, of=6)))
        t.append(('graphs', dict(part=i, of=6, nodes=3)))
    t.append(('nest', {}))
    t.append(('graphs', dict(variant='asan', part=5, of=40, nodes=3)))
    if tier == 'thorough':
        t.append(('slices', dict(big=1)))
        for i in range(16):
            t.append(('pairs', dict(part=i, of=16, big=1)))
            t.append(('triples', dict(part=i, of=16)))
            t.append(('graphs', dict(part=i, of=16, nodes=4)))
    return t


def recreate(src, dst):
    """the C re-creation of a whole file -> None or its error"""
    import pointless as P
    f = ctypes.CDLL(P.__file__).pointless_recreate_64
    f.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_char_p)]
    f.restype = ctypes.c_int
    err = ctypes.c_char_p()
    if f(src.encode(), dst.encode(), ctypes.byref(err)):
        return None
    return err.value or b'no reason'


def read_objects(v, out):
    """all containers and bitvectors of a read tree, with their normal forms"""
    from checks import lib
    t = type(v)
    if t in (lib.PV, lib.PS, lib.PM, lib.PB):
        out.append(v)
        if t is lib.PM:
            for k, x in v.items():
                read_objects(k, out)
                read_objects(x, out)
        elif t is not lib.PB:
            for x in v:
                read_objects(x, out)
    return out


def embeddings(o, g, keys=True):
    """-> (description, live value, normal form)"""
    yield 'alone', o, g
    yield 'in a list', [o], ('v', [g])
    yield 'between', [1, o, 'x', o], ('v', [('i', 1), g, ('s', 'x'), g])
    yield 'in a tuple', ('y', o), ('v', [('s', 'y'), g])
    yield 'map value', {'k': o, 2: [o]}, ('M', [(('s', 'k'), g), (('i', 2), ('v', [g]))])
    if keys:
        yield 'in a set', {o, 'z'}, ('S', [g, ('s', 'z')])
        yield 'map key', {o: 'value'}, ('M', [(g, ('s', 'value'))])
        yield 'in a key', {(1, o): o}, ('M', [(('v', [('i', 1), g]), g)])


def again(rec, o, g, what, full=False):
    """serialise o again in all embeddings"""
    from checks import lib
    import pointless as P
    t = type(o)
    hashable = t is lib.PB or t is lib.PV and o.is_hashable and not lib.raises(hash, o)[0]
    for name, live, want in embeddings(o, g, hashable):
        want = lib.canon(want)
        for uw, nb in (((False, True), (True, False)) if not full else itertools.product((False, True), repeat=2)):
            e, b = lib.raises(P.serialize_to_bytearray, live, unwiden_strings=uw, normalize_bitvector=nb)
            rec.count('executions')
            if e:
                if isinstance(b, SystemError):
                    rec.violation('interpreter error instead of an exception', '%s %s: %r' % (what, name, b))
                else:
                    rec.violation('a read value is refused', '%s %s: %r' % (what, name, b))
                return
            e, r = lib.raises(lambda: lib.got(P.Pointless(b).GetRoot()))
            if e:
                rec.violation('cannot be read back', '%s %s: %r' % (what, name, r))
                return
            if lib.canon(r) != want:
                rec.violation('serialised again differently', '%s %s: %s, want %s' % (what, name, lib.show(r), lib.show(want)))
                return
    rec.nontrivial()


def lockstep(a, b, ids, back, todo):
    """structural identity of two read values; -> None or the difference"""
    from checks import lib
    while todo:
        a, b = todo.pop()
        t = type(a)
        if t is not type(b):
            return 'type %s / %s' % (t.__name__, type(b).__name__)
        if t in (lib.PV, lib.PM, lib.PS):
            if len(a) != len(b):
                return 'length %d / %d' % (len(a), len(b))
            if not len(a) and t is lib.PV:
                continue
            x, y = (t, a.container_id), (t, b.container_id)
            if x in ids or y in back:
                if ids.get(x) != y or back.get(y) != x:
                    return 'sharing: %s %s' % (x, y)
                continue
            ids[x] = y
            back[y] = x
            if t is lib.PV:
                todo.extend(zip(a, b))
            else:
                # unordered: match by normal form (lookups are checked as well)
                for k in a:
                    if k not in b:
                        return 'key %r is not found' % (lib.show(lib.got(k)), )
                    if t is lib.PM:
                        todo.append((a[k], b[k]))
                ka = sorted(a, key=lambda k: repr(lib.canon(lib.got(k))))
                kb = sorted(b, key=lambda k: repr(lib.canon(lib.got(k))))
                todo.extend(zip(ka, kb))
        elif t is lib.PB:
            if lib.bits_of(a) != lib.bits_of(b):
                return 'bits'
        elif lib.got(a) != lib.got(b):
            return '%r / %r' % (a, b)


def whole(rec, live, what):
    """the file of a live value through the C re-creation, twice"""
    from checks import lib
    import pointless as P
    fs = [os.path.join(lib.tmpdir(), 'c19-%d-%d' % (os.getpid(), i)) for i in range(3)]
    P.serialize(live, fs[0])
    try:
        for i in (1, 2):
            e = recreate(fs[i - 1], fs[i])
            rec.count('recreated')
            if e is not None:
                rec.violation('re-creation fails', '%s: %r' % (what, e))
                return
            e, p = lib.raises(P.Pointless, fs[i])
            if e:
                rec.violation('a re-created file is refused', '%s: %r' % (what, p))
                return
            d = lockstep(None, None, {}, {}, [(P.Pointless(fs[0]).GetRoot(), p.GetRoot())])
            if d:
                rec.violation('re-created differently', '%s: %s' % (what, d))
                return
    finally:
        for f in fs:
            if os.path.exists(f):
                os.unlink(f)


def check(rec, d, full=False, cfile=True):
    from checks import lib
    import pointless as P
    live = lib.realise(d)
    e, b = lib.raises(P.serialize_to_bytearray, live)
    if e:
        # a first generation which is refused is C01's
        rec.count('refused')
        return
    root = P.Pointless(b).GetRoot()
    objs = read_objects(root, [])
    # of many alike objects the first and the last
    for o in objs if len(objs) < 40 else objs[:4] + objs[-2:]:
        again(rec, o, lib.got(o), 'object of %s' % lib.show(lib.got(root), 120), full)
    if cfile:
        whole(rec, live, lib.show(lib.got(root), 200))


def vectors(n):
    """every kind of read vector, n items"""
    from checks import lib
    for tc, (lo, hi) in lib.PRIM_RANGE.items():
        yield tc, lib.Prim(tc, ([lo, hi, 0, 1, 2, 3, 4, 5, 6])[:n])
    yield 'f', lib.Prim('f', [1.5, -2.0, float('inf'), 0.0, 9.25, 3.0, 4.0, 5.0, 6.0][:n])
    yield 'strings', ['a', '\xe9', '\u0100', '\U0001f600', 'a', 'bc', '', 'x', 'y'][:n]
    yield 'mixed', [1, 'a', None, 2.5, True, -1, 'b', False, 2**32 - 1][:n]
    yield 'lists', [[1, 'x'], [], [2, [3, 'y']], [4], ['z'], (), [[]], [None], [1, 'x']][:n]
    s = ['shared', 'list']
    yield 'shared', [s, s, [s], 1, s, [s, [s]], s, s, s][:n]
    yield 'maps', [{1: 2}, {'a': {'b': 3}}, {}, {1: 2}, {(1, 2): [3]}, {None: 1}, {}, {}, {}][:n]
    yield 'sets', [{1, 2}, {'a'}, set(), frozenset([(1, 2)]), {2.5}, {None}, set(), set(), {7}][:n]
    yield 'bits', [lib.Bits(c == '1' for c in x) for x in ('', '0', '1', '0110', '10' * 40, '111', '00', '01', '1' * 70)][:n]
    yield 'prims', [lib.Prim('u8', [1]), lib.Prim('f', [1.5]), bytearray(b'ab'), lib.Prim('i64', [-1, 2]), 3, lib.Prim('u64', [2**64 - 1]), [], 1, 2][:n]
    yield 'tuples', [(1, 2), ('a', (2.5, None)), (), (1, 2), ((), ()), (True, 'x'), (1, ), (2, ), (3, )][:n]


def slices(n):
    return [(i, j) for i in range(n + 1) for j in range(i, n + 1)]


def run(name, args, rec):
    from checks import c01, lib
    import pointless as P
    if name == 'leaves':
        for d in c01.full_leaves() + lib.bit_forms() + lib.STRINGS:
            for w in (d, [d], {'k': d}, {1: [d, d]}, [[d], 'x']):
                if rec.begin(w):
                    check(rec, w, True)
            if not isinstance(d, (list, dict, set, bytearray, lib.Prim, lib.Bits)):
                for w in ({d}, {d: d}, {(d, 1): 2}, [(d, ), 'x']):
                    if rec.begin(w):
                        check(rec, w, True)
            else:
                for w in ([(lib.realise(d), 1)], [{1: d}, d]):
                    if rec.begin(w):
                        check(rec, w, True)
    elif name == 'pairs':
        L = c01.full_leaves() if args.get('big') else c01.mid_leaves()
        n = 0
        for k in c01.kinds():
            for r in (0, 1, 2):
                for ls in itertools.product(L, repeat=r):
                    n += 1
                    if n % args['of'] != args['part']:
                        continue
                    d = c01.build(k, list(ls))
                    if d is not None and rec.begin(d):
                        check(rec, d)
    elif name == 'triples':
        for i, d in enumerate(c01.shape_trees([None, None, None], c01.small_leaves(12), 3)):
            if i % args['of'] == args['part'] and rec.begin(d):
                check(rec, d)
    elif name == 'nest':
        for s, n, k in (([[None]], 1, 26), ([[[None]]], 1, 14), ([[], None], 1, 26), ([[[]]], 0, 1), ([[], []], 0, 1), ([[None], None], 2, 6), ([None, [None]], 2, 6), ([[None, [None]]], 2, 2), ([[None], [None]], 2, 3)):
            for d in c01.shape_trees(s, c01.small_leaves(14) if k <= 14 else c01.mid_leaves(), n) if k > 14 else c01.shape_trees(s, c01.small_leaves(k), n):
                if rec.begin(d):
                    check(rec, d, False, n != 1)
    elif name == 'slices':
        top = 9 if args.get('big') else 6
        for n in range(top + 1):
            for what, d in vectors(n):
                if not rec.begin((what, n)):
                    continue
                live = lib.realise(d)
                # next to other data, so that a wrong index meets something else
                v = P.Pointless(P.serialize_to_bytearray(['other', [9, 'q'], live, {8: 'r'}])).GetRoot()[2]
                g = lib.got(v)
                for i, j in slices(n):
                    s = v[i:j]
                    gs = ('v', g[1][i:j])
                    if lib.canon(lib.got(s)) != lib.canon(gs):
                        rec.violation('slice reads differently', '[%d:%d]' % (i, j))
                        continue
                    again(rec, s, gs, '%s[%d:%d]' % (what, i, j))
                    for x, y in slices(j - i):
                        again(rec, s[x:y], ('v', gs[1][x:y]), '%s[%d:%d][%d:%d]' % (what, i, j, x, y))
                # a slice next to its vector, and the vector's items next to it
                for i, j in slices(n):
                    for lv, want in (([v, v[i:j]], [g, ('v', g[1][i:j])]), ([v[i:j], v], [('v', g[1][i:j]), g]), ([v[i:j], v[i:j], v[0:n]], [('v', g[1][i:j])] * 2 + [g]), (list(v) + [v[i:j]], g[1] + [('v', g[1][i:j])]))[:3 if what in ('i64', 'u64') else 4]:
                        e, r = lib.raises(lambda: lib.got(P.Pointless(P.serialize_to_bytearray(lv)).GetRoot()))
                        if e or lib.canon(r) != lib.canon(('v', want)):
                            rec.violation('slices and vectors together differ', '%s [%d:%d]: %s, want %s' % (what, i, j, r if e else lib.show(r), lib.show(('v', want))))
                            break
    elif name == 'gens':
        for what, d in vectors(5):
            for wrap in range(5):
                # a list of wide integers is refused
                if wrap in (2, 4) and what in ('i64', 'u64') or not rec.begin((what, wrap)):
                    continue
                live, want = lib.realise(d), lib.norm(d)
                for gen in range(4):
                    b = P.serialize_to_bytearray(live)
                    r = P.Pointless(b).GetRoot()
                    if lib.canon(lib.got(r)) != lib.canon(want):
                        rec.violation('generation %d differs' % gen, '%s: %s, want %s' % (what, lib.show(lib.got(r)), lib.show(want)))
                        break
                    g = lib.got(r)
                    if wrap == 0:
                        live, want = r, g
                    elif wrap == 1:
                        live, want = [r, 'gen', r], ('v', [g, ('s', 'gen'), g])
                    elif wrap == 2:
                        live, want = {'prev': r, gen: list(r) if type(r) is lib.PV else r}, ('M', [(('s', 'prev'), g), (('i', gen), g)])
                    elif wrap == 3:
                        live, want = (r[1:4], ('v', g[1][1:4])) if type(r) is lib.PV else (r, g)
                    else:
                        live, want = [list(r), r[0:2]], ('v', [g, ('v', g[1][0:2])])
                rec.nontrivial()
    elif name == 'sizes':
        for n in [0, 1, 7, 8, 9, 12, 13, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000]:
            for d in (list(range(n)), ['s%d' % i for i in range(n)], {i: -i for i in range(n)}, set(range(n)), {('k', i): [i] for i in range(n)}, [[i, 'x'] for i in range(n)], lib.Bits(i % 3 == 0 for i in range(n)), [float(i) for i in range(n)]):
                if rec.begin((n, d)):
                    check(rec, d)
                    check(rec, [d, 'x'])
    elif name == 'keys':
        # maps and sets keyed by vectors and bitvectors, read and used as keys again
        keys = [(1, 2), ('a', 'b'), (1.5, None), (), ((1, ), (2, )), lib.Bits([1, 0, 1]), lib.Bits([1, 0] * 20), (lib.Bits([1]), 'x'), (True, 'é'), ('\u0100', '\U0001f600')]
        for r in (1, 2, 3):
            for ks in itertools.combinations(keys, r):
                if not rec.begin(ks):
                    continue
                lk = [lib.realise(k) for k in ks]
                m = P.Pointless(P.serialize_to_bytearray([{k: i for i, k in enumerate(lk)}, set(lk)])).GetRoot()
                gm, gs = lib.got(m[0]), lib.got(m[1])
                again(rec, m[0], gm, 'map')
                again(rec, m[1], gs, 'set')
                # new containers keyed by the read keys (read vectors have no hash)
                if any(lib.raises(hash, k)[0] for k in m[1]):
                    whole(rec, [{k: i for i, k in enumerate(lk)}, set(lk)], 'keys')
                    continue
                for live, want in (({k: v for k, v in m[0].items()}, gm), (set(m[1]), gs), ({k: k for k in m[1]}, ('M', [(x, x) for x in gs[1]]))):
                    e, b = lib.raises(P.serialize_to_bytearray, live)
                    if e:
                        rec.violation('read keys are refused', repr(b))
                        continue
                    c = P.Pointless(b).GetRoot()
                    if lib.canon(lib.got(c)) != lib.canon(want):
                        rec.violation('read keys differ', '%s, want %s' % (lib.show(lib.got(c)), lib.show(want)))
                    for k in lk:
                        if k not in c:
                            rec.violation('a read key is not found again', repr(k))
                whole(rec, [{k: i for i, k in enumerate(lk)}, set(lk)], 'keys')
    elif name == 'graphs':
        from checks import c02
        n = args['nodes']
        # ordered children of up to two per node
        S = [s for s in c02.seqs(n, 2) if n == 3 or (len(set(s)) == len(s) and c02.LEAF not in s)]
        if n == 3:
            S = [s for s in S if s.count(c02.LEAF) < 2]
        c = 0
        for kinds in (itertools.product('ldt', repeat=3) if n == 3 else ('llll', 'ldlt')):
            for es in itertools.product(S, repeat=n):
                c += 1
                if c % args['of'] != args['part']:
                    continue
                graph(rec, ''.join(kinds), es)


def graph(rec, kinds, edges):
    from checks import c02, lib
    import pointless as P
    n = len(kinds)
    r = c02.reach(edges)
    if not all(r[0][i] for i in range(1, n)):
        return
    obj = c02.make(kinds, edges)
    if obj is None or not rec.begin((kinds, edges)):
        return
    e, b = lib.raises(P.serialize_to_bytearray, obj[0])
    if e:
        return
    rec.nontrivial()
    root = P.Pointless(b).GetRoot()
    rec.count('executions')
    for what, live, back in (('alone', root, lambda x: x), ('in a list', [root, 'x'], lambda x: x[0]), ('as a value', {1: root}, lambda x: x[1])):
        e, p = lib.raises(lambda: P.Pointless(P.serialize_to_bytearray(live)))
        if e:
            rec.violation('a read graph is refused', '%s: %r' % (what, p))
            continue
        d = lockstep(None, None, {}, {}, [(root, back(p.GetRoot()))])
        if d:
            rec.violation('a read graph changed', '%s: %s' % (what, d))
    # slices keep the items, whose own structure is that of the whole graph
    if kinds[0] == 'l' and len(root):
        for i, j in slices(len(root)):
            e, p = lib.raises(lambda: P.Pointless(P.serialize_to_bytearray([root[i:j]])))
            if e:
                rec.violation('a slice of a graph is refused', '[%d:%d]: %r' % (i, j, p))
                continue
            s = p.GetRoot()[0]
            if type(s) is not lib.PV or len(s) != j - i:
                rec.violation('a slice of a graph changed', '[%d:%d]: %d items' % (i, j, len(s)))
                continue
            d = lockstep(None, None, {}, {}, list(zip(root[i:j], s)))
            if d:
                rec.violation('a slice of a graph changed', '[%d:%d]: %s' % (i, j, d))
    if n == 3:
        whole(rec, obj[0], 'graph')
