"""C20: printing terminates and shows the value. Reference printer over all
values, graphs, slices and printing configurations."""
import itertools

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of values, cyclic graphs, slices and printing configurations on the real code against a reference printer'
NOTE = 'Complete within the stated values and graphs; floats are shown with six decimals and bitvectors as binary digits, highest first.'
RULE = 'a case is one value, graph or configuration with all its objects printed with str and repr; non-trivial when something was printed'
BOUNDS = {
    'quick': 'all trees of 5 container kinds over 0-2 of 26 leaves and all nested shapes over 14; every string of up to 2 characters over 14; all 3-node container graphs with up to 2 children each, and their slices; all slices of 22 vectors to 6 items; all bitvectors to 10 bits; primitive vectors of 9 types; printing disabled and enabled for every object kind and derived object',
    'thorough': 'as quick over 75 leaves, 4-node graphs, 3-leaf trees, bitvectors to 14 bits',
}
NEEDS = ['plain', 'asan']


def tasks(tier):
    t = [('slices', dict(variant='asan')), ('config', dict(variant='asan')), ('config', {}), ('strings', {}), ('bits', dict(n=10)), ('prims', {}), ('prims', dict(variant='asan')), ('nest', {})]
    for i in range(4):
        t.append(('pairs', dict(part=i, of=4)))
        t.append(('graphs', dict(part=i, of=4, nodes=3)))
    t.append(('graphs', dict(variant='asan', part=5, of=40, nodes=3)))
    t.append(('pairs', dict(variant='asan', part=5, of=9)))
    t.append(('wide', dict(variant='asan')))
    if tier == 'thorough':
        t.append(('bits', dict(n=14)))
        for i in range(16):
            t.append(('pairs', dict(part=i, of=16, big=1)))
            t.append(('triples', dict(part=i, of=16)))
            t.append(('graphs', dict(part=i, of=16, nodes=4)))
    return t


def ref(v, stack=(), key=False, part=False):
    """Python-like notation of a read object"""
    from checks import lib
    t = type(v)
    if t is lib.PB:
        return ''.join('01'[b] for b in reversed(lib.bits_of(v))) + 'b'
    if t is float:
        return '%f' % v
    if t not in (lib.PV, lib.PS, lib.PM):
        return repr(v)
    # a slice of a vector is not that vector
    me = (t, v.container_id) if not part and len(v) else object()
    if me in stack:
        return {lib.PV: '[...]', lib.PS: 'set([...])', lib.PM: '{...}'}[t]
    stack = stack + (me, )
    if t is lib.PV:
        a = ', '.join([ref(x, stack, key) for x in v])
        if key:
            return '(' + a + (',' if len(v) == 1 else '') + ')'
        return '[' + a + ']'
    if t is lib.PS:
        return 'set([' + ', '.join([ref(x, stack, True) for x in v]) + '])'
    return '{' + ', '.join([ref(k, stack, True) + ': ' + ref(x, stack) for k, x in v.items()]) + '}'


def show(rec, v, what, part=False, want=None):
    """both notations against the reference; -> the text"""
    from checks import lib
    w = [want] if want is not None else [ref(v, (), False, part)]
    if part == 'whole':
        # a slice of everything may count as the vector
        w.append(ref(v))
    for f in (str, repr):
        e, s = lib.raises(f, v)
        rec.count('prints')
        if e:
            rec.violation('printing fails', '%s %s: %r' % (f.__name__, what, s))
            return None
        if s not in w:
            rec.violation('printed differently', '%s %s: %s, want %s' % (f.__name__, what, lib.show(s), lib.show(w[0])))
            return None
    rec.nontrivial()
    return s


def evaluates(rec, v, s, what):
    """the text denotes the content: without bitvectors, floats to six decimals"""
    from checks import lib

    def plain(n):
        return n[0] != 'B' and (n[0] not in 'vS' or all(map(plain, n[1]))) and (n[0] != 'M' or all(plain(a) and plain(b) for a, b in n[1]))

    def dec(n):
        if n[0] == 'f':
            import struct
            return ('f', '%f' % struct.unpack('<f', struct.pack('<I', n[1]))[0])
        if n[0] in 'vS':
            return (n[0], [dec(x) for x in n[1]])
        if n[0] == 'M':
            return ('M', [(dec(a), dec(b)) for a, b in n[1]])
        return n
    g = lib.got(v)
    if not plain(g):
        return
    e, x = lib.raises(eval, s, {'set': set, 'inf': float('inf'), 'nan': float('nan')})
    if e:
        rec.violation('the text does not evaluate', '%s: %s: %r' % (what, lib.show(s), x))
        return
    a, b = dec(denoted(x)), dec(g)
    # keys shown with fewer decimals may fall together
    if lib.canon(a) != lib.canon(b) and not same_after(b):
        rec.violation('the text evaluates to something else', '%s: %s' % (what, lib.show(s)))
    rec.count('evaluated')


def denoted(x):
    """normal form of evaluated text, integers of any width"""
    from checks import lib
    if type(x) is int:
        return ('i', x)
    if type(x) in (list, tuple):
        return ('v', [denoted(y) for y in x])
    if type(x) is set:
        return ('S', [denoted(y) for y in x])
    if type(x) is dict:
        return ('M', [(denoted(a), denoted(b)) for a, b in x.items()])
    return lib.norm(x)


def same_after(n):
    from checks import lib
    if n[0] == 'S':
        c = [lib.canon(x) for x in n[1]]
        return len(set(c)) < len(c) or any(same_after(x) for x in n[1])
    if n[0] == 'M':
        c = [lib.canon(a) for a, b in n[1]]
        return len(set(c)) < len(c) or any(same_after(a) or same_after(b) for a, b in n[1])
    return n[0] == 'v' and any(same_after(x) for x in n[1])


def check(rec, d):
    from checks import c19, lib
    import pointless as P
    e, b = lib.raises(P.serialize_to_bytearray, lib.realise(d))
    if e:
        rec.count('refused')
        return
    root = P.Pointless(b).GetRoot()
    for o in c19.read_objects(root, []):
        s = show(rec, o, lib.show(d, 150))
        if s is not None:
            evaluates(rec, o, s, lib.show(d, 150))


OPAQUE = ('<', ' object at 0x', '>')


def opaque(rec, v, what):
    from checks import lib
    for f in (str, repr):
        e, s = lib.raises(f, v)
        rec.count('prints')
        if e or not (s.startswith('<') and s.endswith('>') and ' object at 0x' in s and type(v).__name__.split('.')[-1] in s and len(s) < 100):
            rec.violation('printed although disabled', '%s: %s' % (what, s))


def run(name, args, rec):
    from checks import c01, c02, c19, lib
    import pointless as P
    if name == 'pairs':
        L = c01.full_leaves() if args.get('big') else c01.mid_leaves()
        n = 0
        for k in c01.kinds():
            for r in (0, 1, 2):
                for ls in itertools.product(L, repeat=r):
                    n += 1
                    d = c01.build(k, list(ls)) if n % args['of'] == args['part'] else None
                    if d is not None and rec.begin(d):
                        check(rec, d)
    elif name == 'triples':
        for i, d in enumerate(c01.shape_trees([None, None, None], c01.small_leaves(12), 3)):
            if i % args['of'] == args['part'] and rec.begin(d):
                check(rec, d)
    elif name == 'nest':
        for s, n, k in (([[None]], 1, 26), ([[[None]]], 1, 14), ([[], None], 1, 26), ([[[]]], 0, 1), ([[], []], 0, 1), ([[None], None], 2, 5), ([None, [None]], 2, 5), ([[None, [None]]], 2, 2), ([[None], [None]], 2, 3)):
            for d in c01.shape_trees(s, c01.mid_leaves() if k > 14 else c01.small_leaves(k), n):
                if rec.begin(d):
                    check(rec, d)
        for d in rec.cases(c01.full_leaves() + lib.bit_forms()):
            check(rec, [d])
            check(rec, {1: d, 'k': [d, d]})
            if not isinstance(d, (list, dict, set, bytearray, lib.Prim, lib.Bits)):
                check(rec, {d: (d, (d, ))})
                check(rec, {(d, ((d, ), d)): d, (): ()})
                check(rec, {(d, ), ((d, ), )})
    elif name == 'strings':
        cs = ['a', "'", '"', '\\', '\n', '\t', '\r', '\x01', '\x7f', '\x80', '\xe9', '\u0100', '\u2028', '\ud7ff', '\U0001f600', '\U0010ffff', '\xad', '\u200b']
        for n in (1, 2):
            for t in itertools.product(cs, repeat=n):
                s = ''.join(t)
                if rec.begin(s):
                    check(rec, [s])
                    check(rec, {s: s})
        for t in itertools.product(cs[:4] + cs[10:15:2], repeat=3):
            s = ''.join(t)
            if rec.begin(s):
                check(rec, [s, 'x', {s}])
    elif name == 'bits':
        for n in range(args['n'] + 1):
            for m in range(2**n):
                if not rec.begin((n, m)):
                    continue
                b = lib.Bits(m >> i & 1 for i in range(n))
                want = (bin(m)[2:].rjust(n, '0') if n else '') + 'b'
                show(rec, b.make(), 'bits', want=want)
                for nb in (True, False):
                    r = P.Pointless(P.serialize_to_bytearray([b.make(), {1: b.make()}], normalize_bitvector=nb)).GetRoot()
                    show(rec, r[0], 'read bits', want=want)
                    show(rec, r[0].copy(), 'copied bits', want=want)
                    show(rec, r, 'list of bits', want='[%s, {1: %s}]' % (want, want))
    elif name == 'prims':
        for tc, (lo, hi) in list(lib.PRIM_RANGE.items()) + [('f', (0, 0))]:
            al = [lo, hi, 0, 1, lo // 2, hi // 3 + 1] if tc != 'f' else [0.0, -0.0, 1.5, -0.1, 1e30, float('inf'), float('-inf'), float('nan'), 1e-7, 16777216.0]
            for n in range(4):
                for t in itertools.product(al, repeat=n):
                    if not rec.begin((tc, t)):
                        continue
                    v = P.PointlessPrimVector(tc, sequence=list(t))
                    fmt = (lambda x: '%f' % lib.f32(x)) if tc == 'f' else str
                    want = '[' + ', '.join(map(fmt, t)) + ']'
                    show(rec, v, tc, want=want)
                    show(rec, v[0:n], tc + ' slice', want=want)
                    if n > 1:
                        show(rec, v[1:n], tc + ' slice', want='[' + ', '.join(map(fmt, t[1:])) + ']')
                    r = P.Pointless(P.serialize_to_bytearray([v, {2: v}])).GetRoot()
                    show(rec, r[0], 'read ' + tc, want=want)
                    show(rec, r, 'read ' + tc, want='[%s, {2: %s}]' % (want, want))
                    for i in range(n + 1):
                        show(rec, r[0][i:n], 'read slice ' + tc, want='[' + ', '.join(map(fmt, t[i:])) + ']')
    elif name == 'wide':
        for n in (10, 100, 255, 256, 257, 1000, 5000):
            for d in (list(range(n)), ['s%d' % i for i in range(n)], {i: [i] for i in range(n)}, set(range(n)), [[i, 'x'] for i in range(n)], 'y' * n, lib.Bits(i % 3 == 0 for i in range(n)), [{i: (i, 'z')} for i in range(n)], {(i, ('q', i)) for i in range(n)}):
                if rec.begin((n, d)):
                    live = lib.realise([d, d])
                    r = P.Pointless(P.serialize_to_bytearray(live)).GetRoot()
                    s = show(rec, r, 'wide')
                    if s:
                        evaluates(rec, r, s, 'wide')
    elif name == 'slices':
        for n in range(7):
            for what, d in c19.vectors(n):
                if not rec.begin((what, n)):
                    continue
                v = P.Pointless(P.serialize_to_bytearray(['other', lib.realise(d), 'x'])).GetRoot()[1]
                for i, j in c19.slices(n):
                    s = v[i:j]
                    show(rec, s, '%s[%d:%d]' % (what, i, j), True)
                    for x, y in c19.slices(j - i):
                        show(rec, s[x:y], '%s[%d:%d][%d:%d]' % (what, i, j, x, y), True)
    elif name == 'config':
        config(rec)
    elif name == 'graphs':
        n = args['nodes']
        S = [s for s in c02.seqs(n, 2) if n == 3 and s.count(c02.LEAF) < 2 or (len(set(s)) == len(s) and c02.LEAF not in s)]
        c = 0
        for kinds in (itertools.product('ldt', repeat=3) if n == 3 else ('llll', 'ldlt')):
            for es in itertools.product(S, repeat=n):
                c += 1
                if c % args['of'] != args['part']:
                    continue
                r = c02.reach(es)
                if not all(r[0][i] for i in range(1, n)):
                    continue
                obj = c02.make(kinds, es)
                if obj is None or not rec.begin((''.join(kinds), es)):
                    continue
                root = P.Pointless(P.serialize_to_bytearray(obj[0])).GetRoot()
                seen, todo = {}, [root]
                while todo:
                    v = todo.pop()
                    k = (type(v), v.container_id)
                    if k in seen and len(v):
                        continue
                    seen[k] = v
                    s = show(rec, v, 'graph')
                    if s and '...' not in s:
                        evaluates(rec, v, s, 'graph')
                    for x in (v.values() if type(v) is lib.PM else v):
                        if type(x) in (lib.PV, lib.PM):
                            todo.append(x)
                    if type(v) is lib.PV:
                        for i, j in c19.slices(len(v)):
                            show(rec, v[i:j], 'graph [%d:%d]' % (i, j), 'whole' if (i, j) == (0, len(v)) else True)


def config(rec):
    from checks import c19, lib
    import pointless as P
    live = lib.realise([[1, 'a', [2, 'b']], {1: 'm', (1, 2): {3: 4}}, {1, (2, 'x')}, lib.Bits([1, 0, 1]), lib.Bits([1, 0] * 30), lib.Prim('u16', [1, 2, 3]), [1.5, 'x'], [], {}, set()])
    import os
    import tempfile
    fd, path = tempfile.mkstemp(dir=lib.tmpdir())
    os.close(fd)
    P.serialize(live, path)
    buf = P.serialize_to_bytearray(live)
    for src, validate, order in itertools.product((path, buf), (True, False), range(2)):
        for allow in (True, False):
            if not rec.begin(('read', src is path, validate, order, allow)):
                continue
            # another handle on the same source with the other setting
            hs = {}
            for a in ((True, False) if order else (False, True)):
                hs[a] = P.Pointless(src, allow_print=a, validate=validate)
            root = hs[allow].GetRoot()
            for o in [root] + c19.read_objects(root, [])[1:]:
                objs = [o]
                if type(o) is lib.PV:
                    n = len(o)
                    objs += [o[i:j] for i, j in c19.slices(n)] + [o[i:n][0:j] for i in range(n) for j in range(n - i)]
                    objs += [x for x in reversed(o)] if hasattr(o, '__reversed__') else []
                elif type(o) is lib.PB:
                    objs += [o.copy(), o.copy().copy()]
                elif type(o) is lib.PM:
                    objs += list(o) + list(o.keys()) + list(o.values()) + [x for y in o.items() for x in y] + [o.get(k) for k in o] + [o[k] for k in o]
                elif type(o) is lib.PS:
                    objs += list(o)
                for x in objs:
                    if type(x) not in (lib.PV, lib.PM, lib.PS, lib.PB):
                        continue
                    if allow:
                        show(rec, x, 'printing enabled', type(x) is lib.PV)
                    else:
                        opaque(rec, x, 'printing disabled, %s' % type(x).__name__)
            rec.nontrivial()
    os.unlink(path)
    # own objects
    for allow in (None, True, False):
        kw = {} if allow is None else dict(allow_print=allow)
        for tc in list(lib.PRIM_RANGE) + ['f']:
            if not rec.begin(('prim', tc, allow)):
                continue
            c = float if tc == 'f' else int
            want = lambda a: '[' + ', '.join(['%f' % x if tc == 'f' else '%d' % x for x in a]) + ']'
            idx = P.PointlessPrimVector('u32', sequence=[2, 0, 1])
            for mk in (lambda: P.PointlessPrimVector(tc, sequence=[c(3), c(1), c(2)], **kw), lambda: P.PointlessPrimVector(buffer=P.PointlessPrimVector(tc, sequence=[c(3), c(1), c(2)]).serialize(), **kw),
                       lambda: P.PointlessPrimVector(tc, sequence=iter([c(3), c(1), c(2)]), **kw)):
                v = mk()
                objs = [(v, [3, 1, 2]), (v[0:3], [3, 1, 2]), (v[1:3], [1, 2]), (v[0:2][1:2], [1]), (v[1:1], []), (P.PointlessPrimVector.FromRemap(v, idx), [2, 3, 1]), (P.PointlessPrimVector.FromRemap(v[0:3], idx), [2, 3, 1])]
                w = mk()
                w.append(c(9))
                w.sort()
                objs.append((w, [1, 2, 3, 9]))
                objs.append((w[1:4], [2, 3, 9]))
                w2 = mk()
                w2.pop()
                w2.clear()
                objs.append((w2, []))
                for o, a in objs:
                    if allow is False:
                        opaque(rec, o, 'primitive vector')
                    else:
                        show(rec, o, 'primitive vector', want=want(a))
            rec.nontrivial()
        for n in range(4):
            if not rec.begin(('bits', n, allow)):
                continue
            b = P.PointlessBitvector(sequence=[1] * n, **kw)
            z = P.PointlessBitvector(size=n, **kw)
            g = b.copy()
            g.append(False)
            h = z.copy().copy()
            h.extend_true(2)
            for o, w in ((b, '1' * n), (z, '0' * n), (b.copy(), '1' * n), (g, '0' + '1' * n), (h, '11' + '0' * n), (h.copy(), '11' + '0' * n)):
                if allow is False:
                    opaque(rec, o, 'bitvector')
                else:
                    show(rec, o, 'bitvector', want=w + 'b')
            rec.nontrivial()
