"""C01: every value that serialises reads back as the same value.
Exhaustive over value trees (by shape and leaf alphabet) x options x routes."""
import itertools
import os

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of value trees x options x routes on the real code against a plain-Python model'
NOTE = 'Complete within the stated shapes and leaf alphabet, on the real extension (also under AddressSanitizer for a part); says nothing of values outside the alphabet or deeper shapes (depth is C21).'
RULE = ('a case is one value tree run through serialisation options x routes and read back; non-trivial when it was accepted '
        'and holds at least one non-empty container, string, vector or bitvector, or was outside the domain and had to be refused')
BOUNDS = {
    'quick': 'all trees: 1 leaf (full alphabet of 75), each of 5 container kinds over 0-2 full-alphabet leaves, all shapes with 3 leaves or 2-3 container levels over a 14-leaf alphabet; 4 option combinations x buffer, bytearray; file route for the smaller trees; sizes 0-70 and 255..257, 65535..65537; 65600 values of each of 16 kinds in one list with one of each kind before or behind, and 6 kinds as the keys of one set or map; through the C API, with holes for zeros: numeric vectors of all 9 types whose bytes come within 5 items of 2^28..2^36 and the largest item counts, and other values placed within 40 words of 2^31..2^33 bytes; from Python, strings, byte and bit vectors past 2^31 and 2^32 items',
    'thorough': 'as quick with 4 leaves over 10 leaves, 3 leaves over 26 leaves, 3 container levels over the full alphabet, file route for all; the large vectors within 60 items and the other values within 2000 words',
}
NEEDS = ['plain', 'asan', 'c:huge:sparse']
ASSUMPTIONS = ['floats are compared after narrowing to 32 bits, every NaN counting as one value',
               'the reader used to compare is the public Python API of the same build']


def tasks(tier):
    t = [('leaf', {}), ('leaf', dict(variant='asan')), ('unsup', {}), ('unsup', dict(variant='asan')),
         ('scalars', {}), ('det', {}), ('pairs', dict(variant='asan', small=1)), ('options', {})]
    for k in range(5):
        t.append(('pairs', dict(kind=k)))
    t = [('sizes', dict(part=i, of=7)) for i in range(7)] + t
    d = tier != 'quick'
    for i in range(8):
        t.insert(7, ('many', dict(part=i, of=8, case_cpu_s=120)))
    t = [('huge', dict(mem_gb=40, rss_gb=22, case_cpu_s=120, full=d))] + t
    for i in range(2):
        t.append(('sizes', dict(variant='c:huge:sparse', argv=[i, 2, 60 if d else 5])))
        t.append(('offsets', dict(variant='c:huge:sparse', argv=[i, 2, 2000 if d else 40])))
    for sh in range(4):
        t.append(('triples', dict(part=sh, of=4)))
        t.append(('nest', dict(part=sh, of=4)))
    if tier == 'thorough':
        for sh in range(8):
            t.append(('triples', dict(part=sh, of=8, big=1)))
            t.append(('nest', dict(part=sh, of=8, big=1)))
            t.append(('quads', dict(part=sh, of=8)))
        for k in range(5):
            t.append(('pairs', dict(kind=k, variant='asan')))
    return t


def kinds():
    from checks import lib
    return [list, tuple, set, frozenset, 'dictv']


def build(kind, items):
    """a container description, or None when Python itself cannot build it"""
    try:
        if kind == 'dictv':
            # first half keys, second half values (padded)
            n = (len(items) + 1) // 2
            ks, vs = items[:n], list(items[n:]) + [None] * (2 * n - len(items))
            d = dict(zip(ks, vs))
            return d
        return kind(items)
    except TypeError:
        return None


def full_leaves():
    from checks.lib import STRINGS, INTS, FLOATS, Bits, Prim, PRIM_RANGE
    out = [None, True, False] + INTS + FLOATS + STRINGS
    out += [(), [], {}, set(), bytearray(b''), bytearray(b'\0\xff'), bytearray(range(9))]
    out += [Bits(''), Bits([1]), Bits([0, 1]), Bits([1, 0, 1]), Bits([1, 1, 0]), Bits([1, 0] * 16)]
    for tc, (lo, hi) in PRIM_RANGE.items():
        out.append(Prim(tc, [lo, 0, hi]))
    out.append(Prim('f', [1.5, float('inf'), -0.0]))
    out.append(Prim('u8', []))
    return out


def mid_leaves():
    from checks.lib import Bits, Prim
    return [None, True, 0, 1, -1, 2**32 - 1, -2**31, 0.5, -0.0, '', 'a', '\xe9', '\u0100', '\U0001f600',
            (), bytearray(b'x'), Bits([1, 0, 1]), Bits([1, 0] * 16), Prim('u16', [1, 65535]), Prim('i64', [-5]), 255, 256, 2**31, 1.0, 'ab', False]


def small_leaves(n=14):
    from checks.lib import Bits, Prim
    return [None, 'a', 1, -1, 0.5, '\xe9', '\U0001f600', 2**32 - 1, True, (), Bits([1, 0, 1]), Prim('u8', [7]), '\u0100', -2**31][:n]


def check(rec, d, files=False):
    from checks import lib
    import pointless as P
    live = lib.realise(d)
    try:
        want = lib.canon(lib.norm(d))
        supported = True
    except lib.Unsupported:
        supported = False
    ref = {}
    for uw in (False, True):
        for nb in (False, True):
            opt = dict(unwiden_strings=uw, normalize_bitvector=nb)
            bad, pv = lib.raises(P.serialize_to_buffer, live, **opt)
            bad2, ba = lib.raises(P.serialize_to_bytearray, live, **opt)
            rec.count('executions', 2)
            if bad != bad2:
                rec.violation('buffer and bytearray routes disagree', '%r / %r' % (pv, ba))
                continue
            if bad:
                if isinstance(pv, SystemError) or isinstance(ba, SystemError):
                    rec.violation('interpreter error instead of an exception', repr(pv))
                if must_accept(d):
                    rec.violation('a supported value is refused', repr(pv))
                ref['err'] = 1
                continue
            if not supported:
                rec.violation('a value outside the domain is accepted', 'read back: ' + lib.show(lib.got(P.Pointless(pv).GetRoot())))
                continue
            b = bytes(memoryview(pv))
            if b != bytes(ba):
                rec.violation('buffer and bytearray differ')
            again = P.serialize_to_bytearray(live, **opt)
            if again != ba:
                rec.violation('serialising twice gives different bytes')
            for src in (pv, ba):
                e, g = lib.raises(lambda: lib.got(P.Pointless(src).GetRoot()))
                if e:
                    rec.violation('cannot be read back', repr(g))
                elif lib.canon(g) != want:
                    rec.violation('reads back differently', 'options %r: got %s want %s' % (opt, lib.show(g), lib.show(want)))
            if files:
                fn = os.path.join(lib.tmpdir(), 'c01-%d' % os.getpid())
                e, g = lib.raises(P.serialize, live, fn, **opt)
                if e:
                    rec.violation('file route fails', repr(g))
                else:
                    with open(fn, 'rb') as f:
                        if f.read() != b:
                            rec.violation('file and buffer differ')
                    e, g = lib.raises(lambda: lib.got(P.Pointless(fn).GetRoot()))
                    if e or lib.canon(g) != want:
                        rec.violation('file reads back differently', lib.show(g))
                    os.unlink(fn)
    if 'err' not in ref or not supported:
        rec.nontrivial()
    return ref


def must_accept(d, key=False):
    """inside the documented domain beyond doubt (keys: scalars, strings and tuples of them, not equal after narrowing)"""
    from checks import lib
    if d is None or isinstance(d, bool):
        return True
    if isinstance(d, int):
        return -2**31 <= d < 2**32
    if isinstance(d, float):
        return not key or d == lib.f32(d)  # a NaN key may be refused
    if isinstance(d, str):
        return '\0' not in d
    if isinstance(d, tuple):
        return all(must_accept(x, key) for x in d)
    if isinstance(d, list):
        return not key and all(must_accept(x) for x in d)
    if isinstance(d, (bytearray, lib.Bits, lib.Prim)):
        return not key
    if isinstance(d, (set, frozenset)):
        return not key and all(must_accept(x, True) for x in d)
    if isinstance(d, dict):
        return not key and all(must_accept(k, True) and must_accept(v) for k, v in d.items())
    return False


def shape_trees(shape, leaves, n):
    """all trees of one shape: shape is a nested list with None at leaf positions"""
    for kinds_ in itertools.product(range(5), repeat=count_c(shape)):
        for ls in itertools.product(leaves, repeat=n):
            it, ki = iter(ls), iter(kinds_)
            t = fill(shape, it, ki)
            if t is not None:
                yield t[0]


def count_c(s):
    return 0 if s is None else 1 + sum(count_c(x) for x in s)


def fill(s, it, ki):
    if s is None:
        return (next(it),)
    k = kinds()[next(ki)]
    ch = [fill(x, it, ki) for x in s]
    if any(c is None for c in ch):
        return None
    r = build(k, [c[0] for c in ch])
    return None if r is None else (r,)


def part(it, args):
    return itertools.islice(it, args.get('part', 0), None, args.get('of', 1))


def run(name, args, rec):
    from checks import lib
    import pointless as P
    N = None
    if name == 'leaf':
        for d in rec.cases(full_leaves() + lib.bit_forms()):
            check(rec, d, True)
        for s in string_cases():
            if rec.begin(s):
                check(rec, s, True)
                check(rec, [s, s + 'x'], True)
                check(rec, {s: s}, True)
    elif name == 'unsup':
        bad = [2**32, -2**31 - 1, 2**63, 2**64, -2**63 - 1, 10**30, b'', b'x', 1j, object(), int, 'a\0', '\0', '\u0100\0b', '\U0001f600\0', Ellipsis, range(3), memoryview(b'x')]
        shapes = [lambda x: x, lambda x: [x], lambda x: (1, x), lambda x: {1: x}, lambda x: {x: 1}, lambda x: {x}, lambda x: [[x]], lambda x: ['a', 'b', [x], 'c'],
                  lambda x: {'k': {'l': [x]}}, lambda x: {1, 2, 3, x}, lambda x: frozenset([x]), lambda x: [bytearray(b'abc'), {1: 2}, x], lambda x: {(1, x): 2}, lambda x: {'a': 1, 'b': x, 'c': 3}]
        for x in bad:
            for i, f in enumerate(shapes):
                if rec.begin((i, x)):
                    check(rec, f(x), i < 4)
                    # an earlier refusal leaves no trace
                    check(rec, ['ok', 1, {2: 3}], False)
    elif name == 'pairs':
        L = full_leaves()
        if args.get('small'):
            L = mid_leaves()
        for k in ([args['kind']] if 'kind' in args else range(5)):
            for r in (0, 1, 2):
                for ls in itertools.product(L, repeat=r):
                    d = build(kinds()[k], list(ls))
                    if d is not None and rec.begin(d):
                        check(rec, d, r < 2)
    elif name == 'triples':
        L = mid_leaves() if args.get('big') else small_leaves()
        sh = [[None, None, None]]
        for s in sh:
            for d in part(shape_trees(s, L, 3), args):
                if rec.begin(d):
                    check(rec, d, bool(args.get('big')))
    elif name == 'nest':
        L = full_leaves() if args.get('big') else mid_leaves()
        for s, n in (([[None]], 1), ([[[None]]], 1), ([[], None], 1), ([None, []], 1), ([[[]]], 0), ([[], []], 0)):
            for d in part(shape_trees(s, L, n), args):
                if rec.begin(d):
                    check(rec, d, n == 0)
        L = mid_leaves() if args.get('big') else small_leaves(8)
        for s, n in (([[None], None], 2), ([None, [None]], 2), ([[None, None]], 2)):
            for d in part(shape_trees(s, L, n), args):
                if rec.begin(d):
                    check(rec, d)
        L = small_leaves(10) if args.get('big') else small_leaves(3)
        for s, n in (([[None, [None]]], 2), ([[None], [None]], 2), ([[[None], None]], 2)):
            for d in part(shape_trees(s, L, n), args):
                if rec.begin(d):
                    check(rec, d)
    elif name == 'quads':
        for s, n in (([None] * 4, 4), ([[None, None], [None, None]], 4)):
            for d in part(shape_trees(s, small_leaves(6 if n == 4 and s[0] else 8), n), args):
                if rec.begin(d):
                    check(rec, d)
    elif name == 'sizes':
        ns = list(range(0, 71)) + [127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1025, 4097, 65535, 65536, 65537]
        for n in ns:
            for what, d in (('ints', list(range(n))), ('mixed', [None if i % 3 else 'x' for i in range(n)]), ('strs', ['s%d' % i for i in range(n)]),
                            ('set', set(range(n))), ('sets', {'k%d' % i for i in range(n)}), ('map', {i: -i for i in range(n)}), ('maps', {'k%d' % i: [i] for i in range(n)}),
                            ('floats', [i * 0.5 for i in range(n)]), ('str', 'a' * n), ('str2', '\u0100' * n), ('str4', '\U0001f600' * n), ('str1', '\xe9' * n),
                            ('bytes', bytearray(i & 255 for i in range(n))), ('bits', lib.Bits([i % 3 == 1 for i in range(n)])), ('empties', [[] for i in range(n)]),
                            ('dups', ['x'] * n), ('lists', [[i] for i in range(n)]), ('u64', lib.Prim('u64', range(n))), ('i16', lib.Prim('i16', [i % 30000 - 99 for i in range(n)])))[args['part']::args['of']]:
                if n > 5000 and what in ('maps', 'sets', 'lists', 'strs', 'empties') and n != 65536:
                    continue
                if rec.begin((what, n)):
                    check(rec, d, n < 300 and what in ('ints', 'maps', 'str4'))
    elif name == 'scalars':
        # a cache of small scalars must never merge different ones: all of them in one value, and by type
        ints = list(range(-300, 600)) + [x for k in range(8, 33) for x in (2**k - 1, 2**k, 2**k + 1) if x < 2**32] + [-2**k + j for k in range(8, 32) for j in (-1, 0, 1) if -2**k + j >= -2**31]
        fl = [i / 4 for i in range(-300, 300)] + [float(x) for x in ints]
        for d in rec.cases([ints + ['x'], fl + ['x'], [x for p in zip(ints, fl) for x in p], ints, fl, [True, False, None] + ints, set(ints), {x: x for x in ints}, [(x, float(x)) for x in ints], [[x, 'y'] for x in ints]]):
            check(rec, d, True)
        ws = [0, 1, 255, 256, 65535, 65536, 2**31, 2**32 - 1, -1, -128, -129, -2**31]
        for a, b in itertools.product(ws, ws):
            for d in ([a, b], [a, b, 'x'], [a, float(b), 'x'], [float(a), float(b)], {a: b}, {float(a): b, 'x': a}, [[a, 'x'], [b, 'x'], a, b]):
                if rec.begin(d):
                    check(rec, d)
    elif name == 'det':
        # same value, different ways of building it
        for a in rec.cases(small_leaves()):
            l = lib.realise(a)
            for d in ([l, l], (l, l), [l, [l]], [[l], [l]]):
                b = P.serialize_to_bytearray(d)
                g = lib.got(P.Pointless(b).GetRoot())
                if not lib.same(g, lib.norm(d)):
                    rec.violation('reads back differently', lib.show(g))
                for i in range(3):
                    if P.serialize_to_bytearray(d) != b:
                        rec.violation('serialising twice gives different bytes')
            rec.nontrivial()
    elif name == 'many':
        # more values of one kind than 16 bits can number, and one of each kind behind or before them
        W = 65600
        one = lambda: [{1, 'a'}, {1: 'b', 'c': 2}, ('x', 5), ['y', 6], lib.Bits([1, 0] * 20), lib.Prim('u64', [1, 2]), bytearray(b'zz'), '\u0100x', '\U0001f600', 'end', -70000, 3000000000, 0.25, (), {}, set(), [], None, True]
        fills = dict(lists=lambda i: [i, 'x'], tuples=lambda i: (i, 'x'), maps=lambda i: {i: 'x'}, sets=lambda i: {i, 'x'}, bits=lambda i: lib.Bits([i >> b & 1 for b in range(20)]), longbits=lambda i: lib.Bits([i >> b & 1 for b in range(17)] + [1] * 24),
                     prims=lambda i: lib.Prim('u32', [i]), bytes=lambda i: bytearray(b'%d' % i), strs=lambda i: 's%d' % i, strs2=lambda i: '\u0100%d' % i, strs4=lambda i: '\U0001f600%d' % i, ints=lambda i: 10**6 + i, negs=lambda i: -10**6 - i, floats=lambda i: i + 0.5,
                     empties=lambda i: [], mixed=lambda i: ([i], {i}, 's%d' % i, {i: i}, lib.Prim('i16', [i % 30000]))[i % 5])
        for n, (what, f) in enumerate(fills.items()):
            for first in (0, 1):
                if n % args['of'] != args['part'] or not rec.begin((what, first)):
                    continue
                v = [f(i) for i in range(W)]
                check(rec, one() + v if first else v + one())
            # as the keys of one set and one map
            for m in (0, 1):
                if n % args['of'] == args['part'] and what in ('tuples', 'strs', 'strs2', 'ints', 'negs', 'floats') and rec.begin((what, 'map' if m else 'set')):
                    check(rec, {f(i): [i] for i in range(W)} if m else {f(i) for i in range(W)})
    elif name == 'huge':
        huge(rec, lib, P, args)
    elif name == 'options':
        # the options accept exactly booleans, and other call forms are refused
        for fn in ('serialize_to_buffer', 'serialize_to_bytearray'):
            for a, k in (((), {}), (([1], 1), {}), (([1],), dict(unwiden_strings=1)), (([1],), dict(normalize_bitvector=None)), (([1],), dict(nope=True)), (([1], True, False, 1), {})):
                if rec.begin((fn, repr(a), repr(k))):
                    e, v = lib.raises(getattr(P, fn), *a, **k)
                    if not e or isinstance(v, SystemError):
                        rec.violation('bad call accepted', repr(v))
                    rec.nontrivial()


def string_cases():
    import itertools
    cs = ['a', '\x7f', '\x80', '\xff', '\u0100', '\uffff', '\U00010000', '\U0010ffff', '\u4e2d', '\U0001f600']
    for n in (1, 2, 3):
        for t in itertools.product(cs, repeat=n):
            yield ''.join(t)
    for n in range(1, 40):
        for c in cs:
            yield 'a' * n + c
            yield c + 'b' * n


def huge(rec, lib, P, args):
    """values of more items than the file format counts are refused, and those of a few less are kept"""
    def bits(n):
        b = P.PointlessBitvector(n)
        b[n - 1] = b[1] = b[2**31] = 1
        return b
    B = 1 << 32
    over = [('a', B - 1), ('a', B), ('a', B + 3), ('\xe9', B), (bytearray(1), B), (bytearray(1), B + 5)]
    for v, n in over:
        for shape in ('list', 'key', 'root'):
            if shape != 'root' and (n != B or type(v) is bytearray and shape == 'key'):
                continue
            if not rec.begin((v, n, shape)):
                continue
            rec.nontrivial()
            x = v * n
            x = [1, x] if shape == 'list' else {x: 1} if shape == 'key' else x
            e, r = lib.raises(P.serialize_to_bytearray, x)
            if not e:
                rec.violation('a value outside the domain was accepted', '%d times %r' % (n, v))
            r = x = None
    for v, n in [(bytearray(1), 2**31 + 3)] + ([('a', 2**31 + 3), (bytearray(1), B - 1)] if args['full'] else []):
        if not rec.begin((v, n)):
            continue
        rec.nontrivial()
        x = v * n
        e, r = lib.raises(P.serialize_to_bytearray, [x, 5])
        if e:
            rec.violation('a value within the domain was refused', repr(r))
            continue
        r = P.Pointless(r).GetRoot()
        if r[1] != 5 or len(r[0]) != n or (type(v) is str and r[0] != x) or (type(v) is not str and (r[0][n - 1] != 0 or list(r[0][n - 3:]) != [0] * 3)):
            rec.violation('read back otherwise', '%d times %r' % (n, v))
        r = x = None
    for n in (2**31 + 3, B - 1):
        if not rec.begin(('bits', n)):
            continue
        rec.nontrivial()
        for what in ('root', 'list'):
            b = bits(n)
            r = P.serialize_to_bytearray(b if what == 'root' else [b, 5])
            b = P.Pointless(r).GetRoot()
            b = b if what == 'root' else b[0]
            if len(b) != n or [i for i in (0, 1, 2, 3, 2**31 - 1, 2**31, 2**31 + 1, n - 2, n - 1) if b[i]] != [1, 2**31, n - 1]:
                rec.violation('read back otherwise', '%d bits' % n)
            r = b = None
    for n in (B, B + 1, 2 * B):
        if rec.begin(('bits', n)) and not lib.raises(P.PointlessBitvector, n)[0]:
            rec.violation('a value outside the domain was accepted', '%d bits' % n)
