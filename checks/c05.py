"""C05: comparison is one consistent order. All pairs of values of a pool, in
all representations, through every comparing operation."""
import itertools

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of pairs and triples of values and representations on the real code'
NOTE = 'Complete for the stated pools; all representations of both operands, both directions, triples for transitivity.'
RULE = 'a case is one value in one representation against the whole pool (or all triples starting at it); non-trivial when at least one pair is comparable'
BOUNDS = {
    'quick': 'Python: 120 scalars and bitvectors, 330 vectors (all up to length 2 over 14 items, nested), 3 to 8 representations of each, all pairs; bitvectors: all up to 5 bits and 40 across the stored forms, in 9 forms; C: 106 values in 6 creation styles, all pairs and all triples',
    'thorough': 'all representations (up to 60) of each value, all bitvectors up to 7 bits, C: 302 values, all pairs and triples',
}
NEEDS = ['plain', 'asan', 'c:cmp:asan']
ASSUMPTIONS = ['NaN is outside the order, as in Python', 'values of different types either raise in both directions or compare antisymmetrically']

NUM = [False, True, 0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536, 2**24, 2**24 + 1, 2**31 - 1, 2**31, 2**32 - 1, -2**31,
       0.0, -0.0, 1.0, 2.0, -1.0, 0.5, -0.5, 128.0, 16777217.0, 2147483648.0, -2147483648.0, 4294967040.0, 4294967296.0, 3.4e38, float('inf'), float('-inf'), 1e-46, 1e300]
BIG = [2**32, -2**31 - 1, 2**63 - 1, -2**63, 2**63, 2**64 - 1, 2**53 + 1]
ITEMS = [None, True, 0, 1, -1, 255, 2**24 + 1, 2**32 - 1, 16777216.0, 1.0, 0.5, 'a', '\u0100', '\U0001f600']


def tasks(tier):
    t = []
    n = 6 if tier == 'quick' else 16
    t.append(('scalars', dict(limit=4 if tier == 'quick' else 99)))
    for i in range(n):
        t.append(('vectors', dict(part=i, of=n, limit=3 if tier == 'quick' else 9)))
    t.append(('reps', dict(limit=8 if tier == 'quick' else 99)))
    t.append(('reps', dict(limit=6, variant='asan')))
    t.append(('bits', dict(n=5 if tier == 'quick' else 7)))
    t.append(('bits', dict(n=3, variant='asan')))
    t.append(('cmp', dict(variant='c:cmp:asan', argv=[0 if tier == 'quick' else 1], case_cpu_s=60)))
    return t


def clsof(v):
    from checks import lib
    if v is None:
        return 'n'
    if isinstance(v, (int, float)):
        return 'f'
    if isinstance(v, str):
        return 's'
    if isinstance(v, lib.Bits):
        return 'B'
    return 'v'


def num(v):
    from checks import lib
    return lib.f32(v) if isinstance(v, float) else int(v)


def order(a, b):
    """-1 0 1, or None: different types"""
    c = clsof(a)
    if c != clsof(b):
        return None
    if c == 'n':
        return 0
    if c == 'f':
        a, b = num(a), num(b)
    elif c == 'B':
        a, b = a.bits, b.bits
    elif c == 'v':
        for x, y in zip(a, b):
            o = order(x, y)
            if o != 0:
                return o
        a, b = len(a), len(b)
    return (a > b) - (a < b)


def equal(a, b):
    """Python equality: different types are unequal"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return order(a, b) == 0


def rich(a, b, op):
    """Python's own answer for two lists; None: TypeError"""
    if op in ('__eq__', '__ne__'):
        return equal(a, b) is (op == '__eq__')
    for x, y in zip(a, b):
        if not equal(x, y):
            if isinstance(x, tuple) and isinstance(y, tuple):
                return rich(x, y, op)
            o = order(x, y)
            return None if o is None else (o < 0) is (op in ('__lt__', '__le__'))
    if len(a) != len(b):
        return (len(a) < len(b)) is (op in ('__lt__', '__le__'))
    return op in ('__le__', '__ge__')


OPS = ['__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__']


def pair(rec, a, an, x, b, bn, y):
    from checks import lib
    import operator
    import pointless as P
    rec.count('pairs')
    want = order(a, b)
    e1, r1 = lib.raises(P.pointless_cmp, x, y)
    e2, r2 = lib.raises(P.pointless_cmp, y, x)
    at = lambda: '%r (%s) and %r (%s)' % (a, an, b, bn)
    if e1 != e2:
        return rec.violation('an error in one direction only', '%s: %r, %r' % (at(), r1, r2))
    if e1:
        if want is not None:
            return rec.violation('comparable values are refused', '%s: %r' % (at(), r1))
        if isinstance(r1, SystemError):
            return rec.violation('comparison breaks the interpreter', '%s: %r' % (at(), r1))
    else:
        s = (r1 > 0) - (r1 < 0)
        if s != (r2 < 0) - (r2 > 0):
            return rec.violation('comparison is not antisymmetric', '%s: %r, %r' % (at(), r1, r2))
        if want is not None and s != want:
            return rec.violation('comparison disagrees with the values', '%s: %r, expected %r' % (at(), r1, want))
    e, q = lib.raises(P.pointless_is_eq, x, y)
    if e != e1 or (not e and q is not (r1 == 0)):
        return rec.violation('equality is not comparison giving zero', '%s: is_eq %r, cmp %r' % (at(), q, r1))
    if type(x) is lib.PV and type(y) is lib.PV:
        for op in OPS:
            w = rich(a, b, op)
            e, q = lib.raises(getattr(operator, op), x, y)
            if (w is None) != e or (e and not isinstance(q, TypeError)) or (not e and q is not w):
                return rec.violation('rich comparison disagrees with lists', '%s %s: %r, expected %r' % (at(), op, q, 'TypeError' if w is None else w))
    if type(x) is lib.PB and type(y) is lib.PB:
        for op in OPS:
            e, q = lib.raises(getattr(operator, op), x, y)
            w = {'__eq__': want == 0, '__ne__': want != 0, '__lt__': want < 0, '__le__': want <= 0, '__gt__': want > 0, '__ge__': want >= 0}[op]
            if e or q is not w:
                return rec.violation('rich comparison of bitvectors', '%s %s: %r, expected %r' % (at(), op, q, w))


def pool(vals, limit, skip=()):
    from checks import reps
    out = []
    for v in vals:
        rs = reps.reps(v)
        n = min(limit, len(rs))
        off = hash(repr(v)) % len(rs)
        for i in range(n):
            nm, o = rs[(off + i * len(rs) // n) % len(rs)]
            out.append((v, nm, o))
    return out


def run(name, args, rec):
    from checks import lib, reps
    import pointless as P
    L = args.get('limit', 4)
    if name == 'scalars':
        vals = [None] + NUM + lib.STRINGS + ['a\u0100', 'aa', 'b', '\xff', '\uffff', '\ue000', '\U00010000'] + [lib.Bits('')] + lib.bit_forms()[1:5] + [(), (1,), ('a',), (None,)]
        # vectors of one item keep what a scalar read loses
        vals += [(x,) for x in NUM if not isinstance(x, bool)] + [(x, 'x') for x in NUM[::2]] + [(x,) for x in BIG]
        P_ = pool(vals, L)
        # live integers beyond 64 bits cannot be stored, yet may be compared or refused
        for v, nm, x in P_:
            if not rec.begin((v, nm)):
                continue
            rec.nontrivial()
            for w, wn, y in P_:
                pair(rec, v, nm, x, w, wn, y)
    elif name == 'vectors':
        vals = [()] + [(x,) for x in ITEMS] + list(itertools.product(ITEMS, repeat=2))
        sub = [(), (1,), (1, 2), (1.0,), ('a',), (None,), (2**32 - 1, -1)]
        vals += [(s,) for s in sub] + [(s, t) for s in sub for t in sub] + [(1, s) for s in sub] + [(s, 'a') for s in sub] + [((s,),) for s in sub] + [(s, x) for s in sub[:3] for x in ITEMS]
        P_ = pool(vals, L)
        for v, nm, x in P_[args['part']::args['of']]:
            if not rec.begin((v, nm)):
                continue
            rec.nontrivial()
            for w, wn, y in P_:
                pair(rec, v, nm, x, w, wn, y)
    elif name == 'reps':
        # one pair of values at a time, all representations against all
        pairs = [((1, 2), (1, 3)), ((1, 2), (1, 2)), ((1.0, 2.0), (1, 2)), ((255,), (256,)), ((-1,), (2**32 - 1,)), ((), (0,)), (('a',), ('\u0100',)), ((2**24 + 1,), (2.0**24,)),
                 (((1, 2), 3), ((1, 2), 3)), (((1,),), ((1, 0),)), ((0.5, 1.5), (0.5, 1)), ((None,), (None, None)), ((2**31,), (2.0**31,)), ((2**63,), (2.0**63,)), ((2**64 - 1,), (-1,)),
                 (lib.Bits([1, 0, 1]), lib.Bits([1, 1])), ((lib.Bits([1] * 30), 1), (lib.Bits([1] * 31), 1)), ('a', '\U0001f600'), (1, 1.0), (None, None), ((), ())]
        for a, b in pairs:
            ra, rb = reps.reps(a), reps.reps(b)
            ra, rb = [r[:L] if L < 9 else r for r in (ra[::max(1, len(ra) // L)], rb[::max(1, len(rb) // L)])]
            for an, x in ra:
                if not rec.begin((a, an, b)):
                    continue
                rec.nontrivial()
                for bn, y in rb:
                    pair(rec, a, an, x, b, bn, y)
    elif name == 'bits':
        vals = [lib.Bits(p) for n in range(args['n'] + 1) for p in itertools.product((False, True), repeat=n)]
        vals += [b for b in lib.bit_forms() if len(b.bits) > args['n']]
        P_ = pool(vals, 3 if args['n'] > 3 else 9)
        for v, nm, x in P_:
            if not rec.begin((v, nm)):
                continue
            rec.nontrivial()
            for w, wn, y in P_:
                pair(rec, v, nm, x, w, wn, y)
