"""C04: equal values hash equally. Every value of the alphabets in every
representation; one hash per class of equal values."""
import itertools

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of values, representations and pairs of them on the real code'
NOTE = 'Complete for the stated alphabets and lengths; the representations are all that public calls can produce from one value.'
RULE = 'a case is one abstract value (or one batch of pairs) in every representation; non-trivial when it has at least two representations or numerically equal counterparts of another type'
BOUNDS = {
    'quick': '45 scalars, 65 bitvectors, all vectors up to length 2 over 20 items and of equal items up to length 40, nested vectors to depth 3; each in up to 60 representations; equality-versus-hash for all pairs of 400 objects',
    'thorough': 'all vectors up to length 3 over 24 items, all bitvectors up to 12 bits, all pairs of 1600 objects',
}
NEEDS = ['plain', 'asan']
ASSUMPTIONS = ['equality is Python equality after narrowing floats to 32 bits, as for stored values']

NUM = [False, True, 0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536, 2**24 + 1, 2**31 - 1, 2**31, 2**32 - 1, -2**31,
       0.0, -0.0, 1.0, 2.0, -1.0, 0.5, -0.5, 128.0, 16777217.0, 2147483648.0, -2147483648.0, 2.0**31 - 128, 4294967040.0, 3.4e38, -3.4e38, float('inf'), float('-inf'), 1e-46, 1e300]
BIG = [2**32, -2**31 - 1, 2**40 + 1, 2**63 - 1, -2**63, 2**63, 2**64 - 1, 2**32 + 1, -2**40]
ITEMS = [None, False, True, 0, 1, -1, 255, 65536, 2**31, 2**32 - 1, -2**31, 0.0, 1.0, 0.5, -1.0, '', 'a', '\xe9', '\u0100', '\U0001f600']
ITEMS3 = ITEMS + [(), (1,), (1.0,), ('a',)]


def tasks(tier):
    t = [('scalars', {}), ('scalars', dict(variant='asan')), ('wide', {}), ('wide', dict(variant='asan')), ('pairs', {})]
    for i in range(4):
        t.append(('vectors', dict(n=2, part=i, of=4)))
    t.append(('nested', {}))
    t.append(('nested', dict(variant='asan')))
    if tier == 'thorough':
        for i in range(16):
            t.append(('vectors', dict(n=3, part=i, of=16)))
        for i in range(8):
            t.append(('pairs', dict(big=1, part=i, of=8)))
        t.append(('bits', {}))
    return t


def counterparts(x):
    """equal values of other types, item by item"""
    if isinstance(x, bool):
        return [x, int(x), float(x)]
    if isinstance(x, int):
        out = [x]
        if x in (0, 1):
            out.append(bool(x))
        # beyond 32 bits: see the 'float' cases
        if float(x) == x and -2**31 <= x < 2**32:
            from checks import lib
            if lib.f32(float(x)) == x:
                out.append(float(x))
        return out
    if isinstance(x, float):
        from checks import lib
        f = lib.f32(x)
        out = [x]
        if f == f and abs(f) != float('inf') and f == int(f) and -2**31 <= f < 2**32:
            out.append(int(f))
            if f in (0, 1):
                out.append(bool(f))
        if f == 0.0:
            out += [0.0, -0.0]
        return out
    if isinstance(x, tuple):
        if len(x) > 4:
            return [x]
        return [tuple(p) for p in itertools.product(*[counterparts(y)[:3] for y in x])][:9]
    return [x]


def check(rec, d, pyhash=True):
    from checks import lib, reps
    import pointless as P
    first = None
    for c in counterparts(d):
        for name, o in reps.reps(c):
            rec.count('representations')
            e, h = lib.raises(P.pyobject_hash_32, o)
            if e:
                rec.violation('a hashable value is refused', '%r %s: %r' % (c, name, h))
                continue
            if not (type(h) is int and 0 <= h < 2**32):
                rec.violation('hash is not a 32-bit number', '%r %s: %r' % (c, name, h))
            if isinstance(c, lib.Bits) and isinstance(o, P.PointlessBitvector) and hash(o) != h and hash(o) not in (h, h - 2**32, -2):
                # hash() must be consistent among bitvectors
                if first is not None and len(first) > 3 and first[3] != hash(o):
                    rec.violation('hash() differs between equal bitvectors', '%s: %d' % (name, hash(o)))
            if first is None:
                first = (h, name, c, hash(o) if isinstance(o, P.PointlessBitvector) else None)
            elif h != first[0]:
                rec.violation('equal values hash differently', '%r %s: %d, %r %s: %d' % (first[2], first[1], first[0], c, name, h))
                return
            elif isinstance(o, P.PointlessBitvector) and hash(o) != first[3]:
                rec.violation('hash() differs between equal bitvectors', '%s: %d' % (name, hash(o)))
    if first is not None:
        rec.nontrivial()


def run(name, args, rec):
    from checks import lib, reps
    from checks.c03 import key
    import pointless as P
    if name == 'scalars':
        for d in [None] + NUM + lib.STRINGS + ['a\u0100', 'x' * 300, '\u0100' * 300, '\U0010ffff', '\xff\xfe'] + lib.bit_forms():
            if rec.begin(d):
                check(rec, d)
    elif name == 'vectors':
        it = itertools.chain.from_iterable(itertools.product(ITEMS3 if args['n'] > 2 else ITEMS, repeat=k) for k in range(args['n'] + 1))
        for d in itertools.islice(it, args['part'], None, args['of']):
            if rec.begin(d):
                check(rec, d)
    elif name == 'wide':
        for x in NUM + BIG:
            for k in (1, 2, 3, 8, 40):
                d = (x,) * k
                if rec.begin(d):
                    check(rec, d)
        for x, y in itertools.product(BIG + [0, -1], BIG + [1.0, 'a', (1,)]):
            if isinstance(x, int) and isinstance(y, int):
                d = (x, y)
                if reps.fits('i64', d) or reps.fits('u64', d):
                    if rec.begin(d):
                        check(rec, d)
            d = ((x,), y if not reps.big(y) else (y,))
            if rec.begin(d):
                check(rec, d)
        # 64-bit items against equal 32-bit floats
        for x in (2**32, 2**33, 2**40, 2**63, 3 * 2**40, -2**32, -2**33, -2**63):
            if rec.begin(('float', x)):
                tc = 'i64' if x < 0 else 'u64'
                a = P.pyobject_hash_32(lib.Prim(tc, [x]).make())
                b = P.pyobject_hash_32((float(x),))
                if a != b:
                    rec.violation('64-bit items hash differently from equal floats', '%d: %d, %r: %d' % (x, a, float(x), b))
    elif name == 'nested':
        leaf = [None, 0, -1, 1.0, 'a', '\u0100', 2**32 - 1, (), (1, 2), (0.5,), ('a', 'b'), (-1, 2**32 - 1)]
        lv2 = [(a, b) for a in leaf for b in leaf if isinstance(a, tuple) or isinstance(b, tuple)]
        for d in lv2 + [(x,) for x in lv2] + [(x, 1) for x in lv2[::3]] + [('a', x, x) for x in lv2[::3]]:
            if rec.begin(d):
                check(rec, d)
        for b in lib.bit_forms()[::2]:
            for d in ((b,), (b, 1), ((b,), b)):
                if rec.begin(d):
                    check(rec, d)
        deep = ()
        for i in range(40):
            deep = (deep, i) if i % 2 else (deep,)
            if rec.begin(('deep', i)):
                check(rec, deep)
    elif name == 'bits':
        for n in range(13):
            for p in itertools.product((False, True), repeat=n):
                d = lib.Bits(p)
                if rec.begin(d):
                    check(rec, d)
    elif name == 'pairs':
        # whatever the library calls equal must hash equally, over all pairs of objects
        pool = []
        vals = [None] + NUM + lib.STRINGS + lib.bit_forms()[:20] + [(), (0,), (False,), (0.0,), (1, 2), (1.0, 2), (1.0, 2.0), (True, 2), (-1,), (-1.0,), (2**32 - 1,), ('a',), ('a', ''), (None,), ((),), ((0,),), ((0.0,), 1)]
        for v in vals:
            rs = reps.reps(v)
            n = len(rs) if args.get('big') else 4
            pool += [(v, nm, o, P.pyobject_hash_32(o)) for nm, o in (rs if n >= len(rs) else [rs[i * len(rs) // n] for i in range(n)])]
        for i in range(args.get('part', 0), len(pool), args.get('of', 1)):
            if not rec.begin((pool[i][0], pool[i][1])):
                continue
            rec.nontrivial()
            a = pool[i]
            for b in pool:
                rec.count('pairs')
                e, r = lib.raises(P.pointless_is_eq, a[2], b[2])
                if not e and r and a[3] != b[3]:
                    rec.violation('values that compare equal hash differently', '%r %s %d, %r %s %d' % (a + b))
                if not e and r is not (key(a[0]) == key(b[0])):
                    rec.violation('equality disagrees with the values', '%r %s, %r %s: %r' % (a[0], a[1], b[0], b[1], r))
