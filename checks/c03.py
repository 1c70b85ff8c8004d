"""C03: sets and maps find exactly the keys they hold. All key subsets (and
insertion orders) of alphabets full of colliding keys, all sizes across the
growth limits, all present and absent probes; oracle: dict/set."""
import itertools

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of key sets, insertion orders and probes on the real code against a dict/set model'
NOTE = 'Complete for the stated key alphabets (chosen so that keys of different types collide in full hash, in bucket and in probe chain) and sizes; keys outside them are not covered.'
RULE = 'a case is one set of keys in one insertion order, serialised as dict and set and probed with every key of the alphabet, in several representations; non-trivial when at least two keys or a key and an absent probe share a hash or a bucket chain'
BOUNDS = {
    'quick': '5 alphabets of 10-11 colliding keys: all subsets in two orders, all permutations of all subsets up to 4 keys; 4 key families x all sizes 0-200 and around every power of two to 2^12',
    'thorough': 'alphabets of 13 keys with all subsets, permutations of all subsets up to 5 keys; all sizes 0-1100 and to 2^16',
}
NEEDS = ['plain', 'asan']
ASSUMPTIONS = ['key equality is Python equality after narrowing floats to 32 bits', 'keys that are unequal in Python but equal after narrowing must be refused, not merged']


def tasks(tier):
    t = []
    for a in range(5):
        t.append(('subsets', dict(alpha=a)))
        for i in range(3):
            t.append(('perms', dict(alpha=a, part=i, of=3)))
    t.append(('subsets', dict(alpha=1, variant='asan', few=1)))
    for f in range(5):
        t.append(('sizes', dict(family=f)))
    t.append(('equal', {}))
    t.append(('equal', dict(variant='asan')))
    t.append(('kinds', {}))
    t.append(('kinds', dict(variant='asan')))
    if tier == 'thorough':
        for a in range(5):
            t.append(('subsets', dict(alpha=a, big=1)))
            for i in range(8):
                t.append(('perms', dict(alpha=a, part=i, of=8, big=1)))
        for f in range(5):
            t.append(('sizes', dict(family=f, big=1)))
    return t


def key(k):
    """canonical form: equal keys <=> equal canonical forms"""
    from checks import lib
    if k is None:
        return ('n',)
    if isinstance(k, (bool, int)):
        return ('num', int(k))
    if isinstance(k, float):
        f = lib.f32(k)
        if f != f:
            return ('nan', id(k))
        if f in (float('inf'), float('-inf')):
            return ('num', f)
        return ('num', int(f) if f == int(f) else f)
    if isinstance(k, str):
        return ('s', k)
    if isinstance(k, (tuple, lib.PV)):
        return ('v', tuple(key(x) for x in k))
    if isinstance(k, lib.PB):
        return ('B', lib.bits_of(k))
    if isinstance(k, lib.Bits):
        return ('B', tuple(int(b) for b in k.bits))
    raise TypeError(k)


def h(x):
    import pointless as P
    return P.pyobject_hash_32(x)


def alphabets(big=False):
    """each: keys that collide with each other, then probes that are never stored"""
    import pointless as P
    L = P.PointlessBitvector
    a = [
        # full hash 0 and 1 across types
        [0, '', None, 1, (), 'a', h('a'), (0,), (None,), ('',), h((0,))] + [h(()), ('', 0), (None, '')],
        # strings of every width against integers and floats with the same hash
        ['\xe9', h('\xe9'), '\u0100', h('\u0100'), '\U0001f600', h('\U0001f600'), 0.5, h(0.5), -1, 2**32 - 1, 1.5] + [h(1.5), -2**31, 2**31],
        # bucket collisions: same low bits
        [0, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096] + [8192, 2**20, 2**31],
        # tuples within tuples
        [(), ((),), ((), ()), (1,), ((1,),), (1, 1), (1, (1,)), h((1, 1)), h(((1,),)), (None, None), (0, None)] + [(None, 0), (0, 0), ((1,), 1)],
        # negative/unsigned pairs and floats
        [-1, 2**32 - 1, -2, 2**32 - 2, -2.0 ** 31, 2.0 ** 31, 1e30, h(1e30), -1e30, h(-1e30), 0.25] + [h(0.25), -0.25, h(-0.25)],
    ]
    out = []
    for s in a:
        ded = {}
        for k in s:
            ded.setdefault(key(k), k)
        s = list(ded.values())
        out.append(s[:13] if big else s[:11])
    return out


def extra_probes():
    return [0, 1, 2, -1, 3.5, 7, None, '', 'a', 'b', 'aa', (), (0,), ('a',), (1, 2), 2**32 - 1, float('inf'), '\xff', '\u1234', ((),), True, False, 0.0, -0.0, 1.0]


def check(rec, keys, probes, sets=True, light=False):
    """keys: list of distinct live keys"""
    from checks import lib
    import pointless as P
    want = {key(k): i for i, k in enumerate(keys)}
    clash = len(want) != len(keys)
    d = {k: i for i, k in enumerate(keys)}
    e, b = lib.raises(P.serialize_to_bytearray, d)
    rec.count('tables')
    if clash or any("('nan'" in repr(c) for c in want):
        if not e:
            rec.violation('keys that are equal when stored are accepted as two')
        return
    if e:
        rec.violation('dict is refused', repr(b))
        return
    e, m = lib.raises(lambda: P.Pointless(b).GetRoot())
    if e:
        rec.violation('dict cannot be opened', repr(m))
        return
    sent = object()

    def look(k, where):
        """every way of asking for one key"""
        c = key(k)
        try:
            i = want.get(c)
            g = m.get(k, sent)
            n = k in m
            if light:
                if (i is None) != (g is sent) or (i is not None and g != i) or n is not (i is not None):
                    raise AssertionError
                return
            g2 = m.get(k)
            n2 = m.__contains__(k)
            try:
                x = m[k]
            except KeyError:
                x = sent
        except AssertionError:
            rec.violation('wrong lookup result', '%s %r: get %r, in %r, want %r' % (where, k, g, n, i))
            return
        except Exception as ex:
            rec.violation('lookup of a hashable key fails', '%s %r: %r' % (where, k, ex))
            return
        if i is None:
            ok = g is sent and g2 is None and n is False and n2 is False and x is sent
        else:
            ok = g == i and g2 == i and n is True and n2 is True and x == i
        if not ok:
            rec.violation('wrong lookup result', '%s %r: get %r, get(default) %r, in %r, [] %r, want %r' % (where, k, g2, g, n, x, i))

    for k in probes:
        look(k, 'probe')
    rec.count('lookups', len(probes))
    ks, vs, its, it2 = list(m.keys()), list(m.values()), list(m.items()), list(m)
    n = len(keys)
    cks = [key(k) for k in ks]
    if not (len(m) == n and len(ks) == n and set(cks) == set(want) and sorted(vs) == list(range(n)) and [key(k) for k in it2] == cks and
            [key(k) for k, _ in its] == cks and [v for _, v in its] == vs and all(want[c] == v for c, v in zip(cks, vs))):
        rec.violation('iteration does not list every entry once', 'len %d keys %r values %r' % (len(m), ks, vs))
    if not light:
        for k in ks:
            look(k, 'stored key')
    if not sets:
        return
    e, b = lib.raises(P.serialize_to_bytearray, set(keys))
    if e:
        rec.violation('set is refused', repr(b))
        return
    e, s = lib.raises(lambda: P.Pointless(b).GetRoot())
    if e:
        rec.violation('set cannot be opened', repr(s))
        return
    for k in probes:
        try:
            g = k in s
        except Exception as ex:
            rec.violation('lookup of a hashable key fails', 'set %r: %r' % (k, ex))
            continue
        if g is not (key(k) in want):
            rec.violation('wrong set lookup', '%r: %r' % (k, g))
    l = list(s)
    if not (len(s) == n and len(l) == n and set(key(k) for k in l) == set(want)):
        rec.violation('set iteration does not list every entry once', repr(l))


def family(f, n):
    """n distinct keys, and some absent ones"""
    if f == 0:
        return list(range(n)), list(range(n, 2 * n + 8))
    if f == 1:
        return ['k%d' % i for i in range(n)], ['k%d' % i for i in range(n, 2 * n + 8)] + ['', 'k']
    if f == 2:      # all in few buckets
        p = 1
        while p < n + n // 2 + 1:
            p <<= 1
        m = max(1, (2**32 - 1) // p - 1)
        return [(i * p) % (m * p) + (0 if i < m else i // m) for i in range(n)], [i * p + 1 for i in range(min(n + 4, m))]
    if f == 3:
        return [(i, str(i)) if i % 3 else (i,) for i in range(n)], [(i, str(i + 1)) for i in range(n + 4)]
    ks = []
    for i in range(n):
        ks.append([i, -i - 1, i + 0.5, 'x\u0100%d' % i, (i,), 2**32 - 1 - i][i % 6])
    return ks, [i + 0.25 for i in range(n + 4)] + [-i for i in range(6 * n, 6 * n + 5)]


def run(name, args, rec):
    from checks import lib
    import pointless as P
    if name in ('subsets', 'perms'):
        al = alphabets(args.get('big', False))
        a = al[args['alpha']]
        probes = a + [k for k in al[(args['alpha'] + 1) % 5] if key(k) not in [key(x) for x in a]][:6] + extra_probes()
        if name == 'subsets':
            for m in range(1 << len(a)):
                if args.get('few') and bin(m).count('1') > 3:
                    continue
                sub = [a[i] for i in range(len(a)) if m >> i & 1]
                for rev in (0, 1):
                    if rev and len(sub) < 2:
                        continue
                    s = sub[::-1] if rev else sub
                    if rec.begin(s):
                        rec.nontrivial((args['alpha'], m, rev))
                        check(rec, s, probes)
        else:
            mx = 5 if args.get('big') else 4
            it = (p for r in range(2, mx + 1) for p in itertools.permutations(a[:11], r))
            for p in itertools.islice(it, args['part'], None, args['of']):
                if rec.begin(p):
                    rec.nontrivial((args['alpha'], p))
                    check(rec, list(p), a + extra_probes()[:8], sets=False, light=True)
    elif name == 'sizes':
        f = args['family']
        top = 1100 if args.get('big') else 200
        sizes = list(range(top + 1))
        k = 8
        lim = 1 << (16 if args.get('big') else 12)
        while k <= lim:
            for s in (k * 2 // 3, k):
                sizes += [s - 1, s, s + 1, s + 2]
            k *= 2
        for n in sorted(set(sizes)):
            if f == 2 and n > 600:
                continue
            if rec.begin((f, n)):
                if n > 1:
                    rec.nontrivial()
                ks, ab = family(f, n)
                check(rec, ks, ks + ab, light=True)
    elif name == 'equal':
        # every numeric value in every stored type, found by every equal probe
        vals = [0, 1, 2, 127, 255, 2**24, 2**24 + 1, 2**31 - 128, 2**31, 2**32 - 256, 2**32 - 1, 2**31 - 1, 2**32 - 2, -1, -2, -2**24, -2**24 - 1, -2**31, 0.5, -0.5, 0.1, 1e10, -1e10, 1e300, -1e300,
                float('inf'), float('-inf'), 16777217.0, 2147483647.0, 4294967295.0, 1e-46, -0.0]
        reps = {}
        for v in vals:
            reps[repr(v)] = [v] + ([float(v)] if isinstance(v, int) else []) + ([int(v)] if isinstance(v, float) and v == v and abs(v) < 2**32 and v == int(v) and v >= -2**31 else []) + ([bool(v)] if v in (0, 1) else []) + ([lib.f32(v)] if isinstance(v, float) else [])
        probes = [r for rs in reps.values() for r in rs]
        for rs in reps.values():
            for r in rs:
                for wrap in (lambda x: x, lambda x: (x,), lambda x: (x, 'a'), lambda x: (x, x), lambda x: ((x,), None)):
                    if rec.begin((r, repr(wrap(r)))):
                        rec.nontrivial()
                        check(rec, [wrap(r)], [wrap(p) for p in probes])
                        check(rec, [wrap(r), 'other', ()], [wrap(p) for p in probes])
        for x, y in itertools.combinations(probes, 2):
            if x != y and rec.begin((x, y)):
                rec.nontrivial()
                check(rec, [x, y], [x, y, 3])
        for v in vals:
            if rec.begin(('nan', v)):
                rec.nontrivial()
                n = float('nan')
                check(rec, [v, n], [])
                check(rec, [v, (1, 2)], [n, (n,), (v, n), (1, n)])
                check(rec, [n], [])
                check(rec, [(v, n)], [])
    elif name == 'kinds':
        # every kind of key, probed in every representation of it (live, read back, from another file, slice)
        keys = [None, True, 0, 5, -5, 2**32 - 1, 0.5, -3.0, '', 'a', 'ab', '\xe9', '\u0100', '\U0001f600', 'a\U0010ffff\xe9', (), (1,), (300, 2), (-1, 1), (-1, 2**32 - 1), (1.5,), (1, 1.5), (1, 'a'), ('a',),
                ((1, 2), (3,)), (None, True, False), (True,), (1, True), ((), ()), (0.0, -0.0), (70000,), tuple(range(40)), ('x' * 300,), ((('deep',),),)]
        bits = [lib.Bits(''), lib.Bits([1]), lib.Bits([0]), lib.Bits([0, 1, 1]), lib.Bits([1, 0] * 20), lib.Bits([0] * 40), lib.Bits([1] * 64)]
        for k in keys:
            for o in keys + [Ellipsis]:
                if o is not Ellipsis and key(o) == key(k):
                    continue
                if not rec.begin((k, o)):
                    continue
                rec.nontrivial()
                stored = [k] if o is Ellipsis else [k, o]
                reads = P.Pointless(P.serialize_to_bytearray([[x] for x in keys] + [[k, 'pad', 7], [7] + [x for x in keys]])).GetRoot()
                probes = list(keys)
                for i, x in enumerate(keys):
                    probes.append(reads[i][0])
                    if isinstance(x, tuple):
                        # the same tuple as a slice of a longer read vector
                        longer = P.Pointless(P.serialize_to_bytearray((9,) + x + ('t',))).GetRoot()
                        probes.append(longer[1:1 + len(x)])
                check(rec, stored, probes)
        # things that cannot be keys are refused as probes, not found and not fatal
        for k in keys:
            if rec.begin(('unhashable', k)):
                m = P.Pointless(P.serialize_to_bytearray({k: 1})).GetRoot()
                s = P.Pointless(P.serialize_to_bytearray({k})).GetRoot()
                cyc = []
                cyc.append(cyc)
                rd = P.Pointless(P.serialize_to_bytearray([[], {}, set(), [1, []], [{}], cyc, [[[cyc]]]])).GetRoot()
                for bad in [[], [1], {}, set(), frozenset([1]), b'', b'a', bytearray(b'a'), object(), 2**32, -2**31 - 1, 2**64, -2**70, ([],), (b'a',), ((1, {}),), 1j, type, rd[1], rd[2], rd[4], rd[5], rd[6], rd, m, s,
                            'a\0', '\0', 'a\0b', ('a\0',), '\u0100\0', '\U0001f600\0x']:
                    for what, fn in (('[]', lambda: m[bad]), ('get', lambda: m.get(bad)), ('in', lambda: bad in m), ('set', lambda: bad in s)):
                        e, v = lib.raises(fn)
                        if isinstance(v, SystemError):
                            rec.violation('interpreter error', '%s %r: %r' % (what, bad, v))
                        if not e and v not in (None, False):
                            rec.violation('a key that is not held is found', '%s %r: %r' % (what, bad, v))
        # primitive vectors as keys: found by every equal vector
        prims = [lib.Prim(tc, [float(v) for v in items] if tc == 'f' else items) for tc in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f') for items in
                 ((), (0,), (1, 2), lib.PRIM_RANGE.get(tc, (-2.0 ** 31, 0.5)), (lib.PRIM_RANGE.get(tc, (-1.0, 1))[0], 7, 100))]
        prims = [p for p in prims if not (p.tc in ('i64', 'u64') and any(not -2**31 <= x < 2**32 for x in p.items))] + [lib.Prim('i64', (-1,)), lib.Prim('i64', (2**32 - 1, -2**31)), lib.Prim('u64', (2**32 - 1,)), lib.Prim('i64', (5, -5)), lib.Prim('u64', (2**40,)), lib.Prim('i64', (-2**40,))]
        for d in prims:
            for o in prims:
                if not rec.begin((d, o)):
                    continue
                rec.nontrivial()
                x = d.make()
                e, m = lib.raises(lambda: P.Pointless(P.serialize_to_bytearray({x: 1, 'z': 2})).GetRoot())
                if e:
                    rec.violation('primitive vector refused as key', repr(m))
                    continue
                same = list(d.items) == list(o.items)
                rd = P.Pointless(P.serialize_to_bytearray([o.make(), tuple(o.items)] if all(-2**31 <= v < 2**32 for v in o.items) else [o.make(), 0])).GetRoot()
                forms = [('live', x if same else o.make()), ('read', rd[0])]
                if all(-2**31 <= v < 2**32 for v in o.items):
                    forms += [('tuple', tuple(o.items)), ('read tuple', rd[1])]
                for w, f in forms:
                    e, g = lib.raises(lambda: (m.get(f), f in m))
                    if e or g != ((1, True) if same else (None, False)):
                        rec.violation('primitive vector key lookup', '%s: %r' % (w, g))
        # bitvectors cannot be Python dict keys by value, but find themselves by value
        for d in bits:
            for o in bits:
                if rec.begin((d, o)):
                    x = d.make()
                    e, b = lib.raises(P.serialize_to_bytearray, {x: 1, 'z': 2})
                    if e:
                        if not isinstance(b, (TypeError, ValueError)):
                            rec.violation('bitvector key', repr(b))
                        continue
                    rec.nontrivial()
                    m = P.Pointless(b).GetRoot()
                    f = (o.make() in m, m.get(o.make()), P.Pointless(P.serialize_to_bytearray([o.make()])).GetRoot()[0] in m)
                    w = (True, 1, True) if key(d) == key(o) else (False, None, False)
                    if f != w:
                        rec.violation('bitvector key lookup', '%r' % (f,))
