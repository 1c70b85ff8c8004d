"""C10: sorting. The C sort on every small input, structured and adversarial
large ones, with failing and with contradicting comparisons; sort() and
sort_proj() of all element types on every small input."""
import itertools

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of inputs, of failing comparison calls and of contradicting comparison outcomes (up to two per run) on the real sort'
NOTE = 'The comparison callback is the environment of the C sort; its answers are enumerated (each call failing with each answer, each call or pair of calls answering anything, answers in every cycle of three) rather than sampled.'
RULE = 'a case is a block of inputs or one vector/projection; non-trivial when n exceeds the insertion sort limit, a comparison fails or lies, or a projection has ties or is refused'
BOUNDS = {
    'quick': 'C sort: all permutations to 8 items, all words over 2/3/4 values to 15/10/8 items, 16 shapes of 25 sizes to 20000, one item out of place and rotations to 65, an adversary up to 20000; each failing call for 192 inputs and all ternary words to 7 items; one or two lying calls. sort(): all words to 6 items over 3-4 values per type. sort_proj(): all index words to 4 items over -1..4 with 1-2 value vectors of every type',
    'thorough': 'permutations to 9, words to 18/12/9, out of place and rotations to 257, adversary to 60000, two lying calls to 20 items, words to 7 items, index words to 5 items',
}
NEEDS = ['plain', 'asan', 'c:sort:asan']
ASSUMPTIONS = ['vectors holding NaN have no order; only termination and the multiset are checked for them', 'vectors of more than 2^31 items are out of reach']
TYPES = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f']


def tasks(tier):
    d = 0 if tier == 'quick' else 1
    t = []
    n = 4
    for i in range(n):
        t.append(('small', dict(variant='c:sort:asan', argv=[i, n, d], case_cpu_s=60)))
    for x in ('large', 'errors', 'lies'):
        t.append((x, dict(variant='c:sort:asan', argv=[0, 1, d], case_cpu_s=120)))
    for ty in TYPES:
        t.append(('sort', dict(type=ty, n=6 + d)))
        t.append(('proj', dict(type=ty, n=4 + d)))
        t.append(('proj', dict(type=ty, n=2, variant='asan')))
    t.append(('refused', {}))
    t.append(('refused', dict(variant='asan')))
    return t


def alphabet(lib, t):
    if t == 'f':
        return [float('-inf'), -1.5, 0.25, float('inf')]
    lo, hi = lib.PRIM_RANGE[t]
    return [lo, hi, 1] if lo else [0, hi, hi // 2 + 1]


def run(name, args, rec):
    from checks import lib
    import pointless as P
    {'sort': sort, 'proj': proj, 'refused': refused}[name](rec, lib, P, args)


def sort(rec, lib, P, args):
    t = args['type']
    V = alphabet(lib, t)
    R = P.PointlessPrimVector
    for n in range(args['n'] + 1):
        for pre in itertools.product(V, repeat=max(0, n - 4)):
            if not rec.begin((t, n, pre)):
                continue
            rec.nontrivial()
            for w in itertools.product(V, repeat=min(n, 4)):
                one(rec, lib, R, t, list(pre + w))
    for n in (7, 8, 9, 40, 41, 42, 100, 257, 1000):
        for k in range(12):
            if not rec.begin((t, n, 'shape', k)):
                continue
            rec.nontrivial()
            if t == 'f':
                W = [((i * (2 * k + 1)) % (n - k % 3) - n // 2) * 0.5 for i in range(n)]
            else:
                lo, hi = lib.PRIM_RANGE[t]
                W = [(lo + (hi - lo) // n * ((i * (2 * k + 1) + k) % (n - k % 3))) for i in range(n)]
            if k == 3:
                W.sort()
            if k == 4:
                W.sort(reverse=True)
            one(rec, lib, R, t, W)
    if t == 'f':
        nan = float('nan')
        for n in range(1, 9):
            for w in itertools.product([nan, 1.0, -1.0], repeat=n):
                if n > 5 and w.count(nan) != 2:
                    continue
                if not rec.begin((t, 'nan', w)):
                    continue
                rec.count('states')
                rec.count('traces')
                rec.count('transitions')
                v = R('f', sequence=w)
                v.sort()
                a = sorted(lib.f32bits(x) for x in v)
                if a != sorted(lib.f32bits(x) for x in w):
                    rec.violation('sorting loses or invents items', '%r' % list(v))
        for w in itertools.product([0.0, -0.0, 1.0], repeat=4):
            if rec.begin((t, 'zeros', w)):
                v = R('f', sequence=w)
                v.sort()
                rec.count('states')
                rec.count('traces')
                rec.count('transitions')
                if sorted(map(lib.f32bits, v)) != sorted(map(lib.f32bits, w)) or list(v) != sorted(w):
                    rec.violation('sorting loses or invents items', '%r' % list(v))


def one(rec, lib, R, t, w):
    v = R(t, sequence=w)
    mv = memoryview(v)
    r = v.sort()
    rec.count('states')
    rec.count('traces')
    rec.count('transitions')
    want = sorted(w)
    if t == 'f':
        want = [lib.f32(x) for x in want]
    if list(v) != want or r is not None or v.typecode != t:
        rec.violation('sort() does not order the items', '%r: %r' % (w, list(v)))
    if bytes(mv) != bytes(memoryview(R(t, sequence=want))):
        rec.violation('sort() is not visible through a buffer', '%r' % w)


def sources(lib, P, t, items):
    """the same items as a vector, a read vector, a slice of a read vector"""
    R = P.PointlessPrimVector
    yield R(t, sequence=items)
    yield P.Pointless(P.serialize_to_bytearray(R(t, sequence=items))).GetRoot()
    yield P.Pointless(P.serialize_to_bytearray(R(t, sequence=items[:1] * 3 + items + items[-1:]))).GetRoot()[3:3 + len(items)]


def proj(rec, lib, P, args):
    """projection of type t over value vectors of every type"""
    t = args['type']
    R = P.PointlessPrimVector
    if t == 'f':
        for idx in ([], [0.0], [1.0, 0.0]):
            if rec.begin(('f', idx)):
                rec.nontrivial()
                p = R('f', sequence=idx)
                e, x = lib.raises(p.sort_proj, R('u8', sequence=[2, 1]))
                rec.count('states')
                rec.count('traces')
                rec.count('transitions')
                if not e or isinstance(x, SystemError) or list(p) != idx:
                    rec.violation('a float projection is accepted', repr(x))
        return
    lo, hi = lib.PRIM_RANGE[t]
    values = []
    for vt in TYPES:
        A = alphabet(lib, vt)
        items = [A[1], A[0], A[2], A[0], A[1]]
        for n in (2, 3, 5):
            for k, s in enumerate(sources(lib, P, vt, items[:n])):
                values.append((vt, k, n, [s], [items[:n]]))
    A = alphabet(lib, 'i16')
    for n in (3, 5):
        a, b = [5, 5, 5, 1, 1][:n], [A[1], A[0], A[2], A[1], A[0]][:n]
        values.append(('two', 0, n, [R('u8', sequence=a), R('i16', sequence=b)], [a, b]))
        values.append(('two', 1, n, [R('i16', sequence=b), P.Pointless(P.serialize_to_bytearray(R('u8', sequence=a))).GetRoot()], [b, a]))
        values.append(('sixteen', 0, n, [R('i8', sequence=[0] * n)] * 15 + [R('f', sequence=[float(-i) for i in range(n)])], [[0] * n] * 15 + [[float(-i) for i in range(n)]]))
    alpha = [0, 1, 2, 3, 4, 5] + ([-1, lo] if lo else []) + [hi]
    for vt, k, n, vs, lists in values:
        befores = [v.serialize() if isinstance(v, R) else list(v) for v in vs]
        for ln in range(args['n'] + 1):
            if not rec.begin((t, vt, k, n, ln)):
                continue
            rec.nontrivial()
            # longer words only over the interesting part
            al = alpha if ln <= 2 else [0, 1, 2, n - 1, n] + ([-1] if lo else [])
            for idx in itertools.product(sorted(set(al)), repeat=ln):
                p = R(t, sequence=idx)
                e, x = lib.raises(p.sort_proj, *vs)
                rec.count('states')
                rec.count('traces')
                rec.count('transitions')
                got = list(p)
                bad = any(not 0 <= i < n for i in idx)
                if e != bad or isinstance(x, SystemError):
                    rec.violation('a projection out of bounds is accepted' if bad else 'a valid projection is refused', '%r over %d: %r' % (idx, n, x))
                    continue
                if bad:
                    if got != list(idx):
                        rec.violation('a refused projection is changed', '%r: %r' % (idx, got))
                    continue
                key = [tuple(l[i] for l in lists) for i in got]
                if sorted(got) != sorted(idx):
                    rec.violation('the projection is not the same multiset', '%r: %r' % (idx, got))
                if any(a > b for a, b in zip(key, key[1:])):
                    rec.violation('the projected tuples are not in order', '%r: %r gives %r' % (idx, got, key))
            after = [v.serialize() if isinstance(v, R) else list(v) for v in vs]
            if after != befores:
                rec.violation('a value vector is changed', '%r' % (after,))
    # large ones
    for n in (41, 100, 127):
        for k in range(6):
            if not rec.begin((t, 'large', n, k)):
                continue
            rec.nontrivial()
            a = [(i * (2 * k + 3)) % (5 + k) for i in range(n)]
            b = [((i * 7 + k) % n) * 0.5 for i in range(n)]
            idx = [(i * (2 * k + 1) + 3) % n for i in range(n)]
            p = R(t, sequence=idx)
            p.sort_proj(R('u16', sequence=a), P.Pointless(P.serialize_to_bytearray(b)).GetRoot())
            rec.count('states')
            rec.count('traces')
            rec.count('transitions')
            got = list(p)
            key = [(a[i], b[i]) for i in got]
            if sorted(got) != sorted(idx) or key != sorted(key):
                rec.violation('the projected tuples are not in order', repr(got))


def refused(rec, lib, P, args):
    R = P.PointlessPrimVector
    rd = lambda x: P.Pointless(P.serialize_to_bytearray(x)).GetRoot()
    v2, v3 = R('u8', sequence=[2, 1]), R('i32', sequence=[3, 2, 1])
    bad = {
        'none': (), 'lengths': (v2, v3), 'lengths 2': (v3, v3, v2), 'lengths read': (v2, rd([1, 2, 3])), 'lengths slice': (v3, rd([1, 2, 3])[1:]), 'list': ([1, 2],), 'list second': (v2, [1, 2]), 'none value': (None,), 'int': (1,),
        'values': (rd(['a', 'b']),), 'mixed': (rd([1, 'b']),), 'hashable': (list(rd({('a', 'b')}))[0],), 'bits': (P.PointlessBitvector(2),), 'empty read': (rd([]),), 'empty prim': (R('u8'),), 'two empty': (R('u8'), rd([])), 'seventeen': (v2,) * 17,
        'values slice': (rd(['a', 'b'])[:0],), 'second bad': (v2, rd(['a', 'b'])), 'set': (rd({1, 2}),), 'map': (rd({1: 2}),), 'bytes': (b'ab',), 'prim then none': (v2, None),
    }
    for t in TYPES[:8]:
        for idx in ([0], [1, 0], [0, 1, 1, 0]):
            for what in bad:
                if not rec.begin((t, idx, what)):
                    continue
                rec.nontrivial()
                rec.count('states')
                rec.count('traces')
                rec.count('transitions')
                p = R(t, sequence=idx)
                e, x = lib.raises(p.sort_proj, *bad[what])
                if not e or isinstance(x, SystemError):
                    rec.violation('unsuitable value vectors are accepted', repr(x))
                if list(p) != idx or list(v2) != [2, 1] or list(v3) != [3, 2, 1]:
                    rec.violation('a refused projection is changed', '%r' % list(p))
        # a projection which is one of its own value vectors
        for n in range(1, 6):
            for idx in itertools.product(range(n), repeat=n):
                if n > 4 and idx[0]:
                    continue
                if not rec.begin((t, 'itself', idx)):
                    continue
                rec.nontrivial()
                rec.count('states')
                rec.count('traces')
                rec.count('transitions')
                p = R(t, sequence=idx)
                e, x = lib.raises(p.sort_proj, p)
                if isinstance(x, SystemError) or sorted(p) != sorted(idx):
                    rec.violation('the projection is not the same multiset', '%r' % list(p))
                if not e and any(idx[a] > idx[b] for a, b in zip(list(p), list(p)[1:])):
                    rec.violation('the projected tuples are not in order', '%r by itself: %r' % (idx, list(p)))
    # nothing to sort
    for t in TYPES[:8]:
        if rec.begin((t, 'empty')):
            p = R(t)
            e, x = lib.raises(p.sort_proj, v2, R('f', sequence=[0.5, 0.25]))
            rec.count('transitions')
            if e or len(p):
                rec.violation('an empty projection is refused', repr(x))
