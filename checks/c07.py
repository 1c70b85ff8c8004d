"""C07: numeric vectors are exact and use the narrowest type. All sequences over
the limits of every element type, through every source of a vector."""
import itertools
import struct

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of integer and float sequences around all type limits on the real code'
NOTE = 'Complete for the stated alphabet and lengths; the oracle is the range of each type.'
RULE = 'a case is a block of sequences with a common prefix in one kind of source; non-trivial when its sequences reach at least two stored types'
BOUNDS = {
    'quick': '29 integers at and next to all type limits: all sequences up to length 3; 17 floats up to length 3; mixed kinds up to length 3; 9 vector types and bytearrays with all items at their limits; lengths 0..70 and around 255, 256, 65535, 65536',
    'thorough': 'integer sequences up to length 4 (root) and up to 3 in 7 embeddings, also under the memory checker',
}
NEEDS = ['plain', 'asan']
ASSUMPTIONS = ['integer lists which fit no type of up to 32 bits, mixed lists and lists with other items are value vectors', 'integers beyond the 32-bit range are refused (C01)']

EDGE = [0, 1, -1, 2, 127, 128, 129, -127, -128, -129, 254, 255, 256, 32766, 32767, 32768, -32767, -32768, -32769, 65534, 65535, 65536,
        2**31 - 1, 2**31, -2**31 + 1, -2**31, 2**32 - 2, 2**32 - 1, 100000]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 255.0, 1e10, 3.4e38, -3.4e38, 1e39, 1e-38, 1e-45, 1e-46, float('inf'), float('-inf'), 16777217.0, 0.1]
TYPES = [('u8', 0, 255, 1), ('u16', 0, 65535, 2), ('u32', 0, 2**32 - 1, 4), ('i8', -128, 127, 1), ('i16', -32768, 32767, 2), ('i32', -2**31, 2**31 - 1, 4)]
BIGT = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-2**15, 2**15 - 1), 'u16': (0, 2**16 - 1), 'i32': (-2**31, 2**31 - 1), 'u32': (0, 2**32 - 1), 'i64': (-2**63, 2**63 - 1), 'u64': (0, 2**64 - 1)}


def narrowest(lo, hi):
    """narrowest type name and item size"""
    # an all non-negative vector is unsigned
    for tc, a, b, size in TYPES if lo >= 0 else TYPES[3:]:
        if a <= lo and hi <= b:
            return tc, size
    return None, 8


def tasks(tier):
    t = []
    full = 3 if tier == 'quick' else 4
    for i in range(8):
        t.append(('ints', dict(part=i, of=8, n=full, emb='root')))
    embs = ['tuple', 'nested', 'mapvalue', 'file', 'slice', 'deque']
    for e in embs:
        t.append(('ints', dict(part=0, of=1, n=2 if tier == 'quick' else 3, emb=e)))
    t.append(('ints', dict(part=0, of=1, n=2, emb='root', variant='asan')))
    t.append(('floats', dict(n=3)))
    t.append(('mixed', dict(n=3)))
    t.append(('prim', {}))
    t.append(('prim', dict(variant='asan')))
    t.append(('lengths', {}))
    t.append(('lengths', dict(variant='asan')))
    return t


def vec_of(P, lib, seq, emb):
    """serialise a list in an embedding -> (read vector, bytes of the file)"""
    if emb == 'root':
        b = P.serialize_to_bytearray(list(seq))
        return P.Pointless(b).GetRoot(), len(b)
    if emb == 'tuple':
        b = P.serialize_to_bytearray(tuple(seq))
        return P.Pointless(b).GetRoot(), None
    if emb == 'nested':
        b = P.serialize_to_bytearray([None, [list(seq)], 'x'])
        return P.Pointless(b).GetRoot()[1][0], None
    if emb == 'mapvalue':
        b = P.serialize_to_bytearray({'k': list(seq), 1: []})
        return P.Pointless(b).GetRoot()['k'], None
    if emb == 'file':
        fn = lib.tmpdir() + '/c07'
        P.serialize([list(seq)], fn)
        return P.Pointless(fn).GetRoot()[0], None
    if emb == 'slice':
        b = P.serialize_to_bytearray([['pad'] + list(seq)])
        s = P.Pointless(b).GetRoot()[0][1:]
        b = P.serialize_to_bytearray([list(seq), s])
        return P.Pointless(b).GetRoot()[0], None
    if emb == 'deque':
        # a list subclass
        class L(list):
            pass
        b = P.serialize_to_bytearray([L(seq), 1.5])
        return P.Pointless(b).GetRoot()[0], None
    raise KeyError(emb)


def check(rec, P, lib, seq, emb, base):
    try:
        v, size = vec_of(P, lib, seq, emb)
    except Exception as e:
        rec.violation('a vector of 32-bit integers is refused', '%r in %s: %s' % (seq, emb, e))
        return None
    tc, isize = narrowest(min(seq), max(seq))
    got = list(v)
    rec.count('evaluations')
    if got != list(seq) or any(type(x) is not int for x in got):
        rec.violation('integers read back differently', '%r in %s: %r' % (seq, emb, got))
    if tc is None:
        e, x = lib.raises(lambda: v.typecode)
        if not e and x in BIGT:
            rec.violation('a vector has a type that cannot hold its items', '%r in %s: %r' % (seq, emb, x))
    else:
        e, x = lib.raises(lambda: v.typecode)
        if e or x != tc:
            rec.violation('a vector is not stored as the narrowest type', '%r in %s: %r, not %r' % (seq, emb, x, tc))
    if tc is not None and len(memoryview(v)) != isize * len(seq):
        rec.violation('the buffer of a vector has another size than its items', '%r in %s: %d bytes' % (seq, emb, len(memoryview(v))))
    if size is not None:
        want = base + (isize * len(seq) + 3) // 4 * 4
        if size != want:
            rec.violation('the stored size does not correspond to the type', '%r in %s: %d bytes, not %d' % (seq, emb, size, want))
    return tc


def run(name, args, rec):
    from checks import lib
    import pointless as P
    # the size of a file holding one vector without item data: found from a vector with a known type
    base = len(P.serialize_to_bytearray(P.PointlessPrimVector('u32', sequence=[1]))) - 4
    if name == 'ints':
        emb = args['emb']
        num = 0
        for n in range(1, args['n'] + 1):
            for pre in itertools.product(EDGE, repeat=max(0, n - 2)):
                num += 1
                if num % args['of'] != args['part'] or not rec.begin((emb, n, pre)):
                    continue
                tcs = set()
                for post in itertools.product(EDGE, repeat=n - len(pre)):
                    tcs.add(check(rec, P, lib, pre + post, emb, base))
                if len(tcs) > 1:
                    rec.nontrivial()
    elif name == 'floats':
        for n in range(1, args['n'] + 1):
            for pre in itertools.product(FLOATS + [float('nan')], repeat=max(0, n - 1)):
                if not rec.begin(('f', n, pre)):
                    continue
                rec.nontrivial()
                for last in FLOATS + [float('nan')]:
                    seq = pre + (last,)
                    b = P.serialize_to_bytearray(list(seq))
                    v = P.Pointless(b).GetRoot()
                    rec.count('evaluations')
                    if [lib.f32bits(x) for x in v] != [lib.f32bits(x) for x in seq] or any(type(x) is not float for x in v):
                        rec.violation('floats read back differently', '%r: %r' % (seq, list(v)))
                    if v.typecode != 'f' or len(memoryview(v)) != 4 * n or len(b) != base + 4 * n:
                        rec.violation('a vector of floats is not stored as floats', '%r: %r, %d bytes' % (seq, v.typecode, len(b)))
        for n in (1, 2):
            for seq in itertools.product(FLOATS, repeat=n):
                if not rec.begin(('pf', seq)):
                    continue
                v = P.Pointless(P.serialize_to_bytearray(P.PointlessPrimVector('f', sequence=list(seq)))).GetRoot()
                rec.count('evaluations')
                if v.typecode != 'f' or [lib.f32bits(x) for x in v] != [lib.f32bits(x) for x in seq]:
                    rec.violation('floats read back differently', '%r: %r' % (seq, list(v)))
    elif name == 'mixed':
        alpha = [1, -1, 300, 2**32 - 1, 1.0, True, False, None, 'a', 2.5]
        for n in range(1, args['n'] + 1):
            for seq in itertools.product(alpha, repeat=n):
                kinds = {type(x) for x in seq}
                if kinds == {int} or kinds == {float} or not rec.begin(('mixed', seq)):
                    continue
                rec.nontrivial()
                v = P.Pointless(P.serialize_to_bytearray(list(seq))).GetRoot()
                rec.count('evaluations')
                if [(type(x), x) for x in v] != [(type(x), x) for x in seq]:
                    rec.violation('items of a mixed list change', '%r: %r' % (seq, list(v)))
                e, x = lib.raises(lambda: v.typecode)
                if not e and (x in BIGT or x == 'f'):
                    rec.violation('a mixed list has a number type', '%r: %r' % (seq, x))
    elif name == 'prim':
        for tc, (lo, hi) in BIGT.items():
            size = lib.PRIM_SIZE[tc]
            items = sorted({x for x in EDGE + [2**63, 2**63 - 1, -2**63, 2**64 - 1, 2**32, -2**31 - 1, 2**40, lo, hi, lo + 1, hi - 1] if lo <= x <= hi})
            for n in (1, 2, 3):
                for pre in itertools.product(items, repeat=max(0, n - 1)) if n < 3 else [(a, lo) for a in items]:
                    if not rec.begin((tc, n, pre)):
                        continue
                    rec.nontrivial()
                    for last in items:
                        seq = pre + (last,)
                        pv = P.PointlessPrimVector(tc, sequence=list(seq))
                        for emb in (0, 1):
                            b = P.serialize_to_bytearray([pv] if emb else pv)
                            v = P.Pointless(b).GetRoot()
                            if emb:
                                v = v[0]
                            rec.count('evaluations')
                            if v.typecode != tc or list(v) != list(seq) or len(memoryview(v)) != size * len(seq):
                                rec.violation('a typed vector changes', '%s %r: %r %r' % (tc, seq, v.typecode, list(v)))
                            if not emb and len(b) != base + (size * len(seq) + 3) // 4 * 4:
                                rec.violation('the stored size does not correspond to the type', '%s %r: %d bytes' % (tc, seq, len(b)))
                            # slices and re-serialised slices keep the type
                            w = P.Pointless(P.serialize_to_bytearray([v, v[1:]])).GetRoot()
                            if w[0].typecode != tc or list(w[0]) != list(seq) or len(seq) > 1 and (w[1].typecode != tc or list(w[1]) != list(seq[1:])):
                                rec.violation('a typed vector changes when serialised again', '%s %r' % (tc, seq))
                            q = P.PointlessPrimVector(tc, sequence=v)
                            if list(q) != list(seq):
                                rec.violation('a typed vector changes when copied from a read one', '%s %r: %r' % (tc, seq, list(q)))
        for n in range(0, 3):
            for seq in itertools.product([0, 1, 127, 128, 255], repeat=n):
                if rec.begin(('bytearray', seq)):
                    v = P.Pointless(P.serialize_to_bytearray([bytearray(seq), 1.5])).GetRoot()[0]
                    rec.count('evaluations')
                    if n and (v.typecode != 'u8' or bytes(v) != bytes(seq)) or list(v) != list(seq):
                        rec.violation('a bytearray changes', '%r: %r' % (seq, list(v)))
    elif name == 'lengths':
        for n in list(range(0, 71)) + [254, 255, 256, 257, 1023, 1024, 65535, 65536, 65537]:
            for tc, d in [('u8', 7), ('i8', -7), ('u16', 300), ('i16', -300), ('u32', 70000), ('i32', -70000), ('f', 0.5), (None, None), ('u64p', 2**63), ('i64p', -2**63)]:
                if not rec.begin((tc, n)):
                    continue
                rec.nontrivial()
                seq = [d] * n
                if n > 2 and tc not in ('f', None, 'u64p', 'i64p'):
                    # only the last item needs the type
                    seq = [0] * (n - 1) + [d]
                o = P.PointlessPrimVector(tc[:3], sequence=seq) if tc in ('u64p', 'i64p') else seq
                b = P.serialize_to_bytearray(o)
                v = P.Pointless(b).GetRoot()
                rec.count('evaluations')
                isize = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u64p': 8, 'i64p': 8, None: 8}.get(tc, 4)
                if list(v) != seq or len(v) != n:
                    rec.violation('a vector reads back differently', '%s * %d' % (d, n))
                if n and tc and v.typecode != tc[:3]:
                    rec.violation('a vector is not stored as the narrowest type', '%s * %d: %r' % (d, n, v.typecode))
                if n and len(b) != base + (isize * n + 3) // 4 * 4:
                    rec.violation('the stored size does not correspond to the type', '%s * %d: %d bytes, not %d' % (d, n, len(b), base + (isize * n + 3) // 4 * 4))
