"""C09: a primitive vector is a typed list. All operation sequences up to a
depth, for all nine element types, on the real object beside a Python list."""
import itertools
import os
import struct

LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of all operation sequences on the real object against a list restricted to the element type'
NOTE = 'Sequences are replayed from the start on fresh objects, so that hidden state (spare space, capacity) is never merged away; every model transition is executed on the implementation.'
RULE = 'a case is all sequences with one prefix; non-trivial when the prefix holds a refused operation, a removal, a bulk operation or a rebuild'
BOUNDS = {
    'quick': 'per element type: 24 operations to depth 3, 13 operations to depth 4 (three types), all 90 operations to depth 2 (also in the memory checker), from 3 initial vectors; every truncation, extension and header change of serialised bytes; every value on both sides of each range limit through every way in',
    'thorough': 'per element type: 24 operations to depth 4, 13 operations to depth 5, all operations to depth 2 and in the memory checker',
}
NEEDS = ['plain', 'asan']
ASSUMPTIONS = ['float vectors hold 32-bit floats: values are narrowed on the way in and for index/remove/membership', 'forward iterators behave as list iterators: by index; reverse iterators over a vector that changes size are only required to yield items of the vector and to end']

TYPES = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f']
CODE = {'i8': 0, 'u8': 1, 'i16': 2, 'u16': 3, 'i32': 4, 'u32': 5, 'f': 6, 'i64': 7, 'u64': 8}
FMT = {'i8': 'b', 'u8': 'B', 'i16': 'h', 'u16': 'H', 'i32': 'i', 'u32': 'I', 'i64': 'q', 'u64': 'Q', 'f': 'f'}


class Evil:
    def __index__(self):
        raise RuntimeError('no')

    def __float__(self):
        raise RuntimeError('no')


class Refused(Exception):
    """the model refuses the operation"""


def narrow(lib, t, v):
    """the stored form of v, or Refused"""
    if t == 'f':
        if not isinstance(v, float):
            raise Refused()
        return lib.f32(v)
    if not isinstance(v, int):
        raise Refused()
    lo, hi = lib.PRIM_RANGE[t]
    if not lo <= v <= hi:
        raise Refused()
    return int(v)


def values(lib, t):
    if t == 'f':
        return [0.5, -0.0, 3.25, 16777217.0]
    lo, hi = lib.PRIM_RANGE[t]
    return [lo, hi, 1, lo // 2 if lo else hi // 2]


def bad_values(lib, t):
    if t == 'f':
        return [1, True, None, 'a', Evil()]
    lo, hi = lib.PRIM_RANGE[t]
    return [lo - 1, hi + 1, 2**64, -2**63 - 1, 1.0, None, '1', Evil()]


def find(m, t, lib, v):
    if t == 'f':
        if not isinstance(v, (int, float)):
            raise Refused()
        v = lib.f32(float(v))
    elif not isinstance(v, int):
        raise Refused()
    for i, x in enumerate(m):
        if x == v:
            return i
    raise Refused()


class Model:
    def __init__(self, lib, P, t, items):
        self.lib, self.P, self.t = lib, P, t
        self.m = [narrow(lib, t, x) for x in items]
        self.it = self.rit = None


def gen(items, fail=None):
    yield from items
    if fail is not None:
        raise fail


class OpSet:
    """operations over one element type: name -> (model function, real function).
    Model functions work on a Model, real functions take the vector and the
    state and return (vector, result)."""
    def __init__(self, lib, P, t):
        self.lib, self.P, self.t = lib, P, t
        V = values(lib, t)
        B = bad_values(lib, t)
        self.ops = {}
        add = self.ops.__setitem__
        other_t = {'i8': 'i64', 'u8': 'i16', 'i16': 'u8', 'u16': 'u64', 'i32': 'i8', 'u32': 'i64', 'i64': 'u32', 'u64': 'i32', 'f': 'i32'}[t]

        def m_app(v):
            def f(M):
                M.m.append(narrow(lib, t, v))
            return f

        def r_app(v):
            return lambda o, st: (o, o.append(v))
        for i, v in enumerate(V):
            add('app%d' % i, (m_app(v), r_app(v)))
        for i, v in enumerate(B):
            add('appbad%d' % i, (m_app(v), r_app(v)))
        add('app two', (self.refuse, lambda o, st: (o, o.append(V[0], V[1]))))
        if t != 'f':
            add('app bool', (m_app(True), r_app(True)))

        def m_bulk(items):
            def f(M):
                M.m.extend([narrow(lib, t, x) for x in (items(M) if callable(items) else items)])
            return f

        def bulk(name, items, source, m=None):
            add('bulk ' + name, (m or m_bulk(items), lambda o, st: (o, o.append_bulk(source(o)))))
        read = P.Pointless(P.serialize_to_bytearray(P.PointlessPrimVector(t, sequence=V))).GetRoot()
        many = [V[i % 4] for i in range(37)]
        one = P.PointlessPrimVector(t, sequence=many)
        readval = P.Pointless(P.serialize_to_bytearray([V[2], 'x'])).GetRoot() if t not in ('i64', 'u64') else read
        assert type(read).__name__ == 'PyPointlessVector'
        bulk('list', V, lambda o: list(V))
        bulk('empty', [], lambda o: [])
        bulk('tuple', V[:2], lambda o: tuple(V[:2]))
        bulk('gen', V[1:], lambda o: gen(V[1:]))
        bulk('same', many, lambda o: one)
        bulk('self', lambda M: list(M.m), lambda o: o)
        bulk('slice of self', lambda M: M.m[1:3], lambda o: o[1:3])
        bulk('read', V, lambda o: read)
        bulk('read slice', V[1:3], lambda o: read[1:3])
        bulk('read slice of slice', V[2:3], lambda o: read[1:][1:2])
        bulk('read empty slice', [], lambda o: read[2:2])
        bulk('read values', V[2:3], lambda o: readval[:1] if t not in ('i64', 'u64') else read[2:3])
        bulk('bad last', None, lambda o: [V[0], V[1], B[0]], self.refuse)
        bulk('bad first', None, lambda o: gen([B[0], V[0]]), self.refuse)
        bulk('bad type', None, lambda o: (V[0], None), self.refuse)
        bulk('read bad', None, lambda o: P.Pointless(P.serialize_to_bytearray([V[2], 'x'])).GetRoot(), self.refuse)
        bulk('failing', None, lambda o: gen(V, KeyError('stop')), self.refuse)
        bulk('none', None, lambda o: None, self.refuse)
        bulk('int', None, lambda o: 5, self.refuse)
        if t == 'f':
            bulk('other type', None, lambda o: P.PointlessPrimVector(other_t, sequence=[1]), self.refuse)
        else:
            lo, hi = lib.PRIM_RANGE[t]
            olo, ohi = lib.PRIM_RANGE[other_t]
            bulk('other type', [0, 1, min(hi, ohi)], lambda o: P.PointlessPrimVector(other_t, sequence=[0, 1, min(hi, ohi)]))
            bulk('read other type', [0, 1, min(hi, ohi)], lambda o: P.Pointless(P.serialize_to_bytearray(P.PointlessPrimVector(other_t, sequence=[0, 1, min(hi, ohi)]))).GetRoot())
            if ohi > hi:
                bulk('other type too big', None, lambda o: P.PointlessPrimVector(other_t, sequence=[0, hi + 1]), self.refuse)
                bulk('read other too big', None, lambda o: P.Pointless(P.serialize_to_bytearray(P.PointlessPrimVector(other_t, sequence=[0, hi + 1]))).GetRoot(), self.refuse)
            if olo < lo:
                bulk('other type too small', None, lambda o: P.PointlessPrimVector(other_t, sequence=[0, lo - 1]), self.refuse)

        def m_pop(M):
            if not M.m:
                raise Refused()
            return M.m.pop()
        add('pop', (m_pop, lambda o, st: (o, o.pop())))

        def m_popb(n):
            def f(M):
                k = len(M.m) + n[0] if isinstance(n, tuple) else n
                if k > len(M.m) or not -2**63 <= k < 2**63:
                    raise Refused()
                if k > 0:
                    del M.m[-k:]
            return f
        for n in (0, 1, 2, -1, (0,), (1,), (-1,), 2**63 - 1, 2**64, -2**63):
            add('popb %r' % (n,), (m_popb(n), lambda o, st, n=n: (o, o.pop_bulk(len(o) + n[0] if isinstance(n, tuple) else n))))
        add('popb str', (self.refuse, lambda o, st: (o, o.pop_bulk('1'))))

        def by_value(name, real, model):
            for i, v in enumerate(V):
                add('%s %d' % (name, i), (lambda M, v=v: model(M, find(M.m, t, lib, v)), lambda o, st, v=v: (o, real(o, v))))
            for i, v in enumerate(B):
                if t == 'f' and isinstance(v, int):
                    add('%s bad%d' % (name, i), (lambda M, v=v: model(M, find(M.m, t, lib, v)), lambda o, st, v=v: (o, real(o, v))))
                else:
                    add('%s bad%d' % (name, i), (self.refuse, lambda o, st, v=v: (o, real(o, v))))

        def m_rem(M, i):
            del M.m[i]

        def m_frem(M, i):
            M.m[i] = M.m[-1]
            M.m.pop()
        by_value('index', lambda o, v: o.index(v), lambda M, i: i)
        by_value('remove', lambda o, v: o.remove(v), m_rem)
        by_value('fremove', lambda o, v: o.fast_remove(v), m_frem)
        add('index none', (self.refuse, lambda o, st: (o, o.index())))

        def m_set(i, v):
            def f(M):
                j = i if i >= 0 else i + len(M.m)
                if not 0 <= j < len(M.m):
                    raise Refused()
                M.m[j] = narrow(lib, t, v)
            return f

        def r_set(i, v):
            def f(o, st):
                o[i] = v
                return o, None
            return f
        for i in (0, 1, -1, -2, 4, -5, 2**40, -2**40):
            add('set %d' % i, (m_set(i, V[3]), r_set(i, V[3])))
        for i, v in enumerate(B):
            add('set bad%d' % i, (m_set(-1, v), r_set(-1, v)))
        for i in ('a', 1.0, slice(0, 1), None, 2**70, Evil()):
            add('set at %s' % type(i).__name__, (self.refuse, r_set(i, V[0])))

        def r_del(i):
            def f(o, st):
                del o[i]
                return o, None
            return f
        for i in (0, -1, 99, slice(0, 1)):
            add('del %r' % (i,), (self.refuse, r_del(i)))
        for i in (99, -99, 'a', 2**70, slice(0, 2, 2), None, 1.0):
            add('get %r' % (i,), (self.refuse, lambda o, st, i=i: (o, o[i])))

        def m_slice(s):
            def f(M):
                M.m[:] = M.m[s]
            return f
        for s in (slice(None), slice(1, None), slice(None, -1), slice(1, 2), slice(5, 1), slice(-2, 99), slice(-99, 2**70), slice(0, 0)):
            add('take %r:%r' % (s.start, s.stop), (m_slice(s), lambda o, st, s=s: (o[s], None)))

        def m_clear(M):
            del M.m[:]
        add('clear', (m_clear, lambda o, st: (o, o.clear())))

        def m_init(M):
            M.m[:] = [narrow(lib, t, x) for x in V[:3]]

        def r_init(o, st):
            o.__init__(t, sequence=V[:3])
            return o, None
        add('init', (m_init, r_init))
        for n, kw in (('bad item', lambda: dict(type=t, sequence=[V[0], B[0]])), ('failing', lambda: dict(type=t, sequence=gen(V, KeyError()))), ('bad type', lambda: dict(type='q')), ('both', lambda: dict(type=t, buffer=b'')),
                      ('bad buffer', lambda: dict(buffer=b'\x63\0\0\0\0\0\0\0')), ('short buffer', lambda: dict(buffer=b'\x02\0\0\0\1\0\0\0\0')), ('no sequence', lambda: dict(type=t, sequence=5)), ('neither', dict), ('buffer and sequence', lambda: dict(buffer=bytes(8), sequence=[]))):
            add('reinit ' + n, (self.refuse, lambda o, st, kw=kw: (o, o.__init__(**kw()))))

        def m_remap(idx):
            def f(M):
                if any(not 0 <= i < len(M.m) for i in idx):
                    raise Refused()
                M.m[:] = [M.m[i] for i in idx]
            return f
        R = P.PointlessPrimVector
        rp = lambda tt, s: P.Pointless(P.serialize_to_bytearray(R(tt, sequence=s))).GetRoot()
        for n, idx, src in (('prim', [1, 0, 1], R('u32', sequence=[1, 0, 1])), ('i8', [0, 0], R('i8', sequence=[0, 0])), ('read', [2, 0, 1], rp('u16', [2, 0, 1])), ('read slice', [0, 1], rp('i32', [9, 0, 1, 9])[1:3]),
                            ('u64', [2, 1], R('u64', sequence=[2, 1])), ('i64', [1], rp('i64', [1])), ('neg', [-1], R('i16', sequence=[-1])), ('neg read', [-1], rp('i8', [0, -1])[1:]), ('far', [0, 2**40], R('u64', sequence=[0, 2**40])),
                            ('far read', [2**33], rp('i64', [2**33])), ('none', [], R('u8')), ('none read', [], rp('u8', [3])[:0]), ('empty', [], P.Pointless(P.serialize_to_bytearray([])).GetRoot())):
            add('remap ' + n, (m_remap(idx), lambda o, st, src=src: (R.FromRemap(o, src), None)))
        for n, src in (('f', R('f', sequence=[0.0])), ('list', [0]), ('values', P.Pointless(P.serialize_to_bytearray(['a'])).GetRoot()), ('read f', rp('f', [0.0])), ('nothing', None)):
            add('remap bad ' + n, (self.refuse, lambda o, st, src=src: (R.FromRemap(o, src), None)))
        add('rebuild', (lambda M: None, lambda o, st: (R(buffer=o.serialize()), None)))
        add('through file', (lambda M: None, lambda o, st: (self.refile(o), None)))

        def m_iter(M):
            M.it = iter(M.m)

        def r_iter(o, st):
            st['it'] = iter(o)
            return o, None

        def m_next(M):
            return None if M.it is None else next(M.it, None)

        def r_next(o, st):
            return o, (None if 'it' not in st else next(st['it'], None))
        add('iter', (m_iter, r_iter))
        add('next', (m_next, r_next))

    @staticmethod
    def refuse(M):
        raise Refused()

    def refile(self, o):
        v = self.P.PointlessPrimVector(self.t)
        r = self.P.Pointless(self.P.serialize_to_bytearray(o)).GetRoot()
        v.append_bulk(r)
        return v


MAIN = ['app0', 'app1', 'appbad0', 'bulk list', 'bulk same', 'bulk self', 'bulk read slice', 'bulk bad last', 'bulk failing', 'pop', 'popb 2', 'popb (1,)', 'index 1', 'remove 1', 'fremove 0', 'set -1', 'set bad1', 'take 1:None', 'take None:-1', 'clear', 'remap prim', 'rebuild', 'iter', 'next']
SHORT = ['app0', 'app2', 'bulk gen', 'bulk self', 'bulk bad first', 'pop', 'popb 1', 'remove 0', 'fremove 2', 'set 0', 'take 1:None', 'iter', 'next']
SPECIAL = ('appbad', 'bulk', 'pop', 'remove', 'fremove', 'set', 'take', 'clear', 'init', 'remap', 'rebuild', 'through')


def starts(lib, t):
    V = values(lib, t)
    return [[], [V[0], V[1], V[0]], [V[i % 4] for i in range(16)]]


HUGE = [2**31 - 1, 2**31 + 3, 2**32 - 1, 2**32, 2**32 + 5]


def tasks(tier):
    t = []
    d = 0 if tier == 'quick' else 1
    for ty in TYPES:
        t.append(('seq', dict(type=ty, ops='main', depth=3 + d, start=[0, 1, 2])))
        t.append(('seq', dict(type=ty, ops='all', depth=2, start=[0, 1, 2])))
        if ty in ('i8', 'u32', 'f') or d:
            t.append(('seq', dict(type=ty, ops='short', depth=4 + d, start=[1])))
        t.append(('seq', dict(type=ty, ops='main', depth=2 + d, start=[1], variant='asan')))
        t.append(('seq', dict(type=ty, ops='all', depth=2 if d or ty in ('i8', 'i16', 'f', 'u64') else 1, start=[1], variant='asan')))
        t.append(('serial', dict(type=ty)))
        t.append(('ranges', dict(type=ty)))
    for n in HUGE if d else HUGE[-1:]:
        t.insert(0, ('huge', dict(n=n, mem_gb=24, rss_gb=14, case_cpu_s=120)))
    t.append(('evil', dict(variant='asan')))
    t.append(('evil', {}))
    return t


def eq(t, lib, a, b):
    if len(a) != len(b):
        return False
    if t == 'f':
        return all(type(x) is float and lib.f32bits(x) == lib.f32bits(y) for x, y in zip(a, b))
    return all(type(x) is int and x == y for x, y in zip(a, b))


def observe(lib, P, t, o, m, full):
    try:
        return observe_(lib, P, t, o, m, full)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def observe_(lib, P, t, o, m, full):
    if len(o) != len(m):
        return 'len %d, not %d' % (len(o), len(m))
    items = list(o)
    if not eq(t, lib, items, m):
        return 'items %r, not %r' % (items, m)
    if o.typecode != t:
        return 'typecode %r' % o.typecode
    if not full:
        return None
    if not eq(t, lib, list(reversed(o)), m[::-1]):
        return 'reversed %r' % list(reversed(o))
    for i in (0, len(m) // 2, len(m) - 1):
        if m and not (eq(t, lib, [o[i]], [m[i]]) and eq(t, lib, [o[i - len(m)]], [m[i]])):
            return 'item %d is %r' % (i, o[i])
    b = o.serialize()
    if bytes(b) != struct.pack('<II%d%s' % (len(m), FMT[t]), CODE[t], len(m), *m):
        return 'serialised as %r' % bytes(b)
    if bytes(memoryview(o)) != bytes(b)[8:]:
        return 'buffer'
    for v in values(lib, t) + [m[-1] if m else None]:
        try:
            want = find(m, t, lib, v) >= 0
        except Refused:
            want = False
        if (v in o) is not want:
            return '%r in vector is %r' % (v, v in o)
    e, x = lib.raises(lambda: (o.min(), o.max(), o.range()))
    if e != (not m):
        return 'min/max/range of %d items: %r' % (len(m), x)
    if m and (x[0] != min(m) or x[1] != max(m) or x[2] != (min(m), max(m))):
        return 'min, max, range: %r' % (x,)
    return None


def run(name, args, rec):
    from checks import lib
    import pointless as P
    globals()[name](rec, lib, P, args)


def seq(rec, lib, P, args):
    t = args['type']
    S = OpSet(lib, P, t)
    ops = S.ops
    names = {'main': MAIN, 'short': SHORT, 'all': list(ops)}[args['ops']]
    for s in args['start']:
        init = starts(lib, t)[s]
        for pre in itertools.product(names, repeat=args['depth'] - 1):
            if not rec.begin((t, s, pre)):
                continue
            if any(o.startswith(SPECIAL) for o in pre):
                rec.nontrivial()
            for last in names:
                M = Model(lib, P, t, init)
                o = P.PointlessPrimVector(t, sequence=init)
                st = {}
                path = pre + (last,)
                for step, op in enumerate(path):
                    mf, rf = ops[op]
                    rec.count('transitions')
                    try:
                        want = mf(M)
                        refused = False
                    except Refused:
                        refused = True
                    e, x = lib.raises(rf, o, st)
                    if e != refused:
                        rec.violation('an operation %s' % ('fails that should not' if e else 'does not fail that should'), '%s start %d, step %d of %r: %r' % (t, s, step, path, x))
                        break
                    if e:
                        if isinstance(x, (SystemError, MemoryError)):
                            rec.violation('an operation fails in a wrong way', '%s %r: %r' % (t, path, x))
                        continue
                    o2, r = x
                    if o2 is not o:
                        if not isinstance(o2, P.PointlessPrimVector):
                            rec.violation('an operation gives another type', '%s %r: %r' % (t, path, o2))
                            break
                        # iterators stay with the previous vector
                        o = o2
                        if M.it is not None:
                            M.it, st = None, {}
                        M.m = list(M.m)
                    if not (r is None and want is None) and not (type(r) is type(want) and (r == want or r != r and want != want)):
                        rec.violation('an operation returns a wrong value', '%s start %d, step %d of %r: %r, not %r' % (t, s, step, path, r, want))
                else:
                    d = observe(lib, P, t, o, M.m, True)
                    if d:
                        rec.violation('a vector differs from a list', '%s start %d, after %r: %s' % (t, s, path, d))
                rec.count('traces')
                rec.count('states')


def serial(rec, lib, P, args):
    """the serialised form: exact, and everything malformed is refused"""
    t = args['type']
    V = values(lib, t)
    size = lib.PRIM_SIZE[t]
    for n in range(0, 18):
        m = [narrow(lib, t, V[i % 4]) for i in range(n)]
        good = struct.pack('<II%d%s' % (n, FMT[t]), CODE[t], n, *m)
        forms = [('good', good, m)]
        for k in range(len(good)):
            forms.append(('cut to %d' % k, good[:k], None))
        for k in (1, 2, 3, 4, 7, 8, 9):
            forms.append(('%d more' % k, good + b'\0' * k, None))
        for k in (n + 1, n - 1, n + 2**16, n | 2**31, 2**32 - 1, n + 2**30, n + 2**29):
            if k >= 0 and k < 2**32:
                forms.append(('count %d' % k, struct.pack('<II', CODE[t], k) + good[8:], None))
        for c in list(range(9, 20)) + [255, 256, 256 + CODE[t], 2**16 + CODE[t], 2**31 + CODE[t], 2**32 - 1]:
            forms.append(('type %d' % c, struct.pack('<II', c, n) + good[8:], None))
        for t2 in TYPES:
            if t2 != t:
                size2 = lib.PRIM_SIZE[t2]
                ok = size2 == size or n == 0
                forms.append(('type ' + t2, struct.pack('<II', CODE[t2], n) + good[8:], (list(struct.unpack('<%d%s' % (n, FMT[t2]), good[8:])), t2) if ok else None))
        for what, b, want_ in forms:
            for wrap in (bytes, bytearray, memoryview):
                if not rec.begin((t, n, what, wrap.__name__)):
                    continue
                rec.count('transitions')
                rec.count('traces')
                rec.count('states')
                src = wrap(b)
                want, tt = want_ if isinstance(want_, tuple) else (want_, t)
                e, x = lib.raises(P.PointlessPrimVector, buffer=src)
                if e != (want is None):
                    rec.violation('malformed bytes are accepted' if want is None else 'serialised bytes are refused', repr(x))
                    continue
                if e:
                    rec.nontrivial()
                    if not isinstance(x, ValueError):
                        rec.violation('malformed bytes are refused in a wrong way', repr(x))
                    continue
                d = observe(lib, P, tt, x, want, not any(v != v for v in want))
                if d:
                    rec.violation('serialised bytes rebuild another vector', d)
                # the vector does not depend on the bytes any more
                x.append(want[0] if want else narrow(lib, tt, values(lib, tt)[0]))
                if wrap is bytearray:
                    for i in range(len(src)):
                        src[i] = 0x55
                    src.clear()
                d = observe(lib, P, tt, x, want + [x[len(x) - 1]], False)
                if d:
                    rec.violation('a rebuilt vector changes with the bytes it came from', d)


def ranges(rec, lib, P, args):
    """every value around each limit through every way in"""
    t = args['type']
    R = P.PointlessPrimVector
    if t == 'f':
        vals = lib.FLOATS + [3.4028234663852886e38, 3.4028235677973366e38, 1.401298464324817e-45, 7e-46, 16777219.0, -16777217.0, 0.30000001192092896] + [0, 1, True, None, 'x', 2**70]
    else:
        vals = sorted(set(x + d for s in (7, 8, 15, 16, 31, 32, 63, 64, 70) for x in (2**s, -2**s) for d in (-2, -1, 0, 1)) | {0, 1, -1}) + [True, False, 0.0, None, '1']
    seen = [narrow(lib, t, values(lib, t)[2])]
    for v in vals:
        try:
            want = narrow(lib, t, v)
            ok = True
        except Refused:
            ok = False
        for way in ('init', 'init gen', 'append', 'bulk', 'bulk gen', 'set', 'bulk u64', 'bulk i64', 'bulk read'):
            if not rec.begin((t, repr(v), way)):
                continue
            if not ok:
                rec.nontrivial()
            rec.count('states')
            rec.count('traces')
            rec.count('transitions')
            o = R(t, sequence=seen)
            after = seen + [want] if ok else seen
            if way == 'init':
                e, x = lib.raises(R, t, sequence=seen + [v])
                o = o if e else x
            elif way == 'init gen':
                e, x = lib.raises(R, t, sequence=gen(seen + [v]))
                o = o if e else x
            elif way == 'append':
                e, x = lib.raises(o.append, v)
            elif way == 'bulk':
                e, x = lib.raises(o.append_bulk, [v])
            elif way == 'bulk gen':
                e, x = lib.raises(o.append_bulk, gen([v]))
            elif way == 'set':
                o.append(seen[0])
                e, x = lib.raises(o.__setitem__, 1, v)
                if not ok:
                    after = seen * 2
            else:
                st = 'u64' if way == 'bulk u64' else 'i64'
                if type(v) is not int or t == 'f' or not lib.PRIM_RANGE[st][0] <= v <= lib.PRIM_RANGE[st][1]:
                    continue
                src = R(st, sequence=[v])
                if way == 'bulk read':
                    src = P.Pointless(P.serialize_to_bytearray(src)).GetRoot()
                e, x = lib.raises(o.append_bulk, src)
            if e == ok:
                rec.violation('a value in range is refused' if ok else 'a value out of range is accepted', '%r: %r' % (v, x))
            d = observe(lib, P, t, o, after, False)
            if d:
                rec.violation('a vector differs from a list', '%s of %r: %s' % (way, v, d))
            if ok and want == want:
                if o.index(v) != ([lib.f32(float(y)) if t == 'f' else y for y in after].index(want)) or v not in o:
                    rec.violation('an item is not found', repr(v))
            elif type(v) is int and t != 'f' and v in o:
                rec.violation('a value out of range is found', repr(v))


def evil(rec, lib, P, args):
    """sources that change the vector while it is being filled from them, objects that were never initialised"""
    R = P.PointlessPrimVector
    for t in ('i8', 'i32', 'f', 'u64'):
        V = values(lib, t)
        acts = {
            'pop': lambda o: len(o) and o.pop(), 'clear': lambda o: o.clear(), 'append': lambda o: o.append(V[1]), 'grow': lambda o: o.append_bulk(list(V) * 9), 'reinit': lambda o: o.__init__(t, sequence=V),
            'retype': lambda o: o.__init__('i16', sequence=[7]), 'set': lambda o: len(o) and o.__setitem__(0, V[2]), 'view': lambda o: memoryview(o), 'none': lambda o: None, 'sort': lambda o: o.sort(),
        }
        for n in (0, 1, 3, 20):
            for when in (0, 1, 2):
                for act in acts:
                    for end in ('ok', 'bad', 'raise'):
                        for where in ('append_bulk', 'init'):
                            if not rec.begin((t, n, when, act, end, where)):
                                continue
                            rec.nontrivial()
                            rec.count('states')
                            rec.count('traces')
                            rec.count('transitions')
                            o = R(t, sequence=[V[0]] * n)
                            keep = []
                            left = []

                            def source():
                                for i in range(3):
                                    if i == when:
                                        keep.append(acts[act](o))
                                        left.append((o.typecode, list(o)))
                                    yield V[3]
                                if end == 'bad':
                                    yield None
                                if end == 'raise':
                                    raise KeyError('x')
                            e, x = lib.raises(o.append_bulk if where == 'append_bulk' else (lambda s: o.__init__(t, sequence=s)), source())
                            if isinstance(x, SystemError):
                                rec.violation('an operation fails in a wrong way', repr(x))
                            # whatever the outcome, the vector is a proper vector
                            items = list(o)
                            d = observe(lib, P, o.typecode, o, items, True)
                            if d:
                                rec.violation('a vector differs from a list', d)
                            if end != 'ok' and not e:
                                rec.violation('an operation does not fail that should')
                            if e and where == 'append_bulk' and act in ('pop', 'clear', 'set', 'none') and when == 0:
                                # a failed append leaves what was there
                                if not eq(t, lib, items, left[0][1]):
                                    rec.violation('a failing operation changes the vector', '%r, not %r' % (items, left[0][1]))
                            if not e and where == 'append_bulk' and act in ('none', 'set', 'view') and not eq(t, lib, items[-3:], [V[3]] * 3 if t != 'f' else [lib.f32(V[3])] * 3):
                                rec.violation('a vector differs from a list', repr(items))
                            if keep and isinstance(keep[0], memoryview):
                                v = keep[0]
                                if v.nbytes and bytes(v)[:lib.PRIM_SIZE[t]] != struct.pack('<' + FMT[t], V[0]):
                                    rec.violation('a view changes while its vector is filled')
                                v.release()
                                o.append(V[0])
    T = [('len', len), ('list', list), ('str', str), ('iter', lambda o: list(iter(o))), ('rev', lambda o: list(reversed(o))), ('append', lambda o: o.append(1)), ('bulk', lambda o: o.append_bulk([1, 2, 3])), ('bulk self', lambda o: o.append_bulk(o)),
         ('pop', lambda o: o.pop()), ('popb', lambda o: o.pop_bulk(0)), ('index', lambda o: o.index(1)), ('in', lambda o: 1 in o), ('ser', lambda o: R(buffer=o.serialize())), ('slice', lambda o: o[:]), ('get', lambda o: o[0]), ('set', lambda o: o.__setitem__(0, 1)),
         ('sort', lambda o: o.sort()), ('proj', lambda o: o.sort_proj(o)), ('min', lambda o: o.min()), ('view', lambda o: memoryview(o)), ('clear', lambda o: o.clear()), ('remap', lambda o: R.FromRemap(o, o)), ('file', lambda o: P.serialize_to_bytearray(o)),
         ('type', lambda o: o.typecode), ('hash', lambda o: P.pyobject_hash(o)), ('remove', lambda o: o.remove(1)), ('fremove', lambda o: o.fast_remove(1)), ('size', lambda o: o.__sizeof__()), ('cmp', lambda o: P.pointless_cmp(o, o))]
    for how in ('new', 'bad', 'badbuf'):
        for a in T:
            for b in T:
                for c in ('append', 'bulk'):
                    if not rec.begin((how, a[0], b[0], c)):
                        continue
                    rec.count('states')
                    rec.count('traces')
                    rec.count('transitions', 3)
                    if how == 'new':
                        o = R.__new__(R)
                    else:
                        o = R('i64', sequence=[5, 6])
                        lib.raises(o.__init__, **(dict(type='u32', sequence=[None]) if how == 'bad' else dict(buffer=b'\x01\0\0\0\x09\0\0\0')))
                    dict(T)[c](o)
                    for f in (a, b):
                        e, x = lib.raises(f[1], o)
                        if isinstance(x, SystemError):
                            rec.violation('an operation fails in a wrong way', repr(x))
                    items = list(o)
                    d = observe(lib, P, o.typecode, o, items, True)
                    if d:
                        rec.violation('a vector differs from a list', d)
                    for v in items:
                        if v not in (1, 2, 3, 5, 6):
                            rec.violation('a vector holds items nobody put there', repr(items))


class Sparse:
    """a list of n zeros with a few other items"""
    def __init__(self, n):
        self.n, self.d = n, {}

    def get(self, i):
        i = i + self.n if i < 0 else i
        if not 0 <= i < self.n:
            return 'IndexError'
        return self.d.get(i, 0)

    def set(self, i, v):
        i = i + self.n if i < 0 else i
        self.d[i] = v

    def first(self, v):
        return min((i for i, x in self.d.items() if x == v and i < self.n), default=-1)


def huge(rec, lib, P, args):
    """vectors of more items than 31 and 32 bits can count, against a sparse list"""
    n = args['n']
    # doubled until one more doubling would pass it, and then completed
    o = P.PointlessPrimVector('u8')
    for i in range(64):
        o.append(0)
    while len(o) * 2 <= n:
        o.append_bulk(o)
    while n - len(o) > 64:
        k = 1 << (n - len(o)).bit_length() - 1
        o.append_bulk(o[:k])
    while len(o) < n:
        o.append(0)
    m = Sparse(n)
    at = sorted({i % n for i in (0, 1, 5, n // 2, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1, 2**32, 2**32 + 2, n - 2, n - 1)})
    near = sorted({j for i in at for j in (i - 1, i, i + 1) if 0 <= j < n})

    def same(what):
        for i in near + [i - m.n for i in near] + [m.n, -m.n - 1, 2**32 + m.n]:
            try:
                x = o[i]
            except IndexError:
                x = 'IndexError'
            if x != m.get(i):
                rec.violation('a huge vector differs from a list', '%s: item %d is %r and not %r' % (what, i, x, m.get(i)))
                return
        if len(o) != m.n:
            rec.violation('a huge vector differs from a list', '%s: %d items and not %d' % (what, len(o), m.n))

    if rec.begin('made'):
        rec.nontrivial()
        same('made')
    for k, i in enumerate(at):
        # done in every process, also one which was asked for one later case
        o[i] = k + 1
        m.set(i, k + 1)
        if rec.begin(('set', i)):
            rec.nontrivial()
            same('set %d' % i)
    def slices():
        for i in near:
            for a, b in ((i, i + 3), (i, None), (i - m.n, None), (i - 2, i + 2), (i, 2**32 + i)):
                if a < -m.n or len(range(m.n)[a:b]) < 100:
                    yield a, b
    for a, b in list(slices()):
        if rec.begin(('slice', a, b)):
            rec.nontrivial()
            w = [m.get(j) for j in range(m.n)[a:b]]
            if list(o[a:b]) != w:
                rec.violation('a huge vector differs from a list', 'slice %r:%r is %r and not %r' % (a, b, list(o[a:b]), w))
    if rec.begin('reversed'):
        rec.nontrivial()
        w = list(itertools.islice(reversed(o), 300))
        if w != [m.get(-1 - j) for j in range(300)]:
            rec.violation('a huge vector differs from a list', 'reversed gives %r' % w[:20])
    if rec.begin('iter'):
        w = list(itertools.islice(iter(o), 300))
        if w != [m.get(j) for j in range(300)]:
            rec.violation('a huge vector differs from a list', 'iteration gives %r' % w[:20])
    for k in (len(at), 200):
        if rec.begin(('index', k)):
            rec.nontrivial()
            e, x = lib.raises(lambda: o.index(k))
            w = m.first(k)
            if (e, None if e else x) != (w < 0, None if w < 0 else w) or k == 200 and k in o:
                rec.violation('a huge vector differs from a list', 'index of %d is %r and not %r' % (k, x, w))
    if rec.begin('range'):
        if o.range() != (0, len(at)):
            rec.violation('a huge vector differs from a list', 'range is %r' % (o.range(),))
    if rec.begin('view'):
        rec.nontrivial()
        v = memoryview(o)
        for i in near:
            if v[i] != m.get(i):
                rec.violation('a huge vector differs from a list', 'view: item %d is %r' % (i, v[i]))
        if len(v) != n or v.nbytes != n:
            rec.violation('a huge vector differs from a list', 'view of %d items' % len(v))
        v.release()
    if rec.begin('bounded'):
        rec.nontrivial()
        # the serialised form counts items in 32 bits, and the sort in 31
        if n > 0xffffffff and not lib.raises(o.serialize)[0]:
            rec.violation('a huge vector was serialised altered', 'serialize()')
        if n > 0xffffffff and not lib.raises(lambda: P.serialize_to_bytearray(o))[0]:
            rec.violation('a huge vector was serialised altered', 'serialize_to_bytearray()')
        if n > 0xffffffff and not lib.raises(lambda: P.serialize(o, os.devnull))[0]:
            rec.violation('a huge vector was serialised altered', 'serialize()')
        if n > 0x7fffffff:
            p = P.PointlessPrimVector('u8', sequence=[0])
            for f in (o.sort, lambda: o.sort_proj(p)):
                if not lib.raises(f)[0]:
                    rec.violation('a huge vector was said to be sorted', str(n))
            q = P.PointlessPrimVector('u64', sequence=range(5))
            e, x = lib.raises(lambda: P.PointlessPrimVector.FromRemap(o, P.PointlessPrimVector('u64', sequence=[i for i in near])))
            if e or list(x) != [m.get(i) for i in near]:
                rec.violation('a huge vector differs from a list', 'remapped %r' % (x,))
            e, x = lib.raises(lambda: q.sort_proj(o))
            if e or list(q) != sorted(range(5), key=m.get):
                rec.violation('a huge vector differs from a list', 'projected %r' % (x,))
        same('bounded')
    if rec.begin('ends'):
        rec.nontrivial()
        for k in range(4):
            if o.pop() != m.get(-1):
                rec.violation('a huge vector differs from a list', 'pop')
            m.n -= 1
            m.d = {i: v for i, v in m.d.items() if i < m.n}
            same('pop')
        for k in range(8):
            o.append(100 + k)
            m.n += 1
            m.set(-1, 100 + k)
            same('append')
        o.append_bulk([7, 8, 9])
        for v in (7, 8, 9):
            m.n += 1
            m.set(-1, v)
        same('append_bulk')
        o.pop_bulk(5)
        m.n -= 5
        same('pop_bulk')
        # the item before the last few, all below it are zeros or marks
        for f, v in ((o.remove, 101), (o.fast_remove, 100)):
            e, x = lib.raises(lambda: f(v))
            i = m.first(v)
            if e != (i < 0):
                rec.violation('a huge vector differs from a list', 'removing %d: %r' % (v, x))
            if i >= 0:
                tail = [m.get(j) for j in range(i + 1, m.n)]
                if f == o.fast_remove:
                    tail = tail[-1:] + tail[:-1]
                for j, y in enumerate(tail):
                    m.set(i + j, y)
                m.n -= 1
                m.d.pop(m.n, None)
                same('removed %d' % v)
