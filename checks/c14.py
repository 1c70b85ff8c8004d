"""C14: running out of memory is an error, not a crash. Every allocation of every
scenario fails once, or together with all later ones; in the extension (through
its allocation functions), in the interpreter, and in the C library alone."""
import ctypes
import gc
import os
import sys
import tempfile

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of failing allocations, one at a time and all from each point on, over scenarios of every operation on the real code under a memory checker'
NOTE = 'After each fault: an exception or the right result, all objects involved unchanged, reference counts and live blocks back where they were, and the same call succeeds.'
RULE = 'a case is one scenario with one failing allocation (kind, index, once or lasting); non-trivial when the failure was delivered'
BOUNDS = {
    'quick': 'about 190 Python scenarios (serialising, opening, reading, printing, comparing, hashing, looking up, mutating) x every allocation of the extension and of the interpreter x {once, from there on}; C: creation of 40 values in 5 styles, output, opening, re-creation, lookups, evaluation, sorting, printing',
    'thorough': 'the same with runs of 2, 3 and 5 failing allocations from each point as well, for all scenarios',
}
NEEDS = ['asan', 'c:oom:fault']
ASSUMPTIONS = ['an allocation failure which does not change the result may go unreported', 'free blocks kept by the interpreter are not leaks']

STATE = {}


def hook():
    if 'lib' not in STATE:
        import pointless as P
        lib = ctypes.CDLL(P.__file__)
        STATE['lib'] = lib
        for n in ('mc_alloc_count', 'mc_alloc_fail_at', 'mc_alloc_fail_n', 'mc_alloc_failed', 'mc_live'):
            STATE[n] = ctypes.c_long.in_dll(lib, n)
    return STATE


def refused(fn, *a):
    """the kind of refusal; running out of memory is not one"""
    try:
        fn(*a)
    except MemoryError:
        raise
    except Exception as e:
        return type(e).__name__


def plain(o):
    """what an object holds, read by its own methods only; the interpreter's own
    code for building functions does not survive failing allocations, so there
    are no lambdas and generators here, nor in the scenarios"""
    import pointless as P
    t = type(o)
    if t is P.PointlessMap:
        r = ['map']
        for k, v in o.items():
            r.append(plain(k))
            r.append(plain(v))
        return r
    if t is P.PointlessSet:
        r = ['set']
        for k in o:
            r.append(plain(k))
        return r
    if t is P.PointlessPrimVector:
        return ['prim', o.typecode, list(o)]
    if t is P.PointlessBitvector:
        return ['bits', list(o)]
    if t is P.PointlessVector or t is list or t is tuple or hasattr(t, '__next__'):
        r = ['vector']
        for x in o:
            r.append(plain(x))
        return r
    return o


class Scenario:
    def __init__(self, name, make, act, snap=None, show=None, big=False):
        self.name, self.make, self.act, self.snap, self.show, self.big = name, make, act, snap, show, big


def values():
    from checks import lib
    B, Pv = lib.Bits, lib.Prim
    s = ''.join(chr(97 + i % 26) for i in range(40))
    long = B([i % 3 == 0 for i in range(70)])
    return [
        ('list', [1, 2.5, 'x' + s, None, True]),
        ('strings', ['a', 'é' + s, 'Ā' + s, '\U0001f600', 'a' * 300]),
        ('nested', [[1, [2, [3, ['deep', [4.5, [None]]]]]], [], [[]]]),
        ('map', {'k' + s: [1, 2], 2: {'x': 'y'}, None: 1.5, (1, 'a'): 'tuple', 2.5: 3}),
        ('set', [{1, 2, 3}, {'a', 'b'}, frozenset([(1, 2), (3, 'x')])]),
        ('bits', [B([1, 0, 1]), long, long, B([0] * 100), B([])]),
        ('prims', [Pv('u8', [1, 2, 3]), Pv('f', [1.5]), Pv('i64', [-1]), Pv('u64', []), bytearray(b'abc')]),
        ('wide', [list(range(40)), [i * 1.5 for i in range(20)], [2**31 + i for i in range(20)], ['s%d' % i for i in range(20)]]),
        ('mixedkeys', {(1, 2): 1, (1.5, 'a'): 2, ('\u0100',): 3, 'é': 4, True: 5, -7: 6, long: 7}),
        ('bigset', [set(range(0, 300, 7)), {str(i): i for i in range(30)}]),
    ]


def live(v):
    from checks import lib
    return lib.realise(v)


def flat(o, out=None, seen=None):
    """every object a value is made of"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if id(o) in seen:
        return out
    seen.add(id(o))
    out.append(o)
    if type(o) in (list, tuple, set, frozenset):
        for x in o:
            flat(x, out, seen)
    elif type(o) is dict:
        for k, x in o.items():
            flat(k, out, seen)
            flat(x, out, seen)
    return out


def opened(v):
    import pointless as P
    h = P.Pointless(P.serialize_to_bytearray(v))
    return h


def scenarios(full):
    import pointless as P
    from checks import lib
    S = []
    add = lambda *a, **k: S.append(Scenario(*a, **k))
    ident = lambda o: o
    vs = values()
    size = 3 if full else 1
    deepnorm = lambda o: lib.show(lib.canon(lib.got(o)), 10**6)
    tmp = tempfile.mkdtemp(prefix='c14-', dir=lib.tmpdir())
    names = [0]

    def fresh():
        names[0] += 1
        return os.path.join(tmp, 'f%d' % names[0])

    def rep(o):
        return lib.show(lib.canon(lib.norm(o)), 10**6)

    # serialising
    for n, v in vs:
        mk = lambda v=v: [live(v)]
        add('serialize_to_bytearray ' + n, mk, lambda o: P.serialize_to_bytearray(o[0]), rep, lambda r: deepnorm(P.Pointless(r).GetRoot()))
        add('serialize_to_buffer ' + n, mk, lambda o: P.serialize_to_buffer(o[0]), rep, lambda r: deepnorm(P.Pointless(bytearray(r)).GetRoot()))

        def to_file(o):
            P.serialize(o[0], o[1])
            return o[1]
        add('serialize ' + n, lambda v=v: [live(v), fresh()], to_file, lambda o: rep(o[0]), lambda r: deepnorm(P.Pointless(r).GetRoot()))
        # read values serialised again
        if not (isinstance(v, dict) or n in ('set', 'bigset')):
            add('serialize read ' + n, lambda v=v: [opened(live(v)).GetRoot()], lambda o: P.serialize_to_bytearray(o[0]), lambda o: deepnorm(o[0]), lambda r: deepnorm(P.Pointless(r).GetRoot()))
    add('serialize unwiden', lambda: [['é', 'abc']], lambda o: P.serialize_to_bytearray(o[0]), rep, lambda r: deepnorm(P.Pointless(r).GetRoot()))
    cyc = []
    cyc.append([cyc, {1: cyc}])
    add('serialize cycle', lambda: [cyc], lambda o: len(P.serialize_to_bytearray(o[0])), None)
    bad = [[1, 'a', {2: object()}]]
    # refused either way: the kind of error is the first one met
    add('serialize refused', lambda: [bad], lambda o: refused(P.serialize_to_bytearray, o[0]), None, bool)
    add('serialize duplicate', lambda: [[{0.1, lib.f32(0.1)}]], lambda o: refused(P.serialize_to_bytearray, o[0]), None, bool)
    # opening
    for n, v in vs:
        add('open buffer ' + n, lambda v=v: [P.serialize_to_bytearray(live(v))], lambda o: P.Pointless(o[0]), lambda o: bytes(o[0]), lambda h: (deepnorm(h.GetRoot()), h.GetRefs()))

    def mkfile(v):
        f = fresh()
        P.serialize(live(v), f)
        return [f]
    for n, v in vs[:4]:
        add('open file ' + n, lambda v=v: mkfile(v), lambda o: P.Pointless(o[0]), lambda o: open(o[0], 'rb').read(), lambda h: deepnorm(h.GetRoot()))
    add('open damaged', lambda: [bytearray(P.serialize_to_bytearray([1, 'abc', {2: 3}])[:-5])], lambda o: refused(P.Pointless, o[0]), lambda o: bytes(o[0]), bool)
    # reading
    handles = {}

    def h(n):
        if n not in handles:
            handles[n] = opened(live(dict(vs)[n]))
        return handles[n]
    for n, v in vs:
        add('root ' + n, lambda n=n: [h(n)], lambda o: o[0].GetRoot(), lambda o: (deepnorm(o[0].GetRoot()), o[0].GetRefs()), deepnorm)
        add('walk ' + n, lambda n=n: [h(n).GetRoot()], lambda o: plain(o[0]), lambda o: deepnorm(o[0]))
        add('str ' + n, lambda n=n: [h(n).GetRoot()], lambda o: str(o[0]), lambda o: deepnorm(o[0]))
        add('hash ' + n, lambda n=n: [h(n).GetRoot()], lambda o: repr(refused(P.pyobject_hash, o[0]) or P.pyobject_hash(o[0])), lambda o: deepnorm(o[0]))
        add('hash live ' + n, lambda v=v: [tuple(live(v)) if type(v) is list else live(v)], lambda o: refused(P.pyobject_hash_32, o[0]) or P.pyobject_hash_32(o[0]), rep)
        add('cmp ' + n, lambda n=n, v=v: [h(n).GetRoot(), opened(live(v)).GetRoot()], lambda o: (refused(P.pointless_cmp, o[0], o[1]) or P.pointless_cmp(o[0], o[1])) if not isinstance(o[0], (lib.PM, lib.PS)) else 0, lambda o: deepnorm(o[0]))
        add('eq live ' + n, lambda n=n, v=v: [h(n).GetRoot(), live(v)], lambda o: refused(P.pointless_is_eq, o[0], o[1]) or P.pointless_is_eq(o[0], o[1]), lambda o: deepnorm(o[0]))
    w = lambda: h('wide').GetRoot()
    for name, f in [('index', lambda v: [v[3][i] for i in (0, -1, 5)]), ('slice', lambda v: [list(v[i][2:9]) for i in range(4)]), ('iterate', lambda v: [list(x) for x in v]),
                    ('reversed', lambda v: [list(reversed(x)) for x in v]), ('slice of slice', lambda v: list(v[3][1:15][2:7])), ('contains', lambda v: ('s3' in v[3], 'zz' in v[3], 5 in v[0])),
                    ('min max', lambda v: (v[0].min(), v[0].max(), v[1].max(), refused(v[0].range))), ('equal', lambda v: v[3] == v[3][0:20]), ('lists equal', lambda v: v[0] == list(range(40))),
                    ('buffer', lambda v: bytes(memoryview(v[0]))), ('index of none', lambda v: refused(v.__getitem__, 99)), ('typecode', lambda v: v[0].typecode), ('sizeof', lambda v: v[0].__sizeof__()),
                    ('repr', lambda v: repr(v[1:3])), ('serialize slice', lambda v: P.Pointless(P.serialize_to_bytearray(v[3][2:5])).GetRoot())]:
        add('vector ' + name, lambda: [w()], lambda o, f=f: f(o[0]), lambda o: (deepnorm(o[0]), ))
    m = lambda: h('mixedkeys').GetRoot()
    seventy = lib.Bits([i % 3 == 0 for i in range(70)]).make() if hasattr(lib.Bits, 'make') else lib.realise(lib.Bits([i % 3 == 0 for i in range(70)]))
    for name, f in [('get', lambda v: v.get('é')), ('get default', lambda v: v.get('none', 'dflt')), ('getitem', lambda v: v[(1, 2)]), ('tuple', lambda v: v[(1.5, 'a')]), ('string tuple', lambda v: v[('\u0100',)]),
                    ('bits', lambda v: v[seventy]),
                    ('missing', lambda v: refused(v.__getitem__, (1, 3))), ('contains', lambda v: ((1.5, 'a') in v, (1.5, 'b') in v)), ('keys', lambda v: plain(v.keys())),
                    ('values', lambda v: list(v.values())), ('items', lambda v: plain(v.items())), ('iter', lambda v: len(list(v))), ('str', str), ('unhashable', lambda v: refused(v.get, [[]]))]:
        add('map ' + name, lambda: [m()], lambda o, f=f: f(o[0]), lambda o: deepnorm(o[0]))
    st = lambda: h('set').GetRoot()
    for name, f in [('contains', lambda v: (1 in v[0], 'a' in v[1], (3, 'x') in v[2], (3, 'y') in v[2])), ('iter', plain), ('str', lambda v: str(v[2]))]:
        add('set ' + name, lambda: [st()], lambda o, f=f: f(o[0]), lambda o: deepnorm(o[0]))
    # bitvectors
    bits = lambda v: (len(v), ''.join('01'[v[i]] for i in range(len(v))))
    mkb = lambda n: lambda: [P.PointlessBitvector(sequence=[i % 3 == 0 for i in range(n)])]

    many = P.PointlessBitvector(sequence=[1, 0, 1] * 50)

    def bulk(v):
        v.append_bulk(many)

    def fill(v):
        for i in range(70):
            v.append(i % 2 == 1)
    for n in (0, 5, 31, 32, 64):
        for name, f in [('append', lambda v: v.append(True)), ('append_bulk', bulk), ('extend_true', lambda v: v.extend_true(200)), ('extend_false', lambda v: v.extend_false(200)), ('fill', fill), ('pop', lambda v: v.pop() if len(v) else 0),
                        ('copy', lambda v: v.copy()), ('str', str), ('iterate', lambda v: list(v)), ('cmp', lambda v: v == v.copy()), ('hash', P.pyobject_hash)]:
            # filling in several calls stops somewhere: only its parts are atomic
            add('bits %d %s' % (n, name), mkb(n), lambda o, f=f: f(o[0]), (lambda o: bits(o[0])) if name != 'fill' else None, None)
            S[-1].after = bits
    for name, f in [('size', lambda: P.PointlessBitvector(size=500)), ('sequence', lambda: P.PointlessBitvector(sequence=[1, 0] * 40)), ('iterator', lambda: P.PointlessBitvector(sequence=iter([1, 0] * 40)))]:
        add('new bits ' + name, lambda: [], lambda o, f=f: f(), None, bits)
    add('bits from read', lambda: [h('bits').GetRoot()], lambda o: [x.copy() for x in o[0]], lambda o: deepnorm(o[0]))
    # primitive vectors
    prim = lambda v: (v.typecode, list(v))
    for tc in ('u8', 'i64', 'f'):
        c = float if tc == 'f' else int
        items = [c(x) for x in (1, 2, 3, 5, 4)]
        mkp = lambda tc=tc, items=items: [P.PointlessPrimVector(tc, sequence=items)]
        other = P.PointlessPrimVector(tc, sequence=[c(7)] * 100)

        def grow(v, c=c):
            for i in range(50):
                v.append(c(i))
        for name, f in [('append', lambda v, c=c: v.append(c(9))), ('grow', grow), ('append_bulk list', lambda v, c=c: v.append_bulk([c(1)] * 100)), ('append_bulk vector', lambda v, other=other: v.append_bulk(other)), ('append_bulk iterator', lambda v, c=c: v.append_bulk(iter([c(1)] * 100))),
                        ('pop', lambda v: v.pop()), ('pop_bulk', lambda v: v.pop_bulk(2)), ('index', lambda v, c=c: v.index(c(5))), ('remove', lambda v, c=c: v.remove(c(3))), ('fast_remove', lambda v: v.fast_remove(1)), ('clear', lambda v: v.clear()),
                        ('serialize', lambda v: bytes(v.serialize())), ('sort', lambda v: v.sort()), ('min', lambda v: (v.min(), v.max(), v.range())), ('slice', lambda v: v[1:4]), ('str', str), ('iterate', lambda v: (list(v), list(reversed(v)))),
                        ('buffer', lambda v: bytes(memoryview(v))), ('store', lambda v, c=c: v.__setitem__(0, c(7))), ('compare', lambda v, tc=tc, items=items: v == P.PointlessPrimVector(tc, sequence=items)),
                        ('restore', lambda v: P.PointlessPrimVector(buffer=v.serialize())), ('out of range', lambda v: refused(v.append, 2**70 if v.typecode != 'f' else 'x'))]:
            add('prim %s %s' % (tc, name), mkp, lambda o, f=f: f(o[0]), (lambda o: prim(o[0])) if name not in ('grow', 'append_bulk iterator') else None, None)
            S[-1].after = prim
    for name, f in [('sequence', lambda: P.PointlessPrimVector('i32', sequence=list(range(50)))), ('iterator', lambda: P.PointlessPrimVector('u16', sequence=iter(range(50)))), ('vector', lambda: P.PointlessPrimVector('u32', sequence=P.PointlessPrimVector('u8', sequence=[1, 2]))),
                    ('empty', lambda: P.PointlessPrimVector('f'))]:
        add('new prim ' + name, lambda: [], lambda o, f=f: f(), None, prim)
    add('sort_proj', lambda: [P.PointlessPrimVector('u32', sequence=[3, 1, 0, 2]), P.PointlessPrimVector('i8', sequence=[5, 9, -1, 3]), P.PointlessPrimVector('f', sequence=[1.5, 0.5, 1.5, 9.0])], lambda o: o[0].sort_proj(o[1], o[2]), lambda o: [prim(x) for x in o])
    add('sort_proj mapped', lambda: [P.PointlessPrimVector('u32', sequence=list(range(20))), P.PointlessPrimVector('i8', sequence=[(i * 7) % 20 for i in range(20)]), opened([list(range(20, 0, -1))]).GetRoot()[0]], lambda o: o[0].sort_proj(o[1], o[2]), lambda o: [list(x) for x in o])
    add('FromRemap', lambda: [P.PointlessPrimVector('u32', sequence=[0, 2, 1]), P.PointlessPrimVector('u32', sequence=[10, 20, 30])], lambda o: P.PointlessPrimVector.FromRemap(o[1], o[0]), lambda o: [prim(x) for x in o], prim)
    add('FromRemap read', lambda: [opened([[0, 2, 1]]).GetRoot()[0], P.PointlessPrimVector('u32', sequence=[10, 20, 30])], lambda o: P.PointlessPrimVector.FromRemap(o[1], o[0]), lambda o: [list(x) for x in o], prim)
    # live values
    t = (1, 'é', 2.5, (None, True, ('x', '\u0100')))
    add('hash tuple', lambda: [t], lambda o: P.pyobject_hash(o[0]), None)
    add('cmp tuples', lambda: [t, (1, 'é', 2.5, (None, True, ('x', '\u0101')))], lambda o: P.pointless_cmp(o[0], o[1]), None)
    add('reinit', lambda: [P.serialize_to_bytearray([1, 2])], lambda o: P.Pointless(o[0], allow_print=False).GetRoot(), lambda o: bytes(o[0]))
    return S


def n0(o):
    """hashable"""
    from checks import lib
    if isinstance(o, tuple):
        return all(n0(x) for x in o)
    return not isinstance(o, (list, dict, set, frozenset))


def anyset(o):
    return isinstance(o, (dict, set, frozenset)) or isinstance(o, (list, tuple)) and any(anyset(x) for x in o)


def gccount():
    gc.collect()
    return len(gc.get_objects())


def attempt(sc, o, arm, disarm):
    """-> (None, exception) or (result,)"""
    act = sc.act
    try:
        arm()
        r = act(o)
    except Exception as e:
        disarm()
        return None, e
    finally:
        disarm()
    return (r, )


def outcome(sc, o, r):
    a = getattr(sc, 'after', None)
    if sc.show:
        r = sc.show(r)
    else:
        r = plain(r)
    return repr((r, a(o[0]) if a and o else None))


def one(rec, sc, kind, i, n, want):
    """one fault; returns whether it was delivered"""
    from _testcapi import set_nomemory, remove_mem_hooks
    H = hook()
    o = sc.make()
    watch = [x for y in o for x in flat(y) if not isinstance(x, (int, type(None), float, bool))]
    before = sc.snap(o) if sc.snap and o else None
    gc.collect()
    refs = [sys.getrefcount(x) for x in watch]
    live0 = H['mc_live'].value
    fail_at, fail_n, failed, count = H['mc_alloc_fail_at'], H['mc_alloc_fail_n'], H['mc_alloc_failed'], H['mc_alloc_count']

    def arm_ext():
        failed.value = 0
        count.value = 0
        fail_n.value = n or -1
        fail_at.value = i

    def disarm_ext():
        fail_at.value = -1

    def arm_py():
        set_nomemory(i + 1, i + 1 + n if n else 0)

    if kind == 'ext':
        r = attempt(sc, o, arm_ext, disarm_ext)
        delivered = failed.value > 0
    else:
        r = attempt(sc, o, arm_py, remove_mem_hooks)
        delivered = len(r) == 2
    at = '%s allocation %d%s' % ({'ext': 'extension', 'py': 'interpreter'}[kind], i, LASTING[n])
    ok = len(r) == 1
    if not ok:
        e = r[1]
        if isinstance(e, SystemError):
            rec.violation('a failing allocation breaks the interpreter', '%s: %r' % (at, e))
        elif not delivered:
            rec.violation('the scenario failed by itself', '%s: %r' % (at, e))
        rec.count('raised')
        what = '%s' % type(e).__name__
        e.__traceback__ = e.__context__ = e.__cause__ = None
        del e
        r = None
        if before is not None:
            now = sc.snap(o)
            if now != before:
                rec.violation('an object of a failed call changed', '%s (%s): %s, now %s' % (at, what, before, now))
    else:
        now = outcome(sc, o, r[0])
        if now != want:
            rec.violation('a failing allocation changed the result', '%s: %s, expected %s' % (at, now, want))
        if kind == 'py' and not delivered:
            pass
        r = None
        rec.count('absorbed' if delivered else 'beyond')
    gc.collect()
    now = [sys.getrefcount(x) for x in watch]
    if now != refs:
        rec.violation('references are lost or left behind', '%s: %s' % (at, [(type(x).__name__, a, b) for x, a, b in zip(watch, refs, now) if a != b][:3]))
    # again, with memory
    if not ok:
        if sc.snap is None:
            # several calls, of which some were made
            o = sc.make()
        r = attempt(sc, o, int, int)
        if len(r) == 2:
            rec.violation('the call fails afterwards', '%s: %r' % (at, r[1]))
        else:
            now = outcome(sc, o, r[0])
            if now != want:
                rec.violation('the call gives another result afterwards', '%s: %s, expected %s' % (at, now, want))
        r = None
    del o, watch
    return delivered, live0


LASTING = {1: '', 0: ' and all later', 2: ' and the next', 3: ' and the next 2', 5: ' and the next 4'}


def tasks(tier):
    t = []
    full = tier == 'thorough'
    n = 24 if not full else 96
    for i in range(n):
        t.append(('python', dict(variant='asan', part=i, of=n, full=full, case_cpu_s=300)))
    for i in range(8):
        t.append(('oom', dict(variant='c:oom:fault', argv=[i, 8, int(full)], case_cpu_s=60)))
    return t


# which allocator, and how many allocations in a row fail (0: all from there on)
KINDS = (('ext', 1), ('ext', 0), ('py', 1), ('py', 0))
MORE = (('ext', 2), ('ext', 3), ('ext', 5), ('py', 2), ('py', 3), ('py', 5))


def run(name, args, rec):
    H = hook()
    S = scenarios(args['full'])
    gc.disable()
    for idx, sc in enumerate(S):
        if idx % args['of'] != args['part']:
            continue
        # twice without faults: the result, and what is kept by caches
        want = None
        for kind, run in KINDS + (MORE if args['full'] else ()):
            if not rec.begin('%s, %s allocations%s' % (sc.name, kind, LASTING[run])):
                continue
            if want is None:
                o = sc.make()
                want = outcome(sc, o, sc.act(o))
                o = sc.make()
                gc.collect()
                gc.freeze()
                H['mc_alloc_count'].value = 0
                r = sc.act(o)
                n_ext = H['mc_alloc_count'].value
                if outcome(sc, o, r) != want:
                    raise AssertionError('%s is not deterministic' % sc.name)
                del o, r
            n = n_ext if kind == 'ext' else n_py(sc)
            if n > 6000:
                raise AssertionError('%s: %d allocations' % (sc.name, n))
            rec.count('scenarios')

            def sweep():
                k = 0
                for i in range(n):
                    k += one(rec, sc, kind, i, run, want)[0]
                return k, (H['mc_live'].value, gccount())

            d, a = sweep()
            rec.count('faults', d)
            if d:
                rec.nontrivial()
            if n:
                _, b = sweep()
                if b[0] > a[0] or b[1] > a[1]:
                    _, c = sweep()
                    if c[0] > b[0] or c[1] > b[1]:
                        diagnose(rec, sc, kind, run, want, n)


def diagnose(rec, sc, kind, run, want, n):
    """which of the faults leaves something behind, each time it happens"""
    H = hook()
    for i in range(n):
        lv = []
        for k in range(4):
            one(rec, sc, kind, i, run, want)
            lv.append((H['mc_live'].value, gccount()))
        at = '%s allocation %d%s' % (kind, i, LASTING[run])
        if lv[3][0] > lv[2][0] > lv[1][0] > lv[0][0]:
            rec.violation('memory is left behind', '%s: %d blocks each time' % (at, lv[3][0] - lv[2][0]))
        elif lv[3][1] > lv[2][1] > lv[1][1] > lv[0][1]:
            rec.violation('objects are left behind', '%s: %d each time' % (at, lv[3][1] - lv[2][1]))


def n_py(sc):
    """how many interpreter allocations the scenario makes: the first index from which all may fail"""
    from _testcapi import set_nomemory, remove_mem_hooks
    if not hasattr(sc, 'n_py'):
        n = 0
        while n <= 6000:
            o = sc.make()
            r = attempt(sc, o, lambda: set_nomemory(n + 1, 0), remove_mem_hooks)
            if len(r) == 1:
                break
            n += 1
        sc.n_py = n
    return sc.n_py
