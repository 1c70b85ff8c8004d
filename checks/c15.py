"""C15: objects keep their data alive, and nothing else. All histories of
opening, deriving, advancing, dropping, source changes and re-initialisation,
against a reference graph; every call repeated for leaks."""
import array
import itertools
import os
import struct

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of all operation histories up to a depth on the real code in lockstep with an object-graph model; every API call repeated under leak counters'
NOTE = 'Complete within the stated alphabets and depths; memory which the interpreter itself caches is not counted. A file is rewritten by replacing it, as serialisation does.'
RULE = 'a case is one history (or one call repeated); non-trivial when an object outlived another or the source changed'
BOUNDS = {
    'quick': 'all histories of up to 4 operations (open, derive, slice, iterate, advance, drop in any order, wipe, resize, drop, unlink, replace, reopen, re-initialise) over 3 kinds of sources; of up to 3 with the memory checker; of up to 5 over a small alphabet; about 250 calls, good and failing, repeated',
    'thorough': 'histories of up to 5 operations, 4 with the memory checker, 6 over the small alphabet',
}
NEEDS = ['plain', 'asan']
NPROC = 8


def tasks(tier):
    d, a, s = (4, 3, 5) if tier == 'quick' else (5, 4, 6)
    n = 6 if tier == 'quick' else 24
    t = []
    for src in ('bytes', 'prim', 'file'):
        t += [('histories', dict(src=src, depth=d, part=i, of=n)) for i in range(n)]
        t += [('histories', dict(variant='asan', src=src, depth=a, part=i, of=4)) for i in range(4)]
        t += [('histories', dict(src=src, depth=s, part=i, of=3, small=1)) for i in range(3)]
    t += [('leaks', dict(variant='asan', part=i, of=12)) for i in range(12)] + [('leaks', dict(part=i, of=6)) for i in range(6)]
    t += [('bare', dict(variant='asan')), ('bare', {}), ('own', dict(variant='asan', depth=4 if tier == 'quick' else 5))]
    return t


def data():
    from checks import lib
    bits = [i * i % 7 < 3 for i in range(45)]
    return [[1, 'a', [2.5, 'z']], {'k': [True, 'q'], 5: 'five'}, {7, 's', (1, 't')}, lib.Bits(bits), [300, 400, 500], 'text']


def other():
    return [['other', {'x': 9}], {'o': [5, 'p']}, {1, 'u'}, True, [7, 8, 9], 'else']


class Obj:
    """a model object: what it is made of, what it keeps alive, what it must show"""
    __slots__ = ('kind', 'refs', 'want', 'live', 'pos', 'rest', 'done')

    def __init__(self, kind, refs, want, live):
        self.kind, self.refs, self.want, self.live = kind, refs, want, live
        self.pos, self.rest, self.done = 0, None, False


class World:
    """the real objects next to their model"""
    def __init__(self, src, rec, count_live=None):
        from checks import lib
        self.src, self.rec = src, rec
        self.lib = lib
        self.slots = {}
        self.n = 0
        self.interesting = False

    def setup(self):
        import tempfile
        import pointless as P
        lib = self.lib
        d = lib.realise(data())
        self.blob = P.serialize_to_bytearray(d)
        self.oblob = P.serialize_to_bytearray(lib.realise(other()))
        self.want, self.owant = lib.norm(data()), lib.norm(other())
        self.dir = tempfile.mkdtemp(dir=lib.tmpdir())
        self.path = os.path.join(self.dir, 'f')
        self.template, self.otemplate = self.path + '.a', self.path + '.b'
        with open(self.template, 'wb') as f:
            f.write(self.blob)
        with open(self.otemplate, 'wb') as f:
            f.write(self.oblob)

    def reset(self):
        import pointless as P
        self.slots.clear()
        self.n = 0
        self.interesting = False
        if self.src == 'file':
            for p in (self.path, ):
                try:
                    os.unlink(p)
                except FileNotFoundError:
                    pass
            os.link(self.template, self.path)
            self.source = self.path
        elif self.src == 'bytes':
            self.source = bytearray(self.blob)
        else:
            self.source = P.PointlessPrimVector('u8', sequence=self.blob)
        # what opening the source gives: a normal form, or None for an error
        self.now = self.want
        self.open()

    def put(self, kind, refs, want, live):
        o = Obj(kind, refs, want, live)
        self.slots[self.n] = o
        self.n += 1
        return o

    def open(self):
        import pointless as P
        if self.source is None:
            return
        e, h = self.lib.raises(P.Pointless, self.source)
        if e != (self.now is None):
            self.bad('opening', 'unexpected result %r' % (h, ))
            return
        if not e:
            self.put('H', [], self.now, h)

    def bad(self, what, detail=''):
        self.rec.violation(what, detail)

    # ---- operations ----
    def actions(self, small):
        a = []
        for i, o in self.slots.items():
            k = o.kind
            if k == 'H':
                a.append(('root', i))
                if o.want is not None and not small:
                    a += [('again', i), ('worse', i)]
                elif o.want is not None:
                    a.append(('again', i))
            elif k == 'v':
                a += [('item', i, j) for j, x in enumerate(o.want[1]) if x[0] in 'vMSB'][:2 if small else 9]
                a.append(('slice', i))
                a.append(('iter', i))
                if not small:
                    a.append(('reversed', i))
                    if all(x[0] == 'i' for x in o.want[1]) and o.want[1]:
                        a.append(('view', i))
            elif k == 'M':
                a += [('items', i), ('values', i)] if small else [('items', i), ('values', i), ('keys', i), ('iter', i), ('get', i)]
            elif k == 'S':
                a.append(('iter', i))
            elif k == 'B':
                a.append(('iter', i))
                if not small:
                    a.append(('copy', i))
            elif k in 'qQ':
                a += [('next', i)] if small else [('next', i), ('drain', i)]
            a.append(('drop', i))
        if self.src == 'file':
            a += [('unlink', ), ('replace', ), ('open', )]
        elif self.source is not None:
            a += [('wipe', ), ('resize', ), ('forget', ), ('open', )]
        return a

    def do(self, a):
        import pointless as P
        lib = self.lib
        op = a[0]
        o = self.slots[a[1]] if len(a) > 1 else None
        if op == 'root':
            e, r = lib.raises(o.live.GetRoot)
            if e:
                if o.want is not None:
                    self.bad('root cannot be read', repr(r))
            elif o.want is None:
                self.bad('root of a handle which was not opened', '')
            else:
                self.wrap(r, o.want, [o])
        elif op in ('again', 'worse'):
            users = [x for x in self.reach() if x is not o and o in self.deep(x)]
            arg = self.source if op == 'again' else bytearray(b'rubbish' * 20)
            if arg is None:
                return
            e, r = lib.raises(o.live.__init__, arg)
            can = op == 'again' and self.now is not None
            if not e and not can:
                self.bad('initialised again with something unreadable', '')
            elif e and can and not users:
                self.bad('initialising again fails although nothing uses the handle', repr(r))
            elif not e:
                o.want = self.now
                o.done = bool(users)
            else:
                # still what it was, or closed if nothing uses it
                f, r = lib.raises(o.live.GetRoot)
                if f:
                    if users:
                        self.bad('handle in use was closed', repr(r))
                    o.want = None
                elif lib.canon(lib.got(r)) != lib.canon(o.want):
                    self.bad('failed initialisation changes the content', '')
            self.interesting = True
        elif op == 'item':
            self.wrap(o.live[a[2]], o.want[1][a[2]], self.base(o))
        elif op == 'slice':
            n = len(o.want[1])
            s = o.live[1:n]
            self.put('v', self.base(o), ('v', o.want[1][1:]), s)
        elif op == 'view':
            e, m = lib.raises(memoryview, o.live)
            if not e:
                self.put('m', [o], o.want, m)
        elif op == 'copy':
            self.put('K', [], o.want, o.live.copy())
        elif op == 'get':
            k = [y for x, y in o.want[1] if x == ('s', 'k') or x == ('s', 'o')][0]
            self.wrap(o.live.get('k') or o.live.get('o'), k, self.base(o))
        elif op in ('iter', 'reversed', 'keys', 'values', 'items'):
            f = {'iter': iter, 'reversed': reversed}.get(op)
            it = f(o.live) if f else getattr(o.live, op)()
            q = self.put('q' if o.kind in 'vB' else 'Q', [o], None, it)
            if o.kind == 'v':
                q.rest = list(o.want[1])[::-1 if op == 'reversed' else 1]
            elif o.kind == 'B':
                q.rest = [('b', x) for x in o.want[1]]
            elif o.kind == 'S':
                q.rest = list(o.want[1])
            else:
                q.rest = [x if op in ('keys', 'iter') else y if op == 'values' else ('v', [x, y]) for x, y in o.want[1]]
        elif op in ('next', 'drain'):
            while True:
                try:
                    x = next(o.live)
                except StopIteration:
                    if o.rest:
                        self.bad('iterator ends early', '%d left' % len(o.rest))
                    o.done = True
                    break
                self.taken(o, x, op == 'next')
                if op == 'next':
                    break
        elif op == 'drop':
            if len(self.slots) > 1:
                self.interesting = True
            del self.slots[a[1]]
            o.live = None
        elif op == 'unlink':
            try:
                os.unlink(self.path)
            except FileNotFoundError:
                pass
            self.now = None
            self.interesting = True
        elif op == 'replace':
            t = self.path + '.n'
            os.link(self.otemplate, t)
            os.replace(t, self.path)
            if os.path.exists(t):
                os.unlink(t)
            self.now = self.owant
            self.interesting = True
        elif op == 'open':
            self.open()
        elif op == 'wipe':
            if self.src == 'bytes':
                self.source[:] = b'\xff' * len(self.source)
            else:
                for i in range(len(self.source)):
                    self.source[i] = 255
            self.now = None
            self.interesting = True
        elif op == 'resize':
            e, r = lib.raises(self.source.clear)
            if e:
                self.bad('the source cannot be resized', repr(r))
            self.source.append(1)
            self.now = None
            self.interesting = True
        elif op == 'forget':
            self.source = None
            self.interesting = True

    def taken(self, o, x, keep):
        """x came from iterator o"""
        lib = self.lib
        if type(x) is tuple:
            g = ('v', [lib.got(x[0]), lib.got(x[1])])
        else:
            g = lib.got(x)
        c = lib.canon(g)
        for i, w in enumerate(o.rest[:1] if o.kind == 'q' else o.rest):
            if lib.canon(w) == c:
                del o.rest[i]
                break
        else:
            self.bad('iterator yields a wrong item', lib.show(g))
            return
        if keep:
            for y, z in zip(x, g[1]) if type(x) is tuple else ((x, g), ):
                if z[0] in 'vMSB':
                    self.wrap(y, z, self.base(o))

    def base(self, o):
        """the handle behind o"""
        while o.kind != 'H':
            if not o.refs:
                return []
            o = o.refs[0]
        return [o]

    def wrap(self, r, want, refs):
        k = {'v': 'v', 'M': 'M', 'S': 'S', 'B': 'B'}[want[0]]
        self.put(k, refs, want, r)

    # ---- judgement ----
    def deep(self, o, done=True):
        out = [o]
        if done or not o.done:
            for r in o.refs:
                out += self.deep(r, done)
        return out

    def reach(self, done=True):
        out = []
        for o in self.slots.values():
            for x in self.deep(o, done):
                if not any(x is y for y in out):
                    out.append(x)
        return out

    def state(self):
        return hash((str(self.now), self.source is None, tuple(sorted((o.kind, str(o.want), len(o.rest or ()), o.done) for o in self.slots.values()))))

    def counts(self):
        """live counts against the handles we can still ask"""
        hi, lo = self.reach(), None
        for h in hi:
            if h.kind != 'H' or h.live is None or h.done:
                continue
            got = h.live.GetRefs()
            for kind, name in (('v', 'n_vector_refs'), ('M', 'n_map_refs'), ('S', 'n_set_refs'), ('B', 'n_bitvector_refs')):
                n = sum(1 for x in hi if x.kind == kind and any(y is h for y in self.deep(x)))
                if got[name] != n:
                    # an exhausted iterator may have let go
                    if lo is None:
                        lo = self.reach(False)
                    m = sum(1 for x in lo if x.kind == kind and any(y is h for y in self.deep(x)))
                    if not m <= got[name] <= n:
                        self.bad('live count is wrong', '%s is %d, not %d' % (name, got[name], n))
                        return

    def contents(self):
        lib = self.lib
        for o in self.slots.values():
            if o.kind in 'vMSBK':
                if lib.canon(lib.got(o.live)) != lib.canon(o.want):
                    self.bad('content changed', '%s is %s' % (lib.show(o.want), lib.show(lib.got(o.live))))
                    return
                if o.kind != 'K' and len(str(o.live)) < 2:
                    self.bad('printing broken', '')
            elif o.kind == 'm':
                w = [x[1] for x in o.want[1]]
                if bytes(o.live) != array.array('HB'[max(w) < 256], w).tobytes():
                    self.bad('buffer changed', '')
            elif o.kind == 'H' and o.want is not None:
                e, r = lib.raises(o.live.GetRoot)
                if e or lib.canon(lib.got(r)) != lib.canon(o.want):
                    self.bad('content of the handle changed', '')
                    return
            elif o.kind in 'qQ':
                left = list(o.live)
                for x in left:
                    if not o.rest and left:
                        self.bad('iterator yields too many items', '')
                        return
                    self.taken(o, x, False)
                if o.rest:
                    self.bad('iterator ends early', '%d left' % len(o.rest))


def descriptors():
    return sorted(os.listdir('/proc/self/fd'), key=int)


def mapped(path):
    with open('/proc/self/maps') as f:
        return path in f.read()


def run(name, args, rec):
    import ctypes
    import gc
    import sys
    from checks import lib
    import pointless as P
    live = None
    if args.get('variant') == 'asan':
        live = ctypes.c_long.in_dll(ctypes.CDLL(P.__file__), 'mc_live')
    if name == 'histories':
        W = World(args['src'], rec)
        W.setup()
        gc.collect()
        gc.disable()
        W.reset()
        W.slots.clear()
        W.source = None
        explore(rec, W, args, live)
    elif name == 'leaks':
        leaks(rec, live, args['part'], args['of'])
    elif name == 'bare':
        bare(rec)
    elif name == 'own':
        own(rec, live, args['depth'])


def explore(rec, W, args, live):
    """all histories up to the depth, shorter ones first below each prefix"""
    small, depth = args.get('small'), args['depth']
    fds, base = len(descriptors()), live.value if live else 0
    seen = set()
    second = itertools.count()

    def replay(h):
        W.reset()
        for a in h:
            W.do(a)
            W.counts()

    def go(h):
        for a in W.actions(small):
            g = h + [a]
            if len(g) == 2 and next(second) % args['of'] != args['part']:
                continue
            if (len(g) > 1 or args['part'] == 0) and rec.begin((args['src'], ) + tuple(g)):
                replay(g)
                if W.interesting:
                    rec.nontrivial()
                seen.add(W.state())
                rec.count('transitions')
                rec.count('traces')
                W.contents()
                W.slots.clear()
                W.source = None
                if args['src'] == 'file':
                    if len(descriptors()) != fds:
                        rec.violation('descriptor left open', str(descriptors()))
                    elif mapped(W.path):
                        rec.violation('mapping left behind', '')
                if live and live.value != base:
                    rec.violation('memory left behind', '%d blocks' % (live.value - base))
                    base_now(live)
            if len(g) < depth:
                # the actions which are possible next are those of the real run
                replay(g)
                go(g)

    def base_now(live):
        nonlocal base
        base = live.value
    W.reset()
    go([])
    rec.count('states', len(seen))


# ---- every call repeated ----
class Raises:
    """fails at whatever is asked of it"""
    def __index__(self):
        raise KeyError('index')

    __int__ = __float__ = __index__

    def __iter__(self):
        yield 1
        raise KeyError('iter')

    def __len__(self):
        return 3

    def __getitem__(self, i):
        if i > 1:
            raise KeyError('item')
        return i

    def __eq__(self, o):
        raise KeyError('eq')

    def __hash__(self):
        return 1


def fixtures():
    """-> {name: factory of a fresh object}"""
    from checks import lib
    import pointless as P
    d = lib.realise(data())
    blob = P.serialize_to_bytearray(d)
    keep = P.Pointless(blob).GetRoot()
    f = {
        'handle': lambda: P.Pointless(blob),
        'vector': lambda: P.Pointless(blob).GetRoot(),
        'typed vector': lambda: keep[4][0:3],
        'slice': lambda: keep[1:4],
        'map': lambda: P.Pointless(blob).GetRoot()[1],
        'set': lambda: P.Pointless(blob).GetRoot()[2],
        'read bits': lambda: P.Pointless(blob).GetRoot()[3],
        'bits': lambda: P.PointlessBitvector(sequence=[True, False, True]),
        'vector iterator': lambda: iter(keep),
        'reversed vector': lambda: reversed(keep),
        'map items': lambda: keep[1].items(),
        'map values': lambda: keep[1].values(),
        'map keys': lambda: keep[1].keys(),
        'set iterator': lambda: iter(keep[2]),
        'bits iterator': lambda: iter(keep[3]),
        'prim iterator': lambda: iter(P.PointlessPrimVector('u8', sequence=[1, 2])),
        'reversed prim': lambda: reversed(P.PointlessPrimVector('u8', sequence=[1, 2])),
    }
    for tc in ('u8', 'i16', 'u64', 'i64', 'f'):
        f['prim ' + tc] = lambda tc=tc: P.PointlessPrimVector(tc, sequence=[3.0, 1.0, 2.0] if tc == 'f' else [3, 1, 2])
    return f


def pool():
    from checks import lib
    import pointless as P
    root = P.Pointless(P.serialize_to_bytearray(lib.realise(data()))).GetRoot()
    return [
        10**15, -1, 2.5, 'k' + 'q' * 3, 'u8' + '', ('t', 1), ['l', 2], {'d': [1], 10**14: 2}, {'s', 5.5}, b'bytes', bytearray(b'ab'), Raises(), object(),
        root, root[4], root[1], root[2], root[3], P.PointlessPrimVector('u32', sequence=[2, 0, 1]), P.PointlessBitvector(size=3), slice(0, 2), slice(None, None, 2), [3, 1, 2], (x for x in ()), (0, 2, 10**15), 3, 2, [1.5, 'x', object()], {1: object()}, {('q', object())}, P.Pointless, '\ud800',
    ]


def leaks(rec, live, part, of):
    import gc
    import sys
    import tempfile
    from checks import lib
    import pointless as P
    home = tempfile.mkdtemp(dir=lib.tmpdir())
    os.chdir(home)
    F, A = fixtures(), pool()
    watch = [x for x in A if sys.getrefcount(x) < 10**6]
    # what to call: (name, function of the arguments)
    calls = []
    for fn, make in F.items():
        t = type(make())
        for m in sorted(t.__dict__):
            if m in ('__doc__', '__new__', '__module__') or not callable(t.__dict__[m]) and not hasattr(t.__dict__[m], '__get__'):
                continue
            calls.append(('%s.%s' % (fn, m), lambda *a, make=make, m=m: attribute(make(), m, a), 2))
    for m in sorted(dir(P)):
        x = getattr(P, m)
        if callable(x) and not m.startswith('_'):
            calls.append((m, x, 3 if isinstance(x, type) else 2))
    kw = [('PointlessPrimVector', P.PointlessPrimVector, [dict(type=t, **{k: None}) for t in ('u8', 'f', 'zz', 5) for k in ('sequence', 'buffer', 'allow_print')]), ('PointlessBitvector', P.PointlessBitvector, [{k: None} for k in ('size', 'sequence', 'allow_print', 'rubbish')]),
          ('Pointless', P.Pointless, [dict(filename_or_buffer='x', validate=None), dict(filename_or_buffer=None), dict(allow_print=None)]), ('serialize_to_bytearray', P.serialize_to_bytearray, [dict(object=None), {'unwiden_strings': None}, {'normalize_bitvector': None}])]
    for n, f, ks in kw:
        for k in ks:
            calls.append(('%s(%s)' % (n, ', '.join(k)), lambda *a, f=f, k=k: f(**{x: a[0] if y is None else y for x, y in k.items()}) if a else f(**k), 1))
    for k in ('serialize', 'serialize_to_buffer', 'serialize_to_bytearray'):
        for u in ('unwiden_strings', 'normalize_bitvector'):
            calls.append(('%s(%s=)' % (k, u), lambda *a, k=k, u=u: getattr(P, k)(a[0], *(['out'] if k == 'serialize' else []), **{u: a[1]}), 2))
    fds0 = None
    n = 0
    for cname, f, most in calls:
        for k in range(most + 1):
            for a in itertools.product(range(len(A)), repeat=k) if k < 3 else ((x, y, z) for x in (3, 4, 10, 18) for y in range(len(A)) for z in (1, 3, 12, 22)):
                n += 1
                if n % of != part or not rec.begin((cname, a)):
                    continue
                args = [A[i] for i in a]
                repeat(f, args, 3)
                before = [sys.getrefcount(x) for x in watch]
                g = [growth(f, args, 3, live)]
                while g[-1] >= 3 and len(g) < 5:
                    g.append(growth(f, args, 3 * 2**len(g), live))
                if len(g) == 5:
                    gc.collect()
                    m = growth(f, args, 96, live, True)
                    if m >= 96:
                        rec.violation('memory accumulates', '%d per 96 calls' % m)
                after = [sys.getrefcount(x) for x in watch]
                if before != after:
                    gc.collect()
                    b = [sys.getrefcount(x) for x in watch]
                    repeat(f, args, 20)
                    gc.collect()
                    c = [sys.getrefcount(x) for x in watch]
                    if any(abs(y - x) >= 20 for x, y in zip(b, c)):
                        rec.violation('references accumulate', str([(type(w).__name__, y - x) for w, x, y in zip(watch, b, c) if x != y]))
                rec.count('calls', 10)
                rec.nontrivial((cname, a))
                if n % 64 == part or n < 200:
                    d = len(descriptors())
                    if fds0 is None:
                        fds0 = d
                    if d != fds0:
                        rec.violation('descriptors accumulate', str(descriptors()))
                        fds0 = d
    os.chdir('/')


def attribute(o, m, a):
    x = getattr(o, m)
    return x(*a) if callable(x) else x


def repeat(f, args, n):
    import warnings
    for i in range(n):
        try:
            r = f(*args)
            if hasattr(r, '__next__') and not hasattr(r, 'send'):
                next(r, None)
        except SystemError:
            raise
        except Exception:
            pass
        r = None


def growth(f, args, n, live, collect=False):
    import gc
    import sys
    a = live.value if live else sys.getallocatedblocks()
    repeat(f, args, n)
    if collect:
        gc.collect()
    return (live.value if live else sys.getallocatedblocks()) - a


# ---- objects which were never opened ----
def bare(rec):
    from checks import lib
    import pointless as P
    F, A = fixtures(), pool()
    types = {}
    for n, make in F.items():
        types[type(make())] = n
    for t, n in types.items():
        for how in ('new', 'failed'):
            def make():
                o = t.__new__(t)
                if how == 'failed':
                    lib.raises(o.__init__, 'no such file', object())
                    lib.raises(o.__init__, bytearray(b'x'))
                return o
            e, o = lib.raises(make)
            if e:
                continue
            for m in sorted(t.__dict__):
                if m in ('__doc__', '__new__', '__module__'):
                    continue
                for a in [()] + [(x, ) for x in A] + [(x, y) for x in A[:5] for y in A[:5]]:
                    if rec.begin((n, how, m, len(a), str(type(a[0])) if a else '')):
                        clean(rec, lambda: attribute(make(), m, a))
                        rec.nontrivial()
            other = F[n]
            for what, f in (('str', str), ('repr', repr), ('len', len), ('iter', lambda x: list(iter(x))), ('next', next), ('list', list), ('hash', hash), ('eq', lambda x: x == other()), ('le', lambda x: other() <= x), ('self', lambda x: x == x), ('in', lambda x: x in x), ('reversed', lambda x: list(reversed(x))),
                            ('memoryview', lambda x: bytes(memoryview(x))), ('serialize', P.serialize_to_bytearray), ('in list', lambda x: P.serialize_to_bytearray([x, {1: x}])), ('key', lambda x: P.serialize_to_bytearray({(x, 1): 2})), ('hash2', P.pyobject_hash), ('hash3', P.pyobject_hash_32), ('cmp', lambda x: P.pointless_cmp(x, other())),
                            ('cmp2', lambda x: P.pointless_cmp(other(), x)), ('is_eq', lambda x: P.pointless_is_eq(x, x)), ('contains', lambda x: x in other()), ('lookup', lambda x: F['map']()[x]), ('open', P.Pointless), ('sequence', lambda x: P.PointlessPrimVector('u8', sequence=x)), ('bits', lambda x: P.PointlessBitvector(sequence=x)),
                            ('remap', lambda x: P.PointlessPrimVector.FromRemap(x, F['prim u8']())), ('remap2', lambda x: P.PointlessPrimVector.FromRemap(F['prim u8'](), x)), ('sort_proj', lambda x: F['prim u64']().sort_proj(x)), ('bulk', lambda x: F['prim u64']().append_bulk(x)), ('bulk2', lambda x: F['bits']().append_bulk(x)), ('del', lambda x: None)):
                if rec.begin((n, how, what)):
                    clean(rec, lambda: f(make()))
                    rec.nontrivial()
            rec.count('traces')
            rec.count('states')
            rec.count('transitions')


def clean(rec, f):
    try:
        f()
    except SystemError as e:
        rec.violation('interpreter error', repr(e))
    except Exception:
        pass


# ---- our own containers and what is derived from them ----
def own(rec, live, depth):
    import pointless as P
    from checks import lib
    base = live.value

    def start():
        return [('p', P.PointlessPrimVector('i16', sequence=[5, -6, 7, 8]), [5, -6, 7, 8]), ('b', P.PointlessBitvector(sequence=[1, 0, 1, 1]), [True, False, True, True])]

    def actions(S):
        for i, (k, o, w) in enumerate(S):
            if o is None:
                continue
            if k == 'p':
                yield from [(i, x) for x in ('iter', 'reversed', 'slice', 'view', 'serialize', 'remap')]
            elif k == 'b':
                yield from [(i, x) for x in ('iter', 'copy')]
            elif k in 'ir':
                yield from [(i, x) for x in ('next', 'drain')]
            elif k == 'm':
                yield from [(i, x) for x in ('cast', 'part')]
            yield i, 'drop'

    def do(S, a):
        i, op = a
        k, o, w = S[i]
        if op == 'drop':
            S[i] = (k, None, None)
        elif op == 'iter':
            S.append(('i', iter(o), list(w)))
        elif op == 'reversed':
            S.append(('i', reversed(o), list(reversed(w))))
        elif op == 'slice':
            S.append(('p', o[1:len(w)], w[1:]))
        elif op == 'view':
            S.append(('m', memoryview(o), w))
        elif op == 'part':
            S.append(('m', o[2:], w[1:]))
        elif op == 'cast':
            S.append(('m', memoryview(o).toreadonly(), w))
        elif op == 'serialize':
            S.append(('p', P.PointlessPrimVector(buffer=o.serialize()), w))
        elif op == 'remap':
            n = len(w)
            S.append(('p', P.PointlessPrimVector.FromRemap(o, P.PointlessPrimVector('u32', sequence=list(range(n))[::-1])), w[::-1]))
        elif op == 'copy':
            S.append(('b', o.copy(), w))
        elif op == 'next':
            x = next(o, None)
            if x != (w[0] if w else None):
                rec.violation('iterator yields a wrong item', repr(x))
            S[i] = (k, o, w[1:])
        elif op == 'drain':
            if list(o) != w:
                rec.violation('iterator yields wrong items', '')
            S[i] = (k, o, [])

    def look(S):
        for k, o, w in S:
            if o is None:
                continue
            if k in 'pb' and [x for x in o] != w:
                rec.violation('content changed', '%s: %s' % (k, w))
            elif k == 'm' and bytes(o) != struct.pack('<%dh' % len(w), *w):
                rec.violation('buffer changed', '')
            elif k == 'i' and list(o) != w:
                rec.violation('iterator yields wrong items', '')

    def go(h):
        nonlocal base
        S = start()
        for a in h:
            do(S, a)
        acts = list(actions(S))
        S = None
        for a in acts:
            g = h + [a]
            if rec.begin(tuple(g)):
                S = start()
                for b in g:
                    do(S, b)
                look(S)
                S = None
                rec.nontrivial()
                rec.count('traces')
                rec.count('transitions')
                if live.value != base:
                    rec.violation('memory left behind', '%d blocks' % (live.value - base))
                    base = live.value
            if len(g) < depth:
                go(g)
    go([])
