"""C11: an exported buffer pins its vector. Histories of taking views, releasing
them, dropping references and every operation of the vector."""
import ctypes
import io
import itertools
import struct

from checks import c09

LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of all histories of views, releases, dropped references and vector operations against a list with a view count'
NOTE = 'Views of four kinds (whole, sliced, cast, ctypes) are taken and released in every order; after every step every live view is compared with the model. The same histories run in the memory checker.'
RULE = 'a case is all histories with one prefix, or one operation under one kind and number of views; non-trivial when an operation runs under a live view'
BOUNDS = {
    'quick': 'histories of 17 steps to depth 4 for two types and depth 3 for the others, from an empty and a filled vector; every operation of C09 (about 120 per type, nine types) under 1 and 2 views of 4 kinds; depth 3 and all operations in the memory checker',
    'thorough': 'histories to depth 5 (two types) and 4',
}
NEEDS = ['plain', 'asan']
ASSUMPTIONS = ['an operation which happens not to change the number of items (appending nothing, popping nothing, re-initialising with as many items) may either work or raise BufferError']
TYPES = c09.TYPES


def tasks(tier):
    d = 0 if tier == 'quick' else 1
    t = []
    for ty in TYPES:
        t.append(('ops', dict(type=ty)))
        t.append(('ops', dict(type=ty, variant='asan')))
        for s in (0, 1):
            t.append(('hist', dict(type=ty, depth=(4 if ty in ('i8', 'f') else 3) + d, start=s)))
        t.append(('hist', dict(type=ty, depth=3 if d or ty in ('u16', 'i64') else 2, start=1, variant='asan')))
    t.append(('file', {}))
    t.append(('file', dict(variant='asan')))
    return t


def whole(o):
    return memoryview(o)


def cast(o):
    return memoryview(o).cast('B')


def part(o):
    n = len(memoryview(o))
    return memoryview(o)[n // 2:]


class CView:
    """a view held by ctypes"""
    def __init__(self, o):
        self.n = len(memoryview(o))
        self.c = (ctypes.c_char * self.n).from_buffer(o)

    def tobytes(self):
        return bytes(self.c)

    def release(self):
        self.c = None


KINDS = [('whole', whole), ('part', part), ('cast', cast), ('ctypes', CView)]


def view_text(k, v):
    """the bytes of a view, from its start in the vector"""
    return bytes(v.c.raw) if isinstance(v, CView) else v.tobytes()


def expected(k, b):
    return b[len(b) // 2:] if k == 'part' else b


def raw(lib, t, m):
    return struct.pack('<%d%s' % (len(m), c09.FMT[t]), *m)


def run(name, args, rec):
    from checks import lib
    import pointless as P
    {'ops': ops, 'hist': hist, 'file': file}[name](rec, lib, P, args)


RESIZERS = ('app', 'bulk', 'pop', 'popb', 'remove', 'fremove', 'clear', 'init', 'reinit')


def ops(rec, lib, P, args):
    t = args['type']
    S = c09.OpSet(lib, P, t)
    for init in c09.starts(lib, t):
        for kinds in [(k,) for k in KINDS] + [(KINDS[0], KINDS[3]), (KINDS[1], KINDS[1])]:
            if not init and any(k[0] == 'ctypes' for k in kinds):
                pass
            for name in S.ops:
                if not rec.begin((t, len(init), [k[0] for k in kinds], name)):
                    continue
                rec.nontrivial()
                rec.count('states')
                rec.count('traces')
                rec.count('transitions', 2)
                mf, rf = S.ops[name]
                o = P.PointlessPrimVector(t, sequence=init)
                views = [(k, f(o)) for k, f in kinds]
                M = c09.Model(lib, P, t, init)
                before = list(M.m)
                refused = False
                try:
                    mf(M)
                except c09.Refused:
                    refused = True
                st = {}
                e, x = lib.raises(rf, o, st)
                o2 = o if e else x[0]
                new_object = o2 is not o
                if isinstance(x, (SystemError, MemoryError)):
                    rec.violation('an operation fails in a wrong way', repr(x))
                resizes = not new_object and len(M.m) != len(before)
                if refused:
                    if not e:
                        rec.violation('an operation does not fail that should', repr(x))
                    M.m = before
                elif resizes:
                    if not e:
                        rec.violation('a vector changes its size while a view is alive', '%d, now %d' % (len(before), len(o)))
                        continue
                    elif not isinstance(x, BufferError):
                        rec.violation('a resize under a view does not raise BufferError', repr(x))
                    M.m = before
                elif e:
                    if not (isinstance(x, BufferError) and name.startswith(RESIZERS)):
                        rec.violation('an operation that does not resize fails under a view', repr(x))
                    M.m = before
                if not new_object:
                    d = c09.observe(lib, P, t, o, M.m, True)
                    if d:
                        rec.violation('a vector differs from a list', d)
                    now = M.m
                else:
                    d = c09.observe(lib, P, t, o2, M.m, True)
                    if d:
                        rec.violation('a vector differs from a list', d)
                    now = before
                b = raw(lib, t, now)
                for k, v in views:
                    if view_text(k, v) != expected(k, b):
                        rec.violation('a view differs from its vector', '%r: %r, not %r' % (k, view_text(k, v), b))
                # all but the last released: still pinned
                for k, v in views[:-1]:
                    v.release()
                    e, x = lib.raises(o.append, c09.values(lib, t)[0])
                    if not e or not isinstance(x, BufferError):
                        rec.violation('a vector changes its size while a view is alive', 'after releasing one of two')
                del v
                views.pop()[1].release()
                e, x = lib.raises(lambda: (o.append(c09.values(lib, t)[0]), o.append_bulk(o), o.pop(), o.pop_bulk(1)))
                if e:
                    rec.violation('a vector stays pinned after its last view is released', repr(x))


def hist(rec, lib, P, args):
    t = args['type']
    V = c09.values(lib, t)
    init = [V[0], V[1], V[2]] if args['start'] else []
    steps = ['view whole', 'view part', 'view ctypes', 'release first', 'release last', 'del first', 'write', 'append', 'pop', 'popb', 'bulk', 'remove', 'clear', 'set', 'sort', 'init', 'slice', 'forget', 'evil']
    for pre in itertools.product(steps, repeat=args['depth'] - 1):
        if not rec.begin((t, args['start'], pre)):
            continue
        if any(p.startswith('view') for p in pre[:-1]):
            rec.nontrivial()
        for last in steps:
            path = pre + (last,)
            one(rec, lib, P, t, V, init, path)


def one(rec, lib, P, t, V, init, path):
    R = P.PointlessPrimVector
    o = R(t, sequence=init)
    m = [c09.narrow(lib, t, x) for x in init]
    views = []
    rec.count('traces')
    rec.count('states')
    f32 = lib.f32 if t == 'f' else (lambda x: x)
    for p in path:
        rec.count('transitions')
        if o is None and p not in ('release first', 'release last', 'del first', 'write'):
            # reached through a view only
            src = [v for k, v in views if not isinstance(v, CView)]
            if not src:
                return
            o = src[0].obj
            src = None
        e = x = None
        size = None
        if p.startswith('view'):
            k = p[5:]
            if len(views) < 3:
                views.append((k, dict(KINDS)[k](o)))
        elif p.startswith('release') or p == 'del first':
            if views:
                k, v = views.pop(0 if p.endswith('first') else -1)
                if p != 'del first':
                    v.release()
                del v
        elif p == 'write':
            for k, v in views:
                if m and not isinstance(v, CView) and k == 'whole':
                    v[:len(raw(lib, t, m[:1]))] = raw(lib, t, [f32(V[3])])
                    m[0] = f32(V[3])
                elif m and isinstance(v, CView):
                    v.c[0:1] = raw(lib, t, m)[:1]
        elif p == 'append':
            e, x = lib.raises(o.append, V[1])
            size = m + [f32(V[1])]
        elif p == 'pop':
            e, x = lib.raises(o.pop)
            size = m[:-1] if m else 'err'
        elif p == 'popb':
            e, x = lib.raises(o.pop_bulk, 2)
            size = m[:-2] if len(m) >= 2 else 'err'
        elif p == 'bulk':
            e, x = lib.raises(o.append_bulk, c09.gen(V[:2]))
            size = m + [f32(v) for v in V[:2]]
        elif p == 'remove':
            e, x = lib.raises(o.remove, V[1])
            size = 'err'
            if f32(V[1]) in m:
                size = list(m)
                size.remove(f32(V[1]))
        elif p == 'clear':
            e, x = lib.raises(o.clear)
            size = []
        elif p == 'set':
            if m:
                o[-1] = V[2]
                m[-1] = f32(V[2])
        elif p == 'sort':
            o.sort()
            m.sort()
        elif p == 'init':
            e, x = lib.raises(o.__init__, t, sequence=V[:1] * 5)
            size = [f32(V[0])] * 5
        elif p == 'slice':
            if not c09.eq(t, lib, list(o[1:]), m[1:]):
                rec.violation('a vector differs from a list', 'slice, %r' % (path,))
        elif p == 'forget':
            o = None
        elif p == 'evil':
            # a view taken while the vector is being filled
            keep = []

            def source():
                yield V[0]
                keep.append(memoryview(o))
                yield V[1]
            e, x = lib.raises(o.append_bulk, source())
            if not e or not isinstance(x, BufferError):
                rec.violation('a vector changes its size while a view is alive', 'view taken by the source: %r' % (path,))
                return
            if keep:
                if keep[0].tobytes() != raw(lib, t, m):
                    rec.violation('a view differs from its vector', 'view taken by the source: %r' % (path,))
                keep[0].release()
            e = None
        if e is not None:
            if size == 'err':
                if not e:
                    rec.violation('an operation does not fail that should', '%r: %r' % (path, x))
            elif views and len(size) != len(m):
                if not e:
                    rec.violation('a vector changes its size while a view is alive', '%r' % (path,))
                    return
                if not isinstance(x, BufferError):
                    rec.violation('a resize under a view does not raise BufferError', '%r: %r' % (path, x))
            elif views:
                if not e:
                    m = size
                elif not isinstance(x, BufferError):
                    rec.violation('an operation that does not resize fails under a view', '%r: %r' % (path, x))
            else:
                if e:
                    rec.violation('a vector stays pinned after its last view is released', '%r: %r' % (path, x))
                    return
                m = size
        if o is not None:
            d = c09.observe(lib, P, t, o, m, False)
            if d:
                rec.violation('a vector differs from a list', '%r: %s' % (path, d))
                return
        b = raw(lib, t, m)
        for k, v in views:
            if view_text(k, v) != expected(k, b):
                rec.violation('a view differs from its vector', '%r: %r, not %r' % (path, view_text(k, v), b))
                return


def file(rec, lib, P, args):
    """a vector of bytes a file was opened from: the content is copied, so neither pins the other"""
    R = P.PointlessPrimVector
    docs = [('list', [1, 2, 3]), ('nested', [[1, 'a'], {'k': 2}, 'x']), ('none', None), ('map', {'a': [1, 2]}), ('set', {1, 'b'})]
    acts = [('append', lambda o: o.append(1)), ('pop', lambda o: o.pop()), ('popb', lambda o: o.pop_bulk(3)), ('bulk', lambda o: o.append_bulk([1])), ('clear', lambda o: o.clear()), ('init', lambda o: o.__init__('u8')), ('remove', lambda o: o.remove(o[0])), ('fremove', lambda o: o.fast_remove(o[0])), ('self', lambda o: o.append_bulk(o))]
    for dn, doc in docs:
        for keep in ('handle', 'root'):
            for an, act in acts:
                if not rec.begin((dn, keep, an)):
                    continue
                rec.nontrivial()
                o = R('u8', sequence=P.serialize_to_bytearray(doc))
                h = P.Pointless(o)
                k = h if keep == 'handle' else h.GetRoot()
                del h
                rec.count('states')
                rec.count('traces')
                rec.count('transitions', 2)
                e, x = lib.raises(act, o)
                if e:
                    rec.violation('a vector is pinned by a file opened from it', repr(x))
                if not lib.same(lib.got(k.GetRoot() if keep == 'handle' else k), lib.norm(doc)):
                    rec.violation('a file opened from a vector changes with it', '')
    # a source that is refused is not pinned
    for bad in (b'', b'abc', b'\0' * 40, bytes(P.serialize_to_bytearray([1, 2]))[:30]):
        if rec.begin(('refused file', bad)):
            o = R('u8', sequence=bad)
            e, x = lib.raises(P.Pointless, o)
            rec.count('transitions')
            if not e:
                rec.violation('a malformed file is accepted', '')
            del x
            e, x = lib.raises(o.append, 1)
            if e:
                rec.violation('a vector stays pinned after its last view is released', repr(x))
    for what, use in (('readinto', lambda o: io.BytesIO(b'\5\6').readinto(o)), ('pack_into', lambda o: struct.pack_into('<BB', o, 0, 5, 6)), ('rebuild', lambda o: lib.raises(R, buffer=o)), ('join', lambda o: b''.join([o, o])), ('sort', lambda o: o.sort())):
        if rec.begin(('use', what)):
            o = R('u8', sequence=[9, 8])
            use(o)
            rec.count('transitions')
            if what in ('readinto', 'pack_into') and list(o) != [5, 6]:
                rec.violation('a write through a view is lost', what)
            e, x = lib.raises(o.append, 1)
            if e:
                rec.violation('a vector stays pinned after its last view is released', what)
