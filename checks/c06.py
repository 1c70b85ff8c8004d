"""C06: a read vector behaves like an immutable sequence. The state of a read
vector or slice is (vector, first item, length). All states reachable by slicing
are explored, every operation is applied in each and compared with a list."""
import bisect
import itertools
import json
import os
import struct
import subprocess
import tempfile

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of all reachable slices, every operation checked in every state against a list model'
NOTE = 'Model states are the windows of a vector; every model transition is executed on the real objects, by every spelling of the slice.'
RULE = 'a case is one vector with all operations in all windows reachable by up to two slicings; non-trivial when it has at least one non-empty proper slice'
BOUNDS = {
    'quick': '34 vectors of all 11 stored types with 0 to 7 items; all windows; 4 vectors (thorough: 9) of 2^30 to 2^32-1 items, with holes for zeros, at the items and slice bounds within 2 of 2^6..2^31, the middle and the ends; slice bounds None, -n-2..n+2, +-2^31..2^70; all index arguments -n-3..n+3 and beyond, and of wrong types',
    'thorough': 'as quick with 62 vectors with up to 12 items, three-step slicing, also under the memory checker',
}
NEEDS = ['plain', 'asan', 'c:huge:sparse']
ASSUMPTIONS = ['requests for items of types that comparison does not support (sets, maps, foreign objects, integers beyond 64 bits) may raise ValueError instead of being reported absent',
               'slices with a step other than 1 raise ValueError']


def vectors(tier):
    from checks import lib
    out = []
    for tc, items in [('i8', [-128, 127, 0, -1, 5, 5, -7]), ('u8', [0, 255, 7, 7, 128, 1]), ('i16', [-32768, 32767, 0, 300, -1]), ('u16', [65535, 0, 256, 256, 1]),
                      ('i32', [-2**31, 2**31 - 1, 0, -1, 70000]), ('u32', [2**32 - 1, 0, 70000, 2**31, 3]), ('i64', [-2**63, 2**63 - 1, 0, -1, 2**40]),
                      ('u64', [0, 1, 1, 2**40, 2**63, 2**64 - 1]), ('f', [0.5, -1.0, 0.0, 1e10, float('inf'), 0.5])]:
        out.append((tc, lib.Prim(tc, items)))
        out.append((tc, lib.Prim(tc, items[:1])))
        out.append((tc, lib.Prim(tc, sorted(items))))
        if tier == 'thorough':
            out.append((tc, lib.Prim(tc, items[:2])))
            out.append((tc, lib.Prim(tc, [items[0]] * 9)))
            out.append((tc, lib.Prim(tc, (items + items)[:12])))
    out += [('v', []), ('v', ['a', 1, None, '\u0100', 2.5]), ('v', [[1, 2], 'x', [[3]], (), {1: 2}]), ('v', [None, None]), ('v', [True, False, True]), ('v', [{1, 2}, 'k', [1]]),
            ('v', [1, 2.5, 1]), ('v', [lib.Bits([1, 0, 1]), lib.Bits([1] * 40), 3]), ('v', ['only'])]
    if tier == 'thorough':
        out += [('v', ['s%d' % i for i in range(12)]), ('v', [[i] * i for i in range(8)]), ('v', [i if i % 2 else 'x' for i in range(11)])]
    return out


HUGE = [('u8', 2**32 - 1), ('u64', 2**31 + 3), ('i16', 2**31 - 1), ('f', 2**30 + 9), ('u32', 2**32 - 2), ('i8', 2**31), ('i64', 2**29 + 1), ('i32', 2**31 + 1), ('u16', 2**32 - 17)]


def tasks(tier):
    t = []
    of = 8 if tier == 'quick' else 16
    for i in range(of):
        t.append(('all', dict(part=i, of=of, tier=tier)))
    for i in range(2 if tier == 'quick' else 8):
        t.append(('all', dict(part=i, of=12 if tier == 'quick' else 8, tier=tier, variant='asan')))
    for ty, n in HUGE if tier != 'quick' else HUGE[:4]:
        t.append(('huge', dict(type=ty, n=n, mem_gb=100, rss_gb=8)))
    t.append(('immutable', {}))
    t.append(('immutable', dict(variant='asan')))
    return t


class Ix:
    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i

    def __repr__(self):
        return 'Ix(%d)' % self.i


def pyitem(d):
    """what a read item looks like, as a comparison key"""
    from checks import lib
    return lib.canon(lib.norm(d)) if not isinstance(d, int) or isinstance(d, bool) else ('i', d)


def check(rec, pv, model, keys, how, tc, full):
    """every operation on one window"""
    from checks import lib
    V = rec.violation
    n = len(model)
    rec.count('states')

    def op(what, ok):
        rec.count('transitions')
        rec.count('traces')
        if not ok:
            V('a read vector differs from a list', '%s of %s (%r)' % (what, how, model))
        return ok
    if not op('len', len(pv) == n):
        return
    it = [x for x in pv]
    if not op('iteration', [lib.canon(lib.got(x)) for x in it] == keys):
        return
    r = [x for x in reversed(pv)]
    op('reversed iteration', [lib.canon(lib.got(x)) for x in r] == keys[::-1])
    i = iter(pv)
    j = reversed(pv)
    for k in range(n):
        if lib.canon(lib.got(next(i))) != keys[k] or lib.canon(lib.got(next(j))) != keys[n - 1 - k]:
            op('interleaved iterators', False)
    for z in (i, j, i, j):
        try:
            next(z)
            op('iterator after its end', False)
        except StopIteration:
            op('iterator after its end', True)
    op('iter of iter', iter(i) is i)
    for k in list(range(-n - 3, n + 4)) + [2**31, -2**31, 2**32, 2**32 - 1, -2**32, 2**32 + (n and n - 1), -2**32 - 1, 2**63 - 1, -2**63, 2**70, -2**70]:
        for form in ((k, Ix(k)) if full or abs(k) > 1 else (k, Ix(k), bool(k)) if k in (0, 1) else (k,)):
            e, x = lib.raises(pv.__getitem__, form)
            if -n <= k < n:
                op('item %r' % (form,), not e and lib.canon(lib.got(x)) == keys[k])
            else:
                op('item %r' % (form,), e and isinstance(x, IndexError))
    for k in (None, 1.0, 'a', (1,), [0], b'', 1j):
        e, x = lib.raises(pv.__getitem__, k)
        op('item %r' % (k,), e and isinstance(x, TypeError))
    # membership
    from checks.c05 import equal
    cand = list(model) + ABSENT
    for c in cand:
        e, x = lib.raises(pv.__contains__, lib.realise(c))
        w = contains(model, c)
        if w is None:
            op('%r in' % (c,), (e and isinstance(x, ValueError)) or x in (True, False))
        else:
            op('%r in' % (c,), not e and x is w)
    for c, w in ((object(), False), (b'a', False), ({1: 2}, None), ({1}, None), (2**70, False), (-2**70, False), (float('nan'), False)):
        e, x = lib.raises(pv.__contains__, c)
        op('%s in' % type(c).__name__, (e and isinstance(x, (ValueError, TypeError))) or x is False or w is None)
    # searches
    if tc != 'v':
        e, x = lib.raises(lambda: pv.typecode)
        op('typecode', not e and x == tc)
        for m, f in (('min', min), ('max', max), ('range', lambda a: (min(a), max(a)))):
            e, x = lib.raises(getattr(pv, m))
            if n == 0:
                op(m, e and isinstance(x, ValueError))
            else:
                y = f(model)
                op(m, not e and x == y and type(x) is type(y))
        for c in {0, 1, 2, 2**63, 2**64 - 1} | {x for x in model if type(x) is int and x >= 0} | {x + 1 for x in model if type(x) is int and 0 <= x < 2**64 - 1}:
            e, x = lib.raises(pv.bisect_left, c)
            if tc == 'u64':
                if model == sorted(model):
                    op('bisect_left %d' % c, not e and x == bisect.bisect_left(model, c))
                else:
                    op('bisect_left %d' % c, not e and type(x) is int and 0 <= x <= n)
            else:
                op('bisect_left %d' % c, e and isinstance(x, ValueError))
        for c in (-1, 2**64, 1.0, None, 'a'):
            e, x = lib.raises(pv.bisect_left, c)
            op('bisect_left %r' % (c,), e and isinstance(x, (ValueError, TypeError)))
        # the buffer view
        e, x = lib.raises(memoryview, pv)
        code = {'i8': 'b', 'u8': 'B', 'i16': 'h', 'u16': 'H', 'i32': 'i', 'u32': 'I', 'i64': 'q', 'u64': 'Q', 'f': 'f'}[tc]
        op('buffer', not e and bytes(x) == struct.pack('<%d%s' % (n, code), *model) and x.readonly)
        op('bytes', bytes(pv) == struct.pack('<%d%s' % (n, code), *model))
    else:
        for m in ('min', 'max', 'range', 'bisect_left'):
            e, x = lib.raises(getattr(pv, m), *([1] if m == 'bisect_left' else []))
            op(m, e and isinstance(x, ValueError))
        e, x = lib.raises(lambda: pv.typecode)
        op('typecode', e and isinstance(x, ValueError))
        e, x = lib.raises(memoryview, pv)
        op('buffer', (e and isinstance(x, (BufferError, TypeError))) or (n == 0 and len(x) == 0))


ABSENT = [99, -99, 0.25, 'zz', '', None, True, 2**31, -2**31, 2**32 - 1, 2**63, 2**64 - 1, (), (1, 2), (9,), 1.0, 0, 'a', '\u0100']


def contains(model, c):
    from checks import lib
    from checks.c03 import key
    try:
        k = key(tup(c))
    except TypeError:
        return None
    for m in model:
        if isinstance(m, (set, dict)):
            continue
        if key(tup(m)) == k:
            return True
    return False


def tup(d):
    """lists as tuples; sets and maps inside cannot be compared"""
    if isinstance(d, (list, tuple)):
        return tuple(tup(x) for x in d)
    if isinstance(d, (dict, set)):
        raise TypeError
    return d


def bounds(n, wide):
    b = [None] + list(range(-n - 2, n + 3))
    if wide:
        b += [2**31, -2**31, 2**32, 2**32 + 1, -2**32, 2**63 - 1, -2**63, 2**70, -2**70, Ix(1), True]
    return b


def run(name, args, rec):
    from checks import lib
    import pointless as P
    if name == 'immutable':
        return immutable(rec)
    if name == 'huge':
        return huge(rec, lib, P, args['type'], args['n'])
    for num, (tc, d) in enumerate(vectors(args['tier'])):
        if num % args['of'] != args['part']:
            continue
        for src in ('buffer', 'file', 'nested'):
            if not rec.begin((tc, d, src)):
                continue
            model = list(d.items) if isinstance(d, lib.Prim) else list(d)
            keys = [pyitem(x) for x in model] if tc != 'f' else [('f', lib.f32bits(x)) for x in model]
            if tc == 'v' and model == []:
                tc_ = 'v'
            o = lib.realise(d)
            if src == 'file':
                fn = lib.tmpdir() + '/c06'
                P.serialize(o, fn)
                pv = P.Pointless(fn).GetRoot()
            elif src == 'nested':
                pv = P.Pointless(P.serialize_to_bytearray(['pad', o, 7])).GetRoot()[1]
            else:
                pv = P.Pointless(P.serialize_to_bytearray(o)).GetRoot()
            n = len(model)
            # a value vector of numbers of one kind is stored typed, so 'v' vectors are those which stay value vectors
            check(rec, pv, model, keys, 'whole', tc, True)
            seen = {(0, n)}
            wide = src == 'buffer'
            for a in bounds(n, wide):
                for b in bounds(n, wide):
                    for st in (None, 1) if wide and a in (0, 1) else (None,):
                        sl = slice(a, b, st)
                        lo, hi, _ = sl.indices(n)
                        hi = max(lo, hi)
                        e, s = lib.raises(pv.__getitem__, sl)
                        rec.count('transitions')
                        rec.count('traces')
                        if e or type(s) is not lib.PV or [lib.canon(lib.got(x)) for x in s] != keys[lo:hi]:
                            rec.violation('a slice differs from the list slice', '[%r:%r] of %r: %r' % (a, b, model, s if e else list(s)))
                            continue
                        if s.container_id != pv.container_id and hi > lo:
                            rec.violation('slices are of another container', '[%r:%r]' % (a, b))
                        if (lo, hi) not in seen:
                            seen.add((lo, hi))
                            if 0 < hi - lo < n:
                                rec.nontrivial()
                            check(rec, s, model[lo:hi], keys[lo:hi], 'slice [%d:%d]' % (lo, hi), tc, False)
                        if src != 'buffer' or isinstance(a, Ix) or isinstance(b, Ix):
                            continue
                        if a is not None and not 0 <= a <= n or b is not None and not 0 <= b <= n:
                            continue
                        m = hi - lo
                        for a2 in bounds(m, False):
                            for b2 in bounds(m, False):
                                l2, h2, _ = slice(a2, b2).indices(m)
                                h2 = max(l2, h2)
                                s2 = s[a2:b2]
                                rec.count('transitions')
                                rec.count('traces')
                                if len(s2) != h2 - l2 or [lib.canon(lib.got(x)) for x in s2] != keys[lo:hi][l2:h2]:
                                    rec.violation('a slice of a slice differs', '[%r:%r][%r:%r] of %r: %r' % (a, b, a2, b2, model, list(s2)))
                                elif a is not None and b is not None and a2 is not None and b2 is not None and a2 >= 0 and b2 >= 0:
                                    check2(rec, s2, model[lo:hi][l2:h2], keys[lo:hi][l2:h2], tc)
                                    if args['tier'] == 'thorough' and h2 > l2:
                                        for a3 in range(h2 - l2 + 1):
                                            s3 = s2[a3:]
                                            check2(rec, s3, model[lo:hi][l2:h2][a3:], keys[lo:hi][l2:h2][a3:], tc)
                                            s3 = s2[:a3]
                                            check2(rec, s3, model[lo:hi][l2:h2][:a3], keys[lo:hi][l2:h2][:a3], tc)
            for st in (2, -1, 0, 3, 'a', 1.0):
                e, s = lib.raises(pv.__getitem__, slice(None, None, st))
                if not e or not isinstance(s, (ValueError, TypeError)):
                    rec.violation('a stepped slice is not refused', '%r: %r' % (st, s))
            for x in ('a', 1.0, []):
                for sl in (slice(x, None), slice(None, x)):
                    e, s = lib.raises(pv.__getitem__, sl)
                    if not e or not isinstance(s, TypeError):
                        rec.violation('a slice with bounds of a wrong type is not refused', '%r: %r' % (sl, s))
            e, s = lib.raises(hash, pv)
            rec.count('states', 0)


def check2(rec, pv, model, keys, tc):
    """fewer operations, for nested slices"""
    from checks import lib
    n = len(model)
    rec.count('transitions', 4)
    rec.count('traces', 4)
    ok = len(pv) == n and [lib.canon(lib.got(x)) for x in reversed(pv)] == keys[::-1]
    for k in (-n - 1, -n, -1, 0, n - 1, n):
        e, x = lib.raises(pv.__getitem__, k)
        ok = ok and (not e and lib.canon(lib.got(x)) == keys[k] if -n <= k < n else e and isinstance(x, IndexError))
    if tc != 'v' and n:
        ok = ok and pv.min() == min(model) and pv.max() == max(model) and pv.range() == (min(model), max(model)) and (model[0] in pv) and len(bytes(pv)) == n * lib.PRIM_SIZE[tc]
    if not ok:
        rec.violation('a read vector differs from a list', 'nested slice %r' % (model,))


def immutable(rec):
    """nothing changes a read vector or the bytes behind it"""
    from checks import lib
    import pointless as P
    for tc, d in vectors('quick'):
        for src in ('buffer', 'file', 'bytearray'):
            if not rec.begin((tc, d, src)):
                continue
            rec.nontrivial()
            o = lib.realise(d)
            b = P.serialize_to_bytearray(o)
            if src == 'file':
                fn = lib.tmpdir() + '/c06i'
                P.serialize(o, fn)
                pv = P.Pointless(fn).GetRoot()
            elif src == 'buffer':
                o2 = P.serialize_to_buffer(o)
                pv = P.Pointless(o2).GetRoot()
            else:
                pv = P.Pointless(b).GetRoot()
            before = lib.canon(lib.got(pv))
            for what in ('setitem', 'delitem', 'buffer', 'bufcast', 'attr', 'append', 'slice', 'iadd'):
                s = pv if what != 'slice' else pv[0:]
                rec.count('states')
                rec.count('transitions')
                rec.count('traces')

                def do():
                    if what in ('setitem', 'slice'):
                        s[0] = 1
                    elif what == 'delitem':
                        del s[0]
                    elif what == 'buffer':
                        m = memoryview(s)
                        m[0] = (m[0] + 1) % 256
                    elif what == 'bufcast':
                        m = memoryview(s).cast('B')
                        m[0:1] = bytes([(m[0] + 1) % 256])
                    elif what == 'attr':
                        s.container_id = 7
                    elif what == 'append':
                        s.append(1)
                    elif what == 'iadd':
                        s2 = s
                        s2 += [1]
                e, x = lib.raises(do)
                if not e:
                    rec.violation('a read vector can be changed', '%s of %r' % (what, d))
                if lib.canon(lib.got(pv)) != before:
                    rec.violation('a read vector changed', '%s of %r' % (what, d))


def huge(rec, lib, P, t, n):
    """vectors which need all of 31 and 32 bits to count and to address, read from a file with holes"""

    ts = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f']
    fmt = dict(zip(ts, 'bBhHiIqQf'))[t]
    w = struct.calcsize(fmt)
    fd, path = tempfile.mkstemp(dir=os.environ['MC_TMP'])
    os.close(fd)
    try:
        # the same eight bytes at the same places as in the generator
        marks = [2**s * w for s in range(40) if 2**s < n and s % 8 > 5] + [n * w - 8]
        data = {}
        for k, at in enumerate(marks):
            for i in range(8):
                data[at + i] = (0x11 * (i + 1) + 3 * (k + 1)) & 255

        def item(i):
            b = bytes(data.get(i * w + j, 0) for j in range(w))
            v = struct.unpack(fmt, b)[0]
            return lib.f32bits(v) if t == 'f' else v
        exe = json.loads(os.environ['MC_PATHS'])['c:huge:sparse']
        r = subprocess.run([exe, 'gen', str(ts.index(t)), str(n), path], stdout=subprocess.PIPE, timeout=100, env=dict(os.environ, MC_TASK='gen', MC_OUT=path + '.o', MC_START='0'))
        if r.returncode or r.stdout:
            rec.begin('gen')
            rec.violation('a large vector can not be written', r.stdout.decode('latin1'))
            return
        look = lambda v: lib.f32bits(v) if t == 'f' else v
        near = sorted({j for s in list(range(6, 32)) for j in (2**s - 1, 2**s, 2**s + 1, 2**s + 7) if j < n} | {0, 1, n // 2, n - 9, n - 3, n - 2, n - 1} | {2**32 // w + d for d in (-1, 0, 1) if 2**32 // w + 1 < n} | {2**31 // w + d for d in (-1, 0, 1) if 2**31 // w + 1 < n})
        root = P.Pointless(path, validate=False).GetRoot()
        if rec.begin('others'):
            rec.nontrivial()
            if len(root) != 7 or list(root[1]) != [0, 0, 0] or root[2] != 'tail' or len(root[3]) != 37 or list(root[4]) != [7] or [(k, root[5][k]) for k in root[5]] != [(8, 'v')] or list(root[6]) != [0] * 3:
                rec.violation('other values of the file', repr([root[i] for i in range(1, 7)]))
        v = root[0]
        if rec.begin('len'):
            if len(v) != n or v.typecode != t:
                rec.violation('differs from a list', 'len %d' % len(v))
        for lo, hi in [(0, n), (1, n), (5, n - 1), (n // 2, n), (2**29 - 3, n - 4), (2, 2**30 + 1), (n - 20, n - 2)]:
            hi = min(hi, n)
            s = v[lo:hi] if hi - lo < n else v
            m = hi - lo
            if not rec.begin((lo, hi)):
                continue
            rec.nontrivial()
            if len(s) != m:
                rec.violation('differs from a list', 'slice of %d items instead of %d' % (len(s), m))
                continue
            for i in [j - lo for j in near if lo <= j < hi]:
                if look(s[i]) != item(lo + i) or look(s[i - m]) != item(lo + i):
                    rec.violation('differs from a list', 'item %d is %r, %r and not %r' % (i, s[i], s[i - m], item(lo + i)))
                for a, b in ((i, i + 3), (i - m, i - m + 2 if i - m + 2 < 0 else None), (i - 2 if i > 2 else i, i + 1), (i, i - m + 1 if i - m + 1 < 0 else None)):
                    x = s[a:b]
                    want = [item(lo + j) for j in range(m)[a:b]]
                    if [look(y) for y in x] != want or len(x) != len(want):
                        rec.violation('differs from a list', 'slice %r:%r is %r and not %r' % (a, b, list(x), want))
                x = s[i:]
                if len(x) != m - i or look(x[0]) != item(lo + i) or look(x[-1]) != item(lo + m - 1):
                    rec.violation('differs from a list', 'slice %d: of %d items' % (i, len(x)))
                x = s[:i + 1]
                if len(x) != i + 1 or look(x[0]) != item(lo) or look(x[-1]) != item(lo + i):
                    rec.violation('differs from a list', 'slice :%d of %d items' % (i + 1, len(x)))
            for i in (m, m + 1, -m - 1, 2**32, 2**32 + 1, -2**32, 2**32 + m - 1, -2**32 - m):
                if not lib.raises(lambda: s[i])[0]:
                    rec.violation('differs from a list', 'item %d of %d' % (i, m))
            if [look(y) for y in itertools.islice(iter(s), 200)] != [item(lo + j) for j in range(min(m, 200))]:
                rec.violation('differs from a list', 'iteration')
            if [look(y) for y in itertools.islice(reversed(s), 200)] != [item(hi - 1 - j) for j in range(min(m, 200))]:
                rec.violation('differs from a list', 'reversed iteration')
        # a deeper slice of a slice adds its start to the start of the first
        if rec.begin('deep'):
            rec.nontrivial()
            s, at = v, 0
            for k in range(40):
                d = (len(s) + 1) // 3
                s, at = s[d:], at + d
                if len(s) != n - at or s and (look(s[0]) != item(at) or look(s[-1]) != item(n - 1)):
                    rec.violation('differs from a list', 'nested slice %d' % k)
    finally:
        for f in (path, path + '.o'):
            if os.path.exists(f):
                os.unlink(f)
