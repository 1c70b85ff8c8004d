"""C21: deep nesting either works or fails cleanly. Every depth through and
beyond the limits, for all nesting patterns, all orders in which the parts of a
chain are reached, and every call."""
import itertools
import os

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of nesting patterns x depths x discovery orders x API calls on the real code, with iterative references'
NOTE = 'Complete for chains of period up to 3 within the stated depths; the limits of the different calls need not be the same number.'
RULE = 'a case is one nested value, written, opened and put through every call; non-trivial when it was deeper than one level'
BOUNDS = {
    'quick': 'chains of 5 container kinds: all patterns of period 1-2 at every depth to 60, every fourth to 530 and every one around the limits, of period 3 around the limits and at depths to 100000; tuples in keys at every depth 1-530 under 0-254 levels; chains listed in 10 orders at the same lengths; cyclic chains; read parts nested further at all limits; C handles in both orders',
    'thorough': 'as quick with period 3 and 10 orders at every depth 1-1100, the memory checker on every pattern',
}
NEEDS = ['plain', 'asan', 'c:deep:asan']
NPROC = 8

LIMITS = list(range(122, 134)) + list(range(165, 175)) + list(range(250, 260)) + list(range(338, 345)) + list(range(506, 520))


def tasks(tier):
    t = [('chains', dict(part=i, of=8, period=2, hi=530)) for i in range(8)]
    t += [('limits', dict(part=i, of=6)) for i in range(6)]
    t += [('keys', dict(part=i, of=3)) for i in range(3)]
    t += [('orders', dict(part=i, of=9, hi=560)) for i in range(9)]
    t += [('cycles', {}), ('cycles', dict(variant='asan', sparse=1)), ('again', {}), ('again', dict(variant='asan', sparse=1))]
    t += [('huge', {}), ('limits', dict(variant='asan', part=0, of=24)), ('keys', dict(variant='asan', part=0, of=40)), ('orders', dict(variant='asan', part=9, of=9, hi=560))]
    t += [('deep', dict(variant='c:deep:asan', argv=[str(i)])) for i in range(4)]
    if tier == 'thorough':
        t += [('chains', dict(part=i, of=24, period=3, hi=1100)) for i in range(24)]
        t += [('orders', dict(part=i, of=9, hi=1100)) for i in range(9)]
        t += [('limits', dict(variant='asan', part=i, of=8)) for i in range(8)]
        t += [('keys', dict(variant='asan', part=i, of=4)) for i in range(4)]
        t += [('cycles', dict(variant='asan')), ('again', dict(variant='asan'))]
    return t


WRAP = {
    'l': lambda x, i: [x],
    't': lambda x, i: (x, ),
    'd': lambda x, i: {1: x},
    'b': lambda x, i: [0, ['side'], x, 'end'],
    'D': lambda x, i: {'a': [i], 2: x, 'z': 0},
}


def mk(pat, d, leaf=7):
    x = leaf
    for i in range(d):
        x = WRAP[pat[i % len(pat)]](x, i)
    return x


def text(pat, d, leaf='7'):
    """notation of a chain, where it is unique"""
    if 'D' in pat:
        return None
    pre, post = [], []
    for i in range(d - 1, -1, -1):
        a, b = {'l': ('[', ']'), 't': ('[', ']'), 'd': ('{1: ', '}'), 'b': ("[0, ['side'], ", ", 'end']")}[pat[i % len(pat)]]
        pre.append(a)
        post.append(b)
    return ''.join(pre) + leaf + ''.join(reversed(post))


def lockstep(live, read):
    """same content, without recursion; shared parts are walked once"""
    from checks import lib
    todo, seen = [(live, read)], set()
    while todo:
        a, b = todo.pop()
        t = type(b)
        if t in (lib.PV, lib.PM, lib.PS):
            if type(a) in (lib.PV, lib.PM, lib.PS):
                k = (t, b.container_id, id(a), len(b))
                k = (t, b.container_id, a.container_id, len(b))
            else:
                k = (t, b.container_id, id(a), len(b))
            if k in seen:
                continue
            seen.add(k)
        if t is lib.PV:
            if type(a) not in (list, tuple, lib.PV) or len(a) != len(b):
                return False
            todo.extend(zip(a, b))
        elif t is lib.PM:
            if type(a) not in (dict, lib.PM) or len(a) != len(b):
                return False
            x, y = list(a.items()), list(b.items())
            if len(x) == 1:
                todo.append((x[0][0], y[0][0]))
                todo.append((x[0][1], y[0][1]))
            else:
                # several keys are scalars, or chains told apart by their length
                m = dict((depth_key(k), (k, v)) for k, v in y)
                for k, v in x:
                    if depth_key(k) not in m:
                        return False
                    todo.append((k, m[depth_key(k)][0]))
                    todo.append((v, m[depth_key(k)][1]))
        elif t is lib.PS:
            if type(a) not in (set, frozenset, lib.PS) or len(a) != len(b):
                return False
            m = dict((depth_key(k), k) for k in b)
            for k in a:
                if depth_key(k) not in m:
                    return False
                todo.append((k, m[depth_key(k)]))
        elif type(a) is not t or a != b:
            return False
    return True


def depth_key(k):
    n = 0
    while not isinstance(k, (int, str)):
        if len(k) != 1:
            return ('?', n)
        k = k[0]
        n += 1
    return (k, n)


CLEAN = (OSError, ValueError, TypeError, RecursionError)


class Refused(Exception):
    pass


def call(rec, what, case, f, *a):
    """-> the result, or Refused for a clean exception"""
    rec.count('calls')
    try:
        return f(*a)
    except CLEAN as e:
        rec.count('refusals')
        return Refused(e)
    except Exception as e:
        rec.violation('unclean failure of ' + what, '%s: %s: %s' % (case, type(e).__name__, str(e)[:150]))
        return Refused(e)


def ok(x):
    return not isinstance(x, Refused)


def expect(rec, x, want, what, case):
    if ok(x) and x != want:
        rec.violation(what, '%s: %s' % (case, str(x)[:100]))


def relate(rec, case, a, b, c, kind):
    """a and b are equal, c differs"""
    import pointless as P
    expect(rec, call(rec, 'is_eq', case, P.pointless_is_eq, a, b), True, 'equal %s values told apart' % kind, case)
    expect(rec, call(rec, 'cmp', case, P.pointless_cmp, a, b), 0, 'equal %s values ordered' % kind, case)
    if c is not None:
        expect(rec, call(rec, 'is_eq', case, P.pointless_is_eq, a, c), False, 'different %s values equal' % kind, case)
        x, y = call(rec, 'cmp', case, P.pointless_cmp, a, c), call(rec, 'cmp', case, P.pointless_cmp, c, a)
        if ok(x) and ok(y) and (x == 0 or (x < 0) == (y < 0)):
            rec.violation('different %s values not ordered' % kind, '%s: %r %r' % (case, x, y))


def check(rec, case, v, w=None, want=None, lookup=True):
    """v through every call; w differs from it in one place"""
    from checks import c19, lib
    import pointless as P
    h = {}
    for f in (P.pyobject_hash, P.pyobject_hash_32):
        h[f] = call(rec, 'hash', case, f, v)
    relate(rec, case, v, v, w, 'live')
    b = call(rec, 'serialize', case, P.serialize_to_bytearray, v)
    if not ok(b):
        return None
    rec.count('serialised')
    try:
        r = P.Pointless(b).GetRoot()
        r2 = P.Pointless(b, validate=False).GetRoot()
    except CLEAN as e:
        rec.violation('what was serialised cannot be opened', '%s: %s' % (case, e))
        return None
    if not lockstep(v, r) or not lockstep(v, r2):
        rec.violation('content differs', case)
        return None
    if type(r) not in (lib.PV, lib.PM, lib.PS):
        return r
    for f in (str, repr):
        s = call(rec, 'str', case, f, r)
        if want is not None:
            expect(rec, s, want, 'printed differently', case)
    for f in h:
        x = call(rec, 'hash', case, f, r)
        if ok(x) and ok(h[f]) and x != h[f]:
            rec.violation('hashes of equal values differ', case)
    relate(rec, case, r, r2, w, 'read')
    relate(rec, case, r, v, None, 'mixed')
    relate(rec, case, v, r, None, 'mixed')
    b2 = call(rec, 'serialize', case, P.serialize_to_bytearray, r)
    if ok(b2):
        x = call(rec, 'open', case, P.Pointless, b2)
        if not ok(x):
            rec.violation('what was serialised again cannot be opened', '%s: %s' % (case, x))
        elif not lockstep(v, x.GetRoot()):
            rec.violation('content differs after serialising again', case)
    if lookup:
        b3 = call(rec, 'serialize', case, P.serialize_to_bytearray, [0, v])
        if ok(b3):
            x = P.Pointless(b3).GetRoot()
            expect(rec, call(rec, 'in', case, x.__contains__, v), True, 'not found in a vector', case)
            expect(rec, call(rec, 'in', case, x.__contains__, r), True, 'not found in a vector', case)
            for f in (x.max, x.min):
                call(rec, 'max', case, f)
            if w is not None:
                expect(rec, call(rec, 'in', case, x.__contains__, w), False, 'found in a vector', case)
    return r


def recreated(rec, case, v, path):
    from checks import c19
    import pointless as P
    e = call(rec, 'serialize', case, P.serialize, v, path)
    if not ok(e):
        return
    e = c19.recreate(path, path + '2')
    if e is None:
        x = call(rec, 'open', case, P.Pointless, path + '2')
        if not ok(x):
            rec.violation('the re-created file cannot be opened', '%s: %s' % (case, x))
        elif not lockstep(v, x.GetRoot()):
            rec.violation('the re-created file differs', case)
        rec.count('recreated')


def skipped(d, args):
    """the quick run takes every fourth depth between the limits"""
    return args['hi'] < 600 and d > 60 and d % 4 and d not in LIMITS


def patterns(lo, hi):
    for n in range(lo, hi + 1):
        yield from (''.join(p) for p in itertools.product('ltdbD', repeat=n))


def tuples(d, leaf=5):
    x = leaf
    for i in range(d):
        x = (x, )
    return x


def key_case(rec, case, outer, d, kind):
    """a container keyed by a tuple chain of depth d, under some levels"""
    from checks import lib
    import pointless as P

    def make(leaf=5):
        k = tuples(d, leaf)
        c = {'s': lambda: {k}, 'k': lambda: {k: 1}, 'K': lambda: {k: [2], 3: 4}, 'S': lambda: {k, 'other'}, '2': lambda: {k: 1, tuples(d, 6): 2, tuples(d + 1): 3}}[kind]()
        for i in range(outer):
            c = [c] if i % 3 else {1: c}
        return c
    v = make()
    if kind in 'sk' and outer < 3:
        r = check(rec, case, v, make(6))
    else:
        b = call(rec, 'serialize', case, P.serialize_to_bytearray, v)
        r = None
        if ok(b):
            o = call(rec, 'open', case, P.Pointless, b)
            if not ok(o):
                rec.violation('what was serialised cannot be opened', '%s: %s' % (case, o))
                return
            r = o.GetRoot()
            if not lockstep(v, r):
                rec.violation('content differs', case)
    if r is None:
        return
    for i in range(outer - 1, -1, -1):
        r = r[0] if i % 3 else r[1]
    want = {'k': 1, 'K': None, '2': 1}.get(kind)
    k = tuples(d)
    rk = [x for x in r if depth_key(x) == (5, d)][0]
    for q in (k, rk):
        expect(rec, call(rec, 'in', case, r.__contains__, q), True, 'deep key not found', case)
        if want is not None:
            expect(rec, call(rec, 'lookup', case, r.__getitem__, q), want, 'deep key finds another value', case)
            expect(rec, call(rec, 'lookup', case, r.get, q), want, 'deep key finds another value', case)
    if kind != '2':
        for q in (tuples(d + 1), tuples(d, 6), tuples(d - 1)):
            expect(rec, call(rec, 'in', case, r.__contains__, q), False, 'deep key found', case)
    for x in (tuples(2000), tuples(20000, 'x')):
        expect(rec, call(rec, 'in', case, r.__contains__, x), False, 'deep key found', case)


ORDERS = ['bottom-first', 'top-first', 'dict up', 'dict down', 'dict mixed', 'middle', 'twice', 'both ends', 'dict keys', 'set']


def listed(order, ch):
    """the parts of a chain (bottom first) in one root"""
    n = len(ch)
    if order == 'bottom-first':
        return ch
    if order == 'top-first':
        return ch[::-1]
    if order == 'dict up':
        return {i: x for i, x in enumerate(ch)}
    if order == 'dict down':
        return {n - i: x for i, x in enumerate(ch)}
    if order == 'dict mixed':
        return {(i * 2654435761) % 4294967296: x for i, x in enumerate(ch)}
    if order == 'middle':
        return [ch[n // 2], ch[-1]] + [ch[n // 4]]
    if order == 'twice':
        return [[ch[i:i + 7] for i in range(0, n, 7)], {1: ch[-1], 2: ch[0]}]
    if order == 'both ends':
        return [y for i in range((n + 1) // 2) for y in (ch[i], ch[n - 1 - i])]
    if order == 'dict keys':
        return {x: i for i, x in enumerate(ch)}
    return set(ch)


def run(name, args, rec):
    from checks import lib
    import sys
    import tempfile
    import pointless as P
    sys.setrecursionlimit(10**6)
    fd, path = tempfile.mkstemp(dir=lib.tmpdir())
    os.close(fd)
    if name == 'chains':
        for n, pat in enumerate(patterns(args['period'] if args['period'] > 2 else 1, args['period'])):
            if n % args['of'] != args['part']:
                continue
            for d in range(1, args['hi'] + 1):
                if skipped(d, args):
                    continue
                if rec.begin((pat, d)):
                    v = mk(pat, d)
                    check(rec, '%s x%d' % (pat, d), v, mk(pat, d, 8), text(pat, d), d % 16 == 0)
                    if d % 8 == 0:
                        recreated(rec, '%s x%d' % (pat, d), v, path)
                    if d > 1:
                        rec.nontrivial()
    elif name == 'limits':
        for n, pat in enumerate(patterns(1, 3)):
            if n % args['of'] != args['part']:
                continue
            for d in LIMITS + [600, 1023, 1024, 1025, 2000]:
                if rec.begin((pat, d)):
                    v = mk(pat, d)
                    check(rec, '%s x%d' % (pat, d), v, mk(pat, d, 8), text(pat, d))
                    recreated(rec, '%s x%d' % (pat, d), v, path)
                    rec.nontrivial()
    elif name == 'huge':
        for pat in patterns(1, 2):
            for d in (5000, 20000) + ((100000, ) if len(pat) == 1 else ()):
                if rec.begin((pat, d)):
                    v = mk(pat, d)
                    check(rec, '%s x%d' % (pat, d), v, mk(pat, d, 8))
                    rec.nontrivial()
        for kind in 'ltdb':
            for order in ORDERS[:8]:
                if rec.begin((kind, order, 'huge')):
                    ch = [WRAP[kind](7, 0)]
                    for i in range(100000):
                        ch.append(WRAP[kind](ch[-1], i))
                    v = listed(order, ch)
                    b = call(rec, 'serialize', order, P.serialize_to_bytearray, v)
                    if ok(b):
                        o = call(rec, 'open', order, P.Pointless, b)
                        if not ok(o):
                            rec.violation('what was serialised cannot be opened', '%s %s: %s' % (kind, order, o))
                            continue
                        r = o.GetRoot()
                        if not lockstep(v, r):
                            rec.violation('content differs', '%s %s' % (kind, order))
                        for x in (r, r[99999], r[50000], r[300], r[3]) if len(r) > 99999 else (r, ):
                            parts(rec, '%s %s' % (kind, order), x)
                    recreated(rec, '%s %s' % (kind, order), v, path)
                    rec.nontrivial()
    elif name == 'keys':
        n = 0
        for outer in (0, 1, 2, 100, 200, 253, 254):
            for kind in 'skKS2':
                for d in list(range(1, 531)) + [1000, 3000] if outer < 3 and kind in 'sk2' else sorted(set(LIMITS + list(range(1, 60)) + [600, 1000])):
                    n += 1
                    if n % args['of'] == args['part'] and rec.begin((outer, kind, d)):
                        key_case(rec, 'key %s depth %d under %d' % (kind, d, outer), outer, d, kind)
                        rec.nontrivial()
    elif name == 'orders':
        for n, order in enumerate(ORDERS):
            if args['part'] not in (n, 9) and not (args['part'] == 8 and n == 9):
                continue
            for kind in ['l', 't', 'd', 'b', 'ld', 'lt'] if n < 8 else ['t']:
                ch = [WRAP[kind[0]](7, 0)]
                while len(ch) < args['hi']:
                    ch.append(WRAP[kind[len(ch) % len(kind)]](ch[-1], len(ch)))
                for d in range(1, args['hi'] + 1) if args['part'] != 9 else LIMITS[::3] + [300, 400, args['hi']]:
                    if skipped(d, args) and args['part'] != 9 or not rec.begin((order, kind, d)):
                        continue
                    case = '%s of %s x%d' % (order, kind, d)
                    v = listed(order, ch[:d])
                    b = call(rec, 'serialize', case, P.serialize_to_bytearray, v)
                    rec.nontrivial()
                    if not ok(b):
                        continue
                    rec.count('serialised')
                    o = call(rec, 'open', case, P.Pointless, b)
                    if not ok(o):
                        rec.violation('what was serialised cannot be opened', '%s: %s' % (case, o))
                        continue
                    r = o.GetRoot()
                    if d % 16 == 0 or d in LIMITS:
                        if not lockstep(v, r):
                            rec.violation('content differs', case)
                        recreated(rec, case, v, path)
                    b2 = call(rec, 'serialize', case, P.serialize_to_bytearray, r)
                    if ok(b2) and not ok(call(rec, 'open', case, P.Pointless, b2)):
                        rec.violation('what was serialised again cannot be opened', case)
                    if type(r) is lib.PV and order in ('bottom-first', 'both ends'):
                        # the printed root is of quadratic size
                        parts(rec, case, r[d - 1] if order == 'bottom-first' else r[1 if d > 1 else 0])
    elif name == 'cycles':
        for pat in (p for p in patterns(1, 2) if 't' not in p):
            for d in LIMITS[::4] + [600, 3000] if args.get('sparse') else list(range(1, 60)) + LIMITS + [600, 3000]:
                for back in sorted({0, d // 2, d - 1}):
                    if not rec.begin((pat, d, back)):
                        continue
                    case = 'cycle %s x%d back to %d' % (pat, d, back)
                    v = cyclic(pat, d, back)
                    check(rec, case, v, cyclic(pat, d + 1, back), None, False)
                    rec.nontrivial()
                    uncycle(v)
    elif name == 'again':
        # a read part of depth m below k new levels
        for m in (1, 2, 50, 100, 200, 254, 255):
            b = call(rec, 'serialize', 'again', P.serialize_to_bytearray, mk('l', m))
            r = P.Pointless(b).GetRoot() if ok(b) else None
            t = P.Pointless(P.serialize_to_bytearray({tuples(min(m, 80)): 1})).GetRoot()
            key = [x for x in t][0]
            for k in (sorted({max(0, 255 - m), 256 - m, 257 - m, 0, 1, 511 - m, 512 - m, 513 - m, 600}) if args.get('sparse') else range(0, 530)):
                for pat in ('l', 't', 'd', 'lt'):
                    if r is None or k < 0 or not rec.begin((m, k, pat)):
                        continue
                    case = '%s x%d around a read chain of %d' % (pat, k, m)
                    mixed(rec, case, mk(pat, k, r), mk(pat, k, mk('l', m)), mk(pat, k, mk('l', m, 8)))
                    rec.nontrivial()
                if rec.begin((m, k, 'key')):
                    v = key
                    for i in range(k):
                        v = (v, )
                    case = 'tuples x%d around a read key of %d' % (k, min(m, 80))
                    expect(rec, call(rec, 'in', case, t.__contains__, v), k == 0, 'deep key found or not', case)
                    rec.nontrivial()
    for p in (path, path + '2'):
        if os.path.exists(p):
            os.unlink(p)


def parts(rec, case, r):
    """a read part through the calls which follow it down"""
    import pointless as P
    for f in (str, repr, P.pyobject_hash, P.pyobject_hash_32):
        call(rec, f.__name__, case, f, r)
    expect(rec, call(rec, 'is_eq', case, P.pointless_is_eq, r, r), True, 'not equal to itself', case)
    expect(rec, call(rec, 'cmp', case, P.pointless_cmp, r, r), 0, 'ordered against itself', case)
    b = call(rec, 'serialize', case, P.serialize_to_bytearray, r)
    if ok(b):
        o = call(rec, 'open', case, P.Pointless, b)
        if not ok(o):
            rec.violation('what was serialised again cannot be opened', '%s: %s' % (case, o))
        elif not lockstep(r, o.GetRoot()):
            rec.violation('content differs after serialising again', case)


def mixed(rec, case, v, plain, other):
    import pointless as P
    for f in (P.pyobject_hash, P.pyobject_hash_32):
        a, b = call(rec, 'hash', case, f, v), call(rec, 'hash', case, f, plain)
        if ok(a) and ok(b) and a != b:
            rec.violation('hashes of equal values differ', case)
    relate(rec, case, v, plain, other, 'mixed')
    relate(rec, case, plain, v, None, 'mixed')
    b = call(rec, 'serialize', case, P.serialize_to_bytearray, v)
    if ok(b):
        o = call(rec, 'open', case, P.Pointless, b)
        if not ok(o):
            rec.violation('what was serialised cannot be opened', '%s: %s' % (case, o))
        elif not lockstep(plain, o.GetRoot()):
            rec.violation('content differs', case)


def cyclic(pat, d, back):
    """a chain whose innermost container refers to the one `back` levels up"""
    x, ring = [7], []
    inner = x
    for i in range(d):
        x = WRAP[pat[i % len(pat)]](x, i)
        ring.append(x)
    inner[0] = ring[back]
    return x


def uncycle(v):
    """break the cycle"""
    todo, seen = [v], {}
    while todo:
        x = todo.pop()
        if id(x) in seen or not isinstance(x, (list, dict)):
            continue
        seen[id(x)] = x
        todo.extend(x.values() if isinstance(x, dict) else x)
    for x in seen.values():
        x.clear()
