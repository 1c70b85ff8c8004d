"""C08: bitvectors behave as bit arrays in every form. All operation sequences up
to a depth on the real object beside a list, all patterns through all stored forms."""
import itertools

LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of all operation sequences on the real object against a list model; exhaustive enumeration of bit patterns through every stored form'
NOTE = 'Sequences are replayed from the start, so that hidden state (stale bits, counters, spare space) is never merged away; every model transition is executed on the implementation.'
RULE = 'a case is all sequences with one prefix, or one pattern through all stored forms and options; non-trivial when the sequences include a pop or overwrite followed by growth, or the pattern is stored in a compact form'
BOUNDS = {
    'quick': 'operation sequences: 27 operations to depth 3 and 15 to depth 4 from 4 initial objects, and depth 2 in the memory checker; patterns: all up to 9 bits, all runs 0*1* and 1*0* up to 70 bits, single and double changes up to 40 bits, sizes to 300, run lengths around 2^16; 5 positions in a file, both normalisation settings',
    'thorough': 'sequences: 27 operations to depth 4, 15 to depth 5; patterns: all up to 13 bits, runs to 140 bits',
}
NEEDS = ['plain', 'asan']
ASSUMPTIONS = ['iterators behave as list iterators: by index', 'bitvectors of 2^32 and more bits are out of reach of memory here; only their refusal is checked']

HASH_M1 = [125, 138, 143, 111, 124, 107, 130, 126, 136, 113, 137, 144]


class NoIter:
    pass


def fail_iter():
    yield True
    yield False
    raise KeyError('stop')


class Evil:
    def __index__(self):
        raise RuntimeError('no')


# an operation: name, python action on (bv, st), model action on (list, st)
def apply_model(m, op, st):
    """-> ('ok', result) or ('err',)"""
    k = op[0]
    if k == 'app':
        m.append(op[1])
        return None
    if k == 'ext':
        m.extend([op[1]] * op[2])
        return None
    if k == 'pop':
        return ('r', m.pop()) if m else 'err'
    if k == 'set':
        if not -len(m) <= op[1] < len(m):
            return 'err'
        m[op[1]] = bool(op[2])
        return None
    if k == 'bulk':
        m.extend(st['other'][op[1]] if op[1] != 'self' else list(m))
        return None
    if k == 'copy':
        return None
    if k == 'init':
        m[:] = op[1]
        return None
    if k == 'bad':
        return 'err'
    if k == 'badinit':
        m[:] = []
        return 'err-any'
    if k == 'iter':
        st['it'] = iter(m)
        return None
    if k == 'next':
        return ('r', next(st['it'], None)) if 'it' in st else None
    raise KeyError(op)


def apply_real(bv, op, st):
    k = op[0]
    if k == 'app':
        return bv, bv.append(op[1])
    if k == 'ext':
        return bv, (bv.extend_true if op[1] else bv.extend_false)(op[2])
    if k == 'pop':
        return bv, bv.pop()
    if k == 'set':
        bv[op[1]] = op[2]
        return bv, None
    if k == 'bulk':
        return bv, bv.append_bulk(bv if op[1] == 'self' else st['robj'][op[1]])
    if k == 'copy':
        return bv.copy(), None
    if k == 'init':
        bv.__init__(sequence=list(op[1]))
        return bv, None
    if k == 'badinit':
        bv.__init__(**op[1])
        return bv, None
    if k == 'bad':
        return bv, BAD[op[1]](bv)
    if k == 'iter':
        st['rit'] = iter(bv)
        return bv, None
    if k == 'next':
        return bv, (next(st['rit'], None) if 'rit' in st else None)
    raise KeyError(op)


def _set(bv, i, v):
    bv[i] = v


def _del(bv, i):
    del bv[i]


BAD = {
    'append int': lambda b: b.append(1), 'append none': lambda b: b.append(None), 'append two': lambda b: b.append(True, True),
    'bulk list': lambda b: b.append_bulk([True]), 'bulk none': lambda b: b.append_bulk(None),
    'extend neg': lambda b: b.extend_true(-1), 'extend str': lambda b: b.extend_false('a'), 'extend huge': lambda b: b.extend_true(2**31), 'extend neg2': lambda b: b.extend_false(-2**31),
    'set 2': lambda b: _set(b, 0, 2), 'set none': lambda b: _set(b, 0, None), 'set far': lambda b: _set(b, len(b), True), 'set neg': lambda b: _set(b, -len(b) - 1, True),
    'set big': lambda b: _set(b, 0, 2**70), 'set str': lambda b: _set(b, 'a', True), 'set float': lambda b: _set(b, 0, 1.0), 'set slice': lambda b: _set(b, slice(0, 1), True),
    'set evil': lambda b: _set(b, Evil(), True), 'set huge index': lambda b: _set(b, 2**70, True), 'set -1': lambda b: _set(b, 0, -1),
    'del 0': lambda b: _del(b, 0), 'del -1': lambda b: _del(b, -1), 'get far': lambda b: b[len(b)], 'get slice': lambda b: b[0:1], 'get str': lambda b: b['0'], 'get neg': lambda b: b[-len(b) - 1],
    'init both': lambda b: None,
}

FULL = [('app', True), ('app', False), ('ext', True, 0), ('ext', True, 1), ('ext', True, 8), ('ext', False, 7), ('ext', False, 2), ('ext', True, 33), ('ext', False, 33),
        ('pop',), ('set', 0, True), ('set', 0, 0), ('set', -1, 1), ('set', -1, False), ('set', 5, 1),
        ('bulk', 'self'), ('bulk', 'packed'), ('bulk', 'read'), ('bulk', 'ones'), ('bulk', 'empty'), ('copy',), ('init', (True, False, True)), ('iter',), ('next',),
        ('bad', 'set 2'), ('bad', 'extend huge'), ('bad', 'del 0')]
SHORT = [('app', True), ('app', False), ('ext', True, 8), ('ext', False, 7), ('pop',), ('set', 0, 1), ('set', -1, False), ('bulk', 'self'), ('bulk', 'read'), ('bulk', 'ones'), ('copy',), ('init', (True, False, True)), ('iter',), ('next',), ('bad', 'set none')]
SEQBAD = [([2],), ([True, 2],), ([True, None],), (['a'],), ([1.0],), ([-1],), ([2**70],)]


def starts():
    return [('empty', [], lambda P: P.PointlessBitvector()), ('size9', [False] * 9, lambda P: P.PointlessBitvector(9)),
            ('seq', [True, False, True, True, False, False, True, True, True], lambda P: P.PointlessBitvector(sequence=[True, 0, 1, True, False, 0, 1, 1, 1])),
            ('copyread', [True] * 17 + [False] * 3, lambda P: P.Pointless(P.serialize_to_bytearray(P.PointlessBitvector(sequence=[True] * 17 + [False] * 3))).GetRoot().copy())]


def tasks(tier):
    t = []
    for s in range(4):
        for i in range(2 if tier == 'quick' else 4):
            t.append(('seq', dict(start=s, depth=3 if tier == 'quick' else 4, ops='full', part=i, of=2 if tier == 'quick' else 4)))
            t.append(('seq', dict(start=s, depth=4 if tier == 'quick' else 5, ops='short', part=i, of=2 if tier == 'quick' else 4)))
        t.append(('seq', dict(start=s, depth=2 if tier == 'quick' else 3, ops='full', part=0, of=1, variant='asan')))
    n = 4 if tier == 'quick' else 8
    for i in range(n):
        t.append(('forms', dict(n=9 if tier == 'quick' else 13, run=70 if tier == 'quick' else 140, part=i, of=n)))
    t.append(('forms', dict(n=5, run=34, part=0, of=1, variant='asan')))
    t.append(('bad', {}))
    t.append(('bad', dict(variant='asan')))
    return t


def show(bits):
    return ''.join('1' if b else '0' for b in bits)


def printed(bits):
    return ''.join('1' if b else '0' for b in reversed(bits)) + 'b'


def prefix(bits, v):
    n = 0
    for b in bits:
        if b != v:
            break
        n += 1
    return n


def observe(P, bv, m, full=True):
    """differences between a bitvector and its list, as text, or None"""
    try:
        return observe_(P, bv, m, full)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def observe_(P, bv, m, full):
    n = len(m)
    if len(bv) != n:
        return 'len %d, not %d' % (len(bv), n)
    items = list(bv)
    if items != m:
        return 'items %s, not %s' % (show(items), show(m))
    a = (bv.NumOnePrefix(), bv.NumZeroPrefix(), bv.NumOnePostfix(), bv.NumZeroPostfix(), bv.IsAnySet())
    r = m[::-1]
    b = (prefix(m, True), prefix(m, False), prefix(r, True), prefix(r, False), any(m))
    if a != b:
        return 'prefix/postfix/any %r, not %r' % (a, b)
    if not full:
        return None
    for i in (0, n // 2, n - 1):
        if n and (bv[i] is not m[i] or bv[i - n] is not m[i]):
            return 'item %d' % i
    f = P.PointlessBitvector(sequence=m)
    if not (bv == f) or bv != f or bv < f or bv > f or not bv <= f or not bv >= f:
        return 'not equal to a fresh one'
    g = P.PointlessBitvector(sequence=m + [True])
    if bv == g or not bv < g or not g > bv or not bv != g:
        return 'not below a longer one'
    if n:
        h = P.PointlessBitvector(sequence=m[:-1] + [not m[-1]])
        if bv == h or (bv < h) is not (not m[-1]) or (h < bv) is not m[-1]:
            return 'order against one that differs in the last bit'
    if hash(bv) != hash(f):
        return 'hash %d, not %d' % (hash(bv), hash(f))
    if P.pyobject_hash(bv) != P.pyobject_hash(f):
        return 'pointless hash'
    if str(bv) != printed(m) or repr(bv) != printed(m):
        return 'printed as %s' % str(bv)
    c = bv.copy()
    if list(c) != m or c is bv or c.IsAnySet() != any(m) or str(c) != printed(m):
        return 'copy'
    return None


def run(name, args, rec):
    from checks import lib
    import pointless as P
    if name == 'seq':
        return seq(rec, lib, P, args)
    if name == 'forms':
        return forms(rec, lib, P, args)
    return bad(rec, lib, P)


def seq(rec, lib, P, args):
    sname, init, make = starts()[args['start']]
    ops = FULL if args['ops'] == 'full' else SHORT
    other = dict(packed=[True, False, True], read=[i % 3 == 0 for i in range(41)], ones=[True] * 9, empty=[])
    robj = dict(packed=P.Pointless(P.serialize_to_bytearray(P.PointlessBitvector(sequence=other['packed']))).GetRoot(),
                read=P.Pointless(P.serialize_to_bytearray(P.PointlessBitvector(sequence=other['read']))).GetRoot(),
                ones=P.PointlessBitvector(sequence=other['ones']), empty=P.PointlessBitvector())
    depth = args['depth']
    num = 0
    for pre in itertools.product(ops, repeat=depth - 1):
        num += 1
        if num % args['of'] != args['part'] or not rec.begin((sname, pre)):
            continue
        if any(o[0] in ('pop', 'set', 'init', 'next') for o in pre):
            rec.nontrivial()
        for last in ops:
            if last[0] == 'bulk' and last[1] == 'self' and sum(1 for o in pre if o == last) >= 3:
                continue
            m = list(init)
            bv = make(P)
            st = dict(other=other, robj=robj)
            old = None
            for step, op in enumerate(pre + (last,)):
                before = list(m)
                e, x = lib.raises(apply_real, bv, op, st)
                w = apply_model(m, op, st)
                rec.count('transitions')
                if (w == 'err') != e:
                    rec.violation('an operation %s' % ('fails that should not' if e else 'does not fail that should'), '%s step %d %r: %r' % (sname, step, pre + (last,), x))
                    break
                if e:
                    if isinstance(x, (SystemError, MemoryError)):
                        rec.violation('an operation fails in a wrong way', '%s %r: %r' % (sname, pre + (last,), x))
                    continue
                if op[0] == 'copy':
                    old = (bv, list(m))
                    m = list(m)
                bv, r = x
                if w is not None and w[1] is not r:
                    rec.violation('an operation returns a wrong value', '%s %r: %r not %r' % (sname, pre + (last,), r, w[1]))
            rec.count('traces')
            rec.count('states')
            d = observe(P, bv, m)
            if d:
                rec.violation('a bitvector differs from a list of booleans', '%s %r: %s' % (sname, pre + (last,), d))
            if old is not None and list(old[0]) != old[1]:
                rec.violation('changing a copy changes the original', '%s %r' % (sname, pre + (last,)))


def patterns(args):
    for n in range(0, args['n'] + 1):
        for p in itertools.product((False, True), repeat=n):
            yield p
    for n in range(args['n'] + 1, args['run']):
        for a in range(0, n + 1):
            yield (True,) * a + (False,) * (n - a)
            if 0 < a < n:
                yield (False,) * a + (True,) * (n - a)
        if n <= 40:
            for a in range(n):
                # one bit different from all the others
                for v in (True, False):
                    p = [v] * n
                    p[a] = not v
                    yield tuple(p)
            for a in (1, n // 2, n - 3):
                yield (False,) * a + (True,) + (False,) * (n - a - 2) + (True,)
                yield (True,) * a + (False,) * (n - a - 1) + (True,)
        yield tuple(i % 2 == 0 for i in range(n))
    for n in (127, 128, 255, 256, 257, 300):
        yield tuple(i % 7 < 3 for i in range(n))
        yield (True,) * n
        yield (False,) * n
    yield tuple(bool(b >> j & 1) for b in HASH_M1 for j in range(8))
    if args['run'] > 50:
        # run lengths are kept in 16 bits in the run forms
        for a in (2**16 - 2, 2**16 - 1, 2**16, 2**16 + 1):
            for b in (0, 1, 2**16 - 1, 2**16):
                if a != b or a == 2**16 - 1:
                    yield (True,) * a + (False,) * b
                    yield (False,) * a + (True,) * b
                    yield (True,) * b + (False,) * a


READONLY = [lambda b: b.append(True), lambda b: b.extend_true(1), lambda b: b.extend_false(0), lambda b: b.pop(), lambda b: b.append_bulk(b), lambda b: _set(b, 0, True), lambda b: _del(b, 0)]


def forms(rec, lib, P, args):
    for num, p in enumerate(patterns(args)):
        if num % args['of'] != args['part']:
            continue
        if not rec.begin((len(p), show(p) if len(p) < 400 else hash(p))):
            continue
        m = list(p)
        big = len(p) > 1000
        bv = P.PointlessBitvector(sequence=m)
        d = observe(P, bv, m, not big)
        if d:
            rec.violation('a bitvector differs from a list of booleans', 'fresh: ' + d)
        sizes = set()
        for normalize in (True, False):
            for where in ('root', 'list', 'twice', 'key', 'mapvalue'):
                o = {'root': lambda: bv, 'list': lambda: [1, bv, 'x'], 'twice': lambda: [bv, P.PointlessBitvector(sequence=m), bv], 'key': lambda: {bv: 1}, 'mapvalue': lambda: {'a': bv}}[where]()
                if big and where not in ('root', 'twice'):
                    continue
                b = P.serialize_to_bytearray(o, normalize_bitvector=normalize)
                sizes.add(len(b))
                r = P.Pointless(b).GetRoot()
                if where == 'list':
                    r = r[1]
                elif where == 'twice':
                    if list(r[1]) != m or list(r[2]) != m:
                        rec.violation('a stored bitvector differs', 'second of two, normalize=%r' % normalize)
                    r = r[0]
                elif where == 'key':
                    if r[bv] != 1:
                        rec.violation('a stored bitvector key is not found', 'normalize=%r' % normalize)
                    r = list(r)[0]
                elif where == 'mapvalue':
                    r = r['a']
                rec.count('traces')
                rec.count('transitions')
                if not isinstance(r, P.PointlessBitvector):
                    rec.violation('a stored bitvector has another type', repr(type(r)))
                    continue
                d = observe(P, r, m, not big)
                if not d and not big:
                    for i in range(len(m)):
                        if r[i] is not m[i] or r[i - len(m)] is not m[i]:
                            d = 'item %d' % i
                if d:
                    rec.violation('a stored bitvector differs', '%s normalize=%r: %s' % (where, normalize, d))
                if hash(r) != hash(bv) or not r == bv or r != bv or r < bv or bv < r:
                    rec.violation('a stored bitvector is not equal to its original', '%s normalize=%r' % (where, normalize))
                if where == 'root':
                    for i, f in enumerate(READONLY):
                        e, x = lib.raises(f, r)
                        if not e or isinstance(x, SystemError):
                            rec.violation('a stored bitvector can be changed', 'operation %d: %r' % (i, x))
                    for i in (len(m), -len(m) - 1, 2**32, -2**32, 2**70):
                        e, x = lib.raises(r.__getitem__, i)
                        if not e or not isinstance(x, IndexError):
                            rec.violation('an index out of bounds gives an item', '%d: %r' % (i, x))
                    c = r.copy()
                    c.append(True)
                    c.append_bulk(r)
                    if not big:
                        d = observe(P, c, m + [True] + m)
                        if d:
                            rec.violation('a copy of a stored bitvector differs', d)
        rec.count('states')
        if len(sizes) > 3 or len(p) < 28:
            rec.nontrivial()


def bad(rec, lib, P):
    """wrong arguments change nothing"""
    for m in ([], [True], [False, True] * 9, [True] * 8):
        for what in BAD:
            if what == 'init both' or not rec.begin((show(m), what)):
                continue
            rec.nontrivial()
            bv = P.PointlessBitvector(sequence=m)
            rec.count('traces')
            rec.count('transitions')
            rec.count('states')
            e, x = lib.raises(BAD[what], bv)
            if not e or isinstance(x, SystemError):
                rec.violation('a wrong operation is accepted', '%s on %s: %r' % (what, show(m), x))
            d = observe(P, bv, m)
            if d:
                rec.violation('a refused operation changes the bitvector', '%s on %s: %s' % (what, show(m), d))
    for s in SEQBAD:
        if rec.begin(('seq', repr(s))):
            e, x = lib.raises(P.PointlessBitvector, sequence=s[0])
            rec.count('transitions')
            if not e or isinstance(x, SystemError):
                rec.violation('a wrong item is accepted', repr(s))
    for kw in [dict(size=-1), dict(size='a'), dict(size=1.0), dict(size=2**32), dict(size=2**70), dict(size=1, sequence=[True]), dict(sequence=5), dict(sequence=None), dict(allow_print=1), dict(x=1)]:
        if rec.begin(('init', repr(kw))):
            e, x = lib.raises(P.PointlessBitvector, **kw)
            rec.count('transitions')
            if not e or isinstance(x, SystemError):
                rec.violation('a wrong constructor argument is accepted', repr(kw))
    if rec.begin('iterator failure'):
        e, x = lib.raises(P.PointlessBitvector, sequence=fail_iter())
        rec.count('transitions')
        if not e or not isinstance(x, KeyError):
            rec.violation('an error of the sequence is not reported', repr(x))
        # a failed construction leaves an object that works
        bv = P.PointlessBitvector(sequence=[True] * 20)
        for kw in (dict(sequence=[True, 2]), dict(sequence=fail_iter()), dict(size=-1), dict(size=1, sequence=[])):
            lib.raises(bv.__init__, **kw)
            n = len(bv)
            d = observe(P, bv, list(bv))
            if d:
                rec.violation('a bitvector is inconsistent after a failed construction', '%r: %s' % (kw, d))
            bv.append(True)
            d = observe(P, bv, list(bv))
            if d or len(bv) != n + 1:
                rec.violation('a bitvector is inconsistent after a failed construction', '%r then append: %s' % (kw, d))
            bv.__init__(sequence=[True] * 20)
    if rec.begin('growth beyond 2^32-1'):
        # counts that overflow 32 bits are refused without having to allocate
        bv = P.PointlessBitvector(sequence=[True] * 5)
        for n in (2**31, 2**32 - 1, 2**32, 2**63, 2**64, 2**70):
            for f in (bv.extend_true, bv.extend_false):
                e, x = lib.raises(f, n)
                rec.count('transitions')
                if not e or isinstance(x, SystemError) or list(bv) != [True] * 5:
                    rec.violation('growth beyond the limit is accepted', '%d: %r' % (n, x))
    for fresh in (lambda: P.PointlessBitvector.__new__(P.PointlessBitvector), lambda: P.PointlessBitvector(), lambda: P.PointlessBitvector(0), lambda: P.PointlessBitvector(sequence=())):
        if rec.begin(('empty', fresh.__code__.co_firstlineno, fresh.__code__.co_code)):
            bv = fresh()
            rec.count('transitions')
            if list(bv) != [] or len(bv) != 0 or bv.IsAnySet() or list(bv.copy()) != [] or bv.NumOnePostfix() != 0:
                rec.violation('an empty bitvector is not empty', '')
            bv.append(True)
            bv.append_bulk(bv)
            if list(bv) != [True, True]:
                rec.violation('an empty bitvector cannot be filled', '')
            if list(P.Pointless(P.serialize_to_bytearray(bv)).GetRoot()) != [True, True]:
                rec.violation('an empty bitvector cannot be filled and stored', '')
