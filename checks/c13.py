"""C13: no input file can make the reader misbehave. Bounded families of files,
valid and invalid, are opened with validation and read with every public
reading function of the C library and of the Python extension."""
import itertools

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of file mutations and of small object graphs and containers, executed on the real reader under AddressSanitizer with leak, output and time monitors'
NOTE = 'The file is the environment of the reader; every file of bounded families is enumerated rather than sampled, and hashes are repaired in built files so that the later validation passes are reached. The C side reads accepted files with every function of the reader interface, copies and prints them; the Python side reads every distinct accepted file of the same families with every method of the opened objects.'
RULE = 'a case is one file; non-trivial when validation accepts it, so that all reading functions run on it'
BOUNDS = {
    'quick': '27 seed files of 32 to 500 bytes: every truncation, 16 extensions, every byte with 256 values, every word with 57 values, every (type, data) pair of 32 types and 13 data values at every word, every offset with every position in the file, pairs of words with 10 values each on the 17 smallest; every file of 3 vectors of up to 2 items over 7 references; sets and maps of 1, 2 and 4 buckets over 11 kinds of slots, 13 item counts and 7 header shapes, with repaired hashes; 23 kinds of values in every place; chains of 6 kinds in 3 orders to 300000 levels. Python side: the distinct accepted files of these families (bytes: of the 5 smallest seeds and vectors: of 2 vectors)',
    'thorough': 'as quick, with pairs of words on all seeds (24 values each on the 17 smallest), vectors over 9 references, tables over 23 kinds of slots, and all accepted files on the Python side',
}
NEEDS = ['asan', 'c:fuzz:fault']
ASSUMPTIONS = ['time is judged by termination: a file may share a vector so often that comparing, hashing or printing it takes the time of its expansion, and an equal-bit bitvector of 2^32 bits in a key is hashed bit by bit; such files (more than 10^6 bits) are left out with tables',
               'a lookup by the functions named _acyclic requires an acyclic hashable key, as documented']
NSEED = 27
SMALL = 17


def tasks(tier):
    full = int(tier == 'thorough')
    t = []

    def c(n, *argv, **kw):
        t.append((n, dict(variant='c:fuzz:fault', argv=list(argv), case_cpu_s=kw.get('cpu', 20))))

    def py(n, *argv, **kw):
        t.append(('py-' + n, dict(variant='asan', fam=n, argv=list(argv), case_cpu_s=60)))
    nv = 24 if full else 8
    for i in range(nv):
        c('vectors', i, full, nv)
    if full:
        # in the background of the rest
        for s in range(NSEED):
            c('pair', s, int(s < SMALL))
    for s in range(NSEED):
        for f in ('trunc', 'byte', 'word', 'value', 'off'):
            c(f, s)
            if full or f in ('word', 'value') or (s < 5 or s == 16):
                py(f, s)
    if not full:
        for s in range(SMALL):
            c('pair', s, 0)
    for s in range(SMALL):
        if full or s < 9:
            py('pair', s, 0)
    for i in range(8):
        c('set', i, full, 8)
        c('map', i, full, 8)
        py('set', i, full, 8)
        py('map', i, full, 8)
    py('places')
    c('places')
    for i in range(8):
        py('two', i, 0, 8)
    if full:
        for i in range(24):
            py('vectors', i, 0, 24)
    for i in range(24):
        c('chain', i, cpu=60)
        py('chain', i)
    return t


def files(args):
    """the accepted files of one family, from the C side"""
    import json
    import os
    import struct
    import subprocess
    import tempfile
    exe = json.loads(os.environ['MC_PATHS'])['c:fuzz:fault']
    fd, path = tempfile.mkstemp(dir=os.environ['MC_TMP'])
    os.close(fd)
    env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'PYTHONPATH', 'MC_OUT', 'MC_PROGRESS', 'MC_START', 'MC_STOP', 'MC_DESCRIBE')}
    env['MC_DUMP'] = path
    try:
        # a failure here is reported by the C task of the same family
        subprocess.run([exe, args['fam']] + [str(a) for a in args['argv']], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
    except subprocess.TimeoutExpired:
        pass
    data = open(path, 'rb').read()
    os.unlink(path)
    out, seen, i = [], set(), 0
    while i + 4 <= len(data):
        n = struct.unpack_from('<I', data, i)[0]
        heavy, n = n >> 31, n & 0x7fffffff
        b = data[i + 4:i + 4 + n]
        i += 4 + n
        if len(b) == n and b not in seen:
            seen.add(b)
            out.append((b, heavy))
    return out


def run(name, args, rec):
    import ctypes
    import hashlib
    import gc
    import os
    import sys
    from checks import lib
    import pointless as P
    H = ctypes.CDLL(P.__file__)
    live = ctypes.c_long.in_dll(H, 'mc_live')
    libc = ctypes.CDLL(None)
    sys.setrecursionlimit(3000)
    # what the reader prints, if anything
    fd = os.memfd_create('out')
    if not rec.describing:
        sys.stdout.flush()
        os.dup2(fd, 1)
    gc.disable()
    read(lib, P, P.serialize_to_bytearray([1, 'a', {1: 2}, {3}, lib.PB(sequence=[1, 0] * 20)]), rec)
    gc.collect()
    for b, heavy in files(args):
        if not rec.begin((args['fam'], args['argv'], b.hex() if len(b) < 260 else '%d bytes, sha1 %s' % (len(b), hashlib.sha1(b).hexdigest()))):
            continue
        before = live.value
        if read(lib, P, b, rec, heavy):
            rec.nontrivial()
        if live.value != before:
            # what the interpreter keeps for itself is not kept again
            gc.collect()
            n = []
            for _ in range(4):
                before = live.value
                read(lib, P, b, rec, heavy)
                gc.collect()
                n.append(live.value - before)
            if min(n) > 0:
                rec.violation('memory left behind', '%d allocations' % min(n))
    libc.fflush(None)
    if not rec.describing and os.fstat(fd).st_size:
        rec.violation('something was printed', repr(os.pread(fd, 100, 0)), case=(args['fam'], args['argv']))


ALLOWED = (ValueError, TypeError, IndexError, KeyError, OverflowError, AttributeError, RecursionError, BufferError, NotImplementedError, IOError)


def attempt(rec, fn, *a):
    try:
        return fn(*a)
    except ALLOWED:
        return None
    except SystemError as e:
        rec.violation('internal error', '%s: %r' % (getattr(fn, '__name__', fn), e))
        return None


def read(lib, P, b, rec, heavy=0):
    try:
        p = P.Pointless(bytearray(b))
    except (ValueError, IOError):
        return False
    A = lambda fn, *a: attempt(rec, fn, *a)
    values, seen = [], set()
    big = len(b) > 20000

    def add(v):
        if v is None or len(values) > 40:
            return
        if isinstance(v, (lib.PV, lib.PS, lib.PM)):
            k = (type(v).__name__, v.container_id if hasattr(v, 'container_id') else 0, A(len, v), A(lambda: getattr(v, 'typecode', '')))
        else:
            k = (type(v).__name__, repr(v) if not isinstance(v, lib.PB) else (len(v), A(v.IsAnySet)))
        if k not in seen:
            seen.add(k)
            values.append(v)
    add(A(p.GetRoot))
    i = 0
    while i < len(values):
        v = values[i]
        i += 1
        if isinstance(v, lib.PV):
            n = len(v)
            for j in list(range(min(n, 6))) + [n - 1, -1, n]:
                add(A(v.__getitem__, j))
            for it in (iter, reversed):
                x = A(it, v)
                for _ in range(min(n, 20) + 2):
                    if x is None or A(next, x, None) is None:
                        break
                del x
            s = A(v.__getitem__, slice(1, None))
            if s is not None and not heavy:
                A(hash, s), A(str, s), A(P.serialize_to_bytearray, s) if not big else None
            for m in (v.max, v.min, v.range):
                A(m)
            A(v.bisect_left, 3)
            A(v.__sizeof__)
            A(bytes, memoryview(v)) if A(memoryview, v) is not None else None
            A(lambda: v.typecode), A(lambda: v.container_id), A(lambda: v.is_hashable)
        elif isinstance(v, lib.PS):
            A(len, v)
            x = A(iter, v)
            for _ in range(12):
                k = A(next, x, None) if x is not None else None
                if k is None:
                    break
                add(k)
        elif isinstance(v, lib.PM):
            A(len, v)
            for m in (v.__iter__, v.keys, v.values, v.items):
                x = A(m)
                for _ in range(12):
                    k = A(next, x, None) if x is not None else None
                    if k is None:
                        break
                    for y in (k if isinstance(k, tuple) else (k,)):
                        add(y)
        elif isinstance(v, lib.PB):
            n = len(v)
            for j in (0, 1, n - 1, n, -1):
                A(v.__getitem__, j)
            if n < 10 ** 6:
                A(v.IsAnySet), A(v.NumZeroPrefix), A(v.NumOnePostfix), A(v.copy)
        rec.count('values')
        if heavy:
            continue
        A(str, v)
        A(repr, v)
    if heavy:
        return True
    few = values[:5] if big else values[:10]
    for v in few:
        A(hash, v)
        A(P.pyobject_hash, v)
        if not big or v is values[0]:
            A(P.serialize_to_bytearray, v)
        for w in few:
            A(P.pointless_cmp, v, w)
            A(lambda: v == w)
            if isinstance(v, (lib.PS, lib.PM)):
                A(lambda: w in v)
                if isinstance(v, lib.PM):
                    A(v.get, w)
        if isinstance(v, (lib.PS, lib.PM, lib.PV)):
            for w in (0, 1, -1, 'a', '', 'bc', 1.5, None, True, (1, 'a'), 2 ** 32, 'ā'):
                A(lambda: w in v)
    A(p.GetRefs)
    return True
