"""C12: writing a file is all-or-nothing. Every system call of a serialisation is
made to fail, cut short, torn or the point of death, alone and in pairs, and two
writers are interleaved."""
import ctypes
import errno
import json
import os
import shutil
import signal
import stat
import tempfile

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of system-call faults, torn writes, kill points and two-writer interleavings of the real code under a system-call interposer'
NOTE = 'A forked child traps its own system calls; the parent compares the directory with its state before. Flushing is tracked per inode: content that becomes visible under the name must have been fsynced after its last write.'
RULE = 'a case is one scenario with one plan of faults (pairs: one first fault with every second one); non-trivial when the fault was delivered'
BOUNDS = {
    'quick': 'two entry points (Python serialize, C re-creation), 12 states of the target, 5 values; each system call x (2-5 errors, lasting lack of space, kill, 3 short and 3 torn transfers), all pairs of faults for the small value over 4 states of the target, all pairs of pause points of two writers; run in the memory checker, single faults also as shipped',
    'thorough': 'pairs for every state of the target and for values of several write calls, triples for the small value',
}
NEEDS = ['plain', 'asan', 'so:sysinj']
ASSUMPTIONS = ['a directory entry is durable once rename returned (no directory fsync is demanded)', 'mmap, memory and clock calls do not fail here (C14)']

ERR, ERR_SPACE, DIE, SHORT, TORN, PAUSE = range(6)
KIND = ['error', 'no space from', 'kill', 'short', 'torn', 'pause']
NAMES = {1: 'write', 2: 'open', 3: 'close', 4: 'stat', 5: 'fstat', 8: 'lseek', 9: 'mmap', 18: 'pwrite', 20: 'writev', 72: 'fcntl', 74: 'fsync',
         75: 'fdatasync', 77: 'ftruncate', 82: 'rename', 85: 'creat', 86: 'link', 87: 'unlink', 90: 'chmod', 91: 'fchmod', 257: 'openat', 262: 'newfstatat',
         264: 'renameat', 265: 'linkat', 263: 'unlinkat', 268: 'fchmodat', 316: 'renameat2', 285: 'fallocate', 306: 'syncfs'}
WRITES = (1, 18, 20, 296, 328)
CREATES = (2, 257, 85)
SPACE = WRITES + CREATES + (74, 75, 77, 82, 86, 264, 265, 316, 285)


class F(ctypes.Structure):
    _fields_ = [('at', ctypes.c_int64), ('action', ctypes.c_int64), ('arg', ctypes.c_int64)]


class T(ctypes.Structure):
    _fields_ = [(x, ctypes.c_int64) for x in ('nr', 'a0', 'a1', 'a2', 'ret', 'fault')]


class Shared(ctypes.Structure):
    _fields_ = [('n_faults', ctypes.c_int64), ('f', F * 8), ('n', ctypes.c_int64), ('armed', ctypes.c_int64), ('faulted', ctypes.c_int64),
                ('unlink_faulted', ctypes.c_int64), ('early', ctypes.c_int64), ('space', ctypes.c_int64), ('status', ctypes.c_int64),
                ('message', ctypes.c_char * 256), ('target', ctypes.c_char * 4096), ('t', T * 4096)]


STATES = ['absent', 'old', 'readonly', 'directory', 'nodir', 'symlink', 'dangling', 'longname', 'maxname', 'relative', 'marks', 'empty-name']
SMALL = ('absent', 'old', 'readonly', 'symlink')


def tasks(tier):
    t = []
    for v in ('asan', 'plain'):
        for val in ('small', 'mid', 'large', 'bad-output', 'bad-value'):
            for entry in ('py', 'c') if val not in ('bad-value', 'bad-output') else ('py',):
                t.append(('single', dict(variant=v, entry=entry, value=val, states=STATES if val in ('small', 'bad-output') else ['absent', 'old', 'symlink'] if val == 'mid' else ['old'])))
    for entry in ('py', 'c'):
        for s in SMALL if tier == 'quick' else STATES:
            for val in ('small', 'bad-output') if entry == 'py' else ('small',):
                if tier != 'quick' or val == 'small' or s == 'old':
                    t.append(('pairs', dict(variant='asan', entry=entry, value=val, states=[s])))
    t.append(('inplace', dict(variant='asan')))
    t.append(('writers', dict(variant='asan', states=['old'])))
    t.append(('writers', dict(variant='asan', states=['absent'])))
    if tier == 'thorough':
        for entry in ('py', 'c'):
            t.append(('pairs', dict(variant='asan', entry=entry, value='mid', states=['old'])))
            for s in ('old', 'absent'):
                for part in range(4):
                    t.append(('triples', dict(variant='plain', entry=entry, value='small', states=[s], part=part)))
        t.append(('pairs', dict(variant='asan', entry='py', value='large', states=['old'])))
    return t


def value(P, name):
    import struct
    if name == 'small':
        return {'a': [1, 2.5, 'é'], (1, 'b'): {1, 2, 3}}
    if name == 'other':
        return [9, 'other', ['x' * 50] * 3]
    if name == 'mid':
        return [chr(97 + i) * (2500 + i) for i in range(8)] + [[i, i / 3.0] for i in range(20)]
    if name == 'large':
        return [bytearray(b'q' * 100000), [i * 70000 for i in range(9000)], 'z' * 60001, {i: i for i in range(500)}]
    if name == 'bad-output':
        # two keys become one when narrowed, which is found while the file is being made
        return ['x' * 10000, {0.1, struct.unpack('f', struct.pack('f', 0.1))[0]}]
    if name == 'bad-value':
        return ['x', object()]
    raise KeyError(name)


class Box:
    """one directory with the target in a given state, and files that must not change"""
    def __init__(self, root, state, old, source):
        self.root, self.state, self.old, self.source = root, state, old, source

    def __enter__(self):
        d = self.dir = os.path.join(self.root, 'box')
        os.mkdir(d)
        n = {'longname': 't' * 255, 'maxname': 't' * 248, 'marks': 'f%s%n.XXXXXX'}.get(self.state, 'target')
        self.path = os.path.join(d, n)
        for b in ('target.tmp', 'target~', '.target', 'target.XXXXXX', 'target.bak', 'other'):
            self.put(os.path.join(d, b), b'bystander ' + b.encode())
        if self.source is not None:
            self.put(os.path.join(d, 'source'), self.source)
        if self.state in ('old', 'relative', 'marks', 'longname', 'maxname'):
            self.put(self.path, self.old)
        elif self.state == 'readonly':
            self.put(self.path, self.old)
            os.chmod(self.path, 0o400)
        elif self.state == 'directory':
            os.mkdir(self.path)
            self.put(os.path.join(self.path, 'inner'), b'inner')
        elif self.state == 'nodir':
            self.path = os.path.join(d, 'none', 'target')
        elif self.state == 'symlink':
            self.put(os.path.join(d, 'pointed'), self.old)
            os.symlink('pointed', self.path)
        elif self.state == 'dangling':
            os.symlink('nowhere', self.path)
        self.arg = self.path
        if self.state == 'relative':
            self.arg = 'target'
        if self.state == 'empty-name':
            self.arg = ''
        self.before = self.listing()
        return self

    def put(self, p, b):
        with open(p, 'wb') as f:
            f.write(b)

    def __exit__(self, *a):
        shutil.rmtree(self.dir)

    def listing(self):
        out = {}
        for d, dn, fn in os.walk(self.dir):
            for n in dn + fn:
                p = os.path.join(d, n)
                st = os.lstat(p)
                k = os.path.relpath(p, self.dir)
                if stat.S_ISLNK(st.st_mode):
                    out[k] = ('link', os.readlink(p))
                elif stat.S_ISDIR(st.st_mode):
                    out[k] = ('dir', st.st_mode)
                else:
                    with open(p, 'rb') as f:
                        out[k] = ('file', f.read(), st.st_mode, st.st_ino)
        return out

    def content(self):
        try:
            with open(self.path, 'rb') as f:
                return f.read()
        except OSError:
            return None


def brief(l):
    return {k: (v[0], len(v[1]), v[1][:12]) if v[0] == 'file' else v for k, v in l.items()}


class Ctx:
    def __init__(self, rec, args):
        from checks import lib
        import pointless as P
        self.rec, self.lib, self.P, self.args = rec, lib, P, args
        self.L = ctypes.CDLL(json.loads(os.environ['MC_PATHS'])['so:sysinj'])
        self.L.sysinj_init.restype = ctypes.POINTER(Shared)
        self.L.sysinj_init2.restype = ctypes.POINTER(Shared)
        self.L.sysinj_use.argtypes = [ctypes.c_void_p]
        self.L.sysinj_clear.argtypes = [ctypes.c_void_p]
        self.p1 = self.L.sysinj_init()
        self.p2 = self.L.sysinj_init2()
        self.S = self.p1.contents
        self.ext = ctypes.CDLL(P.__file__)
        self.old = bytes(P.serialize_to_bytearray(['old', 1, 2, 3]))
        self.tmp = tempfile.mkdtemp(prefix='c12-', dir=lib.tmpdir())
        self.err = os.path.join(self.tmp, 'stderr')
        self.v = {}
        self.cb = {}
        self.b = {}
        for n in ('small', 'other', 'mid', 'large'):
            self.v[n] = value(P, n)
            self.b[n] = bytes(P.serialize_to_bytearray(self.v[n]))
        for n in ('bad-output', 'bad-value'):
            self.v[n] = value(P, n)
            self.b[n] = None

    def expect(self, entry, val):
        """the bytes of a write without faults; re-creation may order entries in its own way"""
        if entry == 'py' or self.b[val] is None:
            return self.b[val]
        if val not in self.cb:
            a, b = os.path.join(self.tmp, 'a'), os.path.join(self.tmp, 'b')
            with open(a, 'wb') as f:
                f.write(self.b[val])
            e = self.call('c', val, b, a)
            with open(b, 'rb') as f:
                self.cb[val] = f.read()
            os.unlink(a)
            os.unlink(b)
            same = self.lib.same(self.lib.got(self.P.Pointless(bytearray(self.cb[val])).GetRoot()), self.lib.norm(self.v[val]))
            if e or not same:
                self.cb[val] = None
                self.rec.violation('re-creation without faults loses content', '%s %s' % (val, e))
        return self.cb[val]

    def call(self, entry, val, path, source):
        """-> None on success, text of the error otherwise"""
        if entry == 'py':
            try:
                r = self.P.serialize(self.v[val], path)
            except Exception as e:
                return '%s: %s' % (type(e).__name__, e)
            return None if r is None else 'returned %r' % (r,)
        err = ctypes.c_char_p()
        if self.ext.pointless_recreate_64(source.encode(), path.encode(), ctypes.byref(err)):
            return None
        return 'C: %s' % (err.value or b'(no message)').decode('latin1')

    @staticmethod
    def fds():
        out = {}
        for n in os.listdir('/proc/self/fd'):
            try:
                out[n] = os.readlink('/proc/self/fd/' + n)
            except OSError:
                pass
        return out

    def fork(self, ptr, entry, val, box, plan, source):
        S = ptr.contents
        self.L.sysinj_clear(ptr)
        S.n_faults = len(plan)
        for i, (at, action, arg) in enumerate(plan):
            S.f[i].at, S.f[i].action, S.f[i].arg = at, action, arg
        S.target = box.path.encode()
        pid = os.fork()
        if pid:
            return pid
        try:
            fd = os.open(self.err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, 2)
            os.dup2(fd, 1)
            os.close(fd)
            self.L.sysinj_use(ptr)
            if box.state == 'relative':
                os.chdir(box.dir)
            before = self.fds()
            r = self.L.sysinj_install()
            if r:
                os._exit(90 + r)
            self.L.sysinj_arm()
            e = self.call(entry, val, box.arg, source)
            self.L.sysinj_disarm()
            after = self.fds()
            before.pop(str(max(map(int, before))), None)
            after.pop(str(max(map(int, after))), None)
            leak = sorted(set(after.items()) - set(before.items()))
            S.message = ('%s|%s' % (e or '', leak or '')).encode()[:255]
            S.status = 1 if e is None else 2
            if e and e.startswith(('SystemError', 'returned')):
                S.status = 3
            if leak:
                S.status += 10
        except BaseException as x:
            S.message = repr(x).encode()[:255]
            os._exit(99)
        os._exit(0)

    def wait(self, pid):
        _, st = os.waitpid(pid, 0)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) in (91, 92, 93, 99):
            raise NameError('the interposer does not work here: %d %r' % (os.WEXITSTATUS(st), self.S.message))
        return st

    def case(self, entry, val, state, plan, must=None):
        """runs one plan; reports; returns the trace (list of (nr, size)) if the process survived"""
        rec = self.rec
        source = self.b[val] if entry == 'c' else None
        new = self.expect(entry, val)
        with Box(self.tmp, state, self.old, source) as box:
            pid = self.fork(self.p1, entry, val, box, plan, os.path.join(box.dir, 'source'))
            st = self.wait(pid)
            S = self.S
            rec.count('executions')
            rec.count('syscalls', S.n)
            trace = [(S.t[i].nr, S.t[i].a1) for i in range(min(S.n, 4096))]
            where = ' '.join('%s %s %s(%d)' % (KIND[a], x if a in (SHORT, TORN) else errno.errorcode.get(x, x) if a in (ERR, ERR_SPACE) else '', NAMES.get(trace[k][0] if k < len(trace) else 0, trace[k][0] if k < len(trace) else '?'), k) for k, a, x in plan)
            info = '%s, target %s, value %s, %s' % (entry, state, val, where or 'no fault')
            after = box.listing()
            dead = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77
            if not dead and st != 0:
                text = open(self.err, 'rb').read().decode('latin1')
                rec.violation('the process dies', '%s\nstatus %d\n%s' % (info, st, text[:3000]))
                return None
            old = box.before.get(os.path.relpath(box.path, box.dir))
            msg = S.message.decode('latin1')
            ok = S.status % 10 == 1
            if dead:
                c = box.content()
                oldc = self.old if state in ('old', 'relative', 'marks', 'longname', 'maxname', 'readonly', 'symlink') else None
                if c != oldc and c != new:
                    rec.violation('killed, the target is neither the old nor the new content', '%s: %r...' % (info, None if c is None else (len(c), c[:40])))
                if S.early:
                    rec.violation('content became visible before it was flushed', info)
                for k, v in box.before.items():
                    if k != os.path.relpath(box.path, box.dir) and k != 'pointed' and after.get(k) != v:
                        rec.violation('another file changed', '%s: %s' % (info, k))
                return trace
            if S.status % 10 == 3:
                rec.violation('the call ends in a wrong way', '%s: %s' % (info, msg))
            if S.status >= 10:
                rec.violation('a descriptor is left open', '%s: %s' % (info, msg))
            if S.early:
                rec.violation('content became visible before it was flushed', info)
            if ok:
                t = os.path.relpath(box.path, box.dir)
                if new is None:
                    rec.violation('a value that cannot be written was reported as written', info)
                if box.content() != new:
                    rec.violation('success is reported without the new content', '%s: %r' % (info, brief(after)))
                want = dict(box.before)
                want.pop(t, None)
                have = dict(after)
                have.pop(t, None)
                if state in ('symlink', 'dangling'):
                    for n in ('pointed', 'nowhere'):
                        if have.get(n, (0, 0))[1] == new or n in want:
                            want.pop(n, None)
                            have.pop(n, None)
            else:
                want, have = dict(box.before), dict(after)
            extra = set(have) - set(want)
            if extra and not S.unlink_faulted:
                rec.violation('a temporary file is left behind', '%s: %s (%s)' % (info, sorted(extra), msg))
            for k, v in want.items():
                if have.get(k) != v:
                    rec.violation('a failed write changed the target' if k == os.path.relpath(box.path, box.dir) else 'another file changed',
                                  '%s: %s: %r -> %r (%s)' % (info, k, brief({k: v}), brief({k: have[k]}) if k in have else None, msg))
            if must is not None and ok != must:
                rec.violation('without a fault the call should %s' % ('succeed' if must else 'fail'), '%s: %s' % (info, msg))
            return trace


def menu(trace, k):
    nr, n = trace[k]
    out = [(k, ERR, errno.EIO), (k, ERR, errno.EINTR), (k, DIE, 0)]
    if nr in WRITES:
        out += [(k, ERR, errno.ENOSPC)]
        for m in sorted({1, n // 2, n - 1}):
            if 0 < m < n:
                out += [(k, SHORT, m), (k, TORN, m)]
    if nr in CREATES:
        out += [(k, ERR, e) for e in (errno.ENOSPC, errno.EEXIST, errno.EMFILE, errno.EACCES)]
    if nr in SPACE:
        out += [(k, ERR_SPACE, errno.ENOSPC)]
    return out


def second(trace, k):
    nr, n = trace[k]
    out = [(k, ERR, errno.EIO), (k, DIE, 0)]
    if nr in WRITES and n > 1:
        out += [(k, SHORT, n // 2), (k, TORN, n // 2)]
    return out


WORKS = ('absent', 'old', 'readonly', 'symlink', 'dangling', 'maxname', 'relative', 'marks')


def must(val, state):
    if val.startswith('bad'):
        return False
    if state in ('directory', 'nodir', 'empty-name'):
        return False
    if state in ('longname', 'maxname'):
        # a name that leaves no room for a temporary one may be refused
        return None
    return True


def run(name, args, rec):
    C = Ctx(rec, args)
    C.lib.f32  # the library is loaded before anything is forked
    if name == 'writers':
        return writers(C)
    if name == 'inplace':
        return inplace(C)
    entry, val = args['entry'], args['value']
    for state in args['states']:
        base = None

        def first():
            return C.case(entry, val, state, [], must(val, state))
        base = first() if rec.start or rec.stop is not None else None
        if rec.begin((entry, val, state, 'no fault')):
            base = first()
        if base is None:
            base = first() or []
        for k in range(len(base)):
            for p in menu(base, k):
                if name == 'single':
                    if rec.begin((entry, val, state, NAMES.get(base[k][0], base[k][0]), KIND[p[1]], p)):
                        rec.nontrivial()
                        C.case(entry, val, state, [p])
                        if not C.S.faulted:
                            rec.violation('the sequence of system calls is not repeatable', repr(p))
                elif p[1] in (ERR, SHORT, ERR_SPACE):
                    if not rec.begin((entry, val, state, 'then every second fault', NAMES.get(base[k][0], base[k][0]), p)):
                        continue
                    rec.nontrivial()
                    t = C.case(entry, val, state, [p])
                    if t is None:
                        continue
                    for l in range(k + 1, len(t)):
                        for q in second(t, l):
                            if name == 'triples' and l % 4 != args['part']:
                                continue
                            t2 = C.case(entry, val, state, [p, q])
                            rec.count('pairs')
                            if name == 'triples' and t2 and q[1] in (ERR, SHORT):
                                for o in range(l + 1, min(len(t2), l + 30)):
                                    for z in second(t2, o):
                                        C.case(entry, val, state, [p, q, z])
                                        rec.count('triples')


def inplace(C):
    """the C re-creation with the same file as source and destination"""
    rec = C.rec
    for val in ('small', 'mid'):
        C.old = C.b[val]

        def one(plan):
            with Box(C.tmp, 'old', C.b[val], None) as box:
                pid = C.fork(C.p1, 'c', val, box, plan, box.path)
                st = C.wait(pid)
                rec.count('executions')
                c = box.content()
                t = [(C.S.t[i].nr, C.S.t[i].a1) for i in range(C.S.n)]
                if st != 0 and not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77):
                    rec.violation('the process dies', '%r %d %s' % (plan, st, open(C.err, 'rb').read().decode('latin1')[:3000]))
                    return t
                if c != C.b[val]:
                    rec.violation('re-creation in place lost the content', repr(plan))
                if st == 0:
                    if C.S.status >= 10:
                        rec.violation('a descriptor is left open', '%r: %s' % (plan, C.S.message))
                    if set(box.listing()) != set(box.before) and not C.S.unlink_faulted:
                        rec.violation('a temporary file is left behind', repr(plan))
                    if not plan and C.S.status != 1:
                        rec.violation('re-creation in place fails', repr(C.S.message))
                return t
        t = one([])
        for k in range(len(t)):
            for p in menu(t, k):
                if rec.begin(('in place', val, NAMES.get(t[k][0], t[k][0]), KIND[p[1]], p)):
                    rec.nontrivial()
                    one([p])


def writers(C):
    """two processes write different values to the same name: the first stops at
    every call, the second at every call, then they finish in either order"""
    rec = C.rec
    state = C.args['states'][0]
    ta = C.case('py', 'small', state, [])
    tb = C.case('py', 'other', state, [])
    if ta is None or tb is None:
        rec.begin('writers')
        rec.violation('a write without faults fails', '')
        return
    for k in range(len(ta)):
        for l in range(len(tb) + 1):
            for first in 'AB' if l < len(tb) else 'B':
                if not rec.begin(('two writers', state, 'first stops before call', k, 'second before', l, 'finishes first', first)):
                    continue
                rec.nontrivial()
                with Box(C.tmp, state, C.old, None) as box:
                    a = C.fork(C.p1, 'py', 'small', box, [(k, PAUSE, 0)], '')
                    _, st = os.waitpid(a, os.WUNTRACED)
                    if not os.WIFSTOPPED(st):
                        raise NameError('the first writer did not stop')
                    b = C.fork(C.p2, 'py', 'other', box, [(l, PAUSE, 0)], '')
                    _, sb = os.waitpid(b, os.WUNTRACED)
                    mid = box.content()
                    okmid = (C.b['other'], C.old if state == 'old' else None)
                    if mid not in okmid:
                        rec.violation('while both write, the target is neither the old nor a new content', repr(mid))
                    st = None
                    for w in ((a, b) if first == 'A' else (b, a)):
                        if w == b and not os.WIFSTOPPED(sb):
                            continue
                        os.kill(w, signal.SIGCONT)
                        _, s = os.waitpid(w, 0)
                        if s != 0:
                            rec.violation('a writer dies', '%d: %s' % (s, open(C.err, 'rb').read().decode('latin1')[:2000]))
                        now = box.content()
                        if now not in (C.b['small'], C.b['other']):
                            rec.violation('after a writer finished, the target is not a complete new content', repr(now))
                    for p in (C.p1, C.p2):
                        if p.contents.status != 1:
                            rec.violation('one of two writers fails', repr(p.contents.message))
                        if p.contents.early:
                            rec.violation('content became visible before it was flushed', '')
                    extra = set(box.listing()) - set(box.before) - {'target'}
                    if extra:
                        rec.violation('a temporary file is left behind', repr(extra))
                    rec.count('executions', 2)
