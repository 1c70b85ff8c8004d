"""C16: opening and closing in threads is safe. Every schedule of small
multi-threaded programs, through the points at which the extension gives up
the interpreter lock, against a model of what each call may do."""
import itertools
import os
import threading

LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of all thread schedules of the real extension under a controlled scheduler; every outcome must be one of the explicit-state model of the program; memory checker throughout'
NOTE = 'The scheduler takes over at both ends of every stretch without the interpreter lock and, in the fine mode, before each call the extension makes inside one (allocation, file and mapping calls). Code between two such points runs as one step; data races inside it are left to the memory checker.'
RULE = 'a case is one program and start; its schedules are counted as traces; non-trivial when a thread ran inside a lock-free stretch of another'
BOUNDS = {
    'quick': 'all programs of 2 threads with 1+1 calls out of 25 in 4 starts: all schedules of the window ends, and all with up to 2 preemptions of the calls inside; 1+2 calls: all schedules with up to 2 preemptions; 8 kinds of shared iterators',
    'thorough': 'also 2+2 and 1+1+1 calls with up to 3 preemptions, 1+1 calls with up to 3 preemptions inside, 1+2 with up to 3',
}
NEEDS = ['asan']
NPROC = 8

OPENS = ('open', 'openv', 'openf', 'openfv', 'openg')
AGAIN = ('again', 'againf', 'worse')
READS = ('read', 'hold', 'look', 'let', 'drop', 'refs', 'ino')
SRC = ('wipe', 'swap', 'resize', 'forget', 'replace', 'unlink', 'write')
STARTS = ('buffer', 'file', 'held', 'unopened')
ITERS = ('vector', 'reversed', 'keys', 'values', 'items', 'set', 'bits', 'prim')
ALL = OPENS + AGAIN + READS + SRC
# those which give up the lock
WINDOWED = OPENS + AGAIN + ('drop', 'let')


def programs(tier):
    """-> (start, program, fine, preemptions)"""
    big = tier == 'thorough'
    for s in STARTS:
        for a, b in itertools.product(ALL, ALL):
            if (a in WINDOWED or b in WINDOWED) and a <= b:
                yield s, ((a, ), (b, )), 0, 99
                if a in WINDOWED and b in WINDOWED or big:
                    yield s, ((a, ), (b, )), 1, 3 if big else 2
                else:
                    yield s, ((a, ), (b, )), 1, 99
        for a in WINDOWED:
            for b, c in itertools.product(ALL, ALL):
                yield s, ((a, ), (b, c)), 0, 99 if big else 2
    for k in ITERS:
        for n in (0, 1):
            for a in (('next', ), ('next', 'next'), ('drain', ), ('drop', ), ('forgetit', ), ('next', 'forgetit')):
                for b in (('next', ), ('next', 'next'), ('drain', ), ('forgetit', )) + ((('next', ), ('next', )), ):
                    t = (a, ) + (b if type(b[0]) is tuple else (b, ))
                    yield '%s/%d' % (k, n), t, 1, 99
    if big:
        few = ('open', 'openf', 'again', 'againf', 'worse', 'hold', 'let', 'drop', 'swap', 'resize', 'unlink', 'write')
        for s in STARTS:
            for a, b in itertools.product(few, few):
                if a in WINDOWED or b in WINDOWED:
                    for c, d in itertools.product(few, few):
                        yield s, ((a, b), (c, d)), 0, 3
            for t in itertools.combinations_with_replacement(ALL, 3):
                if sum(x in WINDOWED for x in t) > 1:
                    yield s, tuple((x, ) for x in t), 0, 3


def tasks(tier):
    n = 40 if tier == 'quick' else 96
    return [('schedules', dict(variant='asan', tier=tier, part=i, of=n)) for i in range(n)]


# ---- the model ----
# state: src 'A' 'B' 'X' (garbage) None; file 'A' 'B' None; handles: contents;
# h: index or None; held: index or None; rest: items left in the iterator or
# None; pins: opens which hold the buffer
class State:
    __slots__ = ('src', 'file', 'handles', 'h', 'held', 'rest', 'pins', 'new')

    def copy(self):
        s = State()
        s.src, s.file, s.h, s.held, s.rest, s.pins = self.src, self.file, self.h, self.held, self.rest, self.pins
        s.handles = list(self.handles)
        return s


def start_state(start):
    s = State()
    s.src, s.file, s.handles, s.h, s.held, s.rest, s.pins = 'A', 'A', ['A'], 0, None, None, 0
    if start == 'held':
        s.held = 0
    elif start == 'unopened':
        s.handles = [None]
    elif '/' in start:
        s.rest = int(start.split('/')[1])
    return s


def begin(s, op):
    """first step of a call -> [(state, result, carry)], result None if it goes on"""
    if op in ('open', 'openv'):
        if s.src is None:
            return [(s, 'none', None)]
        s.pins += 1
        return [(s, None, s.src)]
    if op in ('openf', 'openfv'):
        return [(s, None, None)]
    if op == 'openg':
        # the other file, a longer one
        return [(s, None, 'B')]
    if op in AGAIN:
        if s.h is None:
            return [(s, 'none', None)]
        if op == 'again':
            if s.src is None:
                return [(s, 'none', None)]
            s.pins += 1
        return [(s, None, (s.h, s.src if op == 'again' else None))]
    c = None if s.h is None else s.handles[s.h]
    if op == 'read':
        r = 'none' if s.h is None else c or 'error'
    elif op == 'hold':
        r = 'none' if s.h is None else c or 'error'
        if c:
            s.held = s.h
    elif op == 'look':
        r = 'none' if s.held is None else s.handles[s.held]
    elif op == 'let':
        s.held, r = None, 'ok'
    elif op == 'drop':
        s.h, r = None, 'ok'
    elif op == 'refs':
        r = 'none' if s.h is None else int(s.held is not None and s.held == s.h)
    elif op == 'ino':
        r = 'any'
    elif op in ('wipe', 'swap'):
        r = 'none' if s.src is None else 'ok'
        if s.src is not None:
            s.src = 'X' if op == 'wipe' else 'B' if s.src != 'R' else 'B'
    elif op == 'resize':
        if s.src is None:
            return [(s, 'none', None)]
        t = s.copy()
        t.src = 'X'
        return [(t, 'ok', None)] + ([(s, 'busy', None)] if s.pins else [])
    elif op == 'forget':
        s.src, r = None, 'ok'
    elif op in ('replace', 'write'):
        s.file, r = 'B', 'ok'
    elif op == 'unlink':
        s.file, r = None, 'ok'
    elif op == 'next':
        if s.rest is None:
            r = 'none'
        else:
            r = 'item' if s.rest else 'stop'
            s.rest = max(0, s.rest - 1)
    elif op == 'drain':
        # as many calls as it takes: other threads may take items in between
        r = 'none' if s.rest is None else s.rest
        s.rest = None if s.rest is None else 0
    elif op == 'forgetit':
        s.rest, r = None, 'ok'
    return [(s, r, None)]


def middle(s, op, carry):
    """file opened: somewhere between start and end"""
    if op in ('openf', 'openfv'):
        return s.file
    if op == 'againf':
        return (carry[0], s.file)
    return carry


def end(s, op, carry):
    """-> [(state, result)]"""
    if op in OPENS:
        if op in ('open', 'openv'):
            s.pins -= 1
        return [(s, carry if carry in ('A', 'B') else 'error')]
    h, c = carry
    if op == 'again':
        s.pins -= 1
    if c in ('A', 'B'):
        if s.held == h:
            return [(s, 'error')]
        s.handles[h] = c
        return [(s, 'ok')]
    out = [(s.copy(), 'error')]
    if s.held != h:
        # a failed call may leave it closed
        s.handles[h] = None
        out.append((s, 'error'))
    return out


def allowed(start, prog, seen):
    """the outcomes of all interleavings of the steps"""
    out = set()

    def go(s, pcs, results):
        key = (s.src, s.file, tuple(s.handles), s.h, s.held, s.rest, s.pins, pcs, results)
        if key in visited:
            return
        visited.add(key)
        alive = False
        for i, (pc, stage, carry) in enumerate(pcs):
            if pc == len(prog[i]):
                continue
            alive = True
            op = prog[i][pc]

            def after(t, r, nxt):
                p = pcs[:i] + (nxt, ) + pcs[i + 1:]
                go(t, p, results if r is None else results[:i] + (results[i] + (r, ), ) + results[i + 1:])
            if stage == 0:
                for t, r, c in begin(s.copy(), op):
                    after(t, r, (pc, 1, c) if r is None else (pc + 1, 0, None))
            elif stage == 1:
                after(s.copy(), None, (pc, 2, middle(s, op, carry)))
            else:
                for t, r in end(s.copy(), op, carry):
                    after(t, r, (pc + 1, 0, None))
        if not alive:
            out.add((results, None if s.h is None else s.handles[s.h] or 'error', None if s.held is None else s.handles[s.held]))
    visited = set()
    go(start_state(start), tuple((0, 0, None) for t in prog), tuple(() for t in prog))
    seen[0] += len(visited)
    return out


# ---- the scheduler ----
class Stuck(Exception):
    pass


class Scheduler:
    """runs threads one at a time; who goes on at each point is chosen by a
    list of choices, 0 (the same thread) after its end"""
    def __init__(self, n):
        self.n = n
        self.ids = {}
        self.locks = [threading.Lock() for i in range(n)]
        self.jobs = [None] * n
        self.finished = threading.Lock()
        self.finished.acquire()
        self.error = None
        for i in range(n):
            self.locks[i].acquire()
            threading.Thread(target=self.loop, args=(i, ), daemon=True).start()

    def loop(self, i):
        self.ids[threading.get_ident()] = i
        while True:
            self.locks[i].acquire()
            try:
                self.jobs[i]()
            except BaseException as e:
                self.error = e.with_traceback(None)
            self.live.discard(i)
            if self.live:
                self.go(self.choose(None))
            else:
                self.finished.release()

    def go(self, i):
        self.now = i
        self.locks[i].release()

    def choose(self, me):
        o = sorted(self.live)
        if me is not None:
            o.remove(me)
            o = [me] + ([] if self.left == 0 else o)
        k = len(self.trace)
        c = self.choices[k] if k < len(self.choices) else 0
        self.trace.append((c, len(o)))
        if me is not None and c:
            self.left -= 1
        return o[c]

    def point(self, phase=0):
        i = self.ids.get(threading.get_ident())
        if i is None or i != self.now:
            return
        if phase != 3:
            self.inside.add(i)
        j = self.choose(i)
        if j != i:
            if i in self.inside:
                self.crossed = True
            self.go(j)
            if not self.locks[i].acquire(timeout=60):
                self.error = Stuck()
        if phase == 1:
            self.inside.discard(i)

    def run(self, jobs, choices, preemptions):
        self.jobs[:len(jobs)] = jobs
        self.live = set(range(len(jobs)))
        self.choices, self.trace, self.left = choices, [], preemptions
        self.inside, self.crossed, self.error = set(), False, None
        self.now = None
        self.go(self.choose(None))
        if not self.finished.acquire(timeout=60):
            raise Stuck('no thread goes on')
        self.jobs[:] = [None] * self.n
        self.now = None
        if self.error:
            raise self.error
        return self.trace


def schedules(run):
    """all choice lists, depth first"""
    choices = []
    while True:
        trace = run(choices)
        choices = [c for c, n in trace]
        while choices and choices[-1] + 1 >= trace[len(choices) - 1][1]:
            choices.pop()
        if not choices:
            return
        choices[-1] += 1


# ---- the real thing ----
class World:
    def __init__(self, rec):
        import tempfile
        import pointless as P
        from checks import lib
        self.P, self.lib, self.rec = P, lib, rec
        self.dir = tempfile.mkdtemp(dir=lib.tmpdir())
        self.path = os.path.join(self.dir, 'f')
        self.vals = {k: [k * 4, [1, x, 700], {k: 2.5}, {k, 6}, lib.Bits([x % 2] * 40)] for k, x in (('A', 3), ('B', 4))}
        self.blobs = {k: bytes(P.serialize_to_bytearray(lib.realise(v))) for k, v in self.vals.items()}
        assert len(self.blobs['A']) == len(self.blobs['B'])
        self.content = {lib.canon(lib.norm(v)): k for k, v in self.vals.items()}
        self.content[lib.canon(lib.norm([self.vals['B'], 'x' * 9000]))] = 'B'
        # in files the second is the longer one
        self.plain = [lib.realise(self.vals['B']), 'x' * 9000]
        long = bytes(P.serialize_to_bytearray(self.plain))
        for k, b in (('A', self.blobs['A']), ('B', long)):
            with open(self.path + k, 'wb') as f:
                f.write(b)

    def of(self, v):
        """which content is it"""
        c = self.lib.canon(self.lib.got(v))
        if c not in self.content:
            self.rec.violation('mixed content', self.lib.show(self.lib.got(v)))
        str(v)
        return self.content.get(c, '?')

    def reset(self, start):
        P = self.P
        self.h = self.held = self.it = None
        try:
            os.unlink(self.path)
        except FileNotFoundError:
            pass
        os.link(self.path + 'A', self.path)
        self.src = bytearray(self.blobs['A'])
        if start == 'unopened':
            self.h = P.Pointless.__new__(P.Pointless)
        elif start == 'file':
            self.h = P.Pointless(self.path)
        else:
            self.h = P.Pointless(bytearray(self.blobs['A']))
        if start == 'held':
            self.held = self.h.GetRoot()
        if '/' in start:
            k, n = start.split('/')
            r = P.Pointless(bytearray(self.blobs['A'])).GetRoot()
            self.it = {'vector': lambda: iter(r[1]), 'reversed': lambda: reversed(r), 'keys': lambda: r[2].keys(), 'values': lambda: r[2].values(), 'items': lambda: r[2].items(), 'set': lambda: iter(r[3]), 'bits': lambda: iter(r[4]), 'prim': lambda: iter(P.PointlessPrimVector('u8', sequence=[1, 2, 3]))}[k]()
            size = {'vector': 3, 'reversed': 5, 'set': 2, 'bits': 40, 'prim': 3}.get(k, 1)
            for i in range(size - int(n)):
                next(self.it)

    def call(self, op):
        """-> result as in the model"""
        P = self.P
        if op in OPENS:
            s = self.path + 'B' if op == 'openg' else self.path if op[4:5] == 'f' else self.src
            if s is None:
                return 'none'
            try:
                h = P.Pointless(s, validate=op[-1] != 'v')
            except (ValueError, OSError):
                return 'error'
            del s
            return self.of(h.GetRoot())
        if op in AGAIN:
            h = self.h
            s = self.src if op == 'again' else self.path if op == 'againf' else self.path + 'none'
            if h is None or s is None:
                return 'none'
            try:
                h.__init__(s)
            except (ValueError, OSError):
                return 'error'
            return 'ok'
        if op in ('read', 'hold'):
            h = self.h
            if h is None:
                return 'none'
            try:
                v = h.GetRoot()
            except ValueError:
                return 'error'
            del h
            if op == 'hold':
                r = self.of(v)
                self.held = v
                return r
            return self.of(v)
        if op == 'look':
            v = self.held
            return 'none' if v is None else self.of(v)
        if op == 'let':
            self.held = None
        elif op == 'drop':
            self.h = None
        elif op == 'refs':
            return 'none' if self.h is None else self.h.GetRefs()['n_vector_refs']
        elif op == 'ino':
            for f in (self.h and self.h.GetINode, self.h and self.h.GetFileNo):
                if f:
                    try:
                        f()
                    except ValueError:
                        pass
            return 'any'
        elif op in ('wipe', 'swap'):
            if self.src is None:
                return 'none'
            n = len(self.src)
            b = b'\xff' * n if op == 'wipe' else self.blobs['B']
            try:
                self.src[:] = b
            except BufferError:
                return 'busy'
        elif op == 'resize':
            if self.src is None:
                return 'none'
            try:
                del self.src[9:]
            except BufferError:
                return 'busy'
        elif op == 'forget':
            self.src = None
        elif op == 'replace':
            t = self.path + '.t'
            os.link(self.path + 'B', t)
            os.rename(t, self.path)
            if os.path.exists(t):
                os.unlink(t)
        elif op == 'write':
            P.serialize(self.plain, self.path)
        elif op == 'unlink':
            try:
                os.unlink(self.path)
            except FileNotFoundError:
                pass
        elif op in ('next', 'drain'):
            it = self.it
            if it is None:
                return 'none'
            n = 0
            while True:
                try:
                    x = next(it)
                except StopIteration:
                    return n if op == 'drain' else 'stop'
                if type(x) in (self.P.PointlessVector, ):
                    str(x)
                n += 1
                if op == 'next':
                    return 'item'
        elif op == 'forgetit':
            self.it = None
        return 'ok'

    def finish(self):
        h, v = None, None
        if self.h is not None:
            try:
                h = self.of(self.h.GetRoot())
            except ValueError:
                h = 'error'
        if self.held is not None:
            v = self.of(self.held)
        self.h = self.held = self.it = self.src = None
        return h, v


def run(name, args, rec):
    import ctypes
    import gc
    import sys
    import pointless as P
    lib = ctypes.CDLL(P.__file__)
    live = ctypes.c_long.in_dll(lib, 'mc_live')
    fine = ctypes.c_long.in_dll(lib, 'mc_fine')
    window = ctypes.c_void_p.in_dll(lib, 'mc_window')
    sys.setswitchinterval(1000)
    S = Scheduler(3)
    W = World(rec)
    cb = ctypes.CFUNCTYPE(None, ctypes.c_int)(S.point)
    window.value = ctypes.cast(cb, ctypes.c_void_p).value
    gc.disable()
    W.reset('buffer')
    W.finish()
    base, fds = live.value, len(os.listdir('/proc/self/fd'))
    for i, (start, prog, f, most) in enumerate(programs(args['tier'])):
        if i % args['of'] != args['part'] or not rec.begin((start, prog, 'fine' if f else 'coarse', most)):
            continue
        seen = [0]
        ok = allowed(start, prog, seen)
        rec.count('states', seen[0])
        fine.value = f
        got = set()

        def one(choices):
            W.reset(start)
            results = [[] for t in prog]

            def job(j):
                def do():
                    for n, op in enumerate(prog[j]):
                        if n:
                            S.point(3)
                        results[j].append(W.call(op))
                return do
            try:
                t = S.run([job(j) for j in range(len(prog))], choices, most)
            except Stuck as e:
                rec.violation('threads hang', str([x for x, y in S.trace]))
                os._exit(3)
            h, v = W.finish()
            if S.crossed:
                rec.nontrivial()
            rec.count('traces')
            rec.count('transitions', len(t))
            o = (tuple(tuple(r) for r in results), h, v)
            if o not in ok and o not in got:
                rec.violation('not the outcome of any order', '%r after choices %r; allowed e.g. %r' % (o, [x for x, y in t], sorted(ok, key=repr)[:3]))
            got.add(o)
            nonlocal base, fds
            if live.value != base:
                rec.violation('memory left behind', '%d blocks after choices %r' % (live.value - base, [x for x, y in t]))
                base = live.value
            n = len(os.listdir('/proc/self/fd'))
            if n != fds:
                rec.violation('descriptor left open', str([x for x, y in t]))
                fds = n
            with open('/proc/self/maps') as m:
                if W.path in m.read():
                    rec.violation('mapping left behind', str([x for x, y in t]))
            return t
        schedules(one)
        rec.count('outcomes', len(got))
        rec.count('model outcomes', len(ok))
    window.value = None
    fine.value = 0
