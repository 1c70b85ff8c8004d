"""Worker side: runs one task of a check. Cases are numbered in a fixed order,
so a case is identified by (task, index) and can be replayed alone."""
import importlib
import itertools
import json
import mmap
import os
import struct
import sys
import traceback


class Stop(Exception):
    pass


class Rec:
    def __init__(self, args):
        self.args = args
        p = os.environ.get('MC_PROGRESS')
        self.mm = None
        if p:
            f = open(p, 'r+b')
            self.mm = mmap.mmap(f.fileno(), 4096)
            f.close()
        self.start = int(os.environ.get('MC_START', '0'))
        self.stop = int(os.environ['MC_STOP']) if os.environ.get('MC_STOP') else None
        self.describing = os.environ.get('MC_DESCRIBE') == '1'
        self.n = 0
        self.executed = 0
        self.counts = {}
        self.violations = []
        self.vkeys = set()
        self.samples = []
        self.nt = set()
        self.current = None
        self.complete = True
        self._pack = struct.Struct('<Q').pack_into

    def begin(self, case):
        """True: execute this case now"""
        n = self.n
        self.n = n + 1
        if n < self.start:
            return False
        if self.stop is not None and n >= self.stop:
            raise Stop()
        if self.describing:
            print('MC-CASE', show(case))
            raise Stop()
        if self.mm is not None:
            self._pack(self.mm, 0, n + 1)
        self.current = case
        self.executed += 1
        return True

    def cases(self, it):
        for c in it:
            if self.begin(c):
                yield c

    def nontrivial(self, key=None):
        self.nt.add(hash(key if key is not None else repr(self.current)))
        if len(self.samples) < 3:
            self.samples.append(show(self.current))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def violation(self, what, detail='', case=None):
        key = '%s: %s' % (what, show(case if case is not None else self.current))
        if what in self.vkeys and len(self.violations) >= 6:
            return
        if key not in self.vkeys and len(self.violations) < 40:
            self.vkeys.add(key)
            self.vkeys.add(what)
            self.violations.append(dict(key=key, detail=detail, case=self.n - 1))


def show(x):
    s = x if isinstance(x, str) else repr(x)
    s = s.encode('unicode_escape').decode('ascii')
    return s if len(s) < 900 else s[:900] + '...(%d)' % len(s)


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    spec = json.load(open(sys.argv[1]))
    rec = Rec(spec['args'])
    mod = importlib.import_module('checks.' + spec['pid'].lower())
    fn = mod.run
    for attempt in range(4):
        try:
            fn(spec['name'], spec['args'], rec)
            break
        except Stop:
            break
        except (NameError, ImportError, SyntaxError):
            print('MC-HARNESS-ERROR at case', rec.n - 1, show(rec.current))
            traceback.print_exc()
            sys.stdout.flush()
            os._exit(3)
        except Exception as e:
            # an operation which every case relies on raised
            if rec.describing:
                break
            text = traceback.format_exc()
            rec.n = max(rec.n, 1)
            rec.violation('unexpected %s' % type(e).__name__, text[-1500:])
            rec.start = rec.n
            rec.n = 0
            rec.complete = False
            if attempt == 3:
                break
    rec.counts['cases'] = rec.executed
    rec.counts['nontrivial'] = len(rec.nt)
    out = os.environ.get('MC_OUT')
    if out and not rec.describing:
        with open(out + '.tmp', 'w') as f:
            json.dump(dict(counts=rec.counts, violations=rec.violations, samples=rec.samples, complete=rec.complete), f)
        os.replace(out + '.tmp', out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    sys.modules['mc.worker'] = sys.modules['__main__']
    main()
