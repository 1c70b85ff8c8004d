"""Driver side: builds, runs the tasks of a check in worker processes, turns
crashes and hangs into violations, applies the known-findings file, writes
evidence."""
import importlib
import json
import mmap
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

from mc import build

VERIF = build.VERIF
PROGRESS = 1 << 12
NPROC = int(os.environ.get('MC_JOBS', os.cpu_count() or 8))


class Job:
    def __init__(self, idx, name, args):
        self.idx = idx
        self.name = name
        self.args = args


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e['property'] == pid and e.get('status') == 'known':
                out.append(e)
    return out


class Runner:
    def __init__(self, pid, tier, only=None):
        self.pid = pid
        self.mod = importlib.import_module('checks.' + pid.lower())
        self.tier = tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
        self.tmp = tempfile.mkdtemp(prefix='mc-%s-' % pid, dir=base)
        self.results = []
        self.viol = []
        self.only = only
        self.env_cache = {}
        self.deadline = None

    # -- commands ------------------------------------------------------------
    def prepare(self):
        """build everything the tasks need, before they run in parallel"""
        need = getattr(self.mod, 'NEEDS', ['plain'])
        self.paths = {}
        for n in need:
            if n in build.VARIANTS:
                self.paths[n] = build.build_ext(n)
            elif n.startswith('c:'):
                _, name, variant = n.split(':')
                self.paths[n] = build.build_c(name, variant)
            elif n.startswith('so:'):
                self.paths[n] = build.build_so(n[3:])
        self.libasan = build.libasan()

    def env(self, variant):
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'VERIF_SEED')}
        env.update(LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', VERIF_TIER=self.tier, MC_TMP=self.tmp,
                   PYTHONHASHSEED='0')
        env['MC_PATHS'] = json.dumps(self.paths)
        asan = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:exitcode=86:handle_segv=1:malloc_context_size=12:max_allocation_size_mb=8192'
        env['ASAN_OPTIONS'] = asan
        if variant in build.VARIANTS:
            env['PYTHONPATH'] = self.paths[variant] + ':' + VERIF
            if variant == 'asan':
                env['LD_PRELOAD'] = self.libasan
                env['PYTHONMALLOC'] = 'malloc'
        return env

    def command(self, job, start=None, stop=None):
        """start/stop: execute only the cases with start <= index < stop"""
        variant = job.args.get('variant', 'plain')
        env = self.env(variant)
        if start is not None:
            env['MC_START'] = str(start)
        if stop is not None:
            env['MC_STOP'] = str(stop)
        spec = os.path.join(self.tmp, 'spec-%d.json' % job.idx)
        with open(spec, 'w') as f:
            json.dump(dict(pid=self.pid, name=job.name, args=job.args, tier=self.tier), f)
        if variant.startswith('c:'):
            cmd = [self.paths[variant], job.name] + [str(x) for x in job.args.get('argv', [])]
        else:
            cmd = [build.PY, os.path.join(VERIF, 'mc', 'worker.py'), spec]
        return cmd, env

    def spawn(self, job, start=None, stop=None, tag=''):
        cmd, env = self.command(job, start, stop)
        base = os.path.join(self.tmp, 'job-%d%s' % (job.idx, tag))
        prog = base + '.prog'
        with open(prog, 'wb') as f:
            f.write(b'\0' * PROGRESS)
        env['MC_PROGRESS'] = prog
        env['MC_OUT'] = base + '.out'
        out = open(base + '.log', 'wb')
        mem = job.args.get('mem_gb', 6)

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if job.args.get('variant', 'plain') == 'plain':
                resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
            # 8 MB stacks, as shipped
            try:
                resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
            except (ValueError, OSError):
                pass
        p = subprocess.Popen(cmd, env=env, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, preexec_fn=pre, cwd=self.tmp)
        out.close()
        f = open(prog, 'r+b')
        mm = mmap.mmap(f.fileno(), PROGRESS)
        f.close()
        return dict(p=p, mm=mm, base=base, job=job, last=-1, cpu=0.0, wall=time.time(), start=time.time())

    @staticmethod
    def counter(h):
        return struct.unpack_from('<Q', h['mm'], 0)[0]

    @staticmethod
    def cpu(pid):
        try:
            s = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
            return (int(s[11]) + int(s[12])) / os.sysconf('SC_CLK_TCK')
        except (OSError, IndexError):
            return 0.0

    @staticmethod
    def rss_gb(pid):
        try:
            return int(open('/proc/%d/statm' % pid).read().split()[1]) * 4096 / (1 << 30)
        except (OSError, IndexError):
            return 0.0

    def stuck(self, h):
        """no new case for a long time: cpu_limit of its own cpu time, or wall_limit of waiting"""
        c = self.counter(h)
        now = time.time()
        cpu = self.cpu(h['p'].pid)
        if self.rss_gb(h['p'].pid) > h['job'].args.get('rss_gb', 6):
            h['why'] = 'memory'
            return True
        if c != h['last']:
            h['last'] = c
            h['cpu'] = cpu
            h['wall'] = now
            return False
        lim = h['job'].args.get('case_cpu_s', 20)
        if cpu - h['cpu'] > lim:
            h['why'] = 'cpu'
            return True
        if now - h['wall'] > max(6 * lim, 120):
            h['why'] = 'wall'
            return True
        return False

    def kill(self, h):
        try:
            os.killpg(h['p'].pid, signal.SIGKILL)
        except OSError:
            pass
        h['p'].wait()

    def reap(self, h):
        """-> (status, result) status: ok / crash / hang"""
        p = h['p']
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        rc = p.returncode
        res = None
        if os.path.exists(h['base'] + '.out'):
            try:
                res = json.load(open(h['base'] + '.out'))
            except ValueError:
                res = None
        log = open(h['base'] + '.log', 'rb').read().decode('utf-8', 'replace')
        if rc == 0 and res is not None:
            return 'ok', res, log
        return 'crash', dict(rc=rc, log=log, case=self.counter(h)), log

    def run_all(self, jobs, nproc):
        pending = list(jobs)
        live = []
        while pending or live:
            while pending and len(live) < nproc:
                live.append(self.spawn(pending.pop(0)))
            time.sleep(0.02)
            for h in list(live):
                if h['p'].poll() is not None:
                    live.remove(h)
                    st, res, log = self.reap(h)
                    if st == 'ok':
                        self.accept(h['job'], res)
                    else:
                        self.failed(h['job'], res)
                elif self.stuck(h):
                    live.remove(h)
                    self.kill(h)
                    self.hung(h['job'], self.counter(h), h.get('why'))

    def accept(self, job, res):
        self.results.append(res)
        for v in res.get('violations', []):
            v['task'] = job.name
            v['args'] = job.args
            self.viol.append(v)

    # -- crashes and hangs ---------------------------------------------------
    def rerun(self, job, start, stop, limit=None):
        a = dict(job.args)
        if limit:
            a['case_cpu_s'] = limit
        j = Job(100000 + job.idx, job.name, a)
        h = self.spawn(j, start, stop, '-re%s' % stop)
        while h['p'].poll() is None:
            time.sleep(0.02)
            if self.stuck(h):
                self.kill(h)
                return 'hang', dict(case=self.counter(h), why=h.get('why'), log='')
        st, res, log = self.reap(h)
        return st, res

    def describe(self, job, case):
        j = Job(200000 + job.idx, job.name, dict(job.args, describe=True))
        cmd, env = self.command(j, case, case + 1)
        env['MC_DESCRIBE'] = '1'
        env['MC_OUT'] = os.path.join(self.tmp, 'descr.out')
        env['MC_PROGRESS'] = ''
        try:
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, cwd=self.tmp)
        except subprocess.TimeoutExpired:
            return '(case %d)' % case
        m = re.findall(r'^MC-CASE (.*)$', r.stdout.decode('utf-8', 'replace'), re.M)
        return m[-1] if m else '(case %d)' % case

    @staticmethod
    def crash_kind(log, rc):
        m = re.search(r'AddressSanitizer: ([A-Za-z0-9-]+)', log)
        kind = m.group(1) if m else ('signal %d' % -rc if rc < 0 else 'exit %d' % rc)
        fr = []
        for f, loc in re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', log):
            if '/repo' in loc or build.REPO in loc:
                fr.append(f)
            if len(fr) == 2:
                break
        return kind, fr

    def failed(self, job, res):
        case = res['case']
        if res['rc'] == 3 or 'MC-HARNESS-ERROR' in res['log']:
            raise SystemExit('harness error in task %s:\n%s' % (job.name, res['log'][-6000:]))
        if case == 0 and 'AddressSanitizer' not in res['log'] and res['rc'] > 0:
            raise SystemExit('worker failed before its first case, task %s:\n%s' % (job.name, res['log'][-6000:]))
        st, r2 = self.rerun(job, case - 1, case)
        alone = st != 'ok' or bool(r2.get('violations'))
        kind, fr = self.crash_kind(res['log'], res['rc'])
        if not alone:
            # depends on what ran before in the same process: confirm by repeating the prefix
            st, r2 = self.rerun(job, 0, case)
            if st == 'ok' and 'AddressSanitizer' not in res['log']:
                # not reproducible and no memory-checker report: environment
                st, r3 = self.rerun(job, 0, None)
                if st == 'ok':
                    self.accept(job, r3)
                    return
        descr = self.describe(job, case - 1)
        self.viol.append(dict(task=job.name, args=job.args, case=case - 1, alone=alone,
                              key='crash %s in %s: %s' % (kind, '<'.join(fr), descr), detail='process died: %s\n%s' % (kind, res['log'][-5000:])))
        self.cont(job, case)

    def hung(self, job, case, why):
        descr = self.describe(job, case - 1)
        lim = max(3 * job.args.get('case_cpu_s', 20), 45)
        st, r = self.rerun(job, case - 1, case, limit=lim)
        if st == 'ok' and not r.get('violations'):
            st, r = self.rerun(job, 0, None, limit=lim)
            if st == 'ok':
                self.accept(job, r)
                return
        self.viol.append(dict(task=job.name, args=job.args, case=case - 1, alone=True,
                              key='does not terminate (%s): %s' % (why, descr), detail='no progress'))
        self.cont(job, case)

    def cont(self, job, case):
        """go on after a crashing case, a few times"""
        n = job.args.get('_cont', 0)
        if n >= 3:
            return
        j = Job(job.idx, job.name, dict(job.args, _cont=n + 1))
        h = self.spawn(j, case, None, '-c%d' % n)
        while h['p'].poll() is None:
            time.sleep(0.05)
            if self.stuck(h):
                self.kill(h)
                return
        st, res, log = self.reap(h)
        if st == 'ok':
            self.accept(j, res)
        elif res['case'] > case:
            self.failed(j, res)

    # -- main ----------------------------------------------------------------
    def go(self):
        try:
            return self._go()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def _go(self):
        self.prepare()
        jobs = [Job(i, n, a) for i, (n, a) in enumerate(self.mod.tasks(self.tier))]
        if self.only:
            jobs = [j for j in jobs if re.search(self.only, j.name)]
        self.run_all(jobs, getattr(self.mod, 'NPROC', NPROC))
        return self.report(len(jobs))

    def report(self, njobs):
        known = load_known(self.pid)
        seen = set()
        fresh = []
        matched = {}
        for v in self.viol:
            k = [e for e in known if re.fullmatch(e['match'], v['key'], re.S)]
            if k:
                matched.setdefault(k[0]['id'], (k[0], v))
            elif v['key'] not in seen:
                seen.add(v['key'])
                fresh.append(v)
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + '-'):
                os.unlink(os.path.join(rdir, f))
        for e in known:
            if e['id'] in matched:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, e['what']))
        for n, v in enumerate(fresh[:20]):
            path = os.path.join('evidence', 'replay', '%s-%d.json' % (self.pid, n))
            with open(os.path.join(VERIF, path), 'w') as f:
                json.dump(dict(property=self.pid, tier=self.tier, task=v['task'], args=v['args'], case=v.get('case'),
                               alone=v.get('alone', True), key=v['key'], detail=v.get('detail', ''),
                               how='python3 run.py replay ' + path), f, indent=1)
            print('  ' + v['key'][:600])
            print('    ' + v.get('detail', '')[:1200].replace('\n', '\n    '))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        if len(fresh) > 20:
            print('... and %d more' % (len(fresh) - 20))
        self.evidence(fresh, matched, njobs)
        if fresh:
            return 1
        print('OK property=%s %s' % (self.pid, self.summary))
        return 0

    def evidence(self, fresh, matched, njobs):
        tot = {}
        samples = []
        for r in self.results:
            for k, n in r['counts'].items():
                tot[k] = tot.get(k, 0) + n
            if len(samples) < 12:
                samples += r['samples'][:1]
        cov = {}
        lvl = self.mod.LEVEL
        cov['evaluations'] = tot.get('cases', 0)
        cov['distinct_nontrivial'] = tot.get('nontrivial', 0)
        cov['rule'] = self.mod.RULE
        if lvl == 'model_checking':
            cov['states'] = tot.get('states', 0)
            cov['transitions'] = tot.get('transitions', 0)
            cov['traces_validated_against_impl'] = tot.get('traces', 0)
        cov['samples'] = samples or ['(none)']
        cov['exhaustive'] = not fresh and all(r.get('complete', True) for r in self.results)
        cov['tasks'] = njobs
        cov['other_counts'] = {k: v for k, v in sorted(tot.items()) if k not in ('cases', 'nontrivial', 'states', 'transitions', 'traces')}
        cov['bounds'] = self.mod.BOUNDS[self.tier] if isinstance(self.mod.BOUNDS, dict) else self.mod.BOUNDS
        cov['known_findings'] = sorted(matched)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=lvl, coverage=cov,
                  assumptions=getattr(self.mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
        self.summary = 'cases=%d distinct-nontrivial=%d tasks=%d wall=%.1fs %s' % (
            cov['evaluations'], cov['distinct_nontrivial'], njobs, ev['wall_s'],
            ' '.join('%s=%d' % (k, v) for k, v in sorted(tot.items()) if k not in ('cases', 'nontrivial')))


def replay(path):
    d = json.load(open(path))
    r = Runner(d['property'], d['tier'])
    try:
        r.prepare()
        j = Job(0, d['task'], d['args'])
        c = d.get('case')
        st, res = r.rerun(j, c if d['alone'] else 0, c + 1)
        if st != 'ok':
            print(res.get('log', '')[-6000:])
            print(d['key'])
            print('VIOLATION property=%s replay=%s' % (d['property'], path))
            return 1
        if res['violations']:
            for v in res['violations']:
                print(v['key'])
                print(v.get('detail', ''))
            print('VIOLATION property=%s replay=%s' % (d['property'], path))
            return 1
        print('replay: the case passes')
        return 0
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)
