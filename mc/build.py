"""Builds the code under test from /repo's current working tree into /verif/build/<hash>/.

Variants
  plain : the Python extension as shipped (-O2 -DNDEBUG)
  asan  : the extension with AddressSanitizer, plus malloc and GIL hooks (--wrap)
  C programs: /verif/c/<name>.c linked against all library sources, with ASan
Nothing is written under /repo.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('MC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
PY = '/opt/vp/venv/bin/python'

JUDY_COPT = '-DJU_64BIT -O0 -fPIC -fno-strict-aliasing -fno-aggressive-loop-optimizations'


class BuildError(Exception):
    pass


def run(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('%r failed (%d):\n%s' % (cmd, r.returncode, r.stdout.decode('utf-8', 'replace')[-4000:]))
    return r.stdout.decode('utf-8', 'replace')


def source_files():
    out = []
    for root in ('src', 'python', 'include'):
        for d, dn, fn in os.walk(os.path.join(REPO, root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.c', '.h', '.inc')):
                    out.append(os.path.join(d, f))
    for f in ('pointless_ext.c', 'pointless_ext.h', 'setup.py'):
        out.append(os.path.join(REPO, f))
    return out


def judy_files():
    out = []
    base = os.path.join(REPO, 'judy-1.0.5', 'src')
    for d, dn, fn in os.walk(base):
        dn.sort()
        for f in sorted(fn):
            p = os.path.join(d, f)
            # generated tables and link farm entries are not inputs
            if os.path.islink(p) or re.search(r'Judy[1L](Tables\.c|TablesGen)$', p):
                continue
            if f.endswith(('.c', '.h')) or f == 'sh_build':
                out.append(p)
    return out


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        with open(f, 'rb') as fd:
            h.update(fd.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def ext_sources():
    s = open(os.path.join(REPO, 'setup.py')).read()
    src = re.findall(r"'((?:python/|src/)?[A-Za-z0-9_]+\.c)'", s)
    src = [x for x in src if os.path.exists(os.path.join(REPO, x))]
    if not src:
        src = ['pointless_ext.c'] + sorted(os.path.relpath(p, REPO) for d in ('python', 'src') for p in glob.glob(os.path.join(REPO, d, '*.c')))
    return src


def lib_sources():
    return sorted('src/' + os.path.basename(p) for p in glob.glob(os.path.join(REPO, 'src', '*.c')))


class Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.f = open(path, 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_judy():
    key = 'judy-' + digest(judy_files(), JUDY_COPT)
    out = os.path.join(BUILD, key)
    lib = os.path.join(out, 'libJudy.a')
    if os.path.exists(lib):
        return lib
    with Lock(os.path.join(BUILD, key + '.lock')):
        if os.path.exists(lib):
            return lib
        tmp = os.path.join(BUILD, key + '.tmp')
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shutil.copytree(os.path.join(REPO, 'judy-1.0.5', 'src'), os.path.join(tmp, 'src'), symlinks=False,
                        ignore_dangling_symlinks=True, ignore=shutil.ignore_patterns('*.o', '*.a', 'Judy1Tables.c', 'JudyLTables.c', 'Judy1TablesGen', 'JudyLTablesGen'))
        for p in ('libJudy.a',):
            q = os.path.join(tmp, 'src', p)
            if os.path.exists(q):
                os.unlink(q)
        env = dict(os.environ, CC='gcc', COPT=JUDY_COPT)
        run(['sh', '-e', './sh_build'], cwd=os.path.join(tmp, 'src'), env=env)
        os.makedirs(out, exist_ok=True)
        os.replace(os.path.join(tmp, 'src', 'libJudy.a'), lib)
        shutil.rmtree(tmp, ignore_errors=True)
    return lib


WARN = ['-w']
BASE = ['-std=c99', '-D_GNU_SOURCE', '-fPIC', '-g']

VARIANTS = {
    # name: (cflags, ldflags, extra harness sources)
    'plain': (['-O2', '-DNDEBUG'], [], []),
    'asan': (['-O1', '-DNDEBUG', '-fsanitize=address', '-fno-omit-frame-pointer'],
             ['-fsanitize=address', '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free',
              '-Wl,--wrap=PyEval_SaveThread,--wrap=PyEval_RestoreThread',
              '-Wl,--wrap=fopen,--wrap=fstat,--wrap=mmap,--wrap=munmap,--wrap=fclose'], ['hooks.c']),
}


def includes():
    return ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'judy-1.0.5', 'src'), '-I' + REPO]


def pyinc():
    out = subprocess.run([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"]);print(sysconfig.get_config_var("EXT_SUFFIX"))'],
                         stdout=subprocess.PIPE, check=True).stdout.decode().split('\n')
    return out[0], out[1]


def compile_many(jobs):
    """jobs: list of (src, obj, flags)"""
    def one(j):
        src, obj, flags = j
        run(['gcc', '-c', src, '-o', obj] + flags)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()


def build_ext(variant):
    """returns the directory to put on PYTHONPATH"""
    cflags, ldflags, extra = VARIANTS[variant]
    hsrc = [os.path.join(VERIF, 'c', e) for e in extra]
    key = variant + '-' + digest(source_files() + judy_files() + hsrc, repr((cflags, ldflags)))
    out = os.path.join(BUILD, key)
    if os.path.exists(os.path.join(out, 'OK')):
        return out
    with Lock(os.path.join(BUILD, key + '.lock')):
        if os.path.exists(os.path.join(out, 'OK')):
            return out
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.join(out, 'o'))
        inc, suffix = pyinc()
        ex = cf.ThreadPoolExecutor(1)
        judy = ex.submit(build_judy)
        flags = BASE + WARN + cflags + includes() + ['-I' + inc]
        jobs = []
        objs = []
        for s in ext_sources():
            o = os.path.join(out, 'o', s.replace('/', '_')[:-2] + '.o')
            objs.append(o)
            jobs.append((os.path.join(REPO, s), o, flags))
        for s in hsrc:
            o = os.path.join(out, 'o', 'harness_' + os.path.basename(s)[:-2] + '.o')
            objs.append(o)
            # the hooks themselves are not instrumented
            jobs.append((s, o, BASE + WARN + ['-O1', '-I' + inc]))
        compile_many(jobs)
        lib = judy.result()
        run(['gcc', '-shared', '-o', os.path.join(out, 'pointless' + suffix)] + objs + [lib, '-lm'] + ldflags)
        shutil.rmtree(os.path.join(out, 'o'))
        open(os.path.join(out, 'OK'), 'w').close()
    return out


CVARIANTS = {
    'asan': (['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DNDEBUG'], ['-fsanitize=address']),
    'fault': (['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DNDEBUG'],
              ['-fsanitize=address', '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free']),
    'fast': (['-O2', '-DNDEBUG'], []),
    # what is written out of one large region is left as a hole of the file
    'sparse': (['-O2', '-DNDEBUG'], ['-Wl,--wrap=fwrite,--wrap=write']),
}


def build_c(name, variant='asan'):
    """builds /verif/c/<name>.c with all library sources; returns the executable"""
    cflags, ldflags = CVARIANTS[variant]
    hsrc = [os.path.join(VERIF, 'c', name + '.c')] + [os.path.join(VERIF, 'c', h) for h in ('mc.h', 'val.h')]
    libkey = 'clib-%s-%s' % (variant, digest(source_files() + judy_files(), repr(cflags)))
    libdir = os.path.join(BUILD, libkey)
    ex = cf.ThreadPoolExecutor(1)
    judy = ex.submit(build_judy)
    flags = ['-std=gnu11', '-D_GNU_SOURCE', '-g'] + WARN + cflags + includes() + ['-I' + os.path.join(VERIF, 'c')]
    with Lock(os.path.join(BUILD, libkey + '.lock')):
        if not os.path.exists(os.path.join(libdir, 'OK')):
            shutil.rmtree(libdir, ignore_errors=True)
            os.makedirs(libdir)
            jobs = [(os.path.join(REPO, s), os.path.join(libdir, os.path.basename(s)[:-2] + '.o'), flags) for s in lib_sources()]
            compile_many(jobs)
            open(os.path.join(libdir, 'OK'), 'w').close()
    key = 'c-%s-%s' % (name, digest(hsrc, libkey + repr((cflags, ldflags))))
    exe = os.path.join(BUILD, key, name)
    if os.path.exists(exe):
        return exe
    with Lock(os.path.join(BUILD, key + '.lock')):
        if os.path.exists(exe):
            return exe
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        lib = judy.result()
        run(['gcc', hsrc[0]] + flags + sorted(glob.glob(os.path.join(libdir, '*.o'))) + [lib, '-o', exe + '.tmp', '-lm', '-lpthread'] + ldflags)
        os.replace(exe + '.tmp', exe)
    return exe


def build_so(name):
    """a plain helper library, not linked to the code under test"""
    src = os.path.join(VERIF, 'c', name + '.c')
    key = 'so-%s-%s' % (name, digest([src]))
    out = os.path.join(BUILD, key, name + '.so')
    if os.path.exists(out):
        return out
    with Lock(os.path.join(BUILD, key + '.lock')):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        run(['gcc', '-O1', '-g', '-w', '-shared', '-fPIC', '-D_GNU_SOURCE', '-o', out + '.tmp', src, '-ldl', '-lpthread'])
        os.replace(out + '.tmp', out)
    return out


def libasan():
    return subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, check=True).stdout.decode().strip()


def prune():
    """drop builds of other trees so that the build directory stays small"""
    if not os.path.isdir(BUILD):
        return
    ent = []
    for e in os.listdir(BUILD):
        p = os.path.join(BUILD, e)
        if os.path.isdir(p) and not e.endswith('.tmp'):
            ent.append((os.path.getmtime(p), p))
    ent.sort(reverse=True)
    for _, p in ent[40:]:
        shutil.rmtree(p, ignore_errors=True)


def main():
    prune()
    build_judy()
    for v in sys.argv[1:] or ['plain', 'asan']:
        print(build_ext(v))


if __name__ == '__main__':
    main()
