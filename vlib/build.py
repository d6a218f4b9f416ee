"""Compiles the Cython extensions of /repo's current working tree outside /repo.

The products go to /verif/.build/<key>/, where the key is the hash of the sources, the flags and the compiler, so
that a change of any .pyx is always picked up; /repo's own (git-ignored) .so files are never used.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

# the registered commands run against /repo; a scratch copy can be named while developing the checks
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')

VARIANTS = {
    # what setup.py builds
    'plain': dict(cflags=['-O2', '-fopenmp'], directives={}),
    # AddressSanitizer and UndefinedBehaviorSanitizer on the same generated code
    'asan': dict(cflags=['-O1', '-g', '-fno-omit-frame-pointer', '-fopenmp', '-fsanitize=address,undefined',
                         '-fno-sanitize-recover=undefined', '-fno-sanitize=float-divide-by-zero'], directives={}),
    # ThreadSanitizer, with libgomp replaced by native/gomp_stub.c
    'tsan': dict(cflags=['-O1', '-g', '-fno-omit-frame-pointer', '-fopenmp', '-fsanitize=thread'], directives={},
                 stub=os.path.join(VERIF, 'native', 'gomp_stub.c')),
    # Cython's own index checks, which the shipped build turns off: sees overflows inside one allocation as well
    'bounds': dict(cflags=['-O1', '-fopenmp'], directives={'boundscheck': True, 'initializedcheck': True}),
}
BASE_DIRECTIVES = {'language_level': 3, 'boundscheck': False, 'wraparound': False, 'cdivision': True}


class BuildError(Exception):
    pass


def find_pyx():
    out = {}
    for root, dirs, files in os.walk(os.path.join(REPO, 'copulae')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.pyx'):
                p = os.path.join(root, f)
                out[os.path.relpath(p, REPO)[:-4].replace(os.sep, '.')] = p
    return out


def _shared():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, 'copulae')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.pxd', '.pxi', '.h')):
                h.update(open(os.path.join(root, f), 'rb').read())
    return h.hexdigest()


def _one(name, path, variant, shared):
    import numpy
    import Cython
    v = VARIANTS[variant]
    directives = {**BASE_DIRECTIVES, **v['directives']}
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    src = open(path, 'rb').read()
    stub = v.get('stub')
    key = hashlib.sha256(repr((open(stub).read() if stub else '', name, hashlib.sha256(src).hexdigest(), shared, sorted(directives.items()), v['cflags'],
                               Cython.__version__, numpy.__version__, sys.version)).encode()).hexdigest()[:24]
    dest = os.path.join(BUILD, key)
    so = os.path.join(dest, name.rsplit('.', 1)[-1] + suffix)
    if os.path.exists(so):
        return name, so
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD, prefix='tmp-')
    try:
        c = os.path.join(tmp, name.rsplit('.', 1)[-1] + '.c')
        args = [sys.executable, '-m', 'cython', '-3', '-o', c, '--module-name', name]
        for k, val in directives.items():
            args += ['-X', f'{k}={val}']
        r = subprocess.run(args + [path], cwd=REPO, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f'cython failed for {path}\n{r.stdout}\n{r.stderr}')
        out = os.path.join(tmp, os.path.basename(so))
        cmd = ['gcc', '-shared', '-fPIC', '-w', *v['cflags'], '-DNPY_NO_DEPRECATED_API=1', '-DNPY_1_7_API_VERSION=1',
               '-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include(), c, '-o', out, '-lm']
        if stub:
            o = c[:-2] + '.o'
            cc = [x for x in cmd[:cmd.index(c)] if x != '-shared']
            r = subprocess.run([*cc, '-c', c, '-o', o], capture_output=True, text=True)
            if r.returncode == 0:
                cmd = ['gcc', '-shared', '-fPIC', '-w', *[x for x in v['cflags'] if x != '-fopenmp'], o, stub, '-o', out,
                       '-lm', '-lpthread']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f'gcc failed for {path}\n{r.stdout}\n{r.stderr}')
        try:
            os.rename(tmp, dest)
        except OSError:  # another process was faster
            if not os.path.exists(so):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return name, so


def build(variant='plain'):
    pyx = find_pyx()
    shared = _shared()
    with ThreadPoolExecutor(8) as ex:
        return dict(ex.map(lambda kv: _one(kv[0], kv[1], variant, shared), pyx.items()))


if __name__ == '__main__':
    for variant in sys.argv[1:] or ['plain']:
        for k, v in build(variant).items():
            print(variant, k, v)
