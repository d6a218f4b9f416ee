"""One case = one call of a public function backed by native code, run in a process of its own kind: the shipped build
(with uninitialised memory filled in three different ways), the AddressSanitizer + UndefinedBehaviorSanitizer build, the
build with Cython's index checks, and the ThreadSanitizer build. A report of any of them, a fatal signal or an answer that
depends on the build, on the memory or on the number of threads is a violation. Non-trivial = distinct (call, argument
shape, build)."""
import os
import pickle
import resource
import signal
import subprocess
import sys
import tempfile

import numpy as np
import pandas as pd

from vlib import build
from vlib.core import scenario

P = 'C18'
ASSUMPTIONS = ['the sanitizers see the four Cython extensions, not numpy and scipy',
               'ThreadSanitizer watches the parallel regions through a pthread stand-in for libgomp (native/gomp_stub.c)',
               'reads of uninitialised memory show as answers that change with the filling of fresh memory']

TIES = ('average', 'min', 'max', 'dense', 'ordinal')


def _lib(name):
    return subprocess.run(['gcc', f'-print-file-name={name}'], capture_output=True, text=True).stdout.strip()


KINDS = {
    'plain': ('plain', {}),
    'fill A5': ('plain', {'MALLOC_PERTURB_': '165', 'PYTHONMALLOC': 'malloc'}),
    'fill 3F': ('plain', {'MALLOC_PERTURB_': '192', 'PYTHONMALLOC': 'malloc'}),
    'one thread': ('plain', {'OMP_NUM_THREADS': '1'}),
    'many threads': ('plain', {'OMP_NUM_THREADS': '29', 'OMP_DYNAMIC': 'false'}),
    'leaks': ('plain', {'PYTHONMALLOC': 'malloc', 'OMP_NUM_THREADS': '2'}),
    'asan': ('asan', {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:'
                                      'detect_stack_use_after_return=1:max_malloc_fill_size=1048576:malloc_fill_byte=165',
                      'UBSAN_OPTIONS': 'print_stacktrace=1:abort_on_error=1'}),
    'bounds': ('bounds', {}),
    'tsan': ('tsan', {'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=0:exitcode=66:report_signal_unsafe=0:'
                                      'history_size=4'}),
}
PRELOAD = {'asan': ('libasan.so', 'libubsan.so'), 'tsan': ('libtsan.so',)}


def start(m, name, kind, work, shard):
    variant, env = KINDS[kind]
    path = os.path.join(work, kind.replace(' ', '_') + '.json')
    e = {**os.environ, 'VERIF_VARIANT': variant, 'OPENBLAS_NUM_THREADS': '1', **env}
    e.pop('LD_PRELOAD', None)
    if variant in PRELOAD:
        e['LD_PRELOAD'] = ':'.join(_lib(x) for x in PRELOAD[variant])
    log = open(path + '.log', 'wb')
    p = subprocess.Popen([sys.executable, '-B', '-m', 'vlib.native_worker', name, str(m.seed), m.tier, str(shard), path],
                         cwd=build.VERIF, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=log)
    return kind, path, p


def finish(m, name, kind, path, p, limit):
    """returns the record of the run, or None; complains about reports"""
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise OSError(f'the worker {name} / {kind} did not end in {limit} s')
    text = open(path + '.log', errors='replace').read()
    now = open(path + '.now', errors='replace').read().strip() if os.path.exists(path + '.now') else ''
    bad = next((w for w in ('ERROR: AddressSanitizer', 'runtime error:', 'WARNING: ThreadSanitizer',
                            'ERROR: ThreadSanitizer: SEGV', 'corrupted', 'free(): invalid', 'malloc(): ')
                if w in text), None)
    if bad or (rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)):
        i = text.find(bad) if bad else max(0, len(text) - 1500)
        m.oracle += 1
        m.fail('the native code was caught misusing memory or threads', build=kind, workload=name, call=now,
               report=text[max(0, i - 100):i + 1500], status=rc)
        return None
    if not os.path.exists(path):
        raise OSError(f'the worker {name} / {kind} ended with {rc} and no record: {text[-1500:]}')
    return pickle.load(open(path, 'rb'))


def alike(a, b, strict):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(alike(x, y, strict) for x, y in zip(a, b))
    if isinstance(a, str):
        return a == b
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    if a.dtype.kind not in 'fc' or strict:
        return a.dtype.kind == 'O' and a.tolist() == b.tolist() or a.dtype.kind != 'O' and np.array_equal(
            a, b, equal_nan=a.dtype.kind in 'fc')
    # another compilation may round differently (pow, sincos)
    parts = [(a, b)] if a.dtype.kind == 'f' else [(a.real, b.real), (a.imag, b.imag)]
    return all(np.allclose(x, y, rtol=1e-9, atol=1e-13, equal_nan=True) for x, y in parts)


def compare(m, name, kinds, limit=700):
    work = tempfile.mkdtemp(prefix='verif-c18-')
    try:
        running = [start(m, name, k, work, m.shard) for k in kinds]
        recs = {}
        try:
            for k, path, p in running:
                recs[k] = finish(m, name, k, path, p, limit)
        finally:
            for _, _, p in running:
                if p.poll() is None:
                    p.kill()
                    p.wait()
        base = recs.get('plain') if 'plain' in kinds else recs.get(kinds[0])
        for k, r in recs.items():
            if r is None:
                continue
            for c, n in r['counts'].items():
                m.count(f'{k}: {c}', n)
            for what in r['problems'][:5]:
                m.fail('the native code leaks memory or fails on large input', build=k, problem=what)
            m.ok(not r['ignored'], 'an exception was lost inside the native code', build=k, errors=r['ignored'])
            if base is None:
                continue
            m.ok(len(base['out']) == len(r['out']), 'the run took another course in this build', build=k,
                 calls=[len(base['out']), len(r['out'])])
            for (key, d, err), (key1, d1, err1) in zip(base['out'], r['out']):
                m.case(name, k, key)
                m.ok(key == key1 and alike(d, d1, KINDS[k][0] == 'plain'), 'the answer depends on the build, on fresh memory or on the threads',
                     build=k, call=key, base=[d, err], got=[d1, err1])
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------------------------------------------------- workloads
EDGE = np.array([0., -0., np.nan, np.inf, -np.inf, 5e-324, 2.3e-308, 1e-300, 1e-20, 1e-8, 2.98e-8, 4.2e-8, 1e-4, .01, .24,
                 .25, .26, .5, .99, 1 - 1e-12, 1., 1 + 1e-12, 1.01, 1.99, 2., 2.01, np.pi / 2, np.pi, 3.99, 4., 4.01,
                 2 * np.pi, 20, 35.350, 35.3503, 35.36, 100, 708.39, 708.4, 1e4, 1e8, 1e15, 2.9e14, 1e17, 1e300, 1.7e308])


def values(rng, n):
    k = rng.integers(5)
    if k == 0:
        return rng.choice(EDGE, n) * rng.choice([1, -1], n)
    if k == 1:
        return rng.normal(size=n) * 10. ** rng.integers(-6, 7)
    if k == 2:
        return rng.uniform(0, 10, n)
    if k == 3:
        return rng.uniform(.9, 1.1, n)
    return np.where(rng.random(n) < .2, rng.choice(EDGE, n), rng.exponential(5, n))


def layout(rng, x):
    """x in some memory layout, dtype or container"""
    k = int(rng.integers(9))
    n = x.size
    if k == 0:
        return k, x
    if k == 1:
        y = np.full(2 * n + 1, np.nan)
        y[1::2] = x
        return k, y[1::2]
    if k == 2:
        return k, x[::-1].copy()[::-1]
    if k == 3 and n % 2 == 0:
        return k, np.asfortranarray(x.reshape(2, -1))
    if k == 4 and n % 2 == 0:
        return k, x.reshape(2, -1).T
    if k == 5:
        return k, x.tolist()
    if k == 6:
        y = x.copy()
        y.flags.writeable = False
        return k, y
    if k == 7:
        with np.errstate(all='ignore'):
            return k, x.astype(np.float32)
    if k == 8:
        return k, pd.Series(x, index=np.arange(n)[::-1])
    return k, x


SIZES = (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 64, 100, 257, 1000)


def wl_special(r):
    from copulae.special.clausen import clausen
    from copulae.special.debye import debye_1, debye_2
    from copulae.special.dilog import dilog, dilog_complex
    rng = r.rng
    for f in (clausen, debye_1, debye_2, dilog):
        for t in (True, False):
            r.run((f.__name__, 'edges', t), f, EDGE, t)
            r.run((f.__name__, '-edges', t), f, -EDGE, t)
            for e in EDGE:
                r.run((f.__name__, float(e), t), f, e, t)
        for bad in ('x', None, [[1, 2], [3]], object(), {}, np.array(['1.5'])):
            r.run((f.__name__, 'bad', type(bad).__name__), f, bad)
    a, b = np.meshgrid(EDGE, np.r_[0., 1e-9, .5, np.pi / 2, 2, np.pi - 1e-9, np.pi, 4, 6, 7, -1, -7, np.nan, np.inf])
    for t in (True, False):
        r.run(('dilog_complex edges', t), dilog_complex, a, b, t)
    r.run(('dilog_complex shapes',), dilog_complex, np.ones(3), np.ones(4))
    r.run(('dilog_complex shapes2',), dilog_complex, np.ones((2, 3)), np.ones((3, 2)))
    r.run(('dilog_complex shapes3',), dilog_complex, np.ones(1), 1.)
    r.run(('dilog_complex shapes4',), dilog_complex, np.ones(7), .5)
    for i in range(1500 if r.thorough else 250):
        n = int(rng.choice(SIZES))
        k, x = layout(rng, values(rng, n))
        t = bool(rng.integers(2))
        f = (clausen, debye_1, debye_2, dilog)[rng.integers(4)]
        r.run((i, f.__name__, n, k, t), f, x, t)
        r.count('elements through native code', n)
        k, th = layout(rng, rng.uniform(-7, 7, n))
        with np.errstate(all='ignore'):
            rr = np.abs(values(rng, n))
        if np.shape(th) != rr.shape and isinstance(th, np.ndarray):
            rr = rr.reshape(th.shape)
        r.run((i, 'dilog_complex', n, k, t), dilog_complex, rr, th, t)
        z = rr * np.exp(1j * np.asarray(th))
        r.run((i, 'dilog_complex z', n, k, t), dilog_complex, z, None, t)


def wl_parallel(r):
    """arrays of all lengths around the number of threads, and calls from several Python threads at once"""
    import threading
    from copulae.special.clausen import clausen
    from copulae.special.debye import debye_1, debye_2
    from copulae.special.dilog import dilog, dilog_complex
    rng = r.rng
    fs = [clausen, debye_1, debye_2, dilog, lambda x, t: dilog_complex(np.abs(x), np.cos(x), t)]
    for i in range(400 if r.thorough else 60):
        j = int(rng.integers(5))
        n = int(rng.integers(2, 40)) if i % 3 else int(rng.integers(100, 5000))
        x = values(rng, n)
        p, e = r.run((i, j, n, 'threaded'), fs[j], x, True)
        s, e1 = r.run((i, j, n, 'serial'), fs[j], x, False)
        same = (e is None) == (e1 is None) and (e is not None or np.array_equal(p, s, equal_nan=True))
        r.out.append([repr((i, j, n, 'threaded equals serial')), 'True', ''] if same else
                     [repr((i, j, n, 'threaded equals serial')), os.environ.get('VERIF_VARIANT', '') + repr(r.path), repr(x)])
        r.count('elements through native code', 2 * n)
    jobs = [(fs[int(rng.integers(5))], values(rng, int(rng.integers(2, 300)))) for _ in range(64 if r.thorough else 24)]
    want = [f(x, False) for f, x in jobs]
    got = [None] * len(jobs)

    def work(k):
        for q in range(k, len(jobs), 4):
            got[q] = jobs[q][0](jobs[q][1], True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for q, (a, b) in enumerate(zip(want, got)):
        same = b is not None and np.array_equal(a, b, equal_nan=True)
        r.out.append([repr(('concurrent', q)), 'True' if same else os.environ.get('VERIF_VARIANT', '') + repr(r.path), ''])
    r.count('concurrent calls', len(jobs))


def tied(rng, n, d):
    k = rng.integers(4)
    x = rng.normal(size=(n, d))
    if k == 1:
        x = np.round(x, 1)
    if k == 2:
        x = rng.integers(0, 3, (n, d)).astype(float)
    if k == 3:
        x = np.exp(3 * x)
        x[rng.random((n, d)) < .1] = 0
    return x


def wl_empirical(r):
    from copulae import EmpiricalCopula
    from copulae.empirical.distribution import emp_dist_func
    rng = r.rng
    for i in range(900 if r.thorough else 160):
        n, d, k = int(rng.choice([1, 2, 3, 5, 8, 20, 60])), int(rng.integers(1, 6)), int(rng.choice([0, 1, 2, 7, 30]))
        x = tied(rng, n, d)
        sm = (None, 'none', 'beta', 'checkerboard')[rng.integers(4)]
        off = float(rng.choice([0, .5, 1, -.25]))
        u = rng.random((k, d))
        if k and rng.random() < .4:
            u[rng.random((k, d)) < .3] = rng.choice([0, 1, .5, np.nan])
        lay = rng.integers(3)
        u = np.asfortranarray(u) if lay == 1 else np.repeat(u, 2, axis=0)[::2] if lay == 2 else u
        y = rng.random((n, d)) if rng.random() < .5 else (np.argsort(np.argsort(x, 0), 0) + 1.) / (n + 1)
        if rng.random() < .1:
            y = y * 2 - .5  # outside of the unit cube
        r.run((i, 'emp_dist_func', n, d, k, sm, off), emp_dist_func, u, y, sm, off)
        r.run((i, 'emp_dist_func cols', n, d, k, sm), emp_dist_func, u[:, :max(0, d - 1)], y, sm)
        r.run((i, 'emp_dist_func cols2', n, d, k, sm), emp_dist_func, u, np.c_[y, y], sm)
        r.run((i, 'emp_dist_func 1d', n, d, k, sm), emp_dist_func, u.ravel(), y, sm)
        r.count('pairs through native code', n * k * d)
        if d < 2:
            continue
        frame = pd.DataFrame(x) if rng.random() < .3 else x
        e, err = r.run((i, 'EmpiricalCopula', n, d), EmpiricalCopula, frame, sm, str(rng.choice(TIES)), off, compare=False)
        if err is not None:
            continue
        r.run((i, 'cdf', n, d, k, sm), e.cdf, u)
        r.run((i, 'cdf log', n, d, k, sm), e.cdf, u, log=True)
        r.run((i, 'cdf one', n, d, k, sm), e.cdf, np.full(d, .4))
        r.run((i, 'cdf wrong', n, d, k, sm), e.cdf, rng.random((3, d + 1)))
        r.run((i, 'cdf wrong', n, d, k, sm), e.cdf, rng.random((3, d - 1)))
        r.run((i, 'cdf 3d', n, d, k, sm), e.cdf, rng.random((2, 2, d)))
        r.run((i, 'pdf', n, d, k, sm), e.pdf, u)
        r.run((i, 'random', n, d), e.random, min(n, 4), seed=3)


def wl_symmetry(r):
    from copulae.gof import exch_test, rad_sym_test
    rng = r.rng
    for i in range(500 if r.thorough else 110):
        n = int(rng.choice([1, 2, 3, 4, 7, 16, 33, 64]))
        x = tied(rng, n, 2)
        m = int(rng.choice([0, 0, 1, 2, 3, 5, 9]))
        N = int(rng.choice([1, 2, 5, 20]))
        ties = str(rng.choice(TIES))
        v, err = r.run((i, 'exch_test', n, m, N, ties), lambda: exch_test(x[:, 0], x[:, 1], N, m, ties)[:2])
        r.count('replications', N)
        if i % 4 == 0:
            r.run((i, 'exch_test list', n), lambda: exch_test(x[:, 0].tolist(), pd.Series(x[:, 1]), N, m, ties)[:2])
            y = x.copy()
            y[0, 0] = rng.choice([np.nan, np.inf, -np.inf])
            r.run((i, 'exch_test nan', n), lambda: exch_test(y[:, 0], y[:, 1], N, m, ties)[:2])
            r.run((i, 'exch_test lengths', n), lambda: exch_test(x[:, 0], x[1:, 1], N, m, ties)[:2])
            r.run((i, 'exch_test 2d', n), lambda: exch_test(x, x, N, m, ties)[:2])
            for bad in (-1, 2.5, None):
                r.run((i, 'exch_test bad', n), lambda: exch_test(x[:, 0], x[:, 1], N, bad, ties)[:2])
                r.run((i, 'exch_test bad', n), lambda: exch_test(x[:, 0], x[:, 1], bad, m, ties)[:2])
        d = int(rng.integers(1, 6))
        z = tied(rng, n, d)
        r.run((i, 'rad_sym_test', n, d, N, ties), lambda: rad_sym_test(z, N, ties)[:2])
        r.count('replications', N)
        if i % 4 == 0:
            r.run((i, 'rad_sym_test frame', n, d), lambda: rad_sym_test(pd.DataFrame(z), N, ties)[:2])
            r.run((i, 'rad_sym_test fortran', n, d), lambda: rad_sym_test(np.asfortranarray(z), N, ties)[:2])
            r.run((i, 'rad_sym_test strided', n, d), lambda: rad_sym_test(np.repeat(z, 2, 1)[:, ::2], N, ties)[:2])
            z2 = z.copy()
            z2[-1, -1] = rng.choice([np.nan, np.inf])
            r.run((i, 'rad_sym_test nan', n, d), lambda: rad_sym_test(z2, N, ties)[:2])
            r.run((i, 'rad_sym_test 1d', n, d), lambda: rad_sym_test(z[:, 0], N, ties)[:2])
            r.run((i, 'rad_sym_test int', n, d), lambda: rad_sym_test((z * 4).astype(int), N, ties)[:2])
    r.run(('empty',), lambda: exch_test([], [], 2, 0)[:2])
    r.run(('empty grid',), lambda: exch_test([], [], 2, 3)[:2])
    r.run(('empty',), lambda: rad_sym_test(np.empty((0, 2)), 2)[:2])
    r.run(('empty',), lambda: rad_sym_test(np.empty((3, 0)), 2)[:2])


def wl_copulas(r):
    """the copulas that reach the native code through their own methods"""
    from copulae import FrankCopula, GumbelCopula, ClaytonCopula, GaussianCopula, StudentCopula
    from copulae.gof import gof_copula
    rng = r.rng
    for i in range(120 if r.thorough else 25):
        th = float(rng.choice([-30, -3, -.1, .1, 1, 4, 12, 40, 800]) * rng.uniform(.9, 1.1))
        c = FrankCopula(th if th > 0 or True else 1, 2)
        for name in ('tau', 'rho', 'drho', 'dtau'):
            at = getattr(c, name)
            r.run((i, 'frank', name), (lambda a=at: a() if callable(a) else a))
        for t in (-.8, -.1, .1, .5, .95):
            r.run((i, 'itau', t), c.itau, t)
        r.run((i, 'frank random'), c.random, 20, seed=i)
        r.count('copula calls', 10)
    for i in range(12 if r.thorough else 4):
        x = tied(rng, 25, 2)
        c = (GumbelCopula(2, 2), ClaytonCopula(2, 2), FrankCopula(2, 2), GaussianCopula(2))[i % 4]
        r.run((i, 'gof', type(c).__name__), lambda: gof_copula(type(c), x, 4).statistic, compare=False)
        r.count('copula calls')


def wl_large(r):
    """sizes whose products do not fit an int; running out of memory is an answer, a crash is not"""
    from copulae.gof import exch_test
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    for n, k in ((1500, 1700), (1500, 1200), (40000, 240)) if r.thorough else ((1500, 1700), (1500, 1200)):
        x = r.rng.normal(size=(n, 2))
        v, err = r.run(('exch_test', n, k), exch_test, x[:, 0], x[:, 1], 1, k)
        r.count('elements of the grid times data', n * k * k)
        if err is not None and not isinstance(err, MemoryError):
            r.problems.append(f'exch_test with {n} observations, m = {k}: {err!r}')


def wl_leaks(r):
    import ctypes
    import gc
    from copulae import EmpiricalCopula, FrankCopula
    from copulae.empirical.distribution import emp_dist_func
    from copulae.gof import exch_test, rad_sym_test
    from copulae.special.clausen import clausen
    from copulae.special.debye import debye_1, debye_2
    from copulae.special.dilog import dilog, dilog_complex

    class Info(ctypes.Structure):
        _fields_ = [(k, ctypes.c_size_t) for k in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks',
                                                   'uordblks', 'fordblks', 'keepcost')]
    info = ctypes.CDLL(None).mallinfo2
    info.restype = Info

    def used():
        gc.collect()
        i = info()
        return i.uordblks + i.hblkhd

    rng = r.rng
    x, th = rng.exponential(3, 300), rng.uniform(-3, 3, 300)
    z = rng.normal(size=(12, 2))
    zt = np.round(z)
    u = rng.random((12, 2))
    e = EmpiricalCopula(z, 'beta')
    f = FrankCopula(3., 2)
    bad = rng.random((3, 7))
    calls = {
        'clausen': lambda: clausen(x), 'clausen serial': lambda: clausen(x, False), 'debye_1': lambda: debye_1(x),
        'debye_1 one': lambda: debye_1(2.), 'debye_2': lambda: debye_2(x), 'debye_2 serial': lambda: debye_2(x, False),
        'dilog': lambda: dilog(x), 'dilog_complex': lambda: dilog_complex(x, th), 'dilog_complex one': lambda: dilog_complex(2., 1.),
        'dilog_complex shapes': lambda: dilog_complex(x, th[1:]), 'bad': lambda: clausen('x'),
        'emp_dist_func': lambda: emp_dist_func(u, u, 'checkerboard'), 'emp beta': lambda: emp_dist_func(u, u, 'beta'),
        'emp wrong': lambda: emp_dist_func(bad, u), 'EmpiricalCopula.cdf': lambda: e.cdf(u), 'EmpiricalCopula.pdf': lambda: e.pdf(u),
        'EmpiricalCopula': lambda: EmpiricalCopula(z), 'frank tau': lambda: f.tau, 'frank rho': lambda: f.rho,
        'exch_test': lambda: exch_test(z[:, 0], z[:, 1], 2, 0), 'exch_test grid': lambda: exch_test(z[:, 0], z[:, 1], 2, 3),
        'exch_test ties': lambda: exch_test(zt[:, 0], zt[:, 1], 2, 0), 'rad_sym_test': lambda: rad_sym_test(z, 2),
        'rad_sym_test ties': lambda: rad_sym_test(zt, 2),
    }
    n = 400 if r.thorough else 120
    for name, fn in calls.items():
        growth = []
        # the first rounds fill caches; a leak shows in every round
        while len(growth) < 16 and (len(growth) < 2 or growth[-1] > 24):
            before = used()
            for _ in range(n):
                try:
                    fn()
                except Exception:
                    pass
            growth.append((used() - before) / n)
        r.run((name, 'repeated'), lambda: None)
        r.count('calls watched for leaks', n * len(growth))
        if growth[-1] > 24:
            r.problems.append(f'{name}: bytes kept per call {growth}')


WORKLOADS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('wl_')}
ALL = ('plain', 'fill A5', 'fill 3F', 'asan', 'bounds')


@scenario(P, shards={'quick': 1, 'thorough': 3}, min_events=1500, weight=4)
def special(m):
    compare(m, 'special', ALL + ('one thread', 'tsan'))


@scenario(P, shards={'quick': 1, 'thorough': 3}, min_events=600, weight=6)
def parallel(m):
    compare(m, 'parallel', ('plain', 'asan', 'tsan', 'one thread', 'many threads'))


@scenario(P, min_events=2, weight=7)
def large(m):
    compare(m, 'large', ('plain',))


@scenario(P, min_events=20, weight=5)
def leaks(m):
    compare(m, 'leaks', ('leaks',))


@scenario(P, shards={'quick': 1, 'thorough': 3}, min_events=1500, weight=4)
def empirical(m):
    compare(m, 'empirical', ALL)


@scenario(P, shards={'quick': 1, 'thorough': 3}, min_events=600, weight=5)
def symmetry(m):
    compare(m, 'symmetry', ALL)


@scenario(P, shards={'quick': 1, 'thorough': 2}, min_events=600, weight=4)
def copulas(m):
    compare(m, 'copulas', ALL)

# compiled once, before the scenarios are forked
for _v in ('plain', 'asan', 'bounds', 'tsan'):
    try:
        build.build(_v)
    except build.BuildError:
        if _v == 'plain':
            raise
