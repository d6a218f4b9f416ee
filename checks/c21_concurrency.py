"""One case = one query or fit made while other threads make theirs (delays injected at the entries of the library's
functions, switch interval one microsecond), or made on a copy (copy, deepcopy, pickle, another process), compared with the
answer given to a single caller; or one alteration of an object after which the others are asked again. Non-trivial =
distinct (object, query, setting)."""
import copy
import hashlib
import multiprocessing
import pickle
import random
import sys
import threading
import time

import numpy as np

from checks.c09_purity import probe, same
from vlib import build, gen
from vlib.core import scenario

CODE = build.REPO + '/copulae'

P = 'C21'
ASSUMPTIONS = ['drawing samples is left out of the threaded workloads: numpy\'s global generator is shared by design',
               'CPython with its lock: the schedules seen are those between bytecodes and native calls']


def queries(rng, a):
    """deterministic queries of a copula: [(name, callable)]"""
    cop = a.cop
    out = []
    pts = a.points(5)
    u = gen.points(rng, 5, a.dim, .01)
    for q, f, at in a.queries():
        if at < 1e-6 or q != 'cdf':
            out.append((q, lambda f=f: f(pts)))
            out.append((q + ' log', lambda f=f: f(pts, log=True)))
            out.append((q + ' one', lambda f=f: f(pts[0])))
    out.append(('summary', lambda: str(cop.summary())))
    out.append(('params', lambda: copy.deepcopy(cop.params)))
    out.append(('name', lambda: (cop.name, cop.dim)))
    if a.kind in gen.FAMILIES:
        out.append(('bounds', lambda: [np.array(b, float) for b in cop.bounds]))
    x = gen.rand_cont_data(rng, 30, a.dim)
    out.append(('pobs', lambda: cop.pobs(x)))
    if a.kind in gen.FAMILIES and a.kind != 'indep':
        out.append(('log_lik', lambda: cop.log_lik(x)))
        out.append(('tau', lambda: np.array(cop.tau)))
        out.append(('lambda_', lambda: tuple(np.asarray(v) for v in cop.lambda_)))
        t = rng.uniform(.1, .8, 3)
        out.append(('itau', lambda: cop.itau(t)))
    if a.kind in gen.ARCH:
        for f in ('psi', 'ipsi', 'dipsi'):
            out.append((f, lambda f=f: getattr(cop, f)(u[:, 0])))
        if a.kind == 'frank':
            out.append(('rho', lambda: np.array(cop.rho)))
    if a.kind in ('gaussian', 'student'):
        out.append(('sigma', lambda: np.array(cop.sigma)))
        out.append(('item', lambda: np.array(cop[0, 1])))
    return out


def functions(rng):
    """module functions, natively threaded ones among them"""
    import copulae as c
    from copulae import special as s
    from copulae.core import near_psd, pseudo_obs
    from copulae.special.clausen import clausen
    from copulae.special.debye import debye_1, debye_2
    from copulae.special.dilog import dilog, dilog_complex
    from copulae.stats import multivariate_t, pearson_rho, kendall_tau
    x = rng.exponential(3, 200)
    z = rng.normal(size=(25, 3))
    S = gen.rand_corr(rng, 3)
    bad = S - .6 * np.eye(3)
    np.fill_diagonal(bad, 1)
    bad[0, 1] = bad[1, 0] = -.99
    bad[0, 2] = bad[2, 0] = .99
    n = int(rng.integers(5, 30))
    return [('debye_1', lambda: debye_1(x)), ('debye_2', lambda: debye_2(x)), ('clausen', lambda: clausen(x)),
            ('dilog', lambda: dilog(x)), ('dilog_complex', lambda: dilog_complex(x, np.cos(x))),
            ('pseudo_obs', lambda: pseudo_obs(z)), ('near_psd', lambda: near_psd(bad)),
            ('multivariate_t', lambda: multivariate_t.pdf(z, np.zeros(3), S, 4.)),
            ('pearson', lambda: np.asarray(pearson_rho(z))), ('kendall', lambda: np.asarray(kendall_tau(z))),
            ('stirling', lambda: [s.stirling_second_all(n), s.stirling_first_all(n), s.eulerian_all(n)]),
            ('exch_test', lambda: tuple(c.gof.exch_test(z[:, 0], z[:, 1], 20)[:2]))]


class Threads:
    """runs jobs in threads, with delays at the entries of the library's functions"""

    def __init__(self, m, n, lines=False):
        self.m, self.n = m, n
        self.lines = lines  # delays at every line instead of at the entries
        self.seed = int(m.rng.integers(2 ** 31))
        self.delays = 0
        self.log = []

    def run(self, jobs, want):
        """jobs[k]: the list of (key, callable) of thread k; want: key -> answer"""
        start = threading.Barrier(len(jobs))
        results = [[] for _ in jobs]

        def work(k):
            rnd = random.Random(self.seed * 31 + k)

            def prof(frame, event, arg):
                if event == 'call' and CODE in frame.f_code.co_filename:
                    r = rnd.random()
                    if r < .02:
                        time.sleep(rnd.random() * 1e-3)
                        self.delays += 1
                    elif r < .2:
                        time.sleep(0)
                        self.delays += 1

            def trace(frame, event, arg):
                if CODE not in frame.f_code.co_filename:
                    return None
                if event == 'line' and rnd.random() < .3:
                    time.sleep(0 if rnd.random() < .95 else rnd.random() * 2e-4)
                    self.delays += 1
                return trace

            start.wait()
            (sys.settrace if self.lines else sys.setprofile)(trace if self.lines else prof)
            try:
                for key, fn in jobs[k]:
                    t = time.perf_counter()
                    self.log.append((t, k, key))
                    try:
                        v = fn()
                    except Exception as e:
                        v = repr(e)
                    results[k].append((key, v, t, time.perf_counter()))
            finally:
                (sys.settrace if self.lines else sys.setprofile)(None)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        m = self.m
        spans = sorted((t0, t1, k) for k, r in enumerate(results) for _, _, t0, t1 in r)
        m.count('calls overlapping another', sum(1 for i in range(1, len(spans)) if spans[i][0] < max(
            x[1] for x in spans[max(0, i - 8):i] )))
        m.count('delays injected', self.delays)
        order = hashlib.sha256(repr([(k, key) for _, k, key in sorted(self.log, key=lambda x: x[0])]).encode()).hexdigest()[:12]
        m.case('schedule', order)
        for k, r in enumerate(results):
            for key, v, _, _ in r:
                if key not in want:
                    continue
                m.case(key, 'threads')
                m.ok(same(want[key], v, 1e-12), 'the answer changes when other threads ask as well', query=key,
                     alone=want[key], concurrent=v)


@scenario(P, shards={'quick': 3, 'thorough': 24}, min_events=500, weight=4)
def queries_in_threads(m):
    rng = m.rng
    for _ in range(7 if not m.thorough else 30):
        pool = []
        for i in range(10):
            a = gen.any_copula(rng)
            pool += [((i, a.kind, name), f) for name, f in queries(rng, a)]
        pool += [(('function', name), f) for name, f in functions(rng)]
        want = {}
        for key, f in pool:
            try:
                want[key] = f()
            except Exception as e:
                want[key] = repr(e)
        n = int(rng.integers(3, 7))
        jobs = [[pool[j] for j in rng.integers(0, len(pool), 60)] for _ in range(n)]
        # the same query at once, from every thread
        hot = [pool[j] for j in rng.integers(0, len(pool), 15)]
        jobs = [hot + j for j in jobs]
        Threads(m, n).run(jobs, want)


@scenario(P, shards={'quick': 1, 'thorough': 6}, min_events=100, weight=2)
def valid_and_invalid(m):
    """calls that are refused do not disturb valid ones at the same time"""
    rng = m.rng
    for _ in range(4 if not m.thorough else 30):
        pool = []
        for i in range(4):
            a = gen.any_copula(rng)
            pool += [((i, a.kind, name), f) for name, f in queries(rng, a)]
            for q in ('cdf', 'pdf', 'log_lik', 'random', 'itau', 'summary', 'fit'):
                fn = getattr(a.cop, q, None)
                if fn is None:
                    continue
                for bad in (np.zeros((2, 2, 2)), np.zeros((2, a.dim + 3)), None, 'x'):
                    pool.append(((i, a.kind, 'invalid', q, repr(bad)[:20]), lambda fn=fn, bad=bad: _outcome(fn, bad)))
        want = {}
        for key, f in pool:
            try:
                want[key] = f()
            except Exception as e:
                want[key] = repr(e)
        n = int(rng.integers(4, 8))
        jobs = [[pool[j] for j in rng.integers(0, len(pool), 300)] for _ in range(n)]
        Threads(m, n).run(jobs, want)


def _outcome(fn, arg):
    try:
        fn(arg)
    except Exception as e:
        return type(e).__name__
    return 'accepted'


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=500, weight=4)
def rivals(m):
    """objects of one class with different parameters are asked the same at the same time, delays at every line"""
    rng = m.rng
    kinds = [str(k) for k in rng.permutation([k for k in gen.ALL_KINDS if k != 'indep'])]
    for kind in (kinds + list(gen.ARCH) * 2) * (1 if not m.thorough else 4):
        d = int(rng.choice([2, 2, 3]))
        pool = []
        for i in range(4):
            a = gen.any_copula(rng, kind, d)
            pool.append([((i, kind, name), f) for name, f in queries(rng, a)])
        want = {}
        for key, f in sum(pool, []):
            try:
                want[key] = f()
            except Exception as e:
                want[key] = repr(e)
        names = [k[2] for k, _ in pool[0]]
        jobs = [[] for _ in pool]
        for name in rng.permutation(names):
            for i, qs in enumerate(pool):  # each thread mostly asks an object of its own
                own = [q for q in qs if q[0][2] == name]
                alt = [q for q in pool[(i + 1) % len(pool)] if q[0][2] == name]
                jobs[i] += (own * 3 + alt + own * 2 + alt) * (3 if kind in gen.ARCH else 1)
        Threads(m, len(jobs), lines=True).run(jobs, want)


@scenario(P, shards={'quick': 2, 'thorough': 12}, min_events=20, weight=5)
def fits_in_threads(m):
    """objects of their own, the data shared"""
    import copulae as c
    rng = m.rng
    for _ in range(4 if not m.thorough else 16):
        d = int(rng.choice([2, 3]))
        x = rng.normal(size=(60, 1)) + rng.normal(size=(60, d))
        u = c.pseudo_obs(x)

        def task(kind, method):
            def run():
                if kind == 'marginal':
                    cop = c.MarginalCopula(c.GaussianCopula(d), ['norm'] * d)
                    cop.fit(x, verbose=0)
                    return cop.pdf(x[:3])
                cop = gen.classes()[kind](dim=d)
                cop.fit(u, method=method, verbose=0)
                return copy.deepcopy(cop.params), str(cop.summary('fit'))
            return run

        pool = [((kind, method, d), task(kind, method)) for kind in gen.FAMILIES for method in ('ml', 'itau')
                if not (kind in ('indep', 'student') and method == 'itau')]
        pool.append((('marginal', 'ml', d), task('marginal', 'ml')))
        want = {}
        for key, f in pool:
            try:
                want[key] = f()
            except Exception as e:
                want[key] = repr(e)
        n = 4
        jobs = [[pool[j] for j in rng.permutation(len(pool))[:6 if not m.thorough else 10]] for _ in range(n)]
        Threads(m, n).run(jobs, want)


def alter(rng, a):
    """gives the copula other parameters; a description"""
    cop, k = a.cop, a.kind
    d = a.dim
    if k in gen.ARCH:
        cop.params = {'clayton': 3.3, 'frank': 5.5, 'gumbel': 2.7}[k]
    elif k == 'gaussian':
        if rng.random() < .5:
            cop.params = np.full(d * (d - 1) // 2, .123)
        else:
            cop[:] = np.full((d, d), .321) + .679 * np.eye(d)
    elif k == 'student':
        cop.params = np.r_[7.7, np.full(d * (d - 1) // 2, .123)]
    elif k == 'empirical':
        cop.smoothing = 'checkerboard' if cop.smoothing != 'checkerboard' else 'beta'
        cop.ties = 'max' if cop.ties != 'max' else 'min'
        a.pdf = cop.smoothing == 'beta'
    elif k == 'gmc':
        p = gen.rand_mixture(rng, len(a.spec['prob']), d)
        cop.params = p
    elif k == 'marginal':
        x = rng.normal(size=(40, d)) + 3
        try:
            cop.fit(np.abs(x) / 10 if rng.random() < .5 else x, verbose=0)
        except Exception:
            pass
    else:
        return False
    return True


@scenario(P, shards={'quick': 2, 'thorough': 12}, min_events=60, weight=3)
def writer_and_readers(m):
    """some threads alter objects of their own while others ask theirs"""
    rng = m.rng
    for _ in range(6 if not m.thorough else 30):
        kinds = rng.choice([k for k in gen.ALL_KINDS if k != 'marginal'], 3)
        pool, writers = [], []
        for i, k in enumerate(kinds):
            d = int(rng.choice([2, 3]))
            a = gen.any_copula(rng, str(k), d)
            pool += [((i, a.kind, name), f) for name, f in queries(rng, a)]
            b = gen.any_copula(rng, str(k), d)
            r = np.random.default_rng(int(rng.integers(1 << 30)))

            def write(b=b, r=r):
                alter(r, b)
                str(b.cop.summary())
                b.cop.random(3)
                for q, f, _ in b.queries():
                    f(b.points(2))
            writers.append((('write', i), write))
        want = {key: f() for key, f in pool}
        jobs = [[pool[j] for j in rng.integers(0, len(pool), 40)] for _ in range(3)]
        jobs += [[writers[j] for j in rng.integers(0, len(writers), 15)] for _ in range(2)]
        Threads(m, 5).run(jobs, want)
        m.count('alterations', 30)


def _remote(blob):
    a, pts, u = pickle.loads(blob)
    return probe(a, pts, u)


def strip(a):
    """Any, as far as it can be pickled"""
    b = copy.copy(a)
    b.points = None
    return b


@scenario(P, shards={'quick': 2, 'thorough': 12}, min_events=150, weight=3)
def copies(m):
    rng = m.rng
    for i in range(40 if not m.thorough else 250):
        a = gen.any_copula(rng)
        if rng.random() < .3:
            alter(rng, a)
        pts, u = a.points(5), gen.points(rng, 5, a.dim, .01)
        tol = 1e-3 if a.cdf_atol > 1e-6 else 1e-13
        base = m.must(f'{a.kind} queries', probe, a, pts, u)
        if base is None:
            continue
        s = strip(a)
        ways = {'deepcopy': lambda: copy.deepcopy(s), 'pickle': lambda: pickle.loads(pickle.dumps(s)),
                'old pickle': lambda: pickle.loads(pickle.dumps(s, 2)),
                'twice': lambda: copy.deepcopy(pickle.loads(pickle.dumps(copy.deepcopy(s))))}
        for way, f in ways.items():
            b = m.must(f'{way} of a {a.kind} copula', f)
            if b is None:
                continue
            m.case(way, a.kind, i)
            got = m.must(f'queries of a {way}', probe, b, pts, u)
            m.ok(same(base, got, tol), 'a copy answers otherwise than the original', way=way, original=base, copy=got, **a.spec)
            m.ok(type(b.cop) is type(a.cop), 'a copy is of another class', way=way)
            if alter(rng, b):
                now = m.must('queries', probe, a, pts, u)
                m.ok(same(base, now, tol), 'altering a copy alters the original', way=way, before=base, after=now, **a.spec)
                m.count('alterations')
        c = copy.copy(a.cop)
        got = m.must('queries of a shallow copy', probe, _with(a, c), pts, u)
        m.ok(same(base, got, tol), 'a copy answers otherwise than the original', way='copy', original=base, copy=got, **a.spec)


def _with(a, cop):
    b = copy.copy(a)
    b.cop = cop
    return b


@scenario(P, min_events=40, weight=3)
def fitted_copies(m):
    """a copy of a fitted copula keeps its summary; refitting the copy leaves the original's"""
    rng = m.rng
    for i in range(24 if not m.thorough else 120):
        kind = str(rng.choice(gen.FAMILIES))
        d = int(rng.choice([2, 3]))
        cop = gen.classes()[kind](dim=d)
        x = rng.normal(size=(50, 1)) + rng.normal(size=(50, d))
        y = rng.normal(size=(40, d))
        cop.fit(x, verbose=0)
        before = (copy.deepcopy(cop.params), str(cop.summary()), str(cop.summary('fit')) if kind != 'indep' else '')
        for way, f in (('deepcopy', copy.deepcopy), ('pickle', lambda c: pickle.loads(pickle.dumps(c)))):
            b = m.must(f'{way} of a fitted copula', f, cop)
            if b is None:
                continue
            m.case(kind, way, i)
            got = (copy.deepcopy(b.params), str(b.summary()), str(b.summary('fit')) if kind != 'indep' else '')
            m.ok(same(before, got), 'a copy of a fitted copula differs', way=way, before=before, got=got)
            try:
                b.fit(y + y[:, :1], verbose=0)
            except Exception:
                pass
            now = (copy.deepcopy(cop.params), str(cop.summary()), str(cop.summary('fit')) if kind != 'indep' else '')
            m.ok(same(before, now), 'fitting a copy alters the original', way=way, before=before, after=now)


@scenario(P, shards={'quick': 2, 'thorough': 12}, min_events=80, weight=3)
def independent_objects(m):
    """making, altering, fitting and asking some objects leaves the others as they are"""
    rng = m.rng
    for i in range(10 if not m.thorough else 60):
        objs = []
        for _ in range(5):
            a = gen.any_copula(rng)
            pts, u = a.points(4), gen.points(rng, 4, a.dim, .01)
            base = m.must(f'{a.kind} queries', probe, a, pts, u)
            if base is not None:
                objs.append((a, pts, u, base))
        for step in range(6):
            k = str(rng.choice(gen.ALL_KINDS if rng.random() < .3 else [o[0].kind for o in objs]))
            d = int(rng.choice([o[0].dim for o in objs]))
            b = gen.any_copula(rng, k, d)
            what = 'making'
            if rng.random() < .7 and alter(rng, b):
                what = 'altering'
            elif k in gen.FAMILIES:
                what = 'fitting'
                try:
                    b.cop.fit(gen.rand_cont_data(rng, 30, d), verbose=0)
                except Exception:
                    pass
            b.cop.random(3)
            for a, pts, u, base in objs:
                now = m.must(f'{a.kind} queries', probe, a, pts, u)
                m.case(i, step, what, k, a.kind)
                m.ok(same(base, now, 1e-3 if a.cdf_atol > 1e-6 else 0), f'{what} one object alters another', other=k,
                     before=base, after=now, **a.spec)


@scenario(P, min_events=12, weight=3)
def other_processes(m):
    """the objects are sent to worker processes, as multiprocessing does"""
    rng = m.rng
    jobs = []
    for i in range(30 if not m.thorough else 120):
        a = gen.any_copula(rng)
        pts, u = a.points(4), gen.points(rng, 4, a.dim, .01)
        base = m.must(f'{a.kind} queries', probe, a, pts, u)
        jobs.append((a, base, pickle.dumps((strip(a), pts, u))))
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(3) as pool:
        res = [pool.apply_async(_remote, (blob,)) for _, _, blob in jobs]
        for (a, base, _), r in zip(jobs, res):
            got = m.must('queries in another process', r.get, 300)
            m.case('process', a.kind, repr(a.spec)[:80])
            m.ok(same(base, got, 1e-3 if a.cdf_atol > 1e-6 else 1e-13), 'another process answers otherwise', here=base,
                 there=got, **a.spec)
    m.count('worker processes', 3)
