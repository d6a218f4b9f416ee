"""One case = one evaluation of a special function (Debye, dilogarithm of real and complex arguments, Clausen,
polylogarithm, log1mexp/log1pexp/log_sum, trigonometric functions of multiples of pi, root finder) at generated arguments:
branch points and cut-overs of the implementation, tiny, huge, infinite and NaN values, in scalars, lists, vectors, matrices
and empty arrays, with and without threads. Compared with multi-precision values, and every form of the call with every
other. Non-trivial = distinct (function, form, arguments)."""
import math

import mpmath as mp
import numpy as np

from vlib.core import Raised, scenario

P = 'C17'
ASSUMPTIONS = ['mpmath at 40 digits is the reference']


def cluster(rng, n, centres, lo, hi):
    """around given points at all distances, and log-uniform elsewhere"""
    out = []
    for _ in range(n):
        if rng.random() < 0.5:
            c = rng.choice(centres)
            out.append(c + (rng.choice([-1, 1]) * 10 ** rng.uniform(-17, 0) * max(1, abs(c)) if rng.random() < 0.85 else 0))
        else:
            out.append(10 ** rng.uniform(lo, hi) * rng.choice([-1, 1]))
    return np.array(out, float)


def ladder(rng, centres):
    """every given point, approached from both sides decade by decade"""
    out = list(centres)
    for c in centres:
        for k in range(1, 17):
            for s in (-1, 1):
                out.append(c + s * rng.uniform(1, 10) * 10. ** -k * max(1, abs(c)))
    return np.array(out, float)


def _debye(n, x):
    x = mp.mpf(float(x))
    if x == 0:
        return mp.mpf(1)
    if x > 200:  # the remainder is below 1e-80
        return n * mp.factorial(n) * mp.zeta(n + 1) / x ** n
    s = mp.mpf(0)
    if x < mp.mpf('0.5'):  # Bernoulli series
        for k in range(0, 60):
            s += n * mp.bernoulli(k) * x ** k / ((k + n) * mp.factorial(k))
        return s
    L = mp.log(1 - mp.exp(-x))
    if n == 1:  # int_0^x t/(e^t-1) = pi^2/6 + x log(1-e^-x) - Li2(e^-x)
        v = mp.pi ** 2 / 6 + x * L - mp.polylog(2, mp.exp(-x))
        return v / x
    v = 2 * mp.zeta(3) + x ** 2 * L - 2 * x * mp.polylog(2, mp.exp(-x)) - 2 * mp.polylog(3, mp.exp(-x))
    return 2 * v / x ** 2


def _clausen(x):
    x = mp.mpf(float(x))
    return mp.clsin(2, x)


def _dilog(x):
    x = mp.mpf(float(x))
    if x < -1e30:
        return -mp.pi ** 2 / 6 - mp.log(-x) ** 2 / 2 - mp.polylog(2, 1 / x)
    return mp.re(mp.polylog(2, x))


def _f(v):
    return float(v)


def forms(m, fn, x, want, what, rtol, atol, kind=float):
    """all forms of a call give the same values"""
    got = m.call(fn, x)
    if not m.close(got, want, what, rtol=rtol, atol=atol, x=x):
        return
    got = np.asarray(got)
    i = int(m.rng.integers(len(x)))
    one = m.call(fn, x[i])
    m.close(one, got[i], what + ' of a scalar', rtol=1e-12, atol=1e-300, x=x[i])
    m.ok(not isinstance(one, Raised) and np.ndim(one) == 0, what + ' of a scalar is a scalar', got=one, x=x[i])
    m.close(m.call(fn, x.tolist()), got, what + ' of a list', rtol=1e-12)
    k = len(x) // 2 * 2
    m.close(m.call(fn, x[:k].reshape(2, -1)), got[:k].reshape(2, -1), what + ' of a matrix', rtol=1e-12)
    m.close(m.call(fn, x[:k].reshape(-1, 2).T), got[:k].reshape(-1, 2).T, what + ' of a transposed matrix', rtol=1e-12)
    if len(x) > 2:  # some functions return a scalar for a single value
        m.close(m.call(fn, x[::2]), got[::2], what + ' of a strided vector', rtol=1e-12)


def native(m, name, fn, x, refs, rtol, atol):
    """a function with a `threaded` option"""
    before = x.copy()
    with mp.workdps(40):
        want = np.array([_f(refs(v)) for v in x])
    m.case(name, x.tolist()[:6], len(x))
    for v in x:
        m.case(name, float(v))
    forms(m, fn, x, want, name, rtol, atol)
    a, b = m.call(fn, x, False), m.call(fn, x, True)
    m.ok(not isinstance(a, Raised) and not isinstance(b, Raised) and np.array_equal(a, b, equal_nan=True),
         name + ': threads do not change the values', a=a, b=b)
    m.close(m.call(fn, x, threaded=False), want, name, rtol=rtol, atol=atol)
    m.ok(np.array_equal(x, before), name + ': the argument is left alone')


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=200)
def debye(m):
    from copulae.special import debye as D
    C = [0., 3e-8, 4.2e-8, 4., 35.35, 36.04, 708.39, 8., 0.5, 100.]
    for i in range(8 if not m.thorough else 40):
        x = np.abs(cluster(m.rng, 40, C, -12, 300) if i else ladder(m.rng, C))
        native(m, 'debye_1', D.debye_1, x, lambda v: _debye(1, v), 1e-12, 1e-300)
        native(m, 'debye_2', D.debye_2, x, lambda v: _debye(2, v), 1e-11, 1e-300)
    for f in (D.debye_1, D.debye_2):
        e = m.call(f, np.array([np.nan, -1., np.inf, 0.]))
        m.case(f.__name__, 'edge')
        m.ok(not isinstance(e, Raised) and np.isnan(e[:2]).all() and e[2] == 0 and e[3] == 1,
             'Debye function of NaN, a negative, an infinite number and 0', got=e)
        m.ok(np.shape(m.call(f, [])) == (0,) and np.shape(m.call(f, np.zeros((0, 3)))) == (0, 3), 'empty arrays')


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=200)
def clausen(m):
    from copulae.special.clausen import clausen as C
    pi = math.pi
    centres = [0., pi, 2 * pi, -pi, -2 * pi, pi / 3, pi / 2, 4 * pi, 20 * pi, 6.28125]
    for i in range(8 if not m.thorough else 40):
        x = cluster(m.rng, 40, centres, -14, 2) if i else ladder(m.rng, centres)
        # near the zeros k * pi the argument itself is only known to |x| eps
        native(m, 'clausen', C, x, _clausen, 1e-12, 1e-13 + 1e-13)
    e = m.call(C, np.array([np.nan, 0.]))
    m.case('clausen', 'edge')
    m.ok(not isinstance(e, Raised) and np.isnan(e[0]) and e[1] == 0, 'Clausen function of NaN and 0', got=e)
    m.ok(np.shape(m.call(C, [])) == (0,), 'empty arrays')


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=200)
def dilog(m):
    from copulae.special.dilog import dilog as L, dilog_complex as LC
    rng = m.rng
    C = [0., .25, .5, 1., 1.01, 2., -1., -2., -.5, 12.595]
    for i in range(8 if not m.thorough else 40):
        x = cluster(rng, 40, C, -14, 250) if i else ladder(rng, C)
        native(m, 'dilog', L, x, _dilog, 1e-12, 2e-14)
        # complex: polar coordinates, with the modulus around 1 and the circle of the series change-overs
        n = 40
        r = np.abs(cluster(rng, n, [0., .25, .98, 1., .5, .732, 1 / .98, 4.], -10, 6))
        if not i:
            r = np.abs(ladder(rng, [.98, 1., 1 / .98]))
            n = len(r)
        th = np.clip(cluster(rng, n, [0., math.pi / 2, math.pi / 3, -math.pi / 2, 2., -3.], -8, 0), -3.1415926, 3.1415926)
        th[rng.random(n) < 0.1] = math.pi
        if i % 2:  # angles of any number of turns
            th = th + 2 * math.pi * rng.integers(-3, 4, n)
        keep = ~((r > 1) & (np.abs(r * np.sin(th)) < 1e-12) & (np.cos(th) > 0))  # which side of the cut
        r, th = r[keep], th[keep]
        with mp.workdps(40):
            want = np.array([complex(mp.polylog(2, mp.mpf(a) * mp.expj(mp.mpf(b)))) if a > 0 else 0j
                             for a, b in zip(r, th)])
        for a, b in zip(r, th):
            m.case('dilog_complex', float(a), float(b))
        tol = dict(rtol=1e-10, atol=1e-13)
        got = m.call(LC, r, th)
        if m.close(got, want, 'dilog_complex', r=r, theta=th, **tol):
            j = int(rng.integers(len(r)))
            m.close(m.call(LC, r[j], th[j]), got[j], 'dilog_complex of a scalar', rtol=1e-12)
            m.close(m.call(LC, r, th, threaded=False), got, 'dilog_complex: threads do not change the values', rtol=0)
            k = len(r) // 2 * 2
            m.close(m.call(LC, r[:k].reshape(2, -1), th[:k].reshape(2, -1)), got[:k].reshape(2, -1),
                    'dilog_complex of a matrix', rtol=1e-12)
            z = r * np.exp(1j * th)
            big = np.abs(z.imag) > 1e-9
            m.close(m.call(LC, z[big]), got[big], 'dilog_complex of complex numbers', rtol=1e-8, atol=1e-8)
    e = m.call(L, np.array([np.nan, 0., 1., np.inf, -np.inf]))
    m.case('dilog', 'edge')
    m.close(e, [np.nan, 0, np.pi ** 2 / 6, -np.inf, -np.inf], 'dilogarithm of NaN, 0, 1 and infinite numbers', rtol=1e-14)
    m.ok(np.shape(m.call(L, [])) == (0,), 'empty arrays')
    m.raises('dilog_complex of different shapes', (AssertionError, ValueError), LC, np.ones(3), np.ones(4))


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=200)
def polylog(m):
    from copulae.special.special_func import poly_log
    rng = m.rng
    for i in range(60 if not m.thorough else 300):
        s = int(rng.choice([2, 1, 0, -1, -2, -3, -5, -8, -12, -20]))
        meth = str(rng.choice(['default', 'neg-stirling', 'neg-eulerian'])) if s < 1 else 'default'
        log = bool(rng.random() < 0.4)
        n = int(rng.integers(2, 8))
        if log:
            z = 1 - 10 ** rng.uniform(-6, 0, n) if rng.random() < 0.5 else 10 ** rng.uniform(-6, -0.01, n)
            z = np.clip(z, 1e-12, 1 - 1e-9)
        elif s in (2, 1) or s >= -3:
            z = np.clip(cluster(rng, n, [0., .5, .9], -8, .5), -1, .999999) if s != 2 else cluster(rng, n, [0., .5, 2.], -8, 3)
        else:
            z = rng.uniform(0, .99, n)
        isl = log and rng.random() < 0.5
        if isl and rng.random() < .4:  # the logarithms of numbers too small for anything else
            z = np.exp(rng.uniform(-650, -10, n))
        arg = np.log(z) if isl else z

        def ref(v):
            w = mp.exp(mp.mpf(float(v))) if isl else mp.mpf(float(v))
            r = -mp.log1p(-w) if s == 1 else mp.re(mp.polylog(s, w))
            return float(mp.log(r)) if log else float(r)

        with mp.workdps(60):
            want = np.array([ref(v) for v in arg])
            # how far the rounding of the argument carries
            h = np.array([abs(ref(np.nextafter(v, 5)) - w) for v, w in zip(arg, want)])
        f = lambda v: poly_log(v, s, meth, log, isl)
        for v in arg:
            m.case('poly_log', s, meth, log, isl, float(v))
        tol = 1e-9 + 8 * h / np.maximum(np.abs(want), 1e-300)
        got = m.call(f, arg)
        if isinstance(got, Raised):
            m.close(got, want, 'poly_log', z=z, s=s, method=meth, log=log, is_log_z=isl)
            continue
        m.ok(np.shape(got) == np.shape(want) and (np.abs(got - want) <= tol * np.abs(want) + 1e-12).all(), 'poly_log',
             got=got, want=want, z=z, s=s, method=meth, log=log, is_log_z=isl)
        forms(m, f, arg, got, 'poly_log', 1e-12, 0)
    for s in (2, 0, -1, -2, -4):
        z = rng.uniform(-.7, .7, 5) + 1j * rng.uniform(.01, .7, 5)
        with mp.workdps(30):
            want = np.array([complex(mp.polylog(s, mp.mpc(v))) for v in z])
        for meth in (['default', 'neg-eulerian'] if s < 1 else ['default']):
            m.case('poly_log complex', s, meth, repr(z[0]))
            m.close(m.call(poly_log, z, s, meth), want, 'poly_log of complex numbers', rtol=1e-10, atol=1e-12, s=s)


@scenario(P, shards={'quick': 2, 'thorough': 8}, min_events=50)
def logs(m):
    from copulae.special import special_func as F
    rng = m.rng
    for i in range(20 if not m.thorough else 100):
        x = np.abs(cluster(rng, 30, [0., math.log(2), 1., 36., 745.], -300, 3))
        x = x[x > 0]
        with mp.workdps(700):
            w1 = np.array([float(mp.log(-mp.expm1(-mp.mpf(v)))) for v in x])
            y = np.where(rng.random(len(x)) < 0.5, x, -x)
            w2 = np.array([float(mp.log1p(mp.exp(mp.mpf(v)))) for v in y])
        m.case('log1mexp', x.tolist())
        forms(m, F.log1mexp, x, w1, 'log1mexp', 1e-13, 1e-320)
        m.case('log1pexp', y.tolist())
        forms(m, F.log1pexp, y, w2, 'log1pexp', 1e-13, 1e-320)
        a, b = int(rng.integers(1, 20)), int(rng.integers(1, 6))
        L = rng.normal(size=(a, b)) * rng.choice([1, 100, 1e4]) + rng.choice([0, 1e3, -1e5])
        if rng.random() < .3:
            L[rng.random(L.shape) < .3] = -np.inf
        with mp.workdps(40):
            def lse(col):
                s = mp.fsum([mp.exp(mp.mpf(float(v))) for v in col if v > -np.inf])
                return float(mp.log(s)) if s > 0 else -np.inf
            w = np.array([lse(L[:, j]) for j in range(b)])
        before = L.copy()
        m.case('log_sum', L.tolist())
        got = m.call(F.log_sum, L)
        m.close(got, w if b > 1 else w[0], 'log_sum of a matrix', rtol=1e-12, atol=1e-12, L=L)
        m.close(m.call(F.log_sum, L[:, 0]), w[0], 'log_sum of a vector', rtol=1e-12, atol=1e-12)
        off = np.where(np.isfinite(L.max(0)), L.max(0), 0) + rng.uniform(-5, 5, b)
        m.close(m.call(F.log_sum, L, off), w if b > 1 else w[0], 'log_sum with offsets', rtol=1e-11, atol=1e-11)
        far = float(rng.choice([-600, -200, 200, 600]) * rng.uniform(.5, 1))
        hi = np.where(np.isfinite(L.max(0)), L.max(0), 0)
        m.close(m.call(F.log_sum, L, hi + far), w if b > 1 else w[0], 'log_sum with offsets far from the numbers',
                rtol=1e-11, atol=1e-11, L=L, far=far)
        m.close(m.call(F.log_sum, L[:, 0], float(off[0])), w[0], 'log_sum with an offset', rtol=1e-11, atol=1e-11)
        m.ok(np.array_equal(L, before), 'log_sum leaves its argument alone')
    m.raises('log_sum with too few offsets', (AssertionError, ValueError), F.log_sum, np.zeros((3, 3)), [1., 2.])
    m.raises('log_sum of a cube', ValueError, F.log_sum, np.zeros((3, 3, 3)))


@scenario(P, shards={'quick': 1, 'thorough': 8}, min_events=50)
def trig(m):
    from copulae.special import trig as T
    rng = m.rng
    for i in range(30 if not m.thorough else 200):
        x = cluster(rng, 12, [0., .5, 1., 1.5, 2., -1., .25], -8, 1.5)
        for half in (False, True):
            w = x / 2 if half else x
            with mp.workdps(40):
                c = np.array([float(mp.cospi(mp.mpf(float(v)))) for v in w])
                s = np.array([float(mp.sinpi(mp.mpf(float(v)))) for v in w])
            suf = '2' if half else ''
            m.case('trig', suf, x.tolist())
            forms(m, getattr(T, 'cospi' + suf), x, c, 'cospi' + suf, 1e-12, 1e-12)
            forms(m, getattr(T, 'sinpi' + suf), x, s, 'sinpi' + suf, 1e-12, 1e-12)
            for fn, ref_ in ((T.cospi, np.cos), (T.sinpi, np.sin), (T.cospi2, np.cos), (T.sinpi2, np.sin)):
                for n in (2, 3):
                    y = x[:n]
                    m.close(m.call(fn, y), ref_(y * np.pi / (2 if fn.__name__.endswith('2') else 1)),
                            f'{fn.__name__} of a short vector', rtol=1e-9, atol=1e-9)
            ok = np.abs(c) > 1e-5
            if ok.sum() >= 2:
                forms(m, getattr(T, 'tanpi' + suf), x[ok], (s / np.where(ok, c, 1))[ok], 'tanpi' + suf, 1e-6, 1e-12)


@scenario(P, shards={'quick': 1, 'thorough': 8}, min_events=100)
def roots(m):
    from copulae.special.optimize import find_root
    rng = m.rng
    for i in range(200 if not m.thorough else 2000):
        r = float(rng.normal() * 10 ** rng.uniform(-2, 3))
        k = int(rng.integers(4))
        c = float(rng.uniform(.1, 3)) * rng.choice([-1, 1])
        f = [lambda x: c * (x - r), lambda x: c * ((x - r) + (x - r) ** 3), lambda x: c * np.arctan((x - r) / (1 + abs(r))),
             lambda x: c * np.expm1(np.clip((x - r) / (1 + abs(r)), -30, 30))][k]
        # a bracket, or an interval to be extended, in either order
        w = 10 ** rng.uniform(-1, 2) * (1 + abs(r))
        a, b = r - w * rng.uniform(.1, 1), r + w * rng.uniform(.1, 1)
        how = 'bracket'
        if rng.random() < 0.4:
            how = 'extend'
            # the search extends the interval by a factor: the root is on its side of zero
            a = r * math.exp(rng.choice([-1, 1]) * rng.uniform(.1, 4))
            b = a * math.exp(rng.uniform(.1, 2) * (1 if abs(a) > abs(r) else -1))
            a, b = min(a, b), max(a, b)
        if rng.random() < 0.3:
            a, b = b, a
        seen = []

        def g(x):
            seen.append(float(x))
            return f(x)
        m.case(k, how, r, a, b)
        got = m.call(find_root, g, a, b)
        m.count('evaluations of the function', len(seen))
        m.close(got, r, 'root', rtol=1e-8, atol=1e-8, a=a, b=b, how=how, k=k)
        if how == 'bracket':
            m.ok(min(seen) >= min(a, b) and max(seen) <= max(a, b), 'the search stays in a bracket of the root', a=a, b=b,
                 lo=min(seen), hi=max(seen))
    for i in range(20):  # a root at an end of the interval
        r, w = float(rng.integers(-50, 50)), float(10 ** rng.uniform(-2, 2))
        f = [lambda x: x - r, lambda x: np.arctan(r - x)][i % 2]
        a, b = (r, r + w) if rng.random() < .5 else (r - w, r)
        m.case('end', i % 2, r, w)
        m.close(m.call(find_root, f, a, b), r, 'root at an end of the interval', rtol=0, atol=1e-8, a=a, b=b)
    m.raises('function without roots', AssertionError, find_root, lambda x: x * x + 1, -1, 1)
    m.raises('a root finder without a function', AssertionError, find_root, 3, -1, 1)
