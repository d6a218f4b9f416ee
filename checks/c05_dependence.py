"""One case = one dependence quantity (Kendall's tau, Spearman's rho, tail dependence, one of their inverses or
derivatives) read from a copula with generated parameters. Non-trivial = distinct (quantity, family, parameters)."""
import mpmath as mp
import numpy as np
from scipy import stats

from vlib import gen, ref
from vlib.core import Raised, scenario

P = 'C05'
ASSUMPTIONS = ['mpmath quadrature of the defining integrals', 'quantities the library declares as not implemented '
               '(Spearman\'s rho of Clayton and Gumbel, inverse rho of Student) are outside the property']


def _form(rng, x):
    """the same numbers in another accepted form"""
    x = np.atleast_1d(x)
    k = rng.integers(4)
    if k == 0:
        return x
    if k == 1:
        return x.tolist()
    if k == 2:
        return tuple(x.tolist())
    return np.asfortranarray(x)


@scenario(P, shards={'quick': 2, 'thorough': 12})
def archimedean(m):
    rng = m.rng
    for _ in range(120 if not m.thorough else 1000):
        f = str(rng.choice(gen.ARCH))
        d = int(rng.choice([2, 2, 2, 3, 4]))
        c, spec = gen.make(rng, f, d, strong=0.985)
        th = spec['theta']
        m.case('measures', f, d, th)
        m.close(m.call(lambda: c.tau), ref.arch_tau(f, th), f'{f}: Kendall\'s tau', rtol=1e-9, atol=1e-9, theta=th)
        lam = m.must(f'{f}: tail dependence', lambda: c.lambda_)
        if lam is not None:
            lo = {'clayton': 2 ** (-1 / th) if th > 0 else 0., 'frank': 0., 'gumbel': 0.}[f]
            up = 2 - 2 ** (1 / th) if f == 'gumbel' else 0.
            m.close(m.call(lambda: float(lam.lower)), lo, f'{f}: lower tail dependence', rtol=1e-10, atol=1e-12, theta=th)
            m.close(m.call(lambda: float(lam.upper)), up, f'{f}: upper tail dependence', rtol=1e-10, atol=1e-12, theta=th)
            m.close(m.call(lambda: [float(v) for v in tuple(lam)]), [lo, up], f'{f}: tail dependence as a tuple',
                    rtol=1e-10, atol=1e-12, theta=th)
        if f == 'frank':
            m.close(m.call(lambda: c.rho), ref.frank_rho(th), 'frank: Spearman\'s rho', rtol=1e-8, atol=1e-8, theta=th)
        # derivative, with and without an argument
        if f != 'frank' or abs(th) >= 0.05:  # (weak dependence: see frank_measures)
            if f == 'clayton':
                want = 2 / (th + 2) ** 2
            elif f == 'gumbel':
                want = th ** -2.
            else:
                h = abs(th) * 1e-4
                want = (ref.arch_tau(f, th + h) - ref.arch_tau(f, th - h)) / (2 * h)
                wr = (ref.frank_rho(th + h) - ref.frank_rho(th - h)) / (2 * h)
                m.close(m.call(lambda: float(c.drho())), wr, 'frank: derivative of rho', rtol=1e-4, atol=1e-6, theta=th)
                m.close(m.call(lambda: float(c.drho(_form(rng, th)))), wr, 'frank: derivative of rho', rtol=1e-4,
                        atol=1e-6, theta=th)
            m.close(m.call(lambda: float(c.dtau())), want, f'{f}: derivative of tau', rtol=1e-5, atol=1e-7, theta=th)
            m.close(m.call(lambda: float(c.dtau(_form(rng, th)))), want, f'{f}: derivative of tau', rtol=1e-5,
                    atol=1e-7, theta=th)


@scenario(P, shards={'quick': 1, 'thorough': 8}, min_events=60)
def frank_measures(m):
    """tau, rho and their derivatives for weak to strong Frank dependence, which the closed forms only give with many digits"""
    from copulae import FrankCopula
    rng = m.rng
    with mp.workdps(60):
        D = lambda n, t: n / t ** n * mp.quad(lambda s: s ** n / mp.expm1(s), [0, t / 2, t])
        for i in range(60 if not m.thorough else 400):
            th = float(10 ** rng.uniform(-9 if i % 2 else -1, .5)) * float(rng.choice([-1, 1]))
            t = mp.mpf(th)
            d1, d2, e = D(1, t), D(2, t), t / mp.expm1(t)
            want = {'tau': 1 + 4 / t * (d1 - 1), 'rho': 1 + 12 / t * (d2 - d1), 'dtau': 4 / t ** 2 * (e + 1 - 2 * d1),
                    'drho': 12 / t ** 2 * (e - 3 * d2 + 2 * d1)}
            c = FrankCopula(th, 2)
            m.case('frank', th)
            for q in ('tau', 'rho', 'dtau', 'drho'):
                v = m.call(lambda: getattr(c, q)() if q[0] == 'd' else getattr(c, q))
                m.close(v, float(want[q]), f'frank: {q}', rtol=1e-9, theta=th)
            for q in ('dtau', 'drho'):
                v = m.call(getattr(FrankCopula(1.5, 2), q), _form(rng, th))
                m.close(np.ravel(v) if not isinstance(v, Raised) else v, np.full(np.size(v), float(want[q])), f'frank: {q} of a number',
                        rtol=1e-9, theta=th)
            if abs(want['tau']) > 1e-7:
                m.close(m.call(lambda: float(c.itau(float(want['tau'])))), th, 'frank: itau', rtol=1e-6, tau=float(want['tau']))
    X = np.array([[1., 2, -3], [1e-3, 0, -1e-6]])
    c = FrankCopula(2., 2)
    for q in ('dtau', 'drho'):
        v = m.must(f'frank: {q} of a matrix', getattr(c, q), X)
        if v is not None:
            m.close(v, [[getattr(c, q)(float(x)) for x in r] for r in X], f'frank: {q} of a matrix', rtol=1e-12)
    m.close([c.dtau(0.), c.drho(0.), FrankCopula(0., 2).dtau(), FrankCopula(0., 2).drho()], [1 / 9, 1 / 6] * 2,
            'frank: derivatives at independence', rtol=1e-12)


@scenario(P, shards={'quick': 2, 'thorough': 12})
def archimedean_inverse(m):
    """itau and irho invert tau and rho, for scalars, vectors and matrices of values"""
    rng = m.rng
    cl = gen.classes()
    for _ in range(120 if not m.thorough else 900):
        f = str(rng.choice(gen.ARCH))
        n = int(rng.choice([1, 1, 2, 5]))
        lo = {'clayton': -0.95, 'frank': -0.97, 'gumbel': 0.0}[f]
        t = rng.uniform(lo, 0.97, n)
        if rng.random() < 0.15:
            t[rng.integers(n)] = 0
        if rng.random() < 0.1:
            t[rng.integers(n)] = 10 ** rng.uniform(-6, -2)
        c = cl[f](dim=2)
        m.case('itau', f, t.tolist())
        arg = _form(rng, t) if n > 1 or rng.random() < 0.5 else float(t[0])
        th = m.must(f'{f}: itau', c.itau, arg)
        if th is None:
            continue
        th = np.atleast_1d(np.asarray(th, float))
        if not m.ok(th.shape == t.shape, f'{f}: itau shape', shape=th.shape, n=n):
            continue
        back = np.array([ref.arch_tau(f, v) for v in th])
        m.close(back, t, f'{f}: itau does not invert tau', rtol=1e-6, atol=1e-7, tau=t, theta=th)
        # through the parameter
        for v, want in zip(th, t):
            c.params = v
            m.close(m.call(lambda: float(c.tau)), want, f'{f}: tau of the calibrated copula', rtol=1e-6, atol=1e-6)
        if f == 'frank':
            r = float(rng.uniform(-0.97, 0.97))
            if abs(r) < 1e-3:
                continue
            v = m.must('frank: irho', cl['frank'](dim=2).irho, r)
            if v is not None and not isinstance(v, type(NotImplemented)):
                m.close(ref.frank_rho(float(v)), r, 'frank: irho does not invert rho', rtol=1e-5, atol=1e-6, rho=r)
        if f == 'gumbel':  # negative dependence is impossible: the independence parameter
            neg = rng.uniform(-0.9, 0.6, int(rng.choice([1, 4])))
            keep = neg.copy()
            v = m.must('gumbel: itau', c.itau, neg if rng.random() < 0.7 or len(neg) > 1 else float(neg[0]))
            m.ok(np.array_equal(neg, keep), 'gumbel: itau changes its argument', before=keep, after=neg)
            m.close(np.atleast_1d(np.asarray(v, float)), 1 / (1 - np.maximum(keep, 0)), 'gumbel: itau of negative values',
                    rtol=1e-12, tau=keep)
        if f == 'clayton' or rng.random() < 0.3:  # a matrix of values, as from a correlation matrix
            M = rng.uniform(-0.9 if f != 'gumbel' else -0.6, 0.9, tuple(rng.integers(1, 4, 2)))
            M[np.abs(M) < 0.02] = 0.3
            m.case('itau of a matrix', f, M.tolist())
            v = m.must(f'{f}: itau of a matrix', cl[f](dim=2).itau, M.copy() if rng.random() < .6 else M.tolist())
            if v is None or not m.ok(np.shape(v) == M.shape or M.size == 1 == np.size(v), f'{f}: itau of a matrix: shape',
                                     got=np.shape(v)):
                continue
            w = np.maximum(M, 0) if f == 'gumbel' else M
            m.close(np.array([ref.arch_tau(f, x) for x in np.ravel(v)]), w.ravel(), f'{f}: itau of a matrix does not invert tau',
                    rtol=1e-6, atol=1e-7, tau=M)


@scenario(P, shards={'quick': 2, 'thorough': 12})
def elliptical(m):
    rng = m.rng
    for _ in range(120 if not m.thorough else 1000):
        f = str(rng.choice(['gaussian', 'student']))
        d = int(rng.choice([2, 2, 3, 4, 5]))
        c, spec = gen.make(rng, f, d)
        if rng.random() < 0.2:  # perfect dependence is allowed
            r = np.ones(d * (d - 1) // 2)
            if d == 2 and rng.random() < 0.5:
                r = -r
            if f == 'gaussian':
                c.params = r
            else:
                c.params = np.r_[spec['df'], r]
        elif rng.random() < 0.25:  # nearly perfect dependence, and anything from very few to very many degrees of freedom
            r = np.full(d * (d - 1) // 2, 1 - 10 ** rng.uniform(-9, -0.5))
            if d == 2 and rng.random() < 0.3:
                r = -r
            if f == 'gaussian':
                c.params = r
            else:
                spec['df'] = float(10 ** rng.uniform(-0.5, 7))
                c.params = np.r_[spec['df'], r]
        else:
            r = ref.rhos_of(spec['S'])
        m.case('measures', f, d, r.tolist(), spec.get('df'))
        m.close(m.call(lambda: np.ravel(c.tau)), 2 / np.pi * np.arcsin(r), f'{f}: Kendall\'s tau', rtol=1e-10, atol=1e-12)
        if f == 'gaussian':  # the closed form holds for the Gaussian copula
            m.close(m.call(lambda: np.ravel(c.rho)), 6 / np.pi * np.arcsin(r / 2), 'gaussian: Spearman\'s rho', rtol=1e-10,
                    atol=1e-12)
            x = np.array([[-1., 1.], [1.], [0., 1.], [-1.]][rng.integers(4)])
            m.close(m.call(lambda: np.ravel(c.irho(_form(rng, x)))), 2 * np.sin(np.pi / 6 * x), 'gaussian: irho of perfect '
                    'dependence', rtol=1e-12, atol=1e-13)
            x = rng.uniform(-0.99, 0.99, int(rng.choice([1, 3])))
            m.close(m.call(lambda: np.ravel(c.irho(_form(rng, x)))), 2 * np.sin(np.pi / 6 * x), 'gaussian: irho',
                    rtol=1e-10, atol=1e-13)
            m.close(m.call(lambda: np.ravel(c.drho())), 6 / (np.pi * np.sqrt(4 - r ** 2)), 'gaussian: derivative of rho',
                    rtol=1e-9)
            m.close(m.call(lambda: np.ravel(c.drho(_form(rng, x)))), 6 / (np.pi * np.sqrt(4 - x ** 2)),
                    'gaussian: derivative of rho', rtol=1e-9)
        x = np.array([[-1., 1.], [1.], [0., 1.], [-1.]][rng.integers(4)])
        m.close(m.call(lambda: np.ravel(c.itau(_form(rng, x)))), np.sin(np.pi / 2 * x), f'{f}: itau of perfect dependence',
                rtol=1e-12, atol=1e-13)
        x = rng.uniform(-0.99, 0.99, int(rng.choice([1, 3])))
        m.close(m.call(lambda: np.ravel(c.itau(_form(rng, x)))), np.sin(np.pi / 2 * x), f'{f}: itau', rtol=1e-10, atol=1e-13)
        m.close(m.call(lambda: np.ravel(c.dtau(_form(rng, x)))), 2 / (np.pi * np.sqrt(1 - x ** 2)), f'{f}: derivative of tau',
                rtol=1e-9)
        if np.all(np.abs(r) < 1):
            m.close(m.call(lambda: np.ravel(c.dtau())), 2 / (np.pi * np.sqrt(1 - r ** 2)), f'{f}: derivative of tau',
                    rtol=1e-9)
        lam = m.must(f'{f}: tail dependence', lambda: c.lambda_)
        if lam is None:
            continue
        if f == 'gaussian':
            want = (r == 1).astype(float)
        else:
            df = spec['df']
            with np.errstate(all='ignore'):
                want = 2 * stats.t.cdf(-np.sqrt((df + 1) * (1 - r) / (1 + r)), df + 1)
            want[r == -1] = 0
        m.close(m.call(lambda: np.ravel(lam.lower).astype(float)), want, f'{f}: lower tail dependence', rtol=1e-9, atol=1e-12,
                r=r, df=spec.get('df'))
        m.close(m.call(lambda: np.ravel(lam.upper).astype(float)), want, f'{f}: upper tail dependence', rtol=1e-9, atol=1e-12,
                r=r, df=spec.get('df'))


@scenario(P, shards={'quick': 2, 'thorough': 8}, weight=2)
def from_cdf(m):
    """the measures agree with the copula's own distribution function: rho = 12 int C - 3, tail dependence as a limit"""
    rng = m.rng
    x, w = np.polynomial.legendre.leggauss(60)
    x, w = (x + 1) / 2, w / 2
    # transformed to resolve the corners
    g = x ** 3 * (10 - 15 * x + 6 * x ** 2)
    wg = w * 30 * x ** 2 * (1 - x) ** 2
    U, V = np.meshgrid(g, g)
    pts = np.column_stack([U.ravel(), V.ravel()])
    W = np.outer(wg, wg).ravel()
    for _ in range(40 if not m.thorough else 400):
        f = str(rng.choice(['frank', 'gaussian', 'frank', 'clayton', 'gumbel']))
        c, spec = gen.make(rng, f, 2, strong=0.8)
        th = spec.get('theta', None if 'S' not in spec else spec['S'][0, 1])
        m.case('own cdf', f, th)
        C = m.must(f'{f} cdf', c.cdf, pts)
        if C is None:
            continue
        rho = 12 * float(W @ C) - 3
        if f in ('frank', 'gaussian'):
            m.close(m.call(lambda: float(np.ravel(c.rho)[0])), rho, f'{f}: Spearman\'s rho does not belong to the cdf',
                    rtol=0, atol=2e-4, theta=th)
        t = float(np.ravel(c.tau)[0])
        # tau and rho of one copula: 3 tau - 1 <= 2 rho <= 1 + 2 tau - tau^2 (tau >= 0)
        if t >= 0:
            m.ok(3 * t / 2 - 0.5 - 1e-3 <= rho <= 0.5 + t - t * t / 2 + 1e-3, f'{f}: tau and the cdf contradict',
                 tau=t, rho=rho, theta=th)
        else:
            m.ok(t * t / 2 + t - 0.5 - 1e-3 <= rho <= 1.5 * t + 0.5 + 1e-3, f'{f}: tau and the cdf contradict',
                 tau=t, rho=rho, theta=th)
        if f in gen.ARCH:
            e = 1e-4
            lam = c.lambda_
            lo = float(c.cdf([e, e])) / e
            up = (1 - 2 * (1 - e) + float(c.cdf([1 - e, 1 - e]))) / e
            if f == 'frank' or f == 'clayton' and spec['theta'] > 0.5:  # converges slowly otherwise
                m.close(float(lam.lower), lo, f'{f}: lower tail dependence is not the limit of the cdf', rtol=0, atol=0.02,
                        theta=th)
            m.close(float(lam.upper), up, f'{f}: upper tail dependence is not the limit of the cdf', rtol=0, atol=0.02,
                    theta=th)


@scenario(P, shards={'quick': 1, 'thorough': 8}, weight=2)
def from_samples(m):
    """tau of the copula = tau of its sample"""
    rng = m.rng
    n = 4000
    for _ in range(40 if not m.thorough else 300):
        f = str(rng.choice(['frank', 'gaussian', 'clayton', 'gumbel', 'student']))
        d = int(rng.choice([2, 3]))
        c, spec = gen.make(rng, f, d, strong=0.9)
        if f == 'clayton' and abs(spec['theta']) > 25:
            continue
        m.case('own sample', f, d, spec.get('theta'), spec.get('S'), spec.get('df'))
        x = m.call(c.random, n)
        if isinstance(x, Raised):
            m.fail(f'{f} random: unexpected exception', error=repr(x))
            continue
        t = np.ravel(c.tau)
        pairs = [(i, j) for i in range(d) for j in range(i + 1, d)]
        if len(t) == 1:
            t = np.repeat(t, len(pairs))
        for (i, j), want in zip(pairs, t):
            got = stats.kendalltau(x[:, i], x[:, j]).statistic
            # var(tau_hat) <= 2 (1 - tau^2) / n; 7.5 standard errors and a little slack
            m.ok(abs(got - want) < 7.5 * np.sqrt(2 * (1 - want ** 2) / n) + 2e-3, f'{f}: tau is not that of the sample',
                 got=got, want=want, pair=(i, j), **spec)
