"""One case = one evaluation of a density (multivariate t, stable) at generated points and parameters, or one sample drawn
from one of the library's own random number generators (multivariate t of both kinds, stable in three parametrisations,
logarithmic series, uniform). Densities are compared with closed forms and with inverted characteristic functions, samples
with their distribution function at the 1e-10 level. Non-trivial = distinct (law, parameters, form, points)."""
import math

import numpy as np
from scipy import special, stats

from vlib import gen
from vlib.core import Raised, scenario

P = 'C20'
ASSUMPTIONS = ['characteristic functions inverted by composite Gauss-Legendre quadrature', 'scipy t, F and noncentral t '
               'distribution functions', 'statistical decisions at the 1e-10 level per test']
ALPHA = 1e-10


def t_logpdf(x, mean, S, df):
    x = np.atleast_2d(x)
    d = x.shape[1]
    z = np.linalg.solve(np.linalg.cholesky(S), (x - mean).T)
    q = (z ** 2).sum(0)
    if df > 1e6:
        lc = -d / 2 * np.log(2 * np.pi)
    else:
        lc = special.loggamma((df + d) / 2) - special.loggamma(df / 2) - d / 2 * np.log(df * np.pi)
    return lc - np.linalg.slogdet(S)[1] / 2 - (df + d) / 2 * np.log1p(q / df), q


def _cov(rng, d):
    s = 10 ** rng.uniform(-1, 1, d)
    return gen.rand_corr(rng, d) * np.outer(s, s)


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=100)
def t_density(m):
    from copulae.stats import multivariate_t as mt
    rng = m.rng
    for _ in range(200 if not m.thorough else 2000):
        d = int(rng.integers(1, 7))
        S = _cov(rng, d) if d > 1 else np.array([[10 ** rng.uniform(-2, 2)]])
        if np.linalg.cond(S) > 1e8:
            continue
        df = float(rng.choice([10 ** rng.uniform(-2, 3.9), rng.integers(1, 30), 1, 2, 9999, 12000, 1e5]))
        mean = rng.normal(0, 3, d)
        n = int(rng.choice([1, 2, 5, 40]))
        x = mean + rng.standard_t(2, (n, d)) * np.sqrt(np.diag(S)) * 10 ** rng.uniform(-2, 2)
        want, q = t_logpdf(x, mean, S, df)
        ctx = dict(x=x, mean=mean, cov=S, df=df)
        tol = 1e-9 * max(1, np.linalg.cond(S) / 1e3)
        if df > 10000:  # taken as normal
            ok = q < np.sqrt(df) / 10
            tol = 0.02
        else:
            ok = np.ones(n, bool)
        args = [(mean, S, df), (mean.tolist(), S.tolist(), df)]
        if d == 1:  # one dimension: plain numbers
            args += [(float(mean[0]), float(S[0, 0]), df), (mean, float(S[0, 0]), df), (mean.tolist(), [[float(S[0, 0])]], df)]
        m.case('mvt pdf', d, df, mean.tolist(), S.tolist(), x.tolist())
        for a in args:
            lg = m.must('multivariate t logpdf', mt.logpdf, x, *a)
            g = m.must('multivariate t pdf', mt.pdf, x, *a)
            if lg is None or g is None:
                continue
            lg, g = np.ravel(lg), np.ravel(g)
            if not m.ok(lg.shape == (n,) == g.shape, 'one density per point', got=lg.shape, **ctx):
                continue
            m.close(lg[ok], want[ok], 'log density of the multivariate t', rtol=tol, atol=tol, **ctx)
            with np.errstate(all='ignore'):
                m.close(g[ok], np.exp(want[ok]), 'density of the multivariate t', rtol=tol * 1e3, atol=1e-300, **ctx)
        if np.all(mean == mean[0]) or rng.random() < .3:
            m.close(np.ravel(m.call(mt.logpdf, x - mean, None, S, df))[ok], want[ok],
                    'log density of the multivariate t with default mean', rtol=tol, atol=tol, **ctx)
        one = np.ravel(m.call(mt.logpdf, x[0], mean, S, df)) if d > 1 else np.ravel(m.call(mt.logpdf, x[:, 0], mean, S, df))
        m.close(one[:1][ok[:1]], want[:1][ok[:1]], 'log density of a single point', rtol=tol, atol=tol, **ctx)
        if d == 1:
            v = m.call(mt.logpdf, float(x[0, 0]), float(mean[0]), float(S[0, 0]), df)
            m.close(np.ravel(v)[ok[:1]], want[:1][ok[:1]], 'log density with scalar arguments', rtol=tol, atol=tol, **ctx)
        m.close(np.ravel(m.call(mt.logpdf, x - mean, cov=S)), t_logpdf(x - mean, 0, S, 4.6692)[0],
                'log density with the default degrees of freedom', rtol=1e-7, atol=1e-7, x=x, cov=S)
        if rng.random() < .3:
            m.raises('density with invalid degrees of freedom', ValueError, mt.pdf, x, mean, S, float(rng.choice([0, -1.5])))
            m.raises('density with a mean of the wrong length', ValueError, mt.pdf, x, np.r_[mean, 1.], S, df)
            if d > 1:
                B = S.copy()
                B[0, 1] = B[1, 0] = 1.5 * np.sqrt(S[0, 0] * S[1, 1])
                m.raises('density with an indefinite covariance', ValueError, mt.pdf, x, mean, B, df)


def _ks(m, z, cdf, what, **ctx):
    p = stats.kstest(z, cdf).pvalue
    m.ok(p > ALPHA, what, p=p, n=len(z), **ctx)


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=12)
def t_variates(m):
    from copulae.stats import multivariate_t as mt
    rng = m.rng
    n = 20000 if not m.thorough else 200000
    for _ in range(25 if not m.thorough else 120):
        d = int(rng.integers(1, 5))
        S = _cov(rng, d) if d > 1 else np.array([[10 ** rng.uniform(-1, 1)]])
        if np.linalg.cond(S) > 1e6:
            continue
        df = float(rng.choice([10 ** rng.uniform(-.3, 2.5), rng.integers(1, 30), 20000.]))
        mean = rng.normal(0, 2, d) * np.sqrt(np.diag(S))
        seed = int(rng.integers(2 ** 31)) if rng.random() < .5 else None
        ty = str(rng.choice(['shifted', 'Shifted', 'Kshirsagar', 'kshirsagar']))
        shp = n if rng.random() < .7 else (4, n // 4)
        ctx = dict(d=d, df=df, mean=mean, cov=S, kind=ty, size=shp, seed=seed)
        m.case('mvt rvs', d, df, mean.tolist(), S.tolist(), ty, shp, seed)
        cov, loc = S, mean
        form = 3 if d == 1 and rng.random() < .6 else int(rng.integers(4))
        if form == 1:
            cov, loc = S.tolist(), mean.tolist()
        elif form == 2:
            loc = np.rint(mean).astype(int)
            mean = loc.astype(float)
        elif form == 3 and d == 1 and df <= 10000:
            cov, loc = float(S[0, 0]), float(mean[0])
            if rng.random() < .3:
                mean = np.rint(mean)
                loc = int(mean[0])
        ctx.update(mean=loc, cov=cov)
        kw = dict(size=shp, type_=ty, random_state=seed)
        zero = rng.random() < .2
        r = m.must('multivariate t rvs', mt.rvs, None if zero else loc, cov, df, **kw)
        if r is None:
            continue
        mu = np.zeros(d) if zero else mean
        want_shape = ((n,) if np.isscalar(shp) else shp) + (() if d == 1 and np.isscalar(shp) else (d,))
        if d == 1:
            m.ok(r.size == n, 'number of variates', got=r.shape, **ctx)
        else:
            m.ok(r.shape == want_shape, 'shape of the variates', got=r.shape, want=want_shape, **ctx)
        if r.size != n * d:
            continue
        if seed is not None:
            np.random.random(3)
            r2 = m.must('multivariate t rvs', mt.rvs, None if zero else loc, cov, df, **kw)
            m.ok(r2 is not None and np.array_equal(r, r2), 'variates with the same seed differ', **ctx)
        r = np.asarray(r).reshape(n, d)
        sd = np.sqrt(np.diag(S))
        shifted = ty.lower() == 'shifted' or df > 10000 or zero
        z = (r - mu) / sd if shifted else r / sd
        for j in range(d):
            f = (lambda v, j=j: stats.t.cdf(v, df)) if shifted else (lambda v, j=j: stats.nct.cdf(v, df, mu[j] / sd[j]))
            if not shifted and abs(mu[j] / sd[j]) > 4:
                continue
            _ks(m, z[:, j], f, 'margin of the multivariate t variates', column=j, **ctx)
        w = np.linalg.solve(np.linalg.cholesky(S), (r - mu if shifted else r).T)
        q = (w ** 2).sum(0)
        for lag in (1, n // 4):  # successive variates, and those of successive rows
            s = stats.spearmanr(q[:-lag], q[lag:]).pvalue
            m.ok(s > ALPHA, 'variates are dependent', p=s, lag=lag, **ctx)
        if shifted:
            w = np.linalg.solve(np.linalg.cholesky(S), (r - mu).T)
            q = (w ** 2).sum(0) / d
            _ks(m, q, stats.f(d, df).cdf, 'distances of the multivariate t variates', **ctx)
            if d > 1:  # directions are uniform and independent of the distance
                e = w / np.sqrt((w ** 2).sum(0))
                c = np.abs(e @ e.T / n - np.eye(d) / d).max() * np.sqrt(n)
                m.ok(c < 8, 'directions of the multivariate t variates', z=c, **ctx)
                k = stats.kendalltau(q[:4000], np.abs(e[0, :4000])).pvalue
                m.ok(k > ALPHA, 'directions depend on the distance', p=k, **ctx)
        if rng.random() < .5:
            one = m.call(mt.rvs, mean, S, df)
            m.ok(not isinstance(one, Raised) and np.size(one) == d, 'a single variate', got=one, **ctx)
            if d == 1:
                m.ok(np.ndim(one) == 0, 'a single variate is a scalar', got=one, **ctx)
            m.raises('variates without degrees of freedom', ValueError, mt.rvs, mean, S)
            m.raises('variates with invalid degrees of freedom', ValueError, mt.rvs, mean, S, -1.)
            m.raises('variates of unknown type', ValueError, mt.rvs, mean, S, 3., 4, 'other')
            m.raises('fractional size', ValueError, mt.rvs, mean, S, 3., 2.5)


# --- stable laws -------------------------------------------------------------------------------------------------
_GL = np.polynomial.legendre.leggauss(24)


def _cf_grid(alpha, xmax):
    """nodes and weights over t for exp(-t^alpha) to 1e-17 and oscillation up to xmax, graded towards 0"""
    T = 40 ** (1 / alpha)
    step = min(8 / max(xmax, 1), T / 20)
    edges = [0.]
    h = 1e-12
    while edges[-1] < T:
        edges.append(edges[-1] + h)
        h = min(h * 2, step)
    e = np.array(edges)
    x, w = _GL
    a, b = e[:-1, None], e[1:, None]
    return ((b - a) / 2 * x + (a + b) / 2).ravel(), ((b - a) / 2 * w).ravel()


def _phase(t, alpha, beta):
    """minus the imaginary part of the log characteristic function, S0"""
    if alpha == 1:
        return beta * 2 / np.pi * t * np.log(t)
    return beta * np.tan(np.pi * alpha / 2) * (t - t ** alpha)


def stable_ref(x, alpha, beta):
    """density and distribution function in the S0 parametrisation"""
    x = np.ravel(np.asarray(x, float))
    t, w = _cf_grid(alpha, np.abs(x).max())
    a, ph = w * np.exp(-t ** alpha), _phase(t, alpha, beta)
    f, F = np.empty(len(x)), np.empty(len(x))
    for i, v in enumerate(x):
        g = t * v + ph
        f[i] = (a * np.cos(g)).sum() / np.pi
        F[i] = .5 + (a / t * np.sin(g)).sum() / np.pi
    return f, F


def _to_s0(alpha, beta, gamma, delta, pm):
    if pm == 1:
        shift = beta * gamma * (2 / np.pi * np.log(gamma) if alpha == 1 else np.tan(np.pi * alpha / 2) if alpha != 2 else 0)
        return gamma, delta + shift
    return gamma, delta


def _stable_par(rng, lo=.5):
    r = rng.random()
    alpha = float(rng.choice([.5, 1., 1.5, 2., .75, 1.25]) if r < .4 else rng.uniform(lo, 2))
    if .9 < alpha < 1.1:
        alpha = 1.
    beta = float(rng.choice([0., rng.uniform(-.95, .95), .5, -.5, rng.choice([-1, 1]) * 10 ** rng.uniform(-12, -1)]))
    return alpha, beta


@scenario(P, shards={"quick": 4, "thorough": 32}, weight=3, min_events=15)
def stable_density(m):
    from copulae.stats import skew_stable as ss
    rng = m.rng
    for _ in range(24 if not m.thorough else 150):
        alpha, beta = _stable_par(rng)
        gamma, delta = (1., 0.) if rng.random() < .4 else (float(10 ** rng.uniform(-1, 1)), float(rng.normal(0, 3)))
        pm = int(rng.choice([0, 0, 1]))
        z = np.r_[rng.uniform(-3, 3, 3), rng.uniform(-20, 20, 1), rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 1.5, 1)]
        g0, d0 = _to_s0(alpha, beta, gamma, delta, pm)
        x = d0 + g0 * z
        want = stable_ref(z, alpha, beta)[0] / g0
        ctx = dict(alpha=alpha, beta=beta, gamma=gamma, delta=delta, pm=pm, x=x)
        m.case('stable pdf', alpha, beta, gamma, delta, pm, x.tolist())
        kw = dict(gamma=gamma, delta=delta, pm=pm)
        g = m.must('stable pdf', ss.pdf, x, alpha, beta, **kw)
        if g is None:
            continue
        m.close(g, want, 'density of the stable law', rtol=2e-3 if abs(alpha - 1) < .2 else 5e-4, atol=2e-6 / g0, **ctx)
        ok = want * g0 > 1e-4
        lg = m.call(ss.logpdf, x, alpha, beta, **kw)
        m.close(lg[ok] if not isinstance(lg, Raised) else lg, np.log(want[ok]), 'log density of the stable law', rtol=1e-3,
                atol=3e-3, **ctx)
        m.close(m.call(ss.pdf, x, alpha, beta, log=True, **kw), lg, 'stable density with log=True', rtol=1e-12, **ctx)
        if pm == 0:  # the parametrisation that is meant if none is named
            m.close(m.call(ss.pdf, x, alpha, beta, gamma, delta), g, 'stable density: the parametrisation left out', rtol=1e-12, **ctx)
            m.close(m.call(ss.logpdf, x, alpha, beta, gamma, delta), lg, 'stable log density: the parametrisation left out',
                    rtol=1e-12, **ctx)
        form = int(rng.integers(4))
        if form == 0:
            m.close([m.call(ss.pdf, float(v), alpha, beta, **kw) for v in x], g, 'stable density of scalars', rtol=1e-9, **ctx)
        elif form == 1:
            m.close(m.call(ss.pdf, x.tolist(), alpha, beta, gamma, delta, pm), g, 'stable density of a list', rtol=1e-9, **ctx)
        elif form == 2:
            m.close(m.call(ss.pdf, x[:4].reshape(2, 2), alpha, beta, **kw), g[:4].reshape(2, 2),
                    'stable density of a matrix', rtol=1e-9, **ctx)
        else:  # mirror image
            m.close(m.call(ss.pdf, -x, alpha, -beta, gamma=gamma, delta=-delta, pm=pm), g, 'mirrored stable density',
                    rtol=2e-3, atol=2e-6 / g0, **ctx)
    for bad in ((2.5, 0.), (0., 0.), (1.5, 1.2), (-1., 0.)):
        m.raises('invalid stable parameters', AssertionError, ss.pdf, .3, *bad)
        m.raises('invalid stable parameters', AssertionError, ss.rvs, *bad)
    m.raises('invalid parametrisation', AssertionError, ss.pdf, .3, 1.5, .2, pm=3)
    m.raises('negative scale', AssertionError, ss.pdf, .3, 1.5, .2, gamma=-1.)


@scenario(P, shards={'quick': 2, 'thorough': 16}, weight=2, min_events=15)
def stable_tails(m):
    """the density falls off as the power given by the index"""
    from copulae.stats import skew_stable as ss
    rng = m.rng
    for _ in range(40 if not m.thorough else 400):
        alpha, beta = _stable_par(rng)
        if alpha == 2 or abs(alpha - 1) < .15 and alpha != 1 or alpha > 1.95:
            continue
        gamma, delta = (1., 0.) if rng.random() < .5 else (float(10 ** rng.uniform(-1, 1)), float(rng.normal(0, 3)))
        lo = 4 / alpha if alpha != 1 else 4.5
        z = rng.choice([-1, 1], (2, 3)) * 10 ** rng.uniform(lo, lo + float(rng.choice([2, 20])), (2, 3))
        x = delta + gamma * z
        m.case('stable tail', alpha, beta, gamma, delta, x.tolist())
        want = np.log(alpha) + np.log1p(np.sign(z) * beta) + special.gammaln(alpha) - np.log(np.pi) + \
            np.log(np.sin(np.pi * alpha / 2)) - (1 + alpha) * np.log(np.abs(z)) - np.log(gamma)
        ctx = dict(alpha=alpha, beta=beta, gamma=gamma, delta=delta, x=x)
        x = x if rng.random() < .5 else x.ravel()
        want = want.reshape(x.shape)
        m.close(m.call(ss.logpdf, x, alpha, beta, gamma, delta), want, 'log density in the tail of the stable law', rtol=0,
                atol=.02, **ctx)
        m.close(m.call(ss.pdf, x, alpha, beta, gamma, delta), np.exp(want), 'density in the tail of the stable law', rtol=.02,
                atol=1e-290, **ctx)


def _series(z, alpha, beta):
    """expansion of the S0 density for large |z| (convergent or asymptotic), with a bound of its error"""
    x = z + beta * np.tan(np.pi * alpha / 2)
    zeta = np.sign(x) * beta * np.tan(np.pi * alpha / 2)
    total, last = 0., np.inf
    for k in range(1, 120):
        t = math.exp(special.gammaln(k * alpha + 1) - special.gammaln(k + 1) + k / 2 * np.log1p(zeta * zeta) -
                     (k * alpha + 1) * np.log(abs(x))) / np.pi
        if t < 1e-17 * abs(total) or t > last:
            break
        total += (-1) ** (k + 1) * t * np.sin(k * (np.pi * alpha / 2 + np.arctan(zeta)))
        last = t
    return total, last


@scenario(P, shards={'quick': 2, 'thorough': 16}, weight=2, min_events=30)
def stable_middle(m):
    """between the centre and the far tails the density is that of the series expansion"""
    from copulae.stats import skew_stable as ss
    rng = m.rng
    for _ in range(120 if not m.thorough else 1200):
        alpha, beta = _stable_par(rng)
        if abs(alpha - 1) < .05 or alpha > 1.97:
            continue
        gamma, delta = (1., 0.) if rng.random() < .5 else (float(10 ** rng.uniform(-1, 1)), float(rng.normal(0, 3)))
        pm = int(rng.choice([0, 0, 1]))
        g0, d0 = _to_s0(alpha, beta, gamma, delta, pm)
        z = rng.choice([-1, 1], 4) * 10 ** rng.uniform(.7, 6 / alpha, 4)
        for v in z:
            want, err = _series(v, alpha, beta)
            if not err < 1e-6 * want:
                continue
            x = float(d0 + g0 * v)
            m.case('stable middle', alpha, beta, gamma, delta, pm, x)
            ctx = dict(alpha=alpha, beta=beta, gamma=gamma, delta=delta, pm=pm, x=x)
            m.close(m.call(ss.pdf, x, alpha, beta, gamma, delta, pm), want / g0, 'density of the stable law beyond its centre',
                    rtol=4e-3, atol=0, **ctx)
            m.close(m.call(ss.logpdf, x, alpha, beta, gamma, delta, pm), np.log(want / g0), 'log density of the stable law '
                    'beyond its centre', rtol=0, atol=4e-3, **ctx)


@scenario(P, shards={'quick': 1, 'thorough': 8}, weight=2, min_events=50)
def stable_centre(m):
    """next to the point where the integral representation degenerates, and to the mode of symmetric laws"""
    from copulae.stats import skew_stable as ss
    rng = m.rng
    for _ in range(120 if not m.thorough else 1200):
        alpha, beta = _stable_par(rng)
        z = rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -1)
        if alpha != 1 and rng.random() < .5:
            z -= beta * np.tan(np.pi * alpha / 2)
        if abs(z) > 100:
            continue
        z = float(z)
        want = float(stable_ref([z], alpha, beta)[0][0])
        m.case('stable centre', alpha, beta, z)
        ctx = dict(alpha=alpha, beta=beta, x=z)
        m.close(m.call(ss.pdf, z, alpha, beta), want, 'density of the stable law at its centre', rtol=4e-3, atol=2e-6, **ctx)
        if want > 1e-3:
            m.close(m.call(ss.logpdf, z, alpha, beta), np.log(want), 'log density of the stable law at its centre', rtol=0,
                    atol=5e-3, **ctx)


@scenario(P, shards={'quick': 2, 'thorough': 16}, weight=3, min_events=8)
def stable_mode(m):
    """the third parametrisation: the mode is at delta, the scale that of the normal or Cauchy law"""
    from copulae.stats import skew_stable as ss
    rng = m.rng
    for _ in range(16 if not m.thorough else 100):
        alpha, beta = _stable_par(rng, .6)
        if alpha < .6:
            alpha = .75
        gamma, delta = float(10 ** rng.uniform(-1, 1)), float(rng.normal(0, 3))
        ctx = dict(alpha=alpha, beta=beta, gamma=gamma, delta=delta)
        m.case('stable S*', alpha, beta, gamma, delta)
        z = np.array([-.6, -.2, -.05, 0, .05, .2, .6])
        g = m.must('stable pdf', ss.pdf, delta + gamma * z, alpha, beta, gamma=gamma, delta=delta, pm=2)
        if g is None:
            continue
        m.ok(g[3] >= g.max() * (1 - 1e-5), 'the mode is not at delta', g=g, **ctx)
        if beta == 0 and alpha == 2:
            m.close(g, stats.norm.pdf(z) / gamma, 'normal law in the third parametrisation', rtol=1e-9, **ctx)
        if beta == 0 and alpha == 1:
            m.close(g, stats.cauchy.pdf(z) / gamma, 'Cauchy law in the third parametrisation', rtol=1e-9, **ctx)
        g0 = gamma * alpha ** (-1 / alpha)
        # same law up to location: the peak is that of the S0 law of the scale
        zz = np.linspace(-3, 3, 241)
        f = stable_ref(zz, alpha, beta)[0]
        m.close(g[3], f.max() / g0, 'height of the mode in the third parametrisation', rtol=2e-3, **ctx)


@scenario(P, shards={'quick': 2, 'thorough': 16}, weight=3, min_events=8)
def stable_variates(m):
    from copulae.stats import skew_stable as ss
    rng = m.rng
    n = 20000 if not m.thorough else 200000
    for _ in range(14 if not m.thorough else 60):
        alpha, beta = _stable_par(rng)
        if rng.random() < .1:
            beta = float(rng.choice([-1, 1]))
        gamma, delta = (1., 0.) if rng.random() < .3 else (float(10 ** rng.uniform(-1, 1)), float(rng.normal(0, 3)))
        pm = int(rng.choice([0, 1]))
        shp = n if rng.random() < .7 else (n // 4, 4)
        ctx = dict(alpha=alpha, beta=beta, gamma=gamma, delta=delta, pm=pm, size=shp)
        m.case('stable rvs', alpha, beta, gamma, delta, pm, shp)
        kw = dict(gamma=gamma, delta=delta, size=shp)
        if pm == 0 or rng.random() < .5:
            kw['pm'] = pm
        r = m.must('stable rvs', ss.rvs, alpha, beta, **kw)
        if r is None:
            continue
        if not m.ok(np.shape(r) == ((n,) if np.isscalar(shp) else shp), 'shape of the stable variates', got=np.shape(r), **ctx):
            continue
        g0, d0 = _to_s0(alpha, beta, gamma, delta, pm)
        z = (np.ravel(r) - d0) / g0
        m.ok(np.isfinite(z).all(), 'stable variates are not finite', **ctx)
        x = np.array([-30, -10, -4, -2, -1, -.5, -.2, 0, .2, .5, 1, 2, 4, 10, 30.])
        F = stable_ref(x, alpha, beta)[1]
        k = (z[:, None] <= x).sum(0)
        for xi, ki, p in zip(x, k, F):
            lo, hi = max(p - 1e-6, 0), min(p + 1e-6, 1)
            m.ok(stats.binom.sf(ki - 1, n, hi) > ALPHA and stats.binom.cdf(ki, n, lo) > ALPHA,
                 'stable variates do not follow the law', at=xi, observed=ki / n, expected=p, **ctx)
        s = stats.spearmanr(z[:-1], z[1:]).pvalue
        m.ok(s > ALPHA, 'successive stable variates are dependent', p=s, **ctx)


@scenario(P, shards={'quick': 1, 'thorough': 8}, min_events=8)
def log_series(m):
    from copulae.stats.log import random_log_series_ln1p
    rng = m.rng
    n = 20000 if not m.thorough else 200000
    for _ in range(30 if not m.thorough else 200):
        h = -float(rng.choice([10 ** rng.uniform(-5, 1.5), rng.uniform(.1, 5), rng.uniform(20, 36)]))
        m.case('log series', h)
        r = m.must('log series variates', random_log_series_ln1p, h, n)
        if r is None or not m.ok(np.shape(r) == (n,), 'shape of the log series variates', got=np.shape(r)):
            continue
        m.ok(np.all((r >= 1) & (r == np.floor(r))), 'log series variates are positive integers', h=h, bad=r[r < 1][:3])
        p = -np.expm1(h)
        for k in (1, 2, 3, 5, 10, 100, 1000, 10 ** 4, 10 ** 6):
            # P(K <= k) = 1 - sum_{j>k} p^j / (j * -h)
            if k <= 10 ** 4:
                j = np.arange(1, k + 1)
                F = min(float(np.exp(j * np.log(p) - np.log(j)).sum() / -h), 1.)
            else:
                F = min(float((special.exp1(np.exp(h) * (1e-300)) if False else np.log(k) + np.euler_gamma
                               + special.exp1(max(-k * np.log(p), 1e-300)) * 0) / -h), 1.) if -np.log(p) * k < 1e-9 else None
            if F is None:
                continue
            c = int((r <= k).sum())
            m.ok(stats.binom.sf(c - 1, n, min(F + 1e-6, 1)) > ALPHA and stats.binom.cdf(c, n, max(F - 1e-6, 0)) > ALPHA,
                 'log series variates do not follow the law', h=h, k=k, observed=c / n, expected=F)


@scenario(P, shards={'quick': 1, 'thorough': 4}, min_events=30)
def uniform(m):
    from copulae.stats import random_uniform
    rng = m.rng
    for _ in range(40 if not m.thorough else 300):
        n, d = int(rng.choice([1, 2, 5, 3000])), int(rng.integers(1, 8))
        seed = int(rng.integers(2 ** 31)) if rng.random() < .6 else None
        m.case('uniform', n, d, seed)
        r = m.must('uniform variates', random_uniform, n, d, seed)
        if r is None or not m.ok(np.shape(r) == (n, d) and np.all((r >= 0) & (r < 1)), 'uniform variates', got=np.shape(r)):
            continue
        if seed is not None:
            np.random.random(2)
            m.ok(np.array_equal(r, random_uniform(n, d, seed=seed)), 'uniform variates with the same seed differ', n=n, d=d)
            if n * d > 4:
                m.ok(not np.array_equal(r, random_uniform(n, d, seed + 1)), 'uniform variates ignore the seed', n=n, d=d)
        else:
            m.ok(not np.array_equal(r, random_uniform(n, d)), 'uniform variates repeat', n=n, d=d)
        if n > 1000:
            _ks(m, r.ravel(), 'uniform', 'uniform variates do not follow the law', d=d)
