"""One case = one CDF evaluation of a copula with generated parameters at a generated point (or box). Points are
uniform, near corners, edges and diagonals, and include coordinates equal to 0 and 1. Non-trivial = distinct
(family, dimension, parameters, point)."""
import numpy as np

from vlib import gen, ref
from vlib.core import scenario

P = 'C01'
ASSUMPTIONS = ['mpmath arithmetic and the textbook generators of vlib/ref.py', 'numpy/scipy normal quantiles',
               'Gaussian CDF in 3 or more dimensions is quasi-Monte-Carlo: compared within 2e-4']


def _arch(m, family, n_cop, n_pts, max_dim, strong=0.97):
    rng = m.rng
    for _ in range(n_cop):
        d = int(rng.choice([2, 2, 3, 4, 5, 7, max_dim]))
        c, spec = gen.make(rng, family, d, strong)
        th = spec['theta']
        lo = 1e-6 if family == 'clayton' else 1e-3
        u = np.vstack([gen.points(rng, n_pts - 4, d, lo), gen.unit_points(rng, 4, d)])
        got = m.must(f'{family} cdf', c.cdf, u)
        lgot = m.must(f'{family} log cdf', c.cdf, u, log=True)
        want = np.array([ref.arch_cdf(family, th, x) for x in u])
        lwant = np.array([ref.arch_cdf(family, th, x, log=True) for x in u])
        for x in u:
            m.case(family, d, th, x.tolist())
        if got is None or lgot is None:
            continue
        m.close(got, want, f'{family} cdf is not the family\'s distribution function', rtol=1e-8, atol=1e-12, dim=d,
                theta=th, u=u)
        # logs of tiny values are compared absolutely
        with np.errstate(all='ignore'):
            sel = want > 1e-290
        m.close(lgot[sel], lwant[sel], f'{family} log cdf is not the log of the distribution function', rtol=1e-8,
                atol=1e-8, dim=d, theta=th, u=u)
        m.ok(np.all(np.isneginf(lgot[want == 0])), f'{family} log cdf of a zero probability', theta=th, u=u)


for _f in gen.ARCH:
    scenario(P, f'formula_{_f}', shards={'quick': 2, 'thorough': 24}, weight=3)(
        lambda m, f=_f: _arch(m, f, 60 if not m.thorough else 250, 24, 10))


    scenario(P, f'strong_{_f}', shards={'quick': 1, 'thorough': 8}, weight=3)(
        lambda m, f=_f: _arch(m, f, 12 if not m.thorough else 80, 16, 6, 'extreme'))


@scenario(P, shards={'quick': 1, 'thorough': 8}, weight=2)
def formula_bivariate_gaussian(m):
    rng = m.rng
    for _ in range(40 if not m.thorough else 300):
        c, spec = gen.make(rng, 'gaussian', 2, strong=0.995)
        rho = spec['S'][0, 1]
        u = np.vstack([gen.points(rng, 20, 2), gen.unit_points(rng, 4, 2)])
        from scipy.stats import norm
        q = norm.ppf(u)
        want = np.array([0. if (x == 0).any() else (min(x) if (x == 1).any() else ref.bvn_cdf(a, b, rho))
                         for x, (a, b) in zip(u, q)])
        for x in u:
            m.case('gaussian', 2, rho, x.tolist())
        got = m.must('gaussian cdf', c.cdf, u)
        lgot = m.must('gaussian log cdf', c.cdf, u, True)
        if got is not None:
            m.close(got, want, 'bivariate Gaussian cdf', rtol=1e-7, atol=1e-9, rho=rho, u=u)
            sel = want > 1e-6
            m.close(lgot[sel], np.log(want[sel]), 'bivariate Gaussian log cdf', rtol=1e-6, atol=1e-3, rho=rho, u=u)


@scenario(P, shards={'quick': 1, 'thorough': 6}, weight=2)
def formula_gaussian_one_factor(m):
    """three and more dimensions: correlations with one common factor, integrated over the factor"""
    rng = m.rng
    from copulae import GaussianCopula
    from scipy.stats import norm
    for _ in range(20 if not m.thorough else 150):
        d = int(rng.integers(3, 7))
        b = rng.uniform(-0.95, 0.95, d)
        S = np.outer(b, b)
        np.fill_diagonal(S, 1)
        c = GaussianCopula(d)
        c.params = ref.rhos_of(S)
        u = gen.points(rng, 8, d, 0.01)
        u[0, rng.integers(d)] = 1
        u[1, rng.integers(d)] = 0
        want = []
        for x in u:
            if (x == 0).any():
                want.append(0.)
            else:
                k = x < 1
                want.append(ref.one_factor_cdf(norm.ppf(x[k]), b[k]))
        for x in u:
            m.case('gaussian', d, b.tolist(), x.tolist())
        m.close(m.call(c.cdf, u), np.array(want), 'Gaussian cdf in 3 or more dimensions', rtol=0, atol=2e-4, b=b, u=u)


@scenario(P, shards={'quick': 1, 'thorough': 3})
def formula_independence(m):
    rng = m.rng
    for _ in range(40 if not m.thorough else 400):
        d = int(rng.integers(2, 12))
        c, _ = gen.make(rng, 'indep', d)
        u = np.vstack([gen.points(rng, 10, d), gen.unit_points(rng, 5, d)])
        for x in u:
            m.case('indep', d, x.tolist())
        m.close(m.call(c.cdf, u), np.prod(u, axis=1), 'independence cdf', rtol=1e-12, atol=1e-300, u=u)
        with np.errstate(all='ignore'):
            m.close(m.call(c.cdf, u, log=True), np.log(np.prod(u, axis=1)), 'independence log cdf', rtol=1e-10,
                    atol=1e-10, u=u)


def _axioms(m, family):
    """groundedness, margins, Frechet bounds, monotonicity, non-negative mass of boxes"""
    rng = m.rng
    tol = 3e-9
    for _ in range(40 if not m.thorough else 400):
        d = int(rng.choice([2, 2, 3, 4] if family != 'gaussian' else [2, 2, 2, 3]))
        c, spec = gen.make(rng, family, d)
        if family == 'gaussian' and d > 2:
            tol = 3e-4
        else:
            tol = 3e-9
        spec = {k: v for k, v in spec.items()}
        u = gen.points(rng, 12, d, 1e-4)
        base = m.must(f'{family} cdf', c.cdf, u)
        if base is None:
            continue
        m.ok(np.shape(base) == (12,), f'{family} cdf: one value per row', shape=np.shape(base), **spec)
        m.ok(np.all((base >= np.maximum(u.sum(1) - d + 1, 0) - tol) & (base <= u.min(1) + tol)),
             f'{family} cdf outside the Frechet-Hoeffding bounds', u=u, got=base, **spec)
        for i in range(len(u)):
            m.case('axioms', family, d, spec.get('theta', spec.get('S')), u[i].tolist())
        # grounded
        g = u.copy()
        g[np.arange(12), rng.integers(0, d, 12)] = 0
        m.close(m.call(c.cdf, g), np.zeros(12), f'{family} cdf with a zero coordinate', rtol=0, atol=1e-15, u=g, **spec)
        # margins
        k = rng.integers(0, d, 12)
        e = np.ones((12, d))
        e[np.arange(12), k] = u[np.arange(12), k]
        m.close(m.call(c.cdf, e), u[np.arange(12), k], f'{family} cdf: margins are not uniform', rtol=1e-9,
                atol=tol, u=e, **spec)
        # ... down to the smallest numbers, in relative terms
        t = 10. ** -rng.uniform(1, 30 if family == 'gaussian' else 290, 12)
        if family == 'frank' or spec.get('theta', 1) < 1e-3:  # (the generator is as good as linear there)
            t = 10. ** -rng.uniform(1, 3, 12)
        e[np.arange(12), k] = t
        m.close(m.call(c.cdf, e), t, f'{family} cdf: margins of tiny probabilities', rtol=1e-6,
                atol=0, u=e, **spec)
        m.close(m.call(c.cdf, np.ones((2, d))), np.ones(2), f'{family} cdf at (1, .., 1)', rtol=1e-12, atol=tol, **spec)
        # monotone in each coordinate
        w = u.copy()
        w[np.arange(12), k] += rng.uniform(0, 1, 12) * (1 - w[np.arange(12), k])
        up = m.must(f'{family} cdf', c.cdf, w)
        m.ok(np.all(up >= base - tol), f'{family} cdf decreases', u=u, w=w, base=base, up=up, **spec)
        # mass of a box
        lo, hi = np.minimum(u, u[::-1]), np.maximum(u, u[::-1])
        if rng.random() < 0.3:
            hi[rng.random(hi.shape) < 0.3] = 1
        vol = np.zeros(12)
        for mask in range(2 ** d):
            bits = np.array([(mask >> j) & 1 for j in range(d)], bool)
            vol += (-1) ** int((~bits).sum()) * c.cdf(np.where(bits, hi, lo))
        m.ok(np.all(vol >= -(2 ** d) * tol), f'{family} cdf gives a box negative mass', lo=lo, hi=hi, vol=vol, **spec)
        m.ok(np.all(vol <= np.min(hi - lo, axis=1) + 2 ** d * tol), f'{family} cdf gives a box too much mass', lo=lo,
             hi=hi, vol=vol, **spec)


for _f in ('clayton', 'frank', 'gumbel', 'gaussian', 'indep'):
    scenario(P, f'axioms_{_f}', shards={'quick': 1, 'thorough': 6}, weight=2)(lambda m, f=_f: _axioms(m, f))


@scenario(P, shards={'quick': 1, 'thorough': 4})
def exchangeable(m):
    """Archimedean and independence copulas do not depend on the order of the coordinates"""
    rng = m.rng
    for _ in range(60 if not m.thorough else 500):
        f = str(rng.choice(['clayton', 'frank', 'gumbel', 'indep']))
        d = int(rng.integers(2, 8))
        c, spec = gen.make(rng, f, d)
        u = gen.points(rng, 6, d)
        p = rng.permutation(d)
        m.case('perm', f, d, spec.get('theta'), p.tolist(), u.tolist())
        m.close(m.call(c.cdf, u[:, p]), m.call(c.cdf, u), f'{f} cdf depends on the order of the coordinates',
                rtol=1e-9, atol=1e-13, u=u, perm=p, **spec)
