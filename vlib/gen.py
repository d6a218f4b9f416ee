"""Generators of copulas, points and data"""
import numpy as np
from scipy import stats

from . import ref

FAMILIES = ('clayton', 'frank', 'gumbel', 'gaussian', 'student', 'indep')
ARCH = ('clayton', 'frank', 'gumbel')


def classes():
    import copulae as c
    return {'clayton': c.ClaytonCopula, 'frank': c.FrankCopula, 'gumbel': c.GumbelCopula,
            'gaussian': c.GaussianCopula, 'student': c.StudentCopula, 'indep': c.IndepCopula}


def alias_class(rng, family):
    """the public aliases are the same copulas"""
    import copulae as c
    alias = {'gaussian': c.NormalCopula, 'student': c.TCopula, 'indep': c.IndependentCopula}
    return alias[family] if family in alias and rng.random() < 0.3 else classes()[family]


def theta_of_tau(family, tau):
    if family == 'clayton':
        return 2 * tau / (1 - tau)
    if family == 'gumbel':
        return 1 / (1 - tau)
    from scipy.optimize import brentq
    if tau == 0:
        return 0.0
    f = lambda th: 1 + 4 / th * (float(_debye1(th)) - 1) - tau
    return brentq(f, 1e-8, 1e6) if tau > 0 else brentq(f, -1e6, -1e-8)


def _debye1(x):
    from scipy.integrate import quad
    a = abs(x)
    v = quad(lambda t: t / np.expm1(t) if t > 1e-12 else 1.0, 0, min(a, 700), limit=200)[0] / a
    return v + (a / 2 if x < 0 else 0)


def rand_theta(rng, family, dim, strong=0.97, special=True):
    """weak and strong, positive and (where it exists) negative dependence, and the special values"""
    r = rng.random()
    if strong == 'extreme':  # strong dependence: tau from 0.95 to 0.9999
        return float({'clayton': 1, 'frank': 2, 'gumbel': 0.5}[family] * 10 ** rng.uniform(1.6, 3.2))
    if special and r < 0.06:
        return {'clayton': 0.0, 'frank': 0.0, 'gumbel': 1.0}[family]
    if special and r < 0.12:  # integer parameters
        return {'clayton': float(rng.integers(1, 6)), 'frank': float(rng.integers(1, 12)),
                'gumbel': float(rng.integers(2, 6))}[family]
    tau = rng.uniform(0.01, strong) if rng.random() < 0.8 else 10 ** rng.uniform(-4 if rng.random() < .7 else -8, -1)
    if dim == 2 and family in ('clayton', 'frank') and rng.random() < 0.35:
        tau = -tau
        if family == 'clayton':
            tau = max(tau, -0.9)
    return float(theta_of_tau(family, tau))


def rand_corr(rng, d, strong=0.95):
    """correlation matrices: random, equicorrelated, one-factor, near-singular, weak, block"""
    kind = rng.integers(6)
    if kind == 0 or d == 2:
        if d == 2:
            r = rng.uniform(-strong, strong)
            return np.array([[1, r], [r, 1]])
        A = rng.normal(size=(d, d + rng.integers(0, 4)))
    elif kind == 1:
        r = rng.uniform(-0.9 / (d - 1), strong)
        return np.full((d, d), r) + (1 - r) * np.eye(d)
    elif kind == 2:
        b = rng.uniform(-0.95, 0.95, d)
        S = np.outer(b, b)
        np.fill_diagonal(S, 1)
        return S
    elif kind == 3:
        A = rng.normal(size=(d, 2 * d))
        A[:, 0] *= 3
    elif kind == 4:
        A = np.hstack([np.eye(d) * 3, rng.normal(size=(d, d)) * 0.2])
    else:
        A = rng.normal(size=(d, d))
        A[: d // 2] *= 1
        A = np.hstack([A, 0.5 * np.eye(d)])
    S = A @ A.T + 1e-3 * np.eye(d)
    s = np.sqrt(np.diag(S))
    S = S / np.outer(s, s)
    S = (S + S.T) / 2
    np.fill_diagonal(S, 1)
    return S


def rand_df(rng):
    return float(rng.choice([rng.uniform(0.5, 3), rng.uniform(3, 30), rng.integers(1, 12), rng.uniform(30, 2000)]))


def make(rng, family, dim, strong=0.95, cls=None, special=True):
    """-> (copula, params description, logpdf reference)"""
    cls = cls or alias_class(rng, family)
    if family in ARCH:
        th = rand_theta(rng, family, dim, strong, special)
        how = rng.integers(3)
        if how == 0:
            c = cls(th, dim)
        elif how == 1:
            c = cls(dim=dim, theta=th)
        else:
            c = cls(dim=dim)
            c.params = th
        return c, {'family': family, 'dim': dim, 'theta': th}
    if family == 'indep':
        return cls(dim), {'family': family, 'dim': dim}
    S = rand_corr(rng, dim, strong)
    if family == 'gaussian':
        c = cls(dim)
        if rng.random() < 0.5:
            c.params = ref.rhos_of(S)
        else:
            c[:] = S
        return c, {'family': family, 'dim': dim, 'S': S}
    df = rand_df(rng)
    if rng.random() < 0.5:
        c = cls(dim, df)
        c[:] = S
    else:
        c = cls(dim)
        c.params = np.r_[df, ref.rhos_of(S)]
    return c, {'family': family, 'dim': dim, 'S': S, 'df': df}


def ref_logpdf(spec, u):
    u = np.atleast_2d(u)
    f = spec['family']
    if f in ARCH:
        return np.array([ref.arch_logpdf(f, spec['theta'], row) for row in u])
    if f == 'indep':
        return np.zeros(len(u))
    if f == 'gaussian':
        return ref.gauss_logpdf(u, spec['S'])
    return ref.student_logpdf(u, spec['S'], spec['df'])


def points(rng, n, d, lo=1e-3, kinds=None):
    """points of the open unit cube of many kinds: uniform, near the corners and edges, near the diagonals, ..."""
    out = np.empty((n, d))
    for i in range(n):
        k = rng.integers(7) if kinds is None else rng.choice(kinds)
        if k in (0, 1):
            x = rng.uniform(lo, 1 - lo, d)
        elif k == 2:  # diagonal
            x = np.clip(rng.uniform(lo, 1 - lo) + rng.normal(size=d) * 0.01, lo, 1 - lo)
        elif k == 3:  # lower corner
            x = lo * (1 / lo) ** (rng.uniform(0, 0.6, d))
        elif k == 4:  # upper corner
            x = 1 - lo * (1 / lo) ** (rng.uniform(0, 0.6, d))
        elif k == 5:  # mixed corners
            x = lo * (1 / lo) ** (rng.uniform(0, 0.6, d))
            m = rng.random(d) < 0.5
            x[m] = 1 - x[m]
        else:  # round values, equal coordinates
            x = rng.choice([0.1, 0.25, 0.5, 0.75, 0.9], d)
        out[i] = x
    return out


def unit_points(rng, n, d):
    """with coordinates exactly 0 and 1"""
    u = points(rng, n, d)
    m = rng.random((n, d))
    u[m < 0.08] = 0
    u[m > 0.9] = 1
    return u


def rand_cont_data(rng, n, d):
    """dependent continuous data without ties"""
    S = rand_corr(rng, d)
    z = rng.multivariate_normal(np.zeros(d), S, n)
    kind = rng.integers(4)
    if kind == 1:
        z = np.exp(z)
    elif kind == 2:
        z = z / np.sqrt(rng.chisquare(3, n) / 3)[:, None]
    elif kind == 3:
        z = stats.norm.cdf(z)
    return z


def rand_tied_data(rng, n, d):
    z = rand_cont_data(rng, n, d)
    for j in range(d):
        if rng.random() < 0.7:
            z[:, j] = np.round(stats.rankdata(z[:, j]) / n * rng.integers(2, 8))
    return z


class Any:
    """a copula of any class: what it can answer, where and how precisely"""

    def __init__(self, kind, cop, spec, points, cdf=True, pdf=True, cdf_atol=1e-12):
        self.kind, self.cop, self.spec, self.points = kind, cop, spec, points
        self.cdf, self.pdf, self.cdf_atol = cdf, pdf, cdf_atol
        self.dim = cop.dim

    def queries(self):
        if self.cdf:
            yield 'cdf', self.cop.cdf, self.cdf_atol
        if self.pdf:
            yield 'pdf', self.cop.pdf, 1e-12


ALL_KINDS = (*FAMILIES, 'empirical', 'marginal', 'gmc')
INNER = ('clayton', 'frank', 'gumbel', 'gaussian', 'student', 'indep')
MARGINS = (('norm', {'loc': 1.5, 'scale': 2.}), ('t', {'df': 5.}), ('expon', {'scale': 0.7}), ('gamma', {'a': 2.3}),
           ('uniform', {'loc': -1., 'scale': 3.}), ('beta', {'a': 2., 'b': 3.}), ('lognorm', {'s': 0.6}), ('norm', {}))


def rand_margins(rng, d):
    out = []
    for k in rng.integers(0, len(MARGINS), d):
        name, par = MARGINS[k]
        if not par and rng.random() < 0.5:
            out.append(name)
        else:
            out.append({'type': name, 'parameters': dict(par)} if par else {'type': name})
    return out


def frozen(margins):
    return [stats.norm() if isinstance(x, str) else getattr(stats, x['type'])(**x.get('parameters', {}))
            for x in margins]


def rand_mixture(rng, k, d):
    prob = rng.dirichlet(np.ones(k) * 2)
    prob[-1] = 1 - prob[:-1].sum()
    means = rng.normal(size=(k, d)) * 3
    covs = []
    for _ in range(k):
        s = rng.uniform(0.5, 2, d)
        covs.append(rand_corr(rng, d, 0.8) * np.outer(s, s))
    return {'prob': prob, 'means': means, 'covs': np.array(covs)}


def any_copula(rng, kind=None, d=None, strong=0.9):
    import copulae as c
    kind = kind or str(rng.choice(ALL_KINDS))
    d = d or int(rng.choice([2, 2, 3, 4]))
    if kind in FAMILIES:
        while True:
            cop, spec = make(rng, kind, d, strong)
            if kind != 'clayton' or spec['theta'] < 30:
                break
        return Any(kind, cop, spec, lambda n: points(rng, n, d, 0.01), cdf=kind != 'student',
                   cdf_atol=3e-4 if kind == 'gaussian' and d > 2 else 1e-12)
    if kind == 'empirical':
        n = int(rng.integers(5, 40))
        x = rand_cont_data(rng, n, d) if rng.random() < 0.6 else rand_tied_data(rng, n, d)
        smooth = [None, 'none', 'beta', 'checkerboard'][rng.integers(4)]
        ties = str(rng.choice(['average', 'min', 'max', 'dense', 'ordinal']))
        off = float(rng.choice([0, 0, 1, 0.5]))
        cop = c.EmpiricalCopula(x, smooth, ties, off)
        return Any(kind, cop, {'x': x, 'smoothing': smooth, 'ties': ties, 'offset': off, 'dim': d},
                   lambda n: points(rng, n, d, 0.01), pdf=smooth == 'beta')
    if kind == 'marginal':
        inner = str(rng.choice(INNER))
        a = any_copula(rng, inner, d, strong)
        margins = rand_margins(rng, d)
        cop = c.MarginalCopula(a.cop, margins)
        fr = frozen(margins)

        def pts(n):
            u = points(rng, n, d, 0.01)
            return np.column_stack([f.ppf(u[:, j]) for j, f in enumerate(fr)])

        out = Any(kind, cop, {'inner': a.spec, 'margins': margins, 'dim': d}, pts, cdf=a.cdf, cdf_atol=a.cdf_atol)
        out.indep = inner == 'indep'
        return out
    k = int(rng.integers(1, 4))
    par = rand_mixture(rng, k, d)
    cop = c.GaussianMixtureCopula(k, d, par)
    return Any(kind, cop, {**par, 'dim': d}, lambda n: par['means'][rng.integers(0, k, n)] + rng.normal(size=(n, d)),
               cdf_atol=3e-4 if d > 2 else 1e-9)
