"""One case = one run of a symmetry test (exchangeability of a pair, radial symmetry) on generated data with or without
ties; its statistic is compared with the definition, its p-value with an independent simulation of the same null
distribution. Non-trivial = distinct (test, options, data)."""
import numpy as np
import pandas as pd

from checks.c10_pobs import TIES, ranks
from vlib import gen
from vlib.core import Raised, scenario

P = 'C14'
ASSUMPTIONS = ['the p-value of a simulation of N replications is compared with an independent simulation at 7 standard '
               'deviations', 'the radial symmetry statistic compares 1 - r/(n+1) with s/(n+1) in floating point (pinned by '
               'the repository\'s tests): the value with exact ranks is accepted as well']


def C(U, V, x, y):
    """empirical copula of the pair at all points"""
    return ((U[None] <= x[:, None]) & (V[None] <= y[:, None])).mean(1)


def exch_stat(u, g):
    d = C(u[:, 0], u[:, 1], g[:, 0], g[:, 1]) - C(u[:, 0], u[:, 1], g[:, 1], g[:, 0])
    return len(u) * np.mean(d ** 2)


def grid(u, m):
    if m == 0:
        return u
    x = np.linspace(1 / m, 1 - 1 / m, m)
    return np.array([[a, b] for b in x for a in x])


def exch_influence(u, g):
    U, V = u.T
    n = len(u)
    h = 1 / np.sqrt(n)

    def d1(x, y):
        x = np.clip(x, h, 1 - h)
        return (C(U, V, x + h, y) - C(U, V, x - h, y)) / (2 * h)

    def d2(x, y):
        y = np.clip(y, h, 1 - h)
        return (C(U, V, x, y + h) - C(U, V, x, y - h)) / (2 * h)

    x, y = g.T
    a, b, c, d = (w[:, None] for w in (d1(x, y), d2(x, y), d1(y, x), d2(y, x)))
    Ux, Vy, Uy, Vx = U[None] <= x[:, None], V[None] <= y[:, None], U[None] <= y[:, None], V[None] <= x[:, None]
    return (Ux & Vy) - a * Ux - b * Vy - ((Uy & Vx) - c * Uy - d * Vx)  # points x n


def exch_null_multiplier(rng, u, g, N):
    infl = exch_influence(u, g)
    n = len(u)
    z = rng.normal(size=(N, n))
    z -= z.mean(1, keepdims=True)
    return ((z @ infl.T / np.sqrt(n)) ** 2).mean(1)


def retie(ub, u):
    """gives the columns of ub the ties of the columns of u, keeping rows together"""
    for i in range(u.shape[1]):
        s = np.sort(u[:, i])
        pos = np.array([(np.flatnonzero(s == v).mean()) for v in s])
        pos = np.floor(pos + 1e-9).astype(int)
        ub = ub[np.argsort(ub[:, i])]
        ub[:, i] = ub[pos, i]
    return ub


def exch_null_ties(rng, u, m, N, ties):
    out = []
    for _ in range(N):
        w = rng.random(len(u)) < 0.5
        ub = np.where(w[:, None], u, u[:, ::-1])
        ub = fast_ranks(retie(ub, u), ties) / (len(u) + 1)
        out.append(exch_stat(ub, grid(ub, m)))
    return np.array(out)


def fast_ranks(x, ties):
    from scipy.stats import rankdata
    return np.column_stack([rankdata(x[:, j], ties) for j in range(x.shape[1])])


def rad_stat(u, flip=None):
    """flip: the values of 1 - u, as they are compared"""
    v = 1 - u if flip is None else flip
    a = (u[None] <= u[:, None]).all(2).sum(1)
    b = (v[None] <= u[:, None]).all(2).sum(1)
    return float((((a - b) / len(u)) ** 2).sum())


def rad_null(rng, u, N, ties, has_ties):
    out = []
    for _ in range(N):
        w = rng.random(len(u)) < 0.5
        ub = np.where(w[:, None], 1 - u, u)
        if has_ties:
            ub = retie(ub, u)
        out.append(rad_stat(fast_ranks(ub, ties) / (len(u) + 1)))
    return np.array(out)


def _pcheck(m, p, s, null, N, what, **ctx):
    """p of N replications against an independent simulation `null` of the statistic's null distribution"""
    m.ok(0 < p < 1 and abs(p * (N + 1) - 0.5 - round(p * (N + 1) - 0.5)) < 1e-6, what + ': not (k + 1/2) / (N + 1)', p=p, N=N)
    # replications that equal the statistic up to rounding count either way
    hi, lo = (null >= s * (1 - 1e-9) - 1e-12).mean(), (null > s * (1 + 1e-9) + 1e-12).mean()
    k = len(null)
    tol = 7 * np.sqrt(max(hi * (1 - lo), 2 / min(N, k)) * (1 / N + 1 / k)) + 0.012
    m.ok(lo - tol <= p <= hi + tol, what + ': differs from an independent simulation', p=p, lo=lo, hi=hi, tol=tol, **ctx)


def _data(rng, n, d):
    k = rng.integers(4)
    if k == 0:
        return gen.rand_cont_data(rng, n, d)
    if k == 1:
        return gen.rand_tied_data(rng, n, d)
    if k == 2:  # asymmetric: y = x^2 type dependence
        x = rng.random((n, d))
        x[:, 1] = np.where(rng.random(n) < 0.6, x[:, 0] ** 3, x[:, 1])
        return x
    x = rng.random((n, d))  # heavily tied in one column only
    x[:, 0] = np.round(x[:, 0] * 3 + x[:, 1])
    return x


@scenario(P, shards={'quick': 3, 'thorough': 24}, weight=3)
def exchangeability(m):
    from copulae.gof import exch_test
    rng = m.rng
    for _ in range(45 if not m.thorough else 300):
        n = int(rng.integers(4, 45)) if rng.random() < 0.85 else int(rng.integers(45, 150))
        X = _data(rng, n, 2)
        ties = str(rng.choice(TIES))
        k = int(rng.choice([0, 0, 2, 3, 7, 10]))
        if rng.random() < 0.25:  # as many observations as grid points
            k = int(rng.integers(3, 8))
            n = k * k
            X = _data(rng, n, 2) if rng.random() < 0.3 else gen.rand_tied_data(rng, n, 2)
        if k and np.abs(np.subtract.outer(ranks(X, ties).ravel() / (n + 1), grid(None, k)[:, 0])).min() < 1e-9:
            k = 0  # a grid point on an observation: decided by rounding
        N = int(rng.choice([1, 50, 600, 1500]))
        x, y = X.T
        form = rng.integers(4)
        if form == 1:
            x, y = x.tolist(), y.tolist()
        elif form == 2:
            x, y = pd.Series(x), pd.Series(y)
        elif form == 3:
            F = pd.DataFrame(X, index=rng.permutation(n))
            x, y = F[0], F[1]
        m.case('exch', ties, k, N, X.tolist())
        r = m.must('exch_test', exch_test, x, y, N, k, ties)
        if r is None:
            continue
        u = ranks(X, ties) / (n + 1)
        g = grid(u, k)
        s = exch_stat(u, g)
        m.close(r.statistic, s, 'exch_test: statistic', rtol=1e-9, atol=1e-12, X=X, ties=ties, grid=k)
        tied = any(len(np.unique(u[:, j])) < n for j in range(2))
        K = 1500 if N > 50 else 300
        null = exch_null_ties(rng, u, k, K, ties) if tied else exch_null_multiplier(rng, u, g, K)
        m.count('with ties' if tied else 'without ties')
        _pcheck(m, r.p_value, s, null, N, 'exch_test: p-value', X=X, ties=ties, grid=k, tied=tied)
        m.ok(isinstance(r.method, str) and len(tuple(r)) == 3, 'exch_test: result')
        # exchanging the two variables changes nothing
        q = m.must('exch_test', exch_test, y, x, N, k, ties)
        if q is not None:
            m.close(q.statistic, s, 'exch_test: depends on the order of the variables', rtol=1e-9, atol=1e-12)
        # a sample that is symmetric as a set has statistic zero and no evidence
        Z = np.vstack([X, X[:, ::-1]])
        q = m.must('exch_test', exch_test, Z[:, 0], Z[:, 1], 20, k, 'average')
        if q is not None:
            m.ok(abs(q.statistic) < 1e-12 and q.p_value > 0.9, 'exch_test: symmetric data', r=tuple(q)[:2])


@scenario(P, shards={'quick': 1, 'thorough': 8})
def multipliers(m):
    """the simulated values of the statistic have the mean and the variance of the multiplier process, which are those of a
    quadratic form in normal variables"""
    rng = m.rng
    try:
        from copulae.gof._exchangeability import exch_test_cn
    except ImportError:
        exch_test_cn = None
    for _ in range(20 if not m.thorough else 100):
        n = int(rng.integers(10, 130)) if rng.random() < .5 else int(rng.integers(8, 30))
        X = _data(rng, n, 2) if rng.random() < 0.5 else gen.rand_cont_data(rng, n, 2)
        u = np.ascontiguousarray(ranks(X, 'average') / (n + 1))
        k = int(rng.choice([0, 4, 9, 12]))
        g = np.ascontiguousarray(grid(u, k))
        m.case('multipliers', n, k, X.tolist())
        N = 3000 if n >= 30 else 40000
        r = Raised(None) if exch_test_cn is None else \
            m.call(exch_test_cn, u, g, n, len(g), N, int(rng.integers(2 ** 31 - 1)))
        if isinstance(r, Raised):
            m.count('no direct access to the simulation')
            continue
        if k and np.abs(np.subtract.outer(u.ravel(), g[:, 0])).min() < 1e-9:
            continue  # a grid point on an observation: decided by rounding
        h = 1 / np.sqrt(n)
        e = np.r_[np.clip(g, h, 1 - h).ravel() + h, np.clip(g, h, 1 - h).ravel() - h]
        if np.abs(np.subtract.outer(u.ravel(), e)).min() < 1e-9:
            continue
        A = exch_influence(u, g) / np.sqrt(n)
        A = A - A.mean(1, keepdims=True)  # centred multipliers
        W = A @ A.T / len(g)
        mean, var = np.trace(W), 2 * (W * W).sum()
        s = np.asarray(r)
        if mean < 1e-12:
            m.ok(np.abs(s).max() < 1e-9, 'exch_test: simulated values of a symmetric sample', s=s[:5])
            continue
        m.ok(abs(s.mean() - mean) < 7.5 * np.sqrt(var / N), 'exch_test: mean of the simulated values', got=s.mean(), want=mean,
             se=np.sqrt(var / N), n=n, grid=k, X=X)
        m.ok(0.4 < s.var() / var < 2.2, 'exch_test: variance of the simulated values', got=s.var(), want=var, n=n, grid=k)


@scenario(P, shards={'quick': 3, 'thorough': 24}, weight=3)
def radial_symmetry(m):
    from copulae.gof import rad_sym_test
    rng = m.rng
    for _ in range(45 if not m.thorough else 300):
        n, d = int(rng.integers(4, 40)) if rng.random() < 0.85 else int(rng.integers(40, 130)), int(rng.choice([2, 2, 3, 4]))
        X = _data(rng, n, d)
        ties = str(rng.choice(TIES))
        N = int(rng.choice([1, 50, 600, 1500]))
        form = rng.integers(3)
        arg = X if form == 0 else X.tolist() if form == 1 else pd.DataFrame(X, columns=list('abcd')[:d],
                                                                            index=rng.permutation(n))
        m.case('radial', ties, N, X.tolist())
        r = m.must('rad_sym_test', rad_sym_test, arg, N, ties)
        if r is None:
            continue
        R = ranks(X, ties)
        u = R / (n + 1)
        s, e = rad_stat(u), rad_stat(R, n + 1 - R)
        m.ok(np.isclose(r.statistic, s, rtol=1e-9, atol=1e-12) or np.isclose(r.statistic, e, rtol=1e-9, atol=1e-12),
             'rad_sym_test: statistic', got=r.statistic, want=s, X=X, ties=ties)
        tied = any(len(np.unique(X[:, j])) < n for j in range(d))
        m.count('with ties' if tied else 'without ties')
        K = 1500 if N > 50 else 300
        null = rad_null(rng, u, K, ties, tied)
        _pcheck(m, r.p_value, r.statistic, null, N, 'rad_sym_test: p-value', X=X, ties=ties, tied=tied)


@scenario(P, shards={'quick': 2, 'thorough': 12}, weight=2)
def decisions(m):
    """level and power: p-values are uniform-ish under the hypothesis and small for clearly asymmetric data"""
    from copulae.gof import exch_test, rad_sym_test
    import copulae as c
    rng = m.rng
    reps = 60 if not m.thorough else 200
    pe, pr = [], []
    for i in range(reps):
        S = 0.5
        x = np.asarray(c.GaussianCopula(2).random(5))
        z = rng.multivariate_normal([0, 0], [[1, S], [S, 1]], 60)
        if i % 2:
            z = np.round(z, 1)
        m.case('level', z.tolist())
        pe.append(exch_test(z[:, 0], z[:, 1], 200).p_value)
        pr.append(rad_sym_test(z, 200).p_value)
    for nme, p in (('exch_test', pe), ('rad_sym_test', pr)):
        p = np.array(p)
        # binomial bound: P(more than this many below 0.05) < 1e-10 for a test whose level is at most 0.08
        from scipy.stats import binom
        lim = binom.isf(1e-10, reps, 0.08)
        m.ok((p < 0.05).sum() <= lim, f'{nme}: rejects true hypotheses too often', n=int((p < 0.05).sum()), lim=lim)
        m.ok((p > 0.5).sum() >= reps * 0.15, f'{nme}: p-values are too small', p=p)
        m.ok((p < 0.5).sum() >= reps * 0.1, f'{nme}: p-values are too large', p=p)
    for i in range(6 if not m.thorough else 20):
        t = rng.random(150)
        y = np.where(rng.random(150) < 0.8, np.abs(2 * t - 0.5) ** 0.7, rng.random(150))
        if i % 2:
            t, y = np.round(t, 2), np.round(y, 2)
        m.case('power exch', t.tolist())
        p = exch_test(t, y, 200).p_value
        m.ok(p < 0.1, 'exch_test: no power against an asymmetric copula', p=p)
        cl = np.asarray(c.ClaytonCopula(5., 2).random(250, int(rng.integers(1e6))))
        if i % 2:
            cl = np.round(cl, 2)
        p = rad_sym_test(cl, 200).p_value
        m.ok(p < 0.15, 'rad_sym_test: no power against a Clayton copula', p=p)


@scenario(P, shards={'quick': 1, 'thorough': 4})
def rejected(m):
    from copulae.gof import exch_test, rad_sym_test
    rng = m.rng
    E = (AssertionError, ValueError, TypeError)
    for _ in range(40 if not m.thorough else 300):
        n = int(rng.integers(5, 30))
        X = rng.normal(size=(n, 2))
        Z = X.copy()
        Z[rng.integers(n), rng.integers(2)] = np.nan
        m.case('rejected', X.tolist())
        m.raises('exch_test: missing values', E, exch_test, Z[:, 0], Z[:, 1])
        m.raises('rad_sym_test: missing values', E, rad_sym_test, Z)
        m.raises('exch_test: no replications', E, exch_test, X[:, 0], X[:, 1], 0)
        m.raises('exch_test: fractional replications', E, exch_test, X[:, 0], X[:, 1], 10.5)
        m.raises('exch_test: negative grid', E, exch_test, X[:, 0], X[:, 1], 10, -1)
        m.raises('exch_test: matrices', E, exch_test, X, X, 10)
        m.raises('exch_test: different lengths', E, exch_test, X[:, 0], X[:-1, 1], 10)
        m.raises('rad_sym_test: no replications', E, rad_sym_test, X, 0)
        m.raises('rad_sym_test: a vector', E, rad_sym_test, X[:, 0], 10)
        m.raises('rad_sym_test: unknown tie rule', E, rad_sym_test, X, 10, 'nosuch')
