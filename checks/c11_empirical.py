"""One case = one evaluation of an empirical copula (distribution function or density, one of the three smoothings, any
tie rule and offset) at generated points, compared with the defining formula; or one sample / back-transformation.
Non-trivial = distinct (data, smoothing, tie rule, offset, point)."""
import mpmath as mp
import numpy as np
import pandas as pd

from checks.c10_pobs import TIES, ranks
from vlib import gen
from vlib.core import Raised, scenario

P = 'C11'
ASSUMPTIONS = ['mpmath incomplete beta function']


def beta_cdf(a, b, x):
    return 0. if x <= 0 else 1. if x >= 1 else float(mp.betainc(a, b, 0, x, regularized=True))


def ref_cdf(R, u, smoothing, offset):
    """R: ranks (n, d)"""
    n, d = R.shape
    out = []
    for x in u:
        if smoothing == 'none':
            # rank / (n + 1) <= x
            t = np.all(R / (n + 1) <= x, axis=1).sum()
        elif smoothing == 'checkerboard':
            t = np.prod(np.clip(n * x - R + 1, 0, 1), axis=1).sum()
        else:
            cache = {}
            t = 0.
            for r in R:
                p = 1.
                for j in range(d):
                    k = (r[j], x[j])
                    if k not in cache:
                        cache[k] = beta_cdf(r[j], n + 1 - r[j], x[j])
                    p *= cache[k]
                t += p
        out.append(t / (n + offset))
    return np.array(out, float)


def ref_pdf(R, u, offset):
    n, d = R.shape
    out = []
    for x in u:
        t = mp.mpf(0)
        for r in R:
            p = mp.mpf(1)
            for j in range(d):
                a, b = r[j], n + 1 - r[j]
                p *= mp.mpf(x[j]) ** (a - 1) * (1 - mp.mpf(x[j])) ** (b - 1) / mp.beta(a, b)
            t += p
        out.append(float(t / (n + offset)))
    return np.array(out)


def _make(rng, c, smoothings=('none', 'beta', 'checkerboard')):
    n, d = int(rng.choice([1, 2, 3, 7, 15, 25])), int(rng.choice([2, 2, 3, 4]))
    X = gen.rand_cont_data(rng, n, d) if rng.random() < 0.5 else gen.rand_tied_data(rng, n, d)
    if rng.random() < 0.15:
        X = rng.integers(0, 5, (n, d))
    s, ties = str(rng.choice(smoothings)), str(rng.choice(TIES))
    off = [0, 0, 1, 0.5, 2.0, round(float(rng.uniform(0, 3)), 3), float(rng.uniform(0, 1))][rng.integers(7)]
    data = X
    k = rng.integers(4)
    if k == 0:
        data = X.tolist()
    elif k == 1:
        data = pd.DataFrame(X, columns=list('abcdef')[:d])
    elif k == 2:
        data = np.asfortranarray(X)
    kw = {}
    sm = s if s != 'none' or rng.random() < 0.5 else None
    how = rng.integers(3)
    if how == 0:
        a = c.EmpiricalCopula(data, sm, ties, off)
    elif how == 1:
        a = c.EmpiricalCopula(data, smoothing=sm, ties=ties, offset=off)
    else:  # set afterwards
        a = c.EmpiricalCopula(data, 'beta', 'min', off)
        a.smoothing = sm
        a.ties = ties
    return a, X, s, ties, off


def _points(rng, R, k):
    n, d = R.shape
    u = gen.unit_points(rng, k, d) if rng.random() < 0.5 else rng.random((k, d))
    # exactly at and just next to the pseudo-observations, and at the corners of the checkerboard
    for i in range(k):
        if rng.random() < 0.5:
            r = R[rng.integers(n)]
            base = r / (n + 1)
            u[i] = [base, base * (1 - 1e-12), base + 1e-13, np.clip(r / n, 0, 1), np.clip((r - 1) / n, 0, 1)][rng.integers(5)]
    return u


@scenario(P, shards={'quick': 1, 'thorough': 8}, min_events=100)
def histories(m):
    """the tie rule and the smoothing change between queries: every answer is that of the current settings"""
    import copulae as c
    rng = m.rng
    for _ in range(40 if not m.thorough else 400):
        a, X, s, ties, off = _make(rng, c)
        for _ in range(5):
            k = int(rng.integers(4))
            if k == 0:
                ties = str(rng.choice(TIES))
                a.ties = ties
            elif k == 1:
                s = str(rng.choice(['none', 'beta', 'checkerboard']))
                a.smoothing = s if s != 'none' or rng.random() < .5 else None
            elif k == 2:
                m.must('random', a.random, 5, seed=1)
            else:
                m.must('summary', a.summary)
            m.ok(a.ties == ties and a.smoothing == s, 'settings', got=(a.ties, a.smoothing), want=(ties, s))
            R = ranks(X, ties)
            U = _points(rng, R, 3)
            m.case('history', s, ties, off, U.tolist(), X.tolist())
            m.close(m.call(a.cdf, U.copy()), ref_cdf(R, U, s, off), f'cdf of the {s} empirical copula after other queries and '
                    'settings', rtol=1e-9, atol=1e-13, X=X, U=U, ties=ties, offset=off)
            if s == 'beta':
                U = rng.uniform(.01, .99, (2, X.shape[1]))
                m.close(m.call(a.pdf, U.copy()), ref_pdf(R, U, off), 'density of the beta empirical copula after other queries '
                        'and settings', rtol=1e-9, X=X, U=U, ties=ties, offset=off)
            else:
                m.raises(f'density of the {s} empirical copula', AssertionError, a.pdf, U)


@scenario(P, shards={'quick': 3, 'thorough': 24}, weight=3)
def distribution(m):
    import copulae as c
    rng = m.rng
    for _ in range(90 if not m.thorough else 800):
        a, X, s, ties, off = _make(rng, c)
        n, d = X.shape
        R = ranks(X, ties)
        U = _points(rng, R, 8 if s != 'beta' else 4)
        want = ref_cdf(R, U, s, off)
        got = m.call(a.cdf, U.copy())
        for x in U:
            m.case('cdf', s, ties, off, x.tolist(), X.tolist())
        m.close(got, want, f'cdf of the {s} empirical copula', rtol=1e-9, atol=1e-13, X=X, U=U, ties=ties, offset=off)
        with np.errstate(all='ignore'):
            lg = m.call(a.cdf, U.copy(), log=True)
            if not isinstance(lg, Raised) and np.shape(lg) == want.shape:  # the checkerboard cancels next to its corners
                tiny = (want < 1e-6) & (np.asarray(lg) < np.log(2e-6))
                lg = np.where(tiny, np.log(want), lg)
            m.close(lg, np.log(want), f'log cdf of the {s} empirical copula', rtol=1e-8,
                    atol=1e-9, X=X, U=U, ties=ties, offset=off)
        if not isinstance(got, Raised):
            got = np.asarray(got)
            m.ok((got >= 0).all() and (got <= 1 + 1e-12).all(), f'cdf of the {s} empirical copula: not a probability', got=got)
            # grounded and normalised
            z = U[0].copy()
            z[rng.integers(d)] = 0
            m.ok(np.isclose(a.cdf(z), 0, atol=1e-12) , f'cdf of the {s} empirical copula: not grounded', z=z, got=a.cdf(z))
            m.close(a.cdf(np.ones(d)), n / (n + off), f'cdf of the {s} empirical copula at 1', rtol=1e-12)
            # monotone
            j = int(rng.integers(d))
            V = np.repeat(U[:1], 12, axis=0)
            V[:, j] = np.sort(rng.random(12))
            g = np.asarray(a.cdf(V))
            m.ok((np.diff(g) >= -1e-12).all(), f'cdf of the {s} empirical copula: not increasing', V=V, g=g)
            if off == 0 and ties == 'ordinal' or (off == 0 and all(len(set(X[:, k])) == n for k in range(d))):
                if s != 'none':  # these are copulas: uniform margins
                    V = np.ones((5, d))
                    V[:, j] = rng.random(5)
                    m.close(a.cdf(V), V[:, j], f'cdf of the {s} empirical copula: margins are not uniform', rtol=1e-9,
                            atol=1e-12, X=X)
        for bad in (np.full(d, 1.01), np.full((2, d), -0.01)):
            m.raises('cdf of points outside the unit cube', ValueError, a.cdf, bad)


@scenario(P, shards={'quick': 2, 'thorough': 16}, weight=2)
def density(m):
    import copulae as c
    rng = m.rng
    for _ in range(70 if not m.thorough else 600):
        a, X, s, ties, off = _make(rng, c, ('beta', 'beta', 'beta', 'none', 'checkerboard'))
        n, d = X.shape
        R = ranks(X, ties)
        U = rng.uniform(0.02, 0.98, (4, d))
        for i in np.flatnonzero(rng.random(4) < .3):  # near the faces of the cube
            U[i, rng.integers(d)] = rng.choice([1 - 10 ** rng.uniform(-4, -1.7), 10 ** rng.uniform(-4, -1.7)])
        if s != 'beta':
            m.case('no density', s, X.tolist())
            m.raises(f'density of the {s} empirical copula', (AssertionError, NotImplementedError, ValueError), a.pdf, U)
            continue
        want = ref_pdf(R, U, off)
        for x in U:
            m.case('pdf', ties, off, x.tolist(), X.tolist())
        m.close(m.call(a.pdf, U.copy()), want, 'density of the beta empirical copula', rtol=1e-9, X=X, U=U, ties=ties,
                offset=off)
        m.close(m.call(a.pdf, U.copy(), log=True), np.log(want), 'log density of the beta empirical copula', rtol=1e-9,
                atol=1e-9, X=X, U=U, ties=ties, offset=off)
        # the density is the derivative of the distribution function: mass of a box
        if d == 2 and rng.random() < 0.4:
            lo = rng.uniform(0.05, 0.6, 2)
            hi = lo + rng.uniform(0.1, 0.35, 2)
            x, w = np.polynomial.legendre.leggauss(24)
            g = [(hi[k] - lo[k]) / 2 * x + (hi[k] + lo[k]) / 2 for k in range(2)]
            pts = np.array([[p, q] for p in g[0] for q in g[1]])
            mass = (np.outer(w, w).ravel() * np.asarray(a.pdf(pts))).sum() * np.prod((hi - lo) / 2)
            vol = a.cdf(hi) - a.cdf([lo[0], hi[1]]) - a.cdf([hi[0], lo[1]]) + a.cdf(lo)
            m.close(mass, vol, 'density of the beta empirical copula does not integrate to its distribution function',
                    rtol=1e-6, atol=1e-9, X=X, lo=lo, hi=hi)


@scenario(P, shards={'quick': 1, 'thorough': 8})
def sampling(m):
    """a sample consists of rows of the data, all rows equally likely, and keeps the labels"""
    import copulae as c
    rng = m.rng
    pairs, exp = 0, 0.
    for _ in range(60 if not m.thorough else 500):
        n, d = int(rng.integers(1, 12)), int(rng.choice([2, 3, 4]))
        X = rng.normal(size=(n, d))
        F = pd.DataFrame(X, columns=list('pqrs')[:d], index=np.arange(50, 50 + n)) if rng.random() < 0.5 else X
        a = c.EmpiricalCopula(F, [None, 'beta', 'checkerboard'][rng.integers(3)])
        k = int(rng.choice([1, 2, 5, 4000]))
        m.case('sample', n, d, k, X.tolist())
        S = m.must('random of an empirical copula', a.random, k, int(rng.integers(1e6)))
        if S is None:
            continue
        if isinstance(F, pd.DataFrame):
            m.ok(isinstance(S, pd.DataFrame) and list(S.columns) == list(F.columns), 'sample: labels', got=type(S))
        S = np.asarray(S)
        if not m.ok(S.shape == (k, d), 'sample: shape', shape=S.shape, k=k):
            continue
        where = [np.flatnonzero((X == r).all(1)) for r in S]
        if not m.ok(all(len(w) == 1 for w in where), 'sample: a row is no row of the data'):
            continue
        w = np.array([w[0] for w in where])
        if k == 4000:
            cnt = np.bincount(w, minlength=n)
            e = k / n
            sd = np.sqrt(k / n * (1 - 1 / n)) + 1e-9
            m.ok((np.abs(cnt - e) < 7 * sd + 1e-6).all(), 'sample: rows are not equally likely', cnt=cnt)
        k = int(rng.integers(1, n + 1))
        pairs += 0 if n == 1 else sum(len(np.unique(np.asarray(a.random(k)), axis=0)) < k for _ in range(20))
        exp += 0 if n == 1 else 20 * (1 - np.prod(1 - np.arange(k) / n))
        m.ok(a.data is not None and np.array_equal(np.asarray(a.data), X), 'data of the empirical copula changed')
        m.ok(a.dim == d and a.params is None, 'dimension of the empirical copula')
        r = m.call(a.fit, X)
        m.ok(r is a, 'fit of an empirical copula')
    # rows are drawn independently: the same one may come twice in samples smaller than the data
    m.case('repeated rows', exp)
    m.ok(abs(pairs - exp) < 8 * np.sqrt(exp) + 3, 'sample: rows do not repeat as often as they do in independent draws',
         samples_with_repetitions=pairs, expected=float(exp))


@scenario(P, shards={'quick': 1, 'thorough': 8})
def back_transformation(m):
    """to_marginals maps probabilities to order statistics and inverts pseudo_obs"""
    import copulae as c
    rng = m.rng
    T = c.EmpiricalCopula.to_marginals
    for _ in range(200 if not m.thorough else 2000):
        n, d, k = int(rng.integers(1, 40)), int(rng.integers(1, 5)), int(rng.integers(1, 8))
        if rng.random() < 0.3:
            n = int(2 ** rng.integers(0, 8))
        X = rng.normal(size=(n, d))
        if rng.random() < 0.3:
            X = rng.integers(0, 6, (n, d))
        U = rng.random((k, d))
        j = rng.random((k, d))
        U[j < 0.1] = 0
        U[j > 0.9] = 1
        grid = j > 0.6
        grid &= j < 0.75
        U[grid] = np.minimum(rng.integers(0, n + 1, (k, d)) / n + 1e-9, 1)[grid]
        near = (j > 0.75) & (j < 0.85)  # next to the multiples of 1/n
        U[near] = np.clip((rng.integers(0, n + 1, (k, d)) + rng.choice([-1, 1], (k, d)) * 10 ** rng.uniform(-10, -2, (k, d))) / n,
                          0, 1)[near]
        if n & (n - 1) == 0:  # multiples of 1/n are exact
            at = rng.random((k, d)) < 0.5
            U[at] = (rng.integers(0, n + 1, (k, d)) / n)[at]
        m.case('to_marginals', X.tolist(), U.tolist())
        idx = np.minimum(np.floor(U * n).astype(int), n - 1)
        want = np.column_stack([np.sort(X[:, q])[idx[:, q]] for q in range(d)])
        o = pd.DataFrame(X, columns=list('abcd')[:d], index=rng.permutation(n)) if rng.random() < 0.5 else X
        u = pd.DataFrame(U, columns=list('wxyz')[:d], index=np.arange(9, 9 + k)) if rng.random() < 0.3 else U
        if rng.random() < 0.2:
            u = U.tolist() 
        r = m.must('to_marginals', T, u, o)
        if r is None:
            continue
        m.close(np.asarray(r, float), want.astype(float), 'to_marginals: not the order statistic', rtol=0, X=X, U=U)
        m.ok(isinstance(r, pd.DataFrame) == isinstance(o, pd.DataFrame), 'to_marginals: type', got=type(r))
        if isinstance(o, pd.DataFrame):
            m.ok(list(r.columns) == list(o.columns), 'to_marginals: columns')
        if X.dtype.kind == 'f':
            r = m.must('to_marginals', T, c.pseudo_obs(X), o)
            if r is not None:
                m.close(np.asarray(r, float), X, 'to_marginals does not invert pseudo_obs', rtol=0, X=X)
