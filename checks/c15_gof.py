"""One case = one run of the goodness-of-fit test of a copula family on generated data (with and without ties, in one or
several processes). The statistic and the fitted parameters are compared with the definition evaluated on a separate fit,
the p-value with an independent parametric bootstrap, the level and the power over repeated runs. Non-trivial = distinct
(family, options, data)."""
import numpy as np
import pandas as pd
from scipy import stats

from checks.c10_pobs import TIES, ranks
from vlib import gen
from vlib.core import Raised, scenario

P = 'C15'
ASSUMPTIONS = ['fits and distribution functions are judged by C07 and C01; here they serve as given',
               'the p-value of a bootstrap is compared with an independent bootstrap at 7 standard deviations']


def _sample(rng, f, d, n):
    import copulae as c
    th = {'clayton': 2., 'frank': 5., 'gumbel': 2.}.get(f)
    if th:
        return np.asarray(gen.classes()[f](th, d).random(n, int(rng.integers(1e9))))
    cop = c.GaussianCopula(d)
    cop.params = np.full(d * (d - 1) // 2, 0.5)
    return np.asarray(cop.random(n, int(rng.integers(1e9))))


def t_stat(cop, u):
    emp = np.array([(u <= x).all(1).mean() for x in u])
    return float(((emp - np.asarray(cop.cdf(u), float)) ** 2).sum())


def retie(ub, x):
    """rows are kept together; column by column the i-th smallest value is replaced by the value at the position which
    the i-th smallest of x shares with its ties"""
    from scipy.stats import rankdata
    for i in range(x.shape[1]):
        pos = np.sort(rankdata(x[:, i])).astype(int) - 1
        ub = ub[np.argsort(ub[:, i], kind='stable')]
        ub[:, i] = ub[pos, i]
    return ub


def bootstrap(rng, f, cop, X, ties, fit_ties, opts, K):
    n, d = X.shape
    tied = any(len(np.unique(X[:, j])) < n for j in range(d))
    out = []
    for _ in range(K):
        u = np.array(cop.random(n, int(rng.integers(1e9))), float)
        if tied:
            u = retie(u, X)
        out.append(stat_of(f, u, ties, fit_ties, opts)[0])
    return np.array(out)


def stat_of(f, X, ties, fit_ties, opts):
    from scipy.stats import rankdata
    n, d = X.shape
    pobs = np.column_stack([rankdata(X[:, j], ties) for j in range(d)]) / (n + 1)
    fobs = np.column_stack([rankdata(X[:, j], fit_ties) for j in range(d)]) / (n + 1)
    cop = gen.classes()[f](dim=d)
    cop.fit(fobs, to_pobs=False, verbose=0, **opts)
    return t_stat(cop, pobs), cop


@scenario(P, shards={'quick': 6, 'thorough': 32}, weight=4)
def statistic(m):
    from copulae.gof import gof_copula
    rng = m.rng
    for it in range(5 if not m.thorough else 30):
        f = ['clayton', 'frank', 'gumbel', 'gaussian', 'clayton', 'frank'][(it + m.shard) % 6]
        true = str(rng.choice(['clayton', 'frank', 'gumbel', 'gaussian']))
        d = 2
        n = int(rng.integers(15, 40))
        X = _sample(rng, true, d, n)
        if rng.random() < 0.6:
            X = X.copy()
            X[:, 0] = np.round(X[:, 0] * rng.integers(3, 10))
            if rng.random() < 0.6:
                X[:, 1] = np.round(X[:, 1] * rng.integers(4, 25))
        elif rng.random() < 0.6:  # a single tie
            X = X.copy()
            i, j = rng.choice(n, 2, replace=False)
            X[i, i % 2] = X[j, i % 2]
        if stats.kendalltau(*X.T)[0] < 0.1:
            continue
        if rng.random() < 0.3:  # only the ranks matter: values that agree in many digits, large and tiny ones
            X = [100 + X * 1e-7, X * 1e12, X * 1e-200, -1e6 + X * 1e-4][rng.integers(4)]
        ties, fit_ties = str(rng.choice(TIES)), str(rng.choice(TIES))
        opts = {'method': 'itau'} if rng.random() < 0.4 else {}
        data = pd.DataFrame(X, columns=['a', 'b'], index=rng.permutation(n)) if rng.random() < 0.4 else X.copy()
        reps = int(rng.choice([3, 60]))
        if reps > 3 and not opts and f != 'gaussian':
            reps = 40
        mp = bool(rng.random() < 0.25)
        m.case('gof', f, ties, fit_ties, opts, reps, mp, X.tolist())
        keep = np.array(data)
        kw = dict(opts)
        if rng.random() < 0.3:
            kw['verbose'] = 0
        cls = gen.classes()[f]
        r = m.must('gof_copula', gof_copula, cls, data, reps, ties, fit_ties, mp, **kw)
        if r is None:
            continue
        m.ok(np.array_equal(keep, np.asarray(data)), 'gof_copula changes the data')
        want, cop = stat_of(f, X, ties, fit_ties, opts)
        m.close(float(r.statistic), want, 'gof_copula: statistic', rtol=1e-5, atol=1e-9, f=f, X=X, ties=ties,
                fit_ties=fit_ties, opts=opts)
        m.close(np.ravel(np.asarray(r.parameter, float)), np.ravel(np.asarray(cop.params, float)), 'gof_copula: parameter of '
                'the fit', rtol=1e-6, atol=1e-8, f=f, ties=ties, fit_ties=fit_ties)
        p = r.pvalue
        m.ok(0 < p < 1 and abs(p * (reps + 1) - 0.5 - round(p * (reps + 1) - 0.5)) < 1e-6,
             'gof_copula: p-value is not (k + 1/2) / (N + 1)', p=p, reps=reps)
        m.ok(isinstance(str(r), str) and isinstance(repr(r), str) and isinstance(r.method, str), 'gof_copula: result')
        if reps > 3:
            K = 150
            null = bootstrap(rng, f, cop, X, ties, fit_ties, opts, K)
            hi, lo = (null >= want * (1 - 1e-7)).mean(), (null > want * (1 + 1e-7)).mean()
            tol = 6 * np.sqrt(max(hi * (1 - lo), 2 / reps) * (1 / reps + 1 / K)) + 0.02
            m.count('p-values compared')
            m.ok(lo - tol <= p <= hi + tol, 'gof_copula: p-value differs from an independent bootstrap', p=p, lo=lo, hi=hi,
                 tol=tol, f=f, X=X, ties=ties, fit_ties=fit_ties, opts=opts, multiprocess=mp)


@scenario(P, shards={'quick': 4, 'thorough': 16}, weight=4)
def decisions(m):
    """p-values are neither concentrated under the hypothesis nor large under a clearly wrong family"""
    from copulae.gof import gof_copula
    rng = m.rng
    f = ['clayton', 'frank', 'gumbel', 'gaussian'][m.shard % 4]
    wrong = {'clayton': 'gumbel', 'gumbel': 'clayton', 'frank': 'clayton', 'gaussian': 'clayton'}[f]
    cls = gen.classes()[f]
    ps, reps = [], 25 if not m.thorough else 80
    for i in range(reps):
        X = _sample(rng, f, 2, 40)
        if i % 2:
            X = np.round(X * 15)
        m.case('level', f, X.tolist())
        ps.append(gof_copula(cls, X, 40, method='itau').pvalue)
    ps = np.array(ps)
    lim = stats.binom.isf(1e-10, reps, 0.1)
    m.ok((ps < 0.05).sum() <= lim, 'gof_copula: rejects true families too often', ps=ps)
    m.ok((ps > 0.4).sum() >= 2, 'gof_copula: p-values too small for the true family', ps=ps)
    # the p-value of the true family is not always (nearly) one
    m.ok((ps < 0.9).sum() >= 2, 'gof_copula: p-values too large', ps=ps)
    for i in range(2 if not m.thorough else 8):
        n = 500 if f == 'gaussian' else 300
        cop = gen.classes()[wrong](6. if wrong == 'clayton' else 3., 2)
        X = np.asarray(cop.random(n, int(rng.integers(1e9))))
        m.case('power', f, wrong, X[:20].tolist())
        p = gof_copula(cls, X, 30, method='itau').pvalue
        m.ok(p < 0.25, f'gof_copula: no power against {wrong}', p=p, f=f)


@scenario(P, shards={'quick': 2, 'thorough': 8}, weight=3)
def processes(m):
    """several processes: replications differ from one another; the global state makes the run reproducible"""
    from copulae.gof import gof_copula
    import copulae as c
    rng = m.rng
    for i in range(5 if not m.thorough else 20):
        f = str(rng.choice(['clayton', 'frank', 'gumbel']))
        X = _sample(rng, f, 2, 25)
        mp = bool(i % 2)
        s = int(rng.integers(1e6))
        m.case('repro', f, mp, X.tolist())
        np.random.seed(s)
        a = gof_copula(gen.classes()[f], X, 25, multiprocess=mp, method='itau')
        np.random.seed(s)
        b = gof_copula(gen.classes()[f], X, 25, multiprocess=mp, method='itau')
        m.ok(a.pvalue == b.pvalue and a.statistic == b.statistic, 'gof_copula: not reproducible from the random state',
             a=(a.statistic, a.pvalue), b=(b.statistic, b.pvalue), mp=mp)
    # with identical replications the p-value could only be 0.5/(N+1) or (N+0.5)/(N+1)
    seen = set()
    for i in range(8 if not m.thorough else 30):
        X = _sample(rng, 'clayton', 2, 25)
        p = gof_copula(c.ClaytonCopula, X, 16, multiprocess=True, method='itau').pvalue
        seen.add(round(p * 17 - 0.5))
        m.case('distinct', X.tolist())
    m.ok(seen - {0, 16}, 'gof_copula: all replications of a multiprocess run are equal', seen=sorted(seen))


@scenario(P, shards={'quick': 2, 'thorough': 8}, weight=3, min_events=2)
def dispersion(m):
    """replications are independent of one another: the p-values of repeated runs on the same data spread like those of a
    binomial count"""
    from copulae.gof import gof_copula
    rng = m.rng
    todo = 1 if not m.thorough else 6
    for i in range(60):
        if todo == 0:
            break
        f = str(rng.choice(['clayton', 'gumbel', 'frank']))
        X = _sample(rng, f, 2, 20)
        if stats.kendalltau(*X.T)[0] < .15:
            continue
        if m.shard % 2:
            X = np.round(X * 12)
        cls = gen.classes()[f]
        p = gof_copula(cls, X, 60, method='itau').pvalue
        if not .25 < p < .75:
            continue
        todo -= 1
        for mp in (True, False):
            N, R = 24, 40
            ks = np.array([gof_copula(cls, X, N, multiprocess=mp, method='itau').pvalue for _ in range(R)]) * (N + 1) - .5
            m.case('dispersion', f, mp, X.tolist())
            q = np.clip(ks.mean() / N, .1, .9)
            ratio = ks.var(ddof=1) / (N * q * (1 - q))
            m.count('runs', R)
            lo, hi = stats.chi2.ppf([1e-9, 1 - 1e-9], R - 1) / (R - 1)
            m.ok(.6 * lo < ratio < 1.3 * hi, 'gof_copula: replications are not independent', ratio=ratio, f=f, multiprocess=mp,
                 counts=ks, X=X)
