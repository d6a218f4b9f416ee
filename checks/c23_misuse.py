"""One case = one call outside the documented domain of a public function, method or constructor: the monitor requires an
exception (or NaN for the very rows that are missing or outside), and compares what the object answers before and after it.
Non-trivial = distinct (operation, misuse, arguments)."""
import copy

import numpy as np
import pandas as pd

from checks.c09_purity import probe, same
from vlib import gen
from vlib.core import Raised, scenario

P = 'C23'
ASSUMPTIONS = ['any ordinary exception counts as a refusal; its type is not prescribed']


def describe(x):
    return x if isinstance(x, (int, float, str, type(None), list, tuple, dict)) else repr(x)[:120]


@scenario(P, shards={'quick': 1, 'thorough': 4}, min_events=150)
def constructors(m):
    """copulas that cannot exist are not made"""
    import copulae as c
    rng = m.rng
    for _ in range(250 if not m.thorough else 2500):
        d = int(rng.integers(2, 6))
        X = rng.normal(size=(int(rng.integers(5, 20)), d))
        neg, odd = -float(rng.uniform(1e-3, 50)), rng.choice([-2.5, 0.5, 1.5, 2.5])
        low = int(rng.choice([1, 0, -1, -7]))
        par = gen.rand_mixture(rng, 2, d)
        table = {
            'clayton dim': lambda: gen.alias_class(rng, 'clayton')(1., low),
            'clayton theta d > 2': lambda: c.ClaytonCopula(neg, d + 1),
            'clayton theta d = 2': lambda: c.ClaytonCopula(neg - 1, 2),
            'clayton theta text': lambda: c.ClaytonCopula('abc', d),
            'clayton fractional dim': lambda: c.ClaytonCopula(2., float(odd)),
            'frank dim': lambda: gen.alias_class(rng, 'frank')(1., low),
            'frank theta d > 2': lambda: c.FrankCopula(neg, d + 1),
            'frank theta text': lambda: c.FrankCopula('abc', d),
            'frank fractional dim': lambda: c.FrankCopula(2., float(odd)),
            'gumbel dim': lambda: gen.alias_class(rng, 'gumbel')(1., low),
            'gumbel theta': lambda: c.GumbelCopula(float(rng.choice([neg, 0., rng.uniform(0, 1), 1 - 1e-9])), d),
            'gumbel theta text': lambda: c.GumbelCopula('abc', d),
            'gumbel fractional dim': lambda: c.GumbelCopula(2., float(odd)),
            'gaussian dim': lambda: gen.alias_class(rng, 'gaussian')(low),
            'gaussian fractional dim': lambda: c.GaussianCopula(float(odd)),
            'student dim': lambda: gen.alias_class(rng, 'student')(low),
            'student df': lambda: c.StudentCopula(d, float(rng.choice([neg, 0., np.nan, -np.inf]))),
            'student fractional dim': lambda: c.StudentCopula(float(odd)),
            'indep dim': lambda: c.IndepCopula(low),
            'indep fields': lambda: c.IndepCopula(d, [f'c{j}' for j in range(d + int(rng.choice([-1, 1])))]),
            'empirical smoothing': lambda: c.EmpiricalCopula(X, smoothing='none such'),
            'empirical one column': lambda: c.EmpiricalCopula(X[:, :1]),
            'empirical vector': lambda: c.EmpiricalCopula(X[:, 0]),
            'empirical cube': lambda: c.EmpiricalCopula(np.zeros((3, 3, d))),
            'marginal count': lambda: c.MarginalCopula(c.GaussianCopula(d), ['norm'] * (d + int(rng.choice([-1, 1])))),
            'marginal name': lambda: c.MarginalCopula(c.GaussianCopula(d), 'no such distribution'),
            'marginal names': lambda: c.MarginalCopula(c.GaussianCopula(d), ['norm'] * (d - 1) + ['no such distribution']),
            'marginal without type': lambda: c.MarginalCopula(c.GaussianCopula(d), [{'loc': 0}] * d),
            'marginal number': lambda: c.MarginalCopula(c.GaussianCopula(d), 3),
            'marginal numbers': lambda: c.MarginalCopula(c.GaussianCopula(d), [3] * d),
            'mixture dim': lambda: c.GaussianMixtureCopula(2, low),
            'mixture params of another dimension':
                lambda: c.GaussianMixtureCopula(2, d + 1, {n: np.array(v) for n, v in par.items()}),
            'mixture params of another count':
                lambda: c.GaussianMixtureCopula(3, d, {n: np.array(v) for n, v in par.items()}),
            'mixture probabilities':
                lambda: c.GaussianMixtureCopula(2, d, {**par, 'prob': np.array([0.5, 0.5]) + rng.choice([-0.2, 0.2, 0.01, 2e-3, -2e-3, 1e-4])}),
            'mixture negative probability': lambda: c.GaussianMixtureCopula(2, d, {**par, 'prob': [1.25, -0.25]}),
            'mixture negative among probabilities below 1': lambda: c.GaussianMixtureCopula(
                3, d, {**gen.rand_mixture(rng, 3, d), 'prob': [0.8, 0.5, -0.3]}),
            'mixture means': lambda: c.GaussianMixtureCopula(2, d, {**par, 'means': par['means'][:, :-1]}),
            'mixture covariances': lambda: c.GaussianMixtureCopula(2, d, {**par, 'covs': par['covs'][:1]}),
            'mixture vector': lambda: c.GaussianMixtureCopula(2, d, np.linspace(
                0.5, 1, 2 * (1 + d + d * (d + 1) // 2) + int(rng.choice([-3, -2, -1, 1, 2, d])))),
        }
        name = str(rng.choice(sorted(table)))
        m.case('construct', name, d, neg, odd, low)
        m.raises(f'construction, {name}', Exception, table[name])


def refusals(rng, a, X):
    """name -> (misuse of the copula a, what it must do: raise)"""
    c, d = a.cop, a.dim
    bad_x = {
        'too wide': np.full((3, d + 1), 0.5), 'too narrow': np.full((3, d - 1), 0.5), 'cube': np.full((2, 2, d), 0.5),
        'long vector': np.full(d + 1, 0.5), 'wide frame': pd.DataFrame(np.full((3, d + 2), 0.5)), 'number': 0.5,
    }
    out = {}
    for n, x in bad_x.items():
        out[f'cdf of a {n}'] = lambda x=x: c.cdf(x)
        out[f'pdf of a {n}'] = lambda x=x: c.pdf(x)
    out['summary of an unknown category'] = lambda: c.summary('no such category')
    out['random of a negative size'] = lambda: c.random(-int(rng.integers(1, 9)))
    out['random of a fractional size'] = lambda: c.random(2.5)
    if c.name != 'Empirical' and a.kind not in ('indep', 'empirical'):
        for n in ('too wide', 'too narrow', 'cube'):
            out[f'fit to a {n}'] = lambda x=bad_x[n]: c.fit(x, verbose=0)
        out['fit by an unknown method'] = lambda: c.fit(X, method='no such method', verbose=0)
        Y = X.copy()
        Y[int(rng.integers(len(X))), d - 1] = np.nan
        opt = {} if a.kind in ('gmc', 'marginal') else {'to_pobs': False}
        out['fit to data with missing values'] = lambda: c.fit(Y, verbose=0, **opt)
    if a.kind in gen.ARCH:
        lo = {'clayton': -1.5 if d == 2 else -0.1, 'frank': -0.1, 'gumbel': 0.9}[a.kind]
        if a.kind != 'frank' or d > 2:
            out['inadmissible parameter'] = lambda: setattr(c, 'params', lo)
        out['parameter text'] = lambda: setattr(c, 'params', 'abc')
        out['second derivative of degree 3'] = lambda: c.dipsi(0.5, 3)
        out['fit with constant column'] = lambda: c.fit(np.column_stack([np.ones(len(X)), X[:, 1:]]), verbose=0)
        out['fit by an unknown optimizer'] = lambda: c.fit(X, optim_options={'method': 'no such optimizer'}, verbose=0)
        out['fit with unknown ties'] = lambda: c.fit(X, ties='no such ties', verbose=0)
        out['item'] = lambda: c[0]
    if a.kind in ('gaussian', 'student'):
        out['fit by an unknown optimizer'] = lambda: c.fit(X, optim_options={'method': 'no such optimizer'}, verbose=0)
        out['fit with unknown ties'] = lambda: c.fit(X, ties='no such ties', verbose=0)
        npar = d * (d - 1) // 2
        out['item text'] = lambda: c['a']
        out['item beyond the end'] = lambda: c[0, d]
        out['item with three indices'] = lambda: c[0, 1, 1]
        out['setting an item beyond the end'] = lambda: c.__setitem__((0, d), 0.1)
        out['setting a correlation above 1'] = lambda: c.__setitem__((0, 1), float(rng.choice([1.01, -1.5, np.nan])))
        out['setting a matrix of another size'] = lambda: c.__setitem__(slice(None), np.eye(d + 1))
        out['params of another length'] = lambda: setattr(
            c, 'params', np.full(npar + (a.kind == 'student') + int(rng.choice([1, 2])), 0.5))
        if a.kind == 'student':
            out['df'] = lambda: setattr(c, 'params', [float(rng.choice([0., -1., np.nan])), *np.full(npar, 0.1)])
    if a.kind == 'empirical':
        out['cdf above 1'] = lambda: c.cdf(np.full((2, d), 1.2))
        out['cdf below 0'] = lambda: c.cdf(np.full((2, d), -0.2))
        one = np.full((int(rng.integers(1, 4)), d), 0.5)
        one[rng.integers(len(one)), rng.integers(d)] = float(rng.choice([-0.3, -1e-3, 1.001, 1.7]))
        out['cdf of one number outside'] = lambda: c.cdf(one)
        mixed = np.vstack([one, np.full((2, d), .5)])
        mixed[-1, rng.integers(d)] = np.nan
        mixed = mixed[rng.permutation(len(mixed))]
        out['cdf of one number outside and one missing'] = lambda: c.cdf(mixed)
        out['cdf of one point outside'] = lambda: c.cdf(one[((one < 0) | (one > 1)).any(1)][0])
        out['smoothing'] = lambda: setattr(c, 'smoothing', 'no such smoothing')
        if a.spec['smoothing'] != 'beta':
            out['pdf without density'] = lambda: c.pdf(np.full((2, d), 0.5))
    if a.kind == 'gmc':
        k = c.clusters
        par = gen.rand_mixture(rng, k, d)
        out['fit by an unknown method'] = lambda: c.fit(X, method='no such method', verbose=0)
        out['fit with an unknown criterion'] = lambda: c.fit(X, criteria='no such criterion', verbose=0)
        out['fit with unknown ties'] = lambda: c.fit(X, ties='no such ties', verbose=0)
        out['fit by an unknown optimizer'] = lambda: c.fit(X, method='sgd', verbose=0,
                                                           optim_options={'method': 'no such optimizer'})
        out['fit from a wrong start'] = lambda: c.fit(X, x0=np.full(k * (1 + d + d * (d + 1) // 2) - 1, 0.5), verbose=0)
        out['params of another dimension'] = lambda: setattr(c, 'params', gen.rand_mixture(rng, k, d + 1))
        out['params of another count'] = lambda: setattr(c, 'params', gen.rand_mixture(rng, k + 1, d))
        out['probabilities'] = lambda: setattr(c, 'params', {**par, 'prob': np.asarray(par['prob']) * 0.9})
        out['short vector'] = lambda: setattr(c, 'params', np.full(k * (1 + d + d * (d + 1) // 2) - int(rng.choice([1, 2])), 0.5))
        out['long vector'] = lambda: setattr(c, 'params', np.full(k * (1 + d + d * (d + 1) // 2) + 1, 0.5))
        out['params text'] = lambda: setattr(c, 'params', 'abc')
    return out


def unchanged(a, x, y):
    """normal probabilities in 3 or more dimensions are quasi-Monte-Carlo"""
    if a.cdf_atol > 1e-6 and 'cdf' in x:
        x, y = dict(x), dict(y)
        if not same(x.pop('cdf'), y.pop('cdf'), 4 * a.cdf_atol):
            return False
    return same(x, y)


@scenario(P, shards={'quick': 3, 'thorough': 24}, weight=2, min_events=200)
def refused(m):
    """a refused call raises and leaves the copula as it was"""
    rng = m.rng
    for _ in range(140 if not m.thorough else 700):
        a = gen.any_copula(rng, d=int(rng.choice([2, 2, 3])))
        X = np.abs(rng.normal(size=(25, a.dim))) + 0.1
        pts, u = a.points(3), gen.points(rng, 3, a.dim, 0.01)
        before = probe(a, pts, u)
        t = refusals(rng, a, X)
        for name in rng.permutation(sorted(t))[:5 if not m.thorough else 8]:
            name = str(name)
            if a.kind == 'marginal' and name == 'fit by an unknown method' and a.indep:
                continue  # which has no estimator
            m.case(a.kind, name, {k: describe(v) for k, v in a.spec.items()} if isinstance(a.spec, dict) else None)
            m.raises(f'{a.kind}: {name}', Exception, t[name])
            after = m.call(probe, a, pts, u)
            if not m.ok(not isinstance(after, Raised) and unchanged(a, before, after),
                        f'{a.kind}: a refused call ({name}) changes the copula', before=before, after=after):
                break
            m.count('states compared')


@scenario(P, shards={'quick': 1, 'thorough': 6}, min_events=60)
def missing_rows(m):
    """a missing coordinate makes the answer for its own row NaN, and only that"""
    rng = m.rng
    for _ in range(120 if not m.thorough else 900):
        a = gen.any_copula(rng)
        n = int(rng.integers(2, 8))
        x = np.array(a.points(n), float)
        miss = rng.random(n) < 0.4
        miss[rng.integers(n)] = True
        y = x.copy()
        for i in np.flatnonzero(miss):
            y[i, rng.integers(a.dim)] = np.nan
        for q, f, atol in a.queries():
            m.case(a.kind, q, y.tolist())
            want = m.must(f'{a.kind} {q}', f, x)
            got = m.call(f, y)
            if isinstance(got, Raised):
                if a.kind == 'gmc':  # scipy's normal distribution decides
                    m.count('missing values rejected')
                    continue
                m.fail(f'{a.kind} {q} of rows with missing values raises', error=repr(got), y=y)
                continue
            if want is None:
                continue
            got, want = np.asarray(got, float), np.asarray(want, float)
            m.ok(np.isnan(got[miss]).all(), f'{a.kind} {q} of a row with a missing value is a number', y=y, got=got)
            m.close(got[~miss], want[~miss], f'{a.kind} {q}: a row with a missing value changes the others', rtol=1e-7,
                    atol=max(2 * atol, 1e-12), y=y)


@scenario(P, shards={'quick': 1, 'thorough': 2}, min_events=20)
def unfitted(m):
    """copulas without parameters give no numbers"""
    import copulae as c
    rng = m.rng
    for _ in range(40 if not m.thorough else 300):
        d, n = int(rng.integers(2, 6)), int(rng.integers(1, 6))
        u = gen.points(rng, n, d, 0.01)
        f = str(rng.choice(['clayton', 'frank', 'gumbel', 'gmc']))
        if f == 'gmc':
            cop = c.GaussianMixtureCopula(int(rng.integers(1, 4)), d)
        else:
            cop = gen.alias_class(rng, f)(dim=d)
        q = str(rng.choice(['pdf', 'cdf', 'random', 'log pdf', 'fit summary']))
        m.case(f, q, d, u.tolist())
        if q == 'random':
            m.raises(f'{f} without parameters: random', Exception, cop.random, n)
        elif q == 'fit summary':
            m.raises(f'{f} before a fit: summary', Exception, cop.summary, 'fit')
        else:
            r = m.call(cop.cdf if q == 'cdf' else cop.pdf, u, log=q == 'log pdf')
            m.ok(isinstance(r, Raised) or np.isnan(np.asarray(r, float)).all(),
                 f'{f} without parameters: {q} is a number', got=r, u=u)
        m.ok(cop.params is None if f == 'gmc' else np.isnan(cop.params), f'{f}: {q} without parameters sets parameters')


@scenario(P, shards={'quick': 1, 'thorough': 8}, min_events=200)
def functions(m):
    """functions refuse arguments outside their domain, and answer as before afterwards"""
    import copulae as c
    from copulae import core, special, stats
    from copulae.empirical.distribution import emp_dist_func
    from copulae.gof import exch_test, gof_copula, rad_sym_test
    from copulae.mixtures.gmc.parameter import GMCParam
    from copulae.special.combinatorics import comb, perm
    from copulae.special import combinatorics, optimize
    from copulae.stats import corr, kendall_tau, multivariate_t, pearson_rho, skew_stable, spearman_rho
    rng = m.rng
    for _ in range(320 if not m.thorough else 2500):
        n, d = int(rng.integers(6, 30)), int(rng.integers(2, 5))
        X = rng.normal(size=(n, d))
        x, y = X[:, 0], X[:, 1]
        sm = lambda: str(rng.choice(['none', 'beta', 'checkerboard']))
        cf = [pearson_rho, kendall_tau, spearman_rho, corr][rng.integers(4)]
        neg = -float(rng.uniform(1e-3, 20))
        S = gen.rand_corr(rng, d, 0.8)
        indef = np.array([[1., 2.], [2., 1.]]) * rng.uniform(0.5, 3)
        miss = x.copy()
        miss[rng.integers(n)] = np.nan
        table = {
            'pobs ties': lambda: c.pseudo_obs(X, 'no such ties'),
            'pobs cube': lambda: c.pseudo_obs(np.zeros((2, 2, 2))),
            'rank_data axis': lambda: core.rank_data(X, 2),
            'tri_indices side': lambda: core.tri_indices(3, 1, 'no such side'),
            'near_psd asymmetric': lambda: core.near_psd(S + np.triu(np.full((d, d), 0.3), 1)),
            'near_psd vector': lambda: core.near_psd(x),
            'corr use': lambda: cf(X, use='no such policy'),
            'corr lengths': lambda: cf(x, y[:-1]),
            'corr cube': lambda: cf(np.zeros((3, 3, 3))),
            'corr one vector': lambda: cf(x),
            'corr method': lambda: corr(X, method='no such method'),
            'exch_test N': lambda: exch_test(x, y, N=int(rng.choice([0, -1, -10]))),
            'exch_test fractional N': lambda: exch_test(x, y, N=10.5),
            'exch_test m': lambda: exch_test(x, y, m=-1, N=10),
            'exch_test lengths': lambda: exch_test(x, y[:-1], N=10),
            'exch_test ties': lambda: exch_test(x, y, ties='no such ties', N=10),
            'exch_test missing': lambda: exch_test(miss, y, N=10),
            'rad_sym_test N': lambda: rad_sym_test(X, N=int(rng.choice([0, -1, -10]))),
            'rad_sym_test vector': lambda: rad_sym_test(x, N=10),
            'rad_sym_test missing': lambda: rad_sym_test(np.column_stack([miss, y]), N=10),
            'gof instance': lambda: gof_copula(c.GaussianCopula(d), X, 3),
            'gof vector': lambda: gof_copula(c.GaussianCopula, x, 3),
            'gof method': lambda: gof_copula(c.GaussianCopula, X, 3, method='no such method'),
            'mvt df': lambda: multivariate_t.pdf(X, cov=S, df=neg),
            'mvt df 0': lambda: multivariate_t.rvs(cov=S, df=0, size=3),
            'mvt indefinite': lambda: multivariate_t.pdf(np.zeros(2), cov=indef, df=3),
            'mvt sample indefinite': lambda: multivariate_t.rvs(cov=indef, df=3, size=3),
            'mvt centrality': lambda: multivariate_t.rvs(cov=S, df=3, type_='no such type', size=3),
            'mvt matrix of means': lambda: multivariate_t.pdf(np.zeros((2, 2)), mean=np.ones((2, 2)), cov=np.eye(2), df=3),
            'mvt means of samples': lambda: multivariate_t.logpdf(np.zeros((3, 2)), mean=np.ones((2, 1)), cov=np.eye(2), df=3),
            'mvt mean': lambda: multivariate_t.pdf(X, mean=np.zeros(d + 1), cov=S, df=3),
            'mvt asymmetric': lambda: multivariate_t.logpdf(X, cov=np.zeros((d, d + 1)), df=3),
            'stable alpha': lambda: skew_stable.pdf(x, float(rng.choice([0, neg, 2.0001, 5])), 0.),
            'stable beta': lambda: skew_stable.pdf(x, 1.5, float(rng.choice([-1.01, 1.01, 4]))),
            'stable gamma': lambda: skew_stable.pdf(x, 1.5, 0., gamma=neg),
            'stable sample alpha': lambda: skew_stable.rvs(float(rng.choice([0, neg, 2.0001])), 0., size=3),
            'stable sample beta': lambda: skew_stable.rvs(1.5, float(rng.choice([-1.01, 1.01])), size=3),
            'stable sample gamma': lambda: skew_stable.rvs(1.5, 0., gamma=neg, size=3),
            'stirling k': lambda: special.stirling_first(3, 4 + int(rng.integers(5))),
            'stirling n': lambda: special.stirling_first(-1, 0),
            'stirling second k': lambda: special.stirling_second(3, 4 + int(rng.integers(5))),
            'eulerian k': lambda: special.eulerian(3, int(rng.choice([4, 9, -1]))),
            'eulerian_all n': lambda: special.eulerian_all(-1),
            'to_marginals above 1': lambda: c.EmpiricalCopula.to_marginals(np.full((2, d), 1 + rng.uniform(0.01, 2)), X),
            'to_marginals below 0': lambda: c.EmpiricalCopula.to_marginals(np.full((2, d), neg), X),
            'to_marginals missing': lambda: c.EmpiricalCopula.to_marginals(np.full((2, d), np.nan), X),
            'to_marginals wide': lambda: c.EmpiricalCopula.to_marginals(np.full((2, d + 1), 0.5), X),
            'from_vector': lambda: GMCParam.from_vector(
                np.full(2 * (1 + d + d * (d + 1) // 2) + int(rng.choice([-4, -3, -2, -1, 1, 2, 3])), 0.4), 2, d),
            'from_dict': lambda: GMCParam.from_dict({'prob': [0.5, 0.5], 'means': np.zeros((2, d)), 'covs': [np.eye(d)]}),
            'GMCParam prob': lambda: GMCParam(2, d, [0.6, 0.6], np.zeros((2, d)), [np.eye(d)] * 2),
            'GMCParam negative prob': lambda: GMCParam(3, d, rng.permutation([0.9, 0.4, -0.3]), np.zeros((3, d)), [np.eye(d)] * 3),
            'emp_dist_func wider': lambda: emp_dist_func(X, X[:, :-1] if d > 2 else np.c_[X, x], sm()),
            'emp_dist_func narrower': lambda: emp_dist_func(X, np.c_[X, x], sm()),
            'emp_dist_func smoothing': lambda: emp_dist_func(X, X, 'no such smoothing'),
            'root': lambda: optimize.find_root(lambda t: t * t + 1, -1., 1.),
        }
        name = str(rng.choice(sorted(table)))
        m.case('function', name, X[0].tolist())
        before = copy.deepcopy((X, S, miss))
        m.raises(f'{name}', Exception, table[name])
        m.ok(same(before, (X, S, miss)), f'{name}: a refused call changes its arguments')
        m.close(np.asarray(c.pseudo_obs(X)), np.argsort(np.argsort(X, 0), 0) / (n + 1) + 1 / (n + 1),
                'after a refused call the next answer is wrong', rtol=1e-12)
