"""One case = one call of a public function or method with generated arguments in a generated memory layout, executed three
times: arguments are recorded before and compared after, results must not share memory with them, the second call (same
random state) must repeat the first, and the third follows after the first result was overwritten. Copulas are probed before
and after every query, and after the caller's own arrays were overwritten. Non-trivial = distinct (operation, arguments)."""
import copy

import numpy as np
import pandas as pd

from vlib import gen
from vlib.core import Raised, scenario

P = 'C09'
ASSUMPTIONS = ['numpy\'s global generator is the library\'s source of randomness']


def leaves(x, seen=None):
    """arrays reachable from a value"""
    seen = set() if seen is None else seen
    if id(x) in seen or isinstance(x, (str, bytes, int, float, complex, type(None))) or callable(x):
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, pd.DataFrame):
        for c in range(x.shape[1]):
            yield x.iloc[:, c].to_numpy()
    elif isinstance(x, pd.Series):
        yield x.to_numpy()
    elif isinstance(x, dict):
        for v in x.values():
            yield from leaves(v, seen)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from leaves(v, seen)
    elif type(x).__module__.startswith('copulae') and hasattr(x, '__dict__'):
        yield from leaves(vars(x), seen)


def same(a, b, atol=0.):
    if isinstance(a, Raised) or isinstance(b, Raised):
        return isinstance(a, Raised) and isinstance(b, Raised) and type(a.exc) is type(b.exc)
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(same(x, y, atol) for x, y in zip(a.ravel(), b.ravel()))
        if a.dtype.kind in 'fc':
            f = np.isfinite(a) & np.isfinite(b)
            # the vectorized loops of numpy may round the last digit by the alignment of their buffers
            return bool(np.all((a == b) | ((a != a) & (b != b)) | (f & (np.abs(np.where(f, a, 0) - np.where(f, b, 0))
                                                                        <= atol + 1e-12 * np.abs(np.where(f, a, 0))))))
        return np.array_equal(a, b)
    if isinstance(a, pd.DataFrame):
        return a.columns.equals(b.columns) and a.index.equals(b.index) and list(a.dtypes) == list(b.dtypes) and \
            same(a.to_numpy(), b.to_numpy(), atol)
    if isinstance(a, pd.Series):
        return a.name == b.name and a.index.equals(b.index) and same(a.to_numpy(), b.to_numpy(), atol)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], atol) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, atol) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)):
        return bool(a == b or (a != a and b != b) or abs(a - b) <= atol + 1e-12 * abs(a))
    if type(a).__module__.startswith('copulae') and hasattr(a, '__dict__'):
        return same(vars(a), vars(b), atol)
    if callable(a):
        return True
    try:
        return bool(a == b) or str(a) == str(b)
    except Exception:
        return True


def layout(rng, a):
    """the same numbers in another memory layout or container"""
    a = np.array(a, float)
    k = int(rng.integers(7))
    if k == 0:
        return a
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:  # every other element of a larger array
        b = np.full(tuple(2 * s for s in a.shape), -7.)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == 3:  # reversed view
        return a[::-1].copy()[::-1]
    if k == 4 and a.ndim == 2:
        return pd.DataFrame(a, columns=[f'c{j}' for j in range(a.shape[1])])
    if k == 5:
        return a.tolist()
    if k == 6 and a.ndim == 2:
        return pd.DataFrame(np.asfortranarray(a))
    return a.copy()


def overwrite(x):
    for a in leaves(x):
        if a.flags.writeable and a.dtype.kind in 'fiuc' and a.size:
            a[...] = 77 if a.dtype.kind in 'iu' else -123.456


def pure(m, what, fn, *args, atol=0., alias_ok=False, spoil=True, **kwargs):
    """-> first result (or Raised)"""
    s = int(m.rng.integers(2 ** 31))
    before = copy.deepcopy((args, kwargs))
    m.case(what, before[0], {k: v for k, v in before[1].items() if not callable(v)})
    np.random.seed(s)
    r1 = m.call(fn, *args, **kwargs)
    m.count('calls')
    if not m.ok(same(before, (args, kwargs)), f'{what} changes its arguments', before=before, after=(args, kwargs)):
        return r1
    if not alias_ok and not isinstance(r1, Raised):
        mine = list(leaves((args, kwargs)))
        m.ok(not any(np.shares_memory(x, y) for x in leaves(r1) for y in mine if x.size and y.size),
             f'the result of {what} shares memory with an argument', args=before)
    keep = copy.deepcopy(r1) if not isinstance(r1, Raised) else r1
    np.random.seed(s)
    r2 = m.call(fn, *args, **kwargs)
    m.ok(same(keep, r2, atol), f'{what} gives a different answer when called again', first=keep, second=r2, args=before)
    if spoil and not isinstance(r1, Raised):
        overwrite(r1)
        overwrite(r2)
        if not alias_ok:
            m.ok(same(before, (args, kwargs)), f'overwriting the result of {what} changes the arguments', args=before)
        np.random.seed(s)
        r3 = m.call(fn, *args, **kwargs)
        m.ok(same(keep, r3, atol), f'{what} gives a different answer after its result was overwritten', first=keep,
             third=r3, args=before)
    if isinstance(r1, Raised):
        m.count(f'raised in {what}: {r1!r}'[:100])
    return keep


def probe(a, pts, u):
    """what the copula answers"""
    out = {'dim': a.cop.dim, 'params': copy.deepcopy(a.cop.params), 'name': a.cop.name, 'summary': str(a.cop.summary())}
    for q, f, _ in a.queries():
        out[q] = f(pts)
    np_state = np.random.get_state()
    out['random'] = a.cop.random(5, seed=3)
    np.random.set_state(np_state)
    if hasattr(a.cop, 'sigma'):
        out['sigma'] = a.cop.sigma
    if a.kind in gen.FAMILIES:
        out['bounds'] = a.cop.bounds
    if a.kind in gen.ARCH:
        out['psi'] = a.cop.psi(u[:, 0])
        out['tau'] = a.cop.tau
    return copy.deepcopy(out)


def data_of(rng, a, n=30):
    x = gen.rand_cont_data(rng, n, a.dim)
    return x


@scenario(P, shards={'quick': 4, 'thorough': 32}, weight=3, min_events=100)
def copula_queries(m):
    rng = m.rng
    for _ in range(50 if not m.thorough else 300):
        a = gen.any_copula(rng)
        cop, kind = a.cop, a.kind
        pts, u = a.points(6), gen.points(rng, 6, a.dim, .01)
        tol = 1e-3 if a.cdf_atol > 1e-6 else 0  # quasi-Monte-Carlo
        base = m.must(f'{kind} queries', probe, a, pts, u)
        if base is None:
            continue
        ops = []
        for q, f, at in a.queries():
            ops += [(q, f, (layout(rng, a.points(5)),), {'log': not tol and bool(rng.integers(2))}, tol),
                    (q, f, (layout(rng, a.points(1)[0]),), {}, tol)]
        ops.append(('random', cop.random, (int(rng.integers(1, 9)),), {'seed': int(rng.integers(99))}, 0))
        ops.append(('random', cop.random, (int(rng.integers(1, 9)),), {}, 0))
        ops.append(('pobs', cop.pobs, (layout(rng, data_of(rng, a)),), {'ties': str(rng.choice(['average', 'min', 'max']))}, 0))
        ops.append(('summary', lambda: str(cop.summary()), (), {}, 0))
        ops.append(('html summary', lambda: cop.summary()._repr_html_(), (), {}, 0))
        ops.append(('repr', lambda: repr(cop) and str(cop) and None, (), {}, 0))
        ops.append(('bounds', lambda: copy.deepcopy(cop.bounds), (), {}, 0))
        if kind in gen.FAMILIES and kind != 'indep':
            ops.append(('log_lik', cop.log_lik, (layout(rng, data_of(rng, a)),), {}, 0))
            ops.append(('log_lik', cop.log_lik, (layout(rng, gen.points(rng, 8, a.dim)),), {'to_pobs': False}, 0))
            ops.append(('tau', lambda: cop.tau, (), {}, 0))
            ops.append(('lambda_', lambda: tuple(cop.lambda_), (), {}, 0))
            ops.append(('itau', cop.itau, (layout(rng, rng.uniform(.1, .8, 4)),), {}, 0))
        if kind in gen.ARCH:
            for f in ('psi', 'ipsi', 'dipsi'):
                ops.append((f, getattr(cop, f), (layout(rng, rng.uniform(.1, .9, 5)),), {}, 0))
                ops.append((f, getattr(cop, f), (layout(rng, rng.uniform(.1, .9, (3, 2))),), {}, 0))
        if kind in ('gaussian', 'student'):
            ops.append(('sigma', lambda: cop.sigma, (), {}, 0))
            ops.append(('items', lambda: np.array(cop[0, 1]), (), {}, 0))
            ops.append(('matrix items', lambda: np.array(cop[:]), (), {}, 0))
            if kind == 'gaussian':
                ops.append(('rho', lambda: cop.rho, (), {}, 0))
                ops.append(('irho', cop.irho, (layout(rng, rng.uniform(-.8, .8, 4)),), {}, 0))
                ops.append(('drho', cop.drho, (layout(rng, rng.uniform(-.8, .8, 4)),), {}, 0))
            ops.append(('dtau', cop.dtau, (layout(rng, rng.uniform(-.8, .8, 4)),), {}, 0))
        if kind == 'empirical':
            x = data_of(rng, a)
            ops.append(('to_marginals', cop.to_marginals, (layout(rng, gen.points(rng, 5, a.dim)), layout(rng, x)), {}, 0))
        for i in rng.permutation(len(ops))[:10]:
            name, f, args, kw, t = ops[i]
            pure(m, f'{kind} {name}', f, *args, atol=t, **kw)
            m.count('probes')
            now = m.must(f'{kind} queries', probe, a, pts, u)
            m.ok(now is None or same(base, now, tol), f'{kind}: the query {name} changes the copula', before=base, after=now,
                 **a.spec)


@scenario(P, shards={'quick': 2, 'thorough': 16}, weight=3, min_events=20)
def fits(m):
    """fitting changes neither the data, the start values nor the options, and depends on nothing else"""
    import copulae as c
    rng = m.rng
    for _ in range(26 if not m.thorough else 150):
        kind = str(rng.choice([*gen.FAMILIES, 'marginal', 'gmc', 'empirical']))
        d = int(rng.choice([2, 2, 3]))
        z = rng.normal(size=(60, 1)) + rng.normal(size=(60, d))
        X = layout(rng, z)
        kw = {'verbose': 0}
        if kind in gen.FAMILIES:
            method = 'ml' if kind in ('indep', 'student') or rng.random() < .6 else 'itau'
            if method == 'itau' or rng.random() < .8:
                kw['method'] = method
            if rng.random() < .5 and kind != 'indep':
                kw['optim_options'] = {'method': 'SLSQP', 'options': {'maxiter': 60}}
            if rng.random() < .4 and kind in ('gaussian', 'clayton', 'frank', 'gumbel') and method == 'ml':
                kw['x0'] = np.full(d * (d - 1) // 2, .3) if kind == 'gaussian' else np.array([1.6])
            build = lambda: gen.classes()[kind](dim=d)  # noqa: E731
        elif kind == 'marginal':
            inner = str(rng.choice(['gaussian', 'clayton']))
            margins = ['norm', {'type': 'norm'}, {'type': 'norm', 'parameters': {'loc': 0., 'scale': 2.}}][:d]
            keep = copy.deepcopy(margins)
            build = lambda: c.MarginalCopula(gen.classes()[inner](dim=d), margins)  # noqa: E731
        elif kind == 'gmc':
            kw = {'method': str(rng.choice(['pem', 'kmeans', 'sgd'])), 'max_iter': 8}
            build = lambda: c.GaussianMixtureCopula(2, d)  # noqa: E731
            if rng.random() < .5:
                kw['x0'] = gen.rand_mixture(rng, 2, d)
                from copulae.mixtures.gmc.parameter import GMCParam
                kw['x0'] = GMCParam(2, d, kw['x0']['prob'], kw['x0']['means'], kw['x0']['covs'])
                if rng.random() < .5:
                    kw['x0'] = np.array(kw['x0'].to_vector())
        else:
            build = lambda: c.EmpiricalCopula(X)  # noqa: E731

        def run(X, **kw):
            cop = build()
            if kind != 'empirical':
                cop.fit(X, **kw)
            # what the fit gives
            out = {'params': copy.deepcopy(cop.params) if kind != 'marginal' else None,
                   'summary': str(cop.summary('fit')) if kind in gen.FAMILIES and kind != 'indep' else None}
            if kind == 'marginal':
                out['random'] = np.asarray(cop.random(4, seed=1))
            return out

        r = pure(m, f'{kind} fit', run, X, atol=1e-12, spoil=False, **kw)
        if isinstance(r, Raised) and kind != 'gmc':
            m.ok(False, f'{kind} fit: unexpected exception', error=repr(r), tb=r.tb[-800:], data=z, kw=kw)
        if kind == 'marginal':
            m.ok(same(keep, margins), 'fitting the marginal copula changes the caller\'s margins', before=keep, after=margins)


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=60)
def given_arrays(m):
    """values handed over are copied: overwriting the caller's arrays afterwards changes nothing"""
    import copulae as c
    rng = m.rng
    for _ in range(60 if not m.thorough else 500):
        kind = str(rng.choice(['gaussian', 'student', 'gmc', 'marginal', 'matrix', 'gmcparam']))
        d = int(rng.integers(2, 5))
        S = gen.rand_corr(rng, d, .8)
        rho = S[np.triu_indices(d, 1)].copy()
        pts = gen.points(rng, 4, d, .05)
        if kind == 'gaussian':
            cop = c.GaussianCopula(d)
            given = [rho]
            m.case('set', kind, rho.tolist())
            cop.params = rho
        elif kind == 'student':
            cop = c.StudentCopula(d)
            given = [np.r_[5., rho]]
            m.case('set', kind, rho.tolist())
            if rng.random() < .5:
                cop.params = given[0]
            else:
                from copulae.elliptical.student import StudentParams
                given = [rho]
                cop.params = StudentParams(5., rho)
        elif kind == 'matrix':
            cop = c.GaussianCopula(d) if rng.random() < .5 else c.StudentCopula(d)
            given = [S]
            m.case('set', kind, S.tolist())
            cop[:] = S
        elif kind in ('gmc', 'gmcparam'):
            par = gen.rand_mixture(rng, 2, d)
            given = [par['prob'], par['means'], par['covs']]
            m.case('set', kind, par)
            if kind == 'gmcparam':
                from copulae.mixtures.gmc.parameter import GMCParam
                p = GMCParam(2, d, par['prob'], par['means'], par['covs'])
                cop = c.GaussianMixtureCopula(2, d, p)
            elif rng.random() < .5:
                cop = c.GaussianMixtureCopula(2, d, par)
            else:
                cop = c.GaussianMixtureCopula(2, d)
                cop.params = par
        else:
            inner = c.GaussianCopula(d)
            inner.params = rho.copy()
            par = {'loc': 1., 'scale': 2.}
            margins = [{'type': 'norm', 'parameters': par}] + ['norm'] * (d - 1)
            cop = c.MarginalCopula(inner, margins)
            given = []
            m.case('set', kind, d)
        base = np.asarray(cop.pdf(pts))
        smp = np.asarray(cop.random(5, seed=1))
        for g in given:
            g[...] = .123
        if kind == 'marginal':
            par['loc'] = 99.
            margins[0] = 'expon'
        m.ok(np.array_equal(base, np.asarray(cop.pdf(pts))) and np.array_equal(smp, np.asarray(cop.random(5, seed=1))),
             f'{kind}: overwriting the caller\'s values changes the copula', before=base, after=np.asarray(cop.pdf(pts)))


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=100)
def functions(m):
    """special functions, matrix helpers, correlations, ranks, statistics"""
    import copulae.core as core
    import copulae.special as sp
    from copulae import pseudo_obs
    from copulae.archimedean.auxiliary import dsum_sibuya
    from copulae.archimedean.gumbel import gumbel_coef, gumbel_poly
    from copulae.stats import corr, kendall_tau, multivariate_t, pearson_rho, skew_stable, spearman_rho
    import importlib
    rng = m.rng
    mod = lambda n: importlib.import_module('copulae.special.' + n)  # noqa: E731
    debye, dilog, clausen, trig = mod('debye'), mod('dilog'), mod('clausen'), mod('trig')

    def vec(lo, hi, k=None):
        shp = [(6,), (1,), (3, 4), (2, 1)][int(rng.integers(4))]
        return layout(rng, rng.uniform(lo, hi, shp))

    def tied(n, d):
        x = gen.rand_tied_data(rng, n, d)
        return layout(rng, x)

    def cov(d):
        s = 10 ** rng.uniform(-1, 1, d)
        return gen.rand_corr(rng, d) * np.outer(s, s)

    def calls():
        d = int(rng.integers(2, 5))
        X, Y = tied(20, d), layout(rng, rng.normal(size=20))
        B = cov(d)
        A = B * np.where(np.eye(d) > 0, 1, 1.4)
        return [
            ('debye_1', debye.debye_1, (vec(-20, 20),), {'threaded': bool(rng.integers(2))}),
            ('debye_2', debye.debye_2, (vec(-20, 20),), {'threaded': bool(rng.integers(2))}),
            ('clausen', clausen.clausen, (vec(-9, 9),), {'threaded': bool(rng.integers(2))}),
            ('dilog', dilog.dilog, (vec(-9, 9),), {'threaded': bool(rng.integers(2))}),
            ('dilog_complex', dilog.dilog_complex, (layout(rng, rng.uniform(.1, 3, 5)), layout(rng, rng.uniform(-3, 3, 5))), {}),
            ('log1mexp', sp.log1mexp, (vec(.1, 30),), {}), ('log1pexp', sp.log1pexp, (vec(-40, 40),), {}),
            ('log_sum', sp.log_sum, (rng.normal(size=(4, 3)),), {}),
            ('log_sum', sp.log_sum, (np.asfortranarray(rng.normal(size=(4, 3))), rng.normal(size=3)), {}),
            ('poly_log', sp.poly_log, (layout(rng, rng.uniform(.1, .9, 5)), int(rng.integers(-6, 3))),
             {'log': bool(rng.integers(2))}),
            ('polyn_eval', sp.polyn_eval, (rng.normal(size=4), layout(rng, rng.normal(size=6))), {}),
            ('polyn_eval', sp.polyn_eval, (list(rng.normal(size=4)), rng.normal(size=(3, 2))), {}),
            ('sign_ff', sp.sign_ff, (.4, np.arange(1, 5), 6), {}),
            ('stirling_first_all', sp.stirling_first_all, (6,), {}), ('stirling_second_all', sp.stirling_second_all, (6,), {}),
            ('eulerian_all', sp.eulerian_all, (int(rng.integers(1, 9)),), {}),
            ('comb', sp.comb, (rng.uniform(3, 8, 4), rng.uniform(0, 3, 4)), {}),
            ('perm', sp.perm, (rng.uniform(3, 8, 4), rng.uniform(0, 3, 4)), {}),
            ('sinpi2', trig.sinpi2, (rng.uniform(-4, 4, 5),), {}), ('cospi2', trig.cospi2, (rng.uniform(-4, 4, 5),), {}),
            ('tanpi2', trig.tanpi2, (rng.uniform(-4, 4, 5),), {}),
            ('dsum_sibuya', dsum_sibuya, (np.arange(4, 9), 3, .4), {}),
            ('gumbel_coef', gumbel_coef, (5, .4), {}), ('gumbel_poly', gumbel_poly, (rng.normal(size=4), .4, 5), {}),
            ('corr2cov', core.corr2cov, (gen.rand_corr(rng, d), rng.uniform(.1, 3, d)), {}),
            ('corr2cov', core.corr2cov, (np.asfortranarray(gen.rand_corr(rng, d)), layout(rng, rng.uniform(.1, 3, d))), {}),
            ('create_cov_matrix', core.create_cov_matrix, (layout(rng, rng.uniform(-.3, .3, 6)),), {}),
            ('near_psd', core.near_psd, (np.asfortranarray(A),), {}),
            ('is_psd', core.is_psd, (np.asfortranarray(A), bool(rng.integers(2))), {}),
            ('multivariate t pdf', multivariate_t.pdf, (layout(rng, rng.normal(size=(3, d))), layout(rng, rng.normal(size=d)),
                                                        np.asfortranarray(B), 4.), {}),
            ('cov2corr', core.cov2corr, (B,), {'return_std': bool(rng.integers(2))}),
            ('cov2corr', core.cov2corr, (np.asfortranarray(B),), {}),
            ('near_psd', core.near_psd, (A,), {}), ('near_psd', core.near_psd, (A, 'nearest'), {}),
            ('is_psd', core.is_psd, (A,), {}), ('is_symmetric', core.is_symmetric, (A,), {}),
            ('create_cov_matrix', core.create_cov_matrix, (rng.uniform(-.3, .3, 3),), {}),
            ('pseudo_obs', pseudo_obs, (X,), {'ties': str(rng.choice(['average', 'min', 'dense', 'ordinal']))}),
            ('rank_data', core.rank_data, (np.asarray(X), int(rng.integers(2))), {}),
            ('corr', corr, (X,), {'method': str(rng.choice(['pearson', 'spearman', 'kendall']))}),
            ('pearson_rho', pearson_rho, (X,), {}), ('kendall_tau', kendall_tau, (X,), {}),
            ('spearman_rho', spearman_rho, (Y, layout(rng, rng.normal(size=20))), {}),
            ('multivariate t pdf', multivariate_t.pdf, (rng.normal(size=(3, d)), rng.normal(size=d), B, 4.), {}),
            ('multivariate t rvs', multivariate_t.rvs, (rng.normal(size=d), B, 4., 5), {}),
            ('stable pdf', skew_stable.pdf, (layout(rng, rng.normal(size=3)), 1.5, .3), {}),
            ('stable pdf far out', skew_stable.pdf, (np.array([-25., 30., .3]), 1.5, .3), {}),
            ('stable rvs', skew_stable.rvs, (1.5, .3), {'size': 4}),
        ]

    for _ in range(9 if not m.thorough else 80):
        for name, f, args, kw in calls():
            alias = name in ('near_psd',)  # returns a matrix which is fine already as it is
            r = pure(m, name, f, *args, alias_ok=alias, spoil=not alias, **kw)
            if isinstance(r, Raised):
                m.ok(False, f'{name}: unexpected exception', error=repr(r), tb=r.tb[-800:], args=args)


@scenario(P, shards={'quick': 2, 'thorough': 12}, weight=2, min_events=15)
def tests_of_fit(m):
    import copulae as c
    from copulae.gof import exch_test, gof_copula, rad_sym_test
    rng = m.rng
    for i in range(10 if not m.thorough else 60):
        d = int(rng.choice([2, 3]))
        X = layout(rng, gen.rand_cont_data(rng, 25, d) if rng.random() < .5 else gen.rand_tied_data(rng, 25, d))
        XX = np.asarray(X)
        pure(m, 'exch_test', lambda x, y, **k: exch_test(x, y, m=5, **k).statistic, layout(rng, XX[:, 0]), layout(rng, XX[:, 1]),
             N=50)
        pure(m, 'rad_sym_test', lambda x, **k: rad_sym_test(x, **k).statistic, X, N=50)
        opts = {'verbose': 0, 'optim_options': {'method': 'SLSQP', 'options': {'maxiter': 50}}}
        if i % 2 == 0:
            cls = [c.GaussianCopula if d == 2 else c.FrankCopula, c.GumbelCopula, c.ClaytonCopula][int(rng.integers(3))]
            Z = layout(rng, rng.normal(size=(25, 1)) + rng.normal(size=(25, d)))
            r = pure(m, 'gof_copula', lambda x, **k: vars(gof_copula(cls, x, 5, **k)), Z, ties='average', spoil=False, **opts)
            m.ok(not isinstance(r, Raised), 'gof_copula: unexpected exception', error=r)


@scenario(P, shards={'quick': 1, 'thorough': 4}, min_events=40)
def mixture_parameters(m):
    """conversions of the parameters of a mixture, with weights of 0 and 1 as well"""
    from copulae.mixtures.gmc.parameter import GMCParam
    rng = m.rng
    for _ in range(60 if not m.thorough else 600):
        k, d = int(rng.integers(1, 5)), int(rng.integers(2, 5))
        par = gen.rand_mixture(rng, k, d)
        if rng.random() < .4:
            par['prob'] = np.eye(k)[rng.integers(k)]
        if rng.random() < .3:
            par = {n: v.tolist() for n, v in par.items()}
        p = pure(m, 'GMCParam.from_dict', GMCParam.from_dict, par, spoil=False)
        p = GMCParam.from_dict(par)

        def state():
            return copy.deepcopy([p.prob, p.means, p.covs])

        before = state()
        v = None
        for q, f in (('to_vector', p.to_vector), ('str', p.__str__), ('repr', p.__repr__), ('iteration', lambda: list(p)),
                     ('to_vector again', p.to_vector)):
            r = pure(m, f'GMCParam {q}', f, spoil=q.startswith('to'))
            m.ok(same(before, state()), f'GMCParam: {q} changes the parameters', before=before, after=state())
            if q.startswith('to') and not isinstance(r, Raised):
                m.ok(v is None or np.array_equal(r, v), 'GMCParam: to_vector answers differently when asked again')
                v = r
        if v is not None:
            pure(m, 'GMCParam.from_vector', lambda w: vars(GMCParam.from_vector(w, k, d)), np.asarray(v))


@scenario(P, shards={'quick': 1, 'thorough': 4}, min_events=40)
def dictionaries(m):
    """nested merges: values and untouched arguments"""
    from copulae.utility.dict import merge_dict, merge_dicts
    rng = m.rng

    def rand(depth):
        return {str(k): rand(depth - 1) if depth and rng.random() < .3 else int(rng.integers(100))
                for k in rng.choice(list('abcdefghijklmnopqrst'), int(rng.integers(0, 15)), replace=False)}

    def want(a, b):
        out = {}
        for k in [*a, *(k for k in b if k not in a)]:
            if k in a and k in b:
                out[k] = want(a[k], b[k]) if isinstance(a[k], dict) and isinstance(b[k], dict) else b[k]
            else:
                out[k] = a.get(k, b.get(k))
        return out

    for _ in range(60 if not m.thorough else 1000):
        a, b, e = (rand(int(rng.integers(4))) for _ in range(3))
        r = pure(m, 'merge_dict', merge_dict, a, b)
        m.ok(r == want(a, b), 'merge_dict', a=a, b=b, got=r)
        r = pure(m, 'merge_dicts', merge_dicts, a, b, e)
        m.ok(r == want(want(a, b), e), 'merge_dicts', a=a, b=b, c=e, got=r)
        r = pure(m, 'merge_dicts of one', merge_dicts, a)
        m.ok(r == a, 'merge_dicts of a single dictionary', a=a, got=r)
        for k in (1, 2, 3):
            ds = [rand(2) for _ in range(k)]
            before = copy.deepcopy(ds)
            r = m.must(f'merge_dicts of {k}', merge_dicts, *ds)
            if isinstance(r, dict):
                r['new'] = 1
                r.pop('a', None)
                m.ok(ds == before, f'adding to the merger of {k} dictionaries adds to a dictionary of the caller', before=before,
                     after=ds)
        r = m.must('merge_dict', merge_dict, a, b)
        if isinstance(r, dict):
            before = copy.deepcopy((a, b))
            r['new'] = 1
            r.pop('a', None)
            m.ok((a, b) == before, 'adding to the merger of two dictionaries adds to a dictionary of the caller', after=(a, b))
        r = pure(m, 'merge_dicts of two', merge_dicts, a, b)
        m.ok(r == want(a, b), 'merge_dicts of two dictionaries', a=a, b=b, got=r)
        four = [rand(2) for _ in range(4)]
        r = pure(m, 'merge_dicts of four', merge_dicts, *four)
        w = four[0]
        for t in four[1:]:
            w = want(w, t)
        m.ok(r == w, 'merge_dicts of four dictionaries', dicts=four, got=r)


@scenario(P, shards={'quick': 1, 'thorough': 2}, min_events=4)
def datasets(m):
    """each load is a fresh, complete table"""
    from copulae import datasets as ds
    for f, shape, kw in ((ds.load_danube, (659, 2), {}), (ds.load_marginal_data, (3000, 3), {}),
                         (ds.load_residuals, (394, 7), {}), (ds.load_smi, (141, 20), {}), (ds.load_smi, None, {'as_returns': True})):
        a = pure(m, f.__name__, f, **kw)
        if isinstance(a, Raised):
            m.ok(False, f'{f.__name__}: unexpected exception', error=repr(a))
            continue
        m.ok(shape is None or a.shape == shape, f'{f.__name__}: size of the table', got=a.shape)
        m.ok(all(t.kind in 'if' for t in a.dtypes) and not a.isna().any().any(), f'{f.__name__}: numbers only',
             dtypes=[str(t) for t in a.dtypes])
    p, r = ds.load_smi(), ds.load_smi(as_returns=True)
    v = p.to_numpy()
    m.ok(r.shape == (len(p) - 1, 20) and np.allclose(r.to_numpy(), v[1:] / v[:-1] - 1, rtol=1e-12) and
         r.index.equals(p.index[1:]) and list(r.columns) == list(p.columns), 'returns of the load_smi prices', got=r.shape)
