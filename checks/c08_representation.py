"""One case = one query (cdf or pdf, plain or log) of one copula asked in two representations of the same numbers, or
a history of fitting to and querying with named columns. Non-trivial = distinct (class, query, representation,
numbers)."""
import numpy as np
import pandas as pd

from checks.c09_purity import same
from vlib import gen, ref
from vlib.core import Raised, scenario

P = 'C08'
ASSUMPTIONS = ['distribution functions computed by quasi-Monte-Carlo (normal, 3 or more dimensions) are compared within '
               'their integration error']


def representations(rng, X):
    n, d = X.shape
    big = np.full((2 * n, 3 * d), 0.5)
    big[::2, 1::3] = X
    yield 'list of lists', X.tolist()
    yield 'tuple of tuples', tuple(tuple(r) for r in X.tolist())
    yield 'list of arrays', [r.copy() for r in X]
    yield 'Fortran order', np.asfortranarray(X)
    yield 'strided view', big[::2, 1::3]
    yield 'reversed view', X[::-1, ::-1].copy()[::-1, ::-1]
    yield 'transposed view', X.T.copy().T
    yield 'DataFrame', pd.DataFrame(X)
    yield 'named DataFrame', pd.DataFrame(X, columns=[f'col{j}' for j in range(d)])
    yield 'indexed DataFrame', pd.DataFrame(X, index=rng.permutation(np.arange(100, 100 + n)))
    yield 'read-only array', _ro(X)
    yield 'big-endian-free copy', np.array(X, dtype='float64', order='C')


def _ro(X):
    X = X.copy()
    X.setflags(write=False)
    return X


@scenario(P, shards={'quick': 4, 'thorough': 32}, weight=3)
def equivalent(m):
    rng = m.rng
    for _ in range(60 if not m.thorough else 400):
        a = gen.any_copula(rng)
        n = int(rng.choice([2, 3, 7]))
        X = np.ascontiguousarray(a.points(n))
        if rng.random() < 0.15 and a.kind not in ('marginal', 'gmc'):
            X = np.round(X, 1).clip(0.1, 0.9)
        for name, q, atol in a.queries():
            log = bool(rng.random() < 0.5)
            base = m.must(f'{a.kind} {name}', q, X.copy(), log=log)
            if base is None:
                continue
            if not m.ok(np.shape(base) == (n,), f'{a.kind} {name}: one value per row expected', shape=np.shape(base), n=n):
                continue
            base = np.asarray(base, float)
            plain = np.asarray(q(X.copy()), float)
            with np.errstate(all='ignore'):
                lg = np.log(plain)
            ok = (plain > 1e-250) if log else np.ones(n, bool)
            if atol > 1e-6 and log:
                ok &= plain > 0.05
            tol = dict(rtol=1e-9, atol=max(atol * (30 if log else 1), 1e-9 if log else 0))
            m.close(base[ok], (lg if log else plain)[ok], f'{a.kind} {name}: log=True is not the logarithm', **tol, X=X,
                    spec=a.spec)
            reps = list(representations(rng, X))
            for k in rng.choice(len(reps), 5, replace=False):
                rname, x = reps[k]
                m.case(a.kind, name, log, rname, X.tolist())
                how = rng.integers(3)
                if how == 0:
                    r = m.call(q, x, log)
                elif how == 1:
                    r = m.call(q, x, log=log)
                else:
                    arg = 'u' if _takes(q, 'u') else 'x'
                    r = m.call(q, **{arg: x, 'log': log})
                if isinstance(r, Raised):
                    m.fail(f'{a.kind} {name}: raises for a {rname}', error=repr(r), tb=r.tb[-1000:], spec=a.spec)
                    continue
                m.close(np.asarray(r, float)[ok], base[ok], f'{a.kind} {name}: different for a {rname}', **tol, X=X,
                        spec=a.spec, log=log)
            # row by row
            i = int(rng.integers(n))
            row = X[i]
            rows = {'vector': row.copy(), 'list': row.tolist(), 'tuple': tuple(row.tolist()), 'Series': pd.Series(row),
                    '1 x d': X[i:i + 1].copy(), 'strided vector': np.repeat(row, 2)[::2],
                    'DataFrame row': pd.DataFrame(X).iloc[i], '1-row DataFrame': pd.DataFrame(X[i:i + 1])}
            for k in rng.choice(len(rows), 4, replace=False):
                rname = list(rows)[k]
                m.case(a.kind, name, log, rname, row.tolist())
                r = m.call(q, rows[rname], log=log)
                if isinstance(r, Raised):
                    m.fail(f'{a.kind} {name}: raises for a single observation as {rname}', error=repr(r), tb=r.tb[-1000:])
                    continue
                m.ok(np.ndim(r) == 0, f'{a.kind} {name}: a single observation gives no scalar', type=str(type(r)),
                     rep=rname)
                if ok[i]:
                    m.close(np.ravel(np.asarray(r, float))[:1], base[i:i + 1],
                            f'{a.kind} {name}: a single observation as {rname} differs from its row', **tol, row=row, log=log,
                            spec=a.spec)
            # rows do not influence each other
            p = rng.permutation(n)
            m.close(np.asarray(m.call(q, X[p].copy(), log=log), float)[ok[p]], base[p][ok[p]],
                    f'{a.kind} {name}: depends on the order of the rows', **tol, X=X, spec=a.spec)
        # integers
        if a.kind not in ('marginal', 'gmc') and a.cdf:
            Z = rng.integers(0, 2, (4, a.dim))
            r, w = m.call(a.cop.cdf, Z), m.call(a.cop.cdf, Z.astype(float))
            m.case(a.kind, 'integers', Z.tolist(), a.spec)
            m.close(r, np.asarray(w, float), f'{a.kind} cdf: different for integer input', rtol=1e-9,
                    atol=a.cdf_atol, Z=Z, spec=a.spec)
        elif a.kind == 'marginal':
            Z = rng.integers(0, 3, (4, a.dim))
            for name, q, atol in a.queries():
                m.case(a.kind, 'integers', Z.tolist(), a.spec)
                w = m.call(q, Z.astype(float))
                m.close(m.call(q, Z), np.asarray(w, float), f'marginal {name}: different for integer input', rtol=1e-9,
                        atol=atol, Z=Z, spec=a.spec)


def _takes(q, name):
    import inspect
    try:
        return name in inspect.signature(q).parameters
    except (TypeError, ValueError):
        return False


@scenario(P, shards={'quick': 2, 'thorough': 16}, weight=2)
def named_columns(m):
    """after a fit to named columns, queries follow the names; after a fit to an array, positions"""
    rng = m.rng
    import copulae as c
    for _ in range(40 if not m.thorough else 300):
        kind = str(rng.choice(['gaussian', 'student', 'clayton', 'frank', 'gumbel', 'empirical', 'marginal']))
        d = int(rng.choice([2, 3, 3, 4]))
        if kind in ('clayton', 'frank', 'gumbel'):
            d = 2 if rng.random() < 0.5 else 3
        n = 40
        b = rng.uniform(0.3, 0.95, d)  # different positive correlations
        z = rng.normal(size=(n, 1)) * b + rng.normal(size=(n, d)) * np.sqrt(1 - b ** 2)
        names = [str(s) for s in rng.permutation(list('pqrstuvw'))[:d]]
        if rng.random() < .25:  # labels which are numbers
            names = rng.permutation(d).tolist()
        df = pd.DataFrame(z, columns=names)
        if rng.random() < 0.3:
            df.index = pd.date_range('2020-01-01', periods=n)
        if kind == 'empirical':
            a = c.EmpiricalCopula(df, str(rng.choice(['none', 'beta', 'checkerboard'])))
            arr = c.EmpiricalCopula(z, a.smoothing)
        elif kind == 'marginal':
            mg = ['norm', 't', 'uniform', 'norm'][:d]
            a = c.MarginalCopula(c.GaussianCopula(d), mg)
            a.fit(df, verbose=0)
            arr = c.MarginalCopula(c.GaussianCopula(d), mg)
            arr.fit(z, verbose=0)
        else:
            cls = gen.classes()[kind]
            meth = 'itau' if kind not in gen.ARCH else 'ml'
            a = cls(dim=d).fit(df, verbose=0, method=meth)
            arr = cls(dim=d).fit(z, verbose=0, method=meth)
        X = gen.points(rng, 4, d, 0.05)
        if kind == 'marginal':
            X = rng.normal(size=(4, d)) * 0.5
        p = rng.permutation(d)
        m.case('named', kind, d, names, p.tolist(), X.tolist())
        qs = [(nm, getattr(a, nm), getattr(arr, nm)) for nm in ('cdf', 'pdf')]
        for nm, qa, qb in qs:
            if nm == 'cdf' and kind == 'student' or nm == 'pdf' and kind == 'empirical' and a.smoothing != 'beta':
                continue
            want = np.asarray(qb(X), float)
            atol = 4e-4 if nm == 'cdf' and kind in ('gaussian', 'marginal') and d > 2 else 1e-10
            F = pd.DataFrame(X, columns=names)
            ways = {
                'an array': lambda: qa(X), 'a list': lambda: qa(X.tolist()), 'a frame': lambda: qa(F),
                'a frame with permuted columns': lambda: qa(F.iloc[:, p]),
                'a frame with more columns': lambda: qa(F.iloc[:, p].assign(zzz=9.)),
                'an indexed frame': lambda: qa(F.iloc[:, p].set_index(pd.Index(list('wxyz')))),
                'by keyword': lambda: qa(**{('u' if _takes(qa, 'u') else 'x'): F.iloc[:, p]}),
                'a frame, log': lambda: np.exp(qa(F.iloc[:, p], log=True)),
            }
            for w, g in ways.items():
                r = m.call(g)
                if isinstance(r, Raised):
                    m.fail(f'{kind} {nm} of {w}: raises', error=repr(r), tb=r.tb[-1000:])
                    continue
                m.close(np.asarray(r, float), want, f'{kind} {nm} of {w} ignores the fitted columns', rtol=1e-9,
                        atol=atol if 'log' not in w else max(atol, 1e-9), names=names, p=p, X=X)
            s = F.iloc[2]
            m.close(m.call(qa, s.iloc[p]), want[2], f'{kind} {nm} of a Series ignores the fitted columns', rtol=1e-9,
                    atol=atol, names=names, p=p)
            m.close(m.call(qa, s), want[2], f'{kind} {nm} of a Series', rtol=1e-9, atol=atol, names=names)
            m.close(m.call(qa, s.sort_index()), want[2], f'{kind} {nm} of a sorted Series ignores the fitted columns', rtol=1e-9,
                    atol=atol, names=names)
            if set(names) == set(range(d)):
                m.close(m.call(qa, pd.Series(s.sort_index().to_numpy())), want[2], f'{kind} {nm} of a Series labelled 0, 1, ... '
                        'ignores the fitted columns', rtol=1e-9, atol=atol, names=names)
            m.raises(f'{kind} {nm} of a frame that lacks a column', (KeyError, ValueError), qa, F.iloc[:, :d - 1])
        # samples carry the names, in the fitted order
        r, s = m.call(a.random, 5, 11), m.call(arr.random, 5, 11)
        m.ok(isinstance(r, pd.DataFrame) and list(r.columns) == names, f'{kind}: samples do not carry the fitted names',
             got=str(type(r)), cols=list(getattr(r, 'columns', [])), names=names)
        m.ok(isinstance(s, np.ndarray), f'{kind}: samples of a copula fitted to an array', got=str(type(s)))
        m.close(np.asarray(r, float), np.asarray(s, float), f'{kind}: the values of a sample depend on the names', rtol=1e-7,
                atol=1e-9)
        # refit
        if kind != 'empirical':
            df2 = df.iloc[:, p]
            x = a.fit(df2, verbose=0)
            r = a.random(3, seed=1)
            m.ok(isinstance(r, pd.DataFrame) and list(r.columns) == list(df2.columns), f'{kind}: names after a refit',
                 cols=list(getattr(r, 'columns', [])))
            a.fit(z, verbose=0)
            m.ok(isinstance(a.random(3), np.ndarray), f'{kind}: names of an earlier fit are kept after fitting an array')
            F = pd.DataFrame(X, columns=[f'o{j}' for j in range(d)])
            m.close(np.asarray(m.call(a.pdf, F), float), np.asarray(a.pdf(X), float),
                    f'{kind} pdf: names of an earlier fit are used after fitting an array', rtol=1e-10)


@scenario(P, shards={'quick': 1, 'thorough': 4}, min_events=100)
def by_keyword(m):
    """functions of one vector: the same numbers as list, tuple, array and series, by position and by keyword"""
    import inspect
    rng = m.rng
    for _ in range(60 if not m.thorough else 600):
        f = str(rng.choice(['gaussian', 'student', *gen.ARCH]))
        d = int(rng.choice([2, 3]))
        cop, spec = gen.make(rng, f, d, strong=.8, special=False)
        unit = np.round(rng.uniform(.05, .95, 3), 3)
        pos = {'frank': 1., 'clayton': 1., 'gumbel': 1.}.get(f)
        Q = {'itau': unit * .8 + .05, 'dtau': unit, 'drho': unit, 'irho': unit}
        if pos:
            Q = {'itau': unit * .8 + .05, 'dtau': unit + 1, 'drho': unit + 1, 'ipsi': unit, 'dipsi': unit, 'psi': unit * 2}
            if f == 'gumbel':
                Q.update(A=unit, dAdu=unit)
        if f in ('clayton', 'gumbel'):
            Q.pop('drho')
        elif f == 'student':
            Q.pop('irho')
        for nm, x in Q.items():
            fn = getattr(cop, nm)
            arg = next(iter(inspect.signature(fn).parameters))
            base = m.must(f'{f} {nm}', fn, x.copy())
            if base is None:
                continue
            base = np.asarray(base, float)
            m.case(f, nm, spec.get('theta'), x.tolist())
            if m.ok(base.shape[:1] == (3,), f'{f} {nm}: one value per item', shape=base.shape):
                for k, v in {'list': x.tolist(), 'tuple': tuple(x.tolist()), 'array': x.copy(), 'series': pd.Series(x)}.items():
                    for how, g in {'by position': lambda: fn(v), 'by keyword': lambda: fn(**{arg: v})}.items():
                        r = m.call(g)
                        if isinstance(r, Raised):
                            m.fail(f'{f} {nm}: raises for a {k} {how}', error=repr(r), tb=r.tb[-800:])
                        else:
                            m.close(np.asarray(r, float), base, f'{f} {nm}: different for a {k} {how}', rtol=1e-12, atol=1e-14)
                r = m.call(fn, **{arg: float(x[1])})
                m.close(r, base[1], f'{f} {nm}: different for a number by keyword', rtol=1e-12, atol=1e-14)


@scenario(P, shards={'quick': 1, 'thorough': 4})
def wrong_shapes(m):
    """input whose shape does not fit the dimension is rejected"""
    rng = m.rng
    for _ in range(150 if not m.thorough else 1000):
        a = gen.any_copula(rng)
        d = a.dim
        bad = {'too wide': np.full((3, d + 1), 0.5), 'too narrow': np.full((3, d - 1), 0.5), 'scalar': 0.5,
               'cube': np.full((2, 2, d), 0.5), 'long vector': np.full(d + 1, 0.5), 'short vector': np.full(d - 1, 0.5),
               'wide list': [[0.5] * (d + 2)] * 2, 'wide frame': pd.DataFrame(np.full((3, d + 1), 0.5)),
               'long Series': pd.Series([0.5] * (d + 1))}
        name = str(rng.choice(sorted(bad)))
        for qn, q, _ in a.queries():
            m.case(a.kind, qn, d, name)
            m.raises(f'{a.kind} {qn} of a {name}', (ValueError, AssertionError, IndexError, TypeError), q, bad[name])


@scenario(P, shards={'quick': 2, 'thorough': 16}, weight=2)
def large_batches(m):
    """a thousand rows, and more dimensions: every row has the value it has alone and in any other batch"""
    rng = m.rng
    for _ in range(16 if not m.thorough else 120):
        kind = str(rng.choice(gen.ALL_KINDS))
        d = int(rng.choice([2, 2, 3, 5, 8, 12])) if kind not in ('marginal', 'gmc') else int(rng.choice([2, 3, 5, 8]))
        if kind == 'gmc' and d > 5:
            d = 5
        a = gen.any_copula(rng, kind, d)
        for name, q, atol in a.queries():
            mc = name == 'cdf' and atol > 1e-6  # integrated numerically, slowly
            if mc and d > 6:
                continue
            n = int(rng.choice([20, 45])) if mc else int(rng.choice([128, 257, 1000, 1025, 4099]))
            if kind == 'empirical' and n > 300 and name == 'pdf':
                n = 300
            X = np.ascontiguousarray(a.points(n))
            log = bool(rng.random() < 0.4) and not mc
            base = m.must(f'{kind} {name} of many rows', q, X.copy(), log=log)
            if base is None or not m.ok(np.shape(base) == (n,), f'{kind} {name} of many rows: one value per row expected',
                                        shape=np.shape(base), n=n):
                continue
            base = np.asarray(base, float)
            tol = dict(rtol=1e-9 if not mc else 1e-6, atol=atol if not log else 1e-9)
            m.case(kind, name, log, n, d, X[0].tolist())
            m.count('rows', n)
            ctx = {'n': n, 'd': d, 'log': log, 'spec': {k: v for k, v in a.spec.items() if k != 'x'}}
            cut = int(rng.integers(1, n))
            two = [m.call(q, X[:cut].copy(), log=log), m.call(q, X[cut:].copy(), log=log)]
            if any(isinstance(t, Raised) for t in two):
                m.fail(f'{kind} {name}: raises for a part of the rows', error=repr(two), **ctx)
                continue
            m.close(np.r_[np.ravel(two[0]), np.ravel(two[1])], base, f'{kind} {name}: depends on the batch', cut=cut, **tol, **ctx)
            for i in {0, n - 1, *rng.integers(0, n, 6).tolist()}:
                m.close(np.ravel(m.call(q, X[i].copy(), log=log)), base[i:i + 1], f'{kind} {name}: a row of many differs alone',
                        row=i, **tol, **ctx)
            p = rng.permutation(n)
            m.close(m.call(q, np.asfortranarray(X[p]), log=log), base[p], f'{kind} {name} of many rows: depends on their order',
                    **tol, **ctx)
            m.close(m.call(q, pd.DataFrame(X, index=p), log=log), base, f'{kind} {name} of many rows as a DataFrame', **tol,
                    **ctx)
        if kind not in ('gmc', 'marginal') and a.pdf:  # the log likelihood is the sum over all rows
            u = gen.points(rng, 1500 if kind != 'empirical' else 200, d, 0.02)
            lp = np.asarray(m.call(a.cop.pdf, u, log=True), float)
            if np.isfinite(lp).all():
                m.close(m.call(a.cop.log_lik, u, to_pobs=False), lp.sum(), f'{kind} log_lik of many rows', rtol=1e-8, atol=1e-6,
                        spec=a.spec if kind != 'empirical' else None)


@scenario(P, shards={'quick': 1, 'thorough': 6}, min_events=60)
def defaults(m):
    """an option that is left out has its documented value"""
    import copulae as c
    from copulae import core, datasets, special
    from copulae.archimedean.auxiliary import dsum_sibuya
    from copulae.archimedean.gumbel import gumbel_coef, gumbel_poly
    from copulae.empirical.distribution import emp_dist_func
    from copulae.gof import exch_test, gof_copula, rad_sym_test
    from copulae.special import special_func
    from copulae.special.clausen import clausen
    from copulae.special.combinatorics import comb, perm
    from copulae.special.debye import debye_1, debye_2
    from copulae.special.dilog import dilog
    from copulae.special.optimize import find_root
    from copulae.stats import corr, kendall_tau, multivariate_t as mt, pearson_rho, random_uniform, skew_stable as ss, spearman_rho
    from copulae.stats.log import random_log_series_ln1p
    rng = m.rng
    for _ in range(2 if not m.thorough else 12):
        n, d = int(rng.integers(12, 40)), int(rng.integers(2, 5))
        X = np.round(rng.normal(size=(n, d)), 1) + rng.normal(size=(n, 1)) * .5  # with ties
        X[:3] = X[3:6]
        u = gen.points(rng, 6, d, .02)
        v = rng.uniform(.1, 3, 5)
        S = gen.rand_corr(rng, d, .6)
        C = np.full((d, d), .9)
        C[0, 1] = C[1, 0] = -.9
        np.fill_diagonal(C, 1.)
        W = np.r_[rng.normal(-2, 1, (60, d)), rng.normal(2, 1, (50, d))]
        one = lambda k: gen.classes()[k](dim=2)
        x, y = X[:, 0], X[:, 1]
        T = {
            'pseudo_obs': (lambda: c.pseudo_obs(X), lambda: c.pseudo_obs(X, 'average')),
            'rank_data': (lambda: core.rank_data(X), lambda: core.rank_data(X, 0, 'average')),
            'tri_indices': (lambda: core.tri_indices(d), lambda: core.tri_indices(d, 0, 'both')),
            'cov2corr': (lambda: core.cov2corr(S * 4), lambda: core.cov2corr(S * 4, False)),
            'is_psd': (lambda: core.is_psd(np.ones((2, 2))), lambda: core.is_psd(np.ones((2, 2)), False, 1e-12)),
            'is_symmetric': (lambda: core.is_symmetric(S), lambda: core.is_symmetric(S, 1e-8)),
            'near_psd': (lambda: core.near_psd(C), lambda: core.near_psd(C, 'clipped', 1e-15, 100)),
            'near_psd nearest': (lambda: core.near_psd(C, 'nearest'), lambda: core.near_psd(C, 'nearest', 1e-15, 100)),
            'empirical': (lambda: _emp(c.EmpiricalCopula(X), u, X),
                          lambda: _emp(c.EmpiricalCopula(X, None, 'average', 0), u, X)),
            'emp_dist_func': (lambda: emp_dist_func(u, u), lambda: emp_dist_func(u, u, 'none', 0.)),
            'clayton': (lambda: _par(c.ClaytonCopula(2.)), lambda: _par(c.ClaytonCopula(2., 2))),
            'frank': (lambda: _par(c.FrankCopula(2.)), lambda: _par(c.FrankCopula(2., 2))),
            'gumbel': (lambda: _par(c.GumbelCopula(2.)), lambda: _par(c.GumbelCopula(2., 2))),
            'gaussian': (lambda: _par(c.GaussianCopula()), lambda: _par(c.GaussianCopula(2))),
            'student': (lambda: _par(c.StudentCopula()), lambda: _par(c.StudentCopula(2, 1))),
            'indep': (lambda: c.IndepCopula().dim, lambda: c.IndepCopula(2).dim),
            'exch_test': (lambda: exch_test(x, y, 25)[0], lambda: exch_test(x, y, 25, 0, 'average')[0]),
            'rad_sym_test': (lambda: rad_sym_test(X, 25)[0], lambda: rad_sym_test(X, 25, 'average')[0]),
            'gof_copula': (lambda: _p(gof_copula(c.ClaytonCopula, X[:, :2] + X[:, :1], 3)), lambda: _p(gof_copula(
                c.ClaytonCopula, X[:, :2] + X[:, :1], 3, 'average', 'average', False))),
            'clausen': (lambda: clausen(v), lambda: clausen(v, True)),
            'dilog': (lambda: dilog(v), lambda: dilog(v, True)),
            'debye_1': (lambda: debye_1(v), lambda: debye_1(v, True)),
            'debye_2': (lambda: debye_2(v), lambda: debye_2(v, True)),
            'find_root': (lambda: round(find_root(lambda t: t ** 3 - 2, 0., 4.), 5), lambda: round(2 ** (1 / 3), 5)),
            'log_sum': (lambda: special_func.log_sum(X), lambda: special_func.log_sum(X, None)),
            'poly_log': (lambda: special_func.poly_log(v / 4, -3), lambda: special_func.poly_log(v / 4, -3, 'default', False, False)),
            'comb': (lambda: comb(8, 3), lambda: comb(8, 3, False)),
            'perm': (lambda: perm(8, 3), lambda: perm(8, 3, False)),
            'sibuya': (lambda: dsum_sibuya([3, 4], 2, .4), lambda: dsum_sibuya([3, 4], 2, .4, 'log', False)),
            'gumbel_coef': (lambda: gumbel_coef(4, .4), lambda: gumbel_coef(4, .4, 'sort', False)),
            'gumbel_poly': (lambda: gumbel_poly(v, .4, 4), lambda: gumbel_poly(v, .4, 4, 'default', False)),
            'load_smi': (lambda: datasets.load_smi(), lambda: datasets.load_smi(False)),
            'corr': (lambda: corr(X), lambda: corr(X, None, 'pearson', 'everything')),
            'corr of a pair': (lambda: corr(x, y), lambda: corr(x, y, 'pearson', 'everything')),
            'pearson_rho': (lambda: pearson_rho(X), lambda: pearson_rho(X, None, 'everything')),
            'kendall_tau': (lambda: kendall_tau(X), lambda: kendall_tau(X, None, 'everything')),
            'spearman_rho': (lambda: spearman_rho(X), lambda: spearman_rho(X, None, 'everything')),
            'mvt pdf': (lambda: mt.pdf(X, cov=S), lambda: mt.pdf(X, np.zeros(d), S, 4.6692)),
            'mvt logpdf': (lambda: mt.logpdf(x), lambda: mt.logpdf(x, 0., 1., 4.6692)),
            'mvt rvs': (lambda: mt.rvs(cov=S, df=3.), lambda: mt.rvs(np.zeros(d), S, 3., 1, 'shifted')),
            'mvt rvs mean': (lambda: mt.rvs(cov=S, df=3., size=9), lambda: mt.rvs(np.zeros(d), S, 3., 9, 'shifted', None)),
            'stable pdf': (lambda: ss.pdf(x, 1.4, .3), lambda: ss.pdf(x, 1.4, .3, 1., 0., 0, False)),
            'stable logpdf': (lambda: ss.logpdf(x, 1.4, .3), lambda: ss.logpdf(x, 1.4, .3, 1., 0., 0)),
            'stable rvs': (lambda: ss.rvs(1.4, .3), lambda: ss.rvs(1.4, .3, 1., 0., 1, 1)),
            'random_uniform': (lambda: random_uniform(4, 3), lambda: random_uniform(4, 3, None)),
            'log series': (lambda: random_log_series_ln1p(-2.), lambda: random_log_series_ln1p(-2., 1)),
            'mixture fit': (lambda: _mix(W), lambda: _mix(W, None, 'pem', None, 'average', 0, 3000, 'GMCM', 1e-4)),
        }
        for k in gen.FAMILIES:
            if k == 'indep':
                continue
            Y = X[:, :2] + X[:, :1]
            kw = dict(x0=None, method='ml', optim_options=None, ties='average', to_pobs=True, scale=1.)
            T[f'{k} fit'] = (lambda k=k: _par(one(k).fit(Y, verbose=0)), lambda k=k: _par(one(k).fit(Y, verbose=0, **kw)))
            f = one(k).fit(Y, verbose=0)
            T[f'{k} log_lik'] = (lambda f=f: f.log_lik(Y), lambda f=f: f.log_lik(Y, to_pobs=True, ties='average'))
        for name, f in (('exch_test', lambda: exch_test(x, y)), ('rad_sym_test', lambda: rad_sym_test(X))):
            r = m.must(name, f)
            m.case(name, 'replications')
            k = r[1] * 1001 - .5 if r is not None else 0
            m.ok(abs(k - round(k)) < 1e-8, f'{name}: the number of replications is not 1000', p=r)
        for name in sorted(T):
            short, full = T[name]
            seed = int(rng.integers(2 ** 31))
            m.case(name, n, d, seed)
            np.random.seed(seed)
            a = m.must(f'{name} with options left out', short)
            np.random.seed(seed)
            b = m.must(f'{name} with all options', full)
            if a is not None and b is not None:
                m.ok(same(a, b, 1e-9), f'{name}: an option that is left out has another value than the documented one', short=a,
                     full=b, X=X)


def _emp(e, u, X):
    return np.asarray(e.cdf(u)), str(e.summary()), np.asarray(e.pobs(X))


def _par(cop):
    return cop.dim, np.asarray(cop.params if not hasattr(cop, 'sigma') else cop.sigma, float), str(cop.summary())


def _p(t):
    return (float(t.statistic), float(t.pvalue)) if hasattr(t, 'pvalue') else tuple(float(v) for v in t[:2])


def _mix(X, *a):
    import copulae as c
    cop = c.GaussianMixtureCopula(2, X.shape[1])
    cop.fit(X, *a) if a else cop.fit(X, verbose=0)
    return cop.params.to_dict() if hasattr(cop.params, 'to_dict') else str(cop.params)


@scenario(P, shards={'quick': 1, 'thorough': 6}, min_events=300)
def whole_numbers(m):
    """arguments of another numeric type (integers, single precision, NumPy scalars) stand for the same numbers"""
    import copulae as c
    from copulae import core
    from copulae.archimedean.auxiliary import dsum_sibuya
    from copulae.archimedean.gumbel import gumbel_coef, gumbel_poly
    from copulae.empirical.distribution import emp_dist_func
    from copulae.gof import exch_test, rad_sym_test
    from copulae.mixtures import GaussianMixtureCopula
    from copulae.special import special_func as sf, trig
    from copulae.special.clausen import clausen
    from copulae.special.combinatorics import comb, perm
    from copulae.special.debye import debye_1, debye_2
    from copulae.special.dilog import dilog, dilog_complex
    from copulae.stats import corr, multivariate_t as mt, skew_stable as ss
    rng = m.rng

    def cast(a, kind):
        """nested lists, arrays and numbers of whole values in another type"""
        if isinstance(a, dict):
            return {k: cast(v, kind) for k, v in a.items()}
        x = np.asarray(a, float)
        if kind == 'python':
            return x.astype(int).tolist()
        y = x.astype(kind)
        return y if y.ndim else y[()]

    mats = {2: np.array([[2., 1], [1, 3]]), 3: np.array([[2., 1, 0], [1, 3, -1], [0, -1, 2]])}
    for _ in range(3 if not m.thorough else 40):
        d, n = int(rng.choice([2, 3])), int(rng.integers(8, 30))
        X = rng.integers(-6, 7, (n, d)).astype(float)
        Y = rng.permutation(3 * n)[:n * 2].reshape(n, 2).astype(float)
        U = rng.integers(0, 2, (5, d)).astype(float)
        U[0] = 1
        v = rng.integers(1, 9, 4).astype(float)
        th = float(rng.integers(2, 7))
        S, mu = mats[d], rng.integers(-2, 3, d).astype(float)
        al, be = float(rng.choice([1, 2])), float(rng.choice([-1, 0, 1]))
        arch = [k for k in gen.ARCH]
        T = {}  # name: (function, arguments)
        for k in arch:
            cls = gen.classes()[k]
            for q in ('cdf', 'pdf'):
                for log in (False, True):
                    T[f'{k}.{q} {log}'] = (lambda t, u, cls=cls, q=q, log=log: getattr(cls(t, d), q)(u, log=log), (th, U))
            T[f'{k}.random'] = (lambda t, cls=cls: cls(t, d).random(4, seed=3), (th,))
            T[f'{k}.measures'] = (lambda t, cls=cls: (cls(t, d).tau, *cls(t, d).lambda_), (th,))
            T[f'{k}.set'] = (lambda t, cls=cls: _set(cls(dim=d), t).tau, (th,))
            T[f'{k}.itau'] = (lambda t, cls=cls: cls(2., d).itau(t), (np.zeros(3),))
            T[f'{k}.dtau'] = (lambda t, cls=cls: cls(2., d).dtau(t), (v + 1,))
            T[f'{k}.dtau of one'] = (lambda t, cls=cls: cls(2., d).dtau(t), (th,))
            T[f'{k}.psi'] = (lambda t, s, cls=cls: cls(t, d).psi(s), (th, v))
            T[f'{k}.ipsi'] = (lambda t, s, cls=cls: cls(t, d).ipsi(s), (th, np.ones(3)))
            for deg in (1, 2):
                T[f'{k}.dipsi {deg}'] = (lambda t, s, cls=cls, deg=deg: cls(t, d).dipsi(s, deg), (th, np.ones(3)))
        g = c.GumbelCopula(th, 2)
        T['A'] = (lambda w: g.A(w), (np.array([0., 1, 1]),))
        T['dAdu'] = (lambda w: c.GumbelCopula(3., 2).dAdu(w), (np.array([0., 1, 1]),))
        for k in ('gaussian', 'student'):
            mk = gen.classes()[k]
            nr = d * (d - 1) // 2
            r = np.zeros(nr)
            r[0] = float(rng.choice([-1, 1]))
            for q in ('itau', 'dtau', 'drho') + (('irho',) if k == 'gaussian' else ()):
                T[f'{k}.{q}'] = (lambda t, mk=mk, q=q: getattr(mk(dim=d), q)(t), (r * (q != 'dtau'),))
            p = r if k == 'gaussian' else np.r_[4., r]
            T[f'{k}.params'] = (lambda t, mk=mk: (lambda e: (e.tau, e.rho, e.sigma))(_set(mk(dim=d), t)), (p,))
            E = np.eye(d)
            T[f'{k} item'] = (lambda t, mk=mk: _items(mk(dim=d), t), (E,))
            T[f'{k} params, item'] = (lambda t, mk=mk: _items(_set(mk(dim=d), t), None), (p * (np.arange(len(p)) < (k == 'student')),))
        T['student df'] = (lambda t: (lambda e: (e.pdf(np.full((2, d), .3)), e.random(3, seed=2), e.lambda_))(c.StudentCopula(d, t)), (th,))
        T['indep'] = (lambda u: (c.IndepCopula(d).cdf(u), c.IndepCopula(d).pdf(u), c.IndepCopula(d).cdf(u, True)), (U,))
        par = {'prob': np.array([1., 0]), 'means': np.array([mu, mu + 1]), 'covs': np.array([S, np.eye(d)])}
        T['mixture'] = (lambda p, x: (lambda e: (e.pdf(x), e.pdf(x, log=True), e.random(4, seed=1), e.params.to_vector()))(
            GaussianMixtureCopula(2, d, p)), (par, X))
        if d == 2:
            T['mixture cdf'] = (lambda p, x: GaussianMixtureCopula(2, d, p).cdf(x), (par, X[:3]))
        for q in ('cdf', 'pdf'):
            for log in (False, True):
                T[f'margins {q} {log}'] = (lambda x, q=q, log=log: getattr(c.MarginalCopula(c.ClaytonCopula(2., d), ['norm'] * d), q)(x, log=log),
                                           (X,))
        T['margins of parameters'] = (lambda p, x: c.MarginalCopula(c.ClaytonCopula(2., d), {'type': 'norm', 'parameters': {'loc': p, 'scale': p}}).cdf(x), (th, X))
        for sm in ('none', 'beta', 'checkerboard'):
            T[f'empirical {sm}'] = (lambda x, u, sm=sm: (lambda e: (e.cdf(u), e.random(4, seed=1)))(c.EmpiricalCopula(x, smoothing=sm)), (X, U))
        T['emp_dist_func'] = (lambda u, y: emp_dist_func(u, y), (U, U))
        T['to_marginals'] = (lambda u, x: c.EmpiricalCopula.to_marginals(u, x), (U, X))
        for ties in ('average', 'min', 'max', 'dense', 'ordinal'):
            T[f'pseudo_obs {ties}'] = (lambda x, ties=ties: c.pseudo_obs(np.asarray(x), ties), (X,))
        for meth in ('pearson', 'kendall', 'spearman'):
            T[f'corr {meth}'] = (lambda x, meth=meth: corr(x, method=meth), (X,))
            T[f'corr of a pair {meth}'] = (lambda x, y, meth=meth: corr(x, y, meth), (X[:, 0], X[:, 1]))
        T['corr2cov'] = (core.corr2cov, (np.eye(d), v[:d]))
        T['cov2corr'] = (core.cov2corr, (S,))
        bad = np.ones((3, 3))
        bad[0, 2] = bad[2, 0] = -1
        T['near_psd'] = (core.near_psd, (bad,))
        T['near_psd same'] = (core.near_psd, (S,))
        T['is_psd'] = (lambda a, b: (float(core.is_psd(a)), float(core.is_psd(b)), float(core.is_psd(np.asarray(a), True))), (S, bad))
        T['is_psd scalar'] = (lambda a, b: (float(core.is_psd(a)), float(core.is_psd(b))), (th, -th))
        T['create_cov_matrix'] = (core.create_cov_matrix, (np.array([1., 0, -1]),))
        T['exch_test'] = (lambda x, y: exch_test(x, y, 12)[0], (Y[:, 0], Y[:, 1]))
        T['rad_sym_test'] = (lambda x: rad_sym_test(x, 12)[0], (Y,))
        for f in (trig.cospi, trig.cospi2, trig.sinpi, trig.sinpi2, trig.tanpi2, clausen, debye_1, debye_2, dilog, sf.log1mexp, sf.log1pexp):
            T[getattr(f, '__name__', str(f))] = (f, (v,))
            T[getattr(f, '__name__', str(f)) + ' of one'] = (f, (th,))
        T['dilog_complex'] = (lambda r, t: np.array(dilog_complex(r, t)).view(float), (v, v))
        T['log_sum'] = (lambda x: sf.log_sum(np.asarray(x)), (X,))
        T['log_sum offset'] = (lambda x, o: sf.log_sum(np.asarray(x), o), (X, X.max(0)))
        T['poly_log'] = (lambda z: sf.poly_log(z, -2), (-v,))
        T['polyn_eval'] = (sf.polyn_eval, (v, v))
        T['sign_ff'] = (lambda j: sf.sign_ff(.4, j, 3), (np.arange(1., 4),))
        T['comb'] = (lambda a, b: (comb(a, b), comb(a, b, True), perm(a, b), perm(a, b, True)), (v + 8, v))
        T['dsum_sibuya'] = (lambda a, b: dsum_sibuya(a, b, .4), (v + 3, np.ones(4)))
        T['gumbel_poly'] = (lambda x: gumbel_poly(x, .4, 4), (v,))
        T['gumbel_coef at 1'] = (lambda a: gumbel_coef(4, a, 'recursive'), (1.,))
        T['mvt'] = (lambda x, mm, s, df: (mt.pdf(x, mm, s, df), mt.logpdf(x, mm, s, df)), (X, mu, S, th))
        T['mvt rvs'] = (lambda mm, s, df: mt.rvs(mm, s, df, 5, random_state=1), (mu, S, th))
        T['stable'] = (lambda x, a, b, gm, dl: (ss.pdf(x, a, b, gm, dl, 1), ss.logpdf(x, a, b, gm, dl, 0)), (X[:3, 0], al, be, v[0], mu[0]))
        T['stable rvs'] = (lambda a, b, gm, dl: ss.rvs(a, b, gm, dl, 1, 4), (al, be, v[0], mu[0]))
        T['skew far'] = (lambda x, a, b: ss.pdf(x, a, b), (X[:2, 0] * 2 ** 27 + 2 ** 29, al, be))
        for name in sorted(T):
            f, args = T[name]
            seed = int(rng.integers(2 ** 31))
            np.random.seed(seed)
            want = m.must(f'{name} of numbers in double precision', f, *[cast(a, 'float64') for a in args])
            if want is None:
                continue
            kinds = ['python', 'int64', 'int32', 'float32']
            if name == 'skew far':
                kinds = kinds[:2]
            elif name.startswith('tanpi2'):  # poles at the odd numbers: only the same precision gives the same value
                kinds = kinds[:3]
            for kind in kinds:
                m.case(name, kind, d, [np.asarray(a).tolist() if not isinstance(a, dict) else 'mixture' for a in args])
                np.random.seed(seed)
                got = m.must(f'{name} of numbers as {kind}', f, *[cast(a, kind) for a in args])
                if got is not None:
                    m.ok(_alike(got, want, 1e-9 if kind != 'float32' else 1e-3), f'{name}: numbers as {kind} give another answer',
                         got=got, want=want, args=args)


def _set(cop, p):
    cop.params = p
    return cop


def _items(cop, S):
    """values of the parameters after assigning a matrix and then an item"""
    if S is not None:
        cop[:] = S
    cop[0] = .5
    return np.array(cop.sigma), np.asarray(cop.tau)


def _alike(a, b, tol):
    """the same numbers, whatever their numeric type"""
    if isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(_alike(x, y, tol) for x, y in zip(a, b))
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol / 10, equal_nan=True))
