"""One case = one call of a correlation function on generated data (ties, constant and strongly related columns, missing
and infinite values, every policy for them, every method and alias, arrays, lists, frames and series); every entry is
compared with the textbook formula on the rows the policy prescribes. Non-trivial = distinct (function, method, policy,
container, data)."""
import numpy as np
import pandas as pd

from vlib.core import scenario

P = 'C16'
METHODS = {'pearson': 'pearson', 'kendall': 'kendall', 'tau': 'kendall', 'spearman': 'spearman', 'rho': 'spearman'}
USES = ('everything', 'complete', 'pairwise.complete')


def _ranks(x):
    return np.array([(x < v).sum() + ((x == v).sum() + 1) / 2 for v in x])


def _pearson(x, y):
    # in extended precision, so that the reference is not the one that is inaccurate
    x, y = np.asarray(x, np.longdouble), np.asarray(y, np.longdouble)
    x, y = x - x.mean(), y - y.mean()
    s = np.sqrt((x * x).sum() * (y * y).sum())
    return float((x * y).sum() / s) if s > 0 else np.nan


def _kendall(x, y):
    dx, dy = np.sign(x[:, None] - x[None]), np.sign(y[:, None] - y[None])
    den = np.sqrt((dx ** 2).sum() * (dy ** 2).sum())
    return (dx * dy).sum() / den if den > 0 else np.nan


def ref(x, y, method):
    if not (np.isfinite(x).all() and np.isfinite(y).all()):
        return np.nan
    if np.ptp(x) == 0 or np.ptp(y) == 0:
        return np.nan
    if method == 'pearson':
        return _pearson(x, y)
    if method == 'kendall':
        return _kendall(x, y)
    return _pearson(_ranks(x), _ranks(y))


def size(rng, hi):
    return int(rng.integers(100, 400) if rng.random() < 0.08 else rng.integers(5, hi))


def data(rng, n, d, missing):
    Z = rng.normal(size=(n, d))
    X = Z @ rng.normal(size=(d, d)) if rng.random() < 0.7 else Z
    for j in range(d):
        k = rng.integers(10)
        if k == 0:
            X[:, j] = np.round(X[:, j])
        elif k == 1:
            X[:, j] = rng.integers(0, 3, n)
        elif k == 2 and j:
            X[:, j] = -X[:, 0]
        elif k == 3 and j:
            X[:, j] = np.exp(X[:, 0])
        elif k == 4:
            X[:, j] = X[:, j] * 10 ** rng.uniform(-6, 6) + 10 ** rng.uniform(-3, 2)
        elif k == 5 and rng.random() < 0.3:
            X[:, j] = 7.25
        elif k == 6:
            X[:, j] = 1 / X[:, j]
        elif k == 7:  # far from the origin, on a lattice so that the reference sees the same numbers
            X[:, j] = np.round(X[:, j] * 2 ** 10) * 2. ** -10 + np.round(10 ** rng.uniform(3, 9))
    if missing:
        p = rng.choice([0.02, 0.1, 0.3])
        X[rng.random((n, d)) < p * rng.random(d)] = np.nan
        if rng.random() < 0.1:
            X[rng.integers(n), rng.integers(d)] = rng.choice([np.inf, -np.inf])
    return X


def expected(X, method, use):
    d = X.shape[1]
    C = np.eye(d)
    if use == 'complete':
        X = X[~np.isnan(X).any(1)]
    for i in range(d):
        for j in range(i):
            a, b = X[:, i], X[:, j]
            if use == 'pairwise.complete':
                v = ~(np.isnan(a) | np.isnan(b))
                a, b = a[v], b[v]
            C[i, j] = C[j, i] = ref(a, b, method) if len(a) > 2 else -99
    return C


def calls(rng, S):
    """(label, method, call)"""
    m = str(rng.choice(list(METHODS)))
    use = str(rng.choice(USES))
    up = (lambda s: s.upper()) if rng.random() < 0.1 else (lambda s: s)
    if rng.random() < 0.5:
        f = {'pearson': S.pearson_rho, 'kendall': S.kendall_tau, 'spearman': S.spearman_rho}[METHODS[m]]
        kw = {} if use == 'everything' and rng.random() < 0.5 else {'use': up(use)}
        return f.__name__, METHODS[m], use, lambda *a: f(*a, **kw)
    kw = {} if m == 'pearson' and rng.random() < 0.5 else {'method': up(m)}
    if not (use == 'everything' and rng.random() < 0.5):
        kw['use'] = up(use)
    if rng.random() < 0.2:
        return 'corr', METHODS[m], use, lambda *a: S.corr(*a, *([None] if len(a) == 1 else []), up(m), up(use))
    return 'corr:' + m, METHODS[m], use, lambda *a: S.corr(*a, **kw)


@scenario(P, shards={'quick': 4, 'thorough': 32}, min_events=100)
def matrices(m):
    import copulae.stats as S
    rng = m.rng
    for i in range(300 if not m.thorough else 1500):
        n, d = size(rng, 70), int(rng.integers(1, 7))
        X = data(rng, n, d, rng.random() < 0.7)
        name, meth, use, call = calls(rng, S)
        want = expected(X, meth, use)
        if (want == -99).any():  # not enough rows left
            continue
        kind = str(rng.choice(['array', 'frame', 'list', 'fortran', 'int', 'strided']))
        arg, before = X.copy(), X.copy()
        if kind == 'frame':
            cols = [f'c{j}' for j in rng.permutation(d)]
            arg = pd.DataFrame(X.copy(), columns=cols, index=rng.permutation(n) * 3)
        elif kind == 'list':
            arg = X.tolist()
        elif kind == 'fortran':
            arg = np.asfortranarray(X)
        elif kind == 'strided':
            arg = np.repeat(X, 2, 0)[::2]
        elif kind == 'int':
            if np.isnan(X).any() or not np.isfinite(X).all():
                kind = 'array'
            else:
                arg = np.round(np.clip(X, -1e6, 1e6)).astype(int)
                want = expected(arg.astype(float), meth, use)
        m.case(name, meth, use, kind, n, d, float(np.nan_to_num(X[0, 0])))
        m.count('entries that are missing', int(np.isnan(want).sum()))
        got = m.call(call, arg)
        if kind == 'frame':
            m.ok(isinstance(got, pd.DataFrame) and list(got.columns) == cols and list(got.index) == cols,
                 'the correlations of a frame are labelled with its columns', got=got, cols=cols)
            m.ok(arg.equals(pd.DataFrame(before, columns=arg.columns, index=arg.index)), 'the data are left alone')
        elif kind == 'array':
            m.ok(isinstance(got, np.ndarray) and np.array_equal(arg, before, equal_nan=True), 'the data are left alone')
        m.close(got, want, 'correlation matrix', rtol=1e-7, atol=1e-8, name=name, method=meth, use=use, kind=kind,
                X=X if X.size < 60 else X.shape)
        g = np.asarray(got, float) if not hasattr(got, 'exc') else want
        m.ok((np.diag(g) == 1).all() and np.array_equal(g, g.T, equal_nan=True),
             'a correlation matrix is symmetric with ones on the diagonal', got=g)


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=100)
def pairs(m):
    import copulae.stats as S
    rng = m.rng
    for i in range(300 if not m.thorough else 1500):
        n = size(rng, 90)
        X = data(rng, n, 2, rng.random() < 0.6)
        x, y = X[:, 0].copy(), X[:, 1].copy()
        name, meth, use, call = calls(rng, S)
        e = expected(X, meth, 'pairwise.complete' if use == 'complete' else use)
        if (e == -99).any():
            continue
        kind = str(rng.choice(['array', 'series', 'unnamed', 'same', 'mixed', 'list']))
        a, b = x, y
        names = None
        if kind == 'list':
            a, b = x.tolist(), y.tolist()
        elif kind == 'mixed':
            a = pd.Series(x, name='A')
        elif kind != 'array':
            na, nb = {'series': ('A', 'B'), 'unnamed': (None, None), 'same': (''.join(['r', 'et']), ''.join(['r', 'et']))}[kind]
            names = {'series': ['A', 'B'], 'unnamed': ['X', 'Y'], 'same': ['ret1', 'ret2']}[kind]
            a = pd.Series(x, name=na, index=rng.permutation(n))
            b = pd.Series(y, name=nb, index=rng.permutation(n))
        m.case(name, meth, use, kind, n, float(np.nan_to_num(x[0])))
        got = m.call(call, a, b)
        if names:
            m.ok(isinstance(got, pd.DataFrame) and list(got.columns) == names and list(got.index) == names,
                 'the correlation of two series is labelled with their names', got=got, names=names)
        m.close(got, e, 'correlation of a pair', rtol=1e-7, atol=1e-8, name=name, method=meth, use=use, kind=kind, x=x, y=y)
    # what is rejected
    x, y = rng.normal(size=20), rng.normal(size=20)
    for what, exc, args, kw in [('unknown method', ValueError, (x, y), {'method': 'foo'}),
                                ('unknown policy', ValueError, (x, y), {'use': 'foo'}),
                                ('vectors of different length', ValueError, (x, y[:-1]), {}),
                                ('a matrix and a vector', ValueError, (np.c_[x, y], y), {}),
                                ('a vector and a matrix', ValueError, (x, np.c_[x, y]), {}),
                                ('a vector alone', ValueError, (x,), {})]:
        for use in USES:
            m.case('invalid', what, use)
            m.raises('corr of ' + what, exc, S.corr, *args, **{'use': use, **kw})
