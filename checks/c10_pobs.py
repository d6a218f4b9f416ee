"""One case = one data set turned into ranks or pseudo-observations under one tie rule, compared with ranks obtained by
counting smaller and equal values. Non-trivial = distinct (function, tie rule, data)."""
import numpy as np
import pandas as pd

from vlib import gen
from vlib.core import Raised, scenario

P = 'C10'
# scipy's ranking gives up on a sample holding both infinities
ASSUMPTIONS = ['no NaN; infinities of one sign only']
TIES = ('average', 'min', 'max', 'dense', 'ordinal')


def rank(v, ties):
    v = list(v)
    out = []
    for i, x in enumerate(v):
        less = sum(y < x for y in v)
        eq = sum(y == x for y in v)
        out.append({'min': less + 1, 'max': less + eq, 'average': less + (eq + 1) / 2,
                    'dense': len({y for y in v if y < x}) + 1,
                    'ordinal': less + 1 + sum(v[j] == x for j in range(i))}[ties])
    return np.array(out, float)


def fast_rank(v, ties):
    _, first, inv, cnt = np.unique(v, return_index=True, return_inverse=True, return_counts=True)
    less = np.r_[0, np.cumsum(cnt)[:-1]]
    if ties == 'ordinal':
        r = np.empty(len(v))
        r[np.argsort(v, kind='stable')] = np.arange(1, len(v) + 1)
        return r
    return {'min': less + 1, 'max': less + cnt, 'average': less + (cnt + 1) / 2,
            'dense': np.arange(1, len(cnt) + 1)}[ties][inv].astype(float)


def ranks(X, ties):
    return np.column_stack([rank(X[:, j], ties) for j in range(X.shape[1])])


def _data(rng):
    n, d = int(rng.integers(1, 40)), int(rng.integers(1, 6))
    k = rng.integers(10)
    if k == 0:
        return gen.rand_cont_data(rng, n, max(d, 2))
    if k == 1:
        return rng.integers(0, 4, (n, d))  # integers, many ties
    if k == 2:
        return np.full((n, d), rng.normal())
    if k == 3:
        return rng.choice([-1, 0., np.inf * rng.choice([-1, 1]), 1e300, 1e-300, -1e300], (n, d))
    if k == 4:
        return gen.rand_tied_data(rng, n, max(d, 2))
    if k == 5:  # neighbours in floating point are different values
        return np.nextafter(1.0, 2.0) ** rng.integers(0, 3, (n, d))
    if k == 6:  # different integers that are one number in floating point, e.g. times in nanoseconds
        return 2 ** int(rng.integers(53, 62)) + rng.integers(0, 6, (n, d))
    if k == 7:
        t = [np.int8, np.uint8, np.uint64, np.int16][rng.integers(4)]
        i = np.iinfo(t)
        return np.array([i.min, i.max, i.max - 1, i.min + 1, i.max // 2, i.max // 2 + 1], t)[rng.integers(0, 6, (n, d))]
    if k == 8:
        return rng.integers(-3, 4, (n, d)) * 5e-324
    return rng.random((n, d)) < 0.5 if rng.random() < 0.3 else rng.normal(size=(n, d)).astype(np.float32)


@scenario(P, shards={'quick': 3, 'thorough': 24}, weight=2)
def pseudo_observations(m):
    from copulae import pseudo_obs
    from copulae.core import pseudo_obs as p2
    rng = m.rng
    for _ in range(220 if not m.thorough else 2000):
        X = _data(rng)
        n, d = X.shape
        ties = str(rng.choice(TIES))
        want = ranks(X, ties) / (n + 1)
        form = str(rng.choice(['array', 'list', 'tuple', 'frame', 'fortran', 'view', 'upper']))
        if X.dtype == np.uint64 and form in ('list', 'tuple'):
            form = 'array'  # numpy itself turns such lists into floating point
        arg = X
        t = ties
        if form == 'list':
            arg = X.tolist()
        elif form == 'tuple':
            arg = tuple(map(tuple, X.tolist()))
        elif form == 'fortran':
            arg = np.asfortranarray(X)
        elif form == 'view':
            b = np.zeros((2 * n, d), X.dtype)
            b[1::2] = X
            arg = b[1::2]
        elif form == 'upper':
            t = ties.upper()
        elif form == 'frame':
            idx = [None, pd.date_range('2001-01-01', periods=n)[::-1], rng.permutation(n), [f'r{i % 3}' for i in range(n)]]
            arg = pd.DataFrame(X, columns=[f'c{j}' for j in range(d)] if rng.random() < 0.8 else ['a'] * d,
                               index=idx[rng.integers(4)])
        m.case('pobs', ties, form, np.asarray(X, float).tolist())
        f = pseudo_obs if rng.random() < 0.7 else p2
        if ties == 'average' and rng.random() < 0.5:
            u = m.call(f, arg)
        elif rng.random() < 0.5:
            u = m.call(f, arg, t)
        else:
            u = m.call(f, data=arg, ties=t)
        if isinstance(u, Raised):
            m.fail('pseudo_obs raises', error=repr(u), form=form, ties=ties, X=X, tb=u.tb[-800:])
            continue
        if form == 'frame':
            m.ok(isinstance(u, pd.DataFrame) and list(u.columns) == list(arg.columns) and u.index.equals(arg.index),
                 'pseudo_obs: labels of the frame are not kept', got=type(u), cols=list(getattr(u, 'columns', [])))
        else:
            m.ok(isinstance(u, np.ndarray), 'pseudo_obs: type', got=type(u), form=form)
        u = np.asarray(u, float)
        m.close(u, want, 'pseudo_obs: not rank / (n + 1)', rtol=1e-14, atol=1e-15, X=X, ties=ties, form=form)
        m.ok(u.shape == X.shape and (u > 0).all() and (u < 1).all(), 'pseudo_obs: outside the open unit cube', u=u)
        if form == 'list' or d > 1:
            # a vector is ranked as one sample
            v = np.asarray(X[:, 0])
            m.case('vector', ties, np.asarray(v, float).tolist())
        # invariance: increasing transformations leave pseudo-observations alone
        if X.dtype.kind == 'f' and np.isfinite(X).all() and np.abs(X).max() < 20 and X.dtype == float:
            Y = np.exp(X / 2)
            if all((np.sign(Y[:, None] - Y[None]) == np.sign(X[:, None] - X[None])).ravel()):
                m.close(m.call(pseudo_obs, Y, ties), u, 'pseudo_obs: changed by an increasing transformation', rtol=1e-14)
        if ties != 'ordinal':
            p = rng.permutation(n)
            m.close(m.call(pseudo_obs, X[p], ties), u[p], 'pseudo_obs: depends on the order of the rows', rtol=1e-14)
        q = rng.permutation(d)
        m.close(m.call(pseudo_obs, X[:, q], ties), u[:, q], 'pseudo_obs: columns influence each other', rtol=1e-14)
        m.close(m.call(pseudo_obs, u, ties), u, 'pseudo_obs: not idempotent', rtol=1e-14)


@scenario(P, shards={'quick': 1, 'thorough': 8})
def rank_data(m):
    from copulae.core import rank_data as rd
    rng = m.rng
    for _ in range(250 if not m.thorough else 2000):
        X = _data(rng)
        ties = str(rng.choice(TIES))
        m.case('rank', ties, np.asarray(X, float).tolist())
        m.close(m.call(rd, X, 1, ties), ranks(X, ties), 'rank_data: columns', rtol=0, X=X, ties=ties)
        m.close(m.call(rd, X, 0, ties), ranks(X.T, ties).T, 'rank_data: rows', rtol=0, X=X, ties=ties)
        m.close(m.call(rd, X, ties=ties), ranks(X.T, ties).T, 'rank_data: default axis', rtol=0, X=X, ties=ties)
        m.close(m.call(rd, X[:, 0], ties=ties), rank(X[:, 0], ties), 'rank_data: vector', rtol=0, X=X, ties=ties)
        if X.dtype != np.uint64:
            m.close(m.call(rd, X[:, 0].tolist(), 1, ties), rank(X[:, 0], ties), 'rank_data: list', rtol=0, X=X, ties=ties)
        m.raises('rank_data: unknown tie rule', ValueError, rd, X, 1, 'median')
        m.raises('rank_data: unknown axis', ValueError, rd, X, 2, ties)
        m.raises('rank_data: three-dimensional data', (AssertionError, ValueError), rd, X[None], 1, ties)


@scenario(P, shards={'quick': 1, 'thorough': 8})
def through_copulas(m):
    """the copulas' own pobs follows the same definition"""
    rng = m.rng
    for _ in range(100 if not m.thorough else 1000):
        a = gen.any_copula(rng)
        n, d = int(rng.integers(2, 30)), a.dim
        X = gen.rand_tied_data(rng, n, d) if rng.random() < 0.5 else gen.rand_cont_data(rng, n, d)
        ties = str(rng.choice(TIES))
        m.case(a.kind, ties, X.tolist())
        want = ranks(X, ties) / (n + 1)
        m.close(m.call(a.cop.pobs, X, ties), want, 'pobs of a copula', rtol=1e-14, kind=a.kind)
        m.close(m.call(type(a.cop).pobs, X, ties=ties), want, 'pobs of a copula class', rtol=1e-14, kind=a.kind)
        F = pd.DataFrame(X, columns=list('abcdefgh')[:d], index=rng.permutation(n))
        u = m.call(a.cop.pobs, F, ties)
        if m.ok(isinstance(u, pd.DataFrame), 'pobs of a frame is no frame', got=type(u)):
            m.ok(list(u.columns) == list(F.columns) and u.index.equals(F.index), 'pobs of a copula: labels')
            m.close(u.to_numpy(), want, 'pobs of a frame', rtol=1e-14)


@scenario(P, shards={'quick': 1, 'thorough': 8}, min_events=10)
def large(m):
    """many observations, nearly equal, sorted, or on few values"""
    from copulae import pseudo_obs
    from copulae.core import rank_data as rd
    rng = m.rng
    for _ in range(12 if not m.thorough else 150):
        n, d = int(10 ** rng.uniform(2.3, 4.3)), int(rng.integers(1, 5))
        k = int(rng.integers(6))
        X = rng.permutation(n * d).reshape(n, d).astype(float)
        if k == 0:  # differences near the resolution of the numbers
            X = 2. ** int(rng.integers(0, 20)) + X * 2. ** -32
        elif k == 1:
            X = np.sort(rng.normal(size=(n, d)), 0)[::int(rng.choice([-1, 1]))]
        elif k == 2:
            X = rng.integers(0, int(rng.choice([2, 200, 30000, 70000])), (n, d))
        elif k == 3:
            X = 1e-300 * X
        elif k == 4:
            X = np.round(rng.standard_t(1, (n, d)), 2)
        ties = str(rng.choice(TIES))
        want = np.column_stack([fast_rank(X[:, j], ties) for j in range(d)])
        m.case('large', n, d, k, ties, float(X[0, 0]))
        f = pd.DataFrame(X) if rng.random() < .3 else X
        m.close(np.asarray(m.must('pseudo_obs', pseudo_obs, f, ties), float), want / (n + 1), 'pseudo_obs: not rank / (n + 1)',
                rtol=1e-14, n=n, d=d, kind=k, ties=ties)
        m.close(m.call(rd, X, 1, ties), want, 'rank_data: columns', rtol=0, n=n, d=d, kind=k, ties=ties)
