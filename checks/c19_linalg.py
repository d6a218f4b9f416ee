"""One case = one call of a matrix helper (correlation <-> covariance, parameter vector -> correlation matrix, triangle
indices, tests of symmetry and definiteness, nearest semi-definite matrix) on a generated matrix: definite, singular,
indefinite, barely indefinite, asymmetric, badly scaled. Non-trivial = distinct (helper, arguments)."""
import numpy as np
import pandas as pd

from vlib import gen
from vlib.core import Raised, scenario

P = 'C19'
ASSUMPTIONS = ['definiteness is not judged for matrices whose smallest eigenvalue is within a factor of 1000 of the tolerance']


def spec(rng, d, lmin):
    """symmetric matrix whose smallest eigenvalue is lmin"""
    Q = np.linalg.qr(rng.normal(size=(d, d)))[0]
    w = np.concatenate([[lmin], np.abs(lmin) + rng.uniform(0.1, 3, d - 1)])
    M = (Q * w) @ Q.T
    return (M + M.T) / 2


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=300)
def conversions(m):
    from copulae.core import corr2cov, cov2corr, create_cov_matrix, tri_indices
    rng = m.rng
    for i in range(300 if not m.thorough else 3000):
        d = int(rng.integers(1, 9))
        R = gen.rand_corr(rng, d) if d > 1 else np.eye(1)
        s = 10 ** rng.uniform(-4, 4, d)
        if rng.random() < .2:  # the products of variances leave the range of numbers, the covariances do not
            s = 10 ** (rng.choice([-1, 1]) * rng.uniform(50, 150) + rng.uniform(-2, 2, d))
        kind = str(rng.choice(['array', 'frame', 'list']))
        wrap = {'array': np.array, 'frame': pd.DataFrame, 'list': lambda x: np.array(x).tolist()}[kind]
        A, S = wrap(R), (s if rng.random() < .7 else s.tolist())
        keep = np.array(A, float)
        m.case('corr2cov', kind, R.tolist(), s.tolist())
        cov = m.call(corr2cov, A, S)
        want = np.array([[R[a, b] * s[a] * s[b] for b in range(d)] for a in range(d)])
        m.close(cov, want, 'covariance of a correlation matrix', rtol=1e-13, R=R, s=s)
        B = wrap(want)
        got = m.call(cov2corr, B)
        m.close(got, R, 'correlation of a covariance matrix', rtol=1e-12, atol=1e-14)
        got = m.call(cov2corr, B, True) if rng.random() < .5 else m.call(cov2corr, B, return_std=True)
        m.ok(not isinstance(got, Raised) and len(got) == 2, 'cov2corr with the deviations', got=got)
        if not isinstance(got, Raised) and len(got) == 2:
            m.close(got[0], R, 'correlation of a covariance matrix', rtol=1e-12, atol=1e-14)
            m.close(np.ravel(got[1]), s, 'standard deviations of a covariance matrix', rtol=1e-13)
        m.ok(np.array_equal(np.array(A, float), keep) and np.array_equal(np.array(B, float), want),
             'the arguments are left alone')

        d = int(rng.integers(2, 12))
        c = d * (d - 1) // 2
        par = rng.uniform(-1, 1, c)
        arg = {'array': par, 'frame': pd.Series(par), 'list': par.tolist()}[kind]
        m.case('create_cov_matrix', par.tolist())
        got = m.call(create_cov_matrix, arg)
        want = np.eye(d)
        k = 0
        for a in range(d):
            for b in range(a + 1, d):
                want[a, b] = want[b, a] = par[k]
                k += 1
        m.close(got, want, 'matrix of a parameter vector', rtol=0, par=par)
        n, off = int(rng.integers(1, 9)), 0
        off = int(rng.integers(0, n + 1))
        side = str(rng.choice(['lower', 'upper', 'both', 'UPPER']))
        m.case('tri_indices', n, off, side)
        got = m.call(tri_indices, n, off, side)
        up = [(a, b) for a in range(n) for b in range(a + off, n)]
        lo = [(b, a) for a, b in up]
        want = {'lower': lo, 'upper': up, 'both': up + lo}[side.lower()]
        m.ok(not isinstance(got, Raised) and list(zip(*[np.asarray(g).tolist() for g in got])) == want,
             'indices of the triangles', n=n, m=off, side=side, got=got, want=want)
        if not isinstance(got, Raised) and want:
            X = rng.normal(size=(n, n))
            m.close(m.call(lambda: X[got]), [X[a, b] for a, b in want], 'indices select the triangles', rtol=0)
    m.raises('unknown side', ValueError, tri_indices, 3, 1, 'left')


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=300)
def definiteness(m):
    from copulae.core import is_psd, is_symmetric
    rng = m.rng
    yes = {True: 0, False: 0}
    for i in range(600 if not m.thorough else 6000):
        d = int(rng.integers(1, 9))
        kind = int(rng.integers(6))
        tol = 10. ** int(rng.integers(-12, -5)) if rng.random() < .4 else None
        t = tol or 1e-12
        scale = 10 ** rng.uniform(-1, 1)
        if kind == 0:
            l = rng.uniform(.01, 1)
        elif kind == 1:
            l = -rng.uniform(.01, 1)
        elif kind == 2:
            l = -10 ** rng.uniform(np.log10(max(1e3 * t, 1e-9)), 0)  # slightly indefinite
        elif kind == 3:
            l = 10 ** rng.uniform(np.log10(max(1e3 * t, 1e-9)), 0)
        else:
            l = 0.
        if kind == 4:  # exactly singular, and definite up to rounding: integer matrices
            b = rng.integers(-3, 4, (d, max(d - 1, 1)))
            M = (b @ b.T).astype(float) if d > 1 else np.zeros((1, 1))
            tt = max(t, 1e-7)
            kw = {'tol': tt}
            want, strict = True, False
        elif kind == 5:  # the eigenvalues of a diagonal matrix are exact: on either side of the tolerance
            strict = bool(rng.random() < .6)
            l = t * float(rng.choice([.3, .9, 1.1, 3., 50.])) * float(rng.choice([-1, 1]))
            M = np.diag(rng.permutation(np.r_[rng.uniform(.1, 2, d - 1), l]))
            kw = {'tol': tol} if tol else {}
            want = l > t if strict else l >= -t
        else:
            M = spec(rng, d, l) * scale
            kw = {'tol': tol} if tol else {}
            strict = bool(rng.random() < .4)
            want = l > 0
        if strict:
            kw['strict'] = True
        arg = M.tolist() if rng.random() < .2 else M
        m.case('is_psd', d, kind, strict, float(l), float(M[0, 0]))
        got = m.call(is_psd, arg, **kw)
        yes[bool(want)] += 1
        m.ok(not isinstance(got, Raised) and bool(got) == want, 'definiteness', got=got, want=want, M=M, kw=kw, l=l)
        if d > 1:
            # asymmetric matrices
            D = np.zeros((d, d))
            a, b = rng.choice(d, 2, replace=False)
            D[a, b] = 10 ** rng.uniform(-3, 1) * scale
            S = np.abs(M) + 1 if rng.random() < .5 else M
            if rng.random() < .4:  # small in comparison with the entries
                D[a, b] = 10 ** rng.uniform(-4.6, -2.5) * abs(S[a, b]) or 1e-3
            m.case('is_symmetric', d, a, b, float(D[a, b]))
            N = S + D
            # the relative part of the comparison
            if D[a, b] > 2e-5 * abs(N[b, a]) + 1e-5:
                r = m.call(is_symmetric, N)
                m.ok(not isinstance(r, Raised) and not r, 'an asymmetric matrix is not symmetric', M=N)
                r = m.call(is_psd, N)
                m.ok(not isinstance(r, Raised) and not r, 'an asymmetric matrix is not semi-definite', M=N)
            r = m.call(is_symmetric, S)
            m.ok(not isinstance(r, Raised) and bool(r), 'a symmetric matrix is symmetric', M=S)
            N = S + D * (1e-12 / D[a, b])
            r = m.call(is_symmetric, N)
            m.ok(not isinstance(r, Raised) and bool(r), 'a matrix is symmetric within the tolerance', M=N)
            for bad in (np.ones((d, d + 1)), np.ones(d), np.ones((2, d, d))):
                r = m.call(is_symmetric, bad)
                m.ok(not isinstance(r, Raised) and not r, 'only square matrices are symmetric', shape=bad.shape)
    for x, strict, want in [(1, 0, 1), (0, 0, 1), (-1, 0, 0), (0.0, 1, 0), (2., 1, 1), (-1e-9, 0, 0), (1e-9, 1, 1)]:
        m.case('is_psd', 'scalar', x, strict)
        for cast in (type(x), np.float64, np.float32, *((np.int64, np.int32, np.int8, int) if x == int(x) else ())):
            m.ok(bool(is_psd(cast(x), bool(strict))) == bool(want), 'definiteness of a number', x=x, cast=cast.__name__, strict=strict)
    m.count('definite', yes[True])
    m.count('indefinite', yes[False])


def nearest_corr(A, iters=3000):
    """Higham's alternating projections"""
    Y, dS = A.copy(), np.zeros_like(A)
    for _ in range(iters):
        R = Y - dS
        w, V = np.linalg.eigh(R)
        X = (V * np.maximum(w, 0)) @ V.T
        dS = X - R
        Y = X.copy()
        np.fill_diagonal(Y, 1)
    return Y


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=60)
def nearest(m):
    from copulae.core import near_psd
    from copulae.core.exceptions import NonSymmetricMatrixError
    rng = m.rng
    for i in range(60 if not m.thorough else 600):
        d = int(rng.integers(2, 7))
        s = 10 ** rng.uniform(-2, 2, d)
        if rng.random() < .3:
            R = gen.rand_corr(rng, d)
            R = .9 * R + .1 * np.eye(d)
            M = R * np.outer(s, s)
            M = (M + M.T) / 2
            m.case('near_psd', 'definite', M.tolist())
            got = m.call(near_psd, M if rng.random() < .7 else M.tolist())
            m.close(got, M, 'a semi-definite matrix is its own nearest one', rtol=0, M=M)
            continue
        while True:
            R = np.eye(d)
            iu = np.triu_indices(d, 1)
            R[iu] = rng.uniform(-1, 1, len(iu[0]))
            R = R + R.T - np.eye(d)
            w = np.linalg.eigvalsh(R)
            if w[0] < -.02:
                if rng.random() < .35:  # barely indefinite: shrink towards the identity
                    e = -10 ** rng.uniform(-9, -3)
                    R = np.eye(d) + (R - np.eye(d)) * (1 - e) / (1 - w[0])
                    m.count('barely indefinite')
                break
            if d == 2:
                d = 3
                s = 10 ** rng.uniform(-2, 2, d)
        M = R * np.outer(s, s)
        M = (M + M.T) / 2
        before = M.copy()
        method = str(rng.choice(['clipped', 'nearest', 'default']))
        thr = float(rng.choice([1e-15, 1e-6, 1e-3]))
        kw = {} if method == 'default' else {'method': method}
        if thr != 1e-15:
            kw['threshold'] = thr
        m.case('near_psd', method, thr, M.tolist())
        got = m.call(near_psd, M, **kw)
        m.ok(np.array_equal(M, before), 'the argument is left alone')
        if isinstance(got, Raised):
            m.fail('near_psd: unexpected exception', error=repr(got), M=M)
            continue
        C = got / np.outer(s, s)
        m.close(np.diag(C), np.ones(d), 'the nearest matrix keeps the variances', rtol=1e-8, M=M)
        m.ok(np.allclose(C, C.T, atol=1e-10), 'the nearest matrix is symmetric', C=C)
        # `nearest` is an iteration
        m.ok(np.linalg.eigvalsh((C + C.T) / 2)[0] > -1e-3 if method == 'nearest' else
             np.linalg.eigvalsh((C + C.T) / 2)[0] > -1e-8, 'the nearest matrix is semi-definite', C=C, method=method)
        if method == 'nearest':
            if thr == 1e-15:
                m.close(C, nearest_corr(R), 'nearest correlation matrix', atol=2e-2, rtol=0, R=R)
        else:
            w, V = np.linalg.eigh(R)
            X = (V * np.maximum(w, thr)) @ V.T
            x = np.sqrt(np.diag(X))
            m.close(C, X / np.outer(x, x), 'matrix with clipped eigenvalues', atol=1e-7, rtol=0, R=R, thr=thr)
        A = M.copy()
        A[0, 1] += .5 * s[0] * s[1] + 1e-3
        m.raises('near_psd of an asymmetric matrix', NonSymmetricMatrixError, near_psd, A)
