"""One case = one operation of a random history on a copula instance: reading or writing its parameters through any
public entry point (constructor, params, item access with integers, pairs and slices), valid and invalid, followed by
observations of the whole state. A model holds the expected state. Non-trivial = distinct (class, operation,
arguments)."""
import numpy as np

from vlib import gen, ref
from vlib.core import Raised, scenario

P = 'C06'
ASSUMPTIONS = ['a requested correlation matrix whose smallest eigenvalue exceeds 1e-6 counts as positive definite, one '
               'below -1e-6 as indefinite; nothing exact is required in between']
REJECT = (ValueError, IndexError, AssertionError, TypeError)


def _state(c, student):
    p = c.params
    return (float(p.df) if student else None), np.array(p.rho if student else p, float)


def _is_corr(S, tol=1e-7):
    return (np.allclose(S, S.T, atol=1e-12) and np.allclose(np.diag(S), 1, atol=1e-12)
            and np.linalg.eigvalsh(S).min() > -tol and np.abs(S).max() <= 1 + tol)


def _observe(m, c, d, student, rng, **ctx):
    """all views of the parameters agree; returns the matrix"""
    df, r = _state(c, student)
    if not m.ok(r.shape == (d * (d - 1) // 2,), 'elliptical: wrong number of correlations', r=r, **ctx):
        return None
    S = ref.sigma_of(r)
    m.close(m.call(lambda: c.sigma), S, 'elliptical: sigma is not the matrix of the parameters', rtol=0, atol=1e-15, **ctx)
    m.close(m.call(lambda: c[:]), S, 'elliptical: [:] is not the matrix of the parameters', rtol=0, atol=1e-15, **ctx)
    k = int(rng.integers(len(r)))
    m.close(m.call(lambda: c[k]), r[k], 'elliptical: [k] is not the parameter', rtol=0, atol=0, k=k, **ctx)
    i, j = (int(v) for v in rng.integers(0, d, 2))
    m.close(m.call(lambda: c[i, j]), S[i, j], 'elliptical: [i, j] is not the correlation', rtol=0, atol=0, i=i, j=j, **ctx)
    m.close(m.call(lambda: c[i, :]), S[i], 'elliptical: [i, :] is not a row', rtol=0, atol=0, i=i, **ctx)
    m.close(m.call(lambda: c[:, j]), S[:, j], 'elliptical: [:, j] is not a column', rtol=0, atol=0, j=j, **ctx)
    m.close(m.call(lambda: np.ravel(c.tau)), 2 / np.pi * np.arcsin(np.clip(r, -1, 1)), 'elliptical: tau is stale',
            rtol=1e-9, atol=1e-12, **ctx)
    return S


def _represent(rng, a):
    """(a representation of the array a, whose values are those of a; the caller may overwrite it later)"""
    import pandas as pd
    a = np.array(a, float)
    forms = ['list', 'tuple', 'array', 'fortran', 'strided', 'read-only', 'pandas', 'array']
    if np.array_equal(a, a.astype(np.float32)):
        forms += ['float32'] * 2
    if np.array_equal(a, np.round(a)):
        forms += ['int64', 'int8', 'int list'] * 2
    f = str(rng.choice(forms))
    if f == 'tuple':
        return f, tuple(a.tolist())
    if f == 'list':
        return f, a.tolist()
    if f == 'int list':
        return f, a.astype(int).tolist()
    if f in ('float32', 'int64', 'int8'):
        return f, a.astype(f)
    if f == 'fortran':
        return f, np.asfortranarray(a)
    if f == 'strided':
        b = np.full(tuple(2 * n for n in a.shape), 9.)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return f, b[tuple(slice(None, None, 2) for _ in a.shape)]
    if f == 'read-only':
        a.setflags(write=False)
    elif f == 'pandas':
        return f, (pd.DataFrame if a.ndim == 2 else pd.Series)(a)
    return f, a


@scenario(P, shards={'quick': 4, 'thorough': 32}, weight=3)
def elliptical_histories(m):
    rng = m.rng
    for _ in range(110 if not m.thorough else 500):
        d = int(rng.choice([2, 3, 3, 4, 4, 5, 6]))
        student = rng.random() < 0.4
        fam = 'student' if student else 'gaussian'
        cls = gen.alias_class(rng, fam)
        df = float(rng.choice([1, 2.5, 7, 40]))
        c = cls(d, df) if student else cls(d)
        other = cls(d, df) if student else cls(d)  # must never move
        other_before = _state(other, student)
        S, n = np.eye(d), d * (d - 1) // 2
        pair_of = [(i, j) for i in range(d) for j in range(i + 1, d)]
        trace = []
        for step in range(14):
            kind = str(rng.choice(['pair', 'pair', 'pair', 'int', 'int', 'row', 'col', 'matrix', 'matrix2', 'params', 'bad',
                                   'bad', 'params_obj', 'df', 'query']))
            want, wdf, approx, exc = S.copy(), df, False, False
            big = rng.random() < 0.5
            val = float(rng.uniform(-1, 1)) if big else float(rng.uniform(-0.3, 0.3))
            if rng.random() < 0.08:
                val = float(rng.choice([-1, 0, 1]))
            i, j = (int(v) for v in rng.choice(d, 2, replace=False))
            give = None
            whole = rng.random() < 0.15  # whole numbers
            coarse = rng.random() < 0.2  # exact in single precision
            if kind == 'pair':
                want[i, j] = want[j, i] = val
                v = val if rng.random() < 0.8 else np.float64(val)
                op = lambda: c.__setitem__((i, j), v)
                arg = (i, j, val)
            elif kind == 'int':
                k = int(rng.integers(n))
                a, b = pair_of[k]
                want[a, b] = want[b, a] = val
                op = lambda: c.__setitem__(k, val)
                arg = (k, val)
            elif kind in ('row', 'col'):
                vec = rng.uniform(-0.4, 0.4, d) if rng.random() < 0.7 else rng.uniform(-1, 1, d)
                if whole:
                    vec = rng.integers(0, 2, d).astype(float)
                elif coarse:
                    vec = np.round(vec * 64) / 64
                vec[i] = 1
                if rng.random() < 0.3:
                    vec[:] = val
                    give = val
                else:
                    form, give = _represent(rng, vec)
                    m.count('row as ' + form)
                off = np.arange(d) != i
                want[i, off] = want[off, i] = vec[off]
                op = (lambda: c.__setitem__((i, slice(None)), give)) if kind == 'row' else \
                    (lambda: c.__setitem__((slice(None), i), give))
                arg = (i, give)
            elif kind in ('matrix', 'matrix2'):
                want = gen.rand_corr(rng, d)
                if rng.random() < 0.3:  # not positive semi-definite
                    A = rng.uniform(-1, 1, (d, d))
                    want = (A + A.T) / 2
                    np.fill_diagonal(want, 1)
                if whole:  # groups of equal variables
                    g = rng.integers(0, d, d)
                    want = (g[:, None] == g).astype(float)
                elif coarse:
                    want = np.round(want * 64) / 64
                form, give = _represent(rng, want)
                m.count('matrix as ' + form)
                op = (lambda: c.__setitem__(slice(None), give)) if kind == 'matrix' else \
                    (lambda: c.__setitem__((slice(None), slice(None)), give))
                arg = want
            elif kind in ('params', 'params_obj'):
                want = np.eye(d) if whole else gen.rand_corr(rng, d)
                r = ref.rhos_of(want)
                if student:
                    wdf = float(rng.uniform(0.3, 60))
                    if whole:
                        wdf = float(np.ceil(wdf))
                    if kind == 'params':
                        form, give = _represent(rng, np.r_[wdf, r])
                    else:
                        form, give = _represent(rng, r)
                        give = type(c.params)(wdf, give)
                    m.count('params as ' + form)
                elif n == 1 and rng.random() < 0.5 or rng.random() < 0.1:
                    give = float(rng.uniform(-0.9 / (d - 1), 0.9))  # a scalar: every correlation
                    want = np.full((d, d), give)
                    np.fill_diagonal(want, 1)
                else:
                    form, give = _represent(rng, r)
                    m.count('params as ' + form)
                op = lambda: setattr(c, 'params', give)
                arg = (wdf, want)
                approx = None  # exact, whatever the matrix
            elif kind == 'df':
                if not student:
                    continue
                wdf = float(rng.uniform(0.2, 50))
                op = lambda: setattr(c, 'params', type(c.params)(wdf, ref.rhos_of(S)))
                arg = wdf
                approx = None
            elif kind == 'query':
                u = gen.points(rng, 3, d)
                op = lambda: (c.summary(), str(c.summary()), c.pdf(u) if np.linalg.eigvalsh(S).min() > 1e-6 else None,
                              c.lambda_, c.tau)
                arg = 'query'
                approx = None
            else:
                exc = True
                bads = {
                    'pair > 1': lambda: c.__setitem__((i, j), 1 + float(rng.uniform(0.01, 3))),
                    'pair < -1': lambda: c.__setitem__((i, j), -1 - float(rng.uniform(0.01, 3))),
                    'pair nan': lambda: c.__setitem__((i, j), np.nan),
                    'int > 1': lambda: c.__setitem__(int(rng.integers(n)), 1.5),
                    'int nan': lambda: c.__setitem__(0, float('nan')),
                    'int out of range': lambda: c.__setitem__(n + int(rng.integers(3)), 0.1),
                    'diagonal': lambda: c.__setitem__((i, i), 0.5),
                    'negative': lambda: c.__setitem__((-1, 0), 0.5),
                    'negative col': lambda: c.__setitem__((0, -2), 0.5),
                    'out of range': lambda: c.__setitem__((d, 0), 0.1),
                    'out of range col': lambda: c.__setitem__((0, d + 2), 0.1),
                    'triple': lambda: c.__setitem__((0, 1, 0), 0.1),
                    'row too long': lambda: c.__setitem__((0, slice(None)), [0.1] * (d + 1)),
                    'row too short': lambda: c.__setitem__((slice(None), 0), [0.1] * (d - 1)),
                    'row beyond 1': lambda: c.__setitem__((0, slice(None)), [1] + [0.1] * (d - 2) + [1.2]),
                    'row nan': lambda: c.__setitem__((slice(None), 0), [1] + [0.1] * (d - 2) + [np.nan]),
                    'matrix shape': lambda: c.__setitem__(slice(None), np.eye(d + 1)),
                    'matrix beyond 1': lambda: c.__setitem__(slice(None), np.eye(d) + 0.2 * (1 - np.eye(d)) + 1.),
                    'matrix nan': lambda: c.__setitem__(slice(None), np.full((d, d), np.nan)),
                    'params too long': lambda: setattr(c, 'params', np.zeros(n + 2) + 0.1),
                    'params too short': lambda: setattr(c, 'params', np.zeros(n - 1) + (0.1 if student else 0.1)),
                }
                if n > 1 or student:
                    one = [[0.3], (0.3,), np.array([0.3]), np.array([[0.3]]), [-0.1]][int(rng.integers(5))]
                    bads['params of length 1'] = lambda: setattr(c, 'params', one)
                    bads['params of length 1 again'] = bads['params of length 1']
                if student:
                    bads.update({
                        'df 0': lambda: setattr(c, 'params', np.r_[0., np.zeros(n)]),
                        'df < 0': lambda: setattr(c, 'params', np.r_[-2., np.zeros(n)]),
                        'df nan': lambda: setattr(c, 'params', np.r_[np.nan, np.zeros(n)]),
                        'df < 0 object': lambda: setattr(c, 'params', type(c.params)(-1., np.zeros(n))),
                        'object length': lambda: setattr(c, 'params', type(c.params)(3., np.zeros(n + 1))),
                    })
                name = str(rng.choice(sorted(bads)))
                op, arg = bads[name], name
            m.case(fam, d, kind, arg, S)
            m.count(kind)
            trace.append((kind, arg))
            r = m.call(op)
            raw = give[1] if hasattr(give, '_fields') else give
            if isinstance(raw, np.ndarray) and raw.flags.writeable:
                raw[...] = 9  # what was given remains the caller's
            elif isinstance(raw, list):
                raw[0] = 9
            ctx = {'family': fam, 'dim': d, 'step': step, 'trace': trace[-3:], 'before': S}
            if exc:
                if not m.ok(isinstance(r, Raised), 'elliptical: an invalid assignment is accepted', op=arg, **ctx):
                    break
                m.ok(isinstance(r.exc, REJECT), 'elliptical: invalid assignment, wrong exception', op=arg, error=repr(r))
            elif not m.ok(not isinstance(r, Raised), 'elliptical: a valid assignment is rejected', error=repr(r), **ctx):
                break
            T = _observe(m, c, d, student, rng, **ctx)
            if T is None:
                break
            if exc or kind == 'query':
                if not m.ok(np.array_equal(T, S), 'elliptical: an operation that assigns nothing changes the parameters',
                            op=arg, after=T, **ctx):
                    break
            else:
                e = np.linalg.eigvalsh(want).min()
                if approx is None or e > 1e-6:
                    if not m.close(T, want, 'elliptical: the assigned correlations are not stored', rtol=1e-9, atol=1e-9,
                                   **ctx):
                        break
                else:
                    m.count('indefinite')
                    if not m.ok(_is_corr(T), 'elliptical: not a correlation matrix after an assignment', after=T,
                                eig=np.linalg.eigvalsh(T).min(), want=want, **ctx):
                        break
                    if not m.ok(np.abs(T - want).max() < 2.1, 'elliptical: projection is far off', after=T, **ctx):
                        break
            S = T
            if student:
                got = float(c.params.df)
                m.ok(got == wdf, 'student: degrees of freedom', got=got, want=wdf, **ctx)
                df = wdf
        a, b = _state(other, student)
        m.ok(a == other_before[0] and np.array_equal(b, other_before[1]), 'elliptical: another instance changed')
        # the density follows the current parameters
        if np.linalg.eigvalsh(S).min() > 1e-4:
            u = gen.points(rng, 4, d, 0.01)
            want = ref.student_logpdf(u, S, df) if student else ref.gauss_logpdf(u, S)
            m.close(m.call(c.pdf, u, log=True), want, f'{fam} density does not follow the parameters', rtol=1e-6, atol=1e-6,
                    S=S, df=df, trace=trace)


@scenario(P, shards={'quick': 2, 'thorough': 16}, weight=2)
def archimedean_histories(m):
    rng = m.rng
    cl = gen.classes()
    for _ in range(150 if not m.thorough else 1200):
        f = str(rng.choice(gen.ARCH))
        d = int(rng.choice([2, 2, 3, 4, 6]))
        c = cl[f](dim=d)
        other = cl[f](dim=d)
        lo = {'clayton': -1. if d == 2 else 0., 'frank': -np.inf if d == 2 else 0., 'gumbel': 1.}[f]
        cur = np.nan
        u = gen.points(rng, 4, d, 0.01)
        m.ok(np.isnan(c.params), f'{f}: parameter of a new copula', params=c.params)
        b = c.bounds
        m.ok(abs(b[0] - lo) < 1e-6 or b[0] == lo, f'{f}: lower bound', bounds=b, want=lo)
        m.ok(b[1] == np.inf, f'{f}: upper bound', bounds=b)
        for step in range(8):
            r = rng.random()
            if r < 0.45:
                th = gen.rand_theta(rng, f, d)
                if rng.random() < 0.1:
                    th = lo if np.isfinite(lo) else th
                arg = [th, np.float64(th), np.array(th), int(th) if th == int(th) else th][rng.integers(4)]
                m.case(f, d, 'set', th, cur)
                if m.ok(not isinstance(m.call(setattr, c, 'params', arg), Raised), f'{f}: a valid parameter is rejected',
                        theta=th, d=d):
                    cur = th
            elif r < 0.75:
                bad = float(lo - 10 ** rng.uniform(-6, 1)) if np.isfinite(lo) else 'x'
                if d == 2 and f == 'frank':
                    bad = str(rng.choice(['x', 'nan?']))
                m.case(f, d, 'bad', bad, cur)
                m.raises(f'{f}: an invalid parameter', REJECT, setattr, c, 'params', bad)
                if np.isfinite(lo):
                    m.raises(f'{f}: an invalid parameter in the constructor', REJECT, cl[f], bad, d)
            else:
                m.case(f, d, 'query', cur)
                m.call(lambda: (c.summary(), c.tau, c.lambda_, c.random(3, seed=1)))
            got = c.params
            m.ok(got == cur or np.isnan(got) and np.isnan(cur), f'{f}: the parameter is not the assigned one', got=got,
                 want=cur)
            if not np.isnan(cur) and (f != 'clayton' or -0.9 < cur < 60):
                want = [ref.arch_logpdf(f, cur, x) for x in u]
                m.close(m.call(c.pdf, u, log=True), np.array(want), f'{f} density does not follow the parameter', rtol=1e-6,
                        atol=1e-6, theta=cur, d=d)
                m.close(m.call(lambda: float(c.tau)), ref.arch_tau(f, cur), f'{f} tau does not follow the parameter',
                        rtol=1e-8, atol=1e-8, theta=cur)
        m.ok(np.isnan(other.params), f'{f}: another instance changed')


@scenario(P, shards={'quick': 1, 'thorough': 4})
def construction(m):
    """dimensions and defaults of every family"""
    rng = m.rng
    for _ in range(150 if not m.thorough else 1500):
        f = str(rng.choice(gen.FAMILIES))
        cls = gen.alias_class(rng, f)
        d = int(rng.choice([2, 3, 4, 7, 12]))
        m.case('construct', cls.__name__, d)
        c = m.must(f'{f}: construction', cls, dim=d)
        if c is None:
            continue
        m.ok(c.dim == d, f'{f}: dim', got=c.dim, want=d)
        m.ok(m.must(f'{f}: default dim', cls).dim == 2, f'{f}: default dimension')
        for bad in (1, 0, -3, 2.5):
            m.raises(f'{f}: dimension {bad}', REJECT, cls, dim=bad)
        if f in ('gaussian', 'student'):
            m.close(c.sigma, np.eye(d), f'{f}: default correlation', rtol=0)
        if f == 'student':
            for bad in (0, -1, float('nan')):
                m.raises(f'student: df {bad}', REJECT, cls, d, bad)
            df = float(rng.uniform(0.2, 20))
            m.ok(cls(d, df).params.df == df, 'student: df of the constructor')
        if f in gen.ARCH:
            th = gen.rand_theta(rng, f, d)
            m.ok(cls(th, d).params == th, f'{f}: parameter of the constructor', th=th)
