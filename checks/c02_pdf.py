"""One case = one density evaluation of a copula with generated parameters at a generated point of the open unit cube,
or one log-likelihood evaluation. Non-trivial = distinct (family, dimension, parameters, point)."""
import numpy as np
import pandas as pd

from vlib import gen, ref
from vlib.core import Raised, scenario

P = 'C02'
ASSUMPTIONS = ['mpmath derivatives of the textbook generators (vlib/ref.py)', 'scipy normal and t quantiles']

TOL = {'clayton': 1e-8, 'frank': 1e-8, 'gumbel': 2e-6, 'gaussian': 1e-7, 'student': 1e-7, 'indep': 1e-12}


def _formula(m, family, n_cop, n_pts, strong=0.97):
    rng = m.rng
    done = 0
    while done < n_cop:
        d = int(rng.choice([2, 2, 3, 4, 5, 6, 8]))
        if family == 'gumbel' and rng.random() < 0.05:
            d = int(rng.integers(9, 30))
        c, spec = gen.make(rng, family, d, strong)
        done += 1
        th = spec.get('theta')
        lo = 1e-4
        if family == 'gumbel' and d > 8:
            lo = 1e-2
        u = gen.points(rng, n_pts, d, lo)
        want = gen.ref_logpdf(spec, u)
        lgot = m.must(f'{family} log pdf', c.pdf, u, log=True)
        got = m.must(f'{family} pdf', c.pdf, u)
        for x in u:
            m.case(family, d, th, spec.get('S'), spec.get('df'), x.tolist())
        if got is None or lgot is None:
            continue
        tol = TOL[family]
        if 'S' in spec:
            tol *= max(1., np.linalg.cond(spec['S']) / 100)
        m.close(lgot, want, f'{family} log pdf is not the log density of the distribution function', rtol=tol, atol=tol,
                u=u, **spec)
        with np.errstate(all='ignore'):
            m.close(got, np.exp(want), f'{family} pdf is not the density of the distribution function',
                    rtol=tol * (2 + np.max(np.abs(want[np.isfinite(want)]), initial=0)), atol=1e-300, u=u, **spec)
        m.ok(np.all(np.asarray(got) >= 0), f'{family} pdf is negative', u=u, got=got, **spec)


for _f in gen.FAMILIES:
    scenario(P, f'formula_{_f}', shards={'quick': 1, 'thorough': 16}, weight=3)(
        lambda m, f=_f: _formula(m, f, 110 if not m.thorough else 600, 16))


for _f in gen.ARCH:
    scenario(P, f'strong_{_f}', shards={'quick': 1, 'thorough': 8}, weight=3)(
        lambda m, f=_f: _formula(m, f, 12 if not m.thorough else 80, 12, 'extreme'))


def _mixed_derivative(m, family):
    """density against the mass the CDF gives to small boxes (Gauss-Legendre integral of the density over the box)"""
    rng = m.rng
    x, w = np.polynomial.legendre.leggauss(16)
    for _ in range(25 if not m.thorough else 250):
        c, spec = gen.make(rng, family, 2, strong=0.8)
        lo = rng.uniform(0.02, 0.8, 2)
        hi = np.minimum(lo + rng.uniform(0.03, 0.15, 2), 0.98)
        if spec.get('theta', 0) < 0 and family == 'clayton':
            lo = np.maximum(lo, 0.6)
            hi = np.maximum(hi, lo + 0.02)
        pts = [(hi[j] - lo[j]) / 2 * x + (hi[j] + lo[j]) / 2 for j in range(2)]
        g = np.array([[a, b] for a in pts[0] for b in pts[1]])
        W = np.outer(w, w).ravel() * np.prod((hi - lo) / 2)
        pdf = m.must(f'{family} pdf', c.pdf, g)
        if pdf is None:
            continue
        mass = float(np.sum(W * pdf))
        V = c.cdf(np.array([[hi[0], hi[1]], [lo[0], hi[1]], [hi[0], lo[1]], [lo[0], lo[1]]]))
        m.case('box', family, spec.get('theta'), spec.get('S'), lo.tolist(), hi.tolist())
        m.close(mass, V[0] - V[1] - V[2] + V[3], f'{family}: the density does not integrate to the mass of the box',
                rtol=1e-5, atol=1e-7, lo=lo, hi=hi, **spec)


for _f in ('clayton', 'frank', 'gumbel', 'gaussian', 'indep'):
    scenario(P, f'mass_{_f}', shards={'quick': 1, 'thorough': 4})(lambda m, f=_f: _mixed_derivative(m, f))


@scenario(P, shards={'quick': 1, 'thorough': 6}, weight=2)
def log_lik(m):
    """the log-likelihood is the sum of the log densities of the (pseudo-)observations"""
    rng = m.rng
    for _ in range(100 if not m.thorough else 600):
        f = str(rng.choice(gen.FAMILIES))
        d = int(rng.integers(2, 5))
        c, spec = gen.make(rng, f, d, strong=0.8)
        n = int(rng.choice([1, 2, 7, 25]))
        ties = str(rng.choice(['average', 'min', 'max', 'ordinal', 'dense']))
        raw = rng.random() < 0.5
        x = gen.rand_tied_data(rng, n, d) if raw else gen.points(rng, n, d, 0.02)
        u = ref.pobs(x, ties) if raw else x
        want = float(np.sum(gen.ref_logpdf(spec, u)))
        data = x
        rep = rng.integers(3)
        if rep == 1:
            data = pd.DataFrame(x, columns=[f'v{i}' for i in range(d)], index=rng.permutation(n) + 5)
        if rep == 2 and raw:
            data = x.tolist()
        kw = {}
        if not raw:
            kw['to_pobs'] = False
        elif ties != 'average' or rng.random() < 0.5:
            kw['ties'] = ties
        m.case('loglik', f, d, n, spec.get('theta'), spec.get('S'), x.tolist(), kw)
        got = m.call(c.log_lik, data, **kw)
        if not np.isfinite(want):
            m.ok(not isinstance(got, Raised) and got == want, f'{f} log_lik of an impossible observation', got=got, want=want,
                 x=x, kw=kw, **spec)
        else:
            m.ok(np.isscalar(got) or np.ndim(got) == 0, 'log_lik is a number', got=got)
            m.close(got, want, f'{f} log_lik is not the sum of the log densities', rtol=1e-6, atol=1e-6 * n, x=x, kw=kw,
                    **spec)


@scenario(P, shards={'quick': 1, 'thorough': 4})
def near_singular(m):
    """correlations close to -1 and 1: the density and the likelihood are still those of the matrix"""
    rng = m.rng
    import copulae as c
    for _ in range(60 if not m.thorough else 500):
        student = bool(rng.random() < 0.5)
        d = int(rng.choice([2, 2, 3, 4]))
        e = 10 ** rng.uniform(-6, -1)
        b = np.sqrt(1 - e) * rng.choice([-1, 1], d)  # one strong common factor
        S = np.outer(b, b)
        np.fill_diagonal(S, 1)
        df = float(rng.uniform(1, 20))
        cop = c.StudentCopula(d, df) if student else c.GaussianCopula(d)
        cop.params = np.r_[df, ref.rhos_of(S)] if student else ref.rhos_of(S)
        f = 'student' if student else 'gaussian'
        u = np.vstack([np.asarray(cop.random(12, seed=int(rng.integers(1e6)))), gen.points(rng, 3, d, .05)])
        u = u[((u > 1e-9) & (u < 1 - 1e-9)).all(1)]
        want = ref.student_logpdf(u, S, df) if student else ref.gauss_logpdf(u, S)
        m.case('near singular', f, d, e, u[0].tolist())
        tol = dict(rtol=1e-9 / e + 1e-6, atol=1e-9 / e + 1e-6)
        m.close(m.call(cop.pdf, u, log=True), want, f'{f} log pdf, strong correlations', S=S, df=df, **tol)
        own = np.asarray(cop.pdf(u, log=True), float)
        m.close(m.call(cop.log_lik, u, to_pobs=False), own.sum(), f'{f} log_lik, strong correlations', rtol=1e-7, atol=1e-6, S=S,
                df=df)


@scenario(P, shards={'quick': 1, 'thorough': 4})
def outside(m):
    """rows outside the unit cube or with NaN have no finite positive density and do not affect the other rows"""
    rng = m.rng
    for _ in range(80 if not m.thorough else 600):
        f = str(rng.choice(['clayton', 'frank', 'gumbel', 'gaussian', 'student', 'indep']))
        d = int(rng.integers(2, 6))
        c, spec = gen.make(rng, f, d, strong=0.8)
        u = gen.points(rng, 8, d, 0.01)
        v = u.copy()
        bad = rng.random(8) < 0.4
        bad[rng.integers(8)] = True
        for i in np.flatnonzero(bad):
            v[i, rng.integers(d)] = rng.choice([-0.3, 1.2, np.nan, 7., -1e-9, 1 + 1e-9])
        log = bool(rng.integers(2))
        m.case('outside', f, d, v.tolist(), spec.get('theta'), spec.get('S'))
        if bad.all():
            continue
        got = m.must(f'{f} pdf', c.pdf, v, log=log)
        want = m.must(f'{f} pdf', c.pdf, u, log=log)
        if got is None or want is None:
            continue
        m.close(got[~bad], want[~bad], f'{f} pdf: a row outside the unit cube changes the other rows', rtol=1e-9,
                atol=1e-12, v=v, **spec)
        m.ok(np.all(np.isnan(got[bad])), f'{f} pdf of a row outside the unit cube is not NaN', v=v, got=got, log=log,
             **spec)
