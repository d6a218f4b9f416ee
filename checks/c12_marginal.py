"""One case = one evaluation, sample or fit of a copula combined with named marginal distributions, compared with Sklar's
theorem applied to the inner copula (judged by its own properties) and scipy's marginal distributions. Non-trivial =
distinct (inner copula, margins, query, point or data)."""
import numpy as np
import pandas as pd
from scipy import stats

from vlib import gen, ref
from vlib.core import Raised, scenario

P = 'C12'
ASSUMPTIONS = ['scipy.stats distributions and their maximum likelihood fits are the reference for the margins']

ALIAS = {'norm': ['norm', 'normal', 'gaussian', 'Normal', ' GAUSSIAN '], 't': ['t', 'student', 'Student', 'T'],
         'expon': ['expon', 'exp', 'EXP ', 'Expon']}


def margins(rng, d):
    """-> constructor input, the frozen distributions it means"""
    spec = []
    for k in rng.integers(0, len(gen.MARGINS), d):
        name, par = gen.MARGINS[k]
        par = dict(par)
        if par and rng.random() < 0.3:
            par['loc'] = float(rng.normal())
        spec.append((name, par))
    same = rng.random() < 0.2
    if same:
        spec = [spec[0]] * d
    fr = []
    inp = []
    for name, par in spec:
        dist = getattr(stats, name)
        form = rng.integers(3)
        t = str(rng.choice(ALIAS.get(name, [name]))) if form < 2 else dist
        if not par and form == 0:
            inp.append(t)
            fr.append(dist())
        elif rng.random() < 0.15 and name in ('t', 'gamma', 'lognorm'):
            inp.append({'type': t})  # shape parameters default to 0.5
            fr.append(dist(0.5))
        else:
            inp.append({'type': t, 'parameters': dict(par)} if par else {'type': t})
            fr.append(dist(**par))
    if same and rng.random() < 0.7:
        return inp[0], [fr[0]] * d
    if rng.random() < 0.2:
        return tuple(inp), fr
    return inp, fr


@scenario(P, shards={'quick': 3, 'thorough': 24}, weight=2)
def sklar(m):
    import copulae as c
    rng = m.rng
    for _ in range(90 if not m.thorough else 700):
        inner = gen.any_copula(rng, str(rng.choice(gen.INNER)), None, 0.85)
        d = inner.dim
        inp, fr = margins(rng, d)
        cop = m.must('constructor of the marginal copula', c.MarginalCopula, inner.cop, inp)
        if cop is None:
            continue
        m.ok(cop.dim == d, 'dimension of a marginal copula')
        u = gen.points(rng, 6, d, 0.01)
        x = np.column_stack([f.ppf(u[:, j]) for j, f in enumerate(fr)])
        u = np.column_stack([f.cdf(x[:, j]) for j, f in enumerate(fr)])
        dens = np.prod([f.pdf(x[:, j]) for j, f in enumerate(fr)], axis=0)
        fin = np.isfinite(dens) & np.isfinite(x).all(1)
        x, u, dens = x[fin], u[fin], dens[fin]
        if not len(x):
            continue
        for r in x:
            m.case('sklar', inner.spec, str(inp), r.tolist())
        ctx = dict(inner=inner.spec, margins=str(inp), x=x)
        if len(x) > 1:
            if inner.cdf:
                w = np.asarray(inner.cop.cdf(u), float)
                m.close(m.call(cop.cdf, x), w, 'cdf is not C(F1, ..., Fd)', rtol=1e-9, atol=inner.cdf_atol, **ctx)
                with np.errstate(all='ignore'):
                    lw = np.log(w)
                big = w > 1e-2
                lg = m.call(cop.cdf, x, log=True)
                if isinstance(lg, Raised):
                    m.fail('log cdf raises', error=repr(lg))
                else:
                    m.close(np.asarray(lg)[big], lw[big], 'log cdf is not log C(F1, ..., Fd)', rtol=1e-8,
                            atol=max(1e-9, 100 * inner.cdf_atol), **ctx)
            w = np.asarray(inner.cop.pdf(u), float) * dens
            m.close(m.call(cop.pdf, x), w, 'pdf is not c(F1, ..., Fd) f1 ... fd', rtol=1e-8, atol=1e-280, **ctx)
            ok = (w > 1e-250)
            lg = m.call(cop.pdf, x, log=True)
            if isinstance(lg, Raised):
                m.fail('log pdf raises', error=repr(lg))
            else:
                m.close(np.asarray(lg)[ok], np.log(w[ok]), 'log pdf', rtol=1e-8, atol=1e-8, **ctx)
        # whole numbers are numbers
        with np.errstate(all='ignore'):
            Z = np.rint(np.clip(x, -1e6, 1e6)).astype(str(rng.choice(['int64', 'int32'])))
            uz = np.column_stack([f.cdf(Z[:, j].astype(float)) for j, f in enumerate(fr)])
            dz = np.prod([f.pdf(Z[:, j].astype(float)) for j, f in enumerate(fr)], axis=0)
        fin = np.isfinite(dz) & (dz > 0) & ((uz > 1e-4) & (uz < 1 - 1e-4)).all(1)
        if fin.sum() > 1:
            Z, uz, dz = Z[fin], uz[fin], dz[fin]
            m.case('whole numbers', inner.spec, str(inp), Z.tolist())
            if inner.cdf:
                w = np.asarray(inner.cop.cdf(uz), float)
                m.close(m.call(cop.cdf, Z), w, 'cdf of whole numbers is not C(F1, ..., Fd)', rtol=1e-9, atol=inner.cdf_atol,
                        **{**ctx, 'x': Z})
                m.close(m.call(cop.cdf, Z[0].tolist()), w[0], 'cdf of whole numbers is not C(F1, ..., Fd)', rtol=1e-9,
                        atol=inner.cdf_atol, **{**ctx, 'x': Z[0]})
            w = np.asarray(inner.cop.pdf(uz), float) * dz
            m.close(m.call(cop.pdf, Z), w, 'pdf of whole numbers is not c(F1, ..., Fd) f1 ... fd', rtol=1e-8, atol=1e-280,
                    **{**ctx, 'x': Z})
        # outside the support of a margin there is no mass
        lo = [f.support()[0] for f in fr]
        hi = [f.support()[1] for f in fr]
        b = [(j, s) for j in range(d) for s in (lo[j] - 0.5, hi[j] + 0.5) if np.isfinite(s)]
        for j, s in b[:3]:
            y = x[0].copy()
            y[j] = s
            Y = np.vstack([y, x[0]])
            m.case('outside', inner.spec, str(inp), y.tolist())
            r = m.call(cop.pdf, Y)
            if not isinstance(r, Raised):
                m.close(np.asarray(r)[0], 0., 'pdf outside the support of a margin', atol=0, **{**ctx, 'y': y})
                m.close(np.asarray(m.call(cop.pdf, Y, log=True))[0], -np.inf, 'log pdf outside the support of a margin', y=y)
            if inner.cdf and s < lo[j]:
                m.close(m.call(cop.cdf, y), 0., 'cdf below the support of a margin', atol=1e-12, y=y, inner=inner.spec)
        # the state is readable
        p = m.must('params of the marginal copula', lambda: cop.params)
        if p is not None:
            m.ok(set(p) == {'copula', 'marginals'} and len(p['marginals']) == d, 'params: structure', p=str(p))
            for j, (g, f) in enumerate(zip(p['marginals'], fr)):
                m.ok(g['type'] == f.dist.name, 'params: type of a margin', got=g, want=f.dist.name)
                got = dict(g['parameters'])
                args, loc, scale = f.dist._parse_args(*f.args, **f.kwds)
                names = (f.dist.shapes or '').replace(' ', '').split(',') if f.dist.shapes else []
                want = {**dict(zip(names, args)), 'loc': loc, 'scale': scale}
                m.ok(set(got) == set(want) and all(np.isclose(got[k], want[k], rtol=1e-12) for k in want),
                     'params: values of a margin', got=str(got), want=str(want))


@scenario(P, shards={'quick': 1, 'thorough': 6}, min_events=100)
def magnitudes(m):
    """log densities of margins whose densities leave the range of floating point numbers"""
    import copulae as c
    rng = m.rng
    for _ in range(60 if not m.thorough else 500):
        inner = gen.any_copula(rng, str(rng.choice(gen.INNER)), None, 0.8)
        d, n = inner.dim, 4
        spec, fr, cols = [], [], []
        deep = inner.spec[0] == 'indep' if isinstance(inner.spec, tuple) else inner.kind == 'indep'
        for j in range(d):
            name = str(rng.choice(['norm', 't', 'expon', 'uniform', 'gamma']))
            par = {'scale': float(10 ** rng.uniform(-200, 200)) if rng.random() < .8 else 1.}
            if name == 't':
                par['df'] = float(rng.choice([.2, .5, 2., 8.]))
            elif name == 'gamma':
                par['a'] = float(rng.choice([.5, 2., 30.]))
            f = getattr(stats, name)(**par)
            x = f.ppf(gen.points(rng, n, 1, 0.01)[:, 0])
            if name == 't' and par['df'] == .2 and rng.random() < .7:
                f = stats.t(**par | {'scale': 1e280})
                par['scale'] = 1e280
                x = 1e280 * 10 ** rng.uniform(0, 26, n) * rng.choice([-1, 1], n)
            elif deep and name in ('norm', 'expon', 'gamma'):
                x = x + par['scale'] * rng.uniform(0, 1000, n) * (rng.choice([-1, 1], n) if name == 'norm' else 1)
            spec.append({'type': name, 'parameters': dict(par)})
            fr.append(f)
            cols.append(x)
        x = np.column_stack(cols)
        ok = np.isfinite(x).all(1)
        if ok.sum() < 2:
            continue
        x = x[ok]
        cop = m.must('constructor of the marginal copula', c.MarginalCopula, inner.cop, spec)
        if cop is None:
            continue
        u = np.column_stack([f.cdf(x[:, j]) for j, f in enumerate(fr)])
        lc = np.asarray(inner.cop.pdf(u, log=True), float) if not deep else np.zeros(len(x))
        want = lc + sum(f.logpdf(x[:, j]) for j, f in enumerate(fr))
        for r, w in zip(x, want):
            m.case('magnitudes', inner.spec, str(spec), r.tolist())
            m.count('log densities beyond the range of densities', int(abs(w) > 745))
        m.close(m.call(cop.pdf, x, log=True), want, 'log pdf is not log c(F1, ..., Fd) + log f1 + ... + log fd', rtol=1e-9,
                atol=1e-8, inner=inner.spec, margins=str(spec), x=x)


@scenario(P, shards={'quick': 2, 'thorough': 12}, weight=2)
def sampling(m):
    import copulae as c
    rng = m.rng
    for _ in range(60 if not m.thorough else 400):
        inner = gen.any_copula(rng, str(rng.choice(gen.INNER)), None, 0.8)
        d = inner.dim
        inp, fr = margins(rng, d)
        cop = c.MarginalCopula(inner.cop, inp)
        n, seed = int(rng.choice([1, 2, 7, 3000])), int(rng.integers(2 ** 31))
        m.case('random', inner.spec, str(inp), n, seed)
        x = m.must('random of the marginal copula', cop.random, n, seed)
        if x is None:
            continue
        x = np.asarray(x)
        if not m.ok(x.shape == (n, d), 'random: shape', shape=x.shape, n=n, d=d):
            continue
        # the probability transform of the sample is a sample of the inner copula
        u = np.column_stack([f.cdf(x[:, j]) for j, f in enumerate(fr)])
        w = np.asarray(inner.cop.random(n, seed), float)
        m.close(u, w, 'random: F(X) is not the sample of the inner copula', rtol=1e-6, atol=1e-7, inner=inner.spec,
                margins=str(inp))
        # rare observations: the joint copula is made to return probabilities next to 0 and 1
        given = []
        own = inner.cop.random

        def rare(*a, **k):
            v = np.array(own(*a, **k), float)
            if v.ndim == 2:
                hit = rng.random(v.shape) < .4
                v[hit] = np.where(rng.random(hit.sum()) < .5, 10 ** rng.uniform(-12, -2, hit.sum()),
                                  1 - 10 ** rng.uniform(-12, -2, hit.sum()))
            given.append(v.copy())
            return v

        inner.cop.random = rare
        try:
            x = m.must('random of the marginal copula', cop.random, 7, seed)
        finally:
            del inner.cop.random
        if x is not None and len(given) == 1 and given[0].shape == (7, d) == np.shape(x):
            m.case('rare', inner.spec, str(inp), given[0].tolist())
            m.count('rare observations')
            w = np.column_stack([f.ppf(given[0][:, j]) for j, f in enumerate(fr)])
            m.close(np.asarray(x), w, 'random: rare observations are not the quantiles of the margins', rtol=1e-9, atol=1e-12,
                    u=given[0], margins=str(inp))
        if n == 3000:
            for j, f in enumerate(fr):
                p = stats.kstest(x[:, j], f.cdf).pvalue
                m.ok(p > 1e-10, 'random: margin does not follow its distribution', p=p, margins=str(inp), inner=inner.spec)
                m.count('margins tested')


@scenario(P, shards={'quick': 2, 'thorough': 16}, weight=3)
def fitting(m):
    """margins are fitted by maximum likelihood column by column, the dependence by the inner copula's own estimator"""
    import copulae as c
    rng = m.rng
    for _ in range(25 if not m.thorough else 200):
        d = int(rng.choice([2, 2, 3]))
        kind = str(rng.choice(['gaussian', 'clayton', 'gumbel', 'frank', 'student', 'indep']))
        types = [str(t) for t in rng.choice(['norm', 'expon', 'uniform', 't', 'gamma', 'lognorm'], d, p=[.3, .2, .2, .1, .1, .1])]
        n = 60
        if rng.random() < 0.2:  # many observations, which drift, of more variables
            n, d = int(rng.choice([501, 1300, 2100])), int(rng.choice([2, 4, 6]))
            kind, types = str(rng.choice(['gaussian', 'clayton', 'indep'])), [str(t) for t in rng.choice(['norm', 'expon', 'uniform'], d)]
        b = rng.uniform(0.5, 0.9, d)
        z = rng.normal(size=(n, 1)) * b + rng.normal(size=(n, d)) * np.sqrt(1 - b ** 2)
        u = stats.norm.cdf(z)
        X = np.column_stack([{'norm': lambda q: stats.norm.ppf(q, 2, 3), 'expon': lambda q: stats.expon.ppf(q, 0, 2),
                              'uniform': lambda q: 5 * q - 2, 't': lambda q: stats.t.ppf(q, 5), 'gamma':
                                  lambda q: stats.gamma.ppf(q, 2), 'lognorm': lambda q: stats.lognorm.ppf(q, 0.5)}[t](u[:, j])
                             for j, t in enumerate(types)])
        if n == 60 and rng.random() < .2:  # alike at a glance: the same values occur, in different numbers
            types = ['norm'] * d
            grid = np.linspace(-2, 2, 7)
            X = grid[np.clip(np.round(stats.norm.ppf(u) * rng.uniform(.6, 2, d)) + 3, 0, 6).astype(int)]
            X[:7] = grid[np.argsort(rng.random((7, d)), axis=0)]
        if n > 60:
            X = X[np.argsort(X[:, 0] + rng.normal(size=n))]
        method = 'ml' if kind not in ('gaussian', 'student') or rng.random() < 0.3 else 'itau'
        if kind == 'student':
            method = 'itau'
        data = pd.DataFrame(X, columns=list('xyzvwu')[:d]) if rng.random() < 0.4 else X
        ties = str(rng.choice(['average', 'max', 'ordinal']))
        mk = lambda: gen.classes()[kind](dim=d) if kind != 'indep' else c.IndepCopula(d)
        inner = mk()
        cop = c.MarginalCopula(inner, types)
        m.case('fit', kind, types, method, X.tolist())
        r = m.call(cop.fit, data, method=method, ties=ties, verbose=0)
        if isinstance(r, Raised):
            m.fail('fit of the marginal copula raises', error=repr(r), kind=kind, types=types, tb=r.tb[-1200:])
            continue
        m.ok(r is cop, 'fit does not return the copula')
        p = cop.params
        for j, t in enumerate(types):
            w = getattr(stats, t).fit(X[:, j])
            g = p['marginals'][j]
            m.ok(g['type'] == t, 'fit: type of a margin', got=g['type'], want=t)
            m.close(np.array([float(v) for v in g['parameters'].values()]), np.array(w), 'fit: parameters of a margin',
                    rtol=1e-6, atol=1e-9, type=t)
        if kind != 'indep':
            o = mk()
            o.fit(X, method=method, ties=ties, verbose=0)
            pg, pw = p['copula'], o.params
            if kind == 'student':
                pg, pw = np.r_[pg.df, pg.rho], np.r_[pw.df, pw.rho]
            m.close(np.asarray(pg, float), np.asarray(pw, float), 'fit: parameters of the dependence', rtol=1e-7, atol=1e-9,
                    kind=kind)
            s = m.call(cop.summary, 'fit')
            m.ok(not isinstance(s, Raised), 'fit: summary', error=repr(s))
        fr = [getattr(stats, t)(*getattr(stats, t).fit(X[:, j])) for j, t in enumerate(types)]
        y = X[:4]
        uu = np.column_stack([f.cdf(y[:, j]) for j, f in enumerate(fr)])
        if ((uu > 1e-6) & (uu < 1 - 1e-6)).all():
            w = np.asarray(inner.pdf(uu), float) * np.prod([f.pdf(y[:, j]) for j, f in enumerate(fr)], axis=0)
            m.close(m.call(cop.pdf, y), w, 'fit: density after the fit', rtol=1e-6, kind=kind, types=types)


@scenario(P, shards={'quick': 1, 'thorough': 2})
def rejected(m):
    import copulae as c
    rng = m.rng
    for _ in range(60 if not m.thorough else 300):
        d = int(rng.choice([2, 3]))
        cop = c.GaussianCopula(d)
        E = (TypeError, ValueError, AssertionError)
        bad = [('too few margins', ['norm'] * (d - 1)), ('too many margins', ['norm'] * (d + 1)), ('no margins', []),
               ('unknown distribution', 'nosuchdist'), ('unknown distribution in a list', ['norm'] * (d - 1) + ['nosuch']),
               ('no distribution but a scipy function', 'kstest'), ('discrete distribution', 'poisson'),
               ('frozen distribution', [{'type': stats.norm()}] * d), ('no type', [{'parameters': {}}] * d),
               ('numbers', [1.0] * d), ('None', None), ('number', 3)]
        name, b = bad[rng.integers(len(bad))]
        m.case('rejected', d, name)
        m.raises('margins: ' + name, E, c.MarginalCopula, cop, b)
        mc = c.MarginalCopula(cop, 'norm')
        for X in (rng.normal(size=(20, d + 1)), rng.normal(size=20), rng.normal(size=(5, d, 2))):
            m.raises('fit: data of the wrong shape', (ValueError, c.marginal.marginal.InputDataError if hasattr(
                c.marginal, 'marginal') else Exception), mc.fit, X, verbose=0)
            m.case('rejected fit', d, X.shape)
