"""One case = one fit of a copula to a generated data set, observed through the parameters, the log likelihood and the
fit summary it leaves behind. Non-trivial = distinct (family, estimator, options, data set)."""
import numpy as np
import pandas as pd
from scipy import stats

from vlib import gen, ref
from vlib.core import Raised, scenario

P = 'C07'
ASSUMPTIONS = ['the density is judged by C02; here the fitted parameters are compared with a search over parameters of '
               'the copula\'s own log likelihood', 'optimizers stop within their default tolerances', 'maximum likelihood of the '
               'Clayton family is judged for positively dependent data only: a negative parameter restricts the support '
               'and the likelihood jumps']


def _data(rng, f, d, n, special=False):
    while True:
        c, spec = gen.make(rng, f, d, strong=0.8, special=special)
        if f == 'clayton' and abs(spec['theta']) > 20:
            continue
        if f == 'student' and not 1.5 <= spec['df'] <= 25:
            continue
        break
    u = c.random(n, seed=int(rng.integers(2 ** 31)))
    k = rng.integers(4)
    z = u if k == 0 else stats.norm.ppf(u) if k == 1 else np.exp(3 * u) if k == 2 else -5 + 100 * u ** 3
    return np.ascontiguousarray(z), spec


def _off_ranks(rng, u):
    """probabilities in the order of the given ranks, at other places"""
    n = len(u)
    return np.clip((np.rint(u * (n + 1)) - rng.random(u.shape)) / n, 2e-3, 1 - 2e-3)


def _params(c):
    p = c.params
    return np.r_[p.df, p.rho] if hasattr(p, 'df') else np.atleast_1d(np.array(p, float))


def _check_summary(m, f, c, u, ctx, rtol=1e-6):
    s = m.must(f'{f} fit: summary', c.summary, 'fit')
    if s is None:
        return
    ll = c.log_lik(u, to_pobs=False)
    m.close(m.call(lambda: float(s.log_lik)), ll, f'{f} fit: the reported log likelihood is not that of the parameters',
            rtol=rtol, atol=1e-6, **ctx)
    p = s.params
    p = np.r_[p.df, p.rho] if hasattr(p, 'df') else np.atleast_1d(np.array(p, float))
    if f != 'student' or len(p) == len(_params(c)):
        m.close(p, _params(c), f'{f} fit: the reported parameters are not those of the copula', rtol=1e-12, **ctx)
    m.ok(s.nsample == len(u), f'{f} fit: number of observations', got=s.nsample, want=len(u))
    m.ok(isinstance(str(s), str) and isinstance(s.as_html(), str), f'{f} fit: summary is not printable')


@scenario(P, shards={'quick': 3, 'thorough': 24}, weight=3)
def archimedean_ml(m):
    """no parameter of a fine grid has a higher likelihood"""
    rng = m.rng
    cl = gen.classes()
    for _ in range(90 if not m.thorough else 200):
        f = str(rng.choice(gen.ARCH))
        d = int(rng.choice([2, 2, 3, 4]))
        n = int(rng.choice([30, 60, 150, 400]))
        z, spec = _data(rng, f, d, n)
        u = ref.pobs(z)
        if f == 'clayton' and ref.kendall(u[:, 0], u[:, 1]) < 0.05:
            continue  # the likelihood of a negative parameter jumps where observations leave the support
        opt = {}
        kw = {}
        which = rng.integers(6)
        if which == 1:
            kw['x0'] = max(spec['theta'], 1.05 if f == 'gumbel' else 0.05) * float(rng.uniform(0.7, 1.4))
            if f == 'gumbel':
                kw['x0'] = max(kw['x0'], 1.05)
        elif which == 2:
            opt = {'method': 'Nelder-Mead', 'options': {'xatol': 1e-6}}
        elif which == 3:
            kw['scale'] = float(rng.choice([0.5, 5]))
        elif which == 4:
            kw['to_pobs'] = False
            if rng.random() < .6:  # probabilities that are not ranks
                u = _off_ranks(rng, u)
        if opt:
            kw['optim_options'] = opt
        c = cl[f](dim=d)
        ctx = {'family': f, 'd': d, 'n': n, 'theta': spec['theta'], 'kw': repr(kw)}
        m.case('ml', f, d, n, spec['theta'], repr(kw))
        r = m.call(c.fit, u if which == 4 else z, verbose=0, **kw)
        if isinstance(r, Raised):
            m.fail(f'{f} fit: unexpected exception', error=repr(r), tb=r.tb[-1200:], **ctx)
            continue
        m.ok(r is c, f'{f} fit does not return the copula', **ctx)
        th = c.params
        if not m.ok(not np.isnan(th), f'{f} fit: no parameter', results=repr(c.summary('fit').results), **ctx):
            continue
        ll = c.log_lik(u, to_pobs=False)
        if not m.ok(np.isfinite(ll), f'{f} fit: log likelihood is not finite', ll=ll, fitted=th, **ctx):
            continue
        g = cl[f](dim=d)
        tau = g.itau(ref.kendall(u[:, 0], u[:, 1]))
        grid = [spec['theta'], *(th * (1 + np.r_[-.3, -.1, -.03, -.01, .01, .03, .1, .3])), *(th + np.r_[-.05, .05, -.5, .5]),
                tau, {'clayton': .01, 'frank': .01, 'gumbel': 1.01}[f]]
        best, arg = -np.inf, None
        for t in grid:
            try:
                g.params = float(t)
            except ValueError:
                continue
            v = g.log_lik(u, to_pobs=False)
            if v > best:
                best, arg = v, float(t)
        m.ok(ll >= best - 1e-3 * max(1, 1 / kw.get('scale', 1)), f'{f} fit: another parameter has a higher likelihood',
             fitted=th, ll=ll, better=arg, ll_better=best, **ctx)
        _check_summary(m, f, c, u, ctx)


@scenario(P, shards={'quick': 3, 'thorough': 24}, weight=4)
def elliptical_ml(m):
    """no perturbation of the parameters, nor the parameters the data come from, have a clearly higher likelihood"""
    rng = m.rng
    cl = gen.classes()
    for _ in range(40 if not m.thorough else 100):
        f = str(rng.choice(['gaussian', 'gaussian', 'student']))
        d = int(rng.choice([2, 2, 3, 4]))
        n = int(rng.choice([100, 200, 400]))
        z, spec = _data(rng, f, d, n)
        u = ref.pobs(z)
        kw = {}
        if rng.random() < .2:
            kw['to_pobs'] = False
            u = z = _off_ranks(rng, u)
        which = rng.integers(4)
        if which == 1:
            kw['x0'] = ref.rhos_of(spec['S']) * 0.9
            if f == 'student':
                kw['x0'] = np.r_[spec['df'] * 1.2, kw['x0']]
            kw['x0'] = kw['x0'].tolist() if rng.random() < 0.5 else kw['x0']
        elif which == 2:
            kw['scale'] = float(rng.choice([0.5, 2]))
        elif which == 3 and f == 'gaussian':
            kw['optim_options'] = {'method': str(rng.choice(['SLSQP', 'trust-constr', 'L-BFGS-B', 'Nelder-Mead']))} \
                if d < 4 else {}
        c = cl[f](d)
        ctx = {'family': f, 'd': d, 'n': n, 'S': spec['S'], 'df': spec.get('df'), 'kw': repr(kw)}
        m.case('ml', f, d, n, spec['S'], spec.get('df'), repr(kw))
        r = m.call(c.fit, z, verbose=0, **kw)
        if isinstance(r, Raised):
            m.fail(f'{f} fit: unexpected exception', error=repr(r), tb=r.tb[-1200:], **ctx)
            continue
        s = c.summary('fit')
        if not s.results['success']:
            m.count('not converged')
            continue
        m.count('converged')
        ll = c.log_lik(u, to_pobs=False)
        g = cl[f](d)
        p = _params(c)
        best, arg = -np.inf, None
        tru = ref.rhos_of(spec['S'])
        cand = [np.r_[spec['df'], tru] if f == 'student' else tru]
        for k in range(len(p)):
            for e in (-.05, .05):
                q = p.copy()
                q[k] += e * (p[0] if f == 'student' and k == 0 else 1)
                cand.append(q)
        for q in cand:
            if f == 'student' and q[0] <= 0:
                continue
            S = ref.sigma_of(q[1:] if f == 'student' else q)
            if np.linalg.eigvalsh(S).min() < 1e-6:
                continue
            g.params = q
            v = g.log_lik(u, to_pobs=False)
            if v > best:
                best, arg = v, q
        # the other methods do not know the border of the domain and may stop where they meet it
        tol = 0.05 if kw.get('optim_options', {}).get('method') in (None, 'SLSQP') else 5.0 + 0.5 * abs(best)
        m.ok(ll >= best - tol, f'{f} fit: other parameters have a higher likelihood', fitted=p, ll=ll, better=arg,
             ll_better=best, **ctx)
        _check_summary(m, f, c, u, ctx)


@scenario(P, shards={'quick': 2, 'thorough': 12}, weight=2)
def inversion(m):
    """itau and irho: the dependence measure of the fitted copula is the (mean) measure of the data"""
    rng = m.rng
    cl = gen.classes()
    from copulae.core import near_psd
    for _ in range(60 if not m.thorough else 500):
        f = str(rng.choice([*gen.ARCH, 'gaussian', 'student']))
        method = 'irho' if f == 'gaussian' and rng.random() < 0.5 else 'itau'
        d = int(rng.choice([2, 3, 4, 6]))
        n = int(rng.choice([20, 60, 150]))
        z, spec = _data(rng, f, d, n)
        if d > 2 and rng.random() < 0.4:  # a column which depends less on the others
            z = np.array(z)
            z[:, rng.integers(d)] += rng.normal(size=n) * np.std(z)
        if rng.random() < 0.25:
            z = np.round(z, 1)
        ties = str(rng.choice(['average', 'average', 'min', 'max', 'dense']))
        u = ref.pobs(z, ties)
        c = cl[f](d, 6.5) if f == 'student' else cl[f](dim=d)
        ctx = {'family': f, 'd': d, 'n': n, 'method': method, 'ties': ties}
        fn = ref.kendall if method == 'itau' else ref.spearman
        T = np.eye(d)
        for i in range(d):
            for j in range(i):
                T[i, j] = T[j, i] = fn(u[:, i], u[:, j])
        mean = ref.rhos_of(T)
        if np.isnan(mean).any():
            continue
        if f in gen.ARCH and (d > 2 or f == 'gumbel') and mean.min() <= 0.02:
            continue
        if f == 'clayton' and mean.min() < -0.9 or f in gen.ARCH and mean.max() > 0.97:
            continue
        m.case(method, f, d, n, ties, mean.tolist())
        r = m.call(c.fit, z, method=method if rng.random() < 0.8 else method.upper(), ties=ties, verbose=0)
        if isinstance(r, Raised):
            m.fail(f'{f} {method}: unexpected exception', error=repr(r), tb=r.tb[-1200:], **ctx)
            continue
        if f in gen.ARCH:
            # the mean of the calibrated parameters
            want = np.mean([gen.theta_of_tau(f, t) for t in mean])
            m.close(c.params, want, f'{f} {method}: parameter', rtol=1e-4, atol=1e-5, tau=mean, **ctx)
        else:
            R = np.sin(np.pi / 2 * T) if method == 'itau' else 2 * np.sin(np.pi / 6 * T)
            np.fill_diagonal(R, 1)
            if np.linalg.eigvalsh(R).min() > 1e-6:
                m.close(c.sigma, R, f'{f} {method}: correlations', rtol=1e-7, atol=1e-8, **ctx)
            else:
                m.close(c.sigma, near_psd(R), f'{f} {method}: correlations', rtol=1e-6, atol=1e-7, **ctx)
                m.ok(np.linalg.eigvalsh(c.sigma).min() > -1e-7, f'{f} {method}: not positive semi-definite', **ctx)
            if f == 'student':
                m.ok(c.params.df == 6.5, 'student: inversion changes the degrees of freedom', df=c.params.df)
        if f in gen.ARCH or np.linalg.eigvalsh(c.sigma).min() > 1e-6:
            _check_summary(m, f, c, u, ctx)


@scenario(P, shards={'quick': 2, 'thorough': 12}, weight=2)
def data_handling(m):
    """only the ranks matter; explicit pseudo-observations, tie handling and repeated fits agree"""
    rng = m.rng
    cl = gen.classes()
    for _ in range(40 if not m.thorough else 120):
        f = str(rng.choice(['clayton', 'frank', 'gumbel', 'gaussian', 'gaussian']))
        d = int(rng.choice([2, 3]))
        n = int(rng.choice([30, 60, 100]))
        z, spec = _data(rng, f, d, n)
        if rng.random() < 0.5:
            z = np.round(stats.rankdata(z, axis=0) / n * 12)
        ties = str(rng.choice(['average', 'min', 'max', 'dense', 'ordinal']))
        ctx = {'family': f, 'd': d, 'n': n, 'ties': ties}
        method = str(rng.choice(['ml', 'itau'])) if f not in ('clayton', 'gumbel', 'frank') or d == 2 else 'ml'
        m.case('data', f, d, n, ties, method, z[:5].tolist())
        make = lambda: cl[f](dim=d)
        a = m.call(make().fit, z, method=method, ties=ties, verbose=0)
        if isinstance(a, Raised):
            m.fail(f'{f} fit: unexpected exception', error=repr(a), tb=a.tb[-1200:], **ctx)
            continue
        pa = _params(a)
        u = ref.pobs(z, ties)
        variants = {
            'of increasing transforms': lambda: make().fit(z ** 3 * 2 + 1, method=method, ties=ties, verbose=0),
            'of the pseudo-observations': lambda: make().fit(u, method=method, to_pobs=False, verbose=0),
            'of a DataFrame': lambda: make().fit(pd.DataFrame(z, columns=list('abc')[:d]), method=method, ties=ties,
                                                  verbose=0),
            'of a list': lambda: make().fit(z.tolist(), method=method, ties=ties, verbose=0),
            'of Fortran-ordered data': lambda: make().fit(np.asfortranarray(z), method=method, ties=ties, verbose=0),
            'repeated on one instance': lambda: a.fit(z, method=method, ties=ties, verbose=0),
        }
        if f not in gen.ARCH:  # a start that is not known entirely is none
            x0 = [.1] * (d * (d - 1) // 2)
            x0[int(rng.integers(len(x0)))] = float(rng.choice([np.nan, np.inf]))
            variants['from a start with a missing value'] = lambda: make().fit(z, x0=x0, method=method, ties=ties, verbose=0)
        if ties != 'ordinal':
            perm = rng.permutation(n)
            variants['of permuted rows'] = lambda: make().fit(z[perm], method=method, ties=ties, verbose=0)
        for name, g in variants.items():
            b = m.call(g)
            if isinstance(b, Raised):
                m.fail(f'{f} fit {name}: unexpected exception', error=repr(b), tb=b.tb[-1200:], **ctx)
                continue
            if f == 'gaussian' and method == 'ml' and np.linalg.eigvalsh(ref.sigma_of(pa)).min() < .05:
                # the likelihood rises towards the border of the domain; where the search stops depends on rounding
                m.count('near the border')
                continue
            m.close(_params(b), pa, f'{f} fit {name} differs', rtol=5e-3, atol=5e-3, **ctx)


@scenario(P, shards={'quick': 1, 'thorough': 4}, min_events=20)
def few_rows(m):
    """as many observations as dimensions are enough, fewer are not"""
    rng = m.rng
    cl = gen.classes()
    for _ in range(90 if not m.thorough else 400):
        f = str(rng.choice(['clayton', 'frank', 'gumbel', 'gaussian', 'student']))
        d = int(rng.integers(3, 6))
        x = np.sort(rng.random((d, d)), axis=0)
        for j in range(d):  # every column swaps a different pair of neighbours, or none: Kendall's tau inside (0, 1)
            if j < d - 1:
                x[[j, j + 1], j] = x[[j + 1, j], j]
        tau = np.array([[stats.kendalltau(x[:, i], x[:, j])[0] for j in range(d)] for i in range(d)])
        tau = ref.rhos_of(tau)
        if not (.05 < tau.min() and tau.max() < .999):
            continue
        if f not in gen.ARCH and np.linalg.eigvalsh(ref.sigma_of(np.sin(np.pi * tau / 2))).min() < .01:
            continue
        c = cl[f](dim=d)
        m.case('few rows', f, d, x.tolist())
        r = m.call(c.fit, x, method='itau', verbose=0)
        if isinstance(r, Raised):
            m.fail(f'{f} fit of as many observations as dimensions: unexpected exception', error=repr(r), d=d, x=x)
        else:
            want = np.mean(cl[f](dim=d).itau(tau)) if f in gen.ARCH else None
            if want is not None:
                m.close(_params(c), [want], f'{f} fit of as many observations as dimensions', rtol=1e-6, d=d, x=x)
        m.raises(f'{f} fit of fewer observations than dimensions', ValueError, cl[f](dim=d).fit, x[:d - 1], method='itau',
                 verbose=0)


@scenario(P, shards={'quick': 1, 'thorough': 6}, min_events=20)
def starting_point(m):
    """a monitor on the density records the parameters the optimizer visits: the search begins at the given x0"""
    rng = m.rng
    cl = gen.classes()
    for _ in range(50 if not m.thorough else 200):
        f = str(rng.choice(['clayton', 'frank', 'gumbel', 'gaussian', 'student']))
        d = int(rng.choice([2, 3]))
        z, spec = _data(rng, f, d, 80)
        c = cl[f](dim=d) if f in gen.ARCH else cl[f](d)
        if f in gen.ARCH:
            x0 = float(rng.uniform(1.3, 3))
            x0 = [x0, np.float64(x0), int(round(x0)) + 1][int(rng.integers(3))]
        else:
            S = gen.rand_corr(rng, d)
            if np.linalg.eigvalsh(S).min() < 0.1:
                continue
            x0 = ref.rhos_of(S)
            if f == 'student':
                x0 = np.r_[float(rng.uniform(3, 9)), x0]
        if f in ('frank', 'gaussian', 'student') and rng.random() < .35:  # independence
            x0 = {'frank': 0., 'gaussian': np.zeros(d * (d - 1) // 2), 'student': np.r_[5., np.zeros(d * (d - 1) // 2)]}[f]
        elif f not in gen.ARCH and np.min(np.abs(np.asarray(x0, float))) < 1e-3:
            continue
        if f not in gen.ARCH:
            x0 = x0.tolist() if rng.random() < 0.5 else x0
        keep = np.array(x0, float, copy=True)
        seen = []

        def spy(fn):
            def call(*a, **k):
                seen.append(_params(c).copy())
                return fn(*a, **k)
            return call

        c.pdf, c.log_lik = spy(c.pdf), spy(c.log_lik)
        m.case('start', f, d, np.atleast_1d(keep).tolist())
        r = m.call(c.fit, z, x0=x0, verbose=0)
        if isinstance(r, Raised):
            m.fail(f'{f} fit from a starting point: unexpected exception', error=repr(r), tb=r.tb[-1200:], x0=keep)
            continue
        m.count('parameters visited', len(seen))
        if not seen:
            m.count('search not observed')
            continue
        gap = min(np.abs(s - keep).max() if s.shape == np.atleast_1d(keep).shape else np.inf for s in seen)
        m.ok(gap < 1e-6, f'{f} fit: the search does not visit the starting point it is given', x0=keep,
             first=seen[:3], gap=gap, d=d)
        m.ok(np.array_equal(np.array(x0, float), keep), f'{f} fit: the starting point is changed', x0=x0)


@scenario(P, shards={'quick': 1, 'thorough': 8}, weight=2)
def student_fixed_df(m):
    rng = m.rng
    from copulae import StudentCopula
    for _ in range(24 if not m.thorough else 80):
        d = int(rng.choice([2, 2, 3]))
        z, spec = _data(rng, 'student', d, 150)
        df = float(rng.uniform(2, 15))
        c = StudentCopula(d, df)
        opts = {} if rng.random() < 0.5 else {'options': {'maxiter': 3000}}
        if rng.random() < .4:  # constraints of the caller, which hold besides
            con = {'type': 'ineq', 'fun': lambda p: 2 - p[1]}
            opts['constraints'] = [con, [con], (con, {'type': 'ineq', 'fun': lambda p: p[1] + 2})][rng.integers(3)]
        keep = repr(opts)
        m.case('fix_df', d, df, spec['df'])
        r = m.call(c.fit, z, verbose=0, fix_df=True, optim_options=opts)
        if isinstance(r, Raised):
            m.fail('student fix_df: unexpected exception', error=repr(r), tb=r.tb[-1200:])
            continue
        m.close(c.params.df, df, 'student fix_df: the degrees of freedom change', rtol=1e-5, d=d, df=df)
        m.ok(repr(opts) == keep, 'student fix_df: the caller\'s options change', opts=repr(opts))
        u = ref.pobs(z)
        ll = c.log_lik(u, to_pobs=False)
        g = StudentCopula(d, df)
        for e in (-.1, .1):
            q = np.r_[df, np.clip(c.params.rho + e, -.99, .99)]
            if np.linalg.eigvalsh(ref.sigma_of(q[1:])).min() < 1e-6:
                continue
            g.params = q
            m.ok(ll >= g.log_lik(u, to_pobs=False) - 0.05, 'student fix_df: other correlations have a higher likelihood',
                 d=d, df=df, e=e)


@scenario(P, shards={'quick': 1, 'thorough': 8})
def not_converged(m):
    """a fit that is stopped early leaves the copula in a valid state: its previous parameters"""
    rng = m.rng
    cl = gen.classes()
    for _ in range(30 if not m.thorough else 250):
        f = str(rng.choice(['clayton', 'frank', 'gumbel', 'gaussian', 'student']))
        d = int(rng.choice([2, 3]))
        z, _ = _data(rng, f, d, 60)
        c, spec = gen.make(rng, f, d, strong=0.8)
        before = _params(c).copy()
        if f in gen.ARCH:
            x0 = float(before[0]) + 0.5 if rng.random() < 0.5 else None
            opt = {'options': {'maxiter': int(rng.choice([1, 2]))}}
        else:
            x0 = None
            opt = {'options': {'maxiter': 1}}
        m.case('stopped', f, d, before.tolist())
        r = m.call(c.fit, z, x0=x0, verbose=0, optim_options=opt)
        if isinstance(r, Raised):
            m.fail(f'{f} stopped fit: unexpected exception', error=repr(r), tb=r.tb[-1200:], d=d)
            continue
        s = c.summary('fit')
        if s.results['success']:
            m.count('converged')
            continue
        m.count('stopped')
        m.close(_params(c), before, f'{f}: a fit that does not converge changes the parameters', rtol=1e-12, d=d)
        m.ok(np.all(np.isnan(np.atleast_1d(np.asarray(s.params, float)))),
             f'{f}: the estimate of a fit that does not converge is not NaN', params=s.params)


@scenario(P, shards={'quick': 1, 'thorough': 6}, min_events=30)
def own_options(m):
    """the settings the caller gives to the optimizer are those it works with"""
    rng = m.rng
    cl = gen.classes()
    for _ in range(60 if not m.thorough else 400):
        f = str(rng.choice(['clayton', 'frank', 'gumbel', 'gaussian', 'student']))
        d = int(rng.choice([2, 3]))
        z, spec = _data(rng, f, d, 60)
        meth = str(rng.choice(['Nelder-Mead', 'nelder-mead', 'BFGS', 'bfgs', 'SLSQP', 'L-BFGS-B', 'trust-constr', 'CG']))
        c = cl[f](dim=d)
        limit = int(rng.choice([1, 2, 4, 7]))
        opt = {'method': meth, 'options': {'maxiter': limit}}
        x0 = None
        if f in gen.ARCH:
            x0 = {'clayton': 4., 'frank': 12., 'gumbel': 4.}[f] + float(rng.random())
        m.case('maxiter', f, d, meth, limit, x0)
        r = m.call(c.fit, z, x0=x0, verbose=0, optim_options=opt)
        if isinstance(r, Raised):
            if meth in ('Nelder-Mead', 'nelder-mead', 'SLSQP'):
                m.fail(f'{f} fit: unexpected exception', error=repr(r), tb=r.tb[-1200:], d=d, opt=opt)
            else:
                m.count('rejected')  # not every optimizer can deal with every start
            continue
        s = c.summary('fit')
        res = s.results
        m.ok(res['nit'] <= limit, f'{f} fit: more iterations than the caller allowed', nit=res['nit'], allowed=limit, method=meth)
        m.ok(s.setup['options']['maxiter'] == limit and s.setup['method'] == meth, f'{f} fit: the settings reported are not those '
             'of the caller', setup=repr(s.setup), opt=opt)
        m.count('optimizer runs')
        m.count(f'optimizer {meth.casefold()}')


@scenario(P, shards={'quick': 1, 'thorough': 4})
def rejected(m):
    """unusable data and options are rejected and leave the copula as it was"""
    rng = m.rng
    cl = gen.classes()
    from copulae.copula.exceptions import InputDataError
    REJ = (ValueError, InputDataError, NotImplementedError, AssertionError, TypeError)
    for _ in range(80 if not m.thorough else 500):
        f = str(rng.choice(['clayton', 'frank', 'gumbel', 'gaussian', 'student']))
        d = int(rng.choice([2, 3]))
        z, _ = _data(rng, f, d, 30)
        c, spec = gen.make(rng, f, d, strong=0.8)
        before = _params(c).copy()
        bad = z.copy()
        bad[:, 0] *= 1000
        bads = {
            'too many columns': lambda: c.fit(np.hstack([z, z]), verbose=0),
            'too few columns': lambda: c.fit(z[:, :1], verbose=0),
            'vector': lambda: c.fit(z[:, 0], verbose=0),
            'above 1': lambda: c.fit(np.abs(z) + 1.01, to_pobs=False, verbose=0),
            'below 0': lambda: c.fit(-np.abs(z) - 0.01, to_pobs=False, verbose=0),
            'one value below 0': lambda: c.fit(np.where(np.arange(30 * d).reshape(30, d) == 7, -0.2, ref.pobs(z)),
                                                to_pobs=False, verbose=0),
            'one value above 1': lambda: c.fit(np.where(np.arange(30 * d).reshape(30, d) == 8, 1.2, ref.pobs(z)),
                                                to_pobs=False, verbose=0),
            'too few rows': lambda: c.fit(z[:d - 1], verbose=0),
            'method': lambda: c.fit(z, method='no such method', verbose=0),
            'ties': lambda: c.fit(z, ties='no such ties', verbose=0),
            'nan': lambda: c.fit(np.where(np.arange(30 * d).reshape(30, d) == 8, np.nan, ref.pobs(z)), to_pobs=False,
                                 verbose=0),
            'optimizer': lambda: c.fit(z, optim_options={'method': 'no such optimizer'}, verbose=0),
        }
        maybe = {  # data with which some families cannot cope
            'constant column': lambda: c.fit(np.column_stack([np.ones(30), z[:, 1:]]), verbose=0),
            'constant data': lambda: c.fit(np.ones((30, d)), verbose=0),
            'perfect dependence': lambda: c.fit(np.repeat(z[:, :1], d, axis=1), verbose=0),
            'perfect negative dependence': lambda: c.fit(np.column_stack([-z[:, 0], *[z[:, 0]] * (d - 1)]), verbose=0),
            'inversion of a constant column':
                lambda: c.fit(np.column_stack([np.ones(30), z[:, 1:]]), method='itau', verbose=0),
            'inversion of perfect negative dependence':
                lambda: c.fit(np.column_stack([-z[:, 0], *[z[:, 0]] * (d - 1)]), method='itau', verbose=0),
            'inversion by rho': lambda: c.fit(z, method='irho', verbose=0),
        }
        name = str(rng.choice(sorted(bads) + sorted(maybe)))
        m.case('rejected', f, d, name)
        if name in maybe:
            if not isinstance(m.call(maybe[name]), Raised):
                m.count('degenerate data accepted')
                continue
            m.count('degenerate data refused')
        else:
            m.raises(f'fit, {name}', REJ, bads[name])
        m.close(_params(c), before, f'a rejected fit ({name}) changes the parameters', rtol=0, family=f)
