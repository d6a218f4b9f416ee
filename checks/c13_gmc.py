"""One case = one evaluation, sample, parameter round trip or fit of a Gaussian mixture copula, compared with the Gaussian
mixture it is built from. Non-trivial = distinct (mixture parameters, query, point or data)."""
import numpy as np
import pandas as pd
from scipy import stats
from scipy.optimize import brentq
from scipy.special import logsumexp, ndtr

from vlib import gen, ref
from vlib.core import Raised, scenario

P = 'C13'
ASSUMPTIONS = ['marginal probabilities of the library follow Abramowitz & Stegun 7.1.25 (documented, error 2.5e-5), its '
               'marginal quantiles are interpolated on a grid', 'normal probabilities in 3 or more dimensions are '
               'quasi-Monte-Carlo: compared within 3e-4']


def mixture(rng, k, d, spread=3.):
    par = gen.rand_mixture(rng, k, d)
    par['means'] = par['means'] * spread / 3
    for i in range(k):  # components without correlation, with equal variances, of unit variance
        t = rng.random()
        if t < .15:
            par['covs'][i] = np.diag(np.diag(par['covs'][i]))
        elif t < .2:
            par['covs'][i] = np.eye(d) * par['covs'][i][0, 0]
        elif t < .25:
            par['covs'][i] = np.eye(d)
    if rng.random() < .1:
        par['means'][:] = par['means'][0]
    if rng.random() < .1:
        par['prob'][:] = 1 / k
    elif k > 1 and rng.random() < .15:  # a component that is hardly ever drawn
        par['prob'][0] = 10 ** rng.uniform(-6, -2)
        par['prob'][1:] *= (1 - par['prob'][0]) / par['prob'][1:].sum()
    return par


def logpdf(x, par):
    out = []
    for p, mu, S in zip(par['prob'], par['means'], par['covs']):
        L = np.linalg.cholesky(S)
        z = np.linalg.solve(L, (np.atleast_2d(x) - mu).T)
        out.append(np.log(p) - 0.5 * (z ** 2).sum(0) - np.log(np.diag(L)).sum() - len(mu) / 2 * np.log(2 * np.pi))
    return logsumexp(out, axis=0)


def cdf(x, par):
    out = np.zeros(len(x))
    for p, mu, S in zip(par['prob'], par['means'], par['covs']):
        s = np.sqrt(np.diag(S))
        z = (x - mu) / s
        if len(mu) == 2:
            out += p * np.array([ref.bvn_cdf(*r, S[0, 1] / s[0] / s[1]) for r in z])
        else:
            R = S / np.outer(s, s)
            out += p * np.array([stats.multivariate_normal.cdf(r, cov=R, maxpts=400000) for r in z])
    return out


def margin_cdf(x, par, j):
    s = np.sqrt(par['covs'][:, j, j])
    return ndtr((np.asarray(x)[..., None] - par['means'][:, j]) / s) @ par['prob']


def margin_ppf(q, par, j):
    s = np.sqrt(par['covs'][:, j, j])
    lo, hi = (par['means'][:, j] - 12 * s).min(), (par['means'][:, j] + 12 * s).max()
    return np.array([brentq(lambda t: margin_cdf(t, par, j) - v, lo, hi, xtol=1e-12) for v in q])


def set_params(rng, c, par, k, d):
    """one of the ways to give a mixture its parameters"""
    from copulae.mixtures.gmc.parameter import GMCParam
    how = int(rng.integers(6))
    if how == 0:
        return c.GaussianMixtureCopula(k, d, {n: np.array(v) for n, v in par.items()})
    if how == 1:
        return c.GaussianMixtureCopula(k, d, {n: np.asarray(v).tolist() for n, v in par.items()})
    if how == 2:
        return c.GaussianMixtureCopula(k, d, GMCParam(k, d, par['prob'], par['means'], par['covs']))
    cop = c.GaussianMixtureCopula(k, d)
    if how == 3:
        cop.params = {n: np.array(v) for n, v in par.items()}
    elif how == 4:
        cop.params = GMCParam(n_clusters=k, n_dim=d, prob=par['prob'].tolist(), means=par['means'].tolist(),
                              covs=par['covs'].tolist())
    else:
        cop.params = GMCParam.from_dict(par)
    return cop


@scenario(P, shards={'quick': 2, 'thorough': 16}, weight=2)
def distribution(m):
    import copulae as c
    rng = m.rng
    for _ in range(70 if not m.thorough else 500):
        k, d = int(rng.integers(1, 5)), int(rng.choice([2, 2, 3, 4]))
        par = mixture(rng, k, d)
        cop = m.must('set the parameters', set_params, rng, c, par, k, d)
        if cop is None:
            continue
        m.ok(cop.dim == d and cop.clusters == k, 'dimension and clusters')
        p = cop.params
        for n in ('prob', 'means', 'covs'):
            m.close(np.asarray(getattr(p, n)), par[n], f'params: {n} differ from what was set', rtol=1e-13, atol=1e-15)
        x = par['means'][rng.integers(0, k, 6)] + rng.normal(size=(6, d)) * 1.5
        x[0] = rng.normal(size=d) * 20
        for r in x:
            m.case('pdf', k, d, par, r.tolist())
        lp = logpdf(x, par)
        m.close(m.call(cop.pdf, x), np.exp(lp), 'pdf is not the density of the mixture', rtol=1e-8, atol=1e-300, par=par, x=x)
        m.close(m.call(cop.pdf, x, log=True), lp, 'log pdf is not the log density of the mixture', rtol=1e-8, atol=1e-8,
                par=par, x=x)
        w = cdf(x, par)
        at = 1e-6 if d == 2 else 3e-4
        m.close(m.call(cop.cdf, x), w, 'cdf is not the distribution function of the mixture', rtol=1e-6, atol=at, par=par, x=x)
        big = w > 0.05
        g = m.call(cop.cdf, x, log=True)
        if isinstance(g, Raised):
            m.fail('log cdf raises', error=repr(g))
        else:
            m.close(np.asarray(g)[big], np.log(w[big]), 'log cdf', rtol=1e-6, atol=20 * at, par=par, x=x)
        # the order of the components is immaterial
        q = rng.permutation(k)
        cop2 = c.GaussianMixtureCopula(k, d, {'prob': par['prob'][q], 'means': par['means'][q], 'covs': par['covs'][q]})
        m.close(m.call(cop2.pdf, x), np.exp(lp), 'pdf depends on the order of the components', rtol=1e-8, atol=1e-300)
        # so is splitting a component into two equal ones
        j = int(rng.integers(k))
        pr = np.r_[par['prob'], par['prob'][j] / 2]
        pr[j] /= 2
        cop3 = c.GaussianMixtureCopula(k + 1, d, {'prob': pr, 'means': np.vstack([par['means'], par['means'][j]]),
                                                 'covs': np.concatenate([par['covs'], par['covs'][j:j + 1]])})
        m.close(m.call(cop3.pdf, x), np.exp(lp), 'pdf changes when a component is split', rtol=1e-8, atol=1e-300)


@scenario(P, shards={'quick': 2, 'thorough': 16}, weight=3)
def sampling(m):
    """samples are on the copula scale: uniform margins, and the mixture's joint probabilities at its marginal quantiles"""
    import copulae as c
    rng = m.rng
    for _ in range(14 if not m.thorough else 80):
        k, d = int(rng.integers(1, 4)), int(rng.choice([2, 2, 3]))
        par = mixture(rng, k, d)
        if rng.random() < .3:  # weights written with a few decimals, which do not quite sum to 1
            par['prob'] = np.floor(par['prob'] * 1e6) / 1e6
        cop = set_params(rng, c, par, k, d)
        n = 20000
        u = m.must('random', cop.random, n, int(rng.integers(1e6)))
        if u is None:
            continue
        u = np.asarray(u)
        m.case('random', k, d, par)
        if not m.ok(u.shape == (n, d) and (u >= 0).all() and (u <= 1).all(), 'random: shape or range', shape=u.shape):
            continue
        for j in range(d):
            # the documented approximation of the margins moves probabilities by up to 2.5e-5
            D = stats.kstest(u[:, j], 'uniform').statistic
            m.ok(D < 3.6 / np.sqrt(n) + 5e-5, 'random: margins are not uniform', D=D, par=par)
        for _ in range(5):
            a = rng.uniform(0.1, 0.9, d)
            q = np.array([margin_ppf([a[j]], par, j)[0] for j in range(d)])
            p = cdf(q[None], par)[0]
            f = (u <= a).all(1).mean()
            sd = np.sqrt(max(p * (1 - p), 1 / n) / n)
            m.ok(abs(f - p) < 7 * sd + 6e-4, 'random: joint probabilities', a=a, p=p, f=f, par=par)
            m.count('joint probabilities')
        # successive draws are independent of their position: components are not drawn in blocks
        r = stats.spearmanr(u[:-1, 0], u[1:, 0]).statistic
        m.ok(abs(r) < 7 / np.sqrt(n), 'random: successive observations are dependent', r=r)
        for n in (1, 2, 5):
            m.ok(np.shape(m.call(cop.random, n)) == (n, d), 'random: shape of a small sample', n=n)
            m.case('small', n, d, k)


@scenario(P, shards={'quick': 1, 'thorough': 8})
def parameters(m):
    import copulae as c
    from copulae.mixtures.gmc.exception import GMCNotFittedError, GMCParamError, GMCParamMismatchError
    from copulae.mixtures.gmc.parameter import GMCParam
    rng = m.rng
    for _ in range(120 if not m.thorough else 1000):
        k, d = int(rng.integers(1, 5)), int(rng.integers(2, 5))
        par = mixture(rng, k, d)
        p = GMCParam.from_dict(par)
        m.case('vector', k, d, par)
        v = m.must('to_vector', p.to_vector)
        if v is None:
            continue
        v = np.asarray(v)
        m.ok(v.shape == (k + k * d + k * d * (d + 1) // 2,), 'to_vector: length', shape=v.shape)
        keep = v.copy()
        q = m.must('from_vector', GMCParam.from_vector, v, k, d)
        m.close(v, keep, 'from_vector changes its argument', rtol=0)
        if q is None:
            continue
        for nme in ('prob', 'means', 'covs'):
            m.close(getattr(q, nme), par[nme], f'vector round trip: {nme}', rtol=1e-4 if k == 1 else 1e-9, atol=1e-9)
            m.close(getattr(p, nme), par[nme], f'to_vector changes {nme}', rtol=0)
        m.ok(abs(q.prob.sum() - 1) < 1e-12, 'from_vector: probabilities do not sum to one', prob=q.prob)
        if k > 1 and rng.random() < 0.4:  # components without weight
            pr = np.zeros(k)
            if rng.random() < 0.5 or k == 2:
                pr[rng.integers(k)] = 1.
            else:
                pr[rng.permutation(k)[:k - 1]] = 1 / (k - 1)
            v0 = m.must('to_vector of a mixture with an empty component',
                        GMCParam(k, d, pr, par['means'], par['covs']).to_vector)
            if v0 is not None:
                m.count('empty component')
                m.ok(np.isfinite(v0).all(), 'to_vector: not finite', prob=pr, vector=v0)
                q0 = GMCParam.from_vector(v0, k, d)
                m.close(q0.prob, pr, 'vector round trip: prob with an empty component', rtol=0, atol=1e-3)
                m.close(q0.means, par['means'], 'vector round trip: means with an empty component', rtol=1e-12)
        cop = c.GaussianMixtureCopula(k, d, v)
        for nme in ('prob', 'means', 'covs'):
            m.close(getattr(cop.params, nme), par[nme], f'parameters from a vector: {nme}', rtol=1e-4 if k == 1 else 1e-9,
                    atol=1e-9)
        m.ok(isinstance(str(p), str) and isinstance(repr(p), str), 'printing parameters')
        w = list(p)
        m.ok(len(w) == k and all(np.array_equal(a, b) for t, s in zip(w, zip(par['prob'], par['means'], par['covs']))
                                 for a, b in zip(t, s)), 'iterating over the components')
        # rejected parameters leave the copula unchanged
        other = mixture(rng, k + 1, d)
        bad = {
            'clusters': (lambda: setattr(cop, 'params', GMCParam.from_dict(other)), GMCParamMismatchError),
            'dimension': (lambda: setattr(cop, 'params', GMCParam.from_dict(mixture(rng, k, d + 1))), GMCParamMismatchError),
            'prob sum': (lambda: GMCParam(k, d, par['prob'] * 0.9, par['means'], par['covs']), GMCParamError),
            'prob sum, nearly 1': (lambda: GMCParam(k, d, par['prob'] + float(rng.choice([-8e-3, 3e-4, 2e-3, 8e-3])) / k, par['means'],
                                                    par['covs']), GMCParamError),
            'prob length': (lambda: GMCParam(k, d, np.r_[par['prob'], 0], par['means'], par['covs']), GMCParamError),
            'prob range': (lambda: GMCParam(k + 1, d, np.r_[par['prob'] + 0.5 / k, -0.5], other['means'], other['covs']),
                           GMCParamError),
            'means shape': (lambda: GMCParam(k, d, par['prob'], par['means'][:, :-1], par['covs']), GMCParamError),
            'covs shape': (lambda: GMCParam(k, d, par['prob'], par['means'], par['covs'][:, :-1]), GMCParamError),
            'text': (lambda: setattr(cop, 'params', 'bad param'), GMCParamMismatchError),
        }
        nme = str(rng.choice(sorted(bad)))
        m.raises('parameters rejected: ' + nme, bad[nme][1], bad[nme][0])
        m.close(cop.params.means, par['means'], 'parameters changed by a rejected assignment', rtol=1e-9, atol=1e-9)
        # indefinite covariances are replaced by positive semidefinite ones with the same variances
        S = par['covs'].copy()
        S[0] = np.full((d, d), -1.) + np.diag(np.full(d, 2.))
        if d > 2:
            r = GMCParam(k, d, par['prob'], par['means'], S)
            m.ok((np.linalg.eigvalsh(r.covs[0]) > -1e-8).all(), 'indefinite covariance matrix is kept', S=r.covs[0])
            m.close(np.diag(r.covs[0]), np.diag(S[0]), 'variances of a repaired covariance matrix', rtol=1e-6)
        e = c.GaussianMixtureCopula(k, d)
        m.ok(e.params is None, 'no parameters by default')
        for f in (lambda: e.pdf(par['means']), lambda: e.cdf(par['means']), lambda: e.random(3)):
            m.raises('query without parameters', GMCNotFittedError, f)


def gmcm_loglik(u, par):
    q = np.column_stack([margin_ppf(u[:, j], par, j) for j in range(u.shape[1])])
    s = np.sqrt([np.diag(S) for S in par['covs']])
    out = logpdf(q, par)
    for j in range(u.shape[1]):
        out = out - logsumexp(stats.norm.logpdf(q[:, j][:, None], par['means'][:, j], s[:, j]) + np.log(par['prob']), axis=1)
    return out.sum()


@scenario(P, shards={'quick': 4, 'thorough': 24}, weight=5)
def fitting(m):
    import copulae as c
    from copulae.mixtures.gmc.estimators.exceptions import FitException
    from copulae.mixtures.gmc.parameter import GMCParam
    rng = m.rng
    for it in range(8 if not m.thorough else 40):
        k, d = int(rng.integers(2, 4)), 2
        means = np.array([[0., 0.], [7., 6.], [-7., 7.]])[:k] + rng.normal(size=(k, d))
        par = mixture(rng, k, d)
        par['means'] = means
        n = 150
        par['prob'] = np.maximum(par['prob'], 0.2)
        par['prob'] /= par['prob'].sum()
        z = rng.choice(k, n, p=par['prob'])
        z[:2 * k * 5] = np.repeat(np.arange(k), 10)
        X = np.array([rng.multivariate_normal(means[i], par['covs'][i]) for i in z])
        frame = rng.random() < 0.4
        data = pd.DataFrame(X, columns=['q', 'p']) if frame else X
        method = ['kmeans', 'pem', 'pem', 'sgd'][(it + m.shard) % 4]
        crit = str(rng.choice(['GMCM', 'GMM', 'Li']))
        cop = c.GaussianMixtureCopula(k, d)
        u = c.pseudo_obs(X)
        kw = {}
        start = None
        if method != 'kmeans' and rng.random() < 0.6:
            start = {'prob': np.full(k, 1 / k), 'means': means + rng.normal(size=(k, d)) * 0.3, 'covs': np.array([np.eye(d)] * k)}
            x0 = GMCParam.from_dict(start)
            kw['x0'] = x0 if rng.random() < 0.5 else x0.to_vector()
        if method == 'pem':
            kw.update(criteria=crit, max_iter=60)
        elif method == 'sgd':
            kw.update(max_iter=150)
        m.case('fit', method, crit, k, X.tolist())
        np.random.seed(int(rng.integers(1e6)))
        r = m.call(cop.fit, data, method=method, verbose=0, **kw)
        if isinstance(r, Raised):
            if not isinstance(r.exc, FitException):
                m.fail(f'{method} fit raises', error=repr(r), tb=r.tb[-1200:])
            continue
        m.ok(r is cop, 'fit does not return the copula')
        p = cop.params
        fit = {'prob': np.array(p.prob), 'means': np.array(p.means), 'covs': np.array(p.covs)}
        m.ok(abs(fit['prob'].sum() - 1) < 1e-9 and (fit['prob'] >= 0).all() and all(np.isfinite(v).all() for v in
                                                                                 fit.values()), 'fit: invalid parameters')
        m.ok(all((np.linalg.eigvalsh(S) > -1e-9).all() for S in fit['covs']), 'fit: covariance is not positive semidefinite')
        if method == 'kmeans':
            # well separated clusters: each found cluster's statistics are those of a subset of the data
            tot = (fit['prob'][:, None] * fit['means']).sum(0)
            m.close(tot, X.mean(0), 'kmeans: the mixture mean is not the data mean', rtol=1e-7, atol=1e-8)
            w = np.round(fit['prob'] * n)
            m.close(fit['prob'] * n, w, 'kmeans: probabilities are no shares of the data', rtol=1e-9)
            B = sum(p_ * np.outer(mu - tot, mu - tot) for p_, mu in zip(fit['prob'], fit['means']))
            W = sum((nn - 1) / n * S for nn, S in zip(w, fit['covs']))
            m.close(W + B, np.cov(X, rowvar=False, bias=True), 'kmeans: within and between covariance do not add up to the '
                    'covariance of the data', rtol=1e-6, atol=1e-7)
        else:
            ll = m.must('reference likelihood', gmcm_loglik, u, fit)
            sm = cop.summary('fit')
            det = getattr(sm, 'setup', {}) or {}
            rep = det.get('Log. Likelihood') if method == 'pem' else (-det['Fn. Value'] if 'Fn. Value' in det else None)
            if ll is not None and rep is not None:
                m.close(float(rep), ll, f'{method}: reported log likelihood', rtol=2e-2, atol=2.0, par=fit)
            if start is not None and ll is not None and (method == 'sgd' or crit != 'GMM'):
                l0 = gmcm_loglik(u, start)
                m.ok(ll >= l0 - 1.0, f'{method}: the fit has a lower likelihood than its starting point', l0=l0, ll=ll,
                     crit=crit)
                m.count('likelihood compared with start')
        if frame:
            s = cop.random(3)
            m.ok(isinstance(s, pd.DataFrame) and list(s.columns) == ['q', 'p'], 'labels after a fit to named columns')
            m.close(m.call(cop.pdf, data[['p', 'q']].head(3)), np.asarray(cop.pdf(X[:3])),
                    'named columns are not matched by name', rtol=1e-9)
        m.ok(isinstance(str(cop.summary()), str) and isinstance(cop.summary().as_html(), str), 'summary')
        with np.errstate(all='ignore'):
            m.close(m.call(cop.pdf, X[:5]), np.exp(logpdf(X[:5], fit)), 'pdf after the fit', rtol=1e-6, atol=1e-300)
        for bad in ('ml', 'em'):
            m.raises('unknown fit method', Exception, c.GaussianMixtureCopula(k, d).fit, X, method=bad)


@scenario(P, shards={'quick': 1, 'thorough': 8}, weight=2)
def iterates(m):
    """the estimate of the expectation maximization is the best iterate: its likelihood is the one that is reported, and more
    iterations never give a worse one"""
    import copulae as c
    from copulae.mixtures.gmc.parameter import GMCParam
    rng = m.rng
    try:
        from copulae.mixtures.gmc.loglik import gmcm_log_likelihood
    except ImportError:
        gmcm_log_likelihood = None
    for it in range(20 if not m.thorough else 80):
        k, d = int(rng.integers(2, 5)), int(rng.choice([2, 2, 3]))
        n = int(rng.choice([60, 150]))
        par = mixture(rng, k, d, float(rng.choice([1, 2, 4])))
        z = rng.choice(k, n, p=par['prob'])
        X = np.array([rng.multivariate_normal(par['means'][i], par['covs'][i]) for i in z])
        u = c.pseudo_obs(X)
        # a poor start
        x0 = GMCParam.from_dict({'prob': rng.dirichlet(np.ones(k) * 3), 'means': rng.normal(size=(k, d)) * rng.choice([1, 3]),
                                 'covs': np.array([np.diag(rng.uniform(.5, 3, d)) for _ in range(k)])})
        crit = str(rng.choice(['GMCM', 'GMCM', 'Li', 'GMM']))
        last = -np.inf
        for steps in (1, 2, 3, 5, 9, 20):
            cop = c.GaussianMixtureCopula(k, d)
            m.case('iterates', k, d, n, crit, steps, it, X[0].tolist())
            r = m.call(cop.fit, X, x0=x0, method='pem', criteria=crit, max_iter=steps, verbose=0)
            if isinstance(r, Raised):
                m.count('fit refused')
                break
            rep = (getattr(cop.summary('fit'), 'setup', {}) or {}).get('Log. Likelihood')
            if rep is None or not np.isfinite(rep):
                m.count('no likelihood')
                continue
            if gmcm_log_likelihood is not None:
                m.close(m.call(gmcm_log_likelihood, u, cop.params), float(rep), 'pem: the reported likelihood is not that of the '
                        'estimate', rtol=1e-7, atol=1e-6, steps=steps, crit=crit, k=k)
            else:
                fit = {v: np.array(getattr(cop.params, v)) for v in ('prob', 'means', 'covs')}
                m.close(float(rep), gmcm_loglik(u, fit), 'pem: the reported likelihood is not that of the estimate', rtol=2e-2,
                        atol=2., steps=steps, crit=crit, k=k)
            if crit != 'GMM':
                m.ok(rep >= last - 1e-7, 'pem: more iterations give a worse estimate', before=last, after=rep, steps=steps, k=k)
                last = max(last, rep)
            m.count('iterates compared')


@scenario(P, shards={'quick': 1, 'thorough': 6}, weight=2)
def convergence(m):
    """with the criterion GMCM the iterations end where the likelihood changes by less than eps, and the best of them is the estimate"""
    import copulae as c
    from copulae.mixtures.gmc.parameter import GMCParam
    try:
        from copulae.mixtures.gmc.loglik import gmcm_log_likelihood
    except ImportError:
        m.count('no likelihood function')
        return
    rng = m.rng

    def fit(X, k, x0, **kw):
        cop = c.GaussianMixtureCopula(k, X.shape[1])
        if isinstance(m.call(cop.fit, X, x0=x0, method='pem', verbose=0, **kw), Raised):
            return None
        return cop

    for it in range(12 if not m.thorough else 60):
        k, d, n = int(rng.integers(2, 4)), 2, int(rng.choice([60, 120]))
        par = mixture(rng, k, d, float(rng.choice([1, 2, 4])))
        X = np.array([rng.multivariate_normal(par['means'][i], par['covs'][i]) for i in rng.choice(k, n, p=par['prob'])])
        u = c.pseudo_obs(X)
        x0 = GMCParam.from_dict({'prob': rng.dirichlet(np.ones(k) * 3), 'means': rng.normal(size=(k, d)),
                                 'covs': np.array([np.diag(rng.uniform(.5, 3, d)) for _ in range(k)])})
        trace = [float(gmcm_log_likelihood(u, x0))]
        for steps in range(1, 13):  # this criterion, which is never met, gives the last iterate
            cop = fit(X, k, x0, criteria='GMM', eps=0., max_iter=steps)
            if cop is None:
                break
            trace.append(float(gmcm_log_likelihood(u, cop.params)))
        trace = np.array(trace)
        if len(trace) < 13 or not np.isfinite(trace).all():
            m.count('no trace')
            continue
        step = np.abs(np.diff(trace))
        for eps in (np.inf, *(np.sort(step)[[2, 5, 8]] * (1 + 1e-6))):
            cop = fit(X, k, x0, criteria='GMCM', eps=float(eps), max_iter=12)
            if cop is None:
                continue
            end = int(np.argmax(step < eps)) + 1
            m.case('convergence', it, X[0].tolist(), float(eps), end)
            m.close(float(gmcm_log_likelihood(u, cop.params)), trace[:end + 1].max(), 'pem: not the best of the iterations up to convergence',
                    rtol=1e-9, atol=1e-9, trace=trace, eps=eps, end=end)
            m.count('convergence checked')
            # the summary tells whether the criterion was met, or the iterations were used up
            for limit, met in ((12, bool((step < eps).any())), (end, bool(step[end - 1] < eps)), (end - 1, False)):
                if limit < 1 or isinstance(m.call(cop.fit, X, x0=x0, method='pem', verbose=0, criteria='GMCM', eps=float(eps), max_iter=limit), Raised):
                    continue
                said = getattr(m.call(cop.summary, 'fit'), 'has_converged', None)
                if said is not None:
                    m.ok(bool(said) == met, 'pem: wrong statement of whether the fit converged', said=said, limit=limit, eps=eps, trace=trace)
                    m.count('convergence stated')


@scenario(P, shards={'quick': 1, 'thorough': 8}, weight=2)
def fits_to_ties(m):
    """the rule for ties given to a fit is the one it uses"""
    import copulae as c
    from copulae.mixtures.gmc.parameter import GMCParam
    rng = m.rng
    for it in range(16 if not m.thorough else 60):
        k, d, n = 2, 2, 120
        means = np.array([[0., 0.], [6., 5.]]) + rng.normal(size=(k, d))
        z = rng.integers(0, k, n)
        X = np.round(means[z] + rng.normal(size=(n, d)))
        ties = ['average', 'min', 'max', 'dense', 'ordinal'][(it + m.shard) % 5]
        method = 'kmeans' if it % 2 else 'pem'
        u = ref.pobs(X, ties)
        m.case('ties', method, ties, X.tolist())
        cop = c.GaussianMixtureCopula(k, d)
        kw = {}
        if method == 'pem':
            start = {'prob': np.full(k, 1 / k), 'means': means, 'covs': np.array([np.eye(d)] * k)}
            kw = {'x0': GMCParam.from_dict(start), 'max_iter': 5, 'criteria': 'GMCM'}
        np.random.seed(int(rng.integers(1e6)))
        r = m.call(cop.fit, X, method=method, ties=ties, verbose=0, **kw)
        if isinstance(r, Raised):
            m.count('fit to ties refused')
            continue
        det = getattr(cop.summary('fit'), 'setup', {}) or {}
        if method == 'kmeans' and 'Inertia' in det:
            total = ((u - u.mean(0)) ** 2).sum()
            m.ok(total * 0.05 < det['Inertia'] < total * (1 + 1e-9), 'kmeans: the ranks are not those of the rule for ties',
                 inertia=det['Inertia'], total=total, ties=ties, X=X)
            m.ok(det.get('ties', ties) == ties, 'kmeans: the reported rule for ties', got=det.get('ties'), want=ties)
            m.count('k-means ranks')
        elif method == 'pem' and 'Log. Likelihood' in det:
            p = cop.params
            ll = gmcm_loglik(u, {'prob': np.array(p.prob), 'means': np.array(p.means), 'covs': np.array(p.covs)})
            if np.isfinite(ll):
                m.close(float(det['Log. Likelihood']), ll, 'pem: reported log likelihood of data with ties', rtol=2e-2,
                        atol=2., ties=ties, X=X)
                m.count('likelihood of tied data')


@scenario(P, shards={'quick': 1, 'thorough': 8})
def marginal_quantiles(m):
    """the margins the estimators and samples rest on: distribution function and quantiles of each coordinate"""
    from copulae.mixtures.gmc.marginals import gmm_marginal_cdf, gmm_marginal_ppf
    from copulae.mixtures.gmc.parameter import GMCParam
    rng = m.rng
    for _ in range(60 if not m.thorough else 500):
        k, d = int(rng.integers(1, 5)), int(rng.integers(2, 5))
        par = mixture(rng, k, d, float(rng.choice([1, 3, 9])))
        if k > 1 and rng.random() < 0.6:  # rare components
            w = rng.choice([.02, .05, .1], k)
            w[rng.integers(k)] += 1 - w.sum()
            par['prob'] = w
        g = GMCParam.from_dict(par)
        n = int(rng.choice([1, 7, 200]))
        x = np.array([rng.multivariate_normal(par['means'][i], par['covs'][i]) for i in rng.choice(k, n, p=par['prob'])])
        u = rng.random((n, d)) * .9998 + .0001
        if n > 7:
            u[:5] = np.array([.001, .01, .5, .99, .999])[:, None]
        m.case('margins', k, d, par['prob'].tolist(), par['means'].tolist(), n)
        p = m.must('marginal probabilities', gmm_marginal_cdf, x, g)
        u0 = u.copy()
        q = m.must('marginal quantiles', gmm_marginal_ppf, u, g)
        if p is None or q is None:
            continue
        m.ok(np.array_equal(u, u0), 'marginal quantiles change their argument')
        for j in range(d):
            m.close(p[:, j], margin_cdf(x[:, j], par, j), 'marginal probabilities', rtol=0, atol=4e-5, par=par, j=j)
            m.close(margin_cdf(q[:, j], par, j), u[:, j], 'marginal quantiles: not the inverse of the distribution function',
                    rtol=0, atol=8e-5 + 4e-6 / par['prob'].min(), par=par, j=j)
        e = np.array([[0.] * d, [1.] * d, [0., 1.] * (d // 2) + [.5] * (d % 2)])
        q = m.must('marginal quantiles', gmm_marginal_ppf, e, g)
        if q is not None:
            m.ok((q[0] == -np.inf).all() and (q[1] == np.inf).all() and q[2, 0] == -np.inf and q[2, 1] == np.inf,
                 'marginal quantiles of 0 and 1', q=q)
        # far out in the tails a quantile still belongs to its own column
        e = np.sort(np.r_[10 ** rng.uniform(-15, -4, 6), .3, .5, 1 - 10 ** rng.uniform(-15, -4, 6)])
        f = 10. ** rng.integers(-3, 4, d)
        wide = {'prob': par['prob'], 'means': par['means'] * f + rng.normal(size=d) * 50,
                'covs': np.array([S * np.outer(f, f) for S in par['covs']])}
        m.case('tail quantiles', k, d, wide['means'].tolist(), e.tolist())
        q = m.must('marginal quantiles', gmm_marginal_ppf, np.repeat(e[:, None], d, 1), GMCParam.from_dict(wide))
        if q is not None:
            sd = np.sqrt(np.array([np.diag(S) for S in wide['covs']]))
            lo, hi = (wide['means'] - 8.5 * sd).min(0), (wide['means'] + 8.5 * sd).max(0)
            m.ok(((q >= lo) & (q <= hi)).all(), 'marginal quantiles: a quantile in the tail lies beyond its column', q=q, lo=lo,
                 hi=hi, u=e, par=wide)
            m.ok((np.diff(q, axis=0) >= -1e-9 * np.abs(q[1:])).all(), 'marginal quantiles decrease', q=q, u=e, par=wide)
        # a component of next to no weight, far from the others
        wt = 10 ** rng.uniform(-4.5, -2)
        far = float(rng.choice([-1, 1])) * rng.uniform(40, 60)
        lone = {'prob': np.array([1 - wt, wt]), 'means': np.array([np.zeros(d), np.full(d, far)]),
                'covs': np.array([gen.rand_corr(rng, d, .8)] * 2)}
        e = wt * rng.uniform(.3, .7, 5)
        e = 1 - e if far > 0 else e
        m.case('rare component', d, wt, far, e.tolist())
        q = m.must('marginal quantiles', gmm_marginal_ppf, np.repeat(e[:, None], d, 1), GMCParam.from_dict(lone))
        if q is not None and wt > 5e-4:  # (the error of the probabilities is 2.5e-5)
            m.ok((np.abs(q - far) < 6).all(), 'marginal quantiles: those of a rare component lie elsewhere', q=q, u=e, par=lone)
        m.raises('marginal quantiles: probability above 1', ValueError, gmm_marginal_ppf, u + 1, g, validate=True)
        m.raises('marginal quantiles: negative probability', ValueError, gmm_marginal_ppf, u - 1, g, validate=True)
