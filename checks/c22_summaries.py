"""One case = one summary (of a copula or of a fit, as text or HTML) of an object with a generated history, parsed and compared
with the object; or one call during which everything written to standard output (from Python or C) is captured. Non-trivial
= distinct (class, history, form)."""
import copy
import os
import re
import sys
import tempfile
import warnings

import numpy as np
import pandas as pd

from vlib import gen
from vlib.core import Raised, scenario

P = 'C22'
ASSUMPTIONS = ['matrices are shown by pandas with at least five significant digits or six decimals']

NUM = r'-?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)'


class Captured:
    """everything written to file descriptor 1 meanwhile"""

    def __enter__(self):
        sys.stdout.flush()
        self.f = tempfile.TemporaryFile()
        self.old = os.dup(1)
        os.dup2(self.f.fileno(), 1)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.old, 1)
        os.close(self.old)
        self.f.seek(0)
        self.text = self.f.read().decode(errors='replace')
        self.f.close()


def numbers(s):
    return np.array([float(x) for x in re.findall(NUM, s)])


def text_of_html(s):
    return re.sub(r'\s+', ' ', re.sub(r'<[^>]*>', ' ', s))


def shows_matrix(text, S):
    """some consecutive numbers of the text are the entries of S"""
    x = numbers(text)
    want = np.ravel(S)
    k = len(want)
    tol = 2e-6 * np.maximum(1, np.abs(want)) + 2e-5 * np.abs(want)
    return any(np.all(np.abs(x[i:i + k] - want) <= tol) for i in range(len(x) - k + 1))


def shows_number(text, v):
    return bool(np.any(np.isclose(numbers(text), v, rtol=1e-9, atol=1e-12)))


NAMES = {'clayton': 'Clayton', 'frank': 'Frank', 'gumbel': 'Gumbel', 'gaussian': 'Gaussian', 'student': 'Student',
         'indep': 'Independent', 'empirical': 'Empirical', 'marginal': 'Marginal', 'gmc': 'Gaussian Mixture'}


def forms(m, what, s, **ctx):
    """text and HTML of a summary, which must agree with str, repr and as_html"""
    t, h = m.must(f'{what} as text', str, s), m.must(f'{what} as HTML', s._repr_html_)
    if t is None or h is None:
        return None, None
    m.ok(isinstance(t, str) and isinstance(h, str) and len(t) > 20 and len(h) > 20, f'{what}: not a text', **ctx)
    m.ok(m.call(repr, s) == t, f'{what}: repr is not the text', **ctx)
    m.ok(m.call(s.as_html) == h, f'{what}: as_html is not the HTML form', **ctx)
    return t, text_of_html(h)


def check_params(m, what, kind, cop, t, h, ctx):
    d = cop.dim
    for form, s in (('text', t), ('html', h)):
        m.case(what, kind, form, repr(ctx)[:120])
        body = s.replace('=', ' ')
        m.ok(NAMES[kind].lower() in body.lower(), f'{what}: does not name the copula', form=form, shown=s, **ctx)
        if kind == 'empirical':
            ok = (shows_number(body, d) and cop.ties in body and str(cop.smoothing) in body)
            m.ok(ok, f'{what}: does not show the settings of the empirical copula', form=form, shown=s, **ctx)
            continue
        m.ok(kind == 'gmc' and form == 'text' or re.search(rf'\b{d} dimensions', body), f'{what}: does not show the dimension', form=form, shown=s, **ctx)
        if kind in gen.ARCH:
            m.ok(shows_number(body, float(cop.params)), f'{what}: does not show the parameter', form=form, shown=s, params=cop.params, **ctx)
        if kind in ('gaussian', 'student'):
            m.ok(shows_matrix(body, cop.sigma), f'{what}: does not show the correlation matrix', form=form, shown=s,
                 sigma=cop.sigma, **ctx)
        if kind == 'student':
            m.ok(shows_number(body, float(cop.params.df)), f'{what}: does not show the degrees of freedom', form=form, shown=s,
                 df=cop.params.df, **ctx)
        if kind == 'gmc':
            p = cop.params
            m.ok(form == 'html' or body.count('Component') >= p.n_clusters, f'{what}: does not list the components', shown=s, **ctx)
            if form == 'html':
                for a in (p.prob, p.means, *p.covs):
                    m.ok(shows_matrix(body, a), f'{what}: does not show the parameters', form=form, shown=s, value=a, **ctx)
            else:
                for pr, mean, cov in p:
                    x = numbers(body)
                    want = np.r_[np.round(pr, 4), np.round(mean, 4), np.round(np.ravel(cov), 4)]
                    k = len(want)
                    ok = any(np.allclose(x[i:i + k], want, rtol=1e-6, atol=1.1e-4) for i in range(len(x) - k + 1))
                    m.ok(ok, f'{what}: does not show the parameters', form=form, shown=s, value=want, **ctx)
    return True


def plain_values(rng, a):
    """parameters that are special: independence, whole numbers, equal or perfect correlations"""
    cop, d = a.cop, a.dim
    r = np.full(d * (d - 1) // 2, float(rng.choice([0, 0, .5, 1])))
    if a.kind in gen.ARCH:
        cop.params = float(rng.choice({'gumbel': [1, 2, 10], 'clayton': [1, 2, 10], 'frank': [1, 2, 10]}[a.kind]))
    elif a.kind == 'gaussian':
        cop.params = r
    elif a.kind == 'student':
        cop.params = np.r_[float(rng.choice([1, 4, 30, 1000])), r]
    elif a.kind == 'gmc':
        k = len(a.spec['prob'])
        p = np.eye(k)[0] if rng.random() < .4 else np.full(k, 1 / k)
        cop.params = {'prob': p, 'means': np.zeros((k, d)), 'covs': np.array([np.eye(d)] * k)}


@scenario(P, shards={'quick': 3, 'thorough': 20}, min_events=100)
def copula_summary(m):
    rng = m.rng
    for i in range(60 if not m.thorough else 400):
        a = gen.any_copula(rng)
        cop, kind = a.cop, a.kind
        ctx = {'spec': a.spec}
        if rng.random() < .25:
            plain_values(rng, a)
        s = m.must(f'{kind}: summary', cop.summary)
        if s is None:
            continue
        t, h = forms(m, f'{kind} summary', s, **ctx)
        if t is None:
            continue
        if kind == 'marginal':
            for form, x in (('text', t), ('html', h)):
                m.case('marginal', form, i)
                m.ok(re.search(rf'\b{cop.dim} dimensions', x), 'marginal summary: does not show the dimension', shown=x, **ctx)
                m.ok(NAMES[a.spec['inner']['family']].lower() in x.lower(), 'marginal summary: does not name the joint copula',
                     shown=x, **ctx)
                for f in gen.frozen(a.spec['margins']):
                    m.ok(re.search(rf'\b{f.dist.name}\b', x), 'marginal summary: does not name a margin', shown=x, margin=f.dist.name, **ctx)
                    for v in f.kwds.values():
                        m.ok(shows_number(x, v), 'marginal summary: does not show a parameter of a margin', shown=x, value=v, **ctx)
                inn = a.spec['inner']
                if 'theta' in inn:
                    m.ok(shows_number(x, inn['theta']), 'marginal summary: does not show the joint parameter', shown=x, **ctx)
                if 'S' in inn:
                    m.ok(shows_matrix(x, inn['S']), 'marginal summary: does not show the joint correlations', shown=x, **ctx)
            continue
        check_params(m, f'{kind} summary', kind, cop, t, h, ctx)
        # ... and again after the parameters were changed
        from checks.c21_concurrency import alter
        if rng.random() < .7 and alter(rng, a):
            s = m.must(f'{kind}: summary', cop.summary, **({'category': 'copula'} if rng.random() < .5 else {}))
            if s is not None:
                t, h = forms(m, f'{kind} summary', s, **ctx)
                if t is not None:
                    check_params(m, f'{kind} summary after a change', kind, cop, t, h, {**ctx, 'now': repr(cop.params)})
        if kind in gen.ARCH or kind == 'student':  # parameters of any numeric type
            x = cop.params.df if kind == 'student' else cop.params
            for cast in (np.float32, np.float64, float, *((np.int64, np.int32, int) if abs(x) < 1e9 and abs(round(x)) > 2 else ())):
                v = cast(round(x)) if issubclass(cast, (int, np.integer)) else cast(x)
                if kind == 'student':
                    b = m.call(type(cop), cop.dim, v)
                else:
                    b = m.call(type(cop), v, cop.dim)
                if isinstance(b, Raised):
                    m.count('refused type')
                    continue
                s = m.must(f'{kind}: summary', b.summary)
                if s is not None:
                    for form, body in zip(('text', 'html'), forms(m, f'{kind} summary', s, **ctx)):
                        m.case('type', kind, form, cast.__name__, float(v))
                        m.ok(body is not None and np.isclose(numbers(body.replace('=', ' ')), float(v), rtol=1e-6, atol=1e-12).any(),
                             f'{kind} summary: does not show a parameter of type {cast.__name__}', form=form, shown=body, value=v)
        for obj in (cop, cop.params, getattr(cop, 'bounds', None)):
            m.ok(isinstance(m.call(str, obj), str) and isinstance(m.call(repr, obj), str), f'{kind}: no string form')
        if kind == 'gmc':
            from copulae.mixtures.gmc.parameter import GMCParam
            p = cop.params
            q = m.call(eval, repr(p), {'GMCParam': GMCParam, 'nan': np.nan, 'inf': np.inf})
            if cop.dim > 1:
                m.ok(not isinstance(q, Raised) and all(np.array_equal(getattr(q, k), getattr(p, k)) for k in ('prob', 'means', 'covs')), 'the representation of GMCParam is not that of the parameters',
                     text=repr(p), got=repr(q))
        m.raises('summary of an unknown category', (ValueError,), cop.summary, 'fits')


@scenario(P, min_events=20)
def not_fitted(m):
    import copulae as c
    from copulae.copula.exceptions import NotFittedError
    rng = m.rng
    for i in range(40 if not m.thorough else 200):
        a = gen.any_copula(rng)
        kind, cop = a.kind, a.cop
        m.case(kind, i)
        if kind in ('indep', 'empirical'):
            s = m.must(f'{kind} fit summary', cop.summary, 'fit')
            if s is not None:
                t, h = forms(m, f'{kind} fit summary', s)
                for x in (t, h):
                    m.ok(x and shows_number(x.replace('=', ' '), a.dim), 'the summary does not show the dimension', shown=x)
                    if kind == 'empirical':
                        m.ok(shows_number(x, len(a.spec['x'])), 'the summary does not show the sample size', shown=x)
            continue
        m.raises(f'{kind}: fit summary before a fit', (NotFittedError,), cop.summary, 'fit')
        m.raises(f'{kind}: fit summary before a fit', (NotFittedError,), cop.summary, category='fit')
        # a fit that fails is none
        if kind in gen.FAMILIES:
            r = m.call(cop.fit, np.full((4, a.dim + 1), .5), verbose=0)
            if m.ok(isinstance(r, Raised), 'data of another dimension was fitted'):
                m.raises(f'{kind}: fit summary after a failed fit', (NotFittedError,), cop.summary, 'fit')
    m.must('summary of a mixture without parameters', lambda: str(c.GaussianMixtureCopula(2, 2).summary()))
    m.must('summary of a mixture without parameters', lambda: c.GaussianMixtureCopula(2, 2).summary().as_html())


def quiet(m, what, fn, *args, **kw):
    with Captured() as cap:
        r = m.call(fn, *args, **kw)
    m.count('captured calls')
    m.ok(cap.text == '', f'{what}: prints without being asked to', printed=cap.text[:300], call=repr(kw)[:200])
    return r


@scenario(P, shards={'quick': 3, 'thorough': 20}, min_events=40, weight=3)
def fit_summary(m):
    rng = m.rng
    for i in range(30 if not m.thorough else 200):
        kind = str(rng.choice([*gen.ARCH, 'gaussian', 'student', 'marginal', 'gmc']))
        d = int(rng.choice([2, 2, 3]))
        n = int(rng.integers(40, 90))
        z = rng.normal(size=(n, 1)) + rng.normal(size=(n, d))
        if kind in gen.FAMILIES and rng.random() < .3:  # repeated observations count
            z = np.vstack([z[:n - n // 5], z[:n // 5]])
        X = pd.DataFrame(z, columns=[f'c{j}' for j in range(d)]) if rng.random() < .4 else z
        import copulae as c
        method = 'ml'
        kw = {'verbose': 0}
        if kind in gen.FAMILIES:
            cop = gen.classes()[kind](dim=d)
            methods = {'clayton': ['ml', 'itau'], 'frank': ['ml', 'itau'], 'gumbel': ['ml', 'itau'],
                       'gaussian': ['ml', 'itau', 'irho'], 'student': ['ml', 'itau']}[kind]
            method = str(rng.choice(methods))
            if rng.random() < .9 or method != 'ml':
                kw['method'] = method
            if method == 'ml' and rng.random() < .3:
                # (scipy's own output of the algorithm is asked for or not by disp)
                kw['optim_options'] = {'method': str(rng.choice(['Nelder-Mead', 'SLSQP', 'BFGS', 'L-BFGS-B', 'Powell', 'TNC',
                                                                 'COBYLA', 'trust-constr']))}
                if rng.random() < .5:
                    kw['optim_options']['options'] = {'maxiter': int(rng.choice([1, 3]))}
        elif kind == 'marginal':
            cop = c.MarginalCopula(gen.classes()[str(rng.choice(['gaussian', 'clayton']))](dim=d), ['norm'] * d)
        else:
            cop = c.GaussianMixtureCopula(2, d)
            method = kw['method'] = str(rng.choice(['pem', 'sgd', 'kmeans']))
            kw['max_iter'] = 12
        ctx = {'kind': kind, 'd': d, 'n': n, 'kw': kw}
        r = quiet(m, f'{kind} fit', cop.fit, X, **kw)
        if isinstance(r, Raised):
            m.case('failed', kind, method)
            continue
        m.ok(r is cop, f'{kind}: fit does not return the copula', got=repr(r))
        s = m.must(f'{kind} fit summary', cop.summary, 'fit')
        if s is None:
            continue
        t, h = forms(m, f'{kind} fit summary', s, **ctx)
        if t is None:
            continue
        what = f'{kind} fit summary'
        words = {'ml': 'Maximum likelihood', 'itau': 'Kendall Tau', 'irho': 'Spearman Rho', 'pem': 'pem', 'sgd': 'sgd', 'kmeans': 'means'}
        for form, x in (('text', t), ('html', h)):
            m.case(kind, method, form, i)
            m.ok(re.search(rf'Data Points[\s:]+{n}\b', x), f'{what}: not the number of observations', form=form, shown=x, **ctx)
            mm = re.search(r'Method[\s:]+(.{0,60})', x)
            m.ok(mm and words[method].lower() in mm.group(1).lower(), f'{what}: not the method', form=form, shown=x, **ctx)
            if kind == 'gmc':
                for k, v in (getattr(s, 'setup', None) or {}).items():
                    m.ok(str(k) in x and str(v) in x, f'{what}: a setting is not shown', key=k, form=form, shown=x, **ctx)
            if kind in gen.FAMILIES:
                ll = re.search(rf'Log.? Likelihood[\s:]+({NUM})', x)
                m.ok(ll and np.isclose(float(ll.group(1)), s.log_lik, rtol=1e-9, equal_nan=True), f'{what}: not the log likelihood', form=form,
                     shown=x, **ctx)
        m.ok(s.nsample == n, f'{what}: nsample', got=s.nsample, **ctx)
        if kind in gen.FAMILIES:
            u = c.pseudo_obs(z)
            if method == 'ml':
                res = s.results
                lim = kw.get('optim_options', {}).get('options', {}).get('maxiter')
                if lim and res is not None and 'nit' in res and kw['optim_options']['method'] != 'TNC':
                    m.count('limited iterations')
                    m.ok(res['nit'] <= lim, f'{what}: more iterations than the caller allowed', nit=res['nit'], allowed=lim, **ctx)
                m.ok(res is not None and 'x' in res and 'success' in res, f'{what}: no results of the optimizer', **ctx)
                if res is not None and res.get('success'):
                    m.close(np.ravel(res['x']), np.ravel(s.params), f'{what}: parameters are not the result of the optimizer', 1e-12, **ctx)
                    m.close(s.log_lik, cop.log_lik(u, to_pobs=False), f'{what}: log likelihood is not that of the copula', 1e-7, 1e-9, **ctx)
                for k in (s.setup or {}):
                    m.ok(str(k) in t and str(k) in h, f'{what}: a setting is not shown', key=k, **ctx)
                for k in (res or {}):
                    m.ok(str(k) in h and (str(k) in t or k == 'final_simplex'), f'{what}: a result is not shown', key=k, **ctx)
            else:
                m.close(s.log_lik, cop.log_lik(u, to_pobs=False), f'{what}: log likelihood is not that of the copula', 1e-7, 1e-9, **ctx)
        if kind == 'marginal':
            m.ok(str(cop._copula.summary('fit')) == t if hasattr(cop, '_copula') else True, f'{what}: not that of the joint copula')
        # the report is of the fit: it stays while the parameters change
        from checks.c21_concurrency import alter
        before = (t, copy.deepcopy(getattr(s, 'params', None)), copy.deepcopy(getattr(s, 'best_params', None)))
        b = gen.Any(kind, cop, {'prob': [1, 1]}, None)
        if kind != 'marginal' and alter(rng, b):
            s1 = cop.summary('fit')
            m.ok(str(s1) == before[0] and repr((getattr(s1, 'params', None), getattr(s1, 'best_params', None))) ==
                 repr(before[1:]), f'{what}: changes when the parameters are changed', before=before, after=str(s1), **ctx)
        # a second fit is reported by a new summary
        z2 = rng.normal(size=(n + 7, d)) + rng.normal(size=(n + 7, 1))
        r = quiet(m, f'{kind} fit', cop.fit, z2, **{k: v for k, v in kw.items() if k != 'optim_options'})
        if not isinstance(r, Raised):
            s2 = cop.summary('fit')
            m.ok(s2.nsample == n + 7 and s2 is not s and str(s) == before[0], f'{what}: the second fit is not reported', got=str(s2), **ctx)


@scenario(P, shards={'quick': 1, 'thorough': 4}, min_events=20)
def settings(m):
    """every setting and result of a fit summary is shown with its value, whatever that is"""
    try:
        from copulae.copula.estimator.summary import FitSummary
    except ImportError:
        m.skip_reason = 'no such class'
        FitSummary = None
    rng = m.rng
    values = [0, 0., False, True, None, '', 1e-300, -3.25, 'text', [1, 2], {'maxiter': 7}, np.float64(2.5), np.zeros(2), ()]
    for i in range(30 if not m.thorough else 200):
        a, b = ({f'{p}{j}key': values[int(k)] for j, k in enumerate(rng.integers(0, len(values), int(rng.integers(0, 6))))} for p in 'st')
        setup, results = [v if rng.random() < .8 else None for v in (a, b)]
        m.case('settings', repr(setup), repr(results))
        if FitSummary is None:
            continue
        s = FitSummary(np.array([1.5, .25]), 'Some method', -12.75, 31, setup, results)
        t, h = forms(m, 'fit summary', s)
        if t is None:
            continue
        for form, x in (('text', t), ('html', text_of_html(s.as_html()))):
            for k, v in {**(setup or {}), **(results or {})}.items():
                m.ok(re.search(re.escape(k) + r'\W*?' + r'\s+'.join(re.escape(w) for w in str(v).split()), x),
                     'fit summary: a setting or result is not shown with its value', key=k, value=v, form=form, shown=x)


@scenario(P, shards={'quick': 1, 'thorough': 4}, min_events=20)
def verbosity(m):
    """a fit that does not converge says so, unless it is told to be silent; one that converges, or has nothing to do, says nothing"""
    import copulae as c
    rng = m.rng
    for i in range(24 if not m.thorough else 100):
        kind = ['clayton', 'frank', 'gumbel', 'gaussian', 'gmc', 'indep', 'empirical', 'marginal'][i % 8]
        n = int(rng.integers(40, 90))
        z = rng.normal(size=(n, 1)) + rng.normal(size=(n, 2))
        new = {'gmc': lambda: c.GaussianMixtureCopula(2, 2), 'indep': lambda: c.IndepCopula(2), 'empirical': lambda: c.EmpiricalCopula(z),
               'marginal': lambda: c.MarginalCopula(c.FrankCopula(1.5, 2), 'norm')}.get(kind) or (lambda: gen.classes()[kind](dim=2))
        for verbose in (0, 1, None):
            for short in ((True, False) if kind != 'gmc' else (True,)):
                if short and kind in ('indep', 'empirical'):
                    continue
                kw = {} if verbose is None else {'verbose': verbose}
                if short:
                    kw.update({'max_iter': 1, 'eps': 0.} if kind == 'gmc' else
                              {'x0': np.array([.0]) if kind == 'gaussian' else 3.9,
                               'optim_options': {'method': 'Nelder-Mead', 'options': {'maxiter': 1}}})
                cop = new()
                m.case(kind, verbose, short, z[0].tolist())
                with Captured() as cap, warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter('always')
                    r = m.call(cop.fit, z, **kw)
                if isinstance(r, Raised):
                    m.count('fit refused')
                    continue
                said = cap.text + ''.join(str(w.message) for w in ws if issubclass(w.category, UserWarning))
                if short and verbose != 0:
                    m.ok('onverge' in said or 'terations' in said, f'{kind}: a fit that does not converge does not say so', said=said, kw=repr(kw))
                else:
                    m.ok(said == '', f'{kind}: a fit says something it was not asked for', said=said[:300], kw=repr(kw))


@scenario(P, shards={'quick': 2, 'thorough': 12}, min_events=100)
def silence(m):
    """no query prints; a fit that is told to be silent is"""
    from copulae import datasets
    from copulae.gof import exch_test, gof_copula, rad_sym_test
    from checks.c21_concurrency import functions, queries
    rng = m.rng
    for i in range(25 if not m.thorough else 150):
        a = gen.any_copula(rng)
        for name, f in queries(rng, a):
            m.case(a.kind, name)
            quiet(m, f'{a.kind} {name}', f)
        m.case(a.kind, 'random')
        quiet(m, f'{a.kind} random', a.cop.random, 4)
    for name, f in functions(rng):
        m.case(name)
        quiet(m, name, f)
    z = rng.normal(size=(30, 2))
    zt = np.round(z)
    quiet(m, 'exch_test', exch_test, zt[:, 0], zt[:, 1], 5)
    quiet(m, 'rad_sym_test', rad_sym_test, zt, 5)
    for kind in ('gaussian', 'clayton', 'frank', 'gumbel'):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            g = quiet(m, f'gof_copula {kind}', gof_copula, gen.classes()[kind], z + z[:, :1], 3)
        m.case('gof', kind)
        if m.ok(not isinstance(g, Raised), 'gof_copula raises', error=repr(g)):
            t = m.must('string of a goodness of fit', str, g)
            if t is not None:
                m.ok(shows_number(t, round(g.statistic, 9)) and shows_number(t, round(g.pvalue, 9)) and 'arametric' in t and
                     repr(g) == t, 'the string of a goodness of fit does not show it', shown=t)
    # ill-conditioned fits: no convergence, and still silent
    for kind in ('gaussian', 'student', 'clayton', 'frank', 'gumbel'):
        for opts in ({'maxiter': 1}, {'maxiter': 2}):
            meth = 'Nelder-Mead' if kind in gen.ARCH else 'SLSQP'
            cop = gen.classes()[kind](dim=3)
            m.case('no convergence', kind, repr(opts))
            quiet(m, f'{kind} fit without convergence', cop.fit, rng.normal(size=(30, 3)) + rng.normal(size=(30, 1)),
                  optim_options={'method': meth, 'options': opts}, verbose=0)
    for fn in ('load_danube', 'load_residuals', 'load_marginal_data', 'load_smi'):
        f = getattr(datasets, fn, None)
        if f is not None:
            m.case(fn)
            quiet(m, fn, f)


@scenario(P, shards={'quick': 1, 'thorough': 6}, min_events=20)
def large(m):
    """many dimensions, components and observations are reported in full"""
    import copulae as c
    rng = m.rng
    for i in range(8 if not m.thorough else 60):
        kind = str(rng.choice(['gaussian', 'student']))
        d = int(rng.choice([7, 11, 13, 22, 65]))
        cop, spec = gen.make(rng, kind, d)
        ctx = {'d': d}
        s = m.must(f'{kind}: summary', cop.summary)
        if s is not None:
            t, h = forms(m, f'{kind} summary', s, **ctx)
            if t is not None:
                check_params(m, f'{kind} summary', kind, cop, t, h, ctx)
    for i in range(4 if not m.thorough else 30):
        k, d = int(rng.integers(2, 13)), int(rng.integers(2, 9))
        par = gen.rand_mixture(rng, k, d)
        cop = c.GaussianMixtureCopula(k, d, par)
        s = m.must('gmc: summary', cop.summary)
        if s is not None:
            t, h = forms(m, 'gmc summary', s)
            if t is not None:
                check_params(m, 'gmc summary', 'gmc', cop, t, h, {'d': d, 'k': k})
    for i in range(14 if not m.thorough else 60):
        f = str(rng.choice(['clayton', 'frank', 'gumbel', 'gaussian', 'student', 'indep', 'empirical']))
        n = int(rng.choice([999, 2500, 7000, 10001, 25000]))
        always = i if i < 8 else None  # large samples for each method of every family
        if always is not None:
            f, n = ['clayton', 'frank', 'gumbel', 'gaussian'][always % 4], 20000 + int(rng.integers(9000))
        z = rng.normal(size=(n, 2)) + rng.normal(size=(n, 1))
        if f in gen.FAMILIES:
            cop = gen.classes()[f](dim=2)
            method = str(rng.choice(['ml', 'itau', 'ITAU'])) if always is None else 'ml' if always < 4 else 'itau'
            if f == 'student' and n > 3000:
                method = 'itau'
            r = m.call(cop.fit, z, method=method, verbose=0)
        elif f == 'indep':
            cop = c.IndepCopula(2)
            r = m.call(cop.fit, z)
        else:
            cop = c.EmpiricalCopula(z)
            r = None
        if isinstance(r, Raised):
            m.fail(f'{f} fit: unexpected exception', error=repr(r), tb=r.tb[-800:], n=n)
            continue
        s = m.must(f'{f} fit summary', cop.summary, 'fit')
        if s is None or f == 'indep':
            continue
        m.case('observations', f, n)
        t, h = forms(m, f'{f} fit summary', s, n=n)
        for form, x in (('text', t), ('html', h)):
            m.ok(x and re.search(rf'\b{n}\b', x), f'{f} fit summary: not the number of observations', form=form, shown=x, n=n)
        if f in gen.FAMILIES:
            m.ok(s.nsample == n, f'{f} fit summary: nsample', got=s.nsample, n=n)
