"""One case = one pair of executions compared: the same draw from two different prior states of the generator, or the
generator's stream after an operation that must not reset it. Non-trivial = distinct (class, parameters, n, seed)."""
import numpy as np
import pandas as pd

from vlib import gen
from vlib.core import Raised, scenario

P = 'C04'
ASSUMPTIONS = ['numpy\'s global generator is the library\'s source of randomness (its documented interface)']


def samplers(rng):
    """-> name, a function building a fresh equal instance"""
    import copulae as c
    kind = str(rng.choice(['clayton', 'frank', 'gumbel', 'gaussian', 'student', 'indep', 'empirical', 'marginal', 'gmc']))
    if kind in gen.FAMILIES:
        d = int(rng.integers(2, 6))
        while True:
            cop, spec = gen.make(rng, kind, d, strong=0.8)
            if kind != 'clayton' or abs(spec['theta']) < 30:
                break

        def build():
            x = type(cop)(dim=d)
            if kind in gen.ARCH:
                x.params = spec['theta']
            elif kind == 'gaussian':
                x.params = np.array(cop.params)
            elif kind == 'student':
                x.params = np.r_[cop.params.df, cop.params.rho]
            return x

        return kind, spec, build
    if kind == 'empirical':
        d = int(rng.integers(2, 5))
        x = gen.rand_cont_data(rng, 40, d)
        df = rng.random() < 0.5
        sm = [None, 'beta', 'checkerboard', 'none'][rng.integers(4)]
        return kind, {'x': x, 'df': df}, lambda: c.EmpiricalCopula(
            pd.DataFrame(x, columns=list('abcde')[:d]) if df else x.copy(), smoothing=sm)
    if kind == 'marginal':
        inner = str(rng.choice(['clayton', 'gaussian', 'student', 'frank']))
        th = {'clayton': 1.5, 'frank': 4.}.get(inner)

        def build():
            i = gen.classes()[inner](dim=3)
            if th:
                i.params = th
            elif inner == 'gaussian':
                i.params = [0.1, 0.5, 0.3]
            else:
                i.params = [4., 0.1, 0.5, 0.3]
            return c.MarginalCopula(i, ['norm', {'type': 't', 'parameters': {'df': 5}}, 'expon'])

        return kind, {'inner': inner}, build
    k, d = int(rng.integers(1, 4)), int(rng.integers(2, 4))
    prob = rng.dirichlet(np.ones(k))
    means = rng.normal(size=(k, d)) * 3
    covs = [gen.rand_corr(rng, d, 0.8) for _ in range(k)]
    return kind, {'k': k, 'd': d}, lambda: c.GaussianMixtureCopula(k, d, {'prob': prob, 'means': means, 'covs': covs})


def disturb(rng, cop):
    """other activity between two seeded draws"""
    k = rng.integers(5)
    if k == 0:
        np.random.seed(int(rng.integers(2 ** 31)))
    elif k == 1:
        np.random.random(int(rng.integers(1, 50)))
    elif k == 2:
        cop.random(int(rng.integers(1, 20)))
    elif k == 3:
        cop.random(int(rng.integers(1, 20)), seed=int(rng.integers(100)))
    else:
        np.random.normal(size=3)  # leaves a cached normal variate behind


@scenario(P, shards={'quick': 3, 'thorough': 24}, weight=2)
def seeded(m):
    rng = m.rng
    for _ in range(130 if not m.thorough else 800):
        kind, spec, build = samplers(rng)
        n = int(rng.choice([1, 2, 5, 30, 200]))
        seed = int(rng.choice([0, 1, 7, int(rng.integers(2 ** 31)), 2 ** 32 - 1]))
        m.case(kind, spec, n, seed)
        a, b = build(), build()
        np.random.seed(int(rng.integers(2 ** 31)))
        if rng.random() < 0.5:
            np.random.normal()
        x = m.must(f'{kind} random', a.random, n, seed)
        for _ in range(int(rng.integers(1, 3))):
            disturb(rng, b)
        who = b if rng.random() < 0.5 else a
        y = m.must(f'{kind} random', who.random, n, seed=seed if rng.random() < 0.7 else np.int64(seed))
        if x is None or y is None:
            continue
        m.ok(type(x) is type(y) and np.array_equal(np.asarray(x), np.asarray(y)),
             f'{kind} random: the same seed gives a different sample', kind=kind, n=n, seed=seed, x=np.asarray(x)[:2],
             y=np.asarray(y)[:2], same_instance=who is a)
        other = (seed + 1) % 2 ** 32 if rng.random() < 0.3 else seed ^ 1 << int(rng.integers(32))
        z = m.must(f'{kind} random', who.random, n, seed=other)
        if kind != 'empirical' or n >= 30:
            m.ok(not np.array_equal(np.asarray(x), np.asarray(z)), f'{kind} random: different seeds give the same sample',
                 kind=kind, n=n, seed=seed, other=other)


@scenario(P, shards={'quick': 1, 'thorough': 8})
def unseeded(m):
    """without a seed the draws continue the global stream: reproducible from its state, never repeating"""
    rng = m.rng
    for _ in range(150 if not m.thorough else 1000):
        kind, spec, build = samplers(rng)
        n = int(rng.choice([20, 50, 200]))
        s = int(rng.integers(2 ** 31))
        m.case(kind, spec, n, s)
        cop = build()
        np.random.seed(s)
        a1, a2 = cop.random(n), cop.random(n)
        np.random.seed(s)
        b1, b2 = cop.random(n), build().random(n)
        m.ok(np.array_equal(np.asarray(a1), np.asarray(b1)) and np.array_equal(np.asarray(a2), np.asarray(b2)),
             f'{kind} random: an unseeded draw is not determined by the state of the generator', kind=kind, n=n, s=s)
        m.ok(not np.array_equal(np.asarray(a1), np.asarray(a2)), f'{kind} random: unseeded draws repeat', kind=kind, n=n)


def _ops(rng):
    import copulae as c
    from copulae import gof, stats, special
    from copulae.core import near_psd
    d = int(rng.integers(2, 4))
    x = gen.rand_cont_data(rng, 40, d)
    t = gen.rand_tied_data(rng, 40, d)
    u = gen.points(rng, 10, d)
    kind, spec, build = samplers(rng)
    cop = build()

    def q():
        v = gen.points(np.random.default_rng(1), 5, cop.dim)
        for f in (cop.cdf, cop.pdf):
            try:
                f(v)
            except (AssertionError, NotImplementedError):  # an empirical density needs smoothing; no Student cdf
                pass
        cop.summary()
        repr(cop.params)

    fams = {k: v for k, v in gen.classes().items()}
    fam = str(rng.choice(list(fams)))
    return {
        'exch_test': lambda: gof.exch_test(x[:, 0], x[:, 1], N=3),
        'exch_test m': lambda: gof.exch_test(x[:, 0], x[:, 1], N=3, m=4),
        'exch_test ties': lambda: gof.exch_test(t[:, 0], t[:, 1], N=3),
        'rad_sym_test': lambda: gof.rad_sym_test(x, N=3),
        'rad_sym_test ties': lambda: gof.rad_sym_test(t, N=3),
        'gof_copula': lambda: gof.gof_copula(fams[str(rng.choice(['clayton', 'gumbel', 'frank', 'gaussian']))], x, 2),
        f'queries of {kind}': q,
        f'fit {fam}': lambda: fams[fam](dim=d).fit(x, verbose=0),
        'fit itau': lambda: c.GaussianCopula(d).fit(x, method='itau', verbose=0),
        'gmc fit': lambda: c.GaussianMixtureCopula(2, d).fit(x, max_iter=3, verbose=0),
        'gmc kmeans': lambda: c.GaussianMixtureCopula(2, d).fit(x, method='kmeans'),
        'pseudo_obs': lambda: c.pseudo_obs(t, 'ordinal'),
        'corr': lambda: [stats.corr(x, method=k) for k in ('pearson', 'kendall', 'spearman')],
        'near_psd': lambda: near_psd(np.array([[1, .9, -.9], [.9, 1, .9], [-.9, .9, 1]])),
        'stable pdf': lambda: stats.skew_stable.pdf(0.3, 1.5, 0.2),
        'mvt pdf': lambda: stats.multivariate_t.pdf(x, cov=np.eye(d), df=4),
        'special': lambda: special.poly_log(np.array([.2, .3]), -3),
        'marginal fit': lambda: c.MarginalCopula(c.GaussianCopula(d), 'norm').fit(x, verbose=0),
        'to_marginals': lambda: c.EmpiricalCopula.to_marginals(u, x),
        'emp cdf': lambda: c.EmpiricalCopula(x).cdf(u),
        f'construct {kind}': build,
        'import': lambda: __import__('importlib').import_module('copulae.datasets').load_danube(),
    }


@scenario(P, shards={'quick': 2, 'thorough': 16}, weight=2)
def no_reset(m):
    """nothing except a draw with an explicit seed resets the caller's random stream"""
    rng = m.rng
    for _ in range(6 if not m.thorough else 40):
        for name, op in _ops(rng).items():
            s1, s2 = (int(v) for v in rng.integers(2 ** 31, size=2))
            m.case(name, s1, s2)
            outs = []
            for s in (s1, s2):
                np.random.seed(s)
                r = m.call(op)
                outs.append(np.random.random(4))
            m.ok(not np.array_equal(*outs), f'{name} resets the global random stream', s1=s1, s2=s2)
            m.count('raised' if isinstance(r, Raised) else 'returned')
            m.ok(not isinstance(r, Raised), f'{name}: unexpected exception', error=repr(r))


@scenario(P, shards={'quick': 1, 'thorough': 4})
def helpers(m):
    """the sampling helpers take part in the same contract"""
    from copulae.stats import multivariate_t, random_uniform, skew_stable
    rng = m.rng
    for _ in range(100 if not m.thorough else 800):
        s, d = int(rng.choice([0, int(rng.integers(2 ** 31))])), int(rng.integers(2, 5))
        n = int(rng.integers(1, 20))
        S = gen.rand_corr(rng, d)
        df = float(rng.choice([2.5, 8, 300, 20000]))
        m.case('helpers', s, d, n, df)
        size = [n, (n, 2), [2, n], 1, (1, 1)][int(rng.integers(5))]
        kind = ['shifted', 'kshirsagar'][int(rng.integers(2))]
        out = []
        for _ in range(2):
            np.random.seed(int(rng.integers(2 ** 31)))
            a = multivariate_t.rvs(np.zeros(d), S, df, size, kind, random_state=s)
            np.random.normal()
            b = random_uniform(n, d, s)
            np.random.seed(s)
            e = skew_stable.rvs(1.5, 0.3, size=n)
            out.append((np.asarray(a), b, np.asarray(e)))
        for k, name in enumerate(('multivariate_t.rvs', 'random_uniform', 'skew_stable.rvs')):
            m.ok(np.array_equal(out[0][k], out[1][k]), f'{name} is not reproducible', s=s, d=d, n=n, df=df, size=size)
        m.ok(b.shape == (n, d), 'random_uniform: shape', shape=b.shape)
