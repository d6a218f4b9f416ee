"""One case = one sample drawn from a copula with generated parameters and tested: margins against the uniform law,
probabilities of generated orthants and boxes against the reference distribution function, independence of successive
rows, shape and range. Every statistical decision has a false-alarm probability below 1e-10. Non-trivial = distinct
(family, dimension, parameters, n)."""
import numpy as np
from scipy import stats

from vlib import gen, ref
from vlib.core import scenario

P = 'C03'
ASSUMPTIONS = ['statistical decisions at the 1e-10 level per test', 'scipy multivariate normal '
               'distribution function as reference for three and more dimensions']
ALPHA = 1e-10


def _prob(spec, a):
    """P(U <= a) of the reference copula"""
    f = spec['family']
    if f in gen.ARCH:
        return ref.arch_cdf(f, spec['theta'], a)
    if f == 'indep':
        return float(np.prod(a))
    k = a < 1
    if k.sum() == 0:
        return 1.
    if k.sum() == 1:
        return float(a[k][0])
    S = spec['S'][np.ix_(k, k)]
    if f == 'gaussian':
        q = stats.norm.ppf(a[k])
        if k.sum() == 2:
            return float(ref.bvn_cdf(q[0], q[1], S[0, 1]))
        return float(stats.multivariate_normal.cdf(q, cov=S, maxpts=200000, abseps=1e-5))
    q, df = stats.t.ppf(a[k], spec['df']), spec['df']
    w = np.sqrt(_chi2_nodes(df) / df)
    if k.sum() == 2:
        return float(np.mean(ref.bvn_cdf_many(q[0] * w, q[1] * w, S[0, 1])))
    return None


_NODES = {}


def _chi2_nodes(df, n=2000):
    """mid-quantiles of the mixing variable of the t distribution"""
    if df not in _NODES:
        _NODES[df] = stats.chi2.ppf((np.arange(n) + 0.5) / n, df)
    return _NODES[df]


def _binom_ok(k, n, p, slack):
    lo, hi = max(p - slack, 0), min(p + slack, 1)
    return stats.binom.sf(k - 1, n, hi) > ALPHA / 2 and stats.binom.cdf(k, n, lo) > ALPHA / 2


def check_sample(m, f, spec, r, n, d, n_box):
    rng = m.rng
    ctx = {k: v for k, v in spec.items()}
    if not m.ok(isinstance(r, np.ndarray) and r.shape == (n, d), f'{f} random: shape is not (n, dim)',
                shape=np.shape(r), n=n, type=str(type(r)), **ctx):
        return
    m.ok(np.all((r >= 0) & (r <= 1)), f'{f} random: values outside [0, 1]',
         bad=r[~((r >= 0) & (r <= 1)).all(1)][:3], **ctx)
    if n < 1000:
        return
    for j in range(d):
        p = stats.kstest(r[:, j], 'uniform').pvalue
        m.ok(p > ALPHA, f'{f} random: margin is not uniform', column=j, p=p, n=n, **ctx)
    # joint probabilities
    slack = 1e-12 if f in gen.ARCH or f == 'indep' else (1e-7 if f == 'gaussian' and d == 2 else 4e-4)
    for _ in range(n_box):
        kind = rng.integers(4)
        if kind == 0:
            a = rng.uniform(0.05, 0.95, d)
        elif kind == 1:
            a = np.full(d, rng.uniform(0.02, 0.98))
        elif kind == 2:
            a = rng.uniform(0.02, 0.3, d)
        else:
            a = rng.uniform(0.6, 0.98, d)
        if d > 2 and (f == 'student' or rng.random() < 0.6):  # a lower-dimensional margin
            keep = rng.choice(d, 2 if f == 'student' or rng.random() < 0.7 else 3, replace=False)
            b = np.ones(d)
            b[keep] = a[keep]
            a = b
        p = _prob(spec, a)
        if p is None:
            continue
        k = int((r <= a).all(1).sum())
        m.count('orthants')
        m.ok(_binom_ok(k, n, p, slack), f'{f} random: the sample does not follow the copula', a=a, observed=k / n,
             expected=p, n=n, **ctx)
        if d == 2:  # upper orthant: 1 - a0 - a1 + C
            q = max(1 - a.sum() + p, 0)
            k = int((r > a).all(1).sum())
            m.ok(_binom_ok(k, n, q, slack + 1e-12), f'{f} random: the sample does not follow the copula (upper orthant)',
                 a=a, observed=k / n, expected=q, n=n, **ctx)
    if f in gen.ARCH:  # concentration about the diagonal
        z = np.abs(r[:, rng.integers(d - 1)] - r[:, -1])
        want = ref.arch_footrule(f, spec['theta'])
        m.count('footrules')
        m.ok(abs(z.mean() - want) < 9 * z.std() / np.sqrt(n) + 1e-6 * want,
             f'{f} random: the sample does not follow the copula (spread about the diagonal)', observed=z.mean(),
             expected=want, sd=z.std(), n=n, **ctx)
    # serial independence
    for j in range(d):
        z = np.corrcoef(r[:-1, j], r[1:, j])[0, 1] * np.sqrt(n)
        m.ok(abs(z) < 7.5, f'{f} random: successive rows are dependent', column=j, z=z, n=n, **ctx)
    m.ok(len(np.unique(r[:, 0])) > 0.98 * n, f'{f} random: repeated values', unique=len(np.unique(r[:, 0])), n=n, **ctx)


def _law(m, f, n_cop, n, strong=0.97):
    rng = m.rng
    done = 0
    while done < n_cop:
        d = int(rng.choice([2, 2, 3, 3, 4, 5, 8]))
        if f == 'student':
            d = int(rng.choice([2, 2, 3, 4]))
        c, spec = gen.make(rng, f, d, strong)
        th = spec.get('theta')
        if f == 'frank' and d > 2 and th > 700:  # documented: comonotone
            continue
        done += 1
        seed = None if rng.random() < 0.5 else int(rng.integers(0, 2 ** 31))
        m.case(f, d, th, spec.get('S'), spec.get('df'), n)
        r = m.must(f'{f} random', c.random, n, seed)
        if r is not None:
            check_sample(m, f, spec, r, n, d, 14 if f == 'gaussian' and d > 2 else 30)


for _f in gen.FAMILIES:
    scenario(P, f'law_{_f}', shards={'quick': 2, 'thorough': 16}, weight=4 if _f == 'student' else 2)(
        lambda m, f=_f: _law(m, f, 16 if not m.thorough else 40, 40000 if not m.thorough else 400000))


for _f in gen.ARCH:
    scenario(P, f'strong_{_f}', shards={'quick': 1, 'thorough': 8}, weight=2)(
        lambda m, f=_f: _law(m, f, 8 if not m.thorough else 30, 40000 if not m.thorough else 400000, 'extreme'))


@scenario(P, shards={'quick': 1, 'thorough': 4})
def shapes(m):
    """sample sizes from 1 upwards, numpy integers, keyword calls"""
    rng = m.rng
    for _ in range(150 if not m.thorough else 1500):
        f = str(rng.choice(gen.FAMILIES))
        d = int(rng.integers(2, 9))
        c, spec = gen.make(rng, f, d)
        n = int(rng.choice([1, 1, 2, 3, 10, 50]))
        m.case(f, d, n, spec.get('theta'), spec.get('S'))
        r = m.must(f'{f} random', c.random, n=n, seed=int(rng.integers(1000))) if rng.random() < 0.5 else \
            m.must(f'{f} random', c.random, n)
        if r is not None:
            check_sample(m, f, spec, r, n, d, 0)


@scenario(P, shards={'quick': 1, 'thorough': 4})
def extreme_strength(m):
    """(nearly) perfect dependence: rows approach the diagonal, margins stay uniform"""
    rng = m.rng
    cl = gen.classes()
    n = 20000
    for f, th, d in [('frank', 300., 2), ('frank', -300., 2), ('frank', 900., 2), ('frank', 1e4, 2), ('frank', 300., 4),
                     ('frank', 1e3, 3), ('gumbel', 60., 3), ('gumbel', 300., 2), ('clayton', 25., 2),
                     ('clayton', 28., 4), ('frank', 1e-9, 2), ('frank', 1e-5, 2), ('frank', 1e-4, 3),
                     ('clayton', 1e-9, 3), ('clayton', 1e-5, 2), ('gumbel', 1 + 1e-9, 3), ('gumbel', 1 + 1e-5, 3)]:
        th = th * (1 + 0.2 * rng.random()) if th > 1.5 else th
        c = cl[f](th, d)
        m.case('extreme', f, th, d)
        r = m.must(f'{f} random', c.random, n)
        if r is None:
            continue
        if not m.ok(np.all((r >= 0) & (r <= 1)), f'{f} random: values outside [0, 1]', theta=th, d=d):
            continue
        for j in range(d):
            m.ok(stats.kstest(r[:, j], 'uniform').pvalue > ALPHA, f'{f} random: margin is not uniform', theta=th, d=d)
        rho = np.corrcoef(r[:, 0], r[:, -1])[0, 1]
        if abs(th) >= 25:
            m.ok(rho * np.sign(th) > 0.97, f'{f} random: strong dependence is missing', theta=th, d=d, rho=rho)
        elif abs(th) < 0.1 or f == 'gumbel' and th < 1.1:
            m.ok(abs(rho) * np.sqrt(n) < 7.5, f'{f} random: independence expected', theta=th, d=d, rho=rho)


@scenario(P, shards={'quick': 1, 'thorough': 4}, min_events=8)
def heavy_tails(m):
    """Student copulas of few degrees of freedom: uniform margins, and the dependence in the corners"""
    from copulae import StudentCopula
    rng = m.rng
    n = 30000
    for _ in range(10 if not m.thorough else 60):
        df = float(10 ** rng.uniform(-.9, 0))
        d = int(rng.choice([2, 2, 3]))
        S = gen.rand_corr(rng, d)
        c = StudentCopula(d, df)
        c[:] = S
        m.case('student', df, d, S.tolist())
        r = m.must('student random', c.random, n, int(rng.integers(2 ** 31)))
        if r is None or not m.ok(np.shape(r) == (n, d), 'student random: shape is not (n, dim)', shape=np.shape(r)):
            continue
        r = np.asarray(r)
        m.ok(np.all((r >= 0) & (r <= 1)), 'student random: values outside [0, 1]', df=df)
        for j in range(d):
            D = stats.kstest(r[:, j], 'uniform').statistic
            m.ok(D < 3.6 / np.sqrt(n), 'student random: margin is not uniform', df=df, D=D)
        for a in range(d):
            for b in range(a):
                t = stats.kendalltau(r[:, a], r[:, b]).statistic
                w = 2 / np.pi * np.arcsin(S[a, b])
                m.ok(abs(t - w) < 7 * 2 / 3 / np.sqrt(n) * 1.6, "student random: Kendall's tau", df=df, tau=t, want=w, S=S)


@scenario(P, shards={'quick': 1, 'thorough': 8}, min_events=8, weight=2)
def weak(m):
    """weak dependence is there: large samples against Spearman's rho of the reference distribution function"""
    rng = m.rng
    cl = gen.classes()
    n = 250000
    x, w = np.polynomial.legendre.leggauss(40)
    x, w = (x + 1) / 2, w / 2
    for i in range(12 if not m.thorough else 40):
        f = ('gumbel', 'clayton', 'frank', 'gaussian', 'student')[i % 5]
        tau = float(10 ** rng.uniform(-1.9, -1.2))
        d = int(rng.choice([2, 2, 3]))
        if f in gen.ARCH:
            if f != 'gumbel' and d == 2 and rng.random() < .4:
                tau = -tau
            th = {'gumbel': 1 / (1 - tau), 'clayton': 2 * tau / (1 - tau), 'frank': 9 * tau}[f]
            c = cl[f](th, d)
            want = 12 * sum(a * b * ref.arch_cdf(f, th, np.array([p, q])) for p, a in zip(x, w) for q, b in zip(x, w)) - 3
        else:
            th = float(np.sin(np.pi * tau / 2)) * float(rng.choice([-1, 1] if d == 2 else [1]))
            c = cl[f](d)
            df = 1.
            if f == 'student':
                df = float(rng.choice([1.5, 4, 30]))
                c = cl[f](d, df)
            c[:] = np.full((d, d), th) + (1 - th) * np.eye(d)
            want = None
        m.case('weak', f, th, d)
        r = m.must(f'{f} random', c.random, n, int(rng.integers(2 ** 31)) if rng.random() < .5 else None)
        if r is None or not m.ok(r.shape == (n, d), f'{f} random: shape is not (n, dim)', shape=r.shape):
            continue
        for j in range(1, d):
            a, b = r[:, 0], r[:, j]
            if want is None:  # concordance of pairs of rows
                s = np.sign((a[0::2] - a[1::2]) * (b[0::2] - b[1::2]))
                z = (s.mean() - 2 / np.pi * np.arcsin(th)) * np.sqrt(n // 2)
            else:
                z = (np.mean(12 * (a - .5) * (b - .5)) - want) * np.sqrt(n)
            m.ok(abs(z) < 7.5, f'{f} random: weak dependence of the sample', parameter=th, d=d, z=z, n=n)
