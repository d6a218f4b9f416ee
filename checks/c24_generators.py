"""One case = one evaluation of the generator of an Archimedean copula, of its inverse or of a derivative of the inverse, at
generated arguments and parameters (weak, strong, negative, zero, perfect independence), in every form of the call; compared
with multi-precision values, with each other (composition, derivative) and with the shape conditions a generator must
satisfy. Non-trivial = distinct (family, parameter, function, arguments)."""
import mpmath as mp
import numpy as np

from vlib import gen, ref
from vlib.core import Raised, scenario

P = 'C24'
ASSUMPTIONS = ['a value is accepted if it is the one of an argument or parameter within 4 units in the last place']


def vec(fn, xs, th, ulp=True):
    """reference values and how far a rounding of the argument carries"""
    with mp.workdps(150):
        t = mp.mpf(float(th))

        def one(x):
            try:
                return float(fn(mp.mpf(float(x)), t))
            except (ZeroDivisionError, ValueError, OverflowError):
                return np.nan
        w = np.array([one(x) for x in xs])
        h = np.array([max(abs(one(np.nextafter(x, -9)) - v), abs(one(np.nextafter(x, 9e99)) - v)) for x, v in zip(xs, w)])
    return w, np.nan_to_num(h)


def compare(m, what, got, want, h, rtol, atol, **ctx):
    if isinstance(got, Raised):
        return m.close(got, want, what, args=ctx)
    got = np.asarray(got, float)
    if got.shape != want.shape:
        return m.close(got, want, what, args=ctx)
    with np.errstate(all='ignore'):
        good = (np.abs(got - want) <= rtol * np.abs(want) + 4 * h + atol) | (got == want)
    m.oracle += 1
    if not good.all():
        i = np.flatnonzero(~good)[:4]
        return m.fail(what, got=got[i], want=want[i], args={k: (v[i] if isinstance(v, np.ndarray) and v.shape == got.shape
                                                                   else v) for k, v in ctx.items()})
    return True


def forms(m, what, fn, x, got):
    if isinstance(got, Raised):
        return
    got = np.asarray(got, float)
    m.close(m.call(fn, x.tolist()), got, what + ' of a list', rtol=1e-13)
    k = len(x) // 2 * 2
    m.close(m.call(fn, x[:k].reshape(-1, 2)), got[:k].reshape(-1, 2), what + ' of a matrix', rtol=1e-13)
    r = m.call(fn, float(x[0]))
    m.close(r, got[0], what + ' of a scalar', rtol=1e-13)


@scenario(P, shards={'quick': 4, 'thorough': 32}, min_events=200)
def values(m):
    rng = m.rng
    for i in range(120 if not m.thorough else 600):
        f = gen.ARCH[int(rng.integers(3))]
        d = int(rng.choice([2, 2, 3]))
        th = gen.rand_theta(rng, f, d, .97)
        if rng.random() < .15:  # next to independence
            th = float(10 ** rng.uniform(-9, -2)) * (1 if f == 'gumbel' or d > 2 else float(rng.choice([-1, 1])))
            if f == 'gumbel':
                th = 1 + th
        cop = gen.classes()[f](th, d)
        R = ref.ARCH[f]
        n = 10
        u = np.where(rng.random(n) < .6, rng.uniform(.01, .99, n),
                     np.where(rng.random(n) < .5, 10 ** rng.uniform(-6, -1, n), 1 - 10 ** rng.uniform(-8, -1, n)))
        if rng.random() < .2:
            u[:4] = 10 ** rng.uniform(-100, -6, 4)
        if f == 'clayton':  # (theta * log u) within the range of exp
            u = np.maximum(u, np.exp(-300 / max(abs(th), 1)))
        keep = u.copy()
        tol = 1e-11
        # inverse generator
        want, h = vec(R.ipsi, u, th)
        m.case(f, th, 'ipsi', u.tolist())
        s = m.call(cop.ipsi, u)
        if compare(m, f + ' ipsi', s, want, h, tol, 1e-300 if f != 'frank' else 1e-15 if abs(th) > .01 else 2e-14,
                   theta=th, u=u):
            forms(m, f + ' ipsi', cop.ipsi, u, s)
            pos = want > (1e-6 if f == 'frank' else 1e-12)
            lw = np.log(np.where(pos, want, 1))
            g = m.call(cop.ipsi, u, True) if rng.random() < .5 else m.call(cop.ipsi, u, log=True)
            compare(m, f + ' log ipsi', np.asarray(g, float)[pos] if not isinstance(g, Raised) else g, lw[pos],
                    (h / np.maximum(want, 1e-300))[pos], 1e-9, 1e-8, theta=th, u=u[pos])
        # generator
        t = want * np.where(rng.random(n) < .5, 1, rng.uniform(0, 2, n))
        t = np.where(np.isfinite(t), t, 1.)
        w2, h2 = vec(R.psi, t, th)
        m.case(f, th, 'psi', t.tolist())
        g = m.call(cop.psi, t)
        if compare(m, f + ' psi', g, w2, h2, tol, 1e-14 if f == 'frank' else 1e-290, theta=th, s=t):
            forms(m, f + ' psi', cop.psi, t, g)
        m.close(m.call(lambda: cop.psi(cop.ipsi(u))), u, f + ': the generator undoes its inverse', rtol=1e-7, atol=1e-7,
                theta=th)
        # derivatives of the inverse
        for deg, fn in ((1, R.dipsi), (2, R.d2ipsi)):
            w3, h3 = vec(fn, u, th)
            m.case(f, th, 'dipsi', deg, u.tolist())
            g = m.call(cop.dipsi, u, deg) if deg == 2 or rng.random() < .5 else m.call(cop.dipsi, u)
            if compare(m, f'{f} dipsi', g, w3, h3, 1e-9, 1e-280, theta=th, u=u, degree=deg):
                forms(m, f'{f} dipsi', lambda x: cop.dipsi(x, deg), u, g)
            a = np.abs(w3)
            ok = a > 1e-250
            g = m.call(cop.dipsi, u, deg, True)
            compare(m, f'{f} log dipsi', np.asarray(g, float)[ok] if not isinstance(g, Raised) else g, np.log(a[ok]),
                    (h3 / np.maximum(a, 1e-300))[ok], 1e-9, 1e-9, theta=th, u=u[ok], degree=deg)
        m.ok(np.array_equal(u, keep), 'the argument is left alone')
        for deg in (0, 3):
            m.raises('derivative of degree 0 or 3', (AssertionError, ValueError), cop.dipsi, u, deg)


@scenario(P, shards={'quick': 1, 'thorough': 8}, min_events=60)
def logarithms(m):
    """the Clayton generator's derivatives on the log scale, where they themselves leave the range of numbers"""
    rng = m.rng
    for i in range(60 if not m.thorough else 600):
        d = int(rng.choice([2, 3]))
        th = float(10 ** rng.uniform(-3, 3))
        cop = gen.classes()['clayton'](th, d)
        u = 10 ** -rng.uniform(0, 300, 8)
        deg = int(rng.choice([1, 2]))
        with mp.workdps(60):
            fn = (ref.ARCH['clayton'].dipsi, ref.ARCH['clayton'].d2ipsi)[deg - 1]
            want = np.array([float(mp.log(abs(fn(mp.mpf(float(x)), mp.mpf(th))))) for x in u])
        m.case('clayton', th, 'log dipsi', deg, u.tolist())
        m.count('values beyond the range of numbers', int((np.abs(want) > 709).sum()))
        m.close(m.call(cop.dipsi, u, deg, True), want, 'clayton log dipsi', rtol=1e-11, atol=1e-10, theta=th, u=u, degree=deg)


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=60)
def shape(m):
    """a generator decreases from 1 and is convex; its inverse decreases to 0"""
    rng = m.rng
    for i in range(60 if not m.thorough else 600):
        f = gen.ARCH[int(rng.integers(3))]
        d = int(rng.choice([2, 3, 5]))
        th = gen.rand_theta(rng, f, d, .98)
        cop = gen.classes()[f](th, d)
        m.case(f, d, th)
        u = np.sort(rng.uniform(.02, 1, 60))
        if f == 'clayton' and th > 20:
            u = np.maximum(u, .2)
        s = m.must(f + ' ipsi', cop.ipsi, u)
        m.close(m.call(cop.ipsi, 1.), 0., 'the inverse generator of 1 is 0', atol=1e-12, family=f, theta=th)
        m.close(m.call(cop.psi, 0.), 1., 'the generator of 0 is 1', rtol=1e-12, family=f, theta=th)
        e = 1e-12 * np.max(np.abs(s))
        m.ok((np.diff(s) <= e).all() and (s >= -e).all(), 'the inverse generator decreases', family=f, theta=th)
        t = np.linspace(0, float(np.max(s)), 200)
        p = m.must(f + ' psi', cop.psi, t)
        m.ok((np.diff(p) <= 1e-13).all() and (p >= 0).all() and (p <= 1 + 1e-13).all(), 'the generator decreases from 1 to 0',
             family=f, theta=th, psi=p)
        m.ok((np.diff(p, 2) >= -1e-11).all(), 'the generator is convex', family=f, theta=th, psi=p)
        # derivative of the inverse against differences
        x = rng.uniform(.1, .9, 5)
        hh = 1e-5
        dif = (np.asarray(cop.ipsi(x + hh)) - np.asarray(cop.ipsi(x - hh))) / (2 * hh)
        m.close(m.call(cop.dipsi, x), dif, 'derivative of the inverse generator', rtol=2e-3, atol=1e-5 * np.max(np.abs(s)),
                family=f, theta=th, x=x)
