"""One case = one evaluation of a counting function (Eulerian and Stirling numbers, generalised combinations and
permutations, signs of falling factorials), of a polynomial, of the coefficients and values of the Gumbel polynomial by any
of its methods, of a Sibuya sum or of the Pickands dependence function; compared with exact rational or multi-precision
values from the definitions. Non-trivial = distinct (function, method, arguments)."""
import math
from fractions import Fraction

import mpmath as mp
import numpy as np

from vlib.core import Raised, scenario

P = 'C25'
ASSUMPTIONS = ['the methods "direct", "horner", "sort", "log", "diff" of the Gumbel coefficients cancel in higher dimensions by '
               'design; they are judged up to dimension 8, with tolerances growing with it, "recursive" up to 60']


def triangles(N):
    E, S1, S2 = {(0, 0): 1}, {(0, 0): 1}, {(0, 0): 1}
    for n in range(1, N + 1):
        for k in range(n + 1):
            E[n, k] = (k + 1) * E.get((n - 1, k), 0) + (n - k) * E.get((n - 1, k - 1), 0)
            S1[n, k] = S1.get((n - 1, k - 1), 0) - (n - 1) * S1.get((n - 1, k), 0)
            S2[n, k] = S2.get((n - 1, k - 1), 0) + k * S2.get((n - 1, k), 0)
    return E, S1, S2


@scenario(P, shards={'quick': 1, 'thorough': 1}, min_events=500)
def counting(m):
    from copulae.special import special_func as F
    N = 40 if not m.thorough else 90
    E, S1, S2 = triangles(N)
    order = [(n, k) for n in range(N + 1) for k in range(n + 1)]
    m.rng.shuffle(order)  # what a call leaves behind must not matter
    for n, k in order:
        for name, fn, T in (('eulerian', F.eulerian, E), ('stirling_first', F.stirling_first, S1),
                            ('stirling_second', F.stirling_second, S2)):
            m.case(name, n, k)
            a = (n, k) if m.rng.random() < .8 else (float(n), str(k)) if m.rng.random() < .5 else (np.int64(n), np.float64(k))
            got = m.call(fn, *a)
            m.ok(not isinstance(got, Raised) and got == T[n, k], name, n=n, k=k, got=got, want=T[n, k])
    for n in m.rng.permutation(np.arange(1, N + 1)).tolist():
        for name, fn, T, ks in (('eulerian_all', F.eulerian_all, E, range(n)),
                                ('stirling_first_all', F.stirling_first_all, S1, range(1, n + 1)),
                                ('stirling_second_all', F.stirling_second_all, S2, range(1, n + 1))):
            m.case(name, n)
            got = m.call(fn, n)
            m.ok(not isinstance(got, Raised) and list(got) == [T[n, k] for k in ks], name, n=n, got=got)
            if isinstance(got, list):
                got[0] = -1  # the caller may do with it what he wants
                again = m.call(fn, n)
                m.ok(list(again) == [T[n, k] for k in ks], name + ' again', n=n, got=again)
    for fn in (F.eulerian, F.stirling_first, F.stirling_second):
        m.raises('k > n', AssertionError, fn, 3, 4)
        m.raises('negative k', AssertionError, fn, 3, -1)
        m.raises('not a number', TypeError, fn, 'a', 1)
        m.raises('nothing', TypeError, fn, 3, None)


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=200)
def combinations(m):
    from copulae.special import comb, perm, sign_ff
    rng = m.rng
    for i in range(250 if not m.thorough else 2000):
        k = int(rng.integers(3))
        size = int(rng.integers(1, 6))
        if k == 0:  # whole numbers
            n = rng.integers(0, 40, size)
            r = rng.integers(0, n + 1)
            if rng.random() < .2:
                r = n + rng.integers(1, 4, size)
        elif k == 1:  # positive, fractional
            n = rng.uniform(0, 30, size)
            r = rng.integers(0, 12, size)
        else:
            n, r = rng.uniform(5, 40, size), rng.uniform(0, 5, size)
        with mp.workdps(50):
            nn, rr = [mp.mpf(float(x)) for x in n], [mp.mpf(float(x)) for x in r]
            c = [mp.binomial(a, b) if k else mp.mpf(math.comb(int(a), int(b))) for a, b in zip(nn, rr)]
            p = [mp.rf(a - b + 1, b) if k == 1 else (mp.gammaprod([a + 1], [a - b + 1])) for a, b in zip(nn, rr)]
            lc = np.array([float(mp.log(abs(v))) if v else -np.inf for v in c])
            lp = np.array([float(mp.log(abs(v))) if v else -np.inf for v in p])
            c, p = np.array([float(v) for v in c]), np.array([float(v) for v in p])
        # near a zero of the function the rounding of the arguments counts
        near = 1e-9 if k == 0 else 1e-7
        m.case('comb', k, n.tolist(), r.tolist())
        a, b = (n, r) if rng.random() < .7 else (n.tolist(), r.tolist())
        m.close(m.call(comb, a, b), c, 'combinations', rtol=near, atol=1e-9, n=n, r=r)
        m.close(m.call(perm, a, b), p, 'permutations', rtol=near, atol=1e-9, n=n, r=r)
        ok = lc > -15
        g = m.call(comb, a, b, True)
        m.close(np.where(ok, g, 0), np.where(ok, lc, 0), 'log combinations', rtol=1e-6, atol=1e-7, n=n, r=r)
        m.ok(not isinstance(g, Raised) and np.isneginf(np.asarray(g)[np.isneginf(lc)]).all(), 'log of no combination', n=n,
             r=r, got=g)
        g = m.call(perm, a, b, log=True)
        m.close(np.where(lp > -15, g, 0), np.where(lp > -15, lp, 0), 'log permutations', rtol=1e-6, atol=1e-7, n=n, r=r)
        m.close(m.call(comb, n[0].item(), r[0].item()), c[0], 'combinations of scalars', rtol=near, atol=1e-9, n=n[0], r=r[0])
        m.close(m.call(comb, n, r[0]), [float(m.call(comb, x, r[0])) for x in n], 'combinations broadcast', rtol=1e-10)

        # signs
        d = int(rng.integers(1, 25))
        j = rng.integers(1, d + 1, int(rng.integers(2, 6)))
        q = int(rng.integers(2, 30))
        al = Fraction(int(rng.integers(1, q)), q) if rng.random() < .7 else Fraction(float(rng.uniform(.01, .999)))
        if rng.random() < .05:
            al = Fraction(1)
        # the parameter as it is in floating point; skip if rounding of alpha * j decides
        fl = float(al)
        x = [Fraction(fl) * int(v) for v in j]
        if any(abs(v - round(v)) < 1e-12 and fl * int(w) != v for v, w in zip(x, j)):
            continue

        def sgn(v, w):
            t = Fraction(1)
            for e in range(d):
                t *= v - e
            t *= (-1) ** (d - int(w))
            return float((t > 0) - (t < 0))
        want = np.array([sgn(v, w) for v, w in zip(x, j)])
        m.case('sign_ff', fl, d, j.tolist())
        m.close(m.call(sign_ff, fl, j, d), want, 'signs', rtol=0, alpha=fl, j=j, d=d)
        m.close(m.call(sign_ff, fl, j.tolist(), [d] * len(j)), want, 'signs of lists', rtol=0, alpha=fl, j=j, d=d)
        m.close(m.call(sign_ff, fl, int(j[0]), d), want[0], 'sign of scalars', rtol=0, alpha=fl, j=j[0], d=d)
    for al in (0., -1., 1.5):
        m.raises('sign of an invalid parameter', AssertionError, sign_ff, al, 1, 2)
    m.raises('sign for negative j', AssertionError, sign_ff, .5, -1, 2)
    m.raises('sign for negative d', AssertionError, sign_ff, .5, 1, -2)


@scenario(P, shards={'quick': 1, 'thorough': 8}, min_events=200)
def polynomials(m):
    from copulae.special.special_func import polyn_eval
    rng = m.rng
    for i in range(200 if not m.thorough else 2000):
        n = int(rng.integers(1, 12))
        c = rng.normal(size=n) * 10 ** rng.uniform(-3, 3, n)
        if rng.random() < .3:
            c = rng.integers(-9, 9, n)
        x = rng.normal(size=int(rng.integers(2, 7))) * 2
        want = np.array([float(sum(Fraction(float(a)) * Fraction(float(v)) ** e for e, a in enumerate(c))) for v in x])
        mag = np.array([sum(abs(a) * abs(v) ** e for e, a in enumerate(c)) for v in x])
        m.case(c.tolist(), x.tolist())
        for cc in (c, c.tolist(), tuple(c.tolist())):
            got = m.call(polyn_eval, cc, x)
            m.ok(not isinstance(got, Raised) and np.shape(got) == x.shape and (np.abs(got - want) <= 1e-13 * mag).all(),
                 'polynomial', coef=c, x=x, got=got, want=want)
        got = m.call(polyn_eval, c, float(x[0]))
        m.ok(not isinstance(got, Raised) and np.ndim(got) == 0 and abs(got - want[0]) <= 1e-13 * mag[0],
             'polynomial at a scalar', coef=c, x=x[0], got=got)
        got = m.call(polyn_eval, c, np.c_[x, x])
        m.close(got, np.c_[want, want], 'polynomial at a matrix', rtol=0, atol=1e-13 * mag.max())
        v = int(rng.integers(-3, 4))
        m.close(m.call(polyn_eval, c, v), float(sum(Fraction(float(a)) * v ** e for e, a in enumerate(c))),
                'polynomial at a whole number', rtol=1e-12, atol=1e-9, coef=c, x=v)


def _falling(a, d):
    r = mp.mpf(1)
    for e in range(d):
        r *= (a - e)
    return r


def _gumbel_coef(d, alpha):
    """a[d,k] = (-1)^(d-k) sum_{j>=k} alpha^j s(d,j) S(j,k)"""
    _, S1, S2 = triangles(d)
    a = mp.mpf(float(alpha))
    return [(-1) ** (d - k) * mp.fsum(a ** j * S1[d, j] * S2[j, k] for j in range(k, d + 1)) for k in range(1, d + 1)]


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=60)
def gumbel(m):
    from copulae.archimedean.gumbel import gumbel_coef, gumbel_poly
    rng = m.rng
    for i in range(60 if not m.thorough else 500):
        rec = rng.random() < .3
        d = int(rng.integers(1, 61 if rec else 9))
        al = float(rng.choice([rng.uniform(.02, .98), 1 / rng.integers(2, 9), rng.uniform(.9, .999)]))
        with mp.workdps(80 + 2 * d):
            a = _gumbel_coef(d, al)
            la = np.array([float(mp.log(v)) for v in a])
        meth = 'recursive' if rec else str(rng.choice(['sort', 'horner', 'direct', 'log', 'ds.direct', 'diff', 'recursive']))
        m.case('gumbel_coef', meth, d, al)
        # coefficients are sums of terms of either sign
        tol = 1e-10 if meth == 'recursive' else 1e-11 * 8. ** d
        kw = {} if meth == 'sort' and rng.random() < .5 else {'method': meth}
        # cancellation is relative to the largest term; coefficients tiny against it are not judged
        _, S1, S2 = triangles(d)
        big = np.array([max(al ** j * abs(S1[d, j]) * S2[j, k] for j in range(k, d + 1)) for k in range(1, d + 1)])
        ok = np.ones(d, bool) if meth == 'recursive' else np.exp(la) > 1e-6 * big
        g = m.call(gumbel_coef, d, al, **kw)
        m.close(np.where(ok, np.log(np.where(ok, g, 1)), 0) if not isinstance(g, Raised) else g, np.where(ok, la, 0),
                'coefficients of the Gumbel polynomial', atol=tol, rtol=1e-9, method=meth, d=d, alpha=al)
        g = m.call(gumbel_coef, d, al, meth, True)
        m.close(np.where(ok, g, 0) if not isinstance(g, Raised) else g, np.where(ok, la, 0),
                'log coefficients of the Gumbel polynomial', atol=tol, rtol=1e-9, method=meth, d=d, alpha=al)
        lx = rng.uniform(-8, 8, int(rng.integers(2, 6)))
        with mp.workdps(80 + 2 * d):
            w = np.array([float(mp.log(mp.fsum(v * mp.exp(mp.mpf(float(x)) * (k + 1)) for k, v in enumerate(a))))
                          for x in lx])
        pm = 'recursive' if rec else str(rng.choice(['default', 'direct', 'log', 'sort', 'recursive', 'pois']))
        if rec and rng.random() < .5:
            pm = 'default'
        if pm == 'pois':  # cancels for small arguments
            lx = np.log(rng.uniform(1, 30, len(lx)) * d)
            with mp.workdps(80 + 2 * d):
                w = np.array([float(mp.log(mp.fsum(v * mp.exp(mp.mpf(float(x)) * (k + 1)) for k, v in enumerate(a))))
                              for x in lx])
        if pm not in ('recursive', 'default') and not ok.all():
            continue
        if pm == 'default' and 9 <= d <= 30:
            continue
        m.case('gumbel_poly', pm, d, al, lx.tolist())
        t = dict(rtol=1e-8, atol=1e-9 if pm in ('recursive', 'default') else 1e-11 * 10. ** d)
        m.close(m.call(gumbel_poly, lx, al, d, pm, True), w, 'log Gumbel polynomial', method=pm, d=d, alpha=al, lx=lx, **t)
        small = np.abs(w) < 300
        g = m.call(gumbel_poly, lx, al, d, pm)
        m.close(np.where(small, np.log(np.where(small, g, 1)), 0) if not isinstance(g, Raised) else g, np.where(small, w, 0),
                'Gumbel polynomial', method=pm, d=d, alpha=al, lx=lx, **t)
        k = len(lx) // 2 * 2
        g = m.call(gumbel_poly, lx[:k].reshape(2, -1), al, d, pm, True)
        m.close(g, w[:k].reshape(2, -1), 'Gumbel polynomial of a matrix', method=pm, d=d, alpha=al, lx=lx, **t)
    for bad in ((0, .5), (3, 0.), (3, 1.5), (2.5, .5)):
        m.raises('coefficients for an invalid dimension or parameter', AssertionError, gumbel_coef, *bad)
    m.raises('unknown method', AssertionError, gumbel_coef, 3, .5, 'foo')
    m.raises('unknown method', AssertionError, gumbel_poly, np.zeros(2), .5, 3, 'foo')


@scenario(P, shards={'quick': 2, 'thorough': 16}, min_events=60)
def sibuya(m):
    from copulae.archimedean.auxiliary import dsum_sibuya
    rng = m.rng
    for i in range(80 if not m.thorough else 800):
        al = float(rng.choice([rng.uniform(.05, .95), 1 / rng.integers(2, 9), 1.])) if rng.random() < .9 else 1.
        k = int(rng.integers(5))
        x = rng.integers(0, 15, int(rng.integers(2, 6)))
        n = {0: rng.integers(1, 7, len(x)), 1: int(rng.integers(1, 7)), 2: rng.integers(1, 7, len(x)),
             3: rng.integers(0, 7, len(x)), 4: rng.integers(1, 7, int(rng.integers(1, 8)))}[k]
        if k == 2:
            x = int(rng.integers(1, 12))
        if k == 4:  # the shorter one is recycled
            X, N = np.resize(x, max(len(x), len(n))), np.resize(n, max(len(x), len(n)))
        else:
            X, N = np.broadcast_arrays(x, n)

        def prob(xx, nn):
            """coefficient of z^xx in (1 - (1 - z)^alpha)^nn"""
            xx, nn = int(xx), int(nn)
            if xx < nn:
                return mp.mpf(0)
            a = mp.mpf(al)
            one = [-(-1) ** e * _falling(a, e) / mp.factorial(e) if e else mp.mpf(0) for e in range(xx + 1)]
            res = [mp.mpf(1)] + [mp.mpf(0)] * xx
            for _ in range(nn):
                res = [mp.fsum(res[b] * one[e - b] for b in range(e + 1)) for e in range(xx + 1)]
            return res[xx]

        with mp.workdps(50):
            want = np.array([float(prob(a, b)) for a, b in zip(X, N)])
        for meth in ('log', 'direct', 'diff'):
            m.case(meth, al, np.ravel(x).tolist(), np.ravel(n).tolist())
            m.close(m.call(dsum_sibuya, x, n, al, meth), want, 'Sibuya sum', rtol=1e-5, atol=1e-10, x=x, n=n, alpha=al,
                    method=meth)
            with np.errstate(all='ignore'):
                lw = np.log(want)
            ok = (want > 1e-6) | (want == 0)
            g = m.call(dsum_sibuya, x, n, al, meth, True)
            m.close(np.where(ok, g, 0) if not isinstance(g, Raised) else g, np.where(ok, lw, 0), 'log Sibuya sum', atol=1e-4,
                    rtol=1e-5, x=x, n=n, alpha=al, method=meth)
    for bad in ((3, -1, .5), (3, 1, 0.), (3, 1, 1.5)):
        m.raises('Sibuya sum of invalid arguments', AssertionError, dsum_sibuya, *bad)


@scenario(P, shards={'quick': 1, 'thorough': 8}, min_events=100)
def pickands(m):
    from copulae import GumbelCopula
    rng = m.rng
    for i in range(150 if not m.thorough else 1500):
        th = float(rng.choice([1 + 10 ** rng.uniform(-4, 0), rng.uniform(1, 8), 10 ** rng.uniform(0, 3.5), 1., 2.]))
        c = GumbelCopula(th, 2)
        w = np.sort(np.where(rng.random(9) < .7, rng.uniform(.02, .98, 9), 10 ** rng.uniform(-6, -1, 9)))
        with mp.workdps(40):
            t = mp.mpf(th)
            f = lambda x: (x ** t + (1 - x) ** t) ** (1 / t)
            W = [mp.mpf(float(x)) for x in w]
            A = np.array([float(f(x)) for x in W])
            d1 = np.array([float((x ** t + (1 - x) ** t) ** (1 / t - 1) * (x ** (t - 1) - (1 - x) ** (t - 1))) for x in W])
            d2 = np.array([float((t - 1) * (x * (1 - x)) ** (t - 2) * (x ** t + (1 - x) ** t) ** (1 / t - 2)) for x in W])
        m.case(th, w.tolist())
        got = m.call(c.A, w)
        m.close(got, A, 'Pickands dependence function', rtol=1e-12, theta=th, w=w)
        m.close(m.call(c.A, w.tolist()), A, 'Pickands dependence function of a list', rtol=1e-12)
        m.close(m.call(c.A, float(w[0])), A[0], 'Pickands dependence function of a scalar', rtol=1e-12)
        m.close(m.call(c.A, np.array([0., 1.])), [1., 1.], 'Pickands dependence function at the ends', rtol=1e-14)
        if not isinstance(got, Raised):
            m.ok((got >= np.maximum(w, 1 - w) - 1e-12).all() and (got <= 1 + 1e-12).all(),
                 'Pickands dependence function is between max(w, 1 - w) and 1', got=got, w=w, theta=th)
        g = m.call(c.dAdu, w)
        m.ok(not isinstance(g, Raised) and np.shape(g) == (len(w), 2), 'two derivatives per point', got=g)
        if not isinstance(g, Raised) and np.shape(g) == (len(w), 2):
            m.close(g[:, 0], d1, 'first derivative of the Pickands function', rtol=1e-9, atol=1e-11 * th, theta=th, w=w)
            m.close(g[:, 1], d2, 'second derivative of the Pickands function', rtol=1e-8 * max(1, th / 10), atol=1e-11,
                    theta=th, w=w)
            m.close(np.ravel(m.call(c.dAdu, float(w[3]))), g[3], 'derivatives at a scalar', rtol=1e-9, atol=1e-11 * th)
        # what the function is for
        u = rng.uniform(.05, .95, (5, 2))
        lg = np.log(u)
        m.close(m.call(c.cdf, u), np.exp(lg.sum(1) * c.A(lg[:, 1] / lg.sum(1))),
                'the copula is the extreme-value copula of its Pickands function', rtol=1e-8, theta=th)
