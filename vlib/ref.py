"""Reference implementations: textbook definitions in multi-precision arithmetic or independent quadrature.

Nothing here imports the code under test."""
import math

import mpmath as mp
import numpy as np
from scipy import stats

mp.mp.dps = 60


# --- Archimedean families ----------------------------------------------------------------------------------------
class Clayton:
    @staticmethod
    def ipsi(u, th):
        if th == 0:
            return -mp.log(u)
        return (u ** (-th) - 1) * (1 if th > 0 else -1)

    @staticmethod
    def dipsi(u, th):
        if th == 0:
            return -1 / u
        return -abs(th) * u ** (-th - 1)

    @staticmethod
    def d2ipsi(u, th):
        if th == 0:
            return 1 / u ** 2
        return abs(th) * (1 + th) * u ** (-th - 2)

    @staticmethod
    def psi(t, th):
        if th == 0:
            return mp.exp(-t)
        s = 1 if th > 0 else -1
        x = 1 + s * t
        return x ** (-1 / th) if x > 0 else mp.mpf(0)

    @staticmethod
    def dpsi(t, th, d):
        """d-th derivative"""
        if th == 0:
            return (-1) ** d * mp.exp(-t)
        s = 1 if th > 0 else -1
        x = 1 + s * t
        if x <= 0:
            return mp.mpf(0)
        c = mp.mpf(1)
        for k in range(d):
            c *= (-1 / th - k)
        return c * mp.mpf(s) ** d * x ** (-1 / th - d)


class Frank:
    @staticmethod
    def ipsi(u, th):
        if th == 0:
            return -mp.log(u)
        return -mp.log(mp.expm1(-th * u) / mp.expm1(-th))

    @staticmethod
    def dipsi(u, th):
        if th == 0:
            return -1 / u
        return -th / mp.expm1(th * u)

    @staticmethod
    def d2ipsi(u, th):
        if th == 0:
            return 1 / u ** 2
        return th ** 2 * mp.exp(th * u) / mp.expm1(th * u) ** 2

    @staticmethod
    def psi(t, th):
        if th == 0:
            return mp.exp(-t)
        return -mp.log1p(mp.exp(-t) * mp.expm1(-th)) / th

    @staticmethod
    def dpsi(t, th, d):
        if th == 0:
            return (-1) ** d * mp.exp(-t)
        # -1/th * log(1 - c e^-t): with y = c e^-t, the d-th derivative is (-1)^d Li_{1-d}(y) / th
        y = -mp.expm1(-th) * mp.exp(-t)
        # Li_{1-d}(y) = sum_k k! S(d, k+1)... by the operator (y d/dy)^(d-1) on y/(1-y), in powers of r = y/(1-y)
        r = y / (1 - y)
        coef = [mp.mpf(0), mp.mpf(1)]  # polynomial in r; y dr/dy = r (1 + r)
        for _ in range(d - 1):
            new = [mp.mpf(0)] * (len(coef) + 1)
            for k, c in enumerate(coef):
                new[k] += k * c
                new[k + 1] += k * c
            coef = new
        li = sum(c * r ** k for k, c in enumerate(coef))
        return (-1) ** d * li / th


class Gumbel:
    @staticmethod
    def ipsi(u, th):
        return (-mp.log(u)) ** th

    @staticmethod
    def dipsi(u, th):
        return -th * (-mp.log(u)) ** (th - 1) / u

    @staticmethod
    def d2ipsi(u, th):
        l = -mp.log(u)
        return th * (th - 1 + l) * l ** (th - 2) / u ** 2

    @staticmethod
    def psi(t, th):
        return mp.exp(-t ** (1 / th))

    @staticmethod
    def dpsi(t, th, d):
        # Taylor coefficients of exp(-(t + h)^a): power series of the binomial, then of the exponential
        a = 1 / th
        f = [t ** a]
        for k in range(1, d + 1):
            f.append(f[-1] * (a - k + 1) / k / t)
        f = [-x for x in f]
        g = [mp.exp(f[0])]
        for k in range(1, d + 1):
            g.append(sum(j * f[j] * g[k - j] for j in range(1, k + 1)) / k)
        return g[d] * mp.factorial(d)


ARCH = {'clayton': Clayton, 'frank': Frank, 'gumbel': Gumbel}


def _digits(family, theta):
    """the Frank generator cancels exp(-theta) from 1"""
    return mp.workdps(60 + (int(0.45 * abs(theta)) if family == 'frank' and abs(theta) > 40 else 0))


def arch_cdf(family, theta, u, log=False):
    """u: vector"""
    with _digits(family, theta):
        return _arch_cdf(family, theta, u, log)


def arch_logpdf(family, theta, u):
    with _digits(family, theta):
        return _arch_logpdf(family, theta, u)


def arch_footrule(family, theta, n=80):
    """E|U - V| = 1 - 2 int C(t, t) dt"""
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = (x + 1) / 2, w / 2
    for _ in range(2):  # cluster the nodes at 0 and 1
        w = w * 6 * x * (1 - x)
        x = x * x * (3 - 2 * x)
    return 2 * float(sum(wi * (xi - arch_cdf(family, theta, [xi, xi])) for xi, wi in zip(x, w)))


def _arch_cdf(family, theta, u, log=False):
    g, th = ARCH[family], mp.mpf(float(theta))
    if any(x == 0 for x in u):
        return -math.inf if log else 0.0
    t = sum((g.ipsi(mp.mpf(float(x)), th) for x in u), mp.mpf(0))
    c = g.psi(t, th)
    if log:
        return float(mp.log(c)) if c > 0 else -math.inf
    return float(c)


def _arch_logpdf(family, theta, u):
    g, th = ARCH[family], mp.mpf(float(theta))
    u = [mp.mpf(float(x)) for x in u]
    d = len(u)
    t = sum((g.ipsi(x, th) for x in u), mp.mpf(0))
    v = abs(g.dpsi(t, th, d))
    if v == 0:
        return -math.inf
    r = mp.log(v)
    for x in u:
        r += mp.log(abs(g.dipsi(x, th)))
    return float(r)


def arch_tau(family, theta):
    """Kendall's tau by the definition for Archimedean copulas: 1 + 4 int psi^-1 / (psi^-1)'"""
    th = mp.mpf(float(theta))
    if family == 'clayton':
        return float(th / (th + 2))
    if family == 'gumbel':
        return float((th - 1) / th)
    if th == 0:
        return 0.0
    d1 = debye(1, th)
    return float(1 + 4 / th * (d1 - 1))


def debye(n, x):
    x = mp.mpf(x)
    if x == 0:
        return mp.mpf(1)
    f = lambda t: t ** n / mp.expm1(t) if t != 0 else (mp.mpf(1) if n == 1 else mp.mpf(0))
    ax = abs(x)
    pts = [0]
    for p in (1, 5, 20, 60, 150):
        if p < ax:
            pts.append(p)
    if ax > 400:
        v = mp.quad(f, pts + [400])
    else:
        v = mp.quad(f, pts + [ax])
    v = n / ax ** n * v
    if x < 0:  # D_n(-x) = D_n(x) + n x / (n + 1), x > 0
        v += n * ax / (n + 1)
    return v


def frank_rho(theta):
    th = mp.mpf(float(theta))
    if th == 0:
        return 0.0
    return float(1 - 12 / th * (debye(1, th) - debye(2, th)))


# --- elliptical families -----------------------------------------------------------------------------------------
_GL = np.polynomial.legendre.leggauss(200)


def bvn_cdf(h, k, rho):
    """P(X <= h, Y <= k), by Drezner and Wesolowsky's integral over arcsin(rho), in 4 panels of 200 nodes"""
    if rho == 1:
        return stats.norm.cdf(min(h, k))
    if rho == -1:
        return max(stats.norm.cdf(h) + stats.norm.cdf(k) - 1, 0.)
    a = math.asin(rho)
    x, w = _GL
    tot = 0.
    edges = a * (1 - np.geomspace(1, 1e-6, 12))
    edges = np.append(edges, a)
    for lo, hi in zip(edges[:-1], edges[1:]):
        th = (hi - lo) / 2 * x + (hi + lo) / 2
        s, c2 = np.sin(th), np.cos(th) ** 2
        with np.errstate(all='ignore'):
            tot += (hi - lo) / 2 * np.sum(w * np.exp(-(h * h - 2 * h * k * s + k * k) / (2 * c2)))
    return stats.norm.cdf(h) * stats.norm.cdf(k) + tot / (2 * np.pi)


def bvn_cdf_many(h, k, rho):
    """the same for vectors, by Owen-free quadrature in r = sin(theta)"""
    h, k = np.asarray(h, float), np.asarray(k, float)
    a = math.asin(rho)
    x, w = _GL
    tot = np.zeros(len(h))
    for lo, hi in ((0, a * 0.9), (a * 0.9, a * 0.99), (a * 0.99, a)):
        th = (hi - lo) / 2 * x + (hi + lo) / 2
        s, c2 = np.sin(th)[:, None], np.cos(th)[:, None] ** 2
        with np.errstate(all='ignore'):
            tot += (hi - lo) / 2 * (w[:, None] * np.exp(-(h * h - 2 * h * k * s + k * k) / (2 * c2))).sum(0)
    return stats.norm.cdf(h) * stats.norm.cdf(k) + tot / (2 * np.pi)


def one_factor_cdf(q, b):
    """P(X <= q), corr_ij = b_i b_j, by quadrature over the common factor"""
    z = np.linspace(-9, 9, 6001)
    b = np.asarray(b, float)
    p = np.prod(stats.norm.cdf((np.asarray(q)[:, None] - b[:, None] * z) / np.sqrt(1 - b[:, None] ** 2)), axis=0)
    f = p * stats.norm.pdf(z)
    return float(np.sum(f) * (z[1] - z[0]))


def gauss_logpdf(u, R):
    q = stats.norm.ppf(np.atleast_2d(u))
    L = np.linalg.cholesky(R)
    z = np.linalg.solve(L, q.T)
    return -np.log(np.diag(L)).sum() - 0.5 * (z ** 2).sum(0) + 0.5 * (q ** 2).sum(1)


def student_logpdf(u, R, df):
    from scipy.special import gammaln
    q = stats.t.ppf(np.atleast_2d(u), df)
    d = q.shape[1]
    L = np.linalg.cholesky(R)
    z = np.linalg.solve(L, q.T)
    joint = (gammaln((df + d) / 2) - gammaln(df / 2) - d / 2 * np.log(df * np.pi) - np.log(np.diag(L)).sum()
             - (df + d) / 2 * np.log1p((z ** 2).sum(0) / df))
    marg = (gammaln((df + 1) / 2) - gammaln(df / 2) - 0.5 * np.log(df * np.pi) - (df + 1) / 2 * np.log1p(q ** 2 / df))
    return joint - marg.sum(1)


def sigma_of(rhos):
    """correlation matrix from the strictly-lower triangle, column by column: (1,0), (2,0), .., (2,1), .."""
    n = len(rhos)
    d = int(round((1 + math.sqrt(1 + 8 * n)) / 2))
    S = np.eye(d)
    k = 0
    for i in range(d):
        for j in range(i + 1, d):
            S[i, j] = S[j, i] = rhos[k]
            k += 1
    return S


def rhos_of(S):
    d = len(S)
    return np.array([S[i, j] for i in range(d) for j in range(i + 1, d)])


# --- ranks ---------------------------------------------------------------------------------------------------------
def ranks(x, ties='average'):
    """O(n^2) definition of the ranks of a vector"""
    x = list(x)
    n = len(x)
    if ties == 'ordinal':
        return np.array([1 + sum(x[j] < x[i] or (x[j] == x[i] and j < i) for j in range(n)) for i in range(n)], float)
    if ties == 'dense':
        s = sorted(set(x))
        return np.array([1 + s.index(v) for v in x], float)
    lo = np.array([1 + sum(y < v for y in x) for v in x], float)
    hi = np.array([sum(y <= v for y in x) for v in x], float)
    return {'min': lo, 'max': hi, 'average': (lo + hi) / 2}[ties]


def pobs(x, ties='average'):
    x = np.asarray(x)
    if x.ndim == 1:
        return ranks(x.tolist(), ties) / (len(x) + 1)
    return np.column_stack([ranks(x[:, j].tolist(), ties) for j in range(x.shape[1])]) / (len(x) + 1)


def kendall(x, y):
    """tau-b by the definition"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    sx = np.sign(x[:, None] - x[None, :])
    sy = np.sign(y[:, None] - y[None, :])
    num = (sx * sy).sum()
    den = math.sqrt((sx != 0).sum()) * math.sqrt((sy != 0).sum())
    return num / den if den else math.nan


def pearson(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    a, b = x - math.fsum(x) / len(x), y - math.fsum(y) / len(y)
    den = math.sqrt(math.fsum(a * a)) * math.sqrt(math.fsum(b * b))
    return math.fsum(a * b) / den if den else math.nan


def spearman(x, y):
    return pearson(ranks(list(x)), ranks(list(y)))
