"""C28: probability distributions over product grids of parameters and arguments, against independent closed forms and series."""
import itertools
import math
from fractions import Fraction as Q

from mc.eng import *
from mc.eng import agree, expect

LEVEL = "exploration"
RULE = ("a case is one call of one function of prob.dist on the real engine, over the full product of a grid of parameters (interior, integer, boundary, degenerate, "
        "invalid, infinite, not-a-number) and a grid of arguments; densities and cumulative functions are compared with series of positive terms and exact sums "
        "of fractions, quantiles by putting them back into the reference cumulative function; non-trivial: all")
ASSUMPTIONS = ["densities at a point where they are discontinuous (the end of the support) and quantiles that fall exactly on a step are open",
               "quantiles within 1e-7 of the exact point or 1e-6 in probability", "results agree to a relative 1e-7 or an absolute 1e-9; gaussianQF is documented as an approximation and only has to be within 5e-4 standard deviations",
               "extreme parameters (overflowing series) are known findings of C07; hypergeometricCDF above m is pinned to zero by the tests",
               "when both parameters and argument are invalid either error may be reported"]
INF, NAN = float("inf"), float("nan")


def finite(*xs):
    return all(x - x == 0 for x in xs)


# ------------------------------------------------------------------ reference: positive series and exact sums
def gammaP(a, x):
    """Regularised lower incomplete gamma function."""
    if x <= 0:
        return 0.0
    t = total = 1.0
    n = 0
    while t > 1e-18 * total:
        n += 1
        t *= x / (a + n)
        total += t
    return min(1.0, math.exp(a * math.log(x) - x - math.lgamma(a + 1)) * total)


def betaI(a, b, x):
    """Regularised incomplete beta function."""
    if x <= 0:
        return 0.0
    if x >= 1:
        return 1.0
    if x > (a + 1) / (a + b + 2):
        return 1 - betaI(b, a, 1 - x)
    t = total = 1.0
    n = 0
    while t > 1e-18 * total:
        t *= (a + b + n) / (a + 1 + n) * x
        total += t
        n += 1
    return math.exp(a * math.log(x) + b * math.log1p(-x) + math.lgamma(a + b) - math.lgamma(a + 1) - math.lgamma(b)) * total


def lnbeta(a, b):
    return math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b)


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def choose(n, k):
    if not 0 <= k <= n:
        return 0
    out = 1
    for i in range(k):
        out = out * (n - i) // (i + 1)
    return out


class Cont(object):
    """A continuous distribution: valid(params), pdf, cdf, the ends of its support."""

    def __init__(self, valid, pdf, cdf, lo, hi, ends=()):
        self.valid, self.pdf, self.cdf, self.lo, self.hi, self.ends = valid, pdf, cdf, lo, hi, ends


def gaussPdf(x, m, s):
    return -(x - m) ** 2 / (2 * s * s) - math.log(s * math.sqrt(2 * math.pi))


def gammaPdf(x, k, t):
    return 0.0 if x < 0 else math.exp((k - 1) * math.log(x) - x / t - math.lgamma(k) - k * math.log(t))


def tCdf(x, d):
    half = 0.5 * betaI(d / 2.0, 0.5, d / (d + x * x))
    return 1 - half if x > 0 else half


CONT = {
    "gaussian": Cont(lambda m, s: finite(m, s) and s > 0, gaussPdf, lambda x, m, s: phi((x - m) / s), -INF, INF),
    "exponential": Cont(lambda r: finite(r) and r > 0, lambda x, r: r * math.exp(-r * x) if x >= 0 else 0.0,
                        lambda x, r: -math.expm1(-r * x) if x > 0 else 0.0, 0.0, INF, (0.0,)),
    "chi2": Cont(lambda d: d > 0, lambda x, d: gammaPdf(x, d / 2.0, 2.0), lambda x, d: gammaP(d / 2.0, x / 2), 0.0, INF, (0.0,)),
    "gamma": Cont(lambda k, t: finite(k, t) and k > 0 and t > 0, gammaPdf, lambda x, k, t: gammaP(k, x / t), 0.0, INF, (0.0,)),
    "beta": Cont(lambda a, b: finite(a, b) and a > 0 and b > 0,
                 lambda x, a, b: math.exp((a - 1) * math.log(x) + (b - 1) * math.log1p(-x) - lnbeta(a, b)) if 0 < x < 1 else 0.0,
                 lambda x, a, b: betaI(a, b, x), 0.0, 1.0, (0.0, 1.0)),
    "cauchy": Cont(lambda m, s: finite(m, s) and s > 0, lambda x, m, s: 1 / (math.pi * s * (1 + ((x - m) / s) ** 2)),
                   lambda x, m, s: 0.5 + math.atan((x - m) / s) / math.pi, -INF, INF),
    "f": Cont(lambda a, b: a > 0 and b > 0,
              lambda x, a, b: 0.0 if x < 0 else math.exp(a / 2.0 * math.log(a * x) + b / 2.0 * math.log(b) - (a + b) / 2.0 * math.log(a * x + b) - math.log(x) - lnbeta(a / 2.0, b / 2.0)),
              lambda x, a, b: betaI(a / 2.0, b / 2.0, a * x / (a * x + b)) if x > 0 else 0.0, 0.0, INF, (0.0,)),
    "lognormal": Cont(lambda m, s: finite(m, s) and s > 0,
                      lambda x, m, s: 0.0 if x <= 0 else math.exp(-(math.log(x) - m) ** 2 / (2 * s * s)) / (x * s * math.sqrt(2 * math.pi)),
                      lambda x, m, s: phi((math.log(x) - m) / s) if x > 0 else 0.0, 0.0, INF),
    "t": Cont(lambda d: d > 0, lambda x, d: math.exp(-(d + 1) / 2.0 * math.log1p(x * x / d) - lnbeta(0.5, d / 2.0)) / math.sqrt(d), tCdf, -INF, INF),
    "uniform": Cont(lambda a, b: finite(a, b) and a < b, lambda x, a, b: 1 / (b - a) if a <= x <= b else 0.0,
                    lambda x, a, b: min(1.0, max(0.0, (x - a) / (b - a))), None, None),
    "weibull": Cont(lambda k, t: finite(k, t) and k > 0 and t > 0,
                    lambda x, k, t: 0.0 if x < 0 else k / t * (x / t) ** (k - 1) * math.exp(-(x / t) ** k),
                    lambda x, k, t: -math.expm1(-(x / t) ** k) if x > 0 else 0.0, 0.0, INF, (0.0,)),
}


def poisson(x, lam):
    return math.exp(-lam) * lam ** x / float(math.factorial(x)) if x >= 0 else 0.0


def geometric(x, p):
    return p * (1 - p) ** x if x >= 0 else 0.0


def binomial(x, n, p):
    return float(choose(n, x) * Q(p) ** x * (1 - Q(p)) ** (n - x)) if 0 <= x <= n else 0.0


def hyper(x, m, n, k):
    return float(Q(choose(m, x) * choose(n, k - x), choose(m + n, k))) if x >= 0 else 0.0


def negbin(x, n, p):
    if x < 0:
        return 0.0
    return float(choose(n + x - 1, x) * (1 - Q(p)) ** x * Q(p) ** n) if n > 0 else float(x == 0)


# name: (valid, mass, end of the support)
DISC = {
    "poisson": (lambda lam: finite(lam) and lam >= 0, poisson, lambda lam: INF if lam > 0 else 0.0),
    "binomial": (lambda n, p: finite(p) and n > 0 and 0 <= p <= 1, binomial, lambda n, p: n),
    "geometric": (lambda p: finite(p) and 0 < p <= 1, geometric, lambda p: INF),
    "hypergeometric": (lambda m, n, k: m >= 0 and n > 0 and 0 <= k <= m + n, hyper, lambda m, n, k: k),
    "negativeBinomial": (lambda n, p: finite(p) and n >= 0 and 0 < p <= 1, negbin, lambda n, p: INF if n > 0 else 0.0),
}

ODD = (INF, -INF, NAN)
GRID = {  # parameter types and values; more values in the thorough tier
    "gaussian": (["double", "double"], [(-2.5, 0.0, 10.0) + ODD, (0.0, 0.5, 2.0, 30.0, -1.0) + ODD]),
    "exponential": (["double"], [(0.0, 0.25, 1.0, 5.0, -1.0) + ODD]),
    "chi2": (["int"], [(0, 1, 2, 3, 5, 10, 30, -1)]),
    "gamma": (["double", "double"], [(0.0, 0.5, 1.0, 2.5, 7.0, -1.0) + ODD, (0.0, 0.5, 1.0, 3.0, -1.0) + ODD]),
    "beta": (["double", "double"], [(0.0, 0.5, 1.0, 2.5, 6.0, -1.0) + ODD, (0.0, 0.5, 1.0, 2.0, 5.0, -1.0) + ODD]),
    "cauchy": (["double", "double"], [(-2.5, 0.0, 10.0) + ODD, (0.0, 0.5, 2.0, -1.0) + ODD]),
    "f": (["int", "int"], [(0, 1, 2, 3, 5, 12, -1), (0, 1, 2, 4, 7, -1)]),
    "lognormal": (["double", "double"], [(-1.5, 0.0, 2.0) + ODD, (0.0, 0.5, 2.0, -1.0) + ODD]),
    "t": (["int"], [(0, 1, 2, 3, 5, 30, -1)]),
    "uniform": (["double", "double"], [(-2.0, 0.0, 1.0) + ODD, (-2.0, 0.0, 1.0, 4.5) + ODD]),
    "weibull": (["double", "double"], [(0.0, 0.5, 1.0, 2.5, 5.0, -1.0) + ODD, (0.0, 0.5, 1.0, 3.0, -1.0) + ODD]),
    "poisson": (["double"], [(0.0, 0.25, 1.0, 4.5, 20.0, -1.0) + ODD]),
    "binomial": (["int", "double"], [(0, 1, 2, 5, 12, -1), (0.0, 0.125, 0.5, 0.75, 1.0, -0.5, 1.5) + ODD]),
    "geometric": (["double"], [(0.0, 0.125, 0.5, 0.75, 1.0, -0.5, 1.5) + ODD]),
    "hypergeometric": (["int", "int", "int"], [(0, 1, 2, 3, 5, -1), (0, 1, 2, 4, 6, -1), (0, 1, 2, 3, 5, 8, -1)]),
    "negativeBinomial": (["int", "double"], [(0, 1, 2, 5, -1), (0.0, 0.125, 0.5, 0.75, 1.0, -0.5, 1.5) + ODD]),
}
MORE = {"double": (0.1, 0.75, 1.5, 4.0, 15.0), "int": (4, 6, 8, 20)}
BASE = dict((n, 13000 + 30 * i) for i, n in enumerate(
    ["gaussian", "exponential", "chi2", "poisson", "gamma", "beta", "cauchy", "f", "lognormal", "t", "binomial", "uniform", "geometric", "hypergeometric", "weibull", "negativeBinomial"]))
XS = (-30.0, -2.5, -1.0, -0.25, 0.0, 0.01, 0.25, 0.5, 0.75, 0.99, 1.0, 1.5, 2.0, 3.0, 4.5, 7.0, 12.0, 20.0, 45.0) + ODD
KS = (-2147483648, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 11, 12, 13, 40)
KX = (-2.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.25, 2.0, 2.999, 3.0, 4.0, 5.0, 5.5, 11.5, 12.0, 13.0, 40.0) + ODD
PS = (0.0, 0.001, 0.01, 0.1, 0.25, 0.3, 0.5, 0.6, 0.75, 0.9, 0.95, 0.99, 0.999, 1.0, -0.1, 1.1) + ODD


class Range(object):
    """An expectation other than a number: a text and a predicate on the outcome."""

    def __init__(self, text, test):
        self.text, self.test = text, test

    def __repr__(self):
        return self.text


def codes(*cs):
    return Range("error " + " or ".join(map(str, cs)), lambda got: got[0] == "err" and got[1] in cs)


def near(v, rel=1e-7, absolute=1e-9):
    v = float(v)

    def test(got):
        g = got[1]
        if got[0] != "ok" or not isinstance(g, (int, float)) or isinstance(g, bool):
            return False
        return g == v or abs(g - v) <= max(absolute, rel * abs(v))
    return Range(repr(v), test)


def isnum(got):
    return got[0] == "ok" and isinstance(got[1], (int, float)) and not isinstance(got[1], bool)


def frame(code, valid, x, inner):
    """The two checks common to all functions."""
    odd = not valid, x != x or x in (INF, -INF)
    if odd[0] and odd[1]:
        return codes(code, code + 1)
    if odd[0]:
        return codes(code)
    if odd[1]:
        return codes(code + 1)
    return inner()


def quantile(code, valid, p, inner):
    bad = not 0 <= p <= 1
    if not valid:
        return codes(code, code + 1) if bad else codes(code)
    return codes(code + 1) if bad else inner()


def inverse(p, cdf, lo, hi, steps=False, tol=1e-6):
    """What a quantile must satisfy."""
    def test(got):
        if not isnum(got):
            return False
        q = got[1]
        if p == 0 or p == 1:
            return q == (lo if p == 0 else hi) or abs(q - (lo if p == 0 else hi)) <= 1e-12
        if q != q or q in (INF, -INF):
            return False
        if steps:
            return q == math.floor(q) and cdf(q) >= p - 1e-9 and cdf(q - 1) <= p + 1e-9
        d = 1e-7 * max(1.0, abs(q))
        return cdf(q - d) - tol <= p <= cdf(q + d) + tol
    return Range("a point whose cumulative probability is %r" % p if 0 < p < 1 else repr(lo if p == 0 else hi), test)


def params(ctx, name):
    types, values = GRID[name]
    if ctx.thorough:
        values = [tuple(v) + tuple(y for y in MORE[t] if y not in v) for t, v in zip(types, values)]
    return types, list(itertools.product(*values))


def run(ctx, fname, types, ref, cases):
    sweep(ctx, "prob.dist." + fname, types, "double", ref, cases, judge=lambda got, want, args: want[1].test(got))


def continuous(ctx, name):
    d, base = CONT[name], BASE[name]
    types, ps = params(ctx, name)
    low = (lambda *q: q[0]) if name == "uniform" else (lambda *q: d.lo)
    high = (lambda *q: q[1]) if name == "uniform" else (lambda *q: d.hi)
    ends = lambda q: q if name == "uniform" else d.ends

    def degenerate(q):
        """Zero spread, where the documentation still gives a distribution."""
        return name == "gaussian" and finite(*q) and q[1] == 0 or name == "exponential" and q == (0.0,) or name == "chi2" and q == (0,) \
            or name == "gamma" and finite(*q) and min(q) == 0

    def pdf(x, *q):
        def inner():
            if degenerate(q):
                if name == "exponential":
                    return near(0.0)
                at = q[0] if name == "gaussian" else 0.0
                return near(INF if x == at else -INF if name == "gaussian" else 0.0)
            if x in ends(q):
                a = d.pdf(x, *q) if name == "uniform" else 0.0
                return Range("0 or the limit of the density", lambda got: isnum(got) and not got[1] < 0)
            return near(d.pdf(x, *q))
        return frame(base, d.valid(*q) or degenerate(q), x, inner)

    def cdf(x, *q):
        def inner():
            if degenerate(q):
                if name == "exponential":
                    return near(0.0)
                at = q[0] if name == "gaussian" else 0.0
                if x == at and name != "gaussian":
                    return Range("0 or 1", lambda got: got in (("ok", 0.0), ("ok", 1.0)))
                return near(1.0 if x >= at else 0.0)
            return near(d.cdf(x, *q))
        return frame(base + 10, d.valid(*q) or degenerate(q), x, inner)

    def qf(p, *q):
        def inner():
            if degenerate(q):
                if p in (0.0, 1.0):
                    lo, hi = {"gaussian": (-INF, INF), "chi2": (0.0, INF), "exponential": (0.0, INF)}[name]
                    return near(lo if p == 0 else hi)
                return near({"gaussian": q[0], "chi2": 0.0, "exponential": INF}[name])
            if name == "gaussian":
                def test(got):
                    if p in (0.0, 1.0):
                        return got == ("ok", -INF if p == 0 else INF)
                    if not isnum(got):
                        return False
                    z = (got[1] - q[0]) / q[1]
                    return phi(z - 5e-4) <= p <= phi(z + 5e-4)
                return Range("the quantile of %r" % p, test)
            return inverse(p, lambda x: d.cdf(x, *q), low(*q), high(*q))
        return quantile(base + 20, d.valid(*q) or degenerate(q) and name != "gamma", p, inner)
    cross = lambda xs: ((x,) + q for x in xs for q in ps)
    xs = XS + ((-7.75, -0.01, 0.125, 0.333, 0.9, 1.01, 2.5, 5.5, 9.25, 33.0) if ctx.thorough else ())
    pp = PS + ((1e-6, 0.02, 0.15, 0.4, 0.8, 0.85, 0.98, 1 - 1e-6) if ctx.thorough else ())
    run(ctx, name + ("LL" if name == "gaussian" else "PDF"), ["double"] + types, pdf, cross(xs))
    run(ctx, name + "CDF", ["double"] + types, cdf, cross(xs))
    run(ctx, name + "QF", ["double"] + types, qf, cross(pp))


def discrete(ctx, name):
    valid, mass, end = DISC[name]
    base = BASE[name]
    types, ps = params(ctx, name)
    intCdf = name in ("poisson", "hypergeometric")
    memo = {}

    def cum(x, q):
        n = int(math.floor(x))
        if n < 0:
            return 0.0
        if (n, q) not in memo:
            memo[n, q] = min(1.0, math.fsum(mass(i, *q) for i in range(n + 1)))
        return memo[n, q]

    def pdf(x, *q):
        return frame(base, valid(*q), x, lambda: near(mass(x, *q) if x < 10000 else 0.0))

    def cdf(x, *q):
        def inner():
            if name == "hypergeometric" and x > q[0]:
                return Range("0 (pinned) or 1", lambda got: got in (("ok", 0.0), ("ok", 1.0)))
            return near(cum(x, q))
        return frame(base + 10, valid(*q), x, inner)

    def qf(p, *q):
        hi = end(*q)
        if name == "poisson" and q == (0.0,):
            return quantile(base + 20, True, p, lambda: near(0.0))
        def inner():
            if name == "hypergeometric":
                lo, top = max(0, q[2] - q[1]), min(q[0], q[2])
                if p in (0.0, 1.0):
                    return Range("an end of the support", lambda got: isnum(got) and (0 <= got[1] <= lo if p == 0 else top <= got[1] <= q[2]))
            if name == "geometric" and p == 1 and q == (1.0,) or name == "negativeBinomial" and p == 1 and q[1] == 1.0:
                return Range("0 or infinity", lambda got: got in (("ok", 0.0), ("ok", INF)))
            return inverse(p, lambda x: cum(x, q), 0.0, hi, steps=True)
        return quantile(base + 20, valid(*q), p, inner)
    cross = lambda xs: ((x,) + q for x in xs for q in ps)
    run(ctx, name + "PDF", ["int"] + types, pdf, cross(KS))
    run(ctx, name + "CDF", ["int" if intCdf else "double"] + types, cdf, cross(KS if intCdf else KX))
    run(ctx, name + "QF", ["double"] + types, qf, cross(PS + ((1e-6, 0.02, 0.15, 0.4, 0.8, 0.85, 0.98) if ctx.thorough else ())))


def records(ctx):
    """The form with a record of mean and variance."""
    t = {"type": "record", "name": "R", "fields": [{"name": "n", "type": "double"}, {"name": "mean", "type": "double"}, {"name": "variance", "type": "double"}]}

    def wrap(f, code, isP):
        def ref(x, r):
            m, v = r["mean"], r["variance"]
            ok = finite(m, v) and v >= 0
            bad = not 0 <= x <= 1 if isP else not finite(x)
            if not ok:
                return codes(code, code + 1) if bad else codes(code)
            if bad:
                return codes(code + 1)
            return f(x, m, math.sqrt(v))
        return ref
    ll = lambda x, m, s: near(gaussPdf(x, m, s)) if s > 0 else near(INF if x == m else -INF)
    cdf = lambda x, m, s: near(phi((x - m) / s)) if s > 0 else near(float(x >= m))

    def qf(p, m, s):
        if p in (0.0, 1.0):
            return near(-INF if p == 0 else INF)
        if s == 0:
            return near(m)
        return Range("quantile", lambda got: isnum(got) and phi((got[1] - m) / s - 5e-4) <= p <= phi((got[1] - m) / s + 5e-4))
    recs = [{"n": 1.0, "mean": m, "variance": v} for m in (-2.5, 0.0, 10.0) + ODD for v in (0.0, 0.25, 2.0, 9.0, -1.0) + ODD]
    for i, (n, f, xs) in enumerate([("gaussianLL", ll, XS), ("gaussianCDF", cdf, XS), ("gaussianQF", qf, PS)]):
        sweep(ctx, "prob.dist." + n, ["double", t], "double", wrap(f, 13000 + 10 * i, n.endswith("QF")), itertools.product(xs, recs),
              judge=lambda got, want, args: want[1].test(got), label=n + "(record)")


def tasks(tier):
    out = [(n, continuous, (n,)) for n in sorted(CONT)] + [(n, discrete, (n,)) for n in sorted(DISC)]
    return out + [("records", records, ())]
