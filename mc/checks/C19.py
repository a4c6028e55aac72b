"""C19: operators and mathematical functions, on all tuples of boundary values of all numeric types, against exact arithmetic."""
import itertools
import math
from fractions import Fraction

from mc.eng import *

LEVEL = "exploration"
RULE = ("a case is one call of one operator or mathematical function on the real engine: all pairs of boundary values (zeros, ones, small, extreme, fractional, tiny, infinite, not-a-number) "
        "of all pairs of numeric types; non-trivial: neither argument is 0 or 1")
ASSUMPTIONS = ["the sign of a zero is left open", "floats are computed in double precision", "// drops the fraction (as the code and the other implementations of PFA do), % has the sign of the modulus, %% that of the dividend",
               "transcendental functions are compared with the platform's libm and special functions with exact factorials and series, to a relative 1e-12"]

INF, NAN = float("inf"), float("nan")
INT = [0, 1, -1, 2, -2, 3, -3, 7, -7, 10, 31, 32, -32, 100, -101, 46340, 46341, -46341, 65535, 65536, -65536, 2**30, 2**31 - 2, 2**31 - 1, -2**31, -2**31 + 1]
LONG = INT + [2**31, -2**31 - 1, 2**32, 3037000499, 3037000500, -3037000500, 2**53, 2**53 + 1, -2**53 - 1, 10**18, 2**62, -2**62, 2**63 - 2, 2**63 - 1, -2**63, -2**63 + 1]
FLOAT = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -2.5, 2.0, -3.0, 0.25, 100.0, 1e10, -2.0**100, 2.0**-100, INF, -INF, NAN]
DOUBLE = FLOAT + [0.1, -0.1, 2.5, 3.5, -1.5, 0.49999999999999994, -0.49999999999999994, 0.5000000000000001, 4503599627370497.0, -4503599627370497.0, 4503599627370495.5, 9007199254740993.0, 1e-20, -1e-20, 5e-324, -5e-324, 1e300, -1e300, 1.7976931348623157e308, -1.7976931348623157e308, 2147483647.0, 2147483648.0, -2147483649.0,
                  2.0**63, -2.0**63, 710.0, -710.0, 746.0, 20.5, 3.0, math.pi, -math.pi / 2, 1 + 1e-15, -1 - 1e-15]
VALUES = {"int": INT, "long": LONG, "float": FLOAT, "double": DOUBLE}
RANK = ["int", "long", "float", "double"]
LIMITS = {"int": (-2**31, 2**31 - 1), "long": (-2**63, 2**63 - 1)}
TOL = 1e-12


def wide(s, t):
    return RANK[max(RANK.index(s), RANK.index(t))]


def fits(t, x, base, second=1):
    lo, hi = LIMITS[t]
    if not lo <= x <= hi:
        raise Err(base + (0 if t == "int" else second))
    return x


def judge(t, tol=0.0):
    """Same number, of the right kind."""
    def go(got, want, args):
        if not agree(got, want, 0.0) and not (tol and got[0] == want[0] == "ok" and close(got[1], want[1], tol)):
            return False
        return got[0] != "ok" or t not in LIMITS or isinstance(got[1], int) and not isinstance(got[1], bool)
    return go


def close(a, b, tol):
    if not (num(a) and num(b)):
        return same(a, b)
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-300)


# ---------------------------------------------------------------- exact references
def add(t, x, y, sign=1, base=18000):
    if t in LIMITS:
        return fits(t, x + sign * y, base)
    return float(x) + sign * float(y)


def mul(t, x, y):
    return fits(t, x * y, 18020) if t in LIMITS else float(x) * float(y)


def trunc(q):
    return q.numerator // q.denominator if q >= 0 else -((-q.numerator) // q.denominator)


def idiv(t, x, y):
    if y == 0:
        raise Err(18040)
    return fits(t, trunc(Fraction(x, y)), 18041)


def remainder(x, y):
    """The exact remainder of a division that drops the fraction, rounded to a double."""
    if math.isnan(x) or math.isnan(y) or math.isinf(x) or y == 0:
        return NAN
    if math.isinf(y):
        return x
    fx, fy = Fraction(x), Fraction(y)
    r = abs(fx) % abs(fy)
    return float(r if fx >= 0 else -r)


def mod(t, x, y, floor):
    if t in LIMITS:
        if y == 0:
            raise Err(18060 if floor else 18070)
        q = Fraction(x, y)
        q = q.numerator // q.denominator if floor else trunc(q)
        return x - q * y
    x, y = float(x), float(y)
    r = remainder(x, y)
    if floor and r == r and r != 0 and (r < 0) != (y < 0):
        r += y
    return r


def power(t, x, y):
    if t in LIMITS:
        if y < 0:
            if x == 0:
                raise Err(18080 + (t == "long"))
            return {1: 1, -1: -1 if y % 2 else 1}.get(x, 0)
        if abs(x) > 1 and y > 64:
            raise Err(18080 + (t == "long"))
        return fits(t, x ** (y if abs(x) > 1 else y % 2 if x == -1 else min(y, 1)), 18080)
    if isinstance(y, int) and abs(y) > 2**53 and y % 2 == 1 and x < 0:
        return SKIP                     # odd as it is, even as a double
    x, y = float(x), float(y)
    if y == 0:
        return 1.0
    if x != x or y != y:
        return NAN
    odd = not math.isinf(y) and abs(y) < 2**53 and y == int(y) and int(y) % 2 == 1
    whole = math.isinf(y) or y == math.floor(y)
    neg = x < 0
    if math.isinf(y) and abs(x) == 1:
        return NAN
    if x < 0 and not whole and not math.isinf(x):
        return NAN
    # magnitude
    a = abs(x)
    if a == 1:
        m = 1.0
    elif a == 0 or math.isinf(a) or math.isinf(y):
        m = INF if (a > 1) == (y > 0) else 0.0
    else:
        try:
            m = math.pow(a, y)
        except OverflowError:
            m = INF
    return -m if neg and odd else m


def trivial(x, y=5):
    return x in (0, 1) or y in (0, 1)


def operators(ctx, s, t):
    w = wide(s, t)
    pairs = list(itertools.product(VALUES[s], VALUES[t]))
    J = judge(w)

    def go(name, ret, ref, tol=0.0, j=None):
        sweep(ctx, name, [s, t], ret, ref, pairs, label="%s/%s/%s" % (name, s, t), judge=j or judge(ret, tol), trivial=trivial)
    go("+", w, lambda x, y: add(w, x, y))
    go("-", w, lambda x, y: add(w, x, y, -1, 18010))
    go("*", w, lambda x, y: mul(w, x, y))

    def div(x, y):
        x, y = float(x), float(y)
        if y == 0:
            return NAN if x == 0 or x != x else INF if x > 0 else -INF
        return x / y
    go("/", "double", div)
    if w in LIMITS:
        go("//", w, lambda x, y: idiv(w, x, y))
        for op, base in (("&", 0), ("|", 1), ("^", 2)):
            def bits(x, y, op=op):
                out = 0
                for i in range(64):
                    a, b = (x >> i) % 2, (y >> i) % 2
                    if (op == "&" and a and b) or (op == "|" and (a or b)) or (op == "^" and a != b):
                        out += 2 ** i
                return out - 2**64 if out >= 2**63 else out
            go(op, w, bits)
    go("%", w, lambda x, y: mod(w, x, y, True))
    go("%%", w, lambda x, y: mod(w, x, y, False))
    go("**", w, lambda x, y: power(w, x, y), 0.0 if w in LIMITS else 1e-14)

    def order(x, y):
        if x != x or y != y:
            return SKIP                 # C10
        a, b = (Fraction(x) if not math.isinf(x) else x, Fraction(y) if not math.isinf(y) else y)
        return (a > b) - (a < b)
    if w != "long" or s == t:
        pass
    for name, f in (("==", lambda c: c == 0), ("!=", lambda c: c != 0), ("<", lambda c: c < 0), ("<=", lambda c: c <= 0), (">", lambda c: c > 0), (">=", lambda c: c >= 0)):
        if s in LIMITS and t in LIMITS or s not in LIMITS and t not in LIMITS:
            go(name, "boolean", lambda x, y, f=f: SKIP if order(x, y) is SKIP else f(order(x, y)))
    if s == t:
        go("m.copysign", w, lambda x, y: SKIP if y != y or y == 0 else fits(w, abs(x) * (-1 if y < 0 else 1), 27080) if w in LIMITS else math.copysign(x, y))


def unary(ctx):
    for t in RANK:
        vals = [(x,) for x in VALUES[t]]

        def go(name, ret, ref, tol=0.0):
            sweep(ctx, name, [t], ret, ref, vals, label="%s/%s" % (name, t), judge=judge(ret, tol), trivial=trivial)
        go("u-", t, lambda x: fits(t, -x, 18050) if t in LIMITS else -x)
        go("m.abs", t, lambda x: fits(t, abs(x), 27020) if t in LIMITS else math.fabs(x))
        if t in LIMITS:
            go("~", t, lambda x: -x - 1)

        def whole(f):
            return lambda x: float(x) if math.isinf(x) or x != x else float(f(Fraction(x)))
        go("m.ceil", "double", whole(lambda q: -((-q.numerator) // q.denominator)))
        go("m.floor", "double", whole(lambda q: q.numerator // q.denominator))

        def rint(q):
            n = q.numerator // q.denominator
            d = q - n
            return n + (1 if d > Fraction(1, 2) or d == Fraction(1, 2) and n % 2 else 0)
        go("m.rint", "double", whole(rint))
        go("m.signum", "int", lambda x: 0 if x != x else (x > 0) - (x < 0))
        if t != "long":
            r = "int" if t == "float" else "long"

            def rnd(x, r=r):
                if math.isinf(x) or x != x:
                    raise Err(27190 if r == "int" else 27191)
                q = Fraction(x) + Fraction(1, 2)
                return fits(r, q.numerator // q.denominator, 27190)
            if t in ("float", "double"):
                go("m.round", r, rnd)
        for name, f in (("sin", math.sin), ("cos", math.cos), ("tan", math.tan)):
            go("m." + name, "double", lambda x, f=f: NAN if math.isinf(x) or x != x else f(x), TOL)
        for name, f in (("asin", math.asin), ("acos", math.acos)):
            go("m." + name, "double", lambda x, f=f: f(x) if -1 <= x <= 1 else NAN, TOL)
        go("m.atan", "double", lambda x: math.atan(x), TOL)
        go("m.sinh", "double", lambda x: x if x != x else math.copysign(INF, x) if abs(x) > 710.4758 else float(x) if abs(x) < 1e-8 else math.copysign(0.5 * math.exp(abs(x) / 2) * math.exp(abs(x) / 2) - 0.5 * math.exp(-abs(x)), x) if abs(x) > 1 else math.sinh(x), TOL)
        go("m.cosh", "double", lambda x: x if x != x else INF if abs(x) > 710.4758 else 0.5 * math.exp(abs(x) / 2) * math.exp(abs(x) / 2) + 0.5 * math.exp(-abs(x)), TOL)
        go("m.tanh", "double", lambda x: x if x != x else math.copysign(1.0, x) if abs(x) > 20 else math.tanh(x), TOL)
        go("m.exp", "double", lambda x: x if x != x else INF if x > 709.79 else 0.0 if x < -745.2 else math.exp(x), TOL)
        go("m.expm1", "double", lambda x: x if x != x else INF if x > 709.79 else -1.0 if x < -50 else math.expm1(x), TOL)
        go("m.ln", "double", lambda x: NAN if not x >= 0 else -INF if x == 0 else INF if x == INF else math.log(x), TOL)
        go("m.log10", "double", lambda x: NAN if not x >= 0 else -INF if x == 0 else INF if x == INF else math.log(x) / math.log(10) if x != 1 else 0.0, TOL)
        go("m.ln1p", "double", lambda x: NAN if not x >= -1 else -INF if x == -1 else INF if x == INF else math.log1p(x), TOL)
        go("m.sqrt", "double", lambda x: NAN if not x >= 0 else INF if x == INF else math.sqrt(x), TOL)

    def bools(x):
        return isinstance(x, bool)
    B = [True, False]
    for name, f in (("&&", lambda x, y: x and y), ("||", lambda x, y: x or y), ("^^", lambda x, y: x != y)):
        sweep(ctx, name, ["boolean", "boolean"], "boolean", f, itertools.product(B, B))
    sweep(ctx, "!", ["boolean"], "boolean", lambda x: not x, [(x,) for x in B])
    K = ["boolean", "null"]
    raw = lambda v: v["boolean"] if isinstance(v, dict) else v
    k = lambda got, want, args: got[0] == want[0] and (got[0] != "ok" or raw(got[1]) is want[1])
    T = [None, {"boolean": True}, {"boolean": False}]
    for types in ((K, K), (["null", "boolean"], K)):
        for name, f in (("&&&", lambda x, y: False if raw(x) is False or raw(y) is False else True if raw(x) and raw(y) else None), ("|||", lambda x, y: True if raw(x) or raw(y) else None if x is None or y is None else False)):
            sweep(ctx, name, list(types), types[0], f, itertools.product(T, T), label="%s/%s" % (name, types), judge=k)
    sweep(ctx, "!!!", [K], K, lambda x: None if x is None else not raw(x), [(x,) for x in T], judge=k)
    for name, v in (("m.pi", math.pi), ("m.e", math.e)):
        sweep(ctx, name, [], "double", lambda v=v: v, [()])


def binary(ctx):
    pairs = list(itertools.product(DOUBLE, DOUBLE))
    J = judge("double", TOL)

    def atan2(y, x):
        if x != x or y != y:
            return NAN
        if y == 0 and (x == 0 or x < 0):
            return SKIP                 # hinges on the signs of zeros
        return math.atan2(y, x)
    sweep(ctx, "m.atan2", ["double", "double"], "double", atan2, pairs, judge=J, trivial=trivial)

    def hypot(x, y):
        if math.isinf(x) or math.isinf(y):
            return INF
        if x != x or y != y:
            return NAN
        a, b = sorted((abs(x), abs(y)))
        if b == 0 or a / b < 1e-9:
            return b
        f = Fraction(a) ** 2 + Fraction(b) ** 2
        k = 2 ** 200 if b < 1e-100 else 1
        return math.sqrt(f * k * k) / k if b < 1e150 else b * math.sqrt(1 + (a / b) ** 2)
    sweep(ctx, "m.hypot", ["double", "double"], "double", lambda x, y: SKIP if 0 < max(abs(x), abs(y)) < 1e-300 else hypot(x, y), pairs, judge=J, trivial=trivial)
    for s in RANK:
        def log(x, b):
            if b <= 0:
                raise Err(27170)
            if not x >= 0:
                return NAN
            if x == 0:
                return -INF
            if b == 1:
                return -INF if x < 1 else NAN if x == 1 else INF
            return INF if x == INF else math.log(x) / math.log(b)
        sweep(ctx, "m.log", [s, "int"], "double", log, itertools.product(VALUES[s], INT), judge=judge("double", TOL), label="m.log/" + s, trivial=trivial)


def special(ctx):
    top = 60 if ctx.thorough else 36

    def choose(n, k):
        if n == k:
            return SKIP
        if k < 0 or n < k:
            raise Err(36000)
        k = min(k, n - k)
        if n > 1000 and k > 10:
            raise Err(36000)
        out = 1
        for i in range(k):
            out = out * (n - i) // (i + 1)
        if out > 2**31 - 1:
            raise Err(36000)
        return out
    sweep(ctx, "m.special.nChooseK", ["int", "int"], "int", choose, itertools.product(list(range(-3, top)) + [65536, 65537, 2**31 - 1, -2**31], list(range(-3, top)) + [2**31 - 1, -2**31]), judge=judge("int"))

    def lnGamma(x):
        """Of positive multiples of a half, exactly."""
        if x <= 0:
            raise Err(36050)
        n = Fraction(x)
        if n.denominator == 1:
            return math.log(math.factorial(int(n) - 1)) if n > 1 else 0.0
        m = int(n - Fraction(1, 2))
        return math.log(Fraction(math.factorial(2 * m), 4**m * math.factorial(m))) + 0.5 * math.log(math.pi) if m < 80 else math.log(math.factorial(2 * m)) - m * math.log(4) - math.log(math.factorial(m)) + 0.5 * math.log(math.pi)
    halves = [i / 2.0 for i in range(-6, 2 * top)]
    near = lambda got, want, args: agree(got, want) or got[0] == want[0] == "ok" and abs(got[1] - want[1]) <= 1e-11 * max(1.0, abs(want[1]))
    sweep(ctx, "m.special.lnGamma", ["double"], "double", lnGamma, [(x,) for x in halves], judge=near)
    sweep(ctx, "m.special.lnGamma", ["double"], "double", lambda x: lnGamma(x), [(-INF,), (-0.0,), (-1e300,), (-0.1,)], label="lnGamma beyond")

    def lnBeta(a, b):
        if a <= 0 or b <= 0:
            raise Err(36010)
        return lnGamma(a) + lnGamma(b) - lnGamma(a + b)
    sweep(ctx, "m.special.lnBeta", ["double", "double"], "double", lnBeta, itertools.product(halves[:60], halves[:60]), judge=lambda g, w, a: agree(g, w) or g[0] == w[0] == "ok" and abs(g[1] - w[1]) <= 1e-10)

    def erf(x):
        """Series in exact arithmetic."""
        if x != x:
            return NAN
        if abs(x) > 6:
            return math.copysign(1.0, x)
        q, total, term, n = Fraction(x), Fraction(0), Fraction(x), 0
        while n < 8 or abs(term) > Fraction(1, 10**40):
            total += term / (2 * n + 1)
            n += 1
            term = term * -q * q / n
            if term.denominator > 10**80:
                term = Fraction(round(term * 10**60), 10**60)
        return float(total * Fraction(11283791670955125738961589031215451716881012586580, 10**49))
    xs = [(x,) for x in [i / 8.0 for i in range(-56, 57)] + [INF, -INF, NAN, 1e-10, -1e-10, 30.0, 1e300]]
    J = lambda g, w, a: agree(g, w) or g[0] == w[0] == "ok" and abs(g[1] - w[1]) <= 1e-14
    sweep(ctx, "m.special.erf", ["double"], "double", erf, xs, judge=J)
    sweep(ctx, "m.special.erfc", ["double"], "double", lambda x: NAN if x != x else 1 - erf(x), xs, judge=J)


def tasks(tier):
    out = []
    for s in RANK:
        for t in RANK:
            out.append(("operators/%s/%s" % (s, t), operators, (s, t)))
    return out + [("unary", unary, ()), ("binary", binary, ()), ("special", special, ())]
