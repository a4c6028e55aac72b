"""C33: metrics, kernels, links, interpolation and imputation over all small arguments, against their formulas."""
import itertools
import math

from mc.eng import *
from mc.eng import agree
from mc.checks.C24 import A, M, rec
from mc.checks.C27 import either

LEVEL = "exploration"
RULE = ("a case is one call on the real engine: all vectors of up to 3-4 components over small alphabets with missing components, all tables of up to 3-4 points in "
        "every order, all parameters from small sets with special values; each is compared with the formula; and for the metrics symmetry, identity and the triangle "
        "inequality over all triples; non-trivial: all")
ASSUMPTIONS = ["distances over no common component are not a number; comparisons with not-a-number components and infinities in a softmax are open",
               "of equally distant or repeated points of a table the first one counts; results within a relative 1e-12",
               "interp.bin with infinite bounds is open"]
INF, NAN = float("inf"), float("nan")
ODD = (INF, -INF, NAN)
ABS = ("fcn", {"params": [{"p": "double"}, {"q": "double"}], "ret": "double", "do": {"m.abs": {"-": ["p", "q"]}}})
SKEW = ("fcn", {"params": [{"p": "double"}, {"q": "double"}], "ret": "double", "do": {"+": [{"*": ["p", 10.0]}, "q"]}})
OPT = A(["null", "double"])
LIB = "metric.absDiff"


def tagged(v):
    return [None if x is None else {"double": x} for x in v]


def opt(v):
    return [None if x is None else x["double"] for x in v]


def div(a, b):
    if b == 0:
        return NAN if a == 0 or a != a else math.copysign(INF, a)
    return a / b


def vectors(letters, n):
    for k in range(n + 1):
        for t in itertools.product(letters, repeat=k):
            yield list(t)


def distance(ctx, which):
    code = {"euclidean": 28030, "squaredEuclidean": 28040, "chebyshev": 28050, "taxicab": 28060, "minkowski": 28070}[which]
    sims = [("abs", ABS, lambda p, q: abs(p - q)), ("skew", SKEW, lambda p, q: 10 * p + q), ("lib", ("fcn", {"fcn": LIB}), lambda p, q: abs(p - q))]
    ps = (1.0, 2.0, 3.5, 0.5, INF, 0.0, -1.0, NAN) if which == "minkowski" else (None,)

    def formula(sim):
        def ref(*args):
            args = list(args)
            x, y = opt(args.pop(0)), opt(args.pop(0))
            p = args.pop(0) if which == "minkowski" else None
            w = args.pop(0) if args else [1.0] * len(x)
            bad = set()
            if not len(x) == len(y) == len(w):
                bad.add(code)
            if which == "minkowski" and not p > 0:
                bad.add(code + 1)
            if bad:
                return frozenset(bad)
            both = [i for i in range(len(x)) if x[i] is not None and y[i] is not None]
            inside = math.fsum(w[i] for i in both)
            if inside == 0:
                return NAN
            scale = math.fsum(w) / inside
            s = [sim(x[i], y[i]) for i in both]
            if which == "taxicab":
                return math.fsum(s) * scale
            if which == "chebyshev" or p == INF:
                return max([0.0] + s) * scale
            if which == "minkowski":
                return (math.fsum(v ** p for v in s) * scale) ** (1 / p)
            t = math.fsum(v * v for v in s) * scale
            return t if which == "squaredEuclidean" else NAN if t < 0 else math.sqrt(t)
        return ref
    letters = (None, 0.5, 2.0, 5.0) if not ctx.thorough else (None, -1.5, 0.5, 2.0, 5.0)
    full = [v for v in vectors(letters, 2)]
    long = [list(t) for t in itertools.product((None, 1.0, 3.0), repeat=3)]
    weights = [[], [1.0], [2.0], [1.0, 3.0], [0.0, 1.0], [0.25, 0.0], [0.0, 0.0], [1.0, 2.0, 4.0], [0.0, 1.0, 0.5]]
    extra = ["double"] if which == "minkowski" else []
    for label, fcn, sim in sims:
        if which == "minkowski":
            pairs = [(tagged(x), tagged(y), p) for x in full for y in full for p in ps] + [(tagged(x), tagged(y), p) for x in long for y in long for p in (1.0, 2.0, INF)]
        else:
            pairs = [(tagged(x), tagged(y)) for x in full + long for y in full + long]
        if label == "lib" and not ctx.thorough:
            pairs = pairs[::7]
        if label == "skew":
            pairs = [t for t in pairs if not any(v and v["double"] < 0 for v in t[0] + t[1])]
        either(ctx, "metric." + which, [fcn, OPT, OPT] + extra, "double", formula(sim), pairs, tol=1e-12, label="%s %s" % (which, label))
        if label == "abs":
            ww = ((x, y) + ((p,) if which == "minkowski" else ()) + (w,) for x in map(tagged, full + long[::2]) for y in map(tagged, full[::2] + long[::3])
                  for p in (ps[:2] + ps[4:6] if which == "minkowski" else ps) for w in weights)
            either(ctx, "metric." + which, [fcn, OPT, OPT] + extra + [A("double")], "double", formula(sim), ww, tol=1e-12, label="%s weights" % which)


def ints(ctx):
    """Components of other types, and functions with two different parameter types."""
    for a, b in (("int", "int"), ("int", "double"), ("double", "int"), ("string", "string"), ("boolean", "int")):
        def val(t, v):
            return None if v is None else {t: {"int": v, "double": float(v), "string": "ab" * v, "boolean": v > 0}[t]}
        num = lambda t, n: {"s.len": n} if t == "string" else {"if": n, "then": 1, "else": 0} if t == "boolean" else n
        f = ("fcn", {"params": [{"p": a}, {"q": b}], "ret": "double", "do": {"m.abs": {"-": [{"*": [num(a, "p"), 1.0]}, {"*": [num(b, "q"), 1.0]}]}}})
        size = {"string": 2, "boolean": 1, "int": 1, "double": 1}
        back = lambda t, v: v if v is None else {"string": lambda z: len(z["string"]), "boolean": lambda z: int(z["boolean"])}.get(t, lambda z: z[t])(v)

        def ref(x, y):
            if len(x) != len(y):
                return frozenset([28060])
            s = [abs(back(a, p) - back(b, q)) for p, q in zip(x, y) if p is not None and q is not None]
            return sum(s) * len(x) / len(s) if s else NAN
        vs = list(vectors((None, 0, 1, 2), 2))
        either(ctx, "metric.taxicab", [f, A(["null", a]), A(["null", b])], "double", ref,
               (([val(a, v) for v in x], [val(b, v) for v in y]) for x in vs for y in vs), tol=1e-12, label="taxicab %s %s" % (a, b))


def simple(ctx):
    vs = [list(v) for v in vectors((-1.5, 0.0, 2.0, 1e200), 2)] + [list(t) for t in itertools.product((0.0, 3.0, -4.0), repeat=3)]

    def euclid(x, y):
        if len(x) != len(y):
            raise Err(28000)
        d = sum((p - q) ** 2 if abs(p - q) < 1e150 else INF for p, q in zip(x, y))
        return math.sqrt(d)
    sweep(ctx, "metric.simpleEuclidean", [A("double"), A("double")], "double", euclid, itertools.product(vs, vs), tol=1e-12)
    xs = (-1e308, -2.5, -0.0, 0.0, 1.0, 7.25, 1e308) + ODD
    sweep(ctx, "metric.absDiff", ["double", "double"], "double", lambda x, y: abs(x - y), itertools.product(xs, xs))

    def gauss(x, y, s):
        d2, s2 = (x - y) * (x - y), s * s
        if s2 == 0:
            return NAN if d2 == 0 else 0.0 if d2 == d2 else NAN
        if s2 == INF and d2 == INF:
            return NAN
        z = -math.log(2) * d2 / s2
        return z if z != z else 0.0 if z == -INF else math.exp(z)
    sweep(ctx, "metric.gaussianSimilarity", ["double"] * 3, "double", gauss, itertools.product((-2.5, 0.0, 1.0, 30.0) + ODD, (0.0, 1.0, 4.5) + ODD, (0.0, 0.5, 2.0, -1.0, 1e200) + ODD), tol=1e-12)


def binary(ctx):
    vs = [list(t) for k in range(5 if ctx.thorough else 4) for t in itertools.product((False, True), repeat=k)]

    def count(x, y, code):
        if len(x) != len(y):
            raise Err(code)
        c = {}
        for p, q in zip(x, y):
            c[p, q] = c.get((p, q), 0) + 1
        return [c.get(k, 0) for k in ((False, False), (False, True), (True, False), (True, True))]

    def ref(code, f):
        return lambda x, y, *a: f(*(count(x, y, code) + list(a)))
    for n, code, f in [("simpleMatching", 28080, lambda z, a, b, o: div(o + z, z + a + b + o)), ("jaccard", 28090, lambda z, a, b, o: div(o, a + b + o)),
                       ("tanimoto", 28100, lambda z, a, b, o: div(o + z, o + 2 * (a + b) + z))]:
        sweep(ctx, "metric." + n, [A("boolean")] * 2, "double", ref(code, f), itertools.product(vs, vs), tol=1e-12)
    coeffs = [[1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0], [0.0] * 4 + [1.0] * 4, [1.0] * 4 + [0.0] * 4, [3.0, 0.0, 0.0, 1.0, 0.0, 1.0, -1.0, 0.0]]
    sweep(ctx, "metric.binarySimilarity", [A("boolean")] * 2 + ["double"] * 8, "double",
          ref(28110, lambda z, a, b, o, c00, c01, c10, c11, d00, d01, d10, d11: div(c11 * o + c10 * b + c01 * a + c00 * z, d11 * o + d10 * b + d01 * a + d00 * z)),
          ((x, y) + tuple(c) for x in vs for y in vs for c in coeffs), tol=1e-12)


def axioms(ctx):
    """What is called a metric is one: over all triples of points, on the engine's own answers."""
    pts = [list(t) for k in (1, 2) for t in itertools.product((-1.5, 0.0, 2.0, 3.25), repeat=k)]
    names = [("euclidean", ()), ("taxicab", ()), ("chebyshev", ()), ("minkowski", (1.0,)), ("minkowski", (3.0,)), ("minkowski", (INF,)), ("simpleEuclidean", None)]
    for name, extra in names:
        if extra is None:
            call = Call("metric." + name, [A("double"), A("double")], "double")
            dist = lambda x, y: call(x, y)
        else:
            call = Call("metric." + name, [ABS, OPT, OPT] + ["double"] * len(extra), "double")
            dist = lambda x, y: call(tagged(x), tagged(y), *extra)
        table = {}
        for x in pts:
            for y in pts:
                if len(x) == len(y):
                    table[tuple(x), tuple(y)] = dist(x, y)
        for (x, y), d in sorted(table.items()):
            case = ("axioms", name, extra, x, y)
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            ctx.outcome((name, repr(d)))
            if d[0] != "ok" or (d[1] == 0) != (x == y) or d[1] < 0 or table[y, x] != d:
                ctx.fail(case, "metric.%s%r of %r and %r is %r, the other way round %r" % (name, extra or (), x, y, d, table[y, x]))
            for z in pts:
                if len(z) == len(x) and d[0] == "ok" and table[x, tuple(z)][0] == "ok" and d[1] > table[x, tuple(z)][1] + table[tuple(z), y][1] + 1e-12:
                    ctx.fail(case + (tuple(z),), "metric.%s breaks the triangle inequality at %r %r %r" % (name, x, y, z))


def power(b, e):
    try:
        return math.pow(b, e)
    except OverflowError:
        return -INF if b < 0 and e == math.floor(e) and e % 2 else INF
    except ValueError:
        return INF if b == 0 else NAN


def kernels(ctx):
    vs = list(vectors((-1.5, 0.0, 2.0), 2)) + [[1.0, 2.0, 3.0], [30.0, -1.0, 0.5]]

    def dot(code, f):
        def ref(x, y, *a):
            if len(x) != len(y):
                raise Err(code)
            return f(x, y, sum(p * q for p, q in zip(x, y)), *a)
        return ref
    AA = [A("double")] * 2
    gs = (0.0, 0.5, 1.0, -2.0)
    sweep(ctx, "m.kernel.linear", AA, "double", dot(23000, lambda x, y, d: d), itertools.product(vs, vs), tol=1e-12)
    sweep(ctx, "m.kernel.rbf", AA + ["double"], "double", dot(23010, lambda x, y, d, g: math.exp(-g * sum((p - q) ** 2 for p, q in zip(x, y))) if g >= 0 or len(x) < 3 else SKIP), itertools.product(vs, vs, gs), tol=1e-12)
    sweep(ctx, "m.kernel.poly", AA + ["double"] * 3, "double", dot(23020, lambda x, y, d, g, c, k: power(g * d + c, k)), itertools.product(vs, vs, gs, (0.0, 1.0, -1.5), (0.0, 1.0, 2.0, 3.0, 0.5, -1.0)), tol=1e-12)
    sweep(ctx, "m.kernel.sigmoid", AA + ["double"] * 2, "double", dot(23030, lambda x, y, d, g, c: math.tanh(g * d + c)), itertools.product(vs, vs, gs, (0.0, 1.0, -1.5)), tol=1e-12)


def exp(x):
    return math.exp(x) if x < 709 else INF


LINKS = {
    "logit": lambda y: 1 / (1 + exp(-y)), "probit": lambda y: 0.5 * math.erfc(-y / math.sqrt(2)), "cloglog": lambda y: -math.expm1(-exp(y)), "loglog": lambda y: math.exp(-exp(y)),
    "cauchit": lambda y: 0.5 + math.atan(y) / math.pi, "softplus": lambda y: y if y > 40 else math.log1p(exp(y)), "relu": lambda y: max(0.0, y), "tanh": math.tanh,
}


def links(ctx):
    xs = (-1e308, -800.0, -40.0, -5.5, -1.0, -0.25, -0.0, 0.0, 1e-9, 0.5, 1.0, 3.0, 20.0, 699.0, 705.0, 800.0, 1e308, INF, -INF, NAN)
    arrays = list(vectors((-2.0, 0.0, 3.5), 3))
    for n, f in sorted(LINKS.items()):
        g = lambda y: NAN if y != y else f(y)
        sweep(ctx, "m.link." + n, ["double"], "double", g, [(x,) for x in xs], judge=lambda got, want, args: agree(got, want, 1e-9) or got[0] == want[0] == "ok" and abs(got[1] - want[1]) < 1e-12)
        sweep(ctx, "m.link." + n, [A("double")], A("double"), lambda v: [g(y) for y in v], [(v,) for v in arrays], tol=1e-9, label=n + "[]")
        sweep(ctx, "m.link." + n, [M("double")], M("double"), lambda v: dict((k, g(y)) for k, y in v.items()), [(dict(zip("abc", v)),) for v in arrays], tol=1e-9, label=n + "{}")
    def soft(v):
        if not v:
            raise Err(25000)
        top = max(v)
        e = [exp(y - top) for y in v]
        return [y / sum(e) for y in e]
    def softmap(v):
        ks = sorted(v)
        return dict(zip(ks, soft([v[k] for k in ks])))
    arrays += list(vectors((-1000.0, 999.0, 1000.0, 1e308), 3))
    sweep(ctx, "m.link.softmax", [A("double")], A("double"), soft, [(v,) for v in arrays], tol=1e-12)
    sweep(ctx, "m.link.softmax", [M("double")], M("double"), softmap, [(dict(zip("abc", v)),) for v in arrays], tol=1e-12, label="softmax{}")


def bins(ctx):
    def fixed(x, n, lo, hi):
        bad = set()
        if not lo < hi:
            bad.add(22000)
        if n < 1:
            bad.add(22001)
        if not lo <= x < hi:
            bad.add(22002)
        if INF in (hi, -lo):
            return SKIP if not bad else frozenset(bad | {22000, 22002})
        if bad:
            return frozenset(bad)
        from fractions import Fraction as Q
        exact = n * (Q(x) - Q(lo)) / (Q(hi) - Q(lo))
        return int(math.floor(exact)) if abs(exact - round(exact)) > 1e-9 or x == lo or exact.denominator == 1 else SKIP
    xs = (-7.0, -2.5, -2.0, -1.0, -0.75, 0.0, 0.125, 0.25, 0.5, 0.74, 1.0, 1.5, 2.0, 2.5, 3.0, 3.99, 4.0, 5.5, 12.0) + ODD
    either(ctx, "interp.bin", ["double", "int", "double", "double"], "int", fixed, itertools.product(xs, (-1, 0, 1, 2, 3, 4, 10), (-2.0, 0.0, 1.0) + ODD, (-2.0, 0.0, 1.0, 4.0) + ODD))

    def free(x, origin, width):
        bad = set()
        if origin != origin or origin in (INF, -INF):
            bad.add(22000)
        if not width > 0:
            bad.add(22001)
        if x != x or x in (INF, -INF):
            bad.add(22002)
        if bad:
            return frozenset(bad)
        if width == INF:
            return SKIP
        v = math.floor((x - origin) / width)
        return v if -2**31 <= v < 2**31 else frozenset([22002])
    either(ctx, "interp.bin", ["double", "double", "double"], "int", free, itertools.product(xs + (1e10, -1e10, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0), (-2.0, 0.0, 0.5) + ODD, (0.0, 0.25, 1.0, 2.0, -1.0) + ODD), label="bin by width")


def nearest(ctx):
    P = rec("P", ("x", "double"), ("to", "string"))
    V = rec("V", ("x", A("double")), ("to", "int"))
    S = rec("S", ("to", "double"), ("x", "string"))

    def pick(code, dist):
        def ref(x, table, *rest):
            if not table:
                raise Err(code)
            return min(table, key=lambda r: dist(x, r["x"]))["to"]
        return ref
    xs = (-2.0, 0.0, 1.0, 3.0)
    tables = [[{"x": t, "to": "abcd"[i]} for i, t in enumerate(ts)] for k in range(5 if ctx.thorough else 4) for ts in itertools.product(xs, repeat=k)]
    sweep(ctx, "interp.nearest", ["double", A(P)], "string", pick(22010, lambda a, b: abs(a - b)), itertools.product((-5.0, -2.0, -1.0, 0.0, 0.5, 1.0, 1.75, 2.0, 9.0), tables))
    vs = [[], [0.0], [1.0], [0.0, 0.0], [3.0, 4.0], [4.0, 3.0], [1.0, 0.0]]

    def vec(x, table):
        if not table:
            return frozenset([22010])
        if any(len(r["x"]) != len(x) for r in table):
            return frozenset([22011])
        return min(table, key=lambda r: sum((p - q) ** 2 for p, q in zip(x, r["x"])))["to"]
    vt = [[{"x": t, "to": i} for i, t in enumerate(ts)] for k in range(4) for ts in itertools.product(vs, repeat=k)]
    either(ctx, "interp.nearest", [A("double"), A(V)], "int", vec, itertools.product(vs + [[2.0, 2.0]], vt), label="nearest[]")
    f = ("fcn", {"params": [{"p": "int"}, {"q": "string"}], "ret": "double", "do": {"m.abs": {"-": ["p", {"*": [{"s.len": "q"}, 1.0]}]}}})
    st = [[{"x": t, "to": float(i)} for i, t in enumerate(ts)] for k in range(4) for ts in itertools.product(("", "a", "bc", "de", "fghi"), repeat=k)]
    sweep(ctx, "interp.nearest", ["int", A(S), f], "double", lambda x, t: pick(22010, lambda a, b: abs(a - len(b)))(x, t), ((x, t) for x in range(6) for t in st), label="nearest by function")


def interpolate(ctx, name):
    code = {"linear": 22020, "linearFlat": 22030, "linearMissing": 22040}[name]
    P = rec("P", ("x", "double"), ("to", "double"))
    V = rec("V", ("to", A("double")), ("x", "double"))

    def mix(t, a, b):
        if isinstance(a, list):
            if len(a) != len(b):
                return frozenset([code + 1])
            return [(1 - t) * p + t * q for p, q in zip(a, b)]
        return (1 - t) * a + t * b

    def ref(x, table):
        if len(set(r["x"] for r in table)) < 2:
            return frozenset([code])
        first = {}
        for r in table:
            first.setdefault(r["x"], r["to"])
        below = [v for v in first if v <= x]
        above = [v for v in first if v > x]
        if below and above:
            a, b = max(below), min(above)
            if x == a and isinstance(first[a], list) and len(first[a]) != len(first[b]):
                return SKIP
            return mix((x - a) / (b - a), first[a], first[b])
        order = sorted(first, key=lambda v: abs(v - x))
        a, b = order[:2]
        if name == "linearFlat" or x == a:
            if isinstance(first[a], list) and len(first[a]) != len(first[b]):
                return SKIP
            return first[a]
        if name == "linearMissing":
            return None
        return mix((x - a) / (b - a), first[a], first[b])
    tag = lambda t: (lambda x, table: (lambda v: v if v is None or v is SKIP or isinstance(v, frozenset) else {t: v})(ref(x, table))) if name == "linearMissing" else ref
    xs = (-2.0, 0.0, 1.0, 3.0)
    qs = (-5.0, -2.0, -1.0, 0.0, 0.5, 1.0, 1.75, 3.0, 9.0)
    opt1 = lambda t: ["null", t] if name == "linearMissing" else t

    def judge(got, want, args):
        if isinstance(want[1], frozenset):
            return got[0] == "err" and got[1] in want[1]
        w = want[1]
        if isinstance(w, dict):
            w = list(w.values())[0]
        g = got[1]
        if isinstance(g, dict) and len(g) == 1:
            g = list(g.values())[0]
        return agree((got[0], g) if got[0] == "ok" else got, ("ok", w), 1e-12)
    ys = (10.0, -1.0, 4.0, 25.0)
    tables = [[{"x": t, "to": ys[i]} for i, t in enumerate(ts)] for k in range(5) for ts in itertools.product(xs, repeat=k)]
    sweep(ctx, "interp." + name, ["double", A(P)], opt1("double"), ref, itertools.product(qs, tables), judge=judge)
    ys = ([10.0, 1.0], [-1.0, 2.0], [4.0, 0.5], [1.0])
    tables = [[{"x": t, "to": list(y)} for t, y in zip(ts, yy)] for k in range(4) for ts in itertools.product(xs, repeat=k) for yy in itertools.permutations(ys, k)]
    sweep(ctx, "interp." + name, ["double", A(V)], opt1(A("double")), ref, itertools.product(qs if ctx.thorough else qs[1::2], tables), judge=judge, label=name + "[]")


def imputation(ctx):
    R = rec("R", ("a", "int"))
    E = {"type": "enum", "name": "E", "symbols": ["u", "v"]}
    F = {"type": "fixed", "name": "F", "size": 2}
    vals = {"boolean": ["boolean", True, False], "int": ["int", 0, 5], "long": ["long", 2**40], "double": ["double", 0.0, 2.5], "string": ["string", "", "null", "x"],
            "array": [A("int"), [], [1, 2]], "map": [M("int"), {}, {"map": 3}, {"a": 1, "b": 2}, {"int": 7}], "R": [R, {"a": 4}], "E": [E, "u", "v"], "map2": [M(M("int")), {"map": {"map": 1}}]}
    for n, vs in sorted(vals.items()):
        t, vs = vs[0], vs[1:]
        tag = "map" if n == "map2" else n
        for order in ([t, "null"], ["null", t]):
            sweep(ctx, "impute.errorOnNull", [order], t, lambda x: list(x.values())[0] if x is not None else (_ for _ in ()).throw(Err(21000)), [({tag: v},) for v in vs] + [(None,)], label="errorOnNull %s %s" % (n, order[0]))
            sweep(ctx, "impute.defaultOnNull", [order, t], t, lambda x, d: d if x is None else list(x.values())[0], [(x, d) for x in [{tag: v} for v in vs] + [None] for d in vs], label="defaultOnNull %s %s" % (n, order[0]))
    xs = (-1e308, -1.0, -0.0, 0.0, 2.5, 1e-310) + ODD
    for t in ("float", "double"):
        zs = [x for x in xs if t == "double" or x != x or abs(x) < 1e30 or abs(x) == INF]
        sweep(ctx, "impute.isnan", [t], "boolean", lambda x: x != x, [(x,) for x in zs], label="isnan " + t)
        sweep(ctx, "impute.isinf", [t], "boolean", lambda x: x in (INF, -INF), [(x,) for x in zs], label="isinf " + t)
        sweep(ctx, "impute.isnum", [t], "boolean", lambda x: x - x == 0, [(x,) for x in zs], label="isnum " + t)

        def err(x):
            if x - x == 0:
                return x
            raise Err(21050 if x != x else 21051 if x > 0 else 21052)
        sweep(ctx, "impute.errorOnNonNum", [t], t, err, [(x,) for x in zs], label="errorOnNonNum " + t)
        sweep(ctx, "impute.defaultOnNonNum", [t, t], t, lambda x, d: x if x - x == 0 else d, itertools.product(zs, zs), label="defaultOnNonNum " + t)
    for t in ("int", "long"):
        sweep(ctx, "impute.isnum", [t], "boolean", lambda x: True, [(x,) for x in (0, -1, 2147483647)], label="isnum " + t)


def tasks(tier):
    out = [("distance " + n, distance, (n,)) for n in ("euclidean", "squaredEuclidean", "chebyshev", "taxicab", "minkowski")]
    out += [("ints", ints, ()), ("simple", simple, ()), ("binary", binary, ()), ("axioms", axioms, ()), ("kernels", kernels, ()), ("links", links, ()), ("bins", bins, ()), ("nearest", nearest, ())]
    return out + [("interpolate " + n, interpolate, (n,)) for n in ("linear", "linearFlat", "linearMissing")] + [("imputation", imputation, ())]
