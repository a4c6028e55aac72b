"""C26: scoring functions of models (cluster, naive, neighbor, neural, reg, svm) against direct evaluations of their definitions."""
import itertools
import math

from mc.eng import *
from mc.checks import C24
from mc.checks.C24 import A, M, rec

LEVEL = "exploration"
RULE = ("a case is one call of a model function on the real engine with one combination of datum and model; all combinations of small vectors, "
        "models, tables and options from boundary alphabets, well formed and misaligned; non-trivial: all")
ASSUMPTIONS = ["floating point results are compared with a relative tolerance of 1e-9 (Gaussian processes 1e-6)",
               "distances between vectors of different lengths, repeated features of Bernoulli data, kernels with nearly singular matrices and tables in which a "
               "column does not vary are left open", "when two errors apply, either may be reported"]

TWO = (-1.0, 0.5, 3.0)


def div(a, b):
    if b == 0:
        return NAN if a == 0 or a != a else math.copysign(INF, a) * math.copysign(1.0, b)
    return a / b


def vecs(ns, letters):
    return [list(t) for n in ns for t in itertools.product(letters, repeat=n)]


def square(x, y):
    return sum((a - b) ** 2 for a, b in zip(x, y))


def taxi(x, y):
    return sum(abs(a - b) for a, b in zip(x, y))


TAXI = ("fcn", {"params": [{"x": A("double")}, {"y": A("double")}], "ret": "double",
                "do": {"metric.taxicab": [{"fcn": "metric.absDiff"}, "x", "y"]}})


def lowest(ds, n):
    return sorted(range(len(ds)), key=lambda i: (ds[i], i))[:n]


def cluster(ctx):
    C = rec("C", ("center", A("double")), ("name", "string"))
    n = 4 if ctx.thorough else 3
    points = vecs([2], (0.0, 1.0, 4.0))
    books = [[{"center": c, "name": "c%d" % i} for i, c in enumerate(cs)] for k in range(n + 1)
             for cs in itertools.product(points if k < 3 else points[::2], repeat=k)]
    data = vecs([2], (0.0, 0.5, 2.5, -1e200))
    for label, extra, dist in (("", [], square), ("taxicab", [TAXI], taxi)):
        def closest(d, cs):
            if not cs:
                raise Err(29000)
            return cs[lowest([dist(d, c["center"]) for c in cs], 1)[0]]

        def closestN(k, d, cs):
            if k < 0:
                raise Err(29010)
            return [cs[i] for i in lowest([dist(d, c["center"]) for c in cs], k)]
        sweep(ctx, "model.cluster.closest", [A("double"), A(C)] + extra, "C", closest, itertools.product(data, books), label="closest/" + label)
        sweep(ctx, "model.cluster.closestN", ["int", A("double"), A(C)] + extra, A("C"), closestN,
              itertools.product((-1, 0, 1, 2, 5, 2**31 - 1, -2**31), data[::3], books), label="closestN/" + label)
        if label:
            # vectors need not be arrays of numbers
            D = rec("D", ("center", "string"), ("name", "int"))
            metric = ("fcn", {"params": [{"x": "int"}, {"y": "string"}], "ret": "double", "do": {"u.far": ["x", "y"]}})
            far = {"far": {"params": [{"x": "int"}, {"y": "string"}], "ret": "double", "do": {"m.abs": {"-": ["x", {"s.len": "y"}]}}}}
            books2 = [[{"center": "x" * c, "name": i} for i, c in enumerate(cs)] for k in range(4) for cs in itertools.product(range(4), repeat=k)]

            def closest2(d, cs):
                if not cs:
                    raise Err(29000)
                return cs[lowest([abs(d - len(c["center"])) for c in cs], 1)[0]]
            sweep(ctx, "model.cluster.closest", ["int", A(D), metric], "D", closest2, itertools.product(range(-1, 5), books2), fcns=far, label="closest/strings")
            sweep(ctx, "model.cluster.closestN", ["int", "int", A(D), metric], A("D"),
                  lambda k, d, cs: [cs[i] for i in lowest([abs(d - len(c["center"])) for c in cs], k)], itertools.product((0, 1, 2, 3), range(-1, 5), books2), fcns=far, label="closestN/strings")


def updateMean(ctx):
    C = rec("C", ("center", A("double")), ("name", "string"))

    def ref(data, c, w):
        if not data:
            raise Err(29040)
        if len(set(len(v) for v in data + [c["center"]])) != 1:
            raise Err(29041)
        return dict(c, center=[div(sum(col) + w * x, len(data) + w) for col, x in zip(zip(*data), c["center"])])
    sets = [list(t) for k in range(4) for t in itertools.product(vecs([0, 1, 2], (0.0, 2.5)) if k < 3 else vecs([2], (0.0, 2.5)), repeat=k)]
    sweep(ctx, "model.cluster.updateMean", [A(A("double")), C, "double"], "C", ref,
          ((d, {"center": c, "name": "keep"}, w) for d in sets for c in ([], [1.0], [1.0, -2.0], [1.0, 2.0, 3.0]) for w in (0.0, 1.0, 2.5, -1.0, -2.0)), tol=1e-12)


def kmeansIteration(ctx, label):
    C = rec("C", ("center", A("double")), ("name", "string"))
    metric, dist = {"euclid": (("fcn", {"params": [{"x": A("double")}, {"y": A("double")}], "ret": "double",
                                         "do": {"metric.simpleEuclidean": ["x", "y"]}} if False else
                                {"params": [{"x": A("double")}, {"y": A("double")}], "ret": "double", "do": {"metric.squaredEuclidean": [{"fcn": "metric.absDiff"}, "x", "y"]}}), square),
                    "taxi": (TAXI, taxi)}[label]
    for w in (0.0, 2.0):
        update = ("fcn", {"params": [{"d": A(A("double"))}, {"c": C}], "ret": "C", "do": {"model.cluster.updateMean": ["d", "c", w]}})

        def ref(data, cs):
            if not data and not cs:
                return SKIP
            if not data:
                raise Err(29030)
            if not cs:
                raise Err(29031)
            out = []
            best = [lowest([dist(d, c["center"]) for c in cs], 1)[0] for d in data]
            for i, c in enumerate(cs):
                mine = [d for d, b in zip(data, best) if b == i]
                out.append(c if not mine else dict(c, center=[(sum(col) + w * x) / (len(mine) + w) for col, x in zip(zip(*mine), c["center"])]))
            return out
        pts = [[0.0, 0.0], [1.0, 0.0], [0.0, 3.0], [5.0, 5.0]]
        centers = [[0.0, 0.0], [2.0, 0.0], [0.0, 2.0], [4.0, 4.0]]
        datas = [list(t) for k in range(4 if not ctx.thorough else 5) for t in itertools.product(pts, repeat=k)]
        books = [[{"center": c, "name": "c%d" % i} for i, c in enumerate(cs)] for k in range(4) for cs in itertools.permutations(centers, k)]
        sweep(ctx, "model.cluster.kmeansIteration", [A(A("double")), A(C), metric, update], A("C"), ref, itertools.product(datas, books),
              tol=1e-12, label="kmeansIteration/%s/%s" % (label, w))
    # updates get the data of their cluster, in order
    update = ("fcn", {"params": [{"d": A(A("double"))}, {"c": C}], "ret": "C", "do": {"attr": "c", "path": [{"string": "center"}], "to": {"a.flatten": ["d"]}}})

    def order(data, cs):
        if not data or not cs:
            return SKIP
        best = [lowest([dist(d, c["center"]) for c in cs], 1)[0] for d in data]
        return [dict(c, center=sum([d for d, b in zip(data, best) if b == i], []) or c["center"]) for i, c in enumerate(cs)]
    sweep(ctx, "model.cluster.kmeansIteration", [A(A("double")), A(C), metric, update], A("C"), order, itertools.product(datas, books[:20]), label="kmeansIteration/order/" + label)


def seeds(ctx):
    """Every choice of seeds is a choice of k different points, and with enough seeds of the generator every choice occurs."""
    C = rec("C", ("center", A("double")), ("id", "int"))
    new = ("fcn", {"params": [{"i": "int"}, {"v": A("double")}], "ret": "C", "do": {"new": {"id": "i", "center": "v"}, "type": "C"}})
    from mc.eng import callDoc
    base = callDoc("model.cluster.randomSeeds", [A(A("double")), "int", new], A(C))
    base["action"][0]["model.cluster.randomSeeds"][2]["ret"] = "C"
    pts = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]
    datas = [list(t) for k in range(5) for t in itertools.product(pts, repeat=k)] + [[[0.0], [0.0, 1.0]], [[], []], [[0.0], [1.0, 2.0], [0.0]]]
    engines = [make(dict(base, options={}), options=None) if False else make(dict(base, randseed=s)) for s in range(1, 41)]
    for data in datas:
        for k in (-2**31, -1, 0, 1, 2, 3, 4):
            case = ("seeds", data, k)
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            distinct = []
            for d in data:
                if d not in distinct:
                    distinct.append(d)
            outs = set()
            wants = set()
            if k <= 0:
                wants.add(29020)
            else:
                if len(distinct) < k:
                    wants.add(29021)
                if len(set(map(len, distinct))) != 1:
                    wants.add(29022)
            for e in engines if not wants and len(data) < 4 else engines[:3]:
                got = outcome(e.action, {"a0": data, "a1": k})
                ctx.transitions += 1
                if wants:
                    good = got[0] == "err" and got[1] in wants
                else:
                    good = got[0] == "ok" and [c["id"] for c in got[1]] == list(range(k)) and all(c["center"] in distinct for c in got[1]) and \
                        len(set(map(repr, (c["center"] for c in got[1])))) == k
                    if good:
                        outs.add(repr([c["center"] for c in got[1]]))
                if not good:
                    ctx.fail(case, "randomSeeds({0}, {1}) gives {2}".format(data, k, show(got)))
                    break
            else:
                if not wants and len(data) < 4:
                    every = set(repr(list(p)) for p in itertools.permutations(distinct, k))
                    if outs != every:
                        ctx.fail(case, "randomSeeds({0}, {1}) never gives {2}".format(data, k, sorted(every - outs)[:3]))
            ctx.outcome((len(outs), repr(wants)))
            if ctx.full():
                return


def naive(ctx):
    G = rec("G", ("mean", "double"), ("variance", "double"), ("n", "int"))

    def gauss(d, ks, m):
        if any(m[k]["variance"] <= 0 for k in m if k in ks or not isinstance(m, dict)) if isinstance(m, dict) else any(g["variance"] <= 0 for g in m):
            raise Err(10001)
        return sum(-0.5 * math.log(2 * math.pi * m[k]["variance"]) - 0.5 * (d[k] - m[k]["mean"]) ** 2 / m[k]["variance"] for k in ks)

    def both(d, m):
        if len(d) != len(m):
            raise Err(10000)
        return gauss(d, range(len(d)), m)

    def bothm(d, m):
        if set(d) != set(m):
            raise Err(10000)
        return gauss(d, sorted(d), m)
    letters = [{"mean": a, "variance": v, "n": 1} for a in (-1.0, 0.0, 2.5) for v in (-1.0, 0.0, 0.5, 4.0, 1e-300)]
    models = [list(t) for k in range(3) for t in itertools.product(letters, repeat=k)]
    data = vecs([0, 1, 2], (-1.0, 0.0, 3.5, INF))
    sweep(ctx, "model.naive.gaussian", [A("double"), A(G)], "double", both, itertools.product(data, models), tol=1e-12)
    keyed = lambda lists, keys="ab": [dict(zip(ks, t)) for t in lists for ks in ([keys[:len(t)]] if len(t) != 1 else ["a", "b"])]
    sweep(ctx, "model.naive.gaussian", [M("double"), M(G)], "double", bothm, itertools.product(keyed(data), keyed(models)), tol=1e-12)

    def multi(d, ps):
        s = float(sum(ps))
        return sum(x * math.log(p / s + 2.2250738585072014e-308) for x, p in zip(d, ps))

    def empty(m):
        return not m or any(not p > 0 for p in m)

    def multiA(d, m):
        if empty(m) and len(d) != len(m):
            return SKIP
        if empty(m):
            raise Err(10011)
        if len(d) != len(m):
            raise Err(10010)
        return multi(d, m)

    def multiM(d, m):
        if empty(list(m.values())) and set(d) != set(m):
            return SKIP
        if empty(list(m.values())):
            raise Err(10011)
        if set(d) != set(m):
            raise Err(10010)
        ks = sorted(d)
        return multi([d[k] for k in ks], [m[k] for k in ks])
    counts = vecs([0, 1, 2, 3], (0.0, 1.0, 2.5))
    ps = vecs([0, 1, 2, 3], (0.25, 0.5, 3.0, 0.0)) + [[-1.0], [0.5, -0.5], [1e-320, 1.0], [1e308, 0.5]]
    V = lambda t: rec("V", ("values", t), ("n", "int"))
    cases = list(itertools.product(counts, ps))
    sweep(ctx, "model.naive.multinomial", [A("double"), A("double")], "double", multiA, cases, tol=1e-12)
    sweep(ctx, "model.naive.multinomial", [A("double"), V(A("double"))], "double", lambda d, m: multiA(d, m["values"]), ((d, {"values": p, "n": 1}) for d, p in cases), tol=1e-12, label="multinomial/record")
    mcases = list(itertools.product(keyed(counts, "abc"), keyed(ps, "abc")))
    sweep(ctx, "model.naive.multinomial", [M("double"), M("double")], "double", multiM, mcases, tol=1e-12, label="multinomial/map")
    sweep(ctx, "model.naive.multinomial", [M("double"), V(M("double"))], "double", lambda d, m: multiM(d, m["values"]), ((d, {"values": p, "n": 1}) for d, p in mcases), tol=1e-12, label="multinomial/map record")

    def bern(d, m):
        if any(not 0 < p < 1 for p in m.values()):
            raise Err(10020)
        if len(set(d)) != len(d):
            return SKIP
        return sum(math.log(m[k]) if k in d else math.log(1 - m[k]) for k in m)
    words = [list(p) for k in range(4) for p in itertools.product(("a", "b", "zz"), repeat=k)]
    maps = [dict((k, p) for k, p in zip(("a", "b", "c"), t) if p is not None) for t in itertools.product((None, 0.25, 0.9, 0.0, 1.0, -0.5, 1.5), repeat=3)]
    sweep(ctx, "model.naive.bernoulli", [A("string"), M("double")], "double", bern, itertools.product(words, maps), tol=1e-12)
    sweep(ctx, "model.naive.bernoulli", [A("string"), V(M("double"))], "double", lambda d, m: bern(d, m["values"]), ((d, {"values": m, "n": 1}) for d in words for m in maps), tol=1e-12, label="bernoulli/record")


def neighbor(ctx):
    points = vecs([2], (0.0, 1.0, 4.0))
    books = [list(t) for k in range(4) for t in itertools.product(points if k < 3 else points[::2], repeat=k)]
    odd = [[[0.0]], [[0.0, 1.0], [1.0]], [[]], [[0.0, 0.0, 0.0], [0.0, 0.0]]]
    data = vecs([2], (0.0, 0.5, 2.5))

    for label, extra, dist in (("", [], square), ("taxicab", [TAXI], taxi)):
        def nearest(k, d, cs):
            if label and any(len(c) != len(d) for c in cs):
                return SKIP
            if k < 0:
                raise Err(30010)
            if any(len(c) != len(d) for c in cs):
                raise Err(30011)
            return [cs[i] for i in lowest([dist(d, c) for c in cs], k)]

        def ball(r, d, cs):
            if any(len(c) != len(d) for c in cs):
                return SKIP
            out = []
            for c in cs:
                x = dist(d, c) if label else math.sqrt(dist(d, c))
                if x < r:
                    out.append(c)
            return out
        sweep(ctx, "model.neighbor.nearestK", ["int", A("double"), A(A("double"))] + extra, A(A("double")), nearest,
              itertools.product((-2**31, -1, 0, 1, 2, 3, 2**31 - 1), data[::2], books + odd), label="nearestK/" + label)
        sweep(ctx, "model.neighbor.ballR", ["double", A("double"), A(A("double"))] + extra, A(A("double")), ball,
              itertools.product((-1.0, 0.0, 0.5, 1.0, 2.5, 5.0, INF), data[::2], books + odd), label="ballR/" + label)
    # any metric between any two types
    metric = ("fcn", {"params": [{"x": "int"}, {"y": "string"}], "ret": "double", "do": {"m.abs": {"-": ["x", {"s.len": "y"}]}}})
    books2 = [["x" * c for c in cs] for k in range(4) for cs in itertools.product(range(4), repeat=k)]
    sweep(ctx, "model.neighbor.nearestK", ["int", "int", A("string"), metric], A("string"),
          lambda k, d, cs: [cs[i] for i in lowest([abs(d - len(c)) for c in cs], k)], itertools.product(range(4), range(-1, 4), books2), label="nearestK/strings")
    sweep(ctx, "model.neighbor.ballR", ["double", "int", A("string"), metric], A("string"),
          lambda r, d, cs: [c for c in cs if abs(d - len(c)) < r], itertools.product((0.0, 0.5, 1.0, 2.5), range(-1, 4), books2), label="ballR/strings")

    sets = [list(t) for k in range(4) for t in itertools.product(vecs([0, 1, 2], (0.0, 2.5)) if k < 3 else vecs([2], (-1.0, 0.0, 2.5)), repeat=k)]

    def mean(w):
        def ref(ps):
            if not ps:
                raise Err(30000)
            if len(set(map(len, ps))) != 1:
                raise Err(30001)
            ws = [w(p) for p in ps]
            return [div(sum(x * v for x, v in zip(ws, col)), sum(ws)) for col in zip(*ps)]
        return ref
    sweep(ctx, "model.neighbor.mean", [A(A("double"))], A("double"), mean(lambda p: 1.0), ((s,) for s in sets), tol=1e-12)
    for label, weight, w in (("first", {"if": {">": [{"a.len": "p"}, 0]}, "then": {"attr": "p", "path": [0]}, "else": 0.0}, lambda p: p[0] if p else 0.0),
                             ("zero", 0.0, lambda p: 0.0), ("count", {"+": [{"a.len": "p"}, 0.5]}, lambda p: len(p) + 0.5)):
        sweep(ctx, "model.neighbor.mean", [A(A("double")), ("fcn", {"params": [{"p": A("double")}], "ret": "double", "do": [weight]})], A("double"), mean(w),
              ((s,) for s in sets), tol=1e-9, label="mean/" + label)


ACT = {"logistic": (("fcn", {"params": [{"x": "double"}], "ret": "double", "do": {"m.link.logit": "x"}}), lambda x: 1 / (1 + math.exp(-x))),
       "tanh": (("fcn", {"params": [{"x": "double"}], "ret": "double", "do": {"m.tanh": "x"}}), math.tanh),
       "relu": (("fcn", {"params": [{"x": "double"}], "ret": "double", "do": {"max": ["x", 0.0]}}), lambda x: max(x, 0.0)),
       "plus": (("fcn", {"params": [{"x": "double"}], "ret": "double", "do": {"+": ["x", 10.0]}}), lambda x: x + 10)}


def neural(ctx, name):
    act, f = ACT[name]
    L = rec("L", ("weights", A(A("double"))), ("bias", A("double")), ("n", "int"))

    def ref(d, layers):
        if not layers:
            raise Err(11000)
        for i, l in enumerate(layers):
            if len(l["bias"]) != len(l["weights"]) or any(len(r) != len(d) for r in l["weights"]):
                raise Err(11001)
            d = [sum(a * b for a, b in zip(r, d)) + c for r, c in zip(l["weights"], l["bias"])]
            if i < len(layers) - 1:
                d = [f(x) for x in d]
        return d
    rows = lambda n: [[1.0] * n, [(-1.0) ** i * (i + 0.5) for i in range(n)]]
    shapes = [{"weights": [list(r) for r in w], "bias": [0.25, -2.0, 1.0][:b], "n": 0} for n in range(3) for k in range(3) for w in itertools.product(rows(n), repeat=k) for b in range(3)]
    shapes += [{"weights": [[1.0, 2.0], [1.0]], "bias": [0.0, 0.0], "n": 0}, {"weights": [[1.0, 2.0], [1.0], [0.0, 0.0]], "bias": [0.0, 0.0, 1.0], "n": 0}]
    good = [s for s in shapes if len(s["bias"]) == len(s["weights"])]
    data = vecs([0, 1, 2], (-1.0, 0.0, 2.5))
    few = [[], [1.5], [-1.0, 0.5]]
    cases = [(d, [])for d in data] + [(d, [s]) for d in data for s in shapes] + [(d, [s, t]) for d in few for s in shapes for t in shapes]
    if ctx.thorough:
        cases += [(d, [s, t, u]) for d in few for s in good for t in good for u in good]
    else:
        cases += [(d, [s, t, u]) for d in few[1:] for s in good if len(s["weights"]) and all(len(r) == len(d) for r in s["weights"]) for t in good[::2] for u in good[::2]]
    sweep(ctx, "model.neural.simpleLayers", [A("double"), A(L), act], A("double"), ref, cases, tol=1e-12, label="simpleLayers/" + name)


def svm(ctx):
    V = rec("V", ("supVec", A("double")), ("coeff", "double"))
    W = rec("W", ("supVec", A("double")), ("coeff", "double"), ("n", "int"))
    for two in (False, True):
        L = rec("L", ("const", "double"), ("posClass", A(V)), ("negClass", A(W) if two else A("V")))
        for name, kernel, f in (("linear", {"m.kernel.linear": ["x", "y"]}, lambda x, y: sum(a * b for a, b in zip(x, y))),
                                ("first", {"a.sum": "x"}, lambda x, y: sum(x)), ("rbf", {"m.kernel.rbf": ["x", "y", 0.5]}, lambda x, y: math.exp(-0.5 * square(x, y)))):
            k = ("fcn", {"params": [{"x": A("double")}, {"y": A("double")}], "ret": "double", "do": [kernel]})

            def ref(d, m):
                both = m["posClass"] + m["negClass"]
                if not both:
                    raise Err(12000)
                if any(len(v["supVec"]) != len(d) for v in both):
                    raise Err(12001)
                return m["const"] + sum(v["coeff"] * f(v["supVec"], d) for v in both)
            sv = [dict({"supVec": s, "coeff": c}) for s in vecs([1], (0.5, 2.0)) + [[1.0, -2.0], [0.0, 3.0], []] for c in (-1.0, 0.5)]
            groups = [list(t) for n in range(3) for t in itertools.product(sv, repeat=n)]
            groups = groups if ctx.thorough else groups[:11] + groups[11::5]
            neg = [[dict(v, n=1) for v in g] for g in groups] if two else groups
            sweep(ctx, "model.svm.score", [A("double"), L, k], "double", ref,
                  ((d, {"const": c, "posClass": p, "negClass": n}) for d in ([], [1.5], [1.0, 2.0]) for c in (0.0, 10.0) for p in groups for n in neg), tol=1e-12, label="svm/%s/%s" % (name, two))


# ------------------------------------------------------------------ regression

def linear(ctx, number):
    R = lambda c, k: rec("R", ("coeff", c), ("const", k), ("n", "int"))
    conv = int if number in ("int", "long") else float

    def one(d, m):
        if len(d) != len(m["coeff"]):
            raise Err(31000)
        return sum(a * b for a, b in zip(d, m["coeff"])) + m["const"]
    letters = [conv(v) for v in (-1, 0, 3)]
    data = vecs([0, 1, 2, 3], letters)
    for dt in ("double", number):
        sweep(ctx, "model.reg.linear", [A(dt), R(A(number), number)], "double", one,
              (([float(x) for x in d] if dt == "double" else d, {"coeff": c, "const": k, "n": 1}) for d in data for c in data for k in letters), tol=1e-12, label="linear/vector/%s/%s" % (dt, number))

    def many(d, m):
        wrong = any(len(r) != len(d) for r in m["coeff"])
        short = len(m["const"]) != len(m["coeff"])
        if wrong and short:
            return SKIP
        if wrong:
            raise Err(31000)
        if short:
            raise Err(31001)
        return [sum(a * b for a, b in zip(d, r)) + k for r, k in zip(m["coeff"], m["const"])]
    rows = vecs([0, 1, 2], letters[1:])
    matrices = [list(t) for n in range(3) for t in itertools.product(rows, repeat=n)] + [[[letters[0], letters[2]], [letters[1], letters[2]], [letters[2], letters[0]]]]
    sweep(ctx, "model.reg.linear", [A("double"), R(A(A(number)), A(number))], A("double"), many,
          (([float(x) for x in d], {"coeff": c, "const": k, "n": 1}) for d in vecs([0, 1, 2], letters) for c in matrices for k in vecs([0, 1, 2, 3], letters[::2])), tol=1e-12, label="linear/matrix/" + number)
    maps = [dict((k, v) for k, v in zip("abc", t) if v is not None) for t in itertools.product([None] + letters[1:], repeat=3)]

    def onem(d, m):
        return sum(d[k] * m["coeff"].get(k, 0) for k in d) + m["const"]
    sweep(ctx, "model.reg.linear", [M("double"), R(M(number), number)], "double", onem,
          ((dict((k, float(v)) for k, v in d.items()), {"coeff": c, "const": k, "n": 1}) for d in maps for c in maps for k in letters), tol=1e-12, label="linear/map/" + number)
    inner = [dict((k, v) for k, v in zip("ab", t) if v is not None) for t in itertools.product([None] + letters[1:], repeat=2)]
    outer = [dict((k, v) for k, v in zip("xy", t) if v is not None) for t in itertools.product([None] + inner, repeat=2)]
    consts = [dict((k, v) for k, v in zip("xyz", t) if v is not None) for t in itertools.product([None, letters[2]], repeat=3)]

    def manym(d, m):
        return dict((o, sum(d[k] * m["coeff"].get(o, {}).get(k, 0) for k in d) + m["const"].get(o, 0)) for o in set(m["coeff"]) | set(m["const"]))
    sweep(ctx, "model.reg.linear", [M("double"), R(M(M(number)), M(number))], M("double"), manym,
          ((dict((k, float(v)) for k, v in d.items()), {"coeff": c, "const": k, "n": 1}) for d in inner + [{"c": letters[2]}] for c in outer for k in consts), tol=1e-12, label="linear/maps/" + number)


def variance(ctx, number):
    R = lambda c: rec("R", ("covar", c), ("n", "int"))
    conv = int if number in ("int", "long") else float
    letters = [conv(v) for v in (-1, 0, 2)]

    def quad(d, c):
        d = list(d) + [1.0]
        if len(c) != len(d) or any(len(r) != len(d) for r in c):
            raise Err(31010)
        return sum(d[i] * d[j] * c[i][j] for i in range(len(d)) for j in range(len(d)))
    mats = [[list(t[i * n:i * n + n]) for i in range(n)] for n in (1, 2) for t in itertools.product(letters, repeat=n * n)]
    mats += [[[letters[2], t[0], t[1]], [t[2], letters[2], t[0]], [t[1], t[2], letters[2]]] for t in itertools.product(letters, repeat=3)]
    mats += [[], [[]], [letters], [letters[:2], letters[:1]], [letters[:2]] * 3, [letters[:1], letters[:2]]]
    data = vecs([0, 1, 2], (-1.0, 0.0, 2.5))
    sweep(ctx, "model.reg.linearVariance", [A("double"), R(A(A(number)))], "double", lambda d, m: quad(d, m["covar"]),
          ((d, {"covar": c, "n": 1}) for d in data for c in mats), tol=1e-12, label="variance/vector/" + number)
    some = mats[::3]
    sweep(ctx, "model.reg.linearVariance", [A("double"), R(A(A(A(number))))], A("double"), lambda d, m: [quad(d, c) for c in m["covar"]],
          ((d, {"covar": list(c), "n": 1}) for d in data for k in range(3) for c in itertools.product(some, repeat=k)), tol=1e-12, label="variance/vectors/" + number)

    def quadm(d, c):
        d = dict(d, **{"": 1.0})
        return float(sum(d[i] * d[j] * c.get(i, {}).get(j, 0) for i in d for j in d))
    inner = [dict((k, v) for k, v in zip(("a", "b", ""), t) if v is not None) for t in itertools.product([None, letters[0], letters[2]], repeat=3)]
    covs = [dict((k, v) for k, v in zip(("a", "b", ""), t) if v is not None) for t in itertools.product([None] + inner[1::5], repeat=3)]
    datam = [dict((k, v) for k, v in zip(("a", "b", "c"), t) if v is not None) for t in itertools.product([None, -1.0, 2.5], repeat=3)]
    sweep(ctx, "model.reg.linearVariance", [M("double"), R(M(M(number)))], "double", lambda d, m: quadm(d, m["covar"]),
          ((d, {"covar": c, "n": 1}) for d in datam for c in covs), tol=1e-12, label="variance/map/" + number)
    few = covs[::17]
    sweep(ctx, "model.reg.linearVariance", [M("double"), R(M(M(M(number))))], M("double"), lambda d, m: dict((k, quadm(d, c)) for k, c in m["covar"].items()),
          ((d, {"covar": dict(zip("pq", c)), "n": 1}) for d in datam[::2] for k in range(3) for c in itertools.product(few, repeat=k)), tol=1e-12, label="variance/maps/" + number)


def solve(m, v):
    """Gaussian elimination with the smallest pivot met."""
    n = len(m)
    a = [list(m[i]) + [v[i]] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(a[r][i]))
        a[i], a[p] = a[p], a[i]
        for r in range(n):
            if r != i:
                f = a[r][i] / a[i][i]
                a[r] = [x - f * y for x, y in zip(a[r], a[i])]
    return [a[i][n] / a[i][i] for i in range(n)]


def pivots(m):
    """The pivots of the Cholesky decomposition (squared), up to the first that is not positive."""
    n = len(m)
    a = [list(r) for r in m]
    out = []
    for i in range(n):
        out.append(a[i][i])
        if a[i][i] <= 0:
            return out
        for r in range(i + 1, n):
            f = a[r][i] / a[i][i]
            a[r] = [x - f * y for x, y in zip(a[r], a[i])]
    return out


KERNELS = {"rbf": ({"m.kernel.rbf": ["x", "y", 0.5]}, lambda x, y: math.exp(-0.5 * square(x, y))),
           "near": ({"m.exp": {"*": [-2.0, {"metric.taxicab": [{"fcn": "metric.absDiff"}, "x", "y"]}]}}, lambda x, y: math.exp(-2.0 * taxi(x, y))),
           "big": ({"+": [1.5, {"*": [0.0, {"a.len": "x"}]}]}, lambda x, y: 1.5),
           "none": ({"*": [0.0, {"a.len": "x"}]}, lambda x, y: 0.0)}


def gauss(ctx, vector, outputs, sigma, kernel):
    body, k = KERNELS[kernel]
    fx, ft = (A("double") if vector else "double"), (A("double") if outputs else "double")
    fields = [("x", fx), ("to", ft)] + ([("sigma", ft)] if sigma else []) + [("note", "string")]
    R = rec("R", *fields)

    def stats(col):
        m = sum(col) / len(col)
        return m, math.sqrt(sum((c - m) ** 2 for c in col) / len(col))

    def single(x, X, y, s, w):
        n = len(y)
        cols = [stats([v[i] for v in X]) for i in range(len(x))]
        ym, ys = stats(y)
        if any(sd == 0 for _, sd in cols) or ys == 0 or (s and any(t == 0 for t in y)):
            raise LookupError
        norm = lambda v: [(a - m) / sd for a, (m, sd) in zip(v, cols)]
        Xn, yn = [norm(v) for v in X], [(t - ym) / ys for t in y]
        K = [[1.0 + ((s[i] / y[i]) ** 2 if s else 10 * 2.0 ** -52) if i == j else k(Xn[min(i, j)], Xn[max(i, j)]) for j in range(n)] for i in range(n)]
        low = pivots(K)
        if abs(min(low)) < 1e-6:
            raise LookupError
        if min(low) < 0:
            raise Err(31088)
        if w is None:
            a, b = solve(K, yn), solve(K, [1.0] * n)
            if abs(sum(b)) < 1e-9:
                raise LookupError
            w = sum(a) / sum(b)
        g = solve(K, [t - w for t in yn])
        xn = norm(x)
        return ym + ys * (w + sum(gi * k(xn, v) for gi, v in zip(g, Xn)))

    def ref(x, table, weight):
        w = weight["double"] if weight is not None else None
        if not table:
            raise Err(31080)
        xs = x if vector else [x]
        X = [t["x"] if vector else [t["x"]] for t in table]
        codes = set()
        if not xs:
            codes.add(31081)
        if any(len(v) != len(xs) for v in X):
            codes.add(31082)
        if outputs and not table[0]["to"]:
            codes.add(31083)
        if outputs and len(set(len(t["to"]) for t in table)) > 1:
            codes.add(31084)
        if any(not math.isfinite(v) for v in xs):
            codes.add(31085)
        if any(not math.isfinite(v) for t in table for v in ([t["to"]] if not outputs else t["to"])) or any(not math.isfinite(v) for vs in X for v in vs):
            codes.add(31086)
        if w is not None and not math.isfinite(w):
            codes.add(31087)
        if len(codes) > 1:
            return SKIP
        if codes:
            raise Err(codes.pop())
        try:
            if not outputs:
                return single(xs, X, [t["to"] for t in table], [t["sigma"] for t in table] if sigma else None, w)
            out = []
            for i in range(len(table[0]["to"])):
                out.append(single(xs, X, [t["to"][i] for t in table], [t["sigma"][i] for t in table] if sigma else None, w))
            # the tests of the repository have the other outputs use the weight found for the first
            return [out[0]] + [OPEN] * (len(out) - 1) if w is None else out
        except LookupError:
            return SKIP
    xs = [[v] for v in (0.0, 1.5, -4.0, NAN, INF)] if not vector else [[0.0, 0.0], [1.5, 2.0], [3.0, -1.0], [], [1.0], [NAN, 0.0]]
    xs = xs if vector else [v[0] for v in xs]
    px = (0.0, 1.0, 3.0, 5.0) if not vector else ([0.0, 0.0], [1.0, 2.0], [3.0, 1.0], [2.0, -2.0])
    pt = (1.0, -2.0, 0.5) if not outputs else ([1.0, 4.0], [-2.0, 0.5], [0.5, -3.0])
    rows = lambda xs, ts, s: {"x": xs, "to": ts, "note": ""} if not sigma else {"x": xs, "to": ts, "note": "", "sigma": s}
    tables = [[]]
    for n in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        for ps in itertools.permutations(px, n):
            for ts in itertools.product(pt if n < 3 or ctx.thorough else pt[:2], repeat=n):
                if n >= 3 and not ctx.thorough and (ps != tuple(sorted(ps)) and ps != tuple(sorted(ps, reverse=True))):
                    continue
                tables.append([rows(p, t, [0.5, 0.25] if outputs else 0.5 + i / 4.0) for i, (p, t) in enumerate(zip(ps, ts))])
    bad = [[rows(px[0], pt[0], pt[1]), rows(px[1], pt[1], pt[1])] for _ in range(8)]
    if vector:
        bad[0][1]["x"] = [1.0]
        bad[1][0]["x"] = [INF, 0.0]
        bad[4][1]["x"] = []
    else:
        bad[0][1]["x"] = NAN
        bad[1][0]["x"] = -INF
    if outputs:
        bad[2][0]["to"] = [1.0]
        bad[3][0]["to"] = []
        bad[3][1]["to"] = []
        bad[5][1]["to"] = [1.0, NAN]
    else:
        bad[2][0]["to"] = INF
        bad[3][0]["to"] = NAN
    for b in bad:
        tables.append(b)
    weights = [None, {"double": 0.0}, {"double": 2.5}]
    cases = [(x, t, w) for t in tables for x in xs for w in weights]
    cases += [(xs[0], t, {"double": w}) for t in tables[:20] for w in (NAN, INF)]
    sweep(ctx, "model.reg.gaussianProcess", [fx, A(R), ["null", "double"], ("fcn", {"params": [{"x": A("double")}, {"y": A("double")}], "ret": "double", "do": [body]})], ft, ref, cases,
          judge=kriged, label="gaussianProcess/%s/%s/%s/%s" % (vector, outputs, sigma, kernel))


OPEN = "open"


def kriged(got, want, args):
    if want[0] == "ok" and isinstance(want[1], list) and OPEN in want[1]:
        return got[0] == "ok" and len(got[1]) == len(args[1][0]["to"]) and same(got[1][0], want[1][0], 1e-6) and all(num(v) for v in got[1])
    return agree(got, want, 1e-6)


REG = {"prefix": "model.reg.", "residual": 31020, "pull": 31030, "mahalanobis": 31040, "chi2Prob": 31070, "dof": "DOF"}


def tasks(tier):
    out = [("cluster", cluster, ()), ("updateMean", updateMean, ()), ("seeds", seeds, ()), ("naive", naive, ()), ("neighbor", neighbor, ()), ("svm", svm, ())]
    out += [("kmeansIteration/" + m, kmeansIteration, (m,)) for m in ("euclid", "taxi")]
    out += [("neural/" + n, neural, (n,)) for n in sorted(ACT)]
    for n in ("double",):
        out += [("linear/" + n, linear, (n,)), ("variance/" + n, variance, (n,))]
    for v, o, s, k in itertools.product((True, False), (True, False), (True, False), sorted(KERNELS)):
        out.append(("gauss/%s/%s/%s/%s" % (v, o, s, k), gauss, (v, o, s, k)))
    for fn in (C24.residuals, C24.chi2, C24.mahalanobis):
        out.append(("reg/" + fn.__name__, fn, (REG,)))
    return out
