"""C30: k-means steps, stopping conditions and documents against an independent model; transformations on tables against documents."""
import contextlib
import io
import itertools
import json
import math

import numpy

import titus.producer.kmeans as km
from titus.datatype import AvroArray, AvroDouble, AvroField, AvroMap, AvroRecord
from titus.genpy import PFAEngine
from titus.producer.transformation import Transformation

from mc.eng import *
from mc.eng import outcome

LEVEL = "exploration"
RULE = ("a case is one configuration (data set, centers, weights, metric, similarity, options, random draws) or one expression with its arguments; "
        "every document is run on every point of a grid; non-trivial: all")
ASSUMPTIONS = ["points that are equally near to two centers (1e-9) may go to either", "where the engine reports an error (division by zero of integers, overflow) the table may hold anything",
               "the random module is replaced by an enumerated script of draws"]
SIMS = [("absDiff", lambda: km.AbsDiff(), lambda a, b: abs(a - b)),
        ("gaussian1", lambda: km.GaussianSimilarity(1.0), lambda a, b: math.exp(-math.log(2) * (a - b) ** 2)),
        ("gaussian3", lambda: km.GaussianSimilarity(3.0), lambda a, b: math.exp(-math.log(2) * (a - b) ** 2 / 9.0))]
METRICS = [("euclidean", lambda s: km.Euclidean(s), lambda d: math.sqrt(sum(x * x for x in d))), ("squaredEuclidean", lambda s: km.SquaredEuclidean(s), lambda d: sum(x * x for x in d)),
           ("chebyshev", lambda s: km.Chebyshev(s), max), ("taxicab", lambda s: km.Taxicab(s), sum),
           ("minkowski3", lambda s: km.Minkowski(s, 3.0), lambda d: sum(x ** 3 for x in d) ** (1 / 3.0)), ("minkowski1", lambda s: km.Minkowski(s, 1.0), sum), ("minkowski0.5", lambda s: km.Minkowski(s, 0.5), lambda d: sum(x ** 0.5 for x in d) ** 2)]


class Draws(object):
    """The random module of the producer: the given draws first, then round and round."""

    def __init__(self, script):
        self.script, self.i = script, 0

    def take(self):
        self.i += 1
        return self.script[self.i - 1] if self.i <= len(self.script) else self.i

    def randint(self, a, b):
        return a + self.take() % (b - a + 1)

    def sample(self, xs, n):
        k = self.take()
        xs = list(xs)
        return [xs[(k + i) % len(xs)] for i in range(n)]


@contextlib.contextmanager
def draws(script):
    old = km.random
    km.random = Draws(script)
    try:
        yield
    finally:
        km.random = old


def A(rows):
    return numpy.array(rows, dtype=float)


def made(rows, centers, metric=None, weights=None, **kw):
    """A clustering with the given centers."""
    with draws(()):
        k = km.KMeans(len(centers), A(rows), None if weights is None else numpy.array(weights, dtype=float), *([] if metric is None else [metric]), **kw)
    k.clusters = [A(c) for c in centers]
    return k


def distances(mf, sf, x, centers):
    return [mf([sf(a, b) for a, b in zip(x, c)]) for c in centers]


def nearest(ds):
    m = min(ds)
    return [i for i, d in enumerate(ds) if d <= m + 1e-9]


def grid(dim, thorough):
    axis = (-1.0, 0.0, 0.6, 1.0, 2.5, 4.0) if dim < 3 else (-1.0, 0.5, 3.0)
    return [list(x) for x in itertools.product(axis, repeat=dim)]


def configs(dim, thorough):
    axis = {1: (0.0, 1.0, 2.0, 5.0), 2: (0.0, 1.0, 3.0), 3: (0.0, 2.0)}[dim]
    points = [list(p) for p in itertools.product(axis, repeat=dim)]
    for k in (1, 2, 3):
        cs = list(itertools.permutations(points, k)) if dim == 1 or k == 1 else list(itertools.combinations(points[::-1], k))
        yield from cs[::(1 if thorough else max(1, len(cs) // 8))]


def documents(ctx, mi, si):
    (mname, mk, mf), (sname, sk, sf) = METRICS[mi], SIMS[si]
    for dim in (1, 2, 3):
        rows = grid(dim, ctx.thorough)
        for ci, centers in enumerate(configs(dim, ctx.thorough)):
            for opts in ({}, {"sort": False}, {"populations": True}, {"idType": "int"}, {"preprocess": {"a.map": ["input", {"params": [{"z": "double"}], "ret": "double", "do": {"*": ["z", 0.5]}}]}}, {"dataComponentType": "int"}):
                case = ("document", mname, sname, dim, centers, sorted(opts))
                if opts and not ctx.thorough and ci % 4 != mi % 4 or not ctx.want(case):
                    continue
                ctx.nontrivial += 1
                label = "k-means document with %s over %s, centers %s, %s" % (mname, sname, show(centers), opts)
                k = made(rows, centers, mk(sk()))
                assigned = [int(i) for i in k.closestCluster()]
                if opts == {}:
                    for x, i in zip(rows, assigned):
                        ctx.states += 1
                        if i not in nearest(distances(mf, sf, x, centers)):
                            ctx.fail(case + (x,), "%s with %s: %s is assigned to center %d of %s with distances %s" % (mname, sname, x, i, show(centers), distances(mf, sf, x, centers)))
                order = sorted(range(len(centers)), key=lambda i: centers[i]) if opts.get("sort", True) else list(range(len(centers)))
                ids = list(range(10, 10 + len(centers))) if opts.get("idType") == "int" else ["c%d" % i for i in range(len(centers))]
                try:
                    doc = k.pfaDocument("Cluster", ids, **opts)
                    engine = PFAEngine.fromJson(doc)[0]
                except Exception as err:
                    ctx.fail(case, "%s is not accepted: %s %s" % (label, type(err).__name__, " ".join(str(err).split())[:200]))
                    continue
                if opts.get("populations"):
                    init = doc["cells"]["clusters"]["init"]
                    for place, i in enumerate(order):
                        if init[place].get("population") != assigned.count(i):
                            ctx.fail(case, "%s: cluster %s has %s, must have population %d" % (label, show(centers[i]), show(init[place]), assigned.count(i)))
                for x in rows if opts.get("dataComponentType") != "int" else [[int(c) for c in r] for r in rows]:
                    y = [c * 0.5 for c in x] if "preprocess" in opts else x
                    good = [ids[order.index(i)] for i in nearest(distances(mf, sf, y, centers))]
                    got = outcome(engine.action, x)
                    ctx.states += 1
                    ctx.transitions += 1
                    ctx.outcome((mname, repr(got)))
                    if got[0] != "ok" or got[1] not in good:
                        ctx.fail(case + (x,), "%s says %s for %s, the nearest is %s (distances %s)" % (label, show(got), x, good, distances(mf, sf, y, centers)))
                        break
    ctx.sample("%s over %s" % (mname, sname), 1)


DATA = [[[0.0], [1.0], [2.0], [5.0]], [[0.0], [0.0], [1.0], [4.0], [7.0]], [[0.0, 0.0], [1.0, 0.0], [0.0, 3.0], [4.0, 4.0]], [[0.0, 1.0, 2.0], [1.0, 1.0, 1.0], [3.0, 3.0, 3.0]]]


def weighings(n, thorough):
    yield None
    yield from itertools.product((0.0, 1.0, 2.5), repeat=n) if thorough else itertools.product((0.0, 2.0), repeat=n)


def mean(rows, ws):
    t = sum(ws)
    return [sum(w * r[j] for r, w in zip(rows, ws)) / t for j in range(len(rows[0]))]


def steps(ctx, di):
    rows = DATA[di]
    points = sorted(set(map(tuple, rows)))
    extra = [tuple(c + 0.25 for c in points[0]), tuple(100.0 for c in points[0])]
    for n in (1, 2, 3):
        if n >= len(points):
            continue
        for centers in itertools.permutations(points + extra, n):
            for ws in weighings(len(rows), ctx.thorough):
                for least in (None, 1, 2) if ws is None or ctx.thorough else (None,):
                    for script in ((0,), (1,), (2,), (3,)) if ctx.thorough else ((0,), (2,)):
                        case = ("step", di, centers, ws, least, script)
                        if not ctx.want(case):
                            continue
                        ctx.nontrivial += 1
                        k = made(rows, centers, None, ws, minPointsInCluster=least)
                        seen = []
                        assigned = [int(i) for i in k.closestCluster()]
                        weights = [1.0] * len(rows) if ws is None else list(ws)
                        with draws(script):
                            try:
                                more = k.iterate(k.dataset, k.weights, 7, lambda i, corr, vals, size: (seen.append((i, corr, vals, size)), "answer")[1])
                            except Exception as err:
                                ctx.fail(case, "k-means step fails with %s: %s" % (type(err).__name__, err))
                                continue
                        label = "k-means step of %s with weights %s, at least %s from %s" % (show(rows), ws, least, show(centers))
                        if more != "answer" or len(seen) != 1 or seen[0][0] != 7 or seen[0][3] != len(rows):
                            ctx.fail(case, "%s: condition called with %s, result %s" % (label, show(seen), more))
                            continue
                        ctx.states += 1
                        ctx.transitions += n
                        for i, c in enumerate(centers):
                            mine = [(r, w) for r, w, a in zip(rows, weights, assigned) if a == i]
                            jump = least is not None and len(mine) < least or sum(w for r, w in mine) == 0.0
                            new, corr, val = list(map(float, k.clusters[i])), seen[0][1][i], seen[0][2][i]
                            ctx.outcome((di, tuple(new)))
                            if jump:
                                if corr is not None or val is not None or tuple(new) not in points:
                                    ctx.fail(case + (i,), "%s: center %s has no points and becomes %s (changes %s)" % (label, c, new, corr))
                            else:
                                want = mean(*zip(*mine))
                                if corr is None or not all(abs(a - b) < 1e-9 for a, b in zip(new, want)) or not all(abs(float(a) - (b - o)) < 1e-9 for a, b, o in zip(corr, want, c)) or not all(abs(float(a) - b) < 1e-9 for a, b in zip(val, want)):
                                    ctx.fail(case + (i,), "%s: center %s becomes %s (change %s, value %s), the mean of its points is %s" % (label, c, new, corr, val, want))


def whole(ctx, di):
    """Optimization from every choice of starting points."""
    rows = DATA[di]
    points = sorted(set(map(tuple, rows)))
    for n in (1, 2, 3):
        if n >= len(points):
            continue
        for script in itertools.product(range(len(points)), repeat=n):
            for ws in [None, [1.0] * len(rows), [1.0 + i for i in range(len(rows))]]:
                for kind in ("optimize", "stepup", "subset"):
                    case = ("whole", di, n, script, ws, kind)
                    if not ctx.want(case):
                        continue
                    ctx.nontrivial += 1
                    label = "k-means %s of %s into %d with weights %s, draws %s" % (kind, show(rows), n, ws, script)
                    calls = []
                    try:
                        with draws(script):
                            k = km.KMeans(n, A(rows), None if ws is None else numpy.array(ws), maxPointsForClustering=len(rows) - 1 if kind == "subset" else None)
                            if len(set(tuple(map(float, c)) for c in k.clusters)) != n or not all(tuple(map(float, c)) in points for c in k.clusters):
                                ctx.fail(case, "%s: starts from %s, must be different points" % (label, show(k.clusters)))
                            cond = km.whileall(km.moving(), km.maxIterations(60), lambda *a: calls.append(a[0]) or True)
                            (k.stepup if kind == "stepup" else k.optimize)(cond)
                    except Exception as err:
                        if kind == "subset" and len(rows) - 1 <= n:
                            continue
                        ctx.fail(case, "%s fails with %s: %s" % (label, type(err).__name__, err))
                        continue
                    ctx.states += 1
                    ctx.transitions += len(calls) + 1
                    if not (k.dataset == A(rows)).all() or ws is not None and list(k.weights) != ws:
                        ctx.fail(case, "%s changes its data set" % label)
                    if kind == "optimize" and len(calls) < 60:
                        assigned = [int(i) for i in k.closestCluster()]
                        for i in range(n):
                            mine = [(r, w) for r, w, a in zip(rows, ws or [1.0] * len(rows), assigned) if a == i]
                            ctx.outcome((di, tuple(map(float, k.clusters[i]))))
                            if not mine or not all(abs(float(a) - b) < 1e-9 for a, b in zip(k.clusters[i], mean(*zip(*mine)))):
                                ctx.fail(case, "%s: stops at %s, which is not the mean of its points %s" % (label, show(list(map(float, k.clusters[i]))), show(mine)))
                                break
                    got = k.centers()
                    if got != sorted(got) or sorted(list(map(float, c)) for c in k.clusters) != got or [list(c) for c in k.clusters] != k.centers(sort=False):
                        ctx.fail(case, "%s: centers %s of %s" % (label, show(got), show(k.clusters)))


def conditions(ctx):
    """Every stopping condition on every small history."""
    changes = [None, [0.0, 0.0], [1e-16, 0.0], [0.5, 0.0], [0.0, -2.0]]
    small = lambda c, t: all(abs(x) < t for x in c)
    tests = []
    for corr in itertools.chain(*[itertools.product(changes, repeat=n) for n in (1, 2, 3)]):
        have = [c for c in corr if c is not None]
        tests.append(("clusterJumped", km.clusterJumped(), corr, len(have) < len(corr)))
        for t in (1e-15, 1.0):
            tests.append(("allChange %g" % t, km.allChange(t), corr, not all(small(c, t) for c in have)))
            if have:
                tests.append(("halfChange %g" % t, km.halfChange(t), corr, sum(small(c, t) for c in have) * 2 < len(have)))
        tests.append(("moving", km.moving(), corr, len(have) < len(corr) or not all(small(c, 1e-15) for c in have)))
    for name, cond, corr, want in tests:
        case = ("condition", name, corr)
        if ctx.want(case):
            ctx.nontrivial += 1
            arrays = [None if c is None else A(c) for c in corr]
            got = bool(cond(3, arrays, arrays, 9))
            ctx.outcome((name, got))
            if got != want:
                ctx.fail(case, "condition %s with changes %s says %s, must say %s (continue)" % (name, show(corr), got, want))
    for number, i in itertools.product((0, 1, 5), (0, 1, 4, 5, 6)):
        if ctx.want(("condition", "max", number, i)) and bool(km.maxIterations(number)(i, [], [], 9)) != (i < number):
            ctx.fail(("condition", "max", number, i), "maxIterations(%d) after iteration %d" % (number, i))
    for n in (0, 1, 2, 3):
        for vals in itertools.product((False, True), repeat=n):
            fs = [lambda *a, v=v: v for v in vals]
            if ctx.want(("condition", "combine", vals)) and (bool(km.whileall(*fs)(0, [], [], 0)) != all(vals) or bool(km.whileany(*fs)(0, [], [], 0)) != any(vals)):
                ctx.fail(("condition", "combine", vals), "whileall/whileany of %s" % (vals,))
    for f in (km.printValue, km.printChange):
        for fmt in ("g", "8.3f"):
            case = ("condition", f.__name__, fmt)
            if ctx.want(case):
                with contextlib.redirect_stdout(io.StringIO()) as text:
                    c = f(fmt)
                    try:
                        got = [c(i, [None if x is None else A(x) for x in corr], [None if x is None else A(x) for x in corr], 4) for i, corr in enumerate([[None, None], [None, [1.0, 2.0]], [[3.0, 4.0], [5.0, 6.0]]])]
                    except Exception as err:
                        got = "%s: %s" % (type(err).__name__, err)
                if got != [True, True, True]:
                    ctx.fail(case, "%s with format %s: %s" % (f.__name__, fmt, got))


X = [0.0, 1.0, -1.0, 0.5, -0.5, 2.5, -2.5, 3.5, 1.5, 7.0, -7.0, 1e10, -1e-10, 0.1, 709.0]
INTS = [0, 1, -1, 2, 3, -3, 7, -7, 100]
UNARY = ["-x", "!(x > 0)", "m.abs(x)", "m.acos(x)", "m.asin(x)", "m.atan(x)", "m.ceil(x)", "m.cos(x)", "m.cosh(x)", "m.exp(x)", "m.expm1(x)", "m.floor(x)", "m.ln(x)", "m.log10(x)", "m.round(x)", "m.rint(x)", "m.sin(x)", "m.sinh(x)", "m.sqrt(x)",
         "m.tan(x)", "m.tanh(x)", "m.pi() * x", "m.e() + x", "x + 1", "2 * x", "1/2 + x", "x ** 2", "x ** 0.5", "(x - 3.0) / 2.0", "m.abs(m.sin(x)) * m.sqrt(m.abs(x)) - x / 3"]
BINARY = ["x + y", "x - y", "x * y", "x / y", "x ** y", "x % y", "x %% y", "x == y", "x != y", "x > y", "x >= y", "x < y", "x <= y", "x > 0 && y > 0", "x > 0 || y > 0", "x > 0 ^^ y > 0", "m.atan2(x, y)", "m.copysign(x, y)", "m.hypot(x, y)",
          "(x + y) * (x - y)", "x - y - 1", "x / y / 2", "-x ** 2", "x + y * 2 > 3 && !(x == y)"]
BOOL = ("==", "!=", ">", "<", "!")


def agree2(a, b):
    a, b = (int(a), int(b)) if isinstance(a, (bool, numpy.bool_)) or isinstance(b, (bool, numpy.bool_)) else (float(a), float(b))
    return a == b or a != a and b != b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def transforms(ctx, exprs, two):
    for expr in exprs:
        for kind in ("double", "int"):
            case = ("transform", expr, kind)
            if not ctx.want(case):
                continue
            values = X if kind == "double" else INTS
            pairs = list(itertools.product(values, values)) if two else [(v, 0) for v in values]
            out = "boolean" if any(b in expr for b in BOOL) else "double"
            ctx.nontrivial += 1
            dtype = float if kind == "double" else numpy.int32
            try:
                t = Transformation(expr)
                cols = {"x": numpy.array([p[0] for p in pairs], dtype=dtype), "y": numpy.array([p[1] for p in pairs], dtype=dtype)}
                before = {k: list(v) for k, v in cols.items()}
                with numpy.errstate(all="ignore"):
                    d = t.transform(cols)["_0"]
                    names = list(t.fields)
                    table = t.transform(numpy.vstack([cols[n] for n in names]).T)[:, 0]
                    table2 = t.transform(numpy.vstack([cols["y"], cols["x"]]).T, ["y", "x"])[:, 0]
                    rec = t.transform(numpy.core.records.fromarrays([cols["x"], cols["y"]], names=["x", "y"]))["_0"]
                if {k: list(v) for k, v in cols.items()} != before:
                    ctx.fail(case, "transforming by %s changes the data set" % expr)
                if t.fields != [f for f in ("x", "y") if any(f == w for w in expr.replace("(", " ").replace(")", " ").replace(",", " ").replace("-", " ").split())]:
                    ctx.fail(case, "%s is said to need the fields %s" % (expr, t.fields))
                doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "x", "type": kind}, {"name": "y", "type": kind}]}, "output": out, "action": [t.expr(x="input.x", y="input.y")]}
                engine = PFAEngine.fromJson(doc)[0]
            except Exception as err:
                if kind == "int" and "integers to negative integer powers" in str(err).lower():
                    continue
                ctx.fail(case, "transformation %s over %s: %s %s" % (expr, kind, type(err).__name__, " ".join(str(err).split())[:300]))
                continue
            for i, (x, y) in enumerate(pairs):
                got = outcome(engine.action, {"x": x, "y": y})
                ctx.states += 1
                ctx.transitions += 1
                if got[0] == "err":
                    continue
                ctx.outcome((expr, repr(got)))
                tabs = [v[i] for v in (d, table, table2, rec)]
                if got[0] != "ok" or not all(agree2(v, got[1]) for v in tabs):
                    ctx.fail(case + (x, y), "%s with x = %r, y = %r is %s in a document, %s in tables" % (expr, x, y, show(got), tabs), "transform:%s:%s" % (expr, kind))
                    break


def shapes(ctx):
    """Several expressions at once, in all output forms and all ways of substitution."""
    exprs = {"a": "x + y", "b": "x * 2 - y", "c": "y"}
    names = ["a", "b", "c"]
    for chosen in itertools.chain(*[itertools.combinations(names, n) for n in (1, 2, 3)]):
        for indexed in (False, True):
            t = Transformation(*[exprs[n] for n in chosen]) if indexed else Transformation(**{n: exprs[n] for n in chosen})
            keys = ["_%d" % i for i in range(len(chosen))] if indexed else list(chosen)
            data = [(1.0, 2.0), (0.0, -3.0), (0.5, 0.25)]
            value = {"a": lambda x, y: x + y, "b": lambda x, y: x * 2 - y, "c": lambda x, y: y}
            want = [[value[n](x, y) for n in chosen] for x, y in data]
            table = A(data)
            case = ("shapes", chosen, indexed)
            if ctx.want(case):
                ctx.nontrivial += 1
                if [list(map(float, r)) for r in t.transform(table, ["x", "y"])] != want:
                    ctx.fail(case, "transform of a table gives %s, must give %s" % (show(t.transform(table, ["x", "y"])), want))
                d = t.transform({"x": table[:, 0], "y": table[:, 1]})
                if sorted(d) != sorted(keys) or [[float(d[k][i]) for k in keys] for i in range(3)] != want:
                    ctx.fail(case, "transform of a dict gives %s, must give %s" % (show(d), want))
                r = t.transform(numpy.core.records.fromarrays([table[:, 1], table[:, 0]], names=["y", "x"]))
                if list(r.dtype.names) != keys or [[float(r[k][i]) for k in keys] for i in range(3)] != want:
                    ctx.fail(case, "transform of a recarray gives %s, must give %s" % (show(r), want))
                for missing in ("x", "y"):
                    if missing in t.fields:
                        try:
                            t.transform({"xy".replace(missing, ""): table[:, 0], "z": table[:, 1]})
                            ctx.fail(case, "transform without field %s is accepted" % missing)
                        except TypeError:
                            pass
            rtype = {"type": "record", "name": "Out", "namespace": "com.x", "fields": [{"name": k, "type": "double"} for k in keys]}
            built = AvroRecord([AvroField(k, AvroDouble()) for k in keys], "Out", "com.x")
            subs = [{"x": "input.x", "y": "input.y"}, {"subs": {"x": {"attr": "input", "path": [{"string": "x"}]}, "y": "input.y"}}]
            forms = [("array", {"type": "array", "items": "double"}, ({"type": "array", "items": "double"}, AvroArray(AvroDouble()))), ("map", {"type": "map", "values": "double"}, ({"type": "map", "values": "double"}, AvroMap(AvroDouble()))),
                     ("record", rtype, ("com.x.Out", built))]
            for (form, out, types), sub in itertools.product(forms, subs):
                for ti, typ in enumerate(types):
                    case = ("shapes", chosen, indexed, form, ti, sorted(sub))
                    if not ctx.want(case):
                        continue
                    ctx.nontrivial += 1
                    try:
                        e = PFAEngine.fromJson({"input": {"type": "record", "name": "In", "fields": [{"name": "x", "type": "double"}, {"name": "y", "type": "double"}]}, "output": out, "action": [t.new(typ, **sub)]})[0]
                    except Exception as err:
                        ctx.fail(case, "Transformation.new to %s (%s) of %s: %s %s" % (form, show(typ), chosen, type(err).__name__, " ".join(str(err).split())[:200]))
                        continue
                    for (x, y), w in zip(data, want):
                        got = outcome(e.action, {"x": x, "y": y})
                        ctx.states += 1
                        if got != ("ok", w if form == "array" else dict(zip(keys, w))):
                            ctx.fail(case + (x, y), "Transformation.new to %s gives %s, must give %s" % (form, show(got), w))
            case = ("shapes", chosen, indexed, "let")
            if ctx.want(case):
                ctx.nontrivial += 1
                e = PFAEngine.fromJson({"input": {"type": "record", "name": "In", "fields": [{"name": "x", "type": "double"}, {"name": "y", "type": "double"}]}, "output": {"type": "array", "items": "double"},
                                        "action": [t.let(x="input.x", y="input.y"), {"new": keys, "type": {"type": "array", "items": "double"}}]})[0]
                for (x, y), w in zip(data, want):
                    got = outcome(e.action, {"x": x, "y": y})
                    if got != ("ok", w):
                        ctx.fail(case + (x, y), "Transformation.let gives %s, must give %s" % (show(got), w))
                for k, n in zip(keys, chosen):
                    e = PFAEngine.fromJson({"input": {"type": "array", "items": "double"}, "output": "double", "action": [t.expr(k, {"x": "input[0]", "y": "input[1]"})]})[0]
                    for (x, y) in data:
                        got = outcome(e.action, [x, y])
                        if got != ("ok", value[n](x, y)):
                            ctx.fail(case + (k, x, y), "Transformation.expr gives %s, must give %s" % (show(got), value[n](x, y)))


def tasks(tier):
    out = [("documents %s %s" % (METRICS[m][0], SIMS[s][0]), documents, (m, s)) for m in range(len(METRICS)) for s in range(len(SIMS))]
    out += [("steps %d" % d, steps, (d,)) for d in range(len(DATA))] + [("whole %d" % d, whole, (d,)) for d in range(len(DATA))]
    out += [("conditions", conditions, ()), ("shapes", shapes, ())]
    return out + [("unary %d" % i, transforms, (UNARY[i::4], False)) for i in range(4)] + [("binary %d" % i, transforms, (BINARY[i::4], True)) for i in range(4)]
