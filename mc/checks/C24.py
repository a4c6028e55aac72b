"""C24: incremental statistics, all short histories, against exact batch statistics of the same data."""
import itertools
import math
from fractions import Fraction as Q

from mc.eng import *

LEVEL = "exploration"
RULE = ("a case is one call of an updating function on the real engine: every history of weighted data up to the stated depth is fed one datum at a time, "
        "the state of each call being the result of the one before, and after every step the state is compared with the batch statistic of the whole "
        "history in exact rational arithmetic; plus all combinations of boundary arguments of the functions without history; non-trivial: all")
ASSUMPTIONS = ["floating point results are compared with a relative tolerance of 1e-9",
               "histories of total weight zero, negative weights and parameters that are not numbers are left open",
               "a datum within one part in 10^12 of the edge between two bins may count in either"]

INF, NAN = float("inf"), float("nan")


def A(t):
    return {"type": "array", "items": t}


def M(t):
    return {"type": "map", "values": t}


def rec(name, *fields):
    return {"type": "record", "name": name, "fields": [{"name": n, "type": t} for n, t in fields]}


def fl(x):
    if isinstance(x, Q):
        return float(x)
    if isinstance(x, dict):
        return dict((k, fl(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [fl(v) for v in x]
    return x


def walk(ctx, label, call, start, letters, depth, want, tol=1e-9, args=None):
    """All histories over the letters; call(letter args..., state); want(history) is the state, SKIP, or an Err is raised."""
    args = args or (lambda letter, state: tuple(letter) + (state,))

    def go(history, state):
        for letter in letters:
            h = history + (letter,)
            case = (label, h)
            w = ctx.want(case)
            a = args(letter, state)
            before = repr(a)
            got = call(*a)
            should = expect(want, h)
            if should[0] == "ok":
                should = ("ok", fl(should[1])) if should[1] is not SKIP else None
            if w and should is not None:
                ctx.nontrivial += 1
                ctx.outcome((label, should[0], repr(should[1])))
                ctx.sample("{0} after {1} -> {2}".format(label, show(h, 120), show(should, 120)), 1)
                if not agree(got, should, tol):
                    ctx.fail(case, "{0} after the history {1} gives {2}, must give {3}".format(label, show(h), show(got), show(should)))
                    if ctx.full():
                        return
                if repr(a) != before:
                    ctx.fail(case, "{0} changed its arguments {1} to {2}".format(label, before[:200], show(a, 200)))
            if got[0] == "ok" and should is not None and len(h) < depth:
                go(h, got[1])
                if ctx.full():
                    return
    go((), start)


# ------------------------------------------------------------------ means and variances

def moments(pairs):
    n = sum(Q(w) for _, w in pairs)
    if n == 0:
        return SKIP
    m = sum(Q(x) * Q(w) for x, w in pairs) / n
    return n, m, sum(Q(w) * (Q(x) - m) ** 2 for x, w in pairs) / n


def datum(ctx):
    xs = [-1.0, 2.0, 0.1, 1000.0] if ctx.thorough else [-1.0, 2.0, 0.1]
    ws = [0.0, 1.0, 2.5]
    return [(x, w) for x in xs for w in ws]


def update(ctx, level, extra, weight):
    fields = [("count", "double")] + [("mean", "double"), ("variance", "double")][:level]
    if extra:
        fields = [("note", "string")] + fields[::-1]
    S = rec("S", *fields)
    c0, m0, v0 = weight
    start = {"count": c0, "mean": m0, "variance": v0}
    start = dict((n, start.get(n, "keep")) for n, _ in fields)

    def want(h):
        # the initial state stands for a mass c0 around m0 with spread v0
        s = math.sqrt(v0)
        first = [(m0 - s, c0 / 2), (m0 + s, c0 / 2)]
        for k in range(1, len(h) + 1):
            r = moments(first + list(h[:k]))
            if r is SKIP:
                return SKIP
        out = {"count": r[0], "mean": r[1], "variance": r[2]}
        return dict((n, out.get(n, "keep")) for n, _ in fields)
    walk(ctx, "stat.sample.update/%s%s" % (fields, weight), Call("stat.sample.update", ["double", "double", S], "S"), start, datum(ctx),
         4 if ctx.thorough else 3, want)


def window(ctx, level, size):
    fields = [("x", "double"), ("w", "double"), ("count", "double")] + [("mean", "double"), ("variance", "double")][:level]
    S = rec("S", *(fields if size % 2 else fields[::-1]))

    def want(h):
        out = []
        for k in range(1, len(h) + 1):
            part = h[max(0, k - size):k]
            r = moments(part)
            # the running correction passes through the weight of everything that is or was in the window
            if r is SKIP:
                return SKIP
            out.append({"x": h[k - 1][0], "w": h[k - 1][1], "count": r[0], "mean": r[1], "variance": r[2]})
        return [dict((n, o[n]) for n, _ in fields) for o in out[-size:]]
    letters = [(x, w) for x in (-1.0, 2.0, 0.1) for w in (0.5, 1.0, 0.0)][:8]
    walk(ctx, "stat.sample.updateWindow/%d,%d" % (level, size), Call("stat.sample.updateWindow", ["double", "double", A(S), "int"], A("S")), [], letters,
         5 if ctx.thorough else 4, want, args=lambda l, s: l + (s, size))


def windowShrinks(ctx, level):
    """The window size may differ from call to call: all sequences of sizes."""
    fields = [("x", "double"), ("w", "double"), ("count", "double")] + [("mean", "double"), ("variance", "double")][:level]
    S = rec("S", *fields)

    def want(h):
        kept = []
        for x, w, size in h:
            if size < 2:
                raise Err(14020)
            kept = (kept + [(x, w)])[-size:]
            r = moments(kept)
            if r is SKIP:
                return SKIP
            last = {"x": x, "w": w, "count": r[0], "mean": r[1], "variance": r[2]}
        hist = []
        k2 = []
        for x, w, size in h:
            k2 = (k2 + [(x, w)])[-size:]
            r = moments(k2)
            hist = (hist + [{"x": x, "w": w, "count": r[0], "mean": r[1], "variance": r[2]}])[-size:]
        return [dict((n, o[n]) for n, _ in fields) for o in hist]
    letters = [(x, w, s) for (x, w) in ((-1.0, 1.0), (2.0, 0.5), (0.1, 2.0)) for s in (2, 3, 4)] + [(1.0, 1.0, 1), (1.0, 1.0, -1)]
    walk(ctx, "stat.sample.updateWindow/sizes,%d" % level, Call("stat.sample.updateWindow", ["double", "double", A(S), "int"], A("S")), [], letters,
         4, want, args=lambda l, s: l[:2] + (s, l[2]))
    if level == 2:
        T = rec("S", *(fields + [("note", "string")]))
        call = Call("stat.sample.updateWindow", ["double", "double", A(T), "int"], A("S"))
        case = ("updateWindow", "unknown field")
        if ctx.want(case):
            ctx.nontrivial += 1
            got = call(1.0, 1.0, [], 3)
            if not agree(got, ("err", 14021)):
                ctx.fail(case, "updateWindow starting a record with an unknown field gives {0}, must be error 14021".format(show(got)))
            r0 = {"x": 1.0, "w": 1.0, "count": 1.0, "mean": 1.0, "variance": 0.0, "note": "keep"}
            got = call(3.0, 1.0, [r0], 3)
            if not agree(got, ("ok", [r0, {"x": 3.0, "w": 1.0, "count": 2.0, "mean": 2.0, "variance": 1.0, "note": "keep"}]), 1e-9):
                ctx.fail(case, "updateWindow with a further field gives {0}".format(show(got)))


def covariance(ctx, kind):
    ws = [1.0, 2.5] + ([0.0] if ctx.thorough else [])
    if kind == "array":
        S = rec("S", ("count", "double"), ("mean", A("double")), ("covariance", A(A("double"))), ("note", "string"))
        call = Call("stat.sample.updateCovariance", [A("double"), "double", S], "S")
        for size in (2, 3):
            vals = (-1.0, 2.0, 0.1) if size == 2 else (-1.0, 3.0)
            letters = [(list(x), w) for x in itertools.product(vals, repeat=size) for w in ws]

            def want(h):
                n = sum(Q(w) for _, w in h)
                if sum(Q(w) for _, w in h[:1]) == 0:
                    return SKIP
                mean = [sum(Q(x[i]) * Q(w) for x, w in h) / n for i in range(size)]
                return {"count": n, "mean": mean, "note": "keep",
                        "covariance": [[sum(Q(w) * (Q(x[i]) - mean[i]) * (Q(x[j]) - mean[j]) for x, w in h) / n for j in range(size)] for i in range(size)]}
            walk(ctx, "stat.sample.updateCovariance/%d" % size, call,
                 {"count": 0.0, "mean": [0.0] * size, "covariance": [[0.0] * size] * size, "note": "keep"}, letters, 3 if ctx.thorough or size == 2 else 2, want)

        def shapes(x, w, s):
            if len(x) < 2:
                raise Err(14011)
            if len(s["mean"]) != len(x) or len(s["covariance"]) != len(x) or any(len(r) != len(x) for r in s["covariance"]):
                raise Err(14012)
            return dict(s, count=1.0, mean=x, covariance=[[0.0] * len(x) for _ in x])
        sweep(ctx, "stat.sample.updateCovariance", [A("double"), "double", S], "S", shapes,
              (([1.0] * n, 1.0, {"count": 0.0, "mean": [0.0] * m, "covariance": [[0.0] * d for d in rows], "note": "k"})
               for n in range(4) for m in range(4) for r in range(4) for rows in itertools.product(range(4), repeat=r)), tol=1e-9)
    else:
        S = rec("S", ("count", M(M("double"))), ("mean", M("double")), ("covariance", M(M("double"))))
        call = Call("stat.sample.updateCovariance", [M("double"), "double", S], "S")
        keys = ("a", "b", "c")
        some = [dict((k, v) for k, v in zip(keys, t) if v is not None) for t in itertools.product((None, -1.0, 2.0), repeat=3)]
        letters = [(x, w) for x in some for w in ws[:2] if len(x) >= 2] + [({"a": 1.0}, 1.0), ({}, 1.0)]

        def want(h):
            if len(h[-1][0]) < 2:
                raise Err(14011)
            seen = sorted(set(k for x, _ in h for k in x))
            z = Q(0)
            count = dict((i, dict((j, z) for j in seen)) for i in seen)
            mean = dict((i, z) for i in seen)
            cov = dict((i, dict((j, z) for j in seen)) for i in seen)
            for i in seen:
                both = [(x[i], w) for x, w in h if i in x]
                mean[i] = moments(both)[1]
                for j in seen:
                    count[i][j] = sum((Q(w) for x, w in h if i in x and j in x), z)
            for i in seen:
                for j in seen:
                    pair = [(x[i], x[j], w) for x, w in h if i in x and j in x]
                    # plain batch covariance where both are always present together; the running one otherwise
                    mi, mj, ci, cj, c, n = z, z, z, z, z, z
                    for x, w in h:
                        w = Q(w)
                        if i in x and j in x:
                            n += w
                            c = (c * (n - w) + (Q(x[i]) - mi) * (Q(x[j]) - mj) * w * (n - w) / n) / n
                        if i in x:
                            ci += w
                            mi += (Q(x[i]) - mi) * w / ci
                        if j in x:
                            cj += w
                            mj += (Q(x[j]) - mj) * w / cj
                    if len(pair) == len([1 for x, w in h if i in x or j in x]) and pair:
                        n2 = sum(Q(w) for _, _, w in pair)
                        c2 = sum(Q(w) * (Q(p) - mean[i]) * (Q(q) - mean[j]) for p, q, w in pair) / n2
                        assert c == c2
                    cov[i][j] = c
            return {"count": count, "mean": mean, "covariance": cov}
        walk(ctx, "stat.sample.updateCovariance/map", call, {"count": {}, "mean": {}, "covariance": {}}, letters, 3 if ctx.thorough else 2, want)


# ------------------------------------------------------------------ exponentially weighted and seasonal

def ewma(ctx, level, alphas):
    fields = [("note", "string"), ("mean", "double")] + ([("variance", "double")] if level else [])
    S = rec("S", *fields)
    call = Call("stat.sample.updateEWMA", ["double", "double", S], "S")
    m0, v0 = 1.5, 0.25
    start = {"mean": m0, "variance": v0, "note": "keep"}
    start = dict((n, start[n]) for n, _ in fields)
    letters = [(x, a) for x in (-1.0, 2.0, 0.1) for a in alphas] + [(1.0, -0.001), (1.0, 1.001)]

    def want(h):
        if not 0 <= h[-1][1] <= 1:
            raise Err(14030)
        s = Q(1, 2)
        mix = [(Q(m0) - s, Q(1, 2)), (Q(m0) + s, Q(1, 2))]
        for x, a in h:
            a = Q(a)
            mix = [(y, p * (1 - a)) for y, p in mix] + [(Q(x), a)]
        m = sum(y * p for y, p in mix)
        out = {"mean": m, "variance": sum(p * (y - m) ** 2 for y, p in mix), "note": "keep"}
        return dict((n, out[n]) for n, _ in fields)
    walk(ctx, "stat.sample.updateEWMA/%d,%s" % (level, alphas), call, start, letters, 5 if ctx.thorough else 4, want)


def holt(ctx, kind):
    n = 4 if ctx.thorough else 3
    base = [("level", "double"), ("trend", "double")]
    S = rec("S", *(base + [("note", "string")]))
    P = rec("S", *(base + [("cycle", A("double")), ("multiplicative", "boolean")]))
    xs = (-1.0, 2.0, 0.75)
    if kind == "plain":
        letters = [(x, a, b) for x in xs for a in (0.0, 0.25, 1.0) for b in (0.0, 0.5, 1.0)] + \
                  [(1.0, a, b) for a in (-0.1, 0.5, 1.1) for b in (-0.1, 0.5, 1.1) if (a, b) != (0.5, 0.5)]

        def want(h):
            l, t = Q(3, 2), Q(-1, 4)
            for x, a, b in h:
                if not 0 <= a <= 1:
                    raise Err(14040)
                if not 0 <= b <= 1:
                    raise Err(14041)
                x, a, b = Q(x), Q(a), Q(b)
                l2 = a * x + (1 - a) * (l + t)
                t = b * (l2 - l) + (1 - b) * t
                l = l2
            return {"level": l, "trend": t, "note": "keep"}
        walk(ctx, "stat.sample.updateHoltWinters", Call("stat.sample.updateHoltWinters", ["double"] * 3 + [S], "S"),
             {"level": 1.5, "trend": -0.25, "note": "keep"}, letters, n, want)
    elif kind == "periodic":
        call = Call("stat.sample.updateHoltWintersPeriodic", ["double"] * 4 + [P], "S")
        some = [(x, a, b, g) for x in xs[:2] for a in (0.25, 1.0) for b in (0.0, 0.5) for g in (0.0, 0.5, 1.0)][:: 1 if ctx.thorough else 2]
        bad = [(1.0, a, b, g) for a in (-0.1, 0.5, 1.1) for b in (-0.1, 0.5, 1.1) for g in (-0.1, 0.5, 1.1) if (a, b, g) != (0.5, 0.5, 0.5)]
        for mult in (False, True):
            for cycle in ([], [1.0], [1.0, -0.5], [2.0, 1.5, -1.0]):
                def want(h):
                    L = len(cycle)
                    l, t = Q(3, 2), Q(-1, 4)
                    seasons = [Q(c) for c in cycle]      # season k belongs to the times k, k + L, ...
                    for time, (x, a, b, g) in enumerate(h, 1):
                        for v, code in ((a, 14050), (b, 14051), (g, 14052)):
                            if not 0 <= v <= 1:
                                raise Err(code)
                        if L == 0:
                            raise Err(14053)
                        x, a, b, g = Q(x), Q(a), Q(b), Q(g)
                        c = seasons[time % L]
                        if mult and c == 0:
                            return SKIP
                        l2 = (a * x / c if mult else a * (x - c)) + (1 - a) * (l + t)
                        t = b * (l2 - l) + (1 - b) * t
                        l = l2
                        if mult and abs(l) < Q(1, 1000):
                            return SKIP
                        seasons[time % L] = (g * x / l if mult else g * (x - l)) + (1 - g) * c
                    return {"level": l, "trend": t, "multiplicative": mult, "cycle": [seasons[(len(h) + k) % L] for k in range(L)]}
                walk(ctx, "stat.sample.updateHoltWintersPeriodic/%s%s" % (mult, cycle), call,
                     {"level": 1.5, "trend": -0.25, "cycle": cycle, "multiplicative": mult}, some + bad, n if len(cycle) > 1 else 2, want)
    else:
        states = [{"level": l, "trend": t, "note": "x"} for l in (0.0, -1.5, 1e300) for t in (0.0, 0.25, -3.0)]
        sweep(ctx, "stat.sample.forecast1HoltWinters", [S], "double", lambda s: s["level"] + s["trend"], ((s,) for s in states), tol=1e-12)
        sweep(ctx, "stat.sample.forecastHoltWinters", ["int", S], A("double"), lambda k, s: [s["level"] + i * s["trend"] for i in range(1, k + 1)],
              ((k, s) for k in (-2**31, -1, 0, 1, 2, 5) for s in states), tol=1e-12)

        def ahead(s, i, code):
            c = s["cycle"]
            if not c:
                raise Err(code)
            season = c[i - len(c) * (i // len(c))]
            v = Q(s["level"]) + i * Q(s["trend"])
            return float(v * Q(season)) if s["multiplicative"] else float(v + Q(season))
        states = [{"level": l, "trend": t, "cycle": c, "multiplicative": m} for l in (0.0, -1.5) for t in (0.0, 0.25, -3.0)
                  for c in ([], [2.0], [2.0, -1.0], [0.5, 3.0, 7.0]) for m in (False, True)]
        sweep(ctx, "stat.sample.forecast1HoltWinters", [P], "double", lambda s: ahead(s, 1, 14060), ((s,) for s in states), tol=1e-12)

        def many(k, s):
            if not s["cycle"]:
                raise Err(14070)
            return [ahead(s, i, 14070) for i in range(1, k + 1)]
        sweep(ctx, "stat.sample.forecastHoltWinters", ["int", P], A("double"), many, ((k, s) for k in (-2**31, -1, 0, 1, 2, 7) for s in states), tol=1e-12)


# ------------------------------------------------------------------ histograms

FLOWS = ("underflow", "overflow", "nanflow", "infflow")


def place(x, low, high, n):
    """The admissible bins of x, -1 below and n above."""
    if x == INF:
        return {n}
    if x == -INF:
        return {-1}
    p = (Q(x) - Q(low)) / (Q(high) - Q(low)) * n
    eps = Q(1, 10 ** 12) * max(1, abs(p))
    if x < low:
        return {-1}
    if x >= high:
        return {n}
    return set(min(max(math.floor(q), 0), n - 1) for q in (p - eps, p, p + eps))


def step(hist, w, flow, values, flows):
    out = dict(hist, values=values)
    for f in flows:
        out[f] = hist[f] + (w if f == flow else 0.0)
    return out


def histogram(ctx, method, flows):
    flows = tuple(flows)
    extra = [(f, "double") for f in flows]
    ws = (1.0, 2.5)
    edge = lambda low, high, n: sorted(set([low, high] + [low + (high - low) * i / n for i in range(n + 1)] +
                                            [math.ldexp(math.frexp(low + (high - low) * i / n)[0] - 2.0 ** -53, math.frexp(low + (high - low) * i / n)[1]) for i in range(n + 1)] +
                                            [low + (high - low) * (2 * i + 1) / (2.0 * n) for i in range(n)]))
    special = [NAN, INF, -INF, -1e308, 1e308, 5e-324, -0.0]

    def flowOf(x, under, over):
        if x != x:
            return "nanflow"
        if "infflow" in flows and x in (INF, -INF):
            return "infflow"
        return "underflow" if under else "overflow" if over else None

    def start(**kw):
        return dict(kw, **dict((f, 0.5) for f in flows))

    def run(S, hist, xs, bins):
        """bins(hist, x) -> list of admissible (values after adding 1 at...) index sets or raises."""
        call = Call("stat.sample.fillHistogram", ["double", "double", S], "S")
        for x in xs:
            for w in ws:
                case = ("stat.sample.fillHistogram", method, flows, x, w, hist)
                if not ctx.want(case):
                    continue
                ctx.nontrivial += 1
                got = call(x, w, hist)
                try:
                    wants = [("ok", v) for v in bins(hist, x, w)]
                except Err as err:
                    wants = [("err", err.code)]
                ctx.outcome((method, flows, repr(wants)))
                if not any(agree(got, y, 1e-9) for y in wants):
                    ctx.fail(case, "fillHistogram({0}, {1}, {2}) gives {3}, must give {4}".format(x, w, show(hist), show(got), show(wants[0])))
                    if ctx.full():
                        return
                elif got[0] == "ok":
                    # the mass is neither lost nor counted twice
                    again = call(x, w, got[1])
                    try:
                        wants = [("ok", v) for v in bins(got[1], x, w)]
                    except Err as err:
                        wants = [("err", err.code)]
                    if not any(agree(again, y, 1e-9) for y in wants):
                        ctx.fail(case, "fillHistogram({0}, {1}) on {2} gives {3}, must give {4}".format(x, w, show(got[1]), show(again), show(wants[0])))
    bump = lambda vs, i, w: [v + w if k == i else v for k, v in enumerate(vs)]
    if method == 0:
        S = rec("S", ("numbins", "int"), ("low", "double"), ("high", "double"), ("values", A("double")), *extra)

        def bins(h, x, w):
            n, low, high, vs = h["numbins"], h["low"], h["high"], h["values"]
            if n < 1:
                raise Err(14082)
            if len(vs) != n:
                raise Err(14080)
            if not (low < high and math.isfinite(low) and math.isfinite(high)):
                raise Err(14081)
            if x != x:
                return [step(h, w, "nanflow", vs, flows)]
            out = []
            for i in place(x, low, high, n):
                flow = flowOf(x, i == -1, i == n)
                out.append(step(h, w, flow, vs if flow else bump(vs, i, w), flows))
            return out
        for low, high in ((0.0, 1.0), (-1.0, 2.0), (0.1, 0.7), (-1e308, 1.5e308), (0.0, 5e-324), (1e16, 1e16 + 6), (0.0, 4.9)):
            for n in (1, 3, 7, 10, 49):
                run(S, start(numbins=n, low=low, high=high, values=[float(i) for i in range(n)]),
                    sorted(set(edge(low, high, n) + [low - 1.0, high + 1.0, low / 2, high / 2])) + special, bins)
        for n in (-2**31, -1, 0, 1, 2):
            for m in (0, 1, 2, 3):
                for low, high in ((0.0, 1.0), (1.0, 1.0), (2.0, 1.0), (NAN, 1.0), (0.0, NAN), (0.0, INF), (-INF, 1.0), (-INF, INF)):
                    run(S, start(numbins=n, low=low, high=high, values=[0.0] * m), [0.5, NAN, INF], bins)
    elif method == 1:
        S = rec("S", ("low", "double"), ("binsize", "double"), ("values", A("double")), *extra)

        def bins(h, x, w):
            low, size, vs = h["low"], h["binsize"], h["values"]
            if not (size > 0 and math.isfinite(size)):
                raise Err(14082)
            if not math.isfinite(low):
                raise Err(14081)
            flow = flowOf(x, x < low, x == INF)
            if flow:
                return [step(h, w, flow, vs, flows)]
            p = (Q(x) - Q(low)) / Q(size)
            eps = Q(1, 10 ** 12) * max(1, abs(p))
            return [step(h, w, None, bump(vs + [0.0] * max(0, i + 1 - len(vs)), i, w), flows)
                    for i in set(max(math.floor(q), 0) for q in (p - eps, p, p + eps))]
        for low, size in ((0.0, 1.0), (-1.0, 0.1), (0.1, 0.3), (1e16, 2.0), (0.0, 5e-324)):
            for n in (0, 1, 3, 10):
                run(S, start(low=low, binsize=size, values=[float(i) for i in range(n)]),
                    sorted(set(edge(low, low + size * max(n, 1), max(n, 1)) + [low - 1.0] + [low + k * size for k in (n + 1, n + 1.5, n + 4, n + 20)])) + [NAN, INF, -INF, -1e308], bins)
        for low in (0.0, NAN, INF, -INF):
            for size in (1.0, 0.0, -1.0, NAN, INF, -INF):
                run(S, start(low=low, binsize=size, values=[0.0]), [0.5, NAN, INF], bins)
    else:
        S = rec("S", ("ranges", A(A("double"))), ("values", A("double")), *extra)

        def bins(h, x, w):
            rs, vs = h["ranges"], h["values"]
            if len(rs) != len(vs):
                raise Err(14080)
            if any(len(r) != 2 or not r[0] < r[1] or not math.isfinite(r[0]) or not math.isfinite(r[1]) for r in rs):
                raise Err(14083)
            vs = [v + w if math.isfinite(x) and r[0] <= x < r[1] else v for v, r in zip(vs, rs)]
            return [step(h, w, flowOf(x, not math.isfinite(x) or not any(r[0] <= x < r[1] for r in rs), False), vs, flows)]
        some = [[0.0, 1.0], [1.0, 3.0], [0.5, 2.0], [-1e308, 1e308]]
        for k in range(4):
            for rs in itertools.product(some, repeat=k):
                run(S, start(ranges=list(rs), values=[float(i) for i in range(k)]),
                    [-1.0, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 2.999, 3.0, NAN, INF, -INF, 1e308], bins)
        for bad in ([], [1.0], [1.0, 2.0, 3.0], [1.0, 1.0], [2.0, 1.0], [NAN, 1.0], [1.0, NAN], [-INF, 1.0], [0.0, INF]):
            for others in ([], [[0.0, 1.0]]):
                run(S, start(ranges=others + [bad], values=[0.0] * (len(others) + 1)), [0.5, NAN], bins)
        for n in range(3):
            for m in range(3):
                run(S, start(ranges=[[0.0, 1.0]] * n, values=[0.0] * m), [0.5, NAN], bins)


def shapes(ctx):
    """Which combinations of fields a histogram may have, and their types."""
    types = {"numbins": "int", "low": "double", "high": "double", "binsize": "double", "ranges": A(A("double"))}
    names = sorted(types)
    for k in range(6):
        for some in itertools.combinations(names, k):
            for flow in ((), ("underflow",), FLOWS):
                case = ("fields", some, flow)
                if not ctx.want(case):
                    continue
                ctx.nontrivial += 1
                S = rec("S", *([(n, types[n]) for n in some] + [("values", A("double"))] + [(f, "double") for f in flow]))
                how = [set(m) <= set(some) for m in (("numbins", "low", "high"), ("low", "binsize"), ("ranges",))]
                got = tryMake(callDoc("stat.sample.fillHistogram", ["double", "double", S], "S"))
                ok = got[0] == "ok"
                ctx.outcome((some, ok))
                if ok != (sum(how) == 1):
                    ctx.fail(case, "a histogram with the fields {0} is {1}".format(some, "accepted" if ok else "refused: %s" % (got,)))
    for f in FLOWS:
        for t in ("int", "string", A("double"), "float"):
            case = ("flow type", f, t)
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            S = rec("S", ("low", "double"), ("binsize", "double"), ("values", A("double")), (f, t))
            got = tryMake(callDoc("stat.sample.fillHistogram", ["double", "double", S], "S"))
            if (got[0] == "ok"):
                ctx.fail(case, "a histogram whose {0} is of type {1} is accepted".format(f, t))
    for fname, base, bad in (("stat.sample.update", [("count", "double")], ["mean", "variance"]), ("stat.sample.updateEWMA", [("mean", "double")], ["variance"])):
        for k in range(len(bad) + 1):
            for some in itertools.combinations(bad, k):
                for t in ("double", "string", "int"):
                    case = (fname, some, t)
                    if not ctx.want(case):
                        continue
                    ctx.nontrivial += 1
                    S = rec("S", *(base + [(n, t) for n in some]))
                    got = tryMake(callDoc(fname, ["double", "double", S], "S"))
                    must = (t == "double" or not some) and not (len(bad) == 2 and some == ("variance",))
                    if (got[0] == "ok") != must:
                        ctx.fail(case, "{0} with the state {1} is {2}".format(fname, S, got[0]))
    for has in itertools.product((None, A("double"), "double"), (None, "boolean", "string")):
        for fname, types in (("stat.sample.forecast1HoltWinters", []), ("stat.sample.forecastHoltWinters", ["int"])):
            case = (fname, has)
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            S = rec("S", *([("level", "double"), ("trend", "double")] + [(n, t) for n, t in zip(("cycle", "multiplicative"), has) if t]))
            got = tryMake(callDoc(fname, types + [S], A("double") if types else "double"))
            if (got[0] == "ok") != (has in ((None, None), (A("double"), "boolean"))):
                ctx.fail(case, "{0} with the state {1} is {2}".format(fname, S, got[0]))


NINE = ("underunderflow", "undermidflow", "underoverflow", "midunderflow", "midoverflow", "overunderflow", "overmidflow", "overoverflow", "nanflow", "infflow")


def histogram2d(ctx, flows):
    S = rec("S", ("xnumbins", "int"), ("xlow", "double"), ("xhigh", "double"), ("ynumbins", "int"), ("ylow", "double"), ("yhigh", "double"),
            ("values", A(A("double"))), *[(f, "double") for f in flows])
    call = Call("stat.sample.fillHistogram2d", ["double", "double", "double", S], "S")

    def one(x, y, w, h):
        if h["xnumbins"] < 1 or h["ynumbins"] < 1:
            raise Err(14092)
        if len(h["values"]) != h["xnumbins"] or any(len(r) != h["ynumbins"] for r in h["values"]):
            raise Err(14090)
        for a in "xy":
            low, high = h[a + "low"], h[a + "high"]
            if not (low < high and math.isfinite(low) and math.isfinite(high)):
                raise Err(14091)
        if x != x or y != y:
            return [step(h, w, "nanflow", h["values"], flows)]
        if "infflow" in flows and (math.isinf(x) or math.isinf(y)):
            return [step(h, w, "infflow", h["values"], flows)]
        out = []
        nx, ny = h["xnumbins"], h["ynumbins"]
        for i in place(x, h["xlow"], h["xhigh"], nx):
            for j in place(y, h["ylow"], h["yhigh"], ny):
                side = ["under" if k == -1 else "over" if k == n else "mid" for k, n in ((i, nx), (j, ny))]
                if side == ["mid", "mid"]:
                    vs = [[v + w if (a, b) == (i, j) else v for b, v in enumerate(r)] for a, r in enumerate(h["values"])]
                    out.append(step(h, w, None, vs, flows))
                else:
                    out.append(step(h, w, side[0] + side[1] + "flow", h["values"], flows))
        return out

    def run(h, xs, ys):
        for x in xs:
            for y in ys:
                case = ("stat.sample.fillHistogram2d", tuple(flows), x, y, h)
                if not ctx.want(case):
                    continue
                ctx.nontrivial += 1
                got = call(x, y, 2.5, h)
                try:
                    wants = [("ok", v) for v in one(x, y, 2.5, h)]
                except Err as err:
                    wants = [("err", err.code)]
                ctx.outcome(repr(wants))
                if not any(agree(got, v, 1e-9) for v in wants):
                    ctx.fail(case, "fillHistogram2d({0}, {1}, 2.5, {2}) gives {3}, must give {4}".format(x, y, show(h), show(got), show(wants[0])))
                    if ctx.full():
                        return

    def start(nx, xl, xh, ny, yl, yh, values=None):
        return dict({"xnumbins": nx, "xlow": xl, "xhigh": xh, "ynumbins": ny, "ylow": yl, "yhigh": yh,
                     "values": values if values is not None else [[float(i * 10 + j) for j in range(ny)] for i in range(nx)]}, **dict((f, 0.5) for f in flows))
    odd = [NAN, INF, -INF]
    for xl, xh, nx in ((0.0, 1.0, 3), (-1.0, 2.0, 1), (0.1, 0.7, 7), (-1e308, 1.5e308, 3)):
        for yl, yh, ny in ((0.0, 1.0, 2), (10.0, 20.0, 10)):
            xs = [xl + (xh - xl) * i / nx if xh < 1e300 else [xl, 0.0, 1e308, 1e308][min(i, 3)] for i in range(nx + 1)] + [xl - 1.0, xh + 1.0, math.nextafter(xh, xl) if hasattr(math, "nextafter") else xh * (1 - 2.0 ** -53)]
            ys = [yl + (yh - yl) * i / ny for i in range(ny + 1)] + [yl - 1.0, yh + 1.0, yh * (1 - 2.0 ** -53)]
            run(start(nx, xl, xh, ny, yl, yh), xs + odd, ys + odd)
    for nx in (-1, 0, 1, 2):
        for ny in (-1, 0, 1, 2):
            for vs in ([], [[]], [[0.0]], [[0.0, 0.0]], [[0.0], [0.0]], [[0.0, 0.0], [0.0]], [[0.0, 0.0], [0.0, 0.0]]):
                for r in ((0.0, 1.0), (1.0, 1.0), (NAN, 1.0)):
                    run(start(nx, r[0], r[1], ny, 0.0, 1.0, vs), [0.5], [0.5, NAN])
                    run(start(nx, 0.0, 1.0, ny, r[0], r[1], vs), [0.5], [0.5])
    for bad in (INF, -INF, NAN):
        for k in range(4):
            e = [0.0, 1.0, 0.0, 1.0]
            e[k] = bad
            run(start(1, e[0], e[1], 1, e[2], e[3]), [0.5], [0.5])


# ------------------------------------------------------------------ counters and lists

def counters(ctx):
    S = rec("S", ("values", M("double")), ("note", "string"))
    letters = [(x, w) for x in ("a", "b", "") for w in (1.0, 2.5, 0.0)]

    def want(h):
        out = {}
        for x, w in h:
            out[x] = out.get(x, Q(0)) + Q(w)
        return {"values": out, "note": "keep"}
    walk(ctx, "stat.sample.fillCounter", Call("stat.sample.fillCounter", ["string", "double", S], "S"), {"values": {}, "note": "keep"}, letters,
         5 if ctx.thorough else 4, want)

    lt = lambda body: ("fcn", {"params": [{"x": "int"}, {"y": "int"}], "ret": "boolean", "do": body})
    for name, body, key in (("up", {"<": ["x", "y"]}, lambda v: v), ("down", {"<": ["y", "x"]}, lambda v: -v), ("mod", {"<": [{"%": ["x", 3]}, {"%": ["y", 3]}]}, lambda v: v % 3)):
        for n in (-1, 0, 1, 2, 3, 5):
            def want(h):
                if n <= 0:
                    return []
                # the order among equals: whoever came first stays in front
                return [v for _, _, v in sorted((-key(v), i, v) for i, (v,) in enumerate(h))][:n]
            walk(ctx, "stat.sample.topN/%s,%d" % (name, n), Call("stat.sample.topN", ["int", A("int"), "int", lt(body)], A("int")), [],
                 [(v,) for v in (0, 1, 2, 3, 5)], 5 if ctx.thorough else 4, want, args=lambda l, s: (l[0], s, n))
    sweep(ctx, "stat.sample.topN", ["int", A("int"), "int", ("fcn", {"params": [{"x": "int"}, {"y": "int"}], "ret": "boolean", "do": {"<": ["x", "y"]}})], A("int"),
          lambda x, top, n: sorted(top + [x], reverse=True)[:n] if n > 0 else [],
          ((x, sorted(t, reverse=True), n) for x in range(4) for k in range(5) for t in itertools.combinations_with_replacement(range(4), k) for n in (0, 1, 2, 3, 4, 2**31 - 1)))


def change(ctx):
    S = rec("S", ("numEvents", "int"), ("numRuns", "int"), ("currentRun", "int"), ("longestRun", "int"), ("note", "string"))

    def want(h):
        runs = [len(list(g)) for k, g in itertools.groupby(b for (b,) in h) if k]
        return {"numEvents": sum(runs), "numRuns": len(runs), "currentRun": runs[-1] if h[-1][0] else 0, "longestRun": max(runs or [0]), "note": "keep"}
    zero = {"numEvents": 0, "numRuns": 0, "currentRun": 0, "longestRun": 0, "note": "keep"}
    call = Call("stat.change.updateTrigger", ["boolean", S], "S")
    walk(ctx, "stat.change.updateTrigger", call, zero, [(True,), (False,)], 12 if ctx.thorough else 10, want)

    def bad(p, h):
        if min(h[k] for k in h if k != "note") < 0:
            raise Err(37000)
        c = h["currentRun"] + 1
        return dict(h, numEvents=h["numEvents"] + 1, numRuns=h["numRuns"] + (h["currentRun"] == 0), currentRun=c, longestRun=max(h["longestRun"], c)) if p else dict(h, currentRun=0)
    sweep(ctx, "stat.change.updateTrigger", ["boolean", S], "S", bad,
          ((p, dict(zip(("numEvents", "numRuns", "currentRun", "longestRun"), v), note="x")) for p in (True, False) for v in itertools.product((-1, 0, 1, 5), repeat=4)))

    letters = [(l, r) for l in (-1.0, 0.5, 2.0) for r in (0.0, -2.0, 1.0)]

    def cusum(h):
        s = Q(0)
        best = None
        for l, r in h:
            s = max(s + Q(l), Q(r))
        return s
    walk(ctx, "stat.change.updateCUSUM", Call("stat.change.updateCUSUM", ["double"] * 3, "double"), 0.0, letters, 5 if ctx.thorough else 4, cusum,
         args=lambda l, s: (l[0], s, l[1]))
    for r in (0.0, -1.5):
        # the largest sum of a suffix, with a floor
        walk(ctx, "stat.change.updateCUSUM/%s" % r, Call("stat.change.updateCUSUM", ["double"] * 3, "double"), r, [(-1.0,), (0.5,), (2.0,), (-0.25,)], 6,
             lambda h: max([Q(r) + sum(Q(l) for (l,) in h[i:]) for i in range(len(h) + 1)]), args=lambda l, s: (l[0], s, r))
    Z = rec("Z", ("mean", "double"), ("variance", "double"))
    C = rec("Z", ("count", "double"), ("mean", "double"), ("variance", "double"))
    xs = (-1.0, 0.0, 1.0, 2.5, NAN, INF)
    ms = (0.0, 1.0, NAN)
    vs = (0.0, 1.0, 6.25, -1.0, NAN, INF)

    def div(a, b):
        return a / b if b != 0 else (a * INF if a != 0 else NAN)

    def z(x, s):
        v = s["variance"]
        return div(x - s["mean"], math.sqrt(v) if v >= 0 else NAN)

    def zc(x, s, unbiased):
        out = z(x, s)
        if unbiased:
            n = s["count"]
            if n != n or math.isinf(n):
                return SKIP
            ratio = div(n, n - 1)
            out = out * (math.sqrt(ratio) if ratio >= 0 else NAN)
        return out
    sweep(ctx, "stat.change.zValue", ["double", Z], "double", z, ((x, {"mean": m, "variance": v}) for x in xs for m in ms for v in vs), tol=1e-12)
    sweep(ctx, "stat.change.zValue", ["double", C, "boolean"], "double", zc,
          ((x, {"mean": m, "variance": v, "count": n}, u) for x in xs for m in ms for v in vs for n in (0.0, 0.5, 1.0, 2.0, 3.5, 1e300, -1.0, INF) for u in (True, False)), tol=1e-12)


# ------------------------------------------------------------------ tests

OWN = {"prefix": "stat.test.", "residual": 38010, "pull": 38020, "mahalanobis": 38030, "chi2Prob": 38060, "dof": "dof"}


def residuals(ctx, f=OWN):
    nums = (-1.0, 0.0, 2.5, NAN, INF)

    def div(a, b):
        if b == 0:
            return NAN if a == 0 or a != a else math.copysign(INF, a) * math.copysign(1.0, b)
        return a / b
    sweep(ctx, f["prefix"] + "residual", ["double"] * 2, "double", lambda o, p: o - p, itertools.product(nums, repeat=2))
    sweep(ctx, f["prefix"] + "pull", ["double"] * 3, "double", lambda o, p, u: div(o - p, u), itertools.product(nums, repeat=3))
    arrs = [list(t) for k in range(3) for t in itertools.product((-1.0, 0.0, 2.5), repeat=k)]

    def res(o, p):
        if len(o) != len(p):
            raise Err(f["residual"])
        return [a - b for a, b in zip(o, p)]

    def pull(o, p, u):
        if len(o) != len(p) and len(o) != len(u):
            return SKIP     # either error
        if len(o) != len(p):
            raise Err(f["pull"])
        if len(o) != len(u):
            raise Err(f["pull"] + 1)
        return [div(a - b, c) for a, b, c in zip(o, p, u)]
    sweep(ctx, f["prefix"] + "residual", [A("double")] * 2, A("double"), res, itertools.product(arrs, repeat=2))
    sweep(ctx, f["prefix"] + "pull", [A("double")] * 3, A("double"), pull, itertools.product(arrs, repeat=3))
    maps = [dict((k, v) for k, v in zip("ab", t) if v is not None) for t in itertools.product((None, -1.0, 0.0, 2.5), repeat=2)]

    def resm(o, p):
        if set(o) != set(p):
            raise Err(f["residual"])
        return dict((k, o[k] - p[k]) for k in o)

    def pullm(o, p, u):
        if set(o) != set(p) and set(o) != set(u):
            return SKIP
        if set(o) != set(p):
            raise Err(f["pull"])
        if set(o) != set(u):
            raise Err(f["pull"] + 1)
        return dict((k, div(o[k] - p[k], u[k])) for k in o)
    sweep(ctx, f["prefix"] + "residual", [M("double")] * 2, M("double"), resm, itertools.product(maps, repeat=2))
    sweep(ctx, f["prefix"] + "pull", [M("double")] * 3, M("double"), pullm, itertools.product(maps, repeat=3))


def chi2(ctx, f=OWN):
    S = rec("S", ("chi2", "double"), (f["dof"], "int"), ("note", "string"))
    start = {"chi2": 0.0, f["dof"]: 0, "note": "keep"}
    for t, letters, total in (("double", [(-1.0,), (0.5,), (3.0,), (0.0,)], lambda p: Q(p) ** 2),
                              (A("double"), [([],), ([1.5],), ([-1.0, 2.0],), ([0.1, 0.2, 3.0],)], lambda p: sum(Q(v) ** 2 for v in p)),
                              (M("double"), [({},), ({"a": 1.5},), ({"a": -1.0, "b": 2.0},)], lambda p: sum(Q(v) ** 2 for v in p.values()))):
        walk(ctx, f["prefix"] + "updateChi2/%s" % (t,), Call(f["prefix"] + "updateChi2", [t, S], "S"), start, letters, 6 if ctx.thorough else 5,
             lambda h: {"chi2": sum(total(p) for (p,) in h), f["dof"]: len(h), "note": "keep"})
    states = [{"chi2": c, f["dof"]: d, "note": "x"} for c in (0.0, 1e-9, 0.1, 0.5, 1.0, 2.0, 3.84, 5.0, 10.0, 30.0, 100.0, -1.0, NAN, INF, -INF)
              for d in (-2**31, -1, 0, 1, 2, 3, 4, 5, 7, 10, 15)]

    def reduced(s):
        c, d = s["chi2"], s[f["dof"]]
        return c / d if d else (NAN if c == 0 or c != c else c * INF)

    def lower(x, d):
        # the probability that the sum of d squared standard normal variables is below x
        if d % 2 == 0:
            return 1 - math.exp(-x / 2) * sum((x / 2) ** k / math.factorial(k) for k in range(d // 2))
        out = math.erf(math.sqrt(x / 2))
        for k in range(1, (d - 1) // 2 + 1):
            out -= (x / 2) ** (k - 0.5) * math.exp(-x / 2) / math.gamma(k + 0.5)
        return out

    def prob(s):
        c, d = s["chi2"], s[f["dof"]]
        if d < 0:
            raise Err(f["chi2Prob"])
        if d == 0:
            return SKIP if c != c else 1.0 if c > 0 else 0.0
        if c != c:
            return NAN
        if c <= 0:
            return 0.0
        return 1.0 if c == INF else lower(c, d)
    sweep(ctx, f["prefix"] + "reducedChi2", [S], "double", reduced, ((s,) for s in states), tol=1e-12)
    sweep(ctx, f["prefix"] + "chi2Prob", [S], "double", prob, ((s,) for s in states), tol=1e-8)


def mahalanobis(ctx, f=OWN):
    def det(m):
        if len(m) == 1:
            return m[0][0]
        return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))

    def dist(d, c):
        n = len(d)
        c = [[Q(v) for v in r] for r in c]
        D = det(c)
        if D == 0:
            return SKIP
        # Cramer: solve c z = d, then d . z
        z = [det([[d[i] if k == j else c[i][k] for k in range(n)] for i in range(n)]) / D for j in range(n)]
        r = sum(a * b for a, b in zip(z, d))
        return NAN if r < 0 else math.sqrt(r)

    def ref(o, p, c):
        if not o:
            raise Err(f["mahalanobis"])
        if len(o) != len(p):
            raise Err(f["mahalanobis"] + 1)
        if len(c) != len(o) or any(len(r) != len(o) for r in c):
            raise Err(f["mahalanobis"] + 2)
        return dist([Q(a) - Q(b) for a, b in zip(o, p)], c)
    vals = (-1.0, 0.0, 1.0, 2.5)
    cases = [([a], [b], [[c]]) for a in vals for b in vals for c in vals]
    cases += [(list(o), [0.5, 0.0], [list(m[:2]), list(m[2:])]) for o in itertools.product(vals[1:], repeat=2) for m in itertools.product(vals, repeat=4)]
    cases += [(list(o), [0.0, 1.0, 0.0], [[2.0, a, 0.0], [b, 1.0, 0.5], [c, 0.0, 3.0]]) for o in itertools.product((0.0, 2.0), repeat=3) for a in vals for b in vals for c in vals]
    cases += [([1.0] * n, [0.0] * m, [[1.0] * k for k in rows]) for n in range(3) for m in range(3) for r in range(3) for rows in itertools.product(range(3), repeat=r)]
    tol = 1e-7

    def judge(got, want, args):
        # a distance of zero may come out as a tiny negative square
        return agree(got, want, tol) or (want[0] == "ok" and want[1] == 0.0 and got[0] == "ok" and (got[1] != got[1] or got[1] < 1e-6))
    sweep(ctx, f["prefix"] + "mahalanobis", [A("double")] * 2 + [A(A("double"))], "double", ref, cases, tol=tol, judge=judge)

    def refm(o, p, c):
        if not o:
            raise Err(f["mahalanobis"])
        if set(o) != set(p):
            raise Err(f["mahalanobis"] + 1)
        ks = sorted(o)
        if any(k not in c or any(j not in c[k] for j in ks) for k in ks):
            raise Err(f["mahalanobis"] + 2)
        return dist([Q(o[k]) - Q(p[k]) for k in ks], [[c[i][j] for j in ks] for i in ks])
    keyed = lambda t: dict(zip("ba", t))
    casesm = [(keyed(o), {"a": 0.5, "b": 0.0}, {"a": keyed(m[:2]), "b": keyed(m[2:])}) for o in itertools.product(vals[1:], repeat=2) for m in itertools.product(vals, repeat=4)]
    subsets = [[], ["a"], ["b"], ["a", "b"]]
    casesm += [(dict((k, 1.0) for k in o), dict((k, 0.0) for k in p), dict((k, dict((j, 1.0 if j == k else 0.5) for j in c)) for k, c in zip("ab", cs) if c is not None))
               for o in subsets for p in subsets for cs in itertools.product(subsets + [None], repeat=2)]
    sweep(ctx, f["prefix"] + "mahalanobis", [M("double")] * 2 + [M(M("double"))], "double", refm, casesm, tol=tol, judge=judge)


def kolmogorov(ctx):
    def ref(x, y):
        x, y = [v for v in x if v == v], [v for v in y if v == v]
        if not x and not y:
            return 1.0
        if not x or not y:
            return 0.0
        at = lambda s, t: Q(len([v for v in s if v <= t]), len(s))
        d = max(abs(at(x, t) - at(y, t)) for t in x + y)
        if d == 0:
            return 1.0
        en = math.sqrt(len(x) * len(y) / float(len(x) + len(y)))
        z = (en + 0.12 + 0.11 / en) * float(d)
        # the alternating form of the same law, or its reflection for small arguments
        if z > 0.4:
            return min(1.0, max(0.0, 2 * sum((-1) ** (j - 1) * math.exp(-2.0 * j * j * z * z) for j in range(1, 200))))
        return 1 - math.sqrt(2 * math.pi) / z * sum(math.exp(-(2 * j - 1) ** 2 * math.pi ** 2 / (8 * z * z)) for j in range(1, 20))
    n = 5 if ctx.thorough else 4
    vals = (0.0, 1.0, 2.5)
    bags = [list(t) for k in range(n + 1) for t in itertools.combinations_with_replacement(vals, k)]
    cases = [(x, y) for x in bags for y in bags]
    cases += [(list(x), list(y)) for x in itertools.product((0.0, 1.0, NAN, INF, -INF), repeat=2) for k in range(3) for y in itertools.product((1.0, 0.0, NAN, INF), repeat=k)]
    cases += [(x[::-1], y[1:] + y[:1]) for x in bags for y in bags if len(set(x)) > 1 and len(set(y)) > 1][::3]
    sweep(ctx, "stat.test.kolmogorov", [A("double")] * 2, "double", ref, cases, tol=1e-9)


def tasks(tier):
    out = []
    for level in (0, 1, 2):
        for extra in (False, True):
            for weight in ((0.0, 0.0, 0.0), (2.0, 1.5, 4.0)):
                out.append(("update/%d%s%s" % (level, extra, weight[0]), update, (level, extra, weight)))
        for size in (2, 3, 4):
            out.append(("window/%d,%d" % (level, size), window, (level, size)))
        out.append(("sizes/%d" % level, windowShrinks, (level,)))
    for kind in ("array", "map"):
        out.append(("covariance/" + kind, covariance, (kind,)))
    for level in (0, 1):
        out.append(("ewma/%d" % level, ewma, (level, (0.0, 0.25, 1.0))))
    for kind in ("plain", "periodic", "forecast"):
        out.append(("holt/" + kind, holt, (kind,)))
    for method in (0, 1, 2):
        for k in range(5):
            for flows in itertools.combinations(FLOWS, k):
                if tier == "thorough" or flows in ((), FLOWS, ("underflow",), ("overflow", "infflow"), ("nanflow",), FLOWS[:3]):
                    out.append(("histogram/%d%s" % (method, flows), histogram, (method, flows)))
    out.append(("shapes", shapes, ()))
    for flows in ([], list(NINE), list(NINE[:9]), ["infflow"], list(NINE[::2])) + (tuple([f] for f in NINE[:9]) if tier == "thorough" else ()):
        out.append(("histogram2d/%s" % ",".join(flows), histogram2d, (flows,)))
    for fn in (counters, change, residuals, chi2, mahalanobis, kolmogorov):
        out.append((fn.__name__, fn, ()))
    return out
