"""C10: comparison as one total order, on all pairs and triples of small values of all types, and in every function that uses it."""
import itertools

import titus.datatype as D
from mc import universe as U
from mc.eng import *

LEVEL = "exploration"
RULE = ("a case is one pair of values in one type (compared with eight operators and functions), or one array or map of values sorted and searched; all ordered types of a "
        "universe closed to depth two (three thorough), all pairs of their small values, all arrays of up to three of them (four thorough); non-trivial: distinct values")
ASSUMPTIONS = ["maps have no order in Avro and are left out", "which of several equal items a selection returns is left open, except that arg functions return the first"]


def ordered(deep):
    return [t for t in U.universe(deep) if not U.hasMap(t)]


def sgn(x):
    return (x > 0) - (x < 0)


CMPREC = {"type": "record", "name": "Res", "fields": [{"name": n, "type": "int" if n == "cmp" else "boolean"} for n in ("cmp", "eq", "ne", "lt", "le", "gt", "ge")]}
OPS = {"cmp": "cmp", "eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}


def pairDoc(tx, ty):
    return {"input": {"type": "record", "name": "In", "fields": [{"name": "x", "type": tx}, {"name": "y", "type": ty}]}, "output": CMPREC,
            "action": [{"type": CMPREC, "new": dict((n, {op: ["input.x", "input.y"]}) for n, op in OPS.items())}]}


def judge(ctx, case, got, want):
    if got[0] != "ok":
        ctx.fail(case, "comparison fails: %s" % show(got))
        return
    r = got[1]
    exp = {"cmp": want, "eq": want == 0, "ne": want != 0, "lt": want < 0, "le": want <= 0, "gt": want > 0, "ge": want >= 0}
    for n in exp:
        g = sgn(r[n]) if n == "cmp" else r[n]
        if g != exp[n]:
            ctx.fail(case, "%s gives %s, should be %s" % (OPS[n], r[n], exp[n]))
            return


EDGES = {
    "int": [U.INT_MIN, U.INT_MIN + 1, -2**24 - 1, -2**24, -2, -1, 0, 1, 9, 10, 2**24, 2**24 + 1, U.INT_MAX - 1, U.INT_MAX],
    "long": [U.LONG_MIN, U.LONG_MIN + 1, -2**53 - 1, -2**53, -2**31, -1, 0, 2, 10, 2**31, 2**53, 2**53 + 1, 2**62, 2**62 + 1, U.LONG_MAX - 1, U.LONG_MAX],
    "double": [-INF, -1.7976931348623157e308, -2.0**53, -1.0000000000000002, -1.0, -5e-324, -0.0, 0.0, 5e-324, 1e-300, 0.1, 0.30000000000000004, 0.3, 1.0,
               1.0000000000000002, 2.0**53, 1e300, INF, NAN],
    "string": ["", " ", "!", "0", "10", "9", "A", "B", "a", "a ", "aa", "ab", "b", "\x00", "\x7f", "\u00e9", "\u20ac", "\uffff", "\U0001F600", "Z", "_", "\ud7ff"],
    "bytes": ["", "\x00", "\x00\x00", "\x01", "a", "A", "ab", "b", "\x7f", "\x80", "\xff", "\xff\x00"],
}
EDGES["float"] = [x for x in EDGES["double"] if x != x or abs(x) > 1e30 or abs(x) < 1e-30 or x == int(x)]


def edges(ctx, t):
    """Values near the limits and near each other, alone and as the last item, field and branch of something."""
    vs = EDGES[t]
    pairs(ctx, t, 0, vs)
    pairs(ctx, U.arr(t), 0, [[vs[0], x] for x in vs] + [[vs[0]]])
    pairs(ctx, U.rec("Pair", ("s", "string"), {"name": "p", "type": t, "order": "descending"}), 0, [{"s": "q", "p": x} for x in vs])
    pairs(ctx, ["null", t], 0, [None] + [{t: x} for x in vs])
    sort, smax, smin = Call("a.sort", [U.arr(t)], U.arr(t)), Call("a.argmax", [U.arr(t)], "int"), Call("a.argmin", [U.arr(t)], "int")
    for lo in range(len(vs)):
        for hi in range(lo + 1, len(vs) + 1):
            for part in (vs[lo:hi], vs[lo:hi][::-1]):
                case = ["edges", t, part]
                if not ctx.want(case):
                    continue
                ctx.nontrivial += 1
                want = sorted(part, key=K(lambda a, b: U.cmp(t, a, b)))
                got = sort(part)
                if got[0] != "ok" or len(got[1]) != len(want) or any(U.cmp(t, a, b) for a, b in zip(U.raw(got[1]), want)):
                    ctx.fail(case, "a.sort gives %s, should be %s" % (show(got), show(want)))
                for f, w in ((smax, want[-1]), (smin, want[0])):
                    first = [i for i, x in enumerate(part) if U.cmp(t, x, w) == 0][0]
                    if not agree(f(part), ("ok", first)):
                        ctx.fail(case, "%s gives %s, should be %s" % (f.fname, f(part), first))


def pairs(ctx, t, n, vs=None):
    env = U.Env(t)
    vs = vs or U.values(t, n)[:14 if not ctx.thorough else 24]
    e = make(pairDoc(t, t))
    mm = {f: make({"input": {"type": "record", "name": "In", "fields": [{"name": "x", "type": t}, {"name": "y", "type": t}]}, "output": t,
                   "action": [{f: ["input.x", "input.y"]}]}) for f in ("min", "max")}
    T = D.jsonNodeToAvroType(once(t))
    table = {}
    for i, x in enumerate(vs):
        for j, y in enumerate(vs):
            case = ["pair", t, x, y]
            want = U.cmp(t, x, y, env)
            table[i, j] = want
            if not ctx.want(case):
                continue
            if i != j:
                ctx.nontrivial += 1
            judge(ctx, case, outcome(e.action, {"x": x, "y": y}), want)
            direct = outcome(D.compare, T, x, y)
            if direct[0] != "ok" or sgn(direct[1]) != want:
                ctx.fail(case, "compare gives %s, should be %s" % (show(direct), want))
            for f, sign in (("min", 1), ("max", -1)):
                got = outcome(mm[f].action, {"x": x, "y": y})
                exp = x if want * sign < 0 else y if want else None
                if got[0] != "ok":
                    ctx.fail(case, "%s fails: %s" % (f, show(got)))
                elif want and not same(U.raw(got[1]), exp):
                    ctx.fail(case, "%s gives %s, should be %s" % (f, show(got[1]), show(exp)))
                elif not want and not (same(U.raw(got[1]), x) or same(U.raw(got[1]), y)):
                    ctx.fail(case, "%s gives %s" % (f, show(got[1])))
            ctx.outcome((want,))
    # the order axioms, on the reference (the pairs above bind the code to it)
    r = range(len(vs))
    for i in r:
        assert table[i, i] == 0
        for j in r:
            assert table[i, j] == -table[j, i]
            for k in r:
                assert not (table[i, j] <= 0 and table[j, k] <= 0 and table[i, k] > 0), (t, vs[i], vs[j], vs[k])


def mixed(ctx):
    """Arguments of different types, compared as the type that takes both."""
    combos = [("int", "long"), ("int", "float"), ("int", "double"), ("long", "float"), ("long", "double"), ("float", "double"),
              ("int", ["int", "string"]), (["null", "int"], "null"), (["null", "string"], "string"), (U.arr("int"), U.arr("double")),
              ("double", ["null", "double"]), (U.ENUM, ["null", U.ENUM]), (U.REC, ["null", U.REC])]
    for a, b in combos:
        for tx, ty in ((a, b), (b, a)):
            r = tryMake(once(pairDoc(tx, ty)))
            if r[0] != "ok":
                if isinstance(a, str) and isinstance(b, str):
                    ctx.fail(["mixed", tx, ty], "refused: %s %s" % r)
                continue
            e = r[1]
            wide = b if isinstance(b, (str, dict)) else b
            if a == ["null", "int"] or a == ["null", "string"]:
                wide = a
            for x in U.values(tx, 3)[:7]:
                for y in U.values(ty, 3)[:7]:
                    case = ["mixed", tx, ty, x, y]
                    if not ctx.want(case):
                        continue
                    ctx.nontrivial += 1
                    w = wide
                    tag = lambda t, v: v if not isinstance(w, list) or isinstance(t, list) or v is None else {U.Env(w).tag(t): v}
                    try:
                        want = U.cmp(w, tag(tx, x), tag(ty, y))
                    except (ValueError, IndexError):
                        continue
                    got = outcome(e.action, {"x": x, "y": y})
                    if isinstance(w, list) and U.cmp(w, tag(tx, x), tag(ty, y)) and (x is None) != (y is None):
                        # the order of the branches in a merged type is not promised, only that they differ
                        if got[0] != "ok" or got[1]["eq"] or not got[1]["ne"] or got[1]["cmp"] == 0:
                            ctx.fail(case, "different branches compare as %s" % show(got))
                        continue
                    judge(ctx, case, got, want)


def untagged(ctx):
    """Union values that come out of conditionals and lists, where no branch tag was ever given."""
    for u in (["int", "string"], ["null", "int"], ["string", U.arr("int"), "boolean"], ["null", U.REC, "double"], [U.ENUM, U.arr("string")], ["bytes", "int", "null"]):
        env = U.Env(u)
        branches = [(b, v) for b in u for v in U.values(b, 2)[:3]]
        e = make({"input": {"type": "record", "name": "In", "fields": [{"name": "i", "type": "int"}, {"name": "y", "type": u}]}, "output": CMPREC,
                  "action": [{"let": {"x": {"cond": [{"if": {"==": ["input.i", i]}, "then": {"type": b, "value": v}} for i, (b, v) in enumerate(branches)],
                                            "else": {"type": u, "value": U.values(u)[0]}}}},
                             {"type": CMPREC, "new": dict((n, {op: ["x", "input.y"]}) for n, op in OPS.items())}]})
        for i, (b, v) in enumerate(branches):
            for y in U.values(u, 2):
                case = ["untagged", u, b, v, y]
                if not ctx.want(case):
                    continue
                ctx.nontrivial += 1
                x = None if b == "null" else {env.tag(b): v}
                judge(ctx, case, outcome(e.action, {"i": i, "y": y}), U.cmp(u, x, y, env))


def selection(ctx, t, n):
    env = U.Env(t)
    vs = U.values(t, n)
    k = 5 if ctx.thorough else 4
    vs = vs[:2] + vs[-(k - 2):] if len(vs) > k else vs
    A, M = U.arr(t), U.mp(t)
    lt = lambda x, y: U.cmp(t, x, y, env) < 0
    arrays = [a for m in range(1, (4 if ctx.thorough else 3) + 1) for a in itertools.product(vs, repeat=m)]
    arr = {f: Call("a." + f, [A] + ([{"N": "int"}[f[-1]]] if f[-1] == "N" else []), {"sort": A, "max": t, "min": t, "maxN": A, "minN": A, "argmax": "int", "argmin": "int",
                                                                                   "argmaxN": U.arr("int"), "argminN": U.arr("int")}[f])
           for f in ("sort", "max", "min", "maxN", "minN", "argmax", "argmin", "argmaxN", "argminN")}
    for a in arrays:
        a = list(a)
        case = ["array", t, a]
        if not ctx.want(case):
            continue
        if len(a) > 1:
            ctx.nontrivial += 1
        up = sorted(range(len(a)), key=K(lambda i, j: U.cmp(t, a[i], a[j], env)))
        down = sorted(range(len(a)), key=K(lambda i, j: -U.cmp(t, a[i], a[j], env)))
        eqv = lambda xs, ys: len(xs) == len(ys) and all(U.cmp(t, x, y, env) == 0 for x, y in zip(xs, ys))
        for f, args, want, isArg in [("sort", (a,), [a[i] for i in up], False), ("max", (a,), [a[down[0]]], False), ("min", (a,), [a[up[0]]], False),
                                     ("argmax", (a,), [down[0]], True), ("argmin", (a,), [up[0]], True)] + \
                [(g + "N", (a, m), ([o[:m] for o in [up if "min" in g else down]][0] if "arg" in g else [a[i] for i in (up if "min" in g else down)[:m]]), "arg" in g)
                 for g in ("max", "min", "argmax", "argmin") for m in (1, 2)]:
            got = arr[f](*args)
            if got[0] != "ok":
                ctx.fail(case, "a.%s fails: %s" % (f, show(got)))
                continue
            g = U.raw(got[1]) if f in ("sort",) or f[-1] == "N" else [U.raw(got[1])]
            if isArg:
                if g != want:
                    ctx.fail(case, "a.%s%s gives %s, should be %s" % (f, args[1:], g, want))
            elif not eqv(g, want) or not all(any(same(x, y) for y in a) for x in g):
                ctx.fail(case, "a.%s%s gives %s, should be %s" % (f, args[1:], show(g), show(want)))
        ctx.outcome(tuple(up))
    mcalls = {f: Call("map." + f, [M] + (["int"] if f[-1] == "N" else []), "string" if f[-1] != "N" else U.arr("string")) for f in ("argmax", "argmin", "argmaxN", "argminN")}
    for a in arrays:
        m = dict(zip("qpr", a))
        if len(a) > 3:
            continue
        case = ["map", t, m]
        if not ctx.want(case):
            continue
        if len(a) > 1:
            ctx.nontrivial += 1
        keys = sorted(m)
        up = sorted(keys, key=K(lambda i, j: U.cmp(t, m[i], m[j], env)))
        down = sorted(keys, key=K(lambda i, j: -U.cmp(t, m[i], m[j], env)))
        for f, args, want in (("argmax", (m,), down[0]), ("argmin", (m,), up[0]), ("argmaxN", (m, 2), down[:2]), ("argminN", (m, 2), up[:2])):
            got = mcalls[f](*args)
            if not agree(got, ("ok", want)):
                ctx.fail(case, "map.%s%s gives %s, should be %s" % (f, args[1:], show(got), want))


def K(f):
    import functools
    return functools.cmp_to_key(f)


def group(ctx, fn, lo, hi, n):
    for i, t in enumerate(ordered(ctx.thorough)):
        if lo <= i < hi:
            fn(ctx, t, n)


def tasks(tier):
    deep = tier == "thorough"
    m = len(ordered(deep))
    out = [("mixed", mixed, ()), ("untagged", untagged, ())] + [("edges " + t, edges, (t,)) for t in sorted(EDGES)]
    for lo in range(0, m, 5):
        out.append(("pairs%d" % lo, group, (pairs, lo, lo + 5, 5 if deep else 4)))
        out.append(("selection%d" % lo, group, (selection, lo, lo + 5, 4 if deep else 3)))
    return out
