"""C20: array functions, on all small arrays, against independent definitions."""
import itertools
import math

from mc.eng import *

LEVEL = "exploration"
RULE = ("a case is one call of one array function on the real engine; all arrays over a 3-letter alphabet up to length 4 (5 thorough), "
        "all positions around and beyond both ends, all predicates and orders over the alphabet; non-trivial: a nonempty array")
ASSUMPTIONS = ["floating point sums are compared with a relative tolerance of 1e-12",
               "which of several equal items max/min return, and the order of equal items in a sort, is left open"]

TAB_X = {"attr": "tab", "path": ["x"]}
INT_MAX, INT_MIN = 2**31 - 1, -2**31
LONG_MAX, LONG_MIN = 2**63 - 1, -2**63


def A(t):
    return {"type": "array", "items": t}


def arrays(alphabet, n, lo=0):
    for k in range(lo, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield list(t)


def cut(n, start, end):
    s = start if start >= 0 else n + start
    e = end if end >= 0 else n + end
    s = min(max(s, 0), n)
    e = min(max(e, 0), n)
    return s, max(s, e)


def nth(n, i, code):
    j = i if i >= 0 else n + i
    if not 0 <= j < n:
        raise Err(code)
    return j


def nonempty(a, code):
    if not a:
        raise Err(code)


# ------------------------------------------------------------------ positions and pieces

def positions(ctx, itemType, alphabet):
    top = 5 if ctx.thorough else 4
    deep = list(arrays(alphabet, top))
    short = list(arrays(alphabet, 3))
    rng = range(-top - 2, top + 3)
    big = (-2**31, 2**31 - 1)
    AT = A(itemType)
    tr = lambda a, *r: not a

    def go(name, types, ret, ref, cases):
        sweep(ctx, name, types, ret, ref, cases, trivial=tr)

    def head(a): nonempty(a, 15020); return a[0]
    def tail(a): nonempty(a, 15030); return a[1:]
    def last(a): nonempty(a, 15040); return a[len(a) - 1]
    def init(a): nonempty(a, 15050); return a[:len(a) - 1]
    one = [(a,) for a in deep]
    go("a.len", [AT], "int", lambda a: len(a), one)
    go("a.head", [AT], itemType, head, one)
    go("a.tail", [AT], AT, tail, one)
    go("a.last", [AT], itemType, last, one)
    go("a.init", [AT], AT, init, one)
    go("a.reverse", [AT], AT, lambda a: [a[len(a) - 1 - i] for i in range(len(a))], one)

    def subseq(a, s, e):
        s, e = cut(len(a), s, e)
        return [a[i] for i in range(s, e)]
    go("a.subseq", [AT, "int", "int"], AT, subseq,
       ((a, s, e) for a in deep for s in list(rng) + list(big) for e in list(rng) + list(big)))

    def subseqto(a, s, e, r):
        s, e = cut(len(a), s, e)
        return [a[i] for i in range(s)] + r + [a[i] for i in range(e, len(a))]
    go("a.subseqto", [AT, "int", "int", AT], AT, subseqto,
       ((a, s, e, r) for a in short for s in range(-5, 6) for e in range(-5, 6) for r in ([], alphabet[:1], alphabet[:2])))

    def remove2(a, s, e):
        s, e = cut(len(a), s, e)
        return [a[i] for i in range(len(a)) if not s <= i < e]
    go("a.remove", [AT, "int", "int"], AT, remove2, ((a, s, e) for a in short for s in range(-5, 6) for e in range(-5, 6)))

    def remove1(a, i):
        j = nth(len(a), i, 15180)
        return [a[k] for k in range(len(a)) if k != j]
    go("a.remove", [AT, "int"], AT, remove1, ((a, i) for a in deep for i in list(rng) + list(big)))

    def insert(a, i, x):
        j = nth(len(a), i, 15160)
        return a[:j] + [x] + a[j:]
    go("a.insert", [AT, "int", itemType], AT, insert, ((a, i, x) for a in deep for i in list(rng) + list(big) for x in alphabet[:2]))

    def replace(a, i, x):
        j = nth(len(a), i, 15170)
        return [x if k == j else a[k] for k in range(len(a))]
    go("a.replace", [AT, "int", itemType], AT, replace, ((a, i, x) for a in deep for i in list(rng) + list(big) for x in alphabet[:2]))
    go("a.concat", [AT, AT], AT, lambda a, b: [x for c in (a, b) for x in c], itertools.product(short, short))
    go("a.append", [AT, itemType], AT, lambda a, x: [y for y in a] + [x], itertools.product(deep, alphabet))

    def cycle(a, x, n):
        if n < 0:
            raise Err(15150)
        out = a + [x]
        return out[max(0, len(out) - n):]
    go("a.cycle", [AT, itemType, "int"], AT, cycle, itertools.product(deep, alphabet[:2], list(range(-2, top + 3)) + [2**31 - 1, -2**31]))

    def rotate(a, n):
        if n < 0:
            raise Err(15190)
        return [a[(i + n) % len(a)] for i in range(len(a))]
    go("a.rotate", [AT, "int"], AT, rotate, itertools.product(deep, list(range(-2, 2 * top + 2)) + [2**31 - 1]))
    go("a.flatten", [A(AT)], AT, lambda a: [x for b in a for x in b], ((a,) for a in arrays(list(arrays(alphabet[:2], 2)), 3)))


def hay(ctx, itemType, alphabet):
    top = 5 if ctx.thorough else 4
    deep = list(arrays(alphabet, top))
    AT = A(itemType)
    tr = lambda a, *r: not a
    needles = list(arrays(alphabet, 3)) if ctx.thorough else list(arrays(alphabet, 2)) + [alphabet[:1] * 3, [alphabet[0], alphabet[1], alphabet[0]]]

    def occurrences(a, n):
        return [i for i in range(len(a) + 1) if len(a) - i >= len(n) and all(a[i + j] == n[j] for j in range(len(n)))]
    sub = list(itertools.product(deep, needles))
    item = list(itertools.product(deep, alphabet))

    def go(name, second, ret, ref, cases):
        sweep(ctx, name, [AT, second], ret, ref, cases, trivial=tr)
    go("a.contains", AT, "boolean", lambda a, n: bool(occurrences(a, n)), sub)
    go("a.contains", itemType, "boolean", lambda a, x: bool(occurrences(a, [x])), item)
    go("a.count", AT, "int", lambda a, n: len(occurrences(a, n)) if n else 0, sub)
    go("a.count", itemType, "int", lambda a, x: len(occurrences(a, [x])), item)
    go("a.index", AT, "int", lambda a, n: (occurrences(a, n) + [-1])[0], sub)
    go("a.index", itemType, "int", lambda a, x: (occurrences(a, [x]) + [-1])[0], item)
    go("a.rindex", AT, "int", lambda a, n: ([-1] + occurrences(a, n))[-1], sub)
    go("a.rindex", itemType, "int", lambda a, x: ([-1] + occurrences(a, [x]))[-1], item)
    go("a.startswith", AT, "boolean", lambda a, n: 0 in occurrences(a, n), sub)
    go("a.startswith", itemType, "boolean", lambda a, x: 0 in occurrences(a, [x]), item)
    go("a.endswith", AT, "boolean", lambda a, n: len(a) - len(n) in occurrences(a, n), sub)
    go("a.endswith", itemType, "boolean", lambda a, x: len(a) - 1 in occurrences(a, [x]), item)


def sets(ctx, itemType, alphabet):
    top = 4 if ctx.thorough else 3
    deep = list(arrays(alphabet, top))
    AT = A(itemType)
    tr = lambda a, *r: not a
    key = repr

    def asSet(got, want, args):
        if got[0] != "ok" or want[0] != "ok":
            return got == want
        keys = [key(x) for x in got[1]]
        if sorted(set(keys)) != sorted(key(x) for x in want[1]):
            return False
        # sets in, set out
        if all(len(set(map(key, a))) == len(a) for a in args):
            return len(set(keys)) == len(keys)
        return True

    def strict(got, want, args):
        return asSet(got, want, args) and len(got[1]) == len(want[1])

    def S(a): return dict((key(x), x) for x in a)
    def pick(f):
        def ref(a, b):
            sa, sb = S(a), S(b)
            both = dict(sa)
            both.update(sb)
            return [v for k, v in both.items() if f(k in sa, k in sb)]
        return ref
    pairs = list(itertools.product(deep, deep))

    def go(name, types, ret, ref, cases, judge):
        sweep(ctx, name, types, ret, ref, cases, trivial=tr, judge=judge)
    go("a.distinct", [AT], AT, lambda a: list(S(a).values()), [(a,) for a in arrays(alphabet, top + 1)], strict)
    go("a.union", [AT, AT], AT, pick(lambda x, y: x or y), pairs, strict)
    go("a.intersection", [AT, AT], AT, pick(lambda x, y: x and y), pairs, asSet)
    go("a.diff", [AT, AT], AT, pick(lambda x, y: x and not y), pairs, asSet)
    go("a.symdiff", [AT, AT], AT, pick(lambda x, y: x != y), pairs, asSet)
    go("a.seteq", [AT, AT], "boolean", lambda a, b: set(S(a)) == set(S(b)), pairs, None)
    go("a.subset", [AT, AT], "boolean", lambda a, b: set(S(a)) <= set(S(b)), pairs, None)
    go("a.disjoint", [AT, AT], "boolean", lambda a, b: not set(S(a)) & set(S(b)), pairs, None)


# ------------------------------------------------------------------ order

def orders(ctx, itemType, alphabet, rank, lts, interpolate):
    """rank: value -> comparable key of the type's own order; lts: user orders (index into the rank table)"""
    top = 5 if ctx.thorough else 4
    deep = list(arrays(alphabet, top))
    AT = A(itemType)
    tr = lambda a, *r: not a
    ns = list(range(-1, top + 2))
    keyed = {}

    def ranked(f):
        return lambda a: [f(x) for x in a]

    def judgeBy(f, permutation=None):
        """values may be replaced by equally ranked ones, but must be items of the array"""
        def judge(got, want, args):
            if got[0] != want[0]:
                return False
            if got[0] != "ok":
                return got[1] == want[1]
            g, w = got[1], want[1]
            if not isinstance(g, list):
                return g in args[0] and f(g) == f(w)
            if len(g) != len(w) or [f(x) for x in g] != [f(x) for x in w]:
                return False
            rest = list(args[0])
            for x in g:
                if x not in rest:
                    return False
                rest.remove(x)
            return True
        return judge

    def lo(a): return sorted(a, key=f)
    def hi(a): return sorted(a, key=f, reverse=True)

    variants = [("", rank, [])]
    for i, (name, g, fcn) in enumerate(lts):
        variants.append(("LT", g, [("fcn", fcn)]))
    for suffix, f, extra in variants:
        j = judgeBy(f)
        one = [(a,) for a in deep]
        many = [(a, n) for a in deep for n in ns]
        base = 10 if suffix else 0

        def bounded(code):
            def wrap(fun):
                def ref(a, n=None):
                    if not a:
                        raise Err(code)
                    if n is not None and n < 0:
                        raise Err(code + 1)
                    return fun(a, n)
                return ref
            return wrap

        def args(n):
            return [AT] + (["int"] if n else []) + extra

        def idx(a, sign):
            r = sorted(set(f(x) for x in a), reverse=sign < 0)
            return [i for v in r for i in range(len(a)) if f(a[i]) == v]
        L = suffix

        def run(name, many_, ret, ref, judge):
            # arguments that are functions come last
            call = Call(name, args(many_), ret)
            for c in (many if many_ else one):
                case = (name, lts and extra and repr(extra)[:60] or "", itemType if isinstance(itemType, str) else "rec") + c
                if not ctx.want(case):
                    continue
                got = call(*c)
                want = expect(ref, *c)
                if c[0]:
                    ctx.nontrivial += 1
                ctx.outcome((name, repr(want)))
                ctx.sample("{0}{1} -> {2}".format(name, show(c), show(want)), 1)
                if not (judge(got, want, c) if judge else agree(got, want)):
                    ctx.fail(case, "{0}{1} [{4}] gives {2}, must give {3}".format(name, show(c), show(got), show(want), suffix))
                    if ctx.full():
                        return
        code = {"sort": 15200, "max": 15240, "min": 15250, "maxN": 15280, "minN": 15290, "argmax": 15320, "argmin": 15330,
                "argmaxN": 15360, "argminN": 15370}
        d = 10 if suffix else 0     # sortLT; the others come in pairs of two
        d2 = 20 if suffix else 0
        run("a.sort" + L, False, AT, lambda a: sorted(a, key=f), j)
        run("a.max" + L, False, itemType, bounded(15240 + d2)(lambda a, n: hi(a)[0]), j)
        run("a.min" + L, False, itemType, bounded(15250 + d2)(lambda a, n: lo(a)[0]), j)
        run("a.maxN" + L, True, AT, bounded(15280 + d2)(lambda a, n: hi(a)[:n]), j)
        run("a.minN" + L, True, AT, bounded(15290 + d2)(lambda a, n: lo(a)[:n]), j)
        run("a.argmax" + L, False, "int", bounded(15320 + d2)(lambda a, n: idx(a, -1)[0]), None)
        run("a.argmin" + L, False, "int", bounded(15330 + d2)(lambda a, n: idx(a, 1)[0]), None)
        run("a.argmaxN" + L, True, A("int"), bounded(15360 + d2)(lambda a, n: idx(a, -1)[:n]), None)
        run("a.argminN" + L, True, A("int"), bounded(15370 + d2)(lambda a, n: idx(a, 1)[:n]), None)

    f = rank

    def median(a, code=15450):
        nonempty(a, code)
        s = sorted(a, key=rank)
        n = len(s)
        if n % 2 == 1:
            return s[(n - 1) // 2]
        if interpolate:
            return (s[n // 2 - 1] + s[n // 2]) / 2.0
        return s[n // 2 - 1]

    def mode(a):
        nonempty(a, 15470)
        best = max(sum(1 for y in a if y == x) for x in a)
        tops = []
        for x in a:
            if sum(1 for y in a if y == x) == best and x not in tops:
                tops.append(x)
        return median(tops)

    def ntile(a, p):
        nonempty(a, 15460)
        if p != p:
            raise Err(15461)
        s = sorted(a, key=rank)
        if p <= 0:
            return s[0]
        if p >= 1:
            return s[-1]
        k = (len(s) - 1.0) * p
        lo_, frac = int(k), k - int(k)
        if interpolate and frac > 0:
            return s[lo_] + (s[lo_ + 1] - s[lo_]) * frac
        return s[lo_]
    eq = lambda got, want, args: agree(got, want, 1e-12) or (got[0] == "ok" == want[0] and not interpolate and rank(got[1]) == rank(want[1]) and got[1] in args[0])
    sweep(ctx, "a.median", [AT], itemType, median, [(a,) for a in deep], judge=eq, trivial=tr)
    sweep(ctx, "a.mode", [AT], itemType, mode, [(a,) for a in deep], judge=eq, trivial=tr)
    sweep(ctx, "a.ntile", [AT, "double"], itemType, ntile,
          [(a, p) for a in deep for p in (-1.0, 0.0, 0.1, 0.25, 0.3, 0.5, 0.7, 0.75, 0.999, 1.0, 3.0, INF, -INF, NAN)], judge=eq, trivial=tr)


# ------------------------------------------------------------------ numbers

def numbers(ctx):
    tr = lambda a, *r: not a
    ints = [0, 1, -1, 2, 46341, INT_MAX, INT_MIN]
    longs = [0, 1, -1, 2, 3037000500, LONG_MAX, LONG_MIN]

    def total(lo, hi, code, f, unit):
        def ref(a):
            v = unit
            for x in a:
                v = f(v, x)
            if not lo <= v <= hi:
                raise Err(code)
            return v
        return ref
    add, mul = (lambda x, y: x + y), (lambda x, y: x * y)
    for t, al, lo, hi, k in (("int", ints, INT_MIN, INT_MAX, 0), ("long", longs, LONG_MIN, LONG_MAX, 1)):
        cs = [(a,) for a in arrays(al, 3)]
        sweep(ctx, "a.sum", [A(t)], t, total(lo, hi, 15400 + k, add, 0), cs, trivial=tr, label="a.sum/" + t)
        sweep(ctx, "a.product", [A(t)], t, total(lo, hi, 15410 + k, mul, 1), cs, trivial=tr, label="a.product/" + t)
    dbl = [0.0, 1.0, -1.5, 2.5, 1e200, INF, -INF, NAN]

    def fold(f, unit):
        def ref(a):
            v = unit
            for x in a:
                v = f(v, x)
            return v
        return ref

    def ln(x):
        return NAN if x != x or x < 0 else -INF if x == 0 else math.log(x) if x != INF else INF

    def lnsum(a):
        v = 0.0
        for x in a:
            v += ln(x)
        return v

    def mean(a):
        return fold(add, 0.0)(a) / len(a) if a else NAN

    def geomean(a):
        if not a:
            return NAN
        p = fold(mul, 1.0)(a)
        if p == -INF:
            return SKIP
        if p != p or p < 0:
            return NAN if len(a) > 1 or p != p else p
        return p ** (1.0 / len(a))

    def lse(a):
        if not a:
            return NAN
        if any(x != x for x in a):
            return NAN
        if any(x == INF for x in a):
            return SKIP     # the shifted formula and the plain one differ: left open
        if all(x == -INF for x in a):
            return SKIP
        m = max(a)
        return m + math.log(sum(math.exp(x - m) for x in a))
    cs = [(a,) for a in arrays(dbl, 3)]
    for t in ("double", "float"):
        al = dbl if t == "double" else [0.0, 1.0, -1.5, 2.5, INF, NAN]
        c2 = [(a,) for a in arrays(al, 3)]
        sweep(ctx, "a.sum", [A(t)], t, fold(add, 0.0), c2, trivial=tr, label="a.sum/" + t, tol=1e-12)
        sweep(ctx, "a.product", [A(t)], t, fold(mul, 1.0), c2, trivial=tr, label="a.product/" + t, tol=1e-12)
    sweep(ctx, "a.lnsum", [A("double")], "double", lnsum, cs, trivial=tr, tol=1e-12)
    sweep(ctx, "a.mean", [A("double")], "double", mean, cs, trivial=tr, tol=1e-12)
    sweep(ctx, "a.geomean", [A("double")], "double", geomean, cs, trivial=tr, tol=1e-12)
    sweep(ctx, "a.logsumexp", [A("double")], "double", lse,
          [(a,) for a in arrays([0.0, 1.0, -1.5, 700.0, -800.0, 1000.0, -INF, NAN], 3)], trivial=tr, tol=1e-12)


# ------------------------------------------------------------------ higher-order functions, with a log of their calls

def hof(ctx, part):
    top = 4 if ctx.thorough else 3
    al = [0, 1, 2]
    deep = list(arrays(al, top))
    AI, AS = A("int"), A("string")
    LOGT = A(AI)

    def logged(body, params, ret):
        """A user function that logs its (integer) arguments and then gives body."""
        names = [list(p)[0] for p in params]
        ints = [n for n in names if n not in ("tab",)]
        return {"params": params, "ret": ret,
                "do": [{"cell": "log", "to": {"params": [{"old": LOGT}], "ret": LOGT, "do": {"a.append": ["old", {"new": ints, "type": AI}]}}}, body]}

    def engine(call, ret, fcns, fields):
        doc = {"input": {"type": "record", "name": "In", "fields": fields},
               "output": {"type": "record", "name": "Out", "fields": [{"name": "out", "type": ret}, {"name": "log", "type": LOGT}]},
               "cells": {"log": {"type": LOGT, "init": []}},
               "fcns": fcns,
               "action": [{"cell": "log", "to": {"value": [], "type": LOGT}},
                          {"let": {"out": call}},
                          {"new": {"out": "out", "log": {"cell": "log"}}, "type": "Out"}]}
        return make(doc)

    def go(name, call, ret, fcns, fields, cases, ref, logOf=True):
        e = engine(call, ret, fcns, fields)
        names = [f["name"] for f in fields]
        for c in cases:
            case = (name,) + tuple(c)
            if not ctx.want(case):
                continue
            got = run(e, dict(zip(names, c)))
            log = []
            want = expect(ref, log, *c)
            if c[0]:
                ctx.nontrivial += 1
            ctx.outcome((name, repr(want)))
            ctx.sample("{0}{1} -> {2} after calls {3}".format(name, show(c), show(want), show(log)), 1)
            if want[0] == "ok":
                ok = got[0] == "ok" and same(got[1]["out"], want[1]) and (not logOf or got[1]["log"] == log)
            else:
                ok = agree(got, want)
            if not ok:
                ctx.fail(case, "{0}{1} gives {2}, must give {3} with calls {4}".format(name, show(c), show(got), show(want), show(log)))
                if ctx.full():
                    return

    f_a = {"name": "a", "type": AI}
    f_b = {"name": "b", "type": AI}
    f_p = {"name": "p", "type": A("boolean")}
    f_t = {"name": "t", "type": AI}
    preds = [list(p) for p in itertools.product([False, True], repeat=3)]
    maps = [list(m) for m in itertools.product([0, 1, 2], repeat=3)]
    P1 = {"p1": logged(TAB_X, [{"x": "int"}, {"tab": A("boolean")}], "boolean")}
    # the index-taking predicate: true exactly for the listed items at even or odd positions, as the table says
    P2 = {"p2": logged({"if": {"==": [{"%": ["i", 2]}, 0]}, "then": TAB_X, "else": {"!": [TAB_X]}},
                       [{"i": "int"}, {"x": "int"}, {"tab": A("boolean")}], "boolean")}
    r1 = {"fcn": "u.p1", "fill": {"tab": "input.p"}}
    r2 = {"fcn": "u.p2", "fill": {"tab": "input.p"}}
    cs = [(a, p) for a in deep for p in preds]

    def tell(log, *xs):
        log.append(list(xs))

    if part == "predicates":
        def pr1(log, p):
            def f(x):
                log.append([x])
                return p[x]
            return f

        def pr2(log, p):
            def f(i, x):
                log.append([i, x])
                return p[x] if i % 2 == 0 else not p[x]
            return f

        def simple(name, ret, how):
            go(name, {name: ["input.a", r1]}, ret, P1, [f_a, f_p], cs, lambda log, a, p: how(a, pr1(log, p)))

        def first(a, f):
            for i in range(len(a)):
                if f(a[i]):
                    return i
            return -1

        def last(a, f):
            for i in range(len(a) - 1, -1, -1):
                if f(a[i]):
                    return i
            return -1

        def takeWhile(a, f):
            i = 0
            while i < len(a) and f(a[i]):
                i += 1
            return a[:i]

        def dropWhile(a, f):
            i = 0
            while i < len(a) and f(a[i]):
                i += 1
            return a[i:]

        def any_(a, f):
            return first(a, f) >= 0

        def all_(a, f):
            return first(a, lambda x: not f(x)) < 0
        simple("a.filter", AI, lambda a, f: [x for x in a if f(x)])
        simple("a.count", "int", lambda a, f: len([x for x in a if f(x)]))
        simple("a.contains", "boolean", any_)
        simple("a.index", "int", first)
        simple("a.rindex", "int", last)
        simple("a.takeWhile", AI, takeWhile)
        simple("a.dropWhile", AI, dropWhile)
        simple("a.any", "boolean", any_)
        simple("a.all", "boolean", all_)
        go("a.filterWithIndex", {"a.filterWithIndex": ["input.a", r2]}, AI, P2, [f_a, f_p], cs,
           lambda log, a, p: [x for i, x in enumerate(a) if pr2(log, p)(i, x)])
        # two arrays
        C2 = {"c2": logged({"==": [{"%": [{"+": [{"*": ["x", 2]}, "y"]}, 3]}, "k"]}, [{"x": "int"}, {"y": "int"}, {"k": "int"}], "boolean")}
        short = list(arrays(al, 3))

        def corr(log, a, b, k):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                log.append([x, y, k])
                if (x * 2 + y) % 3 != k:
                    return False
            return True
        f_k = {"name": "k", "type": "int"}
        go("a.corresponds", {"a.corresponds": ["input.a", "input.b", {"fcn": "u.c2", "fill": {"k": "input.k"}}]}, "boolean", C2,
           [f_a, f_b, f_k], [(a, b, k) for a in short for b in short for k in (0, 1)], corr)
        C3 = {"c3": logged({"!=": [{"%": [{"+": [{"+": ["x", "y"]}, "i"]}, 3]}, "k"]}, [{"i": "int"}, {"x": "int"}, {"y": "int"}, {"k": "int"}], "boolean")}

        def corrI(log, a, b, k):
            if len(a) != len(b):
                return False
            for i, (x, y) in enumerate(zip(a, b)):
                log.append([i, x, y, k])
                if (x + y + i) % 3 == k:
                    return False
            return True
        go("a.correspondsWithIndex", {"a.correspondsWithIndex": ["input.a", "input.b", {"fcn": "u.c3", "fill": {"k": "input.k"}}]}, "boolean", C3,
           [f_a, f_b, f_k], [(a, b, k) for a in short for b in short for k in (0, 1)], corrI)

    if part == "maps":
        M1 = {"m1": logged(TAB_X, [{"x": "int"}, {"tab": AI}], "int")}
        q1 = {"fcn": "u.m1", "fill": {"tab": "input.t"}}
        cm = [(a, t) for a in deep for t in maps]

        def m1(log, t):
            def f(x):
                log.append([x])
                return t[x]
            return f
        go("a.map", {"a.map": ["input.a", q1]}, AI, M1, [f_a, f_t], cm, lambda log, a, t: [m1(log, t)(x) for x in a])
        M2 = {"m2": logged({"+": [{"*": ["i", 10]}, TAB_X]}, [{"i": "int"}, {"x": "int"}, {"tab": AI}], "int")}
        q2 = {"fcn": "u.m2", "fill": {"tab": "input.t"}}

        def withIndex(log, a, t):
            out = []
            for i in range(len(a)):
                log.append([i, a[i]])
                out.append(i * 10 + t[a[i]])
            return out
        go("a.mapWithIndex", {"a.mapWithIndex": ["input.a", q2]}, AI, M2, [f_a, f_t], cm, withIndex)
        U = ["int", "null"]
        F1 = {"f1": logged({"if": {"==": [TAB_X, 0]}, "then": None, "else": TAB_X}, [{"x": "int"}, {"tab": AI}], U)}

        def fm(log, a, t):
            out = []
            for x in a:
                log.append([x])
                if t[x] != 0:
                    out.append(t[x])
            return out
        go("a.filterMap", {"a.filterMap": ["input.a", {"fcn": "u.f1", "fill": {"tab": "input.t"}}]}, AI, F1, [f_a, f_t], cm, fm)
        F2 = {"f2": logged({"if": {"==": [{"%": [{"+": ["i", TAB_X]}, 2]}, 0]}, "then": None, "else": TAB_X}, [{"i": "int"}, {"x": "int"}, {"tab": AI}], U)}

        def fmi(log, a, t):
            out = []
            for i, x in enumerate(a):
                log.append([i, x])
                if (i + t[x]) % 2:
                    out.append(t[x])
            return out
        go("a.filterMapWithIndex", {"a.filterMapWithIndex": ["input.a", {"fcn": "u.f2", "fill": {"tab": "input.t"}}]}, AI, F2, [f_a, f_t], cm, fmi)
        # the same with other types under the union: strings, arrays, maps, records
        for tname, typ, expr, pyf in (
                ("string", "string", {"s.join": [{"new": [["x"], ["y"]], "type": A("string")}, ["-"]]}, lambda x: "x-y"),
                ("array", A("int"), {"new": ["x", "x"], "type": A("int")}, lambda x: [x, x]),
                ("map", {"type": "map", "values": "int"}, {"new": {"map": "x", "u": 1}, "type": {"type": "map", "values": "int"}}, lambda x: {"map": x, "u": 1}),
                ("rec", {"type": "record", "name": "Rec", "fields": [{"name": "v", "type": "int"}]},
                 {"new": {"v": "x"}, "type": "Rec"}, lambda x: {"v": x}),
                ("nsrec", {"type": "record", "name": "Rec", "namespace": "com.ex", "fields": [{"name": "v", "type": "int"}]},
                 {"new": {"v": "x"}, "type": "com.ex.Rec"}, lambda x: {"v": x})):
            tref = typ if not isinstance(typ, dict) or typ["type"] != "record" else (typ.get("namespace", "") + "." + typ["name"]).lstrip(".")
            G = {"g": logged({"if": {"==": [TAB_X, 0]}, "then": None, "else": expr}, [{"x": "int"}, {"tab": AI}], [tref, "null"])}

            def gm(log, a, t, pyf=pyf):
                out = []
                for x in a:
                    log.append([x])
                    if t[x] != 0:
                        out.append(pyf(x))
                return out
            few = [(a, t) for a in arrays(al, 2) for t in maps[::4]]
            go("a.filterMap/" + tname, {"a.filterMap": ["input.a", {"fcn": "u.g", "fill": {"tab": "input.t"}}]}, A(typ), G, [f_a, f_t], few, gm)
        L1 = {"l1": logged({"a.subseq": [{"new": ["x", 7, 8], "type": AI}, 0, TAB_X]}, [{"x": "int"}, {"tab": AI}], AI)}

        def flat(log, a, t):
            out = []
            for x in a:
                log.append([x])
                out += [x, 7, 8][:t[x]]
            return out
        go("a.flatMap", {"a.flatMap": ["input.a", {"fcn": "u.l1", "fill": {"tab": "input.t"}}]}, AI, L1, [f_a, f_t], cm, flat)
        L2 = {"l2": logged({"a.subseq": [{"new": ["i", "x", 8], "type": AI}, 0, TAB_X]}, [{"i": "int"}, {"x": "int"}, {"tab": AI}], AI)}

        def flati(log, a, t):
            out = []
            for i, x in enumerate(a):
                log.append([i, x])
                out += [i, x, 8][:t[x]]
            return out
        go("a.flatMapWithIndex", {"a.flatMapWithIndex": ["input.a", {"fcn": "u.l2", "fill": {"tab": "input.t"}}]}, AI, L2, [f_a, f_t], cm, flati)
        GB = {"k": logged({"if": {"==": [TAB_X, 0]}, "then": {"string": "zero"}, "else": {"if": {"==": [TAB_X, 1]}, "then": {"string": ""}, "else": {"string": "two"}}},
                          [{"x": "int"}, {"tab": AI}], "string")}

        def group(log, a, t):
            out = {}
            for x in a:
                log.append([x])
                k = ("zero", "", "two")[t[x]]
                out[k] = out.get(k, []) + [x]
            return out
        go("a.groupby", {"a.groupby": ["input.a", {"fcn": "u.k", "fill": {"tab": "input.t"}}]}, {"type": "map", "values": AI}, GB, [f_a, f_t], cm, group)

    if part == "folds":
        # 3x + 2y mod 7 is neither commutative nor associative
        R = {"r": logged({"%": [{"+": [{"*": [3, "x"]}, {"*": [2, "y"]}]}, 7]}, [{"x": "int"}, {"y": "int"}], "int")}
        al5 = [0, 1, 2]
        ds = [(a,) for a in arrays(al5, top + 1)]

        def op(log, x, y):
            log.append([x, y])
            return (3 * x + 2 * y) % 7

        def reduce_(log, a):
            nonempty(a, 15670)
            v = a[0]
            for x in a[1:]:
                v = op(log, v, x)
            return v

        def reduceRight(log, a):
            nonempty(a, 15680)
            v = a[-1]
            for x in a[:-1][::-1]:
                v = op(log, x, v)
            return v
        go("a.reduce", {"a.reduce": ["input.a", {"fcn": "u.r"}]}, "int", R, [f_a], ds, reduce_)
        go("a.reduceRight", {"a.reduceRight": ["input.a", {"fcn": "u.r"}]}, "int", R, [f_a], ds, reduceRight)
        f_z = {"name": "z", "type": "int"}

        def fold_(log, a, z):
            for x in a:
                z = op(log, z, x)
            return z

        def foldRight(log, a, z):
            for x in a[::-1]:
                z = op(log, x, z)
            return z
        dz = [(a[0], z) for a in ds for z in (0, 1, 5)]
        go("a.fold", {"a.fold": ["input.a", "input.z", {"fcn": "u.r"}]}, "int", R, [f_a, f_z], dz, fold_)
        go("a.foldRight", {"a.foldRight": ["input.a", "input.z", {"fcn": "u.r"}]}, "int", R, [f_a, f_z], dz, foldRight)
        short = list(arrays(al, 3))

        def zipm(code, withIndex):
            def ref(log, *arrs):
                if len(set(len(x) for x in arrs)) != 1:
                    raise Err(code)
                out = []
                for i in range(len(arrs[0])):
                    row = ([i] if withIndex else []) + [x[i] for x in arrs]
                    log.append(row)
                    out.append(int("1" + "".join(map(str, row))))
                return out
            return ref

        def digits(names):
            e = 1
            for n in names:
                e = {"+": [{"*": [e, 10]}, n]}
            return e
        for k in (2, 3, 4):
            src = short if k == 2 else list(arrays(al[:2], 2)) if k == 4 else list(arrays(al, 2)) if ctx.thorough else list(arrays(al[:2], 2)) + [[0, 1, 2]]
            names = ["x", "y", "z", "w"][:k]
            fields = [{"name": n, "type": AI} for n in "abcd"[:k]]
            args = ["input." + n for n in "abcd"[:k]]
            Z = {"z": logged(digits(names), [{n: "int"} for n in names], "int"),
                 "zi": logged(digits(["i"] + names), [{n: "int"} for n in ["i"] + names], "int")}
            cz = list(itertools.product(src, repeat=k))
            go("a.zipmap", {"a.zipmap": args + [{"fcn": "u.z"}]}, AI, Z, fields, cz, zipm(15650, False))
            go("a.zipmapWithIndex", {"a.zipmapWithIndex": args + [{"fcn": "u.zi"}]}, AI, Z, fields, cz, zipm(15660, True))


def selections(ctx):
    al = [0, 1, 2]
    top = 5 if ctx.thorough else 4
    deep = list(arrays(al, top))
    tr = lambda a, *r: not a

    def windows(a, size, step):
        if size < 1:
            raise Err(15770)
        if step < 1:
            raise Err(15771)
        return [a[s:s + size] for s in range(0, len(a), step) if s + size <= len(a)]
    sweep(ctx, "a.slidingWindow", [A("int"), "int", "int"], A(A("int")), windows,
          ((a, s, t) for a in deep + [list(range(9)), list(range(10))] for s in range(-1, 7) for t in range(-1, 7)), trivial=tr)

    def combos(a, size):
        if size < 1:
            raise Err(15780)
        out = []

        def rec(start, acc):
            if len(acc) == size:
                out.append(acc)
                return
            for i in range(start, len(a)):
                rec(i + 1, acc + [a[i]])
        rec(0, [])
        return out
    bag = lambda got, want, args: got[0] == want[0] and (sorted(got[1]) == sorted(want[1]) if got[0] == "ok" else got[1] == want[1])
    sweep(ctx, "a.combinations", [A("int"), "int"], A(A("int")), combos,
          ((a, s) for a in deep + [list(range(6))] for s in range(-1, 7)), trivial=tr, judge=bag)

    def perms(a):
        if not a:
            return [[]]
        return [[a[i]] + p for i in range(len(a)) for p in perms(a[:i] + a[i + 1:])]
    sweep(ctx, "a.permutations", [A("int")], A(A("int")), perms, ((a,) for a in deep), trivial=tr, judge=bag)


def lt(expr, t):
    return {"params": [{"x": t}, {"y": t}], "ret": "boolean", "do": [expr]}


REC = {"type": "record", "name": "Rec", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": "string", "order": "descending"},
                                                   {"name": "c", "type": "int", "order": "ignore"}]}
RECS = [{"a": 0, "b": "y", "c": 1}, {"a": 0, "b": "x", "c": 2}, {"a": 1, "b": "x", "c": 3}]
RECS2 = [{"a": 0, "b": "y", "c": 1}, {"a": 0, "b": "y", "c": 2}, {"a": 0, "b": "x", "c": 3}]


def tasks(tier):
    ints = [0, 1, 2]
    strs = ["", "a", "b\u20ac"]
    out = []
    for t, al in (("int", ints), ("string", strs)):
        out.append(("positions/" + t, positions, (t, al)))
        out.append(("hay/" + t, hay, (t, al)))
        out.append(("sets/" + t, sets, (t, al)))
    out.append(("hay/double", hay, ("double", [0.0, 1.5, -1.5])))
    out.append(("hay/rec", hay, (REC, RECS)))
    out.append(("sets/rec", sets, (REC, RECS)))
    out.append(("orders/int", orders, ("int", [-1, 0, 2], lambda x: x,
                [("rev", lambda x: -x, lt({"<": ["y", "x"]}, "int")),
                 ("parity", lambda x: x * x % 3, lt({"<": [{"%": [{"*": ["x", "x"]}, 3]}, {"%": [{"*": ["y", "y"]}, 3]}]}, "int")),
                 ("none", lambda x: 0, lt(False, "int"))], False)))
    out.append(("orders/string", orders, ("string", ["B", "a", "aa"], lambda x: x,
                [("len", len, lt({"<": [{"s.len": ["x"]}, {"s.len": ["y"]}]}, "string"))], False)))
    out.append(("orders/double", orders, ("double", [-1.5, 0.0, 2.25], lambda x: x, [], True)))
    out.append(("orders/float", orders, ("float", [-1.5, 0.0, 2.25], lambda x: x, [], True)))
    out.append(("orders/boolean", orders, ("boolean", [False, True], lambda x: x, [], False)))
    out.append(("orders/enum", orders, ({"type": "enum", "name": "E", "symbols": ["zz", "mm", "aa"]}, ["zz", "mm", "aa"],
                                        lambda x: ["zz", "mm", "aa"].index(x), [], False)))
    desc = lambda r: (r["a"], tuple(-ord(c) for c in r["b"]))
    out.append(("orders/rec", orders, (REC, RECS, desc, [], False)))
    out.append(("orders/rec2", orders, (REC, RECS2, desc, [], False)))
    out.append(("numbers", numbers, ()))
    for p in ("predicates", "maps", "folds"):
        out.append(("hof/" + p, hof, (p,)))
    out.append(("selections", selections, ()))
    return out
