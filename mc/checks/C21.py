"""C21: map functions, on all small maps, against independent definitions."""
import base64
import itertools

from mc.eng import *

LEVEL = "exploration"
RULE = ("a case is one call of one map function on the real engine: all maps over four keys with three values (in both insertion orders), all pairs of them for functions of two maps, all small other arguments; non-trivial: a nonempty map")
ASSUMPTIONS = ["the order of the items of keys, values, split and fromset is left open (maps have none)", "which of several values of one key survives in flatMap is left open", "a value's key in a set is the base64 text of its Avro encoding"]

KEYS = ["a", "b", "c", "z\u20ac"]


def M(t):
    return {"type": "map", "values": t}


def A(t):
    return {"type": "array", "items": t}


def maps(values, keys=KEYS, orders=True):
    for k in range(len(keys) + 1):
        for ks in itertools.combinations(keys, k):
            for vs in itertools.product(values, repeat=k):
                yield dict(zip(ks, vs))
                if orders and k > 1:
                    yield dict(zip(ks[::-1], vs[::-1]))


def nonempty(m, code):
    if not m:
        raise Err(code)


def fcn(params, ret, do):
    return ("fcn", {"params": [{k: v} for k, v in params], "ret": ret, "do": do})


trivial = lambda m, *r: not m
bag = lambda got, want, args: agree(got, want) if got[0] != "ok" or want[0] != "ok" else sorted(map(repr, got[1])) == sorted(map(repr, want[1]))


def zigzag(n):
    n = n * 2 if n >= 0 else -n * 2 - 1
    out = b""
    while n > 127:
        out += bytes([n % 128 + 128])
        n //= 128
    return out + bytes([n])


def encoded(t, x):
    """The Avro encoding."""
    if isinstance(t, list):
        for i, b in enumerate(t):
            if b == "null" and x is None:
                return zigzag(i)
            if x is not None and b in x:
                return zigzag(i) + encoded(b, x[b])
    if isinstance(t, dict):
        if t["type"] == "array":
            return (zigzag(len(x)) + b"".join(encoded(t["items"], y) for y in x) if x else b"") + b"\0"
        if t["type"] == "record":
            return b"".join(encoded(f["type"], x[f["name"]]) for f in t["fields"])
        if t["type"] == "enum":
            return zigzag(t["symbols"].index(x))
    if t in ("int", "long"):
        return zigzag(x)
    if t == "bytes":
        return zigzag(len(x)) + x
    if t == "boolean":
        return b"\1" if x else b"\0"
    if t == "string":
        return zigzag(len(x.encode("utf-8"))) + x.encode("utf-8")
    if t == "double":
        import struct
        return struct.pack("<d", x)
    if t == "float":
        import struct
        return struct.pack("<f", x)
    if t == "null":
        return b""
    raise KeyError(t)


def setKey(t, x):
    return base64.b64encode(encoded(t, x)).decode()


# ---------------------------------------------------------------- one map
def single(ctx, t, values):
    MT = M(t)
    deep = list(maps(values, KEYS[:4] if ctx.thorough else KEYS[:3] + KEYS[3:] if len(values) < 3 else KEYS[:3]))
    short = list(maps(values[:2], ["a", "c", "z\u20ac"]))
    one = [(m,) for m in deep]

    def go(name, types, ret, ref, cases, **kw):
        sweep(ctx, name, types, ret, ref, cases, trivial=trivial, **kw)
    go("map.len", [MT], "int", lambda m: sum(1 for k in m), one)
    go("map.keys", [MT], A("string"), lambda m: list(m), one, judge=bag)
    go("map.values", [MT], A(t), lambda m: [m[k] for k in m], one, judge=bag)
    go("map.split", [MT], A(MT), lambda m: [{k: m[k]} for k in m], one, judge=bag)
    go("map.containsKey", [MT, "string"], "boolean", lambda m, k: any(k == x for x in m), itertools.product(deep, KEYS + ["", "d"]))
    go("map.containsValue", [MT, t], "boolean", lambda m, v: any(v == m[k] for k in m), itertools.product(deep, values))
    go("map.add", [MT, "string", t], MT, lambda m, k, v: dict([(x, m[x]) for x in m] + [(k, v)]), itertools.product(deep, KEYS + ["", "d", "self", "m"], values))
    go("map.remove", [MT, "string"], MT, lambda m, k: dict((x, m[x]) for x in m if x != k), itertools.product(deep, KEYS + ["", "d"]))
    lists = [list(x) for n in range(3) for x in itertools.product(["a", "c", "d", "z\u20ac"], repeat=n)]
    go("map.only", [MT, A("string")], MT, lambda m, ks: dict((x, m[x]) for x in m if x in ks), itertools.product(deep, lists))
    go("map.except", [MT, A("string")], MT, lambda m, ks: dict((x, m[x]) for x in m if x not in ks), itertools.product(deep, lists))

    def join(a):
        out = {}
        for m in a:
            for k in m:
                out[k] = m[k]
        return out
    tiny = list(maps(values[:2], ["a", "b"], False))
    sweep(ctx, "map.join", [A(MT)], MT, join, [(list(x),) for n in range(4) for x in itertools.product(tiny, repeat=n)])
    pairs = list(itertools.product(short, short))
    go("map.update", [MT, MT], MT, lambda a, b: join([a, b]), pairs)
    go("map.union", [MT, MT], MT, lambda a, b: join([a, b]) if all(a[k] == b[k] for k in a if k in b) else SKIP, pairs)
    go("map.intersection", [MT, MT], MT, lambda a, b: dict((k, a[k]) for k in a if k in b) if all(a[k] == b[k] for k in a if k in b) else SKIP, pairs)
    go("map.diff", [MT, MT], MT, lambda a, b: dict((k, a[k]) for k in a if k not in b), pairs)
    go("map.symdiff", [MT, MT], MT, lambda a, b: dict([(k, a[k]) for k in a if k not in b] + [(k, b[k]) for k in b if k not in a]), pairs)
    go("map.subset", [MT, MT], "boolean", lambda a, b: all(k in b for k in a), pairs)
    go("map.disjoint", [MT, MT], "boolean", lambda a, b: not any(k in b for k in a), pairs)
    # sets
    arrays = [list(x) for n in range(4 if len(values) < 4 else 3) for x in itertools.product(values, repeat=n)]
    sets = [dict((setKey(t, v), v) for v in a) for a in arrays]
    sweep(ctx, "map.toset", [A(t)], MT, lambda a: dict((setKey(t, v), v) for v in a), [(a,) for a in arrays])
    go("map.fromset", [MT], A(t), lambda m: [m[k] for k in m], [(s,) for s in sets], judge=bag)
    go("map.in", [MT, t], "boolean", lambda s, v: any(v == s[k] for k in s), itertools.product(sets, values))
    go("map.add", [MT, t], MT, lambda s, v: dict([(k, s[k]) for k in s] + [(setKey(t, v), v)]), itertools.product(sets + short, values), label="map.add/set")
    call = make({"input": A(t), "output": A(t), "action": [{"map.fromset": [{"map.toset": ["input"]}]}]})
    for a in arrays:
        if ctx.want(["set and back", a]):
            got = outcome(call.action, a)
            distinct = [x for i, x in enumerate(a) if x not in a[:i]]
            if got[0] != "ok" or sorted(map(repr, got[1])) != sorted(map(repr, distinct)):
                ctx.fail(["set and back", a], "the set of {0} holds {1}".format(a, got))


# ---------------------------------------------------------------- selections
def extremes(ctx, t, values, rank, lts):
    MT = M(t)
    deep = list(maps(values, KEYS if ctx.thorough or len(values) < 3 else KEYS[:3]))
    deep += [dict(zip(ks, vs)) for ks in ([("d", "b", "a", "c"), ("b", "d", "c", "a", "e")]) for vs in itertools.product(values[:2], repeat=len(ks))]
    ns = [-2**31, -1, 0, 1, 2, 3, 4, 5, 2**31 - 1]

    def best(m, n, key, sign):
        return [k for k in sorted(m, key=lambda k: (sign * key(m[k]), [ord(c) for c in k]))][:n]
    for name, code, sign in (("max", 26120, -1), ("min", 26130, 1)):
        def arg(m, code=code, sign=sign):
            nonempty(m, code)
            return best(m, 1, rank, sign)[0]

        def argN(m, n, code=code + 40, sign=sign):
            nonempty(m, code)
            if n < 0:
                raise Err(code + 1)
            return best(m, n, rank, sign)
        sweep(ctx, "map.arg" + name, [MT], "string", arg, [(m,) for m in deep], trivial=trivial)
        sweep(ctx, "map.arg%sN" % name, [MT, "int"], A("string"), argN, itertools.product(deep, ns), trivial=trivial)
        for label, key, do in lts:
            f = fcn([("x", t), ("y", t)], "boolean", do)

            def argLT(m, code=code + 20, sign=sign, key=key):
                nonempty(m, code)
                return best(m, 1, key, sign)[0]

            def argNLT(m, n, code=code + 60, sign=sign, key=key):
                nonempty(m, code)
                if n < 0:
                    raise Err(code + 1)
                return best(m, n, key, sign)
            sweep(ctx, "map.arg%sLT" % name, [MT, f], "string", argLT, [(m,) for m in deep], trivial=trivial, label="map.arg%sLT/%s" % (name, label))
            sweep(ctx, "map.arg%sNLT" % name, [MT, "int", f], A("string"), argNLT, itertools.product(deep, ns), trivial=trivial, label="map.arg%sNLT/%s" % (name, label))


# ---------------------------------------------------------------- functions of functions
def higher(ctx):
    deep = list(maps([0, 1, 2], KEYS[:3] if not ctx.thorough else KEYS))
    one = [(m,) for m in deep]
    short = list(maps([0, 1], ["a", "c", "z\u20ac"]))
    X, K = ("x", "int"), ("k", "string")
    MI = M("int")

    def go(name, types, ret, ref, cases, label, **kw):
        sweep(ctx, name, types, ret, ref, cases, trivial=trivial, label=name + "/" + label, **kw)
    preds = [("pos", lambda x: x > 0, {">": ["x", 0]}), ("all", lambda x: True, True), ("none", lambda x: False, False), ("one", lambda x: x == 1, {"==": ["x", 1]})]
    kpreds = [("late", lambda k: k > "a", {">": ["k", {"string": "a"}]}), ("all", lambda k: True, True), ("none", lambda k: False, False), ("c", lambda k: k == "c", {"==": ["k", {"string": "c"}]})]
    both = [("late or one", lambda k, x: k > "b" or x == 1, {"||": [{">": ["k", {"string": "b"}]}, {"==": ["x", 1]}]}), ("a and pos", lambda k, x: k == "a" and x > 0, {"&&": [{"==": ["k", {"string": "a"}]}, {">": ["x", 0]}]}), ("all", lambda k, x: True, True), ("none", lambda k, x: False, False)]
    for n, f, do in preds:
        go("map.containsValue", [MI, fcn([X], "boolean", do)], "boolean", lambda m, f=f: any(f(m[k]) for k in m), one, n)
        go("map.filter", [MI, fcn([X], "boolean", do)], MI, lambda m, f=f: dict((k, m[k]) for k in m if f(m[k])), one, n)
        U = ["int", "null"]
        for U in (["int", "null"], ["null", "int"]):
            go("map.filterMap", [MI, fcn([X], U, {"if": do, "then": {"+": ["x", 10]}, "else": None})], MI, lambda m, f=f: dict((k, m[k] + 10) for k in m if f(m[k])), one, n + str(U))
    for n, f, do in kpreds:
        go("map.containsKey", [MI, fcn([K], "boolean", do)], "boolean", lambda m, f=f: any(f(k) for k in m), one, n)
    for n, f, do in both:
        go("map.filterWithKey", [MI, fcn([K, X], "boolean", do)], MI, lambda m, f=f: dict((k, m[k]) for k in m if f(k, m[k])), one, n)
        go("map.filterMapWithKey", [MI, fcn([K, X], ["string", "null"], {"if": do, "then": "k", "else": None})], M("string"), lambda m, f=f: dict((k, k) for k in m if f(k, m[k])), one, n)
    # results that look like tags
    asTag = lambda args, got, want: "filterMap:value-read-as-tag" if got == ("ok", dict((k, v) for k, v in args[0].items() if v > 0)) else None
    T = {"type": "map", "values": "int"}
    tagged = fcn([X], [T, "null"], {"if": {">": ["x", 0]}, "then": {"new": {"map": "x"}, "type": T}, "else": None})
    go("map.filterMap", [MI, tagged], M(T), lambda m: dict((k, {"map": m[k]}) for k in m if m[k] > 0), one, "map in union",  key=asTag)
    R = {"type": "record", "name": "Rec", "fields": [{"name": "Rec", "type": "int"}]}
    go("map.filterMapWithKey", [MI, fcn([K, X], ["Rec", "null"], {"if": {">": ["x", 0]}, "then": {"new": {"Rec": "x"}, "type": "Rec"}, "else": None})], M(R), lambda m: dict((k, {"Rec": m[k]}) for k in m if m[k] > 0), one, "record in union", key=asTag)
    go("map.map", [MI, fcn([X], "string", {"cast.fanoutBoolean": ["x"]} if False else {"if": {">": ["x", 0]}, "then": {"string": "p"}, "else": {"string": "q"}})], M("string"), lambda m: dict((k, "p" if m[k] > 0 else "q") for k in m), one, "words")
    go("map.map", [MI, fcn([X], "int", {"*": ["x", "x"]})], MI, lambda m: dict((k, m[k] ** 2) for k in m), one, "square")
    go("map.mapWithKey", [MI, fcn([K, X], "string", {"s.join": [{"type": A("string"), "new": ["k", {"s.int": ["x"]}]}, {"string": "-"}]})], M("string"), lambda m: dict((k, "%s-%d" % (k, m[k])) for k in m), one, "text")

    def flat(f):
        def ref(m):
            out = {}
            for k in m:
                for k2, v2 in f(k, m[k]).items():
                    if k2 in out and out[k2] != v2:
                        return SKIP
                    out[k2] = v2
            return out
        return ref
    digit = {"s.int": ["x"]}
    go("map.flatMap", [MI, fcn([X], MI, {"map.add": [{"map.add": [{"type": MI, "value": {}}, digit, "x"]}, {"string": "n"}, 7]})], MI, flat(lambda k, x: {str(x): x, "n": 7}), one, "digits")
    go("map.flatMap", [MI, fcn([X], MI, {"if": {">": ["x", 0]}, "then": {"type": MI, "value": {"p": 1, "q": 2}}, "else": {"type": MI, "value": {}}})], MI, flat(lambda k, x: {"p": 1, "q": 2} if x > 0 else {}), one, "some")
    go("map.flatMapWithKey", [MI, fcn([K, X], MI, {"map.add": [{"map.add": [{"type": MI, "value": {}}, "k", "x"]}, {"s.concat": ["k", "k"]}, {"u-": "x"}]})], MI, flat(lambda k, x: {k: x, k + k: -x}), one, "double")
    # several maps
    S = ("y", "int")
    pairs = list(itertools.product(short, short))
    go("map.corresponds", [MI, MI, fcn([X, S], "boolean", {"<=": ["x", "y"]})], "boolean", lambda a, b: set(a) == set(b) and all(a[k] <= b[k] for k in a), pairs, "le")
    go("map.correspondsWithKey", [MI, MI, fcn([K, X, S], "boolean", {"||": [{"==": ["k", {"string": "c"}]}, {"<": ["x", "y"]}]})], "boolean", lambda a, b: set(a) == set(b) and all(k == "c" or a[k] < b[k] for k in a), pairs, "c or lt")

    def zipped(code, f):
        def ref(*ms):
            if any(set(m) != set(ms[0]) for m in ms):
                raise Err(code)
            return dict((k, f(k, *[m[k] for m in ms])) for k in ms[0])
        return ref
    names = ["x", "y", "z", "w"]
    for n in (2, 3, 4):
        args = list(itertools.product(*([list(maps([0, 1], ["a", "c"])), list(maps([2, 3], ["a", "c"])), list(maps([4], ["a", "c", "b"])), list(maps([5, 6], ["a", "c"])) if ctx.thorough else list(maps([5], ["c", "a"]))][:n])))
        if n == 2:
            args += pairs
        total = names[0]
        for v in names[1:n]:
            total = {"+": [{"*": [total, 10]}, v]}

        def number(k, *xs):
            out = 0
            for x in xs:
                out = out * 10 + x
            return out
        go("map.zipmap", [MI] * n + [fcn([(v, "int") for v in names[:n]], "int", total)], MI, zipped(26370, number), args, "%d" % n)
        go("map.zipmapWithKey", [MI] * n + [fcn([K] + [(v, "int") for v in names[:n]], "string", {"s.concat": ["k", {"s.int": [total]}]})], M("string"), zipped(26380, lambda k, *xs: k + str(number(k, *xs))), args, "%d" % n)
    # whether the function given is a user's function, with one argument filled, makes no difference
    fcns = {"add": {"params": [{"x": "int"}, {"n": "int"}], "ret": "int", "do": {"+": ["x", "n"]}}}
    sweep(ctx, "map.map", [MI, ("fcn", {"fcn": "u.add", "fill": {"n": 5}})], MI, lambda m: dict((k, m[k] + 5) for k in m), one, fcns=fcns, label="map.map/fill")
    sweep(ctx, "map.map", [M("double"), ("fcn", {"fcn": "m.sqrt"})], M("double"), lambda m: dict((k, m[k] ** 0.5) for k in m), [(m,) for m in maps([2.25, 0.0, 4.0], KEYS[:3])], label="map.map/library")


REC = {"type": "record", "name": "Item", "fields": [{"name": "n", "type": "int"}, {"name": "s", "type": "string"}]}
ENUM = {"type": "enum", "name": "En", "symbols": ["zz", "aa"]}


def tasks(tier):
    out = []
    for label, t, values in (("int", "int", [0, -1, 300]), ("string", "string", ["", "a", "b\u20ac"]), ("boolean", "boolean", [True, False]), ("double", "double", [0.0, -1.5, 1e300]), ("array", A("int"), [[], [0], [1, 0]]), ("record", REC, [{"n": 0, "s": "x"}, {"n": 1, "s": "x"}, {"n": 0, "s": ""}]),
                             ("enum", ENUM, ["zz", "aa"]), ("union", ["int", "null", "string"], [{"int": 1}, None, {"string": "x"}]), ("bytes", "bytes", [b"", b"a\xff"]), ("long", "long", [2**40, -2**63]), ("float", "float", [0.5, -2.0])):
        out.append(("single/" + label, single, (t, values)))
    lt = lambda a, b: {"<": [a, b]}
    out.append(("extremes/int", extremes, ("int", [-1, 0, 2], lambda x: x, [("lt", lambda x: x, lt("x", "y")), ("rev", lambda x: -x, lt("y", "x")), ("square", lambda x: x * x, lt({"*": ["x", "x"]}, {"*": ["y", "y"]})), ("none", lambda x: 0, False)])))
    out.append(("extremes/string", extremes, ("string", ["B", "a", "aa"], lambda s: sum((ord(c) + 1) / 1000.0 ** (i + 1) for i, c in enumerate(s)), [("len", len, lt({"s.len": "x"}, {"s.len": "y"}))])))
    out.append(("extremes/double", extremes, ("double", [-1.5, 0.0, 2.25], lambda x: x, [("lt", lambda x: x, lt("x", "y"))])))
    out.append(("extremes/enum", extremes, (ENUM, ["zz", "aa"], lambda x: ["zz", "aa"].index(x), [])))
    out.append(("extremes/boolean", extremes, ("boolean", [True, False], lambda x: int(x), [])))
    out.append(("extremes/record", extremes, (REC, [{"n": 0, "s": "x"}, {"n": 1, "s": "x"}, {"n": 0, "s": ""}], lambda r: 2 * r["n"] + (r["s"] == "x"), [("n", lambda r: r["n"], lt("x.n", "y.n"))])))
    out.append(("higher", higher, ()))
    return out
