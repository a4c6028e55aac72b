"""C08: type acceptance is a sound preorder and fits the values."""
import itertools

from titus.datatype import (AvroType, AvroPlaceholder, AvroFilledPlaceholder, AvroTypeBuilder, ExceptionType, FcnType, ForwardDeclarationParser, jsonNodeToAvroType, jsonToAvroType, parseAvroType)
from titus.signature import IncompatibleTypes, LabelData
import titus.P as P

from mc.hist import *
from mc import universe as U

LEVEL = "exploration"
RULE = ("accepts: every pair of types of the universe and of variants of its named types, against a coinductive reference; transitive: every triple; equal: every pair, with other spellings; values: every value of every "
        "accepted pair; merged: every pair and triple; printed: every type by every printer, and every order of declarations; functions: every pair of function types of up to two parameters; engines: every pair of "
        "types in every position of a document where a value of one stands for the other; non-trivial: pairs of different types")
ASSUMPTIONS = ["one name stands for one type within a document", "a type of no namespace is not nested in one with a namespace (Avro cannot name it there)"]


def canon(t, env, ns="", open_=()):
    """A comparable form with full names; recursive references by name."""
    kind, t, name, inner = env.resolve(t, ns)
    if kind == "union":
        return ("union",) + tuple(canon(x, env, ns, open_) for x in t)
    if kind == "array":
        return ("array", canon(t["items"], env, ns, open_))
    if kind == "map":
        return ("map", canon(t["values"], env, ns, open_))
    if kind == "fixed":
        return ("fixed", name, t["size"])
    if kind == "enum":
        return ("enum", name, tuple(t["symbols"]))
    if kind == "record":
        if name in open_:
            return ("ref", name)
        return ("record", name) + tuple((f["name"], canon(f["type"], env, inner, open_ + (name,)), repr(f.get("default", "<none>")), f.get("order", "ascending")) for f in t["fields"])
    return kind


def canonical(t):
    return canon(t, U.Env(t))


WIDER = {"long": ("int",), "float": ("int", "long"), "double": ("int", "long", "float")}


def accepts(x, y):
    return acc(x, U.Env(x), "", y, U.Env(y), "", frozenset())


def acc(x, ex, nx, y, ey, ny, open_):
    kx, x, fx, ix = ex.resolve(x, nx)
    ky, y, fy, iy = ey.resolve(y, ny)
    go = lambda a, b, na=nx, nb=ny, o=open_: acc(a, ex, na, b, ey, nb, o)
    if ky == "union":
        return all(go(x, b) for b in y)
    if kx == "union":
        return any(go(a, y) for a in x)
    if kx != ky:
        return ky in WIDER.get(kx, ())
    if kx == "array":
        return go(x["items"], y["items"])
    if kx == "map":
        return go(x["values"], y["values"])
    if kx in ("fixed", "enum", "record") and fx != fy:
        return False
    if kx == "fixed":
        return x["size"] == y["size"]
    if kx == "enum":
        return set(y["symbols"]) <= set(x["symbols"])
    if kx == "record":
        if fx in open_:
            return True
        mine = dict((f["name"], f) for f in y["fields"])
        for f in x["fields"]:
            if f["name"] not in mine:
                if "default" not in f:
                    return False
            elif not acc(f["type"], ex, ix, mine[f["name"]]["type"], ey, iy, open_ | {fx}):
                return False
        return True
    return True


VARIANTS = [
    {"type": "enum", "name": "Color", "symbols": ["red"]}, {"type": "enum", "name": "Color", "symbols": ["blue", "green", "red"]}, {"type": "enum", "name": "Color", "symbols": ["red", "green", "blue", "black"]},
    {"type": "enum", "name": "Color", "namespace": "com.x", "symbols": ["red", "green", "blue"]}, {"type": "fixed", "name": "Two", "size": 3}, {"type": "fixed", "name": "Two", "namespace": "com.x", "size": 2},
    {"type": "fixed", "name": "Color", "size": 2}, {"type": "record", "name": "Color", "fields": []},
    U.rec("Rec", ("x", "int")), U.rec("Rec", ("y", "string"), ("x", "int")), U.rec("Rec", ("x", "long"), ("y", "string")), U.rec("Rec", ("x", "int"), ("y", "bytes")), U.rec("Rec", ("x", "int"), ("y", "string"), ("z", "null")),
    U.rec("Rec", ("x", ["int", "null"]), ("y", ["null", "string"])), U.rec("Rec"), U.rec("Rec", {"name": "x", "type": "int", "default": 3}, {"name": "y", "type": "string", "default": ""}),
    U.rec("Rec", {"name": "x", "type": ["null", "int"], "default": None}), U.rec("Rec", {"name": "q", "type": "boolean", "default": False}, ("x", "double")),
    U.rec("Tree", ("v", "long"), ("next", ["null", "Tree"])), U.rec("Tree", ("v", "int"), ("next", ["Tree", "null"])), U.rec("Tree", ("v", "int"), ("next", ["null", "int"])), U.rec("Tree", ("v", "int"), ("next", ["null", "Tree", "string"])),
    U.rec("Tree", ("v", "int"), ("next", "null")), U.rec("Tree", ("v", "int"), ("next", ["null", U.rec("Other", ("v", "int"), ("next", ["null", "Tree"]))])),
    U.rec("A", ("b", ["null", U.rec("B", ("a", ["null", "A"]), ("i", "int"))])), U.rec("A", ("b", ["null", U.rec("B", ("a", ["null", "A"]), ("i", "long"))])), U.rec("A", ("b", ["null", U.rec("B", ("a", ["null", "A"]), ("i", "string"))])),
    U.rec("B", ("a", ["null", U.rec("A", ("b", ["null", "B"]))]), ("i", "int")), U.rec("A", ("b", ["null", U.rec("B", ("a", ["null", "A", "int"]), ("i", "int"))]), ("c", "int")),
    U.arr(U.rec("Rec", ("x", "int"))), U.mp(U.rec("Rec", ("x", "long"), ("y", "string"))), ["null", U.rec("Rec", ("x", "long"), ("y", "string"))], ["long", "string"], ["double", "string", "null"], ["float", "double"],
    ["int", "long", "float", "double"], [U.arr("double"), "null"], [U.arr(["int", "null"]), U.mp("int")], U.arr(["double", "null"]), U.mp(["null", "string", "int"]), U.arr(U.arr("long")), U.arr(U.arr(["int", "string"])),
    ["null"], ["int"], U.arr(["int"]),
]


def types(deep):
    base = U.universe(deep)
    return base, base + VARIANTS


def parse(t):
    return jsonNodeToAvroType(once(t))


def pairs(ctx, part, parts):
    base, every = types(ctx.thorough)
    parsed = [parse(t) for t in every]
    sizes = len(every)
    for i in range(part, sizes, parts):
        for j in range(sizes):
            case = ["accepts", i, j]
            if not ctx.want(case):
                continue
            want = accepts(every[i], every[j])
            got = outcome(parsed[i].accepts, parsed[j])
            ctx.outcome((i, j, want))
            if i != j:
                ctx.nontrivial += 1
            if got != ("ok", want):
                ctx.fail(case, "%s accepts %s gives %s, should be %s" % (every[i], every[j], show(got), want))
            for other in (ExceptionType(), FcnType([parsed[j]], parsed[i])):
                if j == 0:
                    got = outcome(parsed[i].accepts, other)
                    if got != ("ok", False):
                        ctx.fail(case, "%s accepts %s gives %s" % (every[i], other, show(got)))
                    got = outcome(other.accepts, parsed[i])
                    if got != ("ok", False):
                        ctx.fail(case, "%s accepts %s gives %s" % (other, every[i], show(got)))
            if ctx.full():
                return


def preorder(ctx):
    """On what the code says: reflexive, transitive, and equality is finer than acceptance both ways."""
    base, every = types(ctx.thorough)
    every = [t for t in every if '"default"' not in json.dumps(t)]
    parsed = [parse(t) for t in every]
    n = len(every)
    below = [set(j for j in range(n) if parsed[i].accepts(parsed[j])) for i in range(n)]
    for i in range(n):
        if ctx.want(["reflexive", i]) and i not in below[i]:
            ctx.fail(["reflexive", i], "%s does not accept itself" % every[i])
        for j in below[i]:
            case = ["transitive", i, j]
            if ctx.want(case):
                ctx.transitions += len(below[j])
                if i != j:
                    ctx.nontrivial += 1
                for k in sorted(below[j] - below[i]):
                    ctx.fail(case, "%s accepts %s, which accepts %s, which the first does not" % (every[i], every[j], every[k]))
            if ctx.full():
                return
    ctx.states = n


SPELLINGS = [
    ("int", {"type": "int"}), (U.arr("int"), U.arr({"type": "int"})), (U.RECN, dict(U.rec("com.x.Rec", ("x", "double")))), (U.ENUMZ, {"type": "enum", "name": "com.x.Dir", "symbols": ["z", "m", "a"]}),
    (U.FIXEDN, {"type": "fixed", "name": "com.x.Two", "size": 1}), (["null", "string"], ["null", {"type": "string"}]), (U.FOREST, dict(U.FOREST, fields=[{"name": "kids", "type": U.arr("Forest")}])),
    (U.rec("N", ("a", U.rec("M", ("i", "int"))), namespace="p.q"), U.rec("p.q.N", ("a", U.rec("p.q.M", ("i", "int"))))), (U.rec("N", ("a", U.FIXEDN), ("b", "com.x.Two")), U.rec("N", ("a", {"type": "fixed", "name": "com.x.Two", "size": 1}), ("b", "com.x.Two"))),
    (U.rec("O", {"name": "a", "type": "int", "order": "ascending"}), U.rec("O", ("a", "int"))),
]


def equality(ctx):
    base, every = types(ctx.thorough)
    parsed = [parse(t) for t in every]
    canons = [canonical(t) for t in every]
    again = [parse(t) for t in every]
    for i in range(len(every)):
        for j in range(len(every)):
            case = ["equal", i, j]
            if not ctx.want(case):
                continue
            if i != j:
                ctx.nontrivial += 1
            want = canons[i] == canons[j]
            got = parsed[i] == again[j]
            # the order of symbols, fields and branches is part of a type
            if got != want:
                ctx.fail(case, "%s == %s is %s, should be %s" % (every[i], every[j], got, want))
            if want and hash(parsed[i]) != hash(again[j]):
                ctx.fail(case, "%s has two hash values" % (every[i],))
            if want and parsed[i] != again[j]:
                ctx.fail(case, "%s is not what it is" % (every[i],))
    for a, b in SPELLINGS:
        case = ["spelling", a, b]
        if ctx.want(case):
            x, y = parse(a), parse(b)
            if not (x.accepts(y) and y.accepts(x)):
                ctx.fail(case, "%s and %s do not accept each other" % (a, b))
    for t in every:
        case = ["function equality", t]
        if ctx.want(case):
            f = FcnType([parse(t)], parse("int"))
            if not f == FcnType([parse(t)], parse("int")) or f == parse("int") or parse(t) == f or (canonical(t) != "int" and f == FcnType([parse("int")], parse("int"))):
                ctx.fail(case, "equality of functions of %s" % (t,))


def values(ctx, part, parts):
    """Every value of an accepted type passes for the accepting one in the reference, and not only those of accepted types do not matter."""
    base, every = types(ctx.thorough)
    every = [t for t in every if '"default"' not in json.dumps(t)]
    for i in range(part, len(every), parts):
        for j in range(len(every)):
            if i == j:
                continue
            x, y = parse(every[i]), parse(every[j])
            if not x.accepts(y):
                continue
            env, ey = U.Env(every[i]), U.Env(every[j])
            for v in U.values(every[j], 2):
                case = ["values", i, j, v]
                if not ctx.want(case):
                    continue
                ctx.nontrivial += 1
                if not fits(every[i], v, every[j], env, ey):
                    ctx.fail(case, "%s accepts %s but its value %s does not fit" % (every[i], every[j], show(v)))
                    break


def fits(x, v, y, ex, ey, nx="", ny=""):
    """v is a tagged value of y; could it stand for one of x?"""
    kx, x, fx, ix = ex.resolve(x, nx)
    ky, y, fy, iy = ey.resolve(y, ny)
    if ky == "union":
        if v is None:
            return fits(x, v, "null", ex, ey, nx, ny)
        (tag, inner), = v.items()
        branch = [b for b in y if ey.tag(b, ny) == tag][0]
        return fits(x, inner, branch, ex, ey, nx, ny)
    if kx == "union":
        return any(fits(b, v, y, ex, ey, nx, ny) for b in x)
    if kx in ("int", "long"):
        return ky in ("int", "long") and U.conforms(kx, v)
    if kx in ("float", "double"):
        return ky in ("int", "long", "float", "double")
    if kx != ky or fx != fy:
        return False
    if kx == "array":
        return all(fits(x["items"], z, y["items"], ex, ey, nx, ny) for z in v)
    if kx == "map":
        return all(fits(x["values"], z, y["values"], ex, ey, nx, ny) for z in v.values())
    if kx == "record":
        ty = dict((f["name"], f["type"]) for f in y["fields"])
        return all(f["name"] in v and fits(f["type"], v[f["name"]], ty[f["name"]], ex, ey, ix, iy) for f in x["fields"])
    if kx == "enum":
        return v in x["symbols"]
    if kx == "fixed":
        return len(v) == x["size"]
    return True


# ---- merging

def unique(xs):
    """No name with two meanings."""
    seen = {}
    for x in xs:
        e = U.Env(x)
        for k, v in e.named.items():
            c = canon(k, e)
            if seen.setdefault(k, c) != c:
                return False
    return True


def asJson(t):
    return json.loads(t.toJson())


def merging(ctx, part, parts):
    base, every = types(False)
    some = [t for t in base if t not in ()] + [["null"], ["int"], ["long", "string"], ["double", "string", "null"], [U.arr("double"), "null"], U.arr(["double", "null"]), U.mp(["null", "string", "int"])]
    if not ctx.thorough:
        small = U.PRIMS + [U.ENUM, U.ENUMZ, U.FIXED, U.FIXEDN, U.REC, U.RECN, U.TREE, U.arr("int"), U.arr("double"), U.arr("string"), U.mp("int"), U.mp("string"), ["null", "int"], ["int", "null"], ["int", "double"], ["null", U.REC],
                           ["null", "boolean", "double"], [U.REC, U.RECN], ["string", "bytes"], U.arr(["null", "int"]), [U.arr("int"), "null"], ["null", U.ENUM]]
    else:
        small = some
    n = 0
    for size, pool in ((1, some), (2, some), (3, small)):
        for xs in itertools.combinations_with_replacement(range(len(pool)), size):
            n += 1
            if n % parts != part:
                continue
            case = ["merged", size, xs]
            if not ctx.want(case):
                continue
            ts = [pool[i] for i in xs]
            if not unique(ts):
                continue
            if len(set(xs)) > 1:
                ctx.nontrivial += 1
            outs = []
            orders = list(itertools.permutations(ts)) if size < 3 or ctx.thorough else [ts, ts[::-1], ts[1:] + ts[:1]]
            for order in orders:
                ctx.transitions += 1
                with_ = [parse(t) for t in order]
                got = outcome(LabelData.broadestType, with_)
                if got[0] != "ok":
                    outs.append(None)
                    if "IncompatibleTypes" not in got[1]:
                        ctx.fail(case, "merging %s fails with %s" % (order, show(got)))
                    continue
                outs.append(asJson(got[1]))
                # an expression that never returns adds nothing
                other = LabelData.broadestType([ExceptionType()] + with_ + [ExceptionType()])
                if not other == got[1]:
                    ctx.fail(case, "merging %s gives %s, with an exception type %s" % (order, got[1], other))
            ctx.outcome(repr(canonical(outs[0])) if outs[0] is not None else None)
            if any((o is None) != (outs[0] is None) for o in outs):
                # Merging is stepwise: two containers of one kind inside a union are refused unless a third, which
                # came first, accepts them. The statement promises nothing about being refused.
                if not any(isinstance(t, list) for t in ts):
                    ctx.fail(case, "merging %s depends on the order: %s" % (ts, outs))
                outs = [o for o in outs if o is not None]
            if outs[0] is None:
                # only for lack of a type: no type of the universe may accept them all without being special
                ctx.note("incompatible")
                cover = [c for c in ts if all(accepts(c, t) for t in ts)]
                if cover:
                    ctx.fail(case, "%s cannot be merged though %s accepts all of them" % (ts, cover[0]))
                continue
            for o in outs:
                for t in ts:
                    if not accepts(o, t):
                        ctx.fail(case, "merging %s gives %s, which does not accept %s" % (ts, o, t))
                if not (accepts(o, outs[0]) and accepts(outs[0], o)):
                    ctx.fail(case, "merging %s gives %s or %s" % (ts, o, outs[0]))
                # least: any type that accepts all of them accepts what they are merged to
                for u in every:
                    if unique(ts + [u]) and all(accepts(u, t) for t in ts) and not accepts(u, o):
                        ctx.fail(case, "merging %s gives %s, but %s accepts all of them and not that" % (ts, o, u))
            if ctx.full():
                return


# ---- printing

def printing(ctx):
    base, every = types(True)
    for t in every:
        case = ["printed", t]
        if not ctx.want(case):
            continue
        ctx.nontrivial += 1
        x = parse(t)
        text = json.dumps(once(t))
        want = canonical(t)
        forward = ForwardDeclarationParser()
        made = [("repr", lambda: json.loads(repr(x))), ("toJson", lambda: json.loads(x.toJson())), ("jsonNode", lambda: x.jsonNode(set())),
                ("placeholder", lambda: json.loads(AvroPlaceholder(text, forward).toJson())), ("placeholder again", lambda: json.loads(AvroPlaceholder(text, forward).toJson())),
                ("placeholder repr", lambda: json.loads(repr(AvroPlaceholder(text, forward)))), ("filled", lambda: json.loads(repr(AvroFilledPlaceholder(x))))]
        forward.parse([text])
        for how, f in made:
            got = outcome(f)
            if got[0] != "ok":
                ctx.fail(case, "%s of %s fails: %s" % (how, t, got))
                continue
            if canonical(got[1]) != want:
                ctx.fail(case, "%s of %s is %s" % (how, t, got[1]))
                continue
            for reader in (jsonNodeToAvroType, lambda n: jsonToAvroType(json.dumps(n)), parseAvroType, lambda n: ForwardDeclarationParser().parse([json.dumps(n)])[json.dumps(n)], lambda n: AvroTypeBuilder().resolveOneType(json.dumps(n))):
                y = outcome(reader, got[1])
                if y[0] != "ok" or not (y[1] == x and x.accepts(y[1]) and y[1].accepts(x)):
                    ctx.fail(case, "%s of %s is %s, which is read as %s" % (how, t, got[1], show(y)))
        p = AvroPlaceholder(text, forward)
        if not (p == x and x == p and p == AvroPlaceholder(text, forward) and p.avroType == x):
            ctx.fail(case, "a placeholder of %s is not equal to it" % (t,))
        # patterns and types (a pattern has neither order nor defaults nor recursion)
        if '"order"' not in text and '"default"' not in text and "ref" not in repr(want):
            y = outcome(lambda: P.toType(P.fromType(x)))
            if y[0] != "ok" or not (y[1].accepts(x) and x.accepts(y[1])):
                ctx.fail(case, "%s becomes %s by way of a pattern" % (t, show(y)))
        # the type of a name in a parser that knows it
        for name in U.Env(t).named:
            y = outcome(forward.getAvroType, name)
            if y[0] != "ok" or y[1] is None or canonical(asJson(y[1])) != canon(name, U.Env(t)):
                ctx.fail(case, "after %s the name %s stands for %s" % (t, name, show(y)))
        named = once(t)
        # described by names of what is known
        for d in (text, t if not isinstance(t, dict) or t["type"] not in ("array", "map") else t):
            y = outcome(forward.getAvroType, d)
            if y[0] != "ok" or y[1] is None or canonical(asJson(y[1])) != want:
                ctx.fail(case, "the type described by %s is taken for %s" % (t, show(y)))
        if ctx.full():
            return


GROUPS = [
    [U.rec("A", ("b", "B"), ("d", U.arr("D"))), {"type": "enum", "name": "B", "symbols": ["x"]}, U.arr("A"), ["null", "A"], {"type": "fixed", "name": "D", "size": 4}, U.mp("B")],
    [U.rec("A", ("b", "n.B"), ("n", ["null", "A"])), U.rec("B", ("c", "C"), namespace="n"), {"type": "enum", "name": "C", "namespace": "n", "symbols": ["x"]}, ["n.C", "A", "n.B"], U.mp(U.arr("n.B"))],
    [U.rec("A", ("b", "B")), U.rec("B", ("c", "C")), U.rec("C", ("d", "D")), U.rec("D", ("i", "int")), U.arr(["A", "C"])],
    ["X", {"type": "fixed", "name": "X", "size": 1}, U.arr("X"), U.rec("Y", ("x", "X"), ("y", ["null", "Y"])), "Y"],
]
BAD = [
    [U.rec("A", ("b", "B")), U.arr("A")], [U.rec("A", ("b", "B")), U.rec("B", ("a", "C"))], ["Nowhere"], [U.arr("Nowhere"), "int"], [["null", "Nowhere"], U.mp("int")],
]


def declarations(ctx):
    """Types declared in any order."""
    for g, group in enumerate(GROUPS):
        env = U.Env(*group)
        want = [canon(t, env) for t in group]
        for order in itertools.permutations(range(len(group))):
            for split in (len(group), 2) if ctx.thorough else (len(group),):
                case = ["declared", g, order, split]
                if not ctx.want(case):
                    continue
                ctx.nontrivial += 1
                ctx.transitions += 1
                p = ForwardDeclarationParser()
                texts = [json.dumps(group[i]) for i in order]
                got = outcome(p.parse, texts)
                if got[0] != "ok":
                    ctx.fail(case, "declarations %s fail: %s" % (texts, show(got)))
                    continue
                for i in order:
                    x = got[1][json.dumps(group[i])]
                    if canonical(asJson(x)) != want[i] or not (p.lookup(json.dumps(group[i])) == x) or not p.contains(json.dumps(group[i])):
                        ctx.fail(case, "declared as %s, %s becomes %s" % (texts, group[i], x))
                names = sorted(set(repr(canonical(asJson(x))) for x in p.compiledTypes))
                if names != sorted(set(repr(want[i]) for i in range(len(group)) if want[i][0] in ("record", "enum", "fixed"))):
                    ctx.fail(case, "declared as %s, the compiled types are %s" % (texts, names))
                if ctx.full():
                    return
    for g, group in enumerate(BAD):
        for order in itertools.permutations(group):
            case = ["undeclared", order]
            if ctx.want(case):
                ctx.nontrivial += 1
                got = outcome(ForwardDeclarationParser().parse, [json.dumps(t) for t in order])
                if got[0] != "bad" or "SchemaParseException" not in got[1]:
                    ctx.fail(case, "declarations %s give %s" % (order, show(got)))
    # two meanings of one name in one document
    for a, b in itertools.combinations([U.REC, U.rec("Rec", ("x", "int")), {"type": "enum", "name": "Rec", "symbols": ["a"]}, {"type": "fixed", "name": "Rec", "size": 1}, U.rec("Rec", ("x", "int"), namespace="com.x"), {"type": "fixed", "name": "Rec", "size": 2}], 2):
        case = ["redeclared", a, b]
        if ctx.want(case):
            ctx.nontrivial += 1
            got = tryMake({"input": a, "output": "null", "fcns": {"f": {"params": [{"x": b}], "ret": "null", "do": None}}, "action": [None]})
            want = "ok" if U.full(a) != U.full(b) else "refused"
            if (got[0] == "ok") != (want == "ok") or got[0] == "bad":
                ctx.fail(case, "a document with %s and %s gives %s" % (a, b, show(got)))


# ---- functions

def functions(ctx):
    pool = ["int", "long", "double", "string", ["null", "int"], U.arr("int"), U.arr("double"), U.REC, U.rec("Rec", ("x", "long"), ("y", "string"))]
    fs = [((), r) for r in pool] + [((a,), r) for a in pool for r in pool] + [((a, b), r) for a in pool[:5] for b in pool[:4] for r in pool[:4]]
    made = [FcnType([parse(a) for a in ps], parse(r)) for ps, r in fs]
    for i, (ps, r) in enumerate(fs):
        for j, (qs, s) in enumerate(fs):
            case = ["function", fs[i], fs[j]]
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            want = len(ps) == len(qs) and all(accepts(q, p) for p, q in zip(ps, qs)) and accepts(r, s)
            got = made[i].accepts(made[j])
            ctx.outcome((len(ps), len(qs), want))
            if got != want:
                ctx.fail(case, "function %s accepts %s is %s, should be %s" % (fs[i], fs[j], got, want))
            same_ = canonical([*ps, r] if False else list(ps) + [r]) == canonical(list(qs) + [s]) if unique(list(ps) + [r] + list(qs) + [s]) else None
            if same_ is not None and len(ps) == len(qs) and (made[i] == made[j]) != same_:
                ctx.fail(case, "function %s == %s is %s" % (fs[i], fs[j], made[i] == made[j]))
        got = outcome(lambda: P.toType(P.fromType(made[i])))
        if got[0] != "ok" or not (got[1].accepts(made[i]) and made[i].accepts(got[1])):
            ctx.fail(["function pattern", fs[i]], "function %s becomes %s by way of a pattern" % (fs[i], show(got)))


# ---- in documents

def positions(x, y):
    """Documents with input y that use it where an x is expected."""
    v = U.values(x, 1)
    if not v:
        return
    v = v[0]
    base = {"input": y, "output": "null", "fcns": {"f": {"params": [{"p": x}], "ret": "null", "do": [None]}}}
    yield "output", {"input": y, "output": x, "action": ["input"]}
    yield "argument", dict(base, action=[{"u.f": ["input"]}])
    yield "set", dict(base, action=[{"let": {"v": {"type": x, "value": v}}}, {"set": {"v": "input"}}, None])
    yield "cell", dict(base, cells={"c": {"type": x, "init": v}}, action=[{"cell": "c", "to": "input"}, None])
    yield "pool", dict(base, pools={"c": {"type": x, "init": {}}}, action=[{"pool": "c", "path": [{"string": "k"}], "to": {"params": [{"o": x}], "ret": x, "do": "o"}, "init": "input"}, None])
    yield "item", dict(base, action=[{"type": U.arr(x), "new": ["input"]}, None])
    yield "value", dict(base, action=[{"type": U.mp(x), "new": {"k": "input"}}, None])
    yield "field", dict(base, action=[{"type": U.rec("Holder", ("f", x)), "new": {"f": "input"}}, None])
    yield "return", dict(base, fcns={"g": {"params": [{"p": y}], "ret": x, "do": ["p"]}}, action=[{"u.g": ["input"]}, None])
    yield "update", dict(base, action=[{"let": {"v": {"type": U.arr(x), "value": [v]}}}, {"set": {"v": {"attr": "v", "path": [0], "to": "input"}}}, None])
    yield "emit", {"input": y, "output": x, "method": "emit", "action": [{"emit": "input"}]}
    yield "updater", dict(base, cells={"c": {"type": x, "init": v}}, action=[{"cell": "c", "to": {"params": [{"o": x}], "ret": x, "do": [{"let": {"k": "input"}}, "k"]}}, None] if False else [{"cell": "c", "to": {"u.h": "input"}}, None])


def key(x, y, where):
    """A recorded finding: union values keep the tag they came with."""
    return "widened-union-" + where if not tagged(x, U.Env(x), "", y, U.Env(y), "") else None


def tagged(x, ex, nx, y, ey, ny):
    """Does an accepted pair also agree on the tags of union values? (named types are the same types here)"""
    kx, x, fx, ix = ex.resolve(x, nx)
    ky, y, fy, iy = ey.resolve(y, ny)
    if kx == "array" and ky == "array":
        return tagged(x["items"], ex, nx, y["items"], ey, ny)
    if kx == "map" and ky == "map":
        return tagged(x["values"], ex, nx, y["values"], ey, ny)
    if ky == "union":
        return kx == "union" and all(any(ex.tag(a, nx) == ey.tag(b, ny) and tagged(a, ex, nx, b, ey, ny) for a in x) for b in y)
    return True


POSITIONS = ["output", "argument", "set", "cell", "pool", "item", "value", "field", "return", "update", "emit"]


def engines(ctx, part, parts):
    base, every = types(False)
    pool = base if ctx.thorough else [t for t in base if not (isinstance(t, dict) and t["type"] in ("array", "map") and t["items" if t["type"] == "array" else "values"] not in ("int", "double", "string", U.REC, ["null", "int"]))]
    n = 0
    for x in pool:
        for y in pool:
            n += 1
            if n % parts != part or not unique([x, y]):
                continue
            want = accepts(x, y)
            some = POSITIONS if want or ctx.thorough else [POSITIONS[n % len(POSITIONS)], "output", "argument"]
            for where, d in positions(x, y):
                if where not in some:
                    continue
                case = ["engine", x, y, where]
                if not ctx.want(case):
                    continue
                if x != y:
                    ctx.nontrivial += 1
                if where in ("argument", "emit") and "union" in repr(canonical(y)) and canonical(x) != canonical(y):
                    continue          # signatures match unions branch by branch
                got = tryMake(once(d))
                ctx.outcome((where, want, got[0]))
                if (got[0] == "ok") != want or got[0] not in ("ok", "semantic"):
                    ctx.fail(case, "%s where %s is expected, as %s: %s, should be %s" % (y, x, where, show(got), "accepted" if want else "refused"))
                elif want:
                    for v in U.values(y, 1)[:6]:
                        ctx.transitions += 1
                        if where == "emit":
                            outs = []
                            got[1].emit = outs.append
                        r = outcome(got[1].action, v)
                        if r[0] != "ok":
                            ctx.fail(case, "%s where %s is expected, as %s, on %s: %s" % (y, x, where, show(v), show(r)), key(x, y, where))
                            break
                        if where in ("output", "emit"):
                            out = r[1] if where == "output" else outs[-1]
                            env = U.Env(x, y) 
                            try:
                                good = same(plain(x, out, U.Env(x)), plain(y, v, U.Env(y)))
                            except (KeyError, TypeError, AttributeError, ValueError):
                                good = False
                            if not good:
                                ctx.fail(case, "%s as %s: %s becomes %s" % (y, x, show(v), show(out)), key(x, y, where))
                                break
                if ctx.full():
                    return


def tasks(tier):
    out = [("preorder", preorder, ()), ("equality", equality, ()), ("printing", printing, ()), ("declarations", declarations, ()), ("functions", functions, ())]
    out += [("pairs %d" % i, pairs, (i, 4)) for i in range(4)]
    out += [("values %d" % i, values, (i, 4)) for i in range(4)]
    out += [("merging %d" % i, merging, (i, 8)) for i in range(8)]
    out += [("engines %d" % i, engines, (i, 12)) for i in range(12)]
    return out
