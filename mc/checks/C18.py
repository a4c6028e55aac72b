"""C18: calls resolve to the right signature and result type."""
import itertools
import json

from titus.datatype import ExceptionType, FcnType, jsonNodeToAvroType as jsonToAvroType
from titus.fcn import LibFcn
from titus.signature import Lifespan, PFAVersion, Sig, Sigs

from mc import lib
from mc import sigs as S
from mc import universe as U
from mc.eng import *

LEVEL = "exploration"
RULE = ("patterns: every signature of one and two parameters from 30 patterns (three, from fewer, when thorough), called with all combinations of 38 types of arguments; library: every signature of every library function as documented (mc/signatures.json), "
        "with the types that its own patterns stand for, with each argument, and each two, replaced by every type of the list, with one argument more or less, and before and after each version of its life span; documents: the same for engines; "
        "user functions: all pairs of parameter and argument types, called by name, by reference, filled and by \"call\"; references: every function that may be referenced, by each one of its parameters, against the direct call on boundary values")
ASSUMPTIONS = ["what a wildcard stands for that was given several types is their merged type, checked in C08", "mc/signatures.json holds the documented signatures"]

V = PFAVersion(0, 8, 1)
W = lambda label, oneOf=None: {"wild": label, "oneOf": oneOf}
FN = lambda params, ret: {"fcn": params, "ret": ret}
PATTERNS = ["int", "long", "double", "string", "null", "boolean", W("A"), W("A", S.NUMBERS), W("A", ["int", "long"]), W("B"), {"array": "int"}, {"array": "double"}, {"array": W("A")}, {"map": W("A")}, {"map": "string"}, {"array": {"array": W("A")}},
            {"union": ["int", "null"]}, {"union": [W("A"), "null"]}, {"union": ["double", "string", "null"]}, {"array": {"union": [W("A"), "null"]}}, FN([W("A")], W("B")), FN([W("A")], W("A")), FN(["int"], "double"), FN(["double", W("A")], "boolean"),
            FN([], W("A")), {"wildrecord": "D", "fields": {}}, {"wildrecord": "D", "fields": {"x": "int"}}, {"wildrecord": "D", "fields": {"x": W("A")}}, {"wildenum": "E"}, {"wildfixed": "F"}]
BASE = ["null", "boolean", "int", "long", "float", "double", "string", "bytes"]
REC = U.rec("R", ("x", "int"))
TYPES = BASE + [U.arr("int"), U.arr("double"), U.arr("string"), U.arr(["null", "int"]), U.arr(U.arr("long")), U.mp("int"), U.mp("string"), U.mp(REC), ["int", "null"], ["null", "int"], ["int", "string"], ["double", "null"], ["int", "string", "null"],
                REC, U.rec("S", ("x", "double"), ("y", "string")), U.rec("T", ("x", ["int", "null"])), {"type": "enum", "name": "E1", "symbols": ["x"]}, {"type": "enum", "name": "E2", "symbols": ["x", "y"]}, {"type": "fixed", "name": "F1", "size": 2}]


def args():
    """The types as titus objects, those of functions and of expressions that never return included."""
    types = [jsonToAvroType(t) for t in TYPES]
    i, l, d, s, b, u = [jsonToAvroType(t) for t in ("int", "long", "double", "string", "boolean", ["int", "null"])]
    return types + [FcnType([i], i), FcnType([d], d), FcnType([i], s), FcnType([u], i), FcnType([], i), FcnType([d, i], b), FcnType([i, i], i), FcnType([l], d), FcnType([s], u), ExceptionType()]


def labels(p, out):
    if isinstance(p, dict):
        for k in ("wild", "wildrecord", "wildenum", "wildfixed", "enumfields"):
            if k in p:
                out.append(p[k])
        for k in ("array", "map", "ret"):
            if k in p:
                labels(p[k], out)
        for x in p.get("union", []) + p.get("fcn", []) + list(p.get("fields", {}).values()):
            labels(x, out)
    return out


def text(t):
    return U.key(json.loads(repr(t))) if t is not None else None


def compare(ctx, case, sig, expected, given, version=V):
    try:
        got = sig.accepts(list(given), version)
    except Exception as err:
        ctx.fail(case, "resolving %s ends in %s: %s" % (show(case), type(err).__name__, err))
        return
    ctx.transitions += 1
    ctx.outcome((got is not None, text(got[2]) if got is not None else None))
    if (got is None) != (expected is None):
        ctx.fail(case, "%s is %s" % (show(case, 400), "refused, although the arguments fit and give " + repr(expected) if got is None else "accepted as %r, although the arguments do not fit" % (got[2],)))
    elif got is not None:
        ctx.nontrivial += 1
        if text(got[2]) != text(expected):
            ctx.fail(case, "%s has type %r, not %r" % (show(case, 400), got[2], expected))
        elif len(got[1]) != len(given) or any(isinstance(x, FcnType) != isinstance(y, FcnType) or not isinstance(y, FcnType) and not x.accepts(y) for x, y in zip(got[1], given)):
            ctx.fail(case, "%s: the arguments are taken to be of types %r" % (show(case, 400), got[1]))


def fitting(cases, given):
    for c in cases:
        ret = S.resolve(c, given)
        if ret is not None:
            return ret
    return None


def patterns(ctx, part, parts):
    types = args()
    pats = PATTERNS + [{"enumfields": "G", "of": "D"}]
    sigsOf = [(p,) for p in pats] + [(p, q) for p in pats for q in pats]
    few = [W("A"), W("A", S.NUMBERS), {"array": W("A")}, FN([W("A")], W("B")), FN([W("B"), W("A")], W("B")), W("B"), "double", {"union": [W("A"), "null"]}, {"wildrecord": "D", "fields": {"x": W("A")}}]
    if ctx.thorough:
        sigsOf += list(itertools.product(few, repeat=3))
    for n, ps in enumerate(sigsOf):
        if n % parts != part:
            continue
        names = []
        for p in ps:
            labels(p, names)
        if any("enumfields" in p and "D" not in sum((labels(q, []) for q in ps[:i]), []) for i, p in enumerate(ps) if isinstance(p, dict)):
            continue                                                    # the record comes first
        if len(set(repr(p["oneOf"]) for p in ps if isinstance(p, dict) and p.get("oneOf"))) > 1:
            continue                                                    # one set of types for one wildcard
        rets = ["int"] + [{"array": W(x)} for x in sorted(set(names))[:2]] + ([{"union": [W(names[0]), "null"]}] if len(ps) == 1 and names and ps[0] == W("A", S.NUMBERS) else [])
        ret = rets[-1]
        try:
            sig = Sig([{"p%d" % i: S.pattern(p)} for i, p in enumerate(ps)], S.pattern(ret))
        except Exception as err:
            ctx.fail(["patterns", ps], "making a signature ends in %s" % err)
            continue
        case = {"params": [["p%d" % i, p] for i, p in enumerate(ps)], "ret": ret}
        for given in itertools.product(types if len(ps) < 3 else types[2:3] + types[5:9] + types[15:18] + types[21:22] + types[27:], repeat=len(ps)):
            c = ["patterns", list(ps), [repr(t) for t in given]]
            if ctx.want(c):
                if ambiguous(ps, given):
                    ctx.note("which branch of a union pattern a wildcard stands for is open")
                    continue
                compare(ctx, c, sig, S.resolve(case, given), given)
        if ctx.full():
            return


def ambiguous(ps, given):
    """May a union's wildcard branch and another branch change places?"""
    return any(isinstance(p, dict) and "array" not in p and "union" in p and any(isinstance(x, dict) for x in p["union"]) and text(t) in ('"null"', '["null"]') for p, t in zip(ps, given))


def library(ctx, part, parts):
    types = args()
    documented, present = S.documented(), lib.FUNCTIONS
    if part == 0:
        for name in sorted(set(documented) ^ set(present)):
            if ctx.want(["library", name]):
                ctx.fail(["library", name], "%s is %s" % (name, "no function any more" if name in documented else "a function without documented signature"))
    for n, name in enumerate(sorted(documented)):
        if n % parts != part or name not in present:
            continue
        cases = documented[name]
        sig = present[name].sig
        tried = set()
        for inst in lib.instances(name):
            own = []
            try:
                for k in inst.kinds:
                    own.append(jsonToAvroType(once(k[1])) if k[0] == "value" else FcnType([jsonToAvroType(once(x)) for x in k[1]], jsonToAvroType(once(k[2]))))
            except Exception as err:
                ctx.note("types of %s: %s" % (inst.label, err))
                continue
            combos = [own, own[:-1], own + [types[2]], []]
            for i in range(len(own)):
                combos += [own[:i] + [t] + own[i + 1:] for t in types]
            for i, j in itertools.combinations(range(len(own)), 2):
                combos += [own[:i] + [s] + own[i + 1:j] + [t] + own[j + 1:] for s in types[2:28:(1 if ctx.thorough else 3)] for t in types[2::(1 if ctx.thorough else 3)]]
            for given in combos:
                key = tuple(map(repr, given))
                if key in tried:
                    continue
                tried.add(key)
                c = ["library", name, list(key)]
                if ctx.want(c):
                    live = [x for x in cases if alive(x["life"], V)]
                    compare(ctx, c, sig, fitting(live, given), given)
            # the exact types have to fit at all
            c = ["library own", name, inst.label]
            if ctx.want(c) and fitting([x for x in cases if alive(x["life"], V)], own) is None:
                ctx.note("documented patterns do not fit their own types: " + inst.label)
            for v in ((0, 7, 1), (0, 7, 2), (0, 7, 3), (0, 8, 0), (0, 8, 1), (0, 8, 2), (0, 8, 9), (0, 9, 0), (0, 9, 1), (1, 0, 0)):
                c = ["version", name, inst.label, v]
                if ctx.want(c):
                    compare(ctx, c, sig, fitting([x for x in cases if alive(x["life"], PFAVersion(*v))], own), own, PFAVersion(*v))
            if ctx.full():
                return


def alive(life, version):
    birth, deprecation, death = [None if x is None else tuple(int(y) for y in x.split(".")) for x in life]
    v = (version.major, version.minor, version.release)
    return (birth is None or v >= birth) and (death is None or v < death)


def lifespans(ctx):
    """Life spans of all shapes against the versions around them."""
    vs = [None] + [(0, 0, 9), (0, 7, 0), (0, 7, 1), (0, 8, 0), (0, 10, 0), (1, 0, 0)]
    for birth, dep, death in itertools.product(vs, repeat=3):
        if dep is not None and death is None or death is not None and dep is None or birth and dep and birth >= dep or dep and death and dep >= death:
            continue
        try:
            span = Lifespan(*([None if x is None else PFAVersion(*x) for x in (birth, dep, death)] + ["use something else"]))
        except Exception as err:
            ctx.fail(["life", birth, dep, death], "making a life span %s ends in %s" % ((birth, dep, death), err))
            continue
        sig = Sig([{"x": S.pattern("int")}], S.pattern("int"), span)
        for v in vs[1:] + [(0, 9, 0), (2, 0, 0)]:
            c = ["life", birth, dep, death, v]
            if not ctx.want(c):
                continue
            version = PFAVersion(*v)
            ctx.transitions += 1
            now = (birth is None or v >= birth) and (dep is None or v < dep)
            old = dep is not None and dep <= v and (death is None or v < death) and (birth is None or v >= birth)
            ctx.outcome((now, old))
            ctx.nontrivial += 1
            got = (bool(span.current(version)), bool(span.deprecated(version)), sig.accepts([jsonToAvroType("int")], version) is not None)
            if got != (now, old, now or old):
                ctx.fail(c, "life span %s at %s: current, deprecated, accepted %s, not %s" % ((birth, dep, death), v, got, (now, old, now or old)))


def versions(ctx):
    """Versions are ordered number by number."""
    vs = [PFAVersion(a, b, c) for a in (0, 1, 2, 10) for b in (0, 2, 10) for c in (0, 9, 10)]
    for x, y in itertools.product(vs, repeat=2):
        c = ["version", repr(x), repr(y)]
        if not ctx.want(c):
            continue
        a, b = (x.major, x.minor, x.release), (y.major, y.minor, y.release)
        ctx.nontrivial += 1
        ctx.transitions += 1
        got = (x < y, x <= y, x == y, x != y, x > y, x >= y, PFAVersion.fromString(str(x)) == y)
        want = (a < b, a <= b, a == b, a != b, a > b, a >= b, a == b)
        ctx.outcome(want)
        if got != want:
            ctx.fail(c, "%s and %s compare as %s, not %s" % (x, y, got, want))


def documents(ctx, part, parts):
    """Calls in documents are accepted exactly when they fit, and an engine which declares their type is made."""
    types = [t for t in TYPES if t != U.mp(REC)]
    documented = S.documented()
    for n, name in enumerate(sorted(documented)):
        if n % parts != part or name not in lib.FUNCTIONS:
            continue
        live = [x for x in documented[name] if alive(x["life"], V)]
        for inst in itertools.islice(lib.instances(name), None if ctx.thorough else 2):
            valued = [i for i, k in enumerate(inst.kinds) if k[0] == "value"]
            own = [k[1] if k[0] == "value" else None for k in inst.kinds]
            combos = [own] + [own[:i] + [t] + own[i + 1:] for i in valued for t in types[(0 if ctx.thorough else n % 3)::(1 if ctx.thorough else 3)]]
            for given in combos:
                c = ["document", name, inst.label, given]
                if not ctx.want(c):
                    continue
                fields = [{"name": "a%d" % i, "type": t} for i, t in enumerate(given) if t is not None]
                call = {name: ["input.a%d" % i if t is not None else inst.fcnDef(i) for i, t in enumerate(given)]}
                input = once({"type": "record", "name": "In", "fields": fields})
                try:
                    parsed = jsonToAvroType(input)
                    actual = [parsed.field("a%d" % i).avroType if t is not None else FcnType([jsonToAvroType(x) for x in inst.kinds[i][1]], jsonToAvroType(inst.kinds[i][2])) for i, t in enumerate(given)]
                except Exception:
                    ctx.note("types that cannot be written down alone")
                    continue
                ret = fitting(live, actual)
                out = json.loads(repr(ret)) if ret is not None else "null"
                r = tryMake(once({"input": {"type": "record", "name": "In", "fields": fields}, "output": out, "action": [call], "randseed": 1}) if ret is not None else
                            once({"input": {"type": "record", "name": "In", "fields": fields}, "output": "null", "action": [call, None], "randseed": 1}))
                ctx.transitions += 1
                ctx.outcome((r[0], name))
                if ret is not None:
                    ctx.nontrivial += 1
                if ret is not None and r[0] != "ok":
                    ctx.fail(c, "%s on %s fits and gives %s, but no engine is made: %s" % (name, show(given, 300), show(out), r[1][:300]))
                elif ret is None and r[0] != "semantic":
                    ctx.fail(c, "%s on %s does not fit, but making an engine ends in %s" % (name, show(given, 300), r[:2] if r[0] != "ok" else "ok"))
            if ctx.full():
                return


def dataOf(t):
    """The pattern of a declared type."""
    if isinstance(t, str):
        return t if t in S.SIMPLE else {"named": t}
    if isinstance(t, list):
        return {"union": [dataOf(x) for x in t]}
    if t["type"] == "array":
        return {"array": dataOf(t["items"])}
    if t["type"] == "map":
        return {"map": dataOf(t["values"])}
    return {"named": t["name"]}


def same(p, t, strict=False):
    """Does an argument of type t fit a parameter declared as p (both as documents)?"""
    if isinstance(p, list):
        if isinstance(t, list):
            return any(all(same(p[i], x, True) for i, x in zip(order, t)) for order in itertools.permutations(range(len(p)), len(t))) if len(t) <= len(p) else False
        return any(same(x, t, strict) for x in p)
    if isinstance(p, str) and isinstance(t, str):
        return p == t or not strict and p in S.NUMBERS and t in S.NUMBERS and S.NUMBERS.index(t) < S.NUMBERS.index(p)
    if isinstance(p, dict) and isinstance(t, dict) and p["type"] == t["type"]:
        if p["type"] == "array":
            return same(p["items"], t["items"], strict)
        if p["type"] == "map":
            return same(p["values"], t["values"], strict)
        return p["name"] == t["name"]
    return False


UTYPES = ["null", "boolean", "int", "long", "double", "string", "bytes", U.arr("int"), U.arr("double"), U.mp("string"), ["int", "null"], ["null", "int"], ["double", "null"], ["int", "string", "null"], REC, ["null", REC],
          {"type": "enum", "name": "E1", "symbols": ["x"]}, {"type": "fixed", "name": "F1", "size": 2}, U.arr(["null", "int"])]


def users(ctx, part, parts):
    """User functions by every way of calling them."""
    for n, (p, t) in enumerate(itertools.product(UTYPES, repeat=2)):
        if n % parts != part:
            continue
        vt = lib.value(t, 2, 1)
        f = {"params": [{"v": p}], "ret": p, "do": "v"}
        g = {"params": [{"k": "int"}, {"v": p}], "ret": p, "do": "v"}
        fits = same(p, t)
        ways = [("call", {"u.f": ["input"]}), ("call second", {"u.g": [1, "input"]}), ("reference", {"a.map": [{"type": U.arr(t), "new": ["input"]}, {"fcn": "u.f"}]}),
                ("filled", {"a.map": [{"type": U.arr("int"), "new": [1]}, {"fcn": "u.g", "fill": {"v": "input"}}]}), ("rest", {"a.map": [{"type": U.arr(t), "new": ["input"]}, {"fcn": "u.g", "fill": {"k": 1}}]}),
                ("by enum", {"call": {"type": {"type": "enum", "name": "Fs", "symbols": ["f", "h"]}, "value": "f"}, "args": ["input"]}), ("too many", {"u.f": ["input", 1]}), ("too few", {"u.g": ["input"]}), ("no such", {"u.x": ["input"]}),
                ("wrong fill", {"a.map": [{"type": U.arr(t), "new": ["input"]}, {"fcn": "u.g", "fill": {"x": 1}}]}), ("all filled", {"a.map": [{"type": U.arr("int"), "new": [1]}, {"fcn": "u.g", "fill": {"k": 1, "v": "input"}}]})]
        for how, call in ways:
            c = ["user", how, p, t]
            if not ctx.want(c):
                continue
            out = U.arr(p) if "a.map" in call else p
            doc = once({"input": t, "output": out, "action": [call], "fcns": {"f": f, "g": g, "h": {"params": [{"v": p}], "ret": p, "do": "v"}}})
            r = tryMake(doc)
            ctx.transitions += 1
            ctx.outcome((how, r[0]))
            want = fits and how in ("call", "call second", "reference", "filled", "rest", "by enum")
            if how in ("reference", "rest"):
                # what the function is given is merged with what it takes
                want = fits if fits or r[0] != "ok" else None
                if fits and isinstance(p, list) and isinstance(t, list) and len(p) > len(t):
                    want = None
            if want is None:
                ctx.note("a function of a union: open")
                continue
            if want != (r[0] == "ok"):
                ctx.fail(c, "a function of %s, %s with %s: %s" % (show(p), how, show(t), "accepted" if r[0] == "ok" else "refused: " + r[1][:300]))
            elif want:
                ctx.nontrivial += 1
                got = outcome(r[1].action, lib.tagged(t, vt))
                ok = got[0] == "ok" and U.key(U.raw(untagAll(got[1][0] if "a.map" in call else got[1]))) == U.key(U.raw(untagAll(lib.tagged(t, vt))))
                if not ok:
                    ctx.fail(c, "a function of %s, %s with %s gives %s for %s" % (show(p), how, show(t), show(got), show(vt)))


def untagAll(v):
    if isinstance(v, dict) and len(v) == 1 and list(v)[0] in ("int", "double", "string", "R", "null"):
        return untagAll(list(v.values())[0])
    if isinstance(v, dict):
        return dict((k, untagAll(x)) for k, x in v.items())
    return [untagAll(x) for x in v] if isinstance(v, list) else float(v) if isinstance(v, int) and not isinstance(v, bool) else v


def referable(case, free):
    """Without generics in what is left open."""
    return not labels(case["ret"], labels(case["params"][free][1], [])) if free is not None else not labels(case["ret"], [])


def references(ctx, part, parts):
    from mc.checks.C07 import domain, limited, stuck, SIZES, has, BIG
    import signal
    signal.signal(signal.SIGVTALRM, stuck)
    documented = S.documented()
    for n, name in enumerate(sorted(documented)):
        if n % parts != part or name not in lib.FUNCTIONS:
            continue
        live = [x for x in documented[name] if alive(x["life"], V)]
        for number, inst in enumerate(lib.instances(name)):
            if len(live) != 1 and number:
                break
            types = [k[1] if k[0] == "value" else None for k in inst.kinds]
            for free in [i for i, t in enumerate(types) if t is not None] or ([None] if not types else []):
                c0 = ["reference", name, inst.label, free]
                may = len(live) == 1 and referable(live[0], free) and name[0].isalpha()
                if ctx.only is not None and repr(name) not in ctx.only:
                    continue
                fields = [{"name": "a%d" % i, "type": t} for i, t in enumerate(types) if t is not None]
                argument = lambda i: "input.a%d" % i if types[i] is not None else inst.fcnDef(i, 0)
                fill = dict((inst.names[i], argument(i)) for i in range(len(types)) if i != free)
                ref = {"fcn": name, "fill": fill} if fill else {"fcn": name}
                input = {"type": "record", "name": "In", "fields": fields}
                direct = tryMake(once({"input": input, "output": inst.ret, "randseed": 1, "action": [{name: [argument(i) for i in range(len(types))]}]}))
                if free is None:
                    continue
                byRef = tryMake(once({"input": input, "output": U.arr(inst.ret), "randseed": 1, "action": [{"a.map": [{"type": U.arr(types[free]), "new": ["input.a%d" % free]}, ref]}]}))
                if ctx.want(c0):
                    ctx.transitions += 1
                    ctx.outcome((byRef[0], may))
                    if may != (byRef[0] == "ok"):
                        ctx.fail(c0, "a reference to %s is %s" % (name, "accepted" if byRef[0] == "ok" else "refused: " + byRef[1][:400]))
                        continue
                if not may or direct[0] != "ok" or byRef[0] != "ok":
                    continue
                if name.startswith("rand."):
                    continue
                ds = []
                for i, t in enumerate(types):
                    if t is not None:
                        d = domain(t)
                        if inst.names[i] in SIZES.get(name, []):
                            d = [x for x in d if not has(x, BIG)]
                        if name.startswith("prob.dist"):
                            d = [x for x in d if not has(x, BIG) and (not isinstance(x, float) or not abs(x) > 1e300 and not 0 < abs(x) < 1e-300)]
                        ds.append(("a%d" % i, d))
                k = 0
                for m in range(max(len(d) for _, d in ds)):
                    for shift in ((0,) if len(ds) == 1 else (0, 1, 2)):
                        datum = dict((f, d[(m + shift * j) % len(d)]) for j, (f, d) in enumerate(ds))
                        c = c0 + [datum]
                        if not ctx.want(c):
                            continue
                        a, b = limited(direct[1].action, datum), limited(byRef[1].action, datum)
                        ctx.transitions += 1
                        ctx.nontrivial += 1
                        if a[0] == "ok":
                            ok = b[0] == "ok" and U.key(U.raw(b[1])) == U.key(U.raw([a[1]]))
                        elif a[0] in ("bad", "stuck"):
                            ok = True
                        else:
                            ok = a[:2] == b[:2]
                        if not ok:
                            ctx.fail(c, "%s%s is %s called directly and %s by reference" % (name, show(datum, 200), show(a, 150), show(b, 150)))
                            break
                    else:
                        continue
                    break
            if ctx.full():
                return


def tasks(tier):
    return ([("lifespans", lifespans, ()), ("versions", versions, ())] + [("patterns %d" % k, patterns, (k, 32)) for k in range(32)] + [("library %d" % k, library, (k, 24)) for k in range(24)] +
            [("documents %d" % k, documents, (k, 24)) for k in range(24)] + [("users %d" % k, users, (k, 16)) for k in range(16)] + [("references %d" % k, references, (k, 24)) for k in range(24)])
