"""C25: decision trees: comparisons, walks over all small trees, and trees grown from all small training sets."""
import itertools
import json
import math
import warnings

from mc.eng import *

LEVEL = "exploration"
RULE = ("a case is one comparison, one walk of one datum through one tree on the real engine, or one training set grown into a tree by the producer; "
        "all operators, field types, value types and data from small alphabets, all trees of up to 3 (thorough 4) decision nodes over a set of tests, "
        "all training sets of up to 4 (one regressor: 6; thorough 5 with two) records over 2-3 numbers, words and predictands with every option of the producer, a fixed subset of them written as documents; "
        "non-trivial: all comparisons and walks, training sets of at least two records")
ASSUMPTIONS = ["gains are compared with a tolerance of 1e-9; among equally good splits any may be chosen",
               "a tree that is a single leaf has no document", "the value of a comparison belongs to a branch of its union that fits the field"]


def A(t):
    return {"type": "array", "items": t}


def fref(name, params, ret):
    return ("fcn", {"params": [dict([p]) for p in params], "ret": ret, "do": {name: [p[0] for p in params]}})


# ------------------------------------------------------------------ comparisons

ORDER = {"<=": lambda c: c <= 0, "<": lambda c: c < 0, ">=": lambda c: c >= 0, ">": lambda c: c > 0, "==": lambda c: c == 0, "!=": lambda c: c != 0}
OPS = ["<=", "<", ">=", ">", "==", "!=", "in", "notIn", "alwaysTrue", "alwaysFalse", "isMissing", "notMissing", "", "=", "IN"]

# field type, its data, V types with their values for "in" (lists) and for comparisons
NUM = ("int", "long", "float", "double")
DATA = {"int": [-1, 0, 3], "long": [-1, 0, 2**53 + 1], "float": [-1.5, 0.0, 3.0], "double": [-1.5, 0.0, 3.0],
        "string": ["", "a", "b"], "boolean": [False, True], "bytes": [b"", b"a", b"\xff"]}


def untag(v):
    return list(v.values())[0] if isinstance(v, dict) else v


def fieldTypes():
    """(type, data as given to the engine, bare datum)"""
    for t in sorted(DATA):
        yield t, t, [(v, v) for v in DATA[t]], False
    yield "enum", {"type": "enum", "name": "Color", "symbols": ["red", "blue", "green"]}, [(v, v) for v in ("red", "blue", "green")], False
    for t in ("double", "string", "int", "boolean"):
        yield "null," + t, ["null", t], [({t: v}, v) for v in DATA[t]] + [(None, None)], True


def valueTypes(ft):
    """(V, list of (encoded value, bare value)) that can be compared with a field of bare type ft"""
    vals = ["red", "blue", "green"] if isinstance(ft, dict) else DATA[ft]
    own = ft if not isinstance(ft, dict) else "Color"
    tag = own
    yield own, [(v, v) for v in vals]
    yield A(own), [(vals[:k], vals[:k]) for k in range(3)]
    other = "string" if ft != "string" else "double"
    yield [own, other], [({tag: v}, v) for v in vals]
    yield [own, A(own)], [({tag: v}, v) for v in vals] + [({"array": vals[:k]}, vals[:k]) for k in range(3)]
    if ft in NUM:
        for t in NUM:
            if t != ft:
                yield t, [(v, v) for v in DATA[t]]
                yield A(t), [(DATA[t][:2], DATA[t][:2])]
        yield ["double", "string", A("double")], [({"double": v}, v) for v in DATA["double"]] + [({"array": [0.0, 3.0]}, [0.0, 3.0])]
        yield "string", [("a", "a")]
        yield ["string", "boolean"], [({"string": "a"}, "a")]
    if ft == "string":
        yield "double", [(0.0, 0.0)]
        yield A("double"), [([0.0], [0.0])]


def sign(t, a, b):
    if isinstance(t, dict):
        s = t["symbols"]
        a, b = s.index(a), s.index(b)
    return (a > b) - (a < b)


def accepts(v, f):
    return v == f or (v == "Color" and isinstance(f, dict)) or (v in NUM and f in NUM and NUM.index(v) >= NUM.index(f))


def comparison(ft, V, field, op, value, missing, base):
    """The documented meaning: None when the value of the field is missing and that is not asked for."""
    if op == "alwaysTrue":
        return True
    if op == "alwaysFalse":
        return False
    if op in ("isMissing", "notMissing") and not missing:
        return (field is None) == (op == "isMissing")
    branches = V if isinstance(V, list) else [V]
    if op in ("in", "notIn"):
        arrays = [b for b in branches if isinstance(b, dict)]
        if not any(accepts(b["items"], ft) for b in arrays):
            raise Err(base + 1)
        if not isinstance(value, list):
            return SKIP
        if field is None:
            return None if missing else SKIP
        return any(sign(ft, v, field) == 0 for v in value) == (op == "in")
    if not any(accepts(b, ft) for b in branches) and not (ft in NUM and not isinstance(V, list) and V in NUM):
        raise Err(base + 1)
    if isinstance(value, list) or (ft in NUM) != isinstance(value, (int, float)) or (isinstance(value, bool) != (ft == "boolean")) :
        return SKIP
    if field is None:
        return None if missing else SKIP
    if op not in ORDER:
        raise Err(base)
    return ORDER[op](sign(ft, field, value))


def tests(ctx, which, fname):
    missing = fname == "model.tree.missingTest"
    base = 32010 if missing else 32000
    for name, t, data, nullable in fieldTypes():
        if name != which:
            continue
        bare = t[1] if nullable else t
        if nullable and not missing:
            # a simple test sees the union as it is
            pools = [(t, [(e, v) for e, v in data]), (["null", bare, "bytes"], [(e, v) for e, v in data])]
        else:
            pools = list(valueTypes(bare))
        for V, values in pools:
            D = {"type": "record", "name": "D", "fields": [{"name": "f", "type": t}, {"name": "g", "type": "string"}]}
            T = {"type": "record", "name": "T", "fields": [{"name": "field", "type": {"type": "enum", "name": "Names", "symbols": ["f", "g"]}},
                                                            {"name": "operator", "type": "string"}, {"name": "value", "type": V}]}

            def ref(d, c):
                bv = [b for e, b in values if repr(e) == repr(c["value"])][0]
                fv = [b for e, b in data if repr(e) == repr(d["f"])][0]
                if nullable and not missing:
                    if c["operator"] in ORDER and (fv is None or bv is None):
                        return SKIP
                    if c["operator"] in ("in", "notIn"):
                        raise Err(32001)
                    out = comparison(bare, bare, fv, c["operator"], bv, missing, base)
                else:
                    out = comparison(bare, V, fv, c["operator"], bv, missing, base)
                if missing and isinstance(out, bool):
                    return {"boolean": out}
                return out
            cases = [({"f": e, "g": "zz"}, {"field": "f", "operator": op, "value": v}) for e, _ in data for op in OPS for v, _ in values]
            sweep(ctx, fname, [D, T], ["null", "boolean"] if missing else "boolean", ref, cases, label=fname + "/" + json.dumps([t, V]),
                  judge=lambda got, want, args: agree(got, want) or (missing and got[0] == "ok" and want[0] == "ok" and isinstance(want[1], dict) and agree(got, ("ok", want[1]["boolean"]))))
    # the field is the one that is named
    D = {"type": "record", "name": "D", "fields": [{"name": "f", "type": "int"}, {"name": "g", "type": "int"}, {"name": "h", "type": "string"}]}
    T = {"type": "record", "name": "T", "fields": [{"name": "field", "type": {"type": "enum", "name": "Names", "symbols": ["f", "g", "h"]}},
                                                    {"name": "operator", "type": "string"}, {"name": "value", "type": ["int", "string"]}]}
    if which == "int":
        def ref2(d, c):
            v = untag(c["value"])
            if (c["field"] == "h") != isinstance(v, str):
                return SKIP
            out = comparison("string" if c["field"] == "h" else "int", ["int", "string"], d[c["field"]], c["operator"], v, missing, base)
            return {"boolean": out} if missing else out
        sweep(ctx, fname, [D, T], ["null", "boolean"] if missing else "boolean", ref2,
              (({"f": f, "g": g, "h": h}, {"field": n, "operator": op, "value": v}) for f in (0, 1) for g in (0, 1) for h in ("a", "b") for n in "fgh"
               for op in ("<", "==", "!=", ">=") for v in ({"int": 0}, {"int": 1}, {"string": "a"}, {"string": "b"})), label=fname + "/fields",
              judge=lambda got, want, args: agree(got, want) or (missing and got[0] == "ok" and isinstance(want[1], dict) and agree(got, ("ok", want[1]["boolean"]))))


def compound(ctx):
    D = {"type": "record", "name": "D", "fields": [{"name": "x", "type": ["null", "int"]}, {"name": "y", "type": ["null", "int"]}]}
    P = {"type": "record", "name": "P", "fields": [{"name": "x", "type": "int"}, {"name": "y", "type": "int"}]}
    T = {"type": "record", "name": "T", "fields": [{"name": "field", "type": {"type": "enum", "name": "Names", "symbols": ["x", "y"]}},
                                                    {"name": "operator", "type": "string"}, {"name": "value", "type": "int"}]}
    tests = [{"field": f, "operator": op, "value": v} for f in "xy" for op, v in (("<=", 0), ("==", 1))] + [{"field": "x", "operator": "alwaysTrue", "value": 0}]
    lists = [list(t) for k in range(4) for t in itertools.product(tests, repeat=k)]

    def one(d, t):
        f = d[t["field"]]
        if t["operator"] == "alwaysTrue":
            return True
        f = untag(f) if f is not None else None
        return None if f is None else (f <= t["value"] if t["operator"] == "<=" else f == t["value"])

    def ref(d, op, ts):
        rs = [one(d, t) for t in ts]
        if op == "and":
            return all(rs)
        if op == "or":
            return any(rs)
        if op == "xor":
            return sum(rs) % 2 == 1
        raise Err(32020)
    sweep(ctx, "model.tree.compoundTest", [P, "string", A(T), fref("model.tree.simpleTest", [("d", "P"), ("t", "T")], "boolean")], "boolean", ref,
          (({"x": x, "y": y}, op, ts) for x in (0, 1) for y in (0, 1, 2) for op in ("and", "or", "xor", "nand", "") for ts in lists))

    def surrogate(d, ts):
        for t in ts:
            r = one(d, t)
            if r is not None:
                return r
        raise Err(32030)
    sweep(ctx, "model.tree.surrogateTest", [D, A(T), fref("model.tree.missingTest", [("d", "D"), ("t", "T")], ["null", "boolean"])], "boolean", surrogate,
          (({"x": x, "y": y}, ts) for x in (None, {"int": 0}, {"int": 1}) for y in (None, {"int": 0}, {"int": 1}, {"int": 2}) for ts in lists))


# ------------------------------------------------------------------ walks

def shapes(n):
    """All binary trees with n inner nodes: nested pairs, leaves are None."""
    if n == 0:
        yield None
    for k in range(n):
        for a in shapes(k):
            for b in shapes(n - 1 - k):
                yield (a, b)


def ternary(n):
    if n == 0:
        yield None
    for i in range(n):
        for j in range(n - i):
            for a in ternary(i):
                for b in ternary(j):
                    for c in ternary(n - 1 - i - j):
                        yield (a, b, c)


def fill(shape, tests, leaf, ways, tag, count):
    """The tree of this shape with the given tests in preorder and numbered leaves."""
    if shape is None:
        count[0] += 1
        return leaf(count[0] - 1)
    node = dict(next(tests))
    for w, s in zip(ways, shape):
        sub = fill(s, tests, leaf, ways, tag, count)
        node[w] = sub if s is None else {tag: sub}
    return node


LEAVES = {"string": lambda i: {"string": "leaf%d" % i}, "double": lambda i: {"double": 1.5 * i}, "int": lambda i: {"int": i - 1}, "null": lambda i: None,
          "record": lambda i: {"Leaf": {"n": i, "s": "x%d" % i}}, "array": lambda i: {"array": [float(i)]}, "boolean": lambda i: {"boolean": i % 2 == 0}}
LEAFTYPES = {"record": {"type": "record", "name": "Leaf", "fields": [{"name": "n", "type": "int"}, {"name": "s", "type": "string"}]}, "array": A("double")}


def walks(ctx, fname, leaf, ns, order):
    missing = fname.endswith("missingWalk")
    n = (4 if ctx.thorough else 3) if not missing else (3 if ctx.thorough else 2)
    leafType = LEAFTYPES.get(leaf, leaf)
    full = (ns + "." if ns else "") + "T"
    t = lambda u: ["null", u] if missing else u
    D = {"type": "record", "name": "D", "fields": [{"name": "x", "type": t("int")}, {"name": "s", "type": t("string")}, {"name": "spare", "type": "boolean"}]}
    ways = ("pass", "fail", "missing") if missing else ("pass", "fail")
    T = {"type": "record", "name": "T", "fields": [{"name": "field", "type": {"type": "enum", "name": "Names", "symbols": ["x", "s", "spare"]}},
                                                    {"name": "operator", "type": "string"}, {"name": "value", "type": ["double", "string"]}]}
    first = True
    for w in ways:
        lt = leafType if first or not isinstance(leafType, dict) or "name" not in leafType else ((ns + "." if ns else "") + leafType["name"])
        first = False
        T["fields"].append({"name": w, "type": [full, lt] if order else [lt, full]})
    if ns:
        T["namespace"] = ns
    if leaf == "record" and (ns or not order):
        return      # which branch of a union pattern a type variable stands for is left open
    tests = [{"field": "x", "operator": "<", "value": {"double": 0.5}}, {"field": "x", "operator": "==", "value": {"double": 2.0}},
             {"field": "s", "operator": "==", "value": {"string": "a"}}, {"field": "s", "operator": ">", "value": {"string": "b"}},
             {"field": "x", "operator": "alwaysFalse", "value": {"string": ""}}]
    if not missing:
        tests[4]["operator"] = "alwaysTrue"
    wrap = (lambda k, v: None if v is None else {k: v}) if missing else (lambda k, v: v)
    data = [{"x": wrap("int", x), "s": wrap("string", s), "spare": True} for x in (0, 1, 2) + ((None,) if missing else ())
            for s in ("a", "c") + ((None,) if missing else ())]
    deep = leaf == "string" and not ns and order
    types = [D, T]
    if fname.endswith("Walk"):
        types.append(fref("model.tree.missingTest" if missing else "model.tree.simpleTest", [("d", "D"), ("t", full)], ["null", "boolean"] if missing else "boolean"))
    got = tryMake(callDoc(fname, types, leafType if not (isinstance(leafType, dict) and "name" in leafType) else "Leaf"))
    case = ("accepted", fname, leaf, ns, order)
    if got[0] != "ok":
        if ctx.want(case):
            ctx.fail(case, "{0} refuses trees in namespace {1!r} with leaves of type {2}: {3}".format(fname, ns, leaf, got[1:]))
        return

    def answer(d, node):
        v = d[node["field"]]
        v = untag(v)
        op, value = node["operator"], untag(node["value"])
        if op in ("alwaysTrue", "alwaysFalse"):
            r = op == "alwaysTrue"
        elif v is None:
            r = None
        else:
            r = {"<": v < value, "==": v == value, ">": v > value}[op] if isinstance(v, str) == isinstance(value, str) else None
        return "missing" if r is None else "pass" if r else "fail"

    def ref(d, node):
        while True:
            u = node[answer(d, node)]
            if u is None:
                return None
            (tag, node), = u.items()
            if tag != full:
                return node
    cases = ((d, tree) for k in range(1, (n if deep else 2) + 1) for shape in (ternary(k) if missing else shapes(k)) for chosen in itertools.product(tests, repeat=k)
             for tree in [fill(shape, iter(chosen), LEAVES[leaf], ways, full, [0])] for d in data)
    sweep(ctx, fname, types, leafType if not (isinstance(leafType, dict) and "name" in leafType) else "Leaf", ref, cases, label="%s/%s/%s/%s" % (fname, leaf, ns, order))


# ------------------------------------------------------------------ growing

def entropy(zs):
    n = float(len(zs))
    return -sum(zs.count(z) / n * math.log(zs.count(z) / n, 2) for z in set(zs))


def spread(zs):
    m = sum(zs) / float(len(zs))
    return sum((z - m) ** 2 for z in zs)


def gainOf(rows, inside, number):
    a, b = [r[-1] for r in rows if inside(r)], [r[-1] for r in rows if not inside(r)]
    zs = [r[-1] for r in rows]
    if not a or not b:
        return None
    if number:
        return spread(zs) - spread(a) - spread(b)
    n = float(len(zs))
    return entropy(zs) - len(a) / n * entropy(a) - len(b) / n * entropy(b)


def splits(rows, i, subset):
    values = sorted(set(r[i] for r in rows))
    if values and isinstance(values[0], str):
        top = int(math.ceil(len(values) / 2.0))
        top = top if subset is None else min(top, subset)
        for k in range(1, top + 1):
            for c in itertools.combinations(values, k):
                if k < len(values):
                    yield lambda r, c=c: r[i] in c
    else:
        for a, b in zip(values, values[1:]):
            yield lambda r, a=a: r[i] <= a


def grown(ctx, kinds, number, subset, size, how):
    """All training sets of this size: kinds of the regressors, kind of the predictand."""
    import numpy
    from titus.producer.cart import Dataset, TreeNode
    warnings.simplefilter("ignore")
    numpy.seterr(all="ignore")
    letters = {"n": (0.0, 1.0, 2.5), "w": ("p", "q", "r"), "i": (0, 1, 3)}
    small = size > 3 or (size == 3 and len(kinds) > 1 and not ctx.thorough)
    zs = (0.0, 2.0) if number and small else (0.0, 1.0, 4.0) if number else ("A", "B") if small else ("A", "B", "C")
    if size > 3 and len(kinds) > 1 and not ctx.thorough:
        letters = dict((k, v[:2]) for k, v in letters.items())
    rows = list(itertools.product(*([letters[k] for k in kinds] + [zs])))
    names = ["v%d" % i for i in range(len(kinds))]
    types = {"n": "double", "w": "string", "i": "int"}
    D = {"type": "record", "name": "Datum", "fields": [{"name": "unused", "type": "boolean"}] + [{"name": n, "type": types[k]} for n, k in zip(names, kinds)][::-1]}
    probes = list(itertools.product(*[{"n": (-1.0, 0.5, 1.0, 1.75, 3.0), "w": ("p", "q", "r", "zz"), "i": (-1, 0, 1, 2, 3)}[k] for k in kinds]))
    depthLimit = {"complete": None, "one": 1, "two": 2}[how]
    for number_, chosen in enumerate(itertools.combinations_with_replacement(rows, size)):
        for table in ([list(chosen)] if chosen == chosen[::-1] else [list(chosen), list(chosen)[::-1]][:1 + ((ctx.thorough or size < 3))]):
            case = (kinds, number, subset, how, table)
            if not ctx.want(case):
                continue
            if size > 1:
                ctx.nontrivial += 1

            def grow():
                tree = TreeNode.fromWholeDataset(Dataset.fromIterable(table, names=names + ["z"]), "z", subset)
                if how == "complete":
                    tree.splitComplete()
                else:
                    tree.splitMaxDepth(depthLimit)
                return tree
            try:
                tree = grow()
            except Exception as err:
                ctx.fail(case, "growing a tree from {0} fails with {1}: {2}".format(table, type(err).__name__, err))
                if ctx.full():
                    return
                continue
            said = []

            def check(node, rows, depth):
                """Compare the node with the training data that belong to it."""
                zs = [r[-1] for r in rows]
                if node.datasetSize != len(rows):
                    said.append("a node has size {0} and {1} records".format(node.datasetSize, len(rows)))
                    return
                if number:
                    if not same(sorted(float(v) for v in node.predictandUnique), sorted(set(zs))):
                        said.append("the unique values of {0} are {1}".format(zs, node.predictandUnique))
                    if abs(node.score() - sum(zs) / float(len(zs))) > 1e-9:
                        said.append("the score of {0} is {1}".format(zs, node.score()))
                else:
                    dist = dict((node.predictand.intToStr[i], f) for i, f in enumerate(node.predictandDistribution))
                    if any(abs(f - zs.count(z) / float(len(zs))) > 1e-9 for z, f in dist.items()) or not set(zs) <= set(dist):
                        said.append("the distribution of {0} is {1}".format(zs, dist))
                    if zs.count(node.score()) != max(zs.count(z) for z in zs):
                        said.append("the score of {0} is {1}".format(zs, node.score()))
                options = [g for i in range(len(kinds)) for s in splits(rows, i, subset) for g in [gainOf(rows, s, number)]]
                if not hasattr(node, "passBranch"):
                    if len(set(zs)) > 1 and options and (depthLimit is None or depth < depthLimit):
                        said.append("{0} could be split and is a leaf".format(rows))
                    return
                if depthLimit is not None and depth >= depthLimit:
                    said.append("the tree is deeper than {0}".format(depthLimit))
                i = names.index(node.splitField())
                inside = decide(node)
                gain = gainOf(rows, inside, number)
                if gain is None:
                    said.append("{0} is split into all and nothing".format(rows))
                    return
                if not options or gain < max(options) - 1e-9:
                    said.append("{0} is split with gain {1}, the best is {2}".format(rows, gain, max(options)))
                if abs(node.gain - gain) > 1e-9:
                    said.append("the gain of {0} is {1}, reported as {2}".format(rows, gain, node.gain))
                spreadOf = node.nTimesVariance if number else node.entropy
                if abs(spreadOf - (spread(zs) if number else entropy(zs))) > 1e-9:
                    said.append("the impurity of {0} is reported as {1}".format(rows, spreadOf))
                check(node.passBranch, [r for r in rows if inside(r)], depth + 1)
                check(node.failBranch, [r for r in rows if not inside(r)], depth + 1)

            def decide(node):
                i = names.index(node.splitField())
                if kinds[i] == "w":
                    words = [node.field.intToStr[c] for c in node.split]
                    return lambda r: r[i] in words
                return lambda r: r[i] <= node.split
            check(tree, table, 0)
            ctx.outcome((kinds, number, repr(sorted(said)), sum(1 for _ in tree.walkNodes())))
            if said:
                ctx.fail(case, "the tree of {0} (subset {1}, {2}): {3}".format(table, subset, how, said[0]))
                if ctx.full():
                    return
                continue
            # the written tree answers as the grown one does
            if not hasattr(tree, "passBranch") or (not ctx.thorough and number_ % (3 if size < 3 else 24 if size == 3 else 60)):
                continue
            ctx.traces += 1
            flags = {"nodeScores": True, "datasetSize": True, "predictandUnique": True, "gain": True}
            flags.update({"nTimesVariance": True} if number else {"entropy": True, "predictandDistribution": True})
            for options in ({}, flags):
                try:
                    doc = tree.pfaDocument(D, "TreeNode", **options)
                except Exception as err:
                    ctx.fail(case, "writing the tree of {0} fails with {1}: {2}".format(table, type(err).__name__, err))
                    break
                got = tryMake(doc)
                if got[0] != "ok":
                    ctx.fail(case, "the document of the tree of {0} (subset {1}) is refused: {2}".format(table, subset, show(got)))
                    break
                engine = got[1]
                for probe in probes:
                    node = tree
                    while hasattr(node, "passBranch"):
                        node = node.passBranch if decide(node)(probe) else node.failBranch
                    out = outcome(engine.action, dict(zip(names, probe), unused=False))
                    if not agree(out, ("ok", float(node.score()) if number else node.score()), 1e-9):
                        ctx.fail(case, "the document of the tree of {0} answers {1} to {2}, the tree {3}".format(table, show(out), probe, node.score()))
                        break
                if options:
                    top = doc["cells"]["tree"]["init"]
                    zs = [r[-1] for r in table]
                    want = {"datasetSize": len(table), "scoreValues": sorted(set(zs)), "gain": float(tree.gain)}
                    if number:
                        want.update(score=sum(zs) / len(zs), nTimesVariance=spread(zs))
                    else:
                        want.update(entropy=entropy(zs), scoreDistribution=dict((z, zs.count(z) / float(len(zs))) for z in set(zs)))
                    for k, v in want.items():
                        if not same(json.loads(json.dumps(top.get(k))), v, 1e-9):
                            ctx.fail(case, "the document of the tree of {0} says {1} = {2}, must be {3}".format(table, k, top.get(k), v))
            if ctx.full():
                return


def datasets(ctx):
    """Building datasets: what is kept, what is refused, and the way back."""
    from titus.producer.cart import Dataset
    words = [0, 1.5, "a", "b", "", None, True]
    rows = [list(t) for k in range(3) for t in itertools.product(words, repeat=k)]
    kind = lambda w: "n" if isinstance(w, (int, float)) else "s" if isinstance(w, str) else None
    for table in [list(t) for k in range(1, 3) for t in itertools.product(rows, repeat=k)]:
        for limit in (None, 1):
            case = ("dataset", table, limit)
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            try:
                d = Dataset.fromIterable(table, limit)
                got = [list(f.toPython().data) for f in d.fields]
            except ValueError:
                got = None
            except Exception as err:
                ctx.fail(case, "Dataset.fromIterable({0}) fails with {1}: {2}".format(table, type(err).__name__, err))
                continue
            used = table[:limit] if limit else table
            kinds = [kind(w) for w in table[0]]
            ok = None not in kinds and all([kind(w) for w in r] == kinds for r in used)
            want = [[float(w) if k == "n" else w for w in col] for k, col in zip(kinds, zip(*used))] if ok else None
            ctx.outcome(repr(want))
            if (got is None) != (want is None) or (want and not same([list(map(lambda x: float(x) if not isinstance(x, str) else x, c)) for c in got], want)):
                ctx.fail(case, "Dataset.fromIterable({0}, {1}) is {2}, must be {3}".format(table, limit, got, want))


def tasks(tier):
    out = []
    for fname in ("model.tree.simpleTest", "model.tree.missingTest"):
        for name, _, _, _ in fieldTypes():
            out.append(("%s/%s" % (fname, name), tests, (name, fname)))
    out.append(("compound", compound, ()))
    for fname in ("model.tree.simpleWalk", "model.tree.missingWalk", "model.tree.simpleTree"):
        for leaf in sorted(LEAVES):
            for ns in ("", "com.x"):
                for order in (True, False):
                    out.append(("%s/%s/%s/%s" % (fname, leaf, ns, order), walks, (fname, leaf, ns, order)))
    for kinds in ("n", "w", "nw", "nn", "ww", "i") + (("iw",) if tier == "thorough" else ()):
        for number in (True, False):
            for subset in ((None, 1, 2) if "w" in kinds else (None,)):
                for size in (1, 2, 3, 4) + ((5, 6) if len(kinds) == 1 else ()) + ((5,) if tier == "thorough" and len(kinds) > 1 else ()):
                    if tier != "thorough" and size > 2 and len(kinds) > 1 and subset == 2:
                        continue
                    for how in ("complete", "one", "two") if tier == "thorough" or size <= 2 or (size == 3 and len(kinds) == 1) else ("complete",):
                        out.append(("grow/%s/%s/%s/%d/%s" % (kinds, number, subset, size, how), grown, (kinds, number, subset, size, how)))
    out.append(("datasets", datasets, ()))
    return out
