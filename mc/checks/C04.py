"""C04: values never change once they have been computed. Every library function, applied to values that the host, a cell and variables
hold as well; and all chains of updates of aliased values against a model in which values are immutable."""
import copy
import itertools

from mc import lib
from mc.eng import *

LEVEL = "model_checking"
RULE = ("library: every function, signature and choice of wildcard types, applied to small values whose parts are also held by variables, a cell and the host, then applied again to its own result; "
        "holders: all sequences of assignments and updates over variables, cells, a pool, containers and closures, up to the depth bound, split into scoring calls in every way, all holders compared "
        "with immutable values after every step; non-trivial: library cases whose arguments contain arrays, maps or records, histories with an update")
ASSUMPTIONS = ["objects that the host itself changes after handing them over are out of scope"]


# ---------------------------------------------------------------- library

def libDoc(inst, which):
    fields = [{"name": "a%d" % i, "type": k[1]} for i, k in enumerate(inst.kinds) if k[0] == "value"]
    IN = {"type": "record", "name": "In", "fields": fields}
    args = ["v%d" % i if k[0] == "value" else inst.fcnDef(i, which) for i, k in enumerate(inst.kinds)]
    ret = inst.ret
    opt = [b for b in ret] + ([] if "null" in ret else ["null"]) if isinstance(ret, list) else [ret, "null"] if ret != "null" else "null"
    OUT = {"type": "record", "name": "Out", "fields": [{"name": "args", "type": IN}, {"name": "r", "type": opt}]}
    out = lambda r: {"emit": [{"type": OUT, "new": {"args": "input", "r": r}}]}
    act = [{"let": {"v%d" % i: "input.a%d" % i}} for i, k in enumerate(inst.kinds) if k[0] == "value"]
    act += [{"cell": "h", "to": "input"}, out(None), {"let": {"r": {inst.fname: args}}}, out("r")]
    for i, k in enumerate(inst.kinds):
        if k[0] == "value" and k[1] == ret and lib.size(ret):
            act += [{"let": {"s%d" % i: {inst.fname: args[:i] + ["r"] + args[i + 1:]}}}, out("s%d" % i), out("r")]
            for j, k2 in enumerate(inst.kinds):
                if j > i and k2[0] == "value" and lib.size(k2[1]):
                    continue
    doc = {"input": IN, "output": OUT, "method": "emit", "action": act, "cells": {"h": {"type": IN, "init": lib.tagged(IN, lib.value(IN, 0, 0))}}, "randseed": 5}
    return doc


def choices(inst, deep):
    sizes = [0, 1, 2, 3]
    held = [i for i, k in enumerate(inst.kinds) if k[0] == "value" and lib.size(k[1])]
    for k in range(5 if deep else 3):
        if 1 < len(held) <= (3 if deep else 2):
            combos = itertools.product(sizes, repeat=len(held))
        else:
            combos = ((n,) * len(held) for n in sizes)
        for ns in combos:
            n = dict(zip(held, ns))
            yield [lib.value(kind[1], n.get(i, 1), k + i) for i, kind in enumerate(inst.kinds) if kind[0] == "value"], (k, ns)


def library(ctx, names):
    for fname in names:
        if ctx.only is not None and repr(fname) not in ctx.only:
            continue
        for inst in lib.instances(fname):
            fcn = any(k[0] == "fcn" for k in inst.kinds)
            for which in ((0, 1) if fcn else (0,)):
                r = tryMake(once(libDoc(inst, which)))
                case0 = ["library", fname, inst.label, which]
                if r[0] != "ok":
                    ctx.note("no engine: " + inst.label)
                    continue
                e = r[1]
                held = any(k[0] == "value" and lib.size(k[1]) for k in inst.kinds)
                pairs = []
                e.emit = lambda x: pairs.append((x, copy.deepcopy(x)))
                for values, label in choices(inst, ctx.thorough):
                    case = case0 + [label]
                    if not ctx.want(case):
                        continue
                    datum = {}
                    for (i, k), v in zip([(i, k) for i, k in enumerate(inst.kinds) if k[0] == "value"], values):
                        datum["a%d" % i] = lib.tagged(k[1], v)
                    before = copy.deepcopy(datum)
                    del pairs[:-6]
                    got = outcome(e.action, datum)
                    ctx.transitions += 1
                    if held:
                        ctx.nontrivial += 1
                    ctx.outcome((fname, got[0], len(pairs)))
                    if not same(datum, before):
                        ctx.fail(case, "%s changed the host's input from %s to %s" % (fname, show(before), show(datum)))
                    for x, y in pairs:
                        if not same(x, y):
                            ctx.fail(case, "%s changed a value that was computed before: %s became %s (input %s)" % (fname, show(y), show(x), show(before)))
                            break
                    if ctx.full():
                        return
                    ctx.sample("%s%s" % (fname, show(before, 100)), 1)


# ---------------------------------------------------------------- holders

A = {"type": "array", "items": "int"}
M = {"type": "map", "values": A}
T = {"type": "record", "name": "T", "fields": [{"name": "n", "type": "int"}, {"name": "a", "type": A}, {"name": "m", "type": M}, {"name": "s", "type": {"type": "array", "items": {"type": "record", "name": "Sub", "fields": [{"name": "z", "type": "int"}]}}}]}
OUT = {"type": "record", "name": "All", "fields": [{"name": n, "type": "T"} for n in ("x", "y", "c", "d", "p", "q")] + [{"name": "aa", "type": {"type": "array", "items": "T"}}]}
V = lambda n: {"n": n, "a": [n, n + 1, n + 2], "m": {"k": [n], "l": [n, 9]}, "s": [{"z": n}, {"z": 0}]}
S = lambda s: {"string": s}
CELL = lambda c: {"cell": c}
POOL = lambda k: {"pool": "P", "path": [S(k)]}
FN = lambda t, body: {"params": [{"w": t}], "ret": t, "do": body}


def put(v, path, x):
    """A copy with x (a value, or a function of the old value) at the path."""
    v = copy.deepcopy(v)
    if not path:
        return x(v) if callable(x) else x
    w = v
    for k in path[:-1]:
        w = w[k]
    w[path[-1]] = x(w[path[-1]]) if callable(x) else copy.deepcopy(x)
    return v


def assign(target, source, model):
    """op: target holder becomes an expression; model: function of the state."""
    def step(st):
        st[target] = copy.deepcopy(model(st))
    form = {"x": lambda e: {"set": {"x": e}}, "y": lambda e: {"set": {"y": e}}, "aa": lambda e: {"set": {"aa": e}}, "c": lambda e: {"cell": "c", "to": e}, "d": lambda e: {"cell": "d", "to": e},
            "p": lambda e: {"pool": "P", "path": [S("p")], "to": e, "init": e}, "q": lambda e: {"pool": "P", "path": [S("q")], "to": e, "init": e}}[target]
    return form(source), step


LIT = {"type": "T", "value": V(70)}
LITA = {"type": A, "value": [5, 6]}
OPS = {
    "y=x": assign("y", "x", lambda s: s["x"]),
    "x=y": assign("x", "y", lambda s: s["y"]),
    "x.n": assign("x", {"attr": "x", "path": [S("n")], "to": 1}, lambda s: put(s["x"], ["n"], 1)),
    "y.a[0]": assign("y", {"attr": "y", "path": [S("a"), 0], "to": FN("int", {"+": ["w", 1]})}, lambda s: put(s["y"], ["a", 0], lambda w: w + 1)),
    "x.m[k][0]": assign("x", {"attr": "x", "path": [S("m"), S("k"), 0], "to": 2}, lambda s: put(s["x"], ["m", "k", 0], 2)),
    "y=x.s[0].z": assign("y", {"attr": "x", "path": [S("s"), 0, S("z")], "to": 3}, lambda s: put(s["x"], ["s", 0, "z"], 3)),
    "x.a=y.a": assign("x", {"attr": "x", "path": [S("a")], "to": "y.a"}, lambda s: put(s["x"], ["a"], s["y"]["a"])),
    "c=x": assign("c", "x", lambda s: s["x"]),
    "d=c": assign("d", CELL("c"), lambda s: s["c"]),
    "x=c": assign("x", CELL("c"), lambda s: s["c"]),
    "y=d": assign("y", CELL("d"), lambda s: s["d"]),
    "c.n": ({"cell": "c", "path": [S("n")], "to": 4}, lambda s: s.update(c=put(s["c"], ["n"], 4))),
    "c.a[1]": ({"cell": "c", "path": [S("a"), 1], "to": FN("int", {"+": ["w", 10]})}, lambda s: s.update(c=put(s["c"], ["a", 1], lambda w: w + 10))),
    "c.m[k]=x.a": ({"cell": "c", "path": [S("m"), S("k")], "to": "x.a"}, lambda s: s.update(c=put(s["c"], ["m", "k"], s["x"]["a"]))),
    "c.m[k][0]": ({"cell": "c", "path": [S("m"), S("k"), 0], "to": 5}, lambda s: s.update(c=put(s["c"], ["m", "k", 0], 5))),
    "d fcn": ({"cell": "d", "to": {"fcn": "u.mod"}}, lambda s: s.update(d=put(s["d"], ["a", 2], 6))),
    "c fcn cell": ({"cell": "c", "to": FN("T", {"attr": "w", "path": [S("a")], "to": {"cell": "d", "path": [S("a")]}})}, lambda s: s.update(c=put(s["c"], ["a"], s["d"]["a"]))),
    "x=u.mod(y)": assign("x", {"u.mod": ["y"]}, lambda s: put(s["y"], ["a", 2], 6)),
    "p=x": assign("p", "x", lambda s: s["x"]),
    "q=p": assign("q", POOL("p"), lambda s: s["p"]),
    "x=p": assign("x", POOL("p"), lambda s: s["p"]),
    "p.a[0]": ({"pool": "P", "path": [S("p"), S("a"), 0], "to": FN("int", {"+": ["w", 100]}), "init": "x"}, lambda s: s.update(p=put(s["p"], ["a", 0], lambda w: w + 100))),
    "q.m[l][1]": ({"pool": "P", "path": [S("q"), S("m"), S("l"), 1], "to": 7, "init": "x"}, lambda s: s.update(q=put(s["q"], ["m", "l", 1], 7))),
    "q init x": ([{"pool": "P", "del": S("q")}, {"pool": "P", "path": [S("q"), S("a"), 1], "to": 8, "init": "x"}], lambda s: s.update(q=put(s["x"], ["a", 1], 8) if False else copy.deepcopy(s["x"]))),
    "aa=[x,c]": assign("aa", {"type": {"type": "array", "items": "T"}, "new": ["x", CELL("c")]}, lambda s: [s["x"], s["c"]]),
    "aa[0].a[0]": assign("aa", {"attr": "aa", "path": [0, S("a"), 0], "to": 9}, lambda s: put(s["aa"], [0, "a", 0], 9)),
    "x=aa[1]": assign("x", {"attr": "aa", "path": [1]}, lambda s: s["aa"][1]),
    "aa.append": assign("aa", {"a.append": ["aa", "x"]}, lambda s: (s["aa"] + [s["x"]])),
    "aa map": assign("aa", {"a.map": ["aa", {"fcn": "u.mod"}]}, lambda s: [put(v, ["a", 2], 6) for v in s["aa"]]),
    "x=lit": assign("x", LIT, lambda s: V(70)),
    "lit.a[0]": assign("y", {"attr": LIT, "path": [S("a"), 0], "to": 71}, lambda s: put(V(70), ["a", 0], 71)),
    "x.a sorted": assign("x", {"attr": "x", "path": [S("a")], "to": {"a.sort": [{"a.concat": [LITA, {"attr": "x", "path": [S("a")]}]}]}}, lambda s: put(s["x"], ["a"], sorted([5, 6] + s["x"]["a"]))),
    "foreach": ([{"foreach": "w", "in": "aa", "do": {"set": {"y": {"attr": "w", "path": [S("n")], "to": 12}}}}], lambda s: s.update(y=put(s["aa"][-1], ["n"], 12)) if s["aa"] else None),
    "closure": ([{"let": {"zz": {"a.map": ["aa", FN("T", {"attr": "x", "path": [S("a"), 0], "to": 13})]}}}, {"set": {"aa": "zz"}}], lambda s: s.update(aa=[put(s["x"], ["a", 0], 13) for _ in s["aa"]])),
    "map.add": assign("y", {"attr": "y", "path": [S("m")], "to": {"map.add": ["x.m", S("new"), "x.a"]}}, lambda s: put(s["y"], ["m"], dict(s["x"]["m"], new=s["x"]["a"]))),
    "replace": assign("x", {"attr": "x", "path": [S("s")], "to": {"a.replace": ["x.s", 0, {"type": "Sub", "new": {"z": 14}}]}}, lambda s: put(s["x"], ["s", 0], {"z": 14})),
}
NAMES = sorted(OPS)
# a new item takes the initial value and the update is not applied to it, or it is: both happen in different versions of the language, so the item's own value is taken from the engine
HOLDERS = ["x", "y", "c", "d", "p", "q", "aa"]
_engine = []


def engine():
    if not _engine:
        state = {"type": OUT, "new": {"x": "x", "y": "y", "c": CELL("c"), "d": CELL("d"), "p": POOL("p"), "q": POOL("q"), "aa": "aa"}}
        cases = [{"if": {"==": ["op", i]}, "then": OPS[n][0] if isinstance(OPS[n][0], list) else [OPS[n][0]]} for i, n in enumerate(NAMES)]
        doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "ops", "type": A}, {"name": "x", "type": T}, {"name": "y", "type": "T"}, {"name": "reset", "type": "boolean"}]}, "output": OUT, "method": "emit",
               "action": [{"if": "input.reset", "then": [{"cell": "c", "to": {"type": "T", "value": V(20)}}, {"cell": "d", "to": {"type": "T", "value": V(30)}}, {"pool": "P", "path": [S("p")], "to": {"type": "T", "value": V(40)}, "init": "input.x"},
                                                          {"pool": "P", "path": [S("q")], "to": {"type": "T", "value": V(50)}, "init": "input.x"}]},
                          {"let": {"x": "input.x", "y": "input.y"}}, {"let": {"aa": {"type": {"type": "array", "items": "T"}, "new": ["x", "y"]}}}, {"emit": [state]},
                          {"foreach": "op", "in": "input.ops", "do": [{"cond": cases, "else": {"error": "op"}}, {"emit": [state]}]}],
               "fcns": {"mod": FN("T", [{"let": {"v": {"attr": "w", "path": [S("a"), 2], "to": 6}}}, "v"])},
               "cells": {"c": {"type": "T", "init": V(20)}, "d": {"type": "T", "init": V(30)}}, "pools": {"P": {"type": "T", "init": {"p": V(40), "q": V(50)}}}}
        _engine.append(make(doc))
    return _engine[0]


def holders(ctx, firsts):
    depth = 4 if ctx.thorough else 3
    e = engine()
    for first in firsts:
        for rest in itertools.product(range(len(NAMES)), repeat=2):
            history(ctx, e, (first,) + rest, depth)
            if ctx.full():
                return


SPLITS = {3: ((3,), (1, 2), (2, 1)), 4: ((4,), (2, 2))}


def history(ctx, e, ops, depth):
    if depth == 4:
        # the last step runs through a fixed selection of updates
        for last in ("x.m[k][0]", "c.a[1]", "p.a[0]", "aa[0].a[0]", "d fcn", "y.a[0]"):
            one(ctx, e, ops + (NAMES.index(last),), (2, 2))
    for split in SPLITS[3]:
        one(ctx, e, ops, split)


def one(ctx, e, ops, split):
    case = ["holders", [NAMES[i] for i in ops], split]
    if not ctx.want(case):
        return
    ctx.nontrivial += 1
    ctx.traces += 1
    kept = []
    start = 0
    st = {"c": V(20), "d": V(30), "p": V(40), "q": V(50)}
    for part in split:
        mine = ops[start:start + part]
        datum = {"ops": list(mine), "x": V(0), "y": V(10), "reset": start == 0}
        before = copy.deepcopy(datum)
        seen = []
        e.emit = lambda v: seen.append((v, copy.deepcopy(v)))
        got = outcome(e.action, datum)
        st.update(x=V(0), y=V(10), aa=[V(0), V(10)])
        want = [copy.deepcopy(st)]
        legal = True
        for i in mine:
            try:
                OPS[NAMES[i]][1](st)
            except IndexError:
                legal = False
                break
            want.append(copy.deepcopy(st))
        for k, ((v, now), w) in enumerate(zip(seen, want)):
            ctx.transitions += 1
            if k and mine[k - 1] == NAMES.index("q init x") and not same(now["q"], w["q"]) and same(now["q"], put(w["x"], ["a", 1], 8)):
                return      # the other reading of a new item
            wrong = [h for h in HOLDERS if not same(now[h], w[h])]
            if wrong:
                ctx.fail(case, "after %s: %s" % ([NAMES[i] for i in mine[:k]], "; ".join("%s is %s, must be %s" % (h, show(now[h], 200), show(w[h], 200)) for h in wrong[:3])))
                return
        if legal and (got[0] != "ok" or len(seen) != len(want)):
            ctx.fail(case, "ends with %s" % show(got))
            return
        kept += seen
        for v, then in kept:
            if not same(v, then):
                ctx.fail(case, "an output that the host holds changed from %s to %s" % (show(then), show(v)))
                return
        if not same(datum, before):
            ctx.fail(case, "the host's input changed from %s to %s" % (show(before), show(datum)))
            return
        start += part
        if not legal:
            return
    ctx.outcome(repr(st))
    ctx.states += 1


def tasks(tier):
    names = sorted(lib.FUNCTIONS)
    out = [("library %d" % i, library, (names[i::24],)) for i in range(24)]
    out += [("holders %d" % i, holders, (list(range(len(NAMES)))[i::16],)) for i in range(16)]
    return out
