"""C03: no engine waits forever. The documents: every way an updating function can reach a write, and the same without the write. The
executions: all schedules with a bounded number of preemptions of engines that fail in every way while they update."""
from mc import sched
sched.install()     # before titus creates any lock

import itertools

import titus.reader
from mc import clock
from mc.eng import *
from titus.genpy import SharedState

LEVEL = "model_checking"
RULE = ("documents: every combination of updated store, kind of updating function, call chain, place of an inner expression and write or read in that place, made into an engine and, if accepted, "
        "run; executions: all schedules up to the preemption bound of two or three engines that fail inside updates in every way, each followed by every later use; non-trivial: documents with "
        "a write or a call chain, executions with a preemption")
ASSUMPTIONS = ["scheduling points are source lines, calls and lock operations of the engine run time, not byte codes", "time limits are reached on a virtual clock"]

ENUM = {"type": "enum", "name": "Which", "symbols": ["h", "k"]}
REC = {"type": "record", "name": "Rc", "fields": [{"name": "n", "type": "int"}, {"name": "a", "type": {"type": "array", "items": "int"}}]}
A = {"type": "array", "items": "int"}
STORES = {"cells": {"c": {"type": "int", "init": 1, "shared": True}, "d": {"type": "int", "init": 2, "shared": True}, "r": {"type": REC, "init": {"n": 0, "a": [0, 1]}, "shared": True}},
          "pools": {"p": {"type": "int", "init": {"k": 1}, "shared": True}, "q": {"type": "int", "init": {"k": 2}, "shared": True}}}
FN = lambda body, ret="int", params=("x",): {"params": [{p: "int"} for p in params], "ret": ret, "do": body}
S = lambda s: {"string": s}

# what an updating function may do with a store; True: it writes
INNER = {"cell-to": ({"cell": "d", "to": 5}, True), "cell-to itself": ({"cell": "c", "to": 5}, True), "cell-to function": ({"cell": "d", "to": FN({"+": ["x", 1]})}, True),
         "pool-to": ({"pool": "q", "path": [S("k")], "to": 5, "init": 0}, True), "pool-to itself": ({"pool": "p", "path": [S("k")], "to": FN("x"), "init": 0}, True),
         "pool-del": ({"do": [{"pool": "q", "del": S("k")}, 3]}, True), "pool-del itself": ({"do": [{"pool": "p", "del": S("k")}, 3]}, True),
         "cell": ({"cell": "d"}, False), "pool": ({"pool": "q", "path": [S("k")]}, False), "nothing": ({"+": ["x", 1]}, False)}

# where in an int expression over x an inner int expression may stand
V = lambda e: {"type": A, "new": [e]}
PLACES = {
    "itself": lambda e: e,
    "argument": lambda e: {"+": [e, 1]},
    "last argument": lambda e: {"+": [{"*": [1, {"-": [3, e]}]}, 1]},
    "do": lambda e: {"do": [e, 4]},
    "let": lambda e: {"do": [{"let": {"y": e}}, "y"]},
    "set": lambda e: {"do": [{"let": {"y": 1}}, {"set": {"y": e}}, "y"]},
    "if": lambda e: {"if": {">": [e, 1]}, "then": 1, "else": 2},
    "then": lambda e: {"if": {">": ["x", -9]}, "then": e, "else": 2},
    "else": lambda e: {"if": {"<": ["x", -9]}, "then": 7, "else": [2, e]},
    "lone then": lambda e: {"do": [{"if": {">": ["x", -9]}, "then": e}, 2]},
    "cond if": lambda e: {"cond": [{"if": False, "then": 4}, {"if": {"<": [e, 1]}, "then": 1}], "else": 2},
    "cond then": lambda e: {"cond": [{"if": False, "then": 4}, {"if": {">": ["x", -9]}, "then": [e]}], "else": 2},
    "cond else": lambda e: {"cond": [{"if": False, "then": 4}], "else": e},
    "while": lambda e: {"do": [{"while": {"<": [e, -9]}, "do": 1}, 2]},
    "while do": lambda e: {"do": [{"let": {"i": 0}}, {"while": {"<": ["i", 2]}, "do": [e, {"set": {"i": {"+": ["i", 1]}}}]}, "i"]},
    "until": lambda e: {"do": [{"do": 1, "until": {">": [e, -9]}}, 2]},
    "do until": lambda e: {"do": [{"do": [e], "until": True}, 2]},
    "for": lambda e: {"do": [{"for": {"i": e}, "while": {"<": ["i", -9]}, "step": {"i": {"+": ["i", 1]}}, "do": 1}, 2]},
    "for while": lambda e: {"do": [{"for": {"i": 0}, "while": {"<": [e, -9]}, "step": {"i": {"+": ["i", 1]}}, "do": 1}, 2]},
    "for step": lambda e: {"do": [{"for": {"i": 0}, "while": {"<": ["i", 1]}, "step": {"i": {"+": [9, {"*": [0, e]}]}}, "do": 1}, 2]},
    "for do": lambda e: {"do": [{"for": {"i": 0}, "while": {"<": ["i", 1]}, "step": {"i": {"+": ["i", 1]}}, "do": e}, 2]},
    "foreach in": lambda e: {"do": [{"foreach": "i", "in": V(e), "do": "i"}, 2]},
    "foreach do": lambda e: {"do": [{"foreach": "i", "in": {"type": A, "value": [1]}, "do": e}, 2]},
    "forkey do": lambda e: {"do": [{"forkey": "i", "forval": "j", "in": {"type": {"type": "map", "values": "int"}, "value": {"a": 1}}, "do": e}, 2]},
    "forkey in": lambda e: {"do": [{"forkey": "i", "forval": "j", "in": {"type": {"type": "map", "values": "int"}, "new": {"a": e}}, "do": 1}, 2]},
    "new array": lambda e: {"a.len": [V(e)]},
    "new record": lambda e: {"attr": {"type": "Rc", "new": {"n": e, "a": V(1)}}, "path": [S("n")]},
    "attr path": lambda e: {"attr": {"type": A, "value": [1]}, "path": [{"*": [0, e]}]},
    "attr to": lambda e: {"attr": {"attr": {"type": A, "value": [1]}, "path": [0], "to": e}, "path": [0]},
    "attr function": lambda e: {"attr": {"attr": {"type": A, "value": [1]}, "path": [0], "to": FN(e, params=("w",))}, "path": [0]},
    "cell path": lambda e: {"cell": "r", "path": [S("a"), {"*": [0, e]}]},
    "pool path": lambda e: {"pool": "q", "path": [{"if": {">": [e, -9]}, "then": S("k"), "else": S("z")}]},
    "upcast": lambda e: {"m.round": [{"upcast": e, "as": "double"}]} if False else {"do": [{"upcast": e, "as": "double"}, 2]},
    "cast": lambda e: {"cast": e, "cases": [{"as": "int", "named": "y", "do": "y"}]},
    "case": lambda e: {"cast": "x", "cases": [{"as": "int", "named": "y", "do": [e]}]},
    "ifnotnull": lambda e: {"ifnotnull": {"y": {"if": {">": [e, -9]}, "then": 3, "else": None}}, "then": "y", "else": 2},
    "ifnotnull then": lambda e: {"ifnotnull": {"y": {"type": ["null", "int"], "value": {"int": 3}}}, "then": e, "else": 2},
    "ifnotnull else": lambda e: {"ifnotnull": {"y": {"type": ["null", "int"], "value": None}}, "then": 1, "else": e},
    "try": lambda e: {"ifnotnull": {"y": {"try": [e]}}, "then": "y", "else": 2},
    "log": lambda e: {"do": [{"log": [e]}, 2]},
    "pack": lambda e: {"bytes.len": [{"pack": [{"int": e}]}]},
    "unpack": lambda e: {"unpack": {"pack": [{"int": e}]}, "format": [{"y": "int"}], "then": "y", "else": 2},
    "unpack then": lambda e: {"unpack": {"pack": [{"int": 1}]}, "format": [{"y": "int"}], "then": e, "else": 2},
    "unpack else": lambda e: {"unpack": {"pack": [{"int": 1}]}, "format": [{"y": "double"}], "then": 2, "else": e},
    "inline function": lambda e: {"a.sum": [{"a.map": [{"type": A, "value": [1]}, FN(e, params=("w",))]}]},
    "inline in inline": lambda e: {"a.sum": [{"a.map": [{"type": A, "value": [1]}, FN({"a.sum": [{"a.map": [{"type": A, "value": [1]}, FN(e, params=("v",))]}]}, params=("w",))]}]},
    "call name": lambda e: {"call": {"if": {">": [e, -9]}, "then": {"type": {"type": "enum", "name": "One", "symbols": ["idn"]}, "value": "idn"}, "else": {"type": "One", "value": "idn"}}, "args": ["x"]},
    "call argument": lambda e: {"call": {"type": {"type": "enum", "name": "One", "symbols": ["idn"]}, "value": "idn"}, "args": [e]},
    "short-circuit": lambda e: {"if": {"&&": [{">": ["x", -9]}, {">": [e, -9]}]}, "then": 1, "else": 2},
}
USESX = set(n for n, f in PLACES.items() if "'x'" in repr(f(0)))


def routes(e):
    """Ways from an updating function's body to the expression e: (body over x, functions)."""
    arr = {"type": A, "value": [1, 2]}
    yield "inline", e, {}
    yield "user function", {"u.h": ["x"]}, {"h": FN(e)}
    yield "three functions", {"u.f": ["x"]}, {"f": FN({"u.g": [{"+": ["x", 1]}]}), "g": FN([{"let": {"y": {"u.h": ["x"]}}}, "y"]), "h": FN(e)}
    yield "after recursion", {"u.f": ["x"]}, {"f": FN({"if": {">": ["x", 3]}, "then": {"u.g": ["x"]}, "else": {"u.h": ["x"]}}), "g": FN({"u.f": [0]}), "h": FN(e)}
    yield "function reference", {"a.sum": [{"a.map": [arr, {"fcn": "u.h"}]}]}, {"h": FN(e)}
    yield "filled reference", {"a.sum": [{"a.map": [arr, {"fcn": "u.h2", "fill": {"z": 3}}]}]}, {"h2": FN(e, params=("x", "z"))}
    yield "reference in a function", {"u.g": ["x"]}, {"g": FN({"a.sum": [{"a.map": [arr, {"fcn": "u.h"}]}]}), "h": FN(e)}
    yield "dynamic call", {"call": {"type": "Which", "value": "h"}, "args": ["x"]}, {"h": FN(e), "k": FN(1)}
    yield "dynamic call of the other", {"call": {"type": "Which", "value": "h"}, "args": ["x"]}, {"h": FN(1), "k": FN(e)}
    yield "dynamic call in a function", {"u.g": ["x"]}, {"g": FN({"call": {"type": "Which", "value": "h"}, "args": ["x"]}), "h": FN(e), "k": FN(1)}


def updaters(body, fcns):
    """The function that updates: written in place, referred to, or referred to and partly filled, for cells and pools."""
    two = FN([{"let": {"unusedz": "z"}}, body], params=("x", "z"))
    for store, put in (("cell", lambda to: {"cell": "c", "to": to}), ("pool", lambda to: {"pool": "p", "path": [S("k")], "to": to, "init": 0})):
        yield store + ", in place", put(FN(body)), fcns
        yield store + ", reference", put({"fcn": "u.up"}), dict(fcns, up=FN(body))
        yield store + ", filled", put({"fcn": "u.up2", "fill": {"z": 1}}), dict(fcns, up2=two)
    yield "cell, second statement", {"cell": "c", "to": FN([{"let": {"q1": 1}}, body])}, fcns
    yield "pool, first statement", {"pool": "p", "path": [S("k")], "to": FN([body, 1]), "init": 0}, fcns


SITES = {"action": lambda e: {"action": [e]}, "user function": lambda e: {"action": [{"u.site": []}]}, "begin": lambda e: {"begin": [e], "action": [1]}, "end": lambda e: {"end": [e], "action": [1]},
         "in let": lambda e: {"action": [{"let": {"y": e}}, "y"]}, "in fold": lambda e: {"method": "fold", "zero": 0, "merge": [e], "action": ["tally"]}}


def document(site, update, fcns):
    d = dict({"input": {"type": "record", "name": "In", "fields": [{"name": "r", "type": REC}, {"name": "w", "type": ENUM}]}, "output": "int"}, **STORES)
    d.update(SITES[site](update))
    f = dict(fcns, idn=FN("x"))
    if site == "user function":
        f["site"] = {"params": [], "ret": "int", "do": update}
    if f:
        d["fcns"] = f
    return d


def use(e, site):
    """Run what was accepted: a wait for a lock that is held shows as an error of the scheduler's locks."""
    e.log = lambda m, n: None
    datum = {"r": {"n": 0, "a": [1]}, "w": "h"}
    def go():
        e.begin()
        e.action(datum)
        e.action(datum)
        if site == "in fold":
            e.merge(1, 2)
        e.end()
    return outcome(go)


def static(ctx, inner):
    e, writes = INNER[inner]
    for place, f in PLACES.items():
        if "'x'" in repr(e) and place in ("inline function", "inline in inline", "attr function"):
            continue
        for route, body, fcns in routes(f(e)):
            for upd, update, fcns2 in updaters(body, fcns):
                sites = ["action"] if not (ctx.thorough or place in ("itself", "let")) else sorted(SITES)
                if not ctx.thorough and place not in ("itself", "argument", "do") and not (route == "inline" or upd in ("cell, in place", "pool, reference")):
                    continue
                for site in sites:
                    case = ["static", inner, place, route, upd, site]
                    if not ctx.want(case):
                        continue
                    if writes or route != "inline":
                        ctx.nontrivial += 1
                    ctx.states += 1
                    d = document(site, update, fcns2)
                    r = tryMake(once(d))
                    ctx.outcome((r[0], writes))
                    if writes and r[0] != "init":
                        ctx.fail(case, "an updating function that writes is not refused: %s %s" % (r[0], show(r[1]) if r[0] != "ok" else show(use(r[1], site))))
                    elif not writes and r[0] != "ok":
                        ctx.fail(case, "refused without reason: %s %s" % r)
                    elif r[0] == "ok":
                        ctx.transitions += 1
                        ctx.traces += 1
                        got = use(r[1], site)
                        if got[0] == "bad":
                            ctx.fail(case, "running it: %s" % show(got))
                    if ctx.full():
                        return


def outside(ctx):
    """Writes beside the updating function: in the value that is put, in the path, the initial value, a filled argument."""
    for inner, (e, writes) in INNER.items():
        if "'x'" in repr(e):
            continue
        docs = {
            "value": {"cell": "c", "to": {"+": [e, 1]}},
            "pool value": {"pool": "p", "path": [S("k")], "to": e, "init": 0},
            "init": {"pool": "p", "path": [S("new")], "to": FN("x"), "init": e},
            "pool path": {"pool": "p", "path": [{"if": {">": [e, -9]}, "then": S("k"), "else": S("z")}], "to": FN("x"), "init": 0},
            "cell path": {"do": [{"cell": "r", "path": [S("a"), {"*": [0, e]}], "to": FN("x")}, 1]},
            "fill of cell": {"cell": "c", "to": {"fcn": "u.two", "fill": {"z": e}}},
            "fill of pool": {"pool": "p", "path": [S("k")], "to": {"fcn": "u.two", "fill": {"z": e}}, "init": 0},
            "del": {"do": [{"pool": "p", "del": {"if": {">": [e, -9]}, "then": S("k"), "else": S("z")}}, 1]},
            "attr inside": {"attr": {"attr": {"type": A, "value": [1]}, "path": [0], "to": FN(e)}, "path": [0]},
        }
        for where, update in docs.items():
            case = ["outside", inner, where]
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            ctx.states += 1
            r = tryMake(once(document("action", update, {"two": FN({"+": ["x", "z"]}, params=("x", "z"))})))
            ctx.outcome((r[0], where))
            if "fill" in where and writes:
                # how often and when a filled argument is evaluated is left open: accepted is fine as long as it runs
                if r[0] not in ("ok", "init"):
                    ctx.fail(case, "%s %s" % r)
            elif r[0] != "ok":
                ctx.fail(case, "refused without reason: %s %s" % r)
            if r[0] == "ok":
                ctx.transitions += 1
                ctx.traces += 1
                got = use(r[1], "action")
                if got[0] == "bad":
                    ctx.fail(case, "running it: %s" % show(got))


# ---------------------------------------------------------------- executions

BAD = {"u.bad": ["x"]}
OPS = {
    "inc": [{"cell": "c", "to": FN({"+": ["x", 1]})}],
    "ref": [{"cell": "c", "to": {"fcn": "u.inc"}}],
    "user error": [{"cell": "c", "to": FN([{"error": "no", "code": -1}, "x"])}],
    "library error": [{"cell": "c", "to": FN({"//": ["x", 0]})}],
    "deep error": [{"cell": "c", "to": FN({"u.bad": ["x"]})}],
    "path error": [{"cell": "r", "path": [S("a"), 7], "to": FN("x")}, 1],
    "caught": [{"try": {"cell": "c", "to": FN({"//": ["x", 0]})}}, {"cell": "c", "to": FN({"+": ["x", 1]})}],
    "caught inside": [{"cell": "c", "to": FN({"ifnotnull": {"y": {"try": {"//": ["x", 0]}}}, "then": "y", "else": 5})}],
    "crossing cd": [{"cell": "c", "to": FN({"+": ["x", {"cell": "d"}]})}],
    "crossing dc": [{"cell": "d", "to": FN({"+": ["x", {"cell": "c"}]})}],
    "own": [{"cell": "c", "to": FN({"+": ["x", {"cell": "c"}]})}],
    "both": [{"cell": "c", "to": FN({"+": ["x", 1]})}, {"cell": "d", "to": FN({"+": ["x", 1]})}],
    "both reversed": [{"cell": "d", "to": FN({"+": ["x", 1]})}, {"cell": "c", "to": FN({"+": ["x", 1]})}],
    "p inc": [{"pool": "p", "path": [S("k")], "to": FN({"+": ["x", 1]}), "init": 0}],
    "p new": [{"pool": "p", "path": [S("new")], "to": FN({"+": ["x", 1]}), "init": 0}],
    "p error": [{"pool": "p", "path": [S("k")], "to": FN([{"error": "no", "code": -1}, "x"]), "init": 0}],
    "p new error": [{"pool": "p", "path": [S("new")], "to": FN({"//": ["x", 0]}), "init": 0}],
    "p caught": [{"try": {"pool": "p", "path": [S("new")], "to": FN({"//": ["x", 0]}), "init": 0}}, {"pool": "p", "path": [S("new")], "to": FN({"+": ["x", 1]}), "init": 0}],
    "p del": [{"pool": "p", "del": S("k")}, 1],
    "p del new": [{"pool": "p", "del": S("new")}, 1],
    "p get": [{"pool": "p", "path": [S("k")]}],
    "crossing pc": [{"pool": "p", "path": [S("k")], "to": FN({"+": ["x", {"cell": "c"}]}), "init": 0}],
    "crossing cp": [{"cell": "c", "to": FN({"+": ["x", {"pool": "p", "path": [S("k")]}]})}],
    "crossing pp": [{"pool": "p", "path": [S("k")], "to": FN({"+": ["x", {"pool": "p", "path": [S("k")]}]}), "init": 0}],
    "time": [{"cell": "c", "to": FN([{"while": True, "do": 1}, "x"])}],
    "p time": [{"pool": "p", "path": [S("k")], "to": FN([{"while": True, "do": 1}, "x"]), "init": 0}],
    "time caught": [{"try": {"cell": "c", "to": FN([{"while": True, "do": 1}, "x"])}}, 1],
}
FCNS = {"inc": FN({"+": ["x", 1]}), "bad": FN({"u.worse": ["x"]}), "worse": FN([{"error": "deep", "code": -2}, "x"])}
_asts = {}


def ast(op):
    if op not in _asts:
        d = dict({"input": {"type": "record", "name": "In", "fields": [{"name": "r", "type": REC}]}, "output": "int", "action": OPS[op], "fcns": FCNS}, **STORES)
        if "time" in op:
            d["options"] = {"timeout": 4}
        _asts[op] = titus.reader.jsonToAst(once(d))
    return _asts[op]


DATUM = {"r": {"n": 0, "a": [1]}}


def traced(code):
    return code.co_filename == "<string>" or code.co_filename.endswith("titus/genpy.py") and code.co_name not in ("labeledFcn", "do", "checkTime", "__init__")


def harness(ctx, ops, bound):
    case0 = (ops, bound)
    if ctx.only is not None and not ctx.only.startswith(repr(case0)[:-1]):
        return
    probes = [op for op in OPS if op not in ("time", "p time", "time caught")]

    def make():
        clock.current[0].start()
        shared = SharedState()
        engines = [PFAEngine.fromAst(ast(op), sharedState=shared)[0] for op in ops]
        after = PFAEngine.fromAst(ast("both"), sharedState=shared)[0]
        again = engines + [after]

        def observe():
            # every later use goes on: of the same engines, and of another one; and every lock is free
            out = [outcome(e.action, DATUM) for e in again]
            for store in list(shared.cells.values()) + list(shared.pools.values()):
                locks = [store.lock] if hasattr(store, "lock") else list(store.locks.values()) + [store.locklock]
                out += [("bad", "a lock is still held")] * sum(1 for x in locks if getattr(x, "count", 0))
            return out
        return [lambda e=e: outcome(e.action, DATUM) for e in engines], observe

    def judge(x, observe):
        ctx.evaluations += 1
        ctx.transitions += x.steps
        ctx.traces += 1
        if any(x.choices):
            ctx.nontrivial += 1
        choices = list(x.choices)
        while choices and choices[-1] == 0:
            choices.pop()
        case = (ops, bound, tuple(choices))
        if x.deadlock or x.overrun:
            ctx.fail(case, "threads wait for each other forever" if x.deadlock else "no end after %d steps" % x.steps)
            return False
        ctx.outcome(repr((ops, x.results)))
        bad = [r for r in x.results if r is None or r[0] in ("bad", "died", "aborted")]
        if bad:
            ctx.fail(case, "a thread ends with %s" % show(bad))
            return False
        late = [r for r in observe() if r[0] == "bad"]
        if late:
            ctx.fail(case, "a later use fails: %s" % show(late))
            return False
        return True
    if ctx.only is not None:
        import ast as pyast
        case = pyast.literal_eval(ctx.only)
        if len(case) == 3:
            bodies, observe = make()
            judge(sched.Scheduler(bodies, case[2], traced).run(), observe)
        return
    n, points, capped = sched.explore(make, judge, bound, traced)
    ctx.states += points
    ctx.sample({"threads": ops, "bound": bound, "executions": n}, 1)


def group(ctx, items):
    clock.install()
    for ops, bound in items:
        harness(ctx, ops, bound)


def tasks(tier):
    deep = tier == "thorough"
    out = [("outside", outside, ())] + [("static " + n, static, (n,)) for n in INNER]
    cells = ["inc", "ref", "user error", "library error", "deep error", "path error", "caught", "caught inside", "crossing cd", "crossing dc", "own", "both", "both reversed", "crossing cp", "time", "time caught"]
    pools = ["p inc", "p new", "p error", "p new error", "p caught", "p del", "p del new", "p get", "crossing pc", "crossing pp", "p time"]
    one = []
    for ops in (cells, pools):
        for a, b in itertools.combinations_with_replacement(ops, 2):
            if deep or a in ("inc", "crossing cd", "user error", "p inc", "p new") or b in ("time", "both reversed", "p new error", "p del", "p time", "crossing cp"):
                one.append(((a, b), 1))
    one += [(("crossing pc", "crossing cp"), 2 if deep else 1), (("crossing cd", "crossing dc"), 2 if deep else 1), (("crossing pc", "inc"), 1), (("both", "both reversed"), 2 if deep else 1)]
    for t in (("crossing cd", "crossing dc", "both"), ("crossing pc", "crossing cp", "p del"), ("user error", "inc", "library error"), ("p new error", "p new", "p del new")):
        one.append((t, 1))
    if deep:
        for a in ("user error", "caught", "deep error", "time", "p error", "p new error", "p caught", "p time"):
            one.append(((a, "p inc" if a[0:2] == "p " else "inc"), 2))
    for i in range(16):
        if one[i::16]:
            out.append(("schedules %d" % i, group, (one[i::16],)))
    return out
