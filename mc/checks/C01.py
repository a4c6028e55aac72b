"""C01: rollback.  All histories of scoring calls up to a depth, each call running every sequence of operations up to a
length, with every failing step at every position, on the real engine in step with a reference store."""
import copy
import itertools
import json

from mc import clock
from mc.eng import *

LEVEL = "fault_enumeration"
RULE = ("a case is one history of scoring calls (or merges) on one real engine, each call a sequence of store operations and failing steps; "
        "after every call all cells, pools and the tally are compared with a reference store; non-trivial: at least one call fails after a write")
ASSUMPTIONS = ["the state is read through the engine's snapshot"]

REC = {"type": "record", "name": "R", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": {"type": "array", "items": "int"}},
                                                 {"name": "m", "type": {"type": "map", "values": "int"}}]}


class Fail(Exception):
    def __init__(self, *what):
        self.what = what


def upd(body, t="int"):
    return {"params": [{"x": t}], "ret": t, "do": body}


# ---------------------------------------------------------------- operations: name -> (PFA expression, reference on the store)

OPS = {}


def op(name, expr):
    def deco(f):
        OPS[name] = (expr, f)
        return f
    return deco


@op("cr+", {"cell": "cr", "to": upd({"+": ["x", 1]})})
def _(s): s["cr"] += 1


@op("cp+", {"cell": "cp", "to": upd({"+": ["x", 1]})})
def _(s): s["cp"] += 1


@op("cr=", {"cell": "cr", "to": 77})
def _(s): s["cr"] = 77


@op("rr.a", {"cell": "rr", "path": [["a"]], "to": upd({"+": ["x", 1]})})
def _(s): s["rr"]["a"] += 1


@op("rr.b1", {"cell": "rr", "path": [["b"], 1], "to": upd({"+": ["x", 1]})})
def _(s): s["rr"]["b"][1] += 1


@op("rr.m", {"cell": "rr", "path": [["m"], ["k"]], "to": upd({"*": ["x", 2]})})
def _(s): s["rr"]["m"]["k"] *= 2


@op("pr.x", {"pool": "pr", "path": [["x"]], "to": upd({"+": ["x", 1]}), "init": 10})
def _(s): s["pr"]["x"] = s["pr"].get("x", 10) + 1


@op("pr.y=", {"pool": "pr", "path": [["y"]], "to": 5, "init": 9})
def _(s): s["pr"]["y"] = 5


@op("pr.del x", {"pool": "pr", "del": {"string": "x"}})
def _(s): s["pr"].pop("x", None)


@op("pr.del z", {"pool": "pr", "del": {"string": "z"}})
def _(s): s["pr"].pop("z", None)


@op("qr.x.a", {"pool": "qr", "path": [["x"], ["b"], 0], "to": upd({"+": ["x", 1]}), "init": {"value": {"a": 0, "b": [4, 4], "m": {}}, "type": "R"}})
def _(s):
    s["qr"].setdefault("x", {"a": 0, "b": [4, 4], "m": {}})
    s["qr"]["x"]["b"][0] += 1


@op("pp.x", {"pool": "pp", "path": [["x"]], "to": upd({"+": ["x", 1]}), "init": 20})
def _(s): s["pp"]["x"] = s["pp"].get("x", 20) + 1


@op("pp.del x", {"pool": "pp", "del": {"string": "x"}})
def _(s): s["pp"].pop("x", None)


@op("fn", {"u.both": [3]})
def _(s):
    s["cr"] += 3
    s["pr"]["f"] = s["pr"].get("f", 0) + 3


@op("try", {"try": [{"u.both": [1]}, {"error": "caught", "code": -1}]})
def _(s):
    s["cr"] += 1
    s["pr"]["f"] = s["pr"].get("f", 0) + 1


@op("try cell", {"try": [{"cell": "cr", "to": upd([{"error": "inside", "code": -2}, "x"])}]})
def _(s): pass


# ---- failing steps
BOOM = [{"if": True, "then": {"error": "boom", "code": -3}}]


@op("!user", {"error": "stop", "code": -4})
def _(s): raise Fail("user", -4)


@op("!lib", {"a.head": [{"value": [], "type": {"type": "array", "items": "int"}}]})
def _(s): raise Fail("err", 15020)


@op("!cell", {"cell": "cr", "to": upd(BOOM + ["x"])})
def _(s): raise Fail("user", -3)


@op("!plain", {"cell": "cp", "to": upd(BOOM + ["x"])})
def _(s): raise Fail("user", -3)


@op("!pool", {"pool": "pr", "path": [["x"]], "to": upd(BOOM + ["x"]), "init": 10})
def _(s): raise Fail("user", -3)


@op("!miss", {"pool": "pr", "path": [["nope"]]})
def _(s): raise Fail("err", None)


@op("!path", {"cell": "rr", "path": [["b"], 7], "to": upd({"+": ["x", 1]})})
def _(s): raise Fail("any",)


@op("!fn", {"u.late": [2]})
def _(s):
    s["cr"] += 2
    s["pr"]["f"] = s["pr"].get("f", 0) + 2
    s["cp"] += 100
    raise Fail("user", -6)


@op("!map", {"a.map": [{"value": [1, 0, 1], "type": {"type": "array", "items": "int"}},
                       {"params": [{"i": "int"}], "ret": "int",
                        "do": [{"u.both": ["i"]}, {"//": [6, "i"]}]}]})
def _(s):
    s["cr"] += 1
    s["pr"]["f"] = s["pr"].get("f", 0) + 1
    s["pr"]["f"] = s["pr"].get("f", 0) + 0
    raise Fail("err", None)


@op("!try", {"try": [{"u.both": [4]}, {"error": "other", "code": -8}], "filter": [-9]})
def _(s):
    s["cr"] += 4
    s["pr"]["f"] = s["pr"].get("f", 0) + 4
    raise Fail("user", -8)


@op("!emit", None)      # emit engines only: the host's callback fails
def _(s): raise Fail("bad",)


@op("!time", {"do": [{"cell": "cr", "to": 50}, {"while": True, "do": [0]}]})     # time limit
def _(s):
    s["cr"] = 50
    raise Fail("timeout",)


FCNS = {"both": {"params": [{"n": "int"}], "ret": "null",
                 "do": [{"cell": "cr", "to": {"params": [{"x": "int"}], "ret": "int", "do": {"+": ["x", 0]}}},
                        {"u.add": ["n"]}, None]},
        "add": {"params": [{"n": "int"}], "ret": "null",
                "do": [{"cell": "cr", "to": {"fcn": "u.plus", "fill": {"n": "n"}}},
                       {"pool": "pr", "path": [["f"]], "to": {"fcn": "u.plus", "fill": {"n": "n"}}, "init": 0}, None]},
        "plus": {"params": [{"x": "int"}, {"n": "int"}], "ret": "int", "do": {"+": ["x", "n"]}},
        "late": {"params": [{"n": "int"}], "ret": "null",
                 "do": [{"u.both": ["n"]}, {"cell": "cp", "to": upd({"+": ["x", 100]})}, {"error": "late", "code": -6}]}}

INIT = {"cr": 0, "cp": 0, "rr": {"a": 0, "b": [1, 2], "m": {"k": 1, "l": 2}}, "pr": {"z": 3}, "qr": {}, "pp": {}}


def document(method, actionOf, inputType):
    doc = {"input": inputType, "output": "int", "method": method,
           "cells": {"cr": {"type": "int", "init": 0, "rollback": True}, "cp": {"type": "int", "init": 0},
                     "rr": {"type": REC, "init": INIT["rr"], "rollback": True}},
           "pools": {"pr": {"type": "int", "init": {"z": 3}, "rollback": True},
                     "qr": {"type": "R", "init": {}, "rollback": True}, "pp": {"type": "int", "init": {}}},
           "fcns": FCNS}
    if method == "fold":
        doc["zero"] = 0
        doc["merge"] = [{"foreach": "opcode", "in": {"u.decode": ["tallyOne"]}, "do": [dispatch("opcode", method)]}, {"+": ["tallyOne", "tallyTwo"]}]
        doc["fcns"] = dict(FCNS)
        doc["fcns"]["decode"] = {"params": [{"n": "int"}], "ret": {"type": "array", "items": "int"},
                                 "do": {"new": [{"%": ["n", 100]}, {"%": [{"//": ["n", 100]}, 100]}, {"%": [{"//": ["n", 10000]}, 100]}],
                                        "type": {"type": "array", "items": "int"}}}
    doc["action"] = actionOf
    return doc


def names(method):
    return [n for n in OPS if n != "!emit" or method == "emit"]


def dispatch(var, method, which=None):
    conds = []
    for i, n in enumerate(OPS):
        if n not in names(method):
            continue
        expr = OPS[n][0] if n != "!emit" else {"emit": -1}
        conds.append({"if": {"==": [var, i]}, "then": [expr, None]})
    return {"cond": conds}


CODE = dict((n, i) for i, n in enumerate(OPS))
CODE["none"] = 99


def stateOf(engine):
    snap = engine.snapshot()
    out = {}
    for k, v in snap.cells.items():
        out[k] = v.initJsonNode
    for k, v in snap.pools.items():
        out[k] = dict(v.initJsonNode)
    return out


def reference(store, seq):
    """The store after one call, and how the call ends."""
    work = copy.deepcopy(store)
    for name in seq:
        try:
            OPS[name][1](work)
        except Fail as err:
            for k in ("cr", "rr", "pr", "qr"):
                work[k] = copy.deepcopy(store[k])
            return work, err.what
    return work, None


def ended(got, what):
    if what is None:
        return got[0] == "ok"
    if what[0] == "any":
        return got[0] in ("err", "user")
    if what[0] == "bad":
        return got[0] == "bad" and "callback" in got[1]
    if what[0] == "timeout":
        return got[0] == "timeout"
    return got[0] == what[0] and (what[1] is None or got[1] == what[1])


# "!path": whether an update of an item that is not there is an error is C12's business; here it is only run where it fails
def history(ctx, engine, method, hist, emitted, case):
    """Run one history on an engine in its initial state."""
    store = copy.deepcopy(INIT)
    tally = 0
    wrote = False
    for call in hist:
        before = copy.deepcopy(store)
        after, what = reference(store, call)
        if method == "merge":
            code = 0
            for n in reversed(list(call) + ["none"] * (3 - len(call))):
                code = code * 100 + CODE[n]
            got = outcome(engine.merge, code, 5)
            value = code + 5
        else:
            got = outcome(engine.action, [CODE[n] for n in call])
            value = tally + len(call) if method == "fold" else len(call)
        if what is not None and any(not n.startswith("!") for n in call):
            wrote = True
        ctx.transitions += 1
        if not ended(got, what):
            ctx.fail(case, "the call {0} ends with {1}, must end with {2}".format(list(call), show(got), what or "success"))
            return
        store = after
        if method in ("fold", "merge"):
            if what is None:
                tally = value
                if got[1] != value:
                    ctx.fail(case, "the call {0} gives {1}, must give the tally {2}".format(list(call), got[1], value))
                    return
            if engine.tally != tally:
                ctx.fail(case, "after the call {0} the tally is {1}, must be {2}".format(list(call), engine.tally, tally))
                return
        now = stateOf(engine)
        if now != store:
            wrong = [k for k in store if now.get(k) != store[k]]
            ctx.fail(case, "the call {0} ending with {1} leaves {2}, must leave {3}".format(
                list(call), what or "success", dict((k, now.get(k)) for k in wrong), dict((k, store[k]) for k in wrong)))
            return
    if wrote:
        ctx.nontrivial += 1
    ctx.outcome(repr(store))
    ctx.traces += 1


FAIL_SUBSET = ["!user", "!lib", "!cell", "!pool", "!fn"]


def calls(method, depth, opset):
    seqs = [()]
    for k in range(1, depth + 1):
        for t in itertools.product(opset, repeat=k):
            # nothing runs after a failing step
            if any(n.startswith("!") for n in t[:-1]):
                continue
            seqs.append(t)
    return seqs


def makeEngine(method, limit=None):
    m = "fold" if method == "merge" else method
    body = [{"foreach": "opcode", "in": "input", "do": [dispatch("opcode", m)]}]
    if m == "map":
        body.append({"a.len": ["input"]})
    elif m == "emit":
        body.append({"emit": {"a.len": ["input"]}})
    else:
        body.append({"+": ["tally", {"a.len": ["input"]}]})
    engine = make(document(m, body, {"type": "array", "items": "int"}), options={"timeout": limit} if limit else None)
    if m == "emit":
        def callback(x):
            if x == -1:
                raise RuntimeError("callback")
        engine.emit = callback
    return engine


class Reset(object):
    """An engine per history, without building it each time: the initial cells and pools are put back by the
    engine's own classes' constructor (a new engine of the same class)."""

    def __init__(self, method, limit=None):
        self.method = method
        self.engine = makeEngine(method, limit)

    def fresh(self):
        e = self.engine
        for k, c in e.cells.items():
            c.value = copy.deepcopy(INIT[k])
        for k, p in e.pools.items():
            p.value = copy.deepcopy(INIT[k])
        if hasattr(e, "tally"):
            e.tally = 0
        return e


def runAll(ctx, method, hists, part, limit=None):
    r = Reset(method, limit)
    # the reset itself must be faithful: compare with a really new engine
    if stateOf(r.fresh()) != stateOf(makeEngine(method)):
        ctx.fail("<reset>", "a new engine does not start from its declared initial values")
    for hist in hists:
        case = (method,) + hist
        if not ctx.want(case):
            continue
        ctx.states += 1
        ctx.sample(case, 1)
        history(ctx, r.fresh(), method, hist, None, case)
        if ctx.full():
            return


def oneCall(ctx, method, first):
    """All calls of up to 3 (4) operations beginning with `first`, then a second short one."""
    depth = 4 if ctx.thorough else 3
    ops = [n for n in names("emit" if method == "emit" else method) if n not in ("!time", "!path")]
    if ctx.thorough and method != "map":
        depth = 3
    if method == "merge":
        depth = 3
    if ctx.thorough and method == "map":
        ops = [n for n in ops if n not in ("cr=", "pr.del z", "!plain", "!miss", "try cell", "cp+")]
    seqs = [s for s in calls(method, depth, ops) if s and s[0] == first]
    runAll(ctx, method, [(s,) for s in seqs], "one")


def twoCalls(ctx, method, firstOps):
    """Histories of 3 calls: every call of up to 2 operations, then again, then a read."""
    ops = ["cr+", "rr.b1", "pr.x", "pr.del x", "pr.del z", "qr.x.a", "pp.x", "try"] + FAIL_SUBSET[:1] + ["!pool", "!fn"]
    seqs = calls(method, 2, ops)
    mine = [s for s in seqs if s and s[0] == firstOps]
    seconds = seqs if ctx.thorough else [s for s in seqs if len(s) <= 1] + [s for s in seqs if len(s) == 2 and s[1].startswith("!")]
    runAll(ctx, method, [(a, b) for a in mine for b in seconds], "two")


def threeCalls(ctx, method):
    ops = ["cr+", "rr.a", "pr.x", "pr.del z", "cp+"]
    seqs = [(o,) for o in ops] + [(o, "!user") for o in ops] + [("!lib",)]
    runAll(ctx, method, list(itertools.product(seqs, repeat=4 if ctx.thorough else 3)), "three")


def timeouts(ctx, method):
    clock.install()
    pre = ["cr+", "rr.a", "pr.x", "pr.del z", "qr.x.a", "pp.x", "fn"]
    runAll(ctx, method, [((p, "!time"), (q, "!time")) for p in pre for q in pre], "time", 50)


def straight(ctx, method):
    """The same steps written directly into the action (not dispatched): every pair of an operation and a failing step."""
    for n in names(method):
        for bad in [x for x in names(method) if x.startswith("!") and x not in ("!time", "!emit", "!path")]:
            if n.startswith("!"):
                continue
            case = ("straight", method, n, bad)
            if not ctx.want(case):
                continue
            body = [OPS[n][0], {"if": {">": ["input", 0]}, "then": [OPS[bad][0], None], "else": [None]}]
            body.append({"emit": 1} if method == "emit" else 1)
            e = make(document(method, body, "int"))
            store = copy.deepcopy(INIT)
            for flag in (1, 0, 1, 0):
                seq = (n, bad) if flag else (n,)
                store, what = reference(store, seq)
                got = outcome(e.action, flag)
                ctx.transitions += 1
                if not ended(got, what):
                    ctx.fail(case, "ends with {0}, must end with {1}".format(show(got), what or "success"))
                    break
                now = stateOf(e)
                if now != store:
                    wrong = [k for k in store if now.get(k) != store[k]]
                    ctx.fail(case, "{0} ending with {1} leaves {2}, must leave {3}".format(seq, what, dict((k, now.get(k)) for k in wrong), dict((k, store[k]) for k in wrong)))
                    break
            ctx.nontrivial += 1
            if ctx.full():
                return


def tasks(tier):
    out = []
    for method in ("map", "emit", "fold", "merge"):
        ops = [n for n in names("emit" if method == "emit" else method) if n not in ("!time", "!path")]
        for f in ops:
            if tier == "quick" and method in ("emit", "fold") and f in ("cr=", "pr.y=", "pr.del z", "rr.m", "try cell"):
                continue
            out.append(("one/%s/%s" % (method, f), oneCall, (method, f)))
        for f in ["cr+", "rr.b1", "pr.x", "pr.del x", "pr.del z", "qr.x.a", "pp.x", "try"]:
            if method in ("map", "merge", "fold"):
                out.append(("two/%s/%s" % (method, f), twoCalls, (method, f)))
        out.append(("three/%s" % method, threeCalls, (method,)))
        if method != "merge":
            out.append(("timeouts/%s" % method, timeouts, (method,)))
            out.append(("straight/%s" % method, straight, (method,)))
    return out
