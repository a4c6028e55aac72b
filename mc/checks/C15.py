"""C15: time limits stop every loop and nothing else."""
import itertools

from mc import clock
from mc.hist import *
from mc import lib as L
from mc import universe as U

LEVEL = "fault_enumeration"
RULE = ("loops: every looping form (nested two deep, in functions, updaters, handlers), in every section, on a clock that the program itself moves on by one millisecond per tick, with every time limit from 1 to "
        "past the end: within the limit the answer is that without a limit, past it the program ends with a time limit error at most two ticks later; options: every combination of the four limits in document and "
        "host for every section; library: every library function with a function argument, cut at every call of it; non-trivial: cases whose limit is passed")
ASSUMPTIONS = ["a program that passes its limit only with its last tick may end either way", "time passes only while the program writes to its log"]

S = lambda s: {"string": s}
A = {"type": "array", "items": "int"}
M = {"type": "map", "values": "int"}
TICK = {"log": [], "namespace": "tick"}
ARR3 = {"type": A, "value": [4, 5, 6]}
MAP3 = {"type": M, "value": {"a": 4, "b": 5, "c": 6}}


def fcn(params, ret, do):
    return {"params": [{k: t} for k, t in params], "ret": ret, "do": do}


# name -> f(body, depth): expressions that run body n (3) times and more; the result is the last expression
def whileLoop(body, v):
    return [{"do": [{"let": {v: 0}}, {"while": {"<": [v, 3]}, "do": [TICK] + body + [{"set": {v: {"+": [v, 1]}}}]}]}]


def doUntil(body, v):
    return [{"do": [{"let": {v: 0}}, {"do": [TICK] + body + [{"set": {v: {"+": [v, 1]}}}], "until": {">=": [v, 3]}}]}]


def forLoop(body, v):
    return [{"for": {v: 0}, "while": {"<": [v, 3]}, "step": {v: {"+": [v, 1]}}, "do": [TICK] + body}]


def foreach(body, v):
    return [{"foreach": v, "in": ARR3, "do": [TICK] + body}]


def foreachOpen(body, v):
    return [{"foreach": v, "in": ARR3, "do": [TICK] + body, "seq": False}]


def forkeyval(body, v):
    return [{"forkey": v + "k", "forval": v, "in": MAP3, "do": [TICK] + body}]


def inMap(body, v):
    return [{"a.map": [ARR3, fcn([(v, "int")], "int", [TICK] + body + [v])]}]


def inFold(body, v):
    return [{"a.fold": [ARR3, 0, fcn([(v + "t", "int"), (v, "int")], "int", [TICK] + body + [v])]}]


def inMapMap(body, v):
    return [{"map.map": [MAP3, fcn([(v, "int")], "int", [TICK] + body + [v])]}]


def inSort(body, v):
    return [{"a.sort": [ARR3, fcn([(v, "int"), (v + "y", "int")], "boolean", [TICK] + body + [{"<": [v, v + "y"]}])]}]


def inFilter(body, v):
    return [{"a.filter": [ARR3, fcn([(v, "int")], "boolean", [TICK] + body + [True])]}]


LOOPS = {"while": whileLoop, "until": doUntil, "for": forLoop, "foreach": foreach, "foreach unsealed": foreachOpen, "forkey": forkeyval, "a.map": inMap, "a.fold": inFold, "map.map": inMapMap, "a.filter": inFilter}
WRAPS = {
    "plain": lambda b: b,
    "if": lambda b: [{"if": True, "then": b + [1], "else": [2]}],
    "cond": lambda b: [{"cond": [{"if": False, "then": [TICK]}, {"if": True, "then": b}]}],
    "do": lambda b: [{"do": b}], "let": lambda b: [{"let": {"w": {"do": b + [1]}}}],
    "try": lambda b: [{"try": b + [1]}], "try twice": lambda b: [{"try": [{"try": b + [1]}]}], "try filtered": lambda b: [{"try": b + [1], "filter": ["exceeded timeout of 1 milliseconds", "x", "Timeout"]}],
    "try filtered by code": lambda b: [{"try": b + [1], "filter": [-1, 0, 1, 1000]}],
    "argument": lambda b: [{"+": [{"do": b + [1]}, 1]}], "lazy": lambda b: [{"&&": [True, {"do": b + [True]}]}], "condition": lambda b: [{"if": {"do": b + [True]}, "then": 1, "else": 2}],
    "ifnotnull": lambda b: [{"ifnotnull": {"n": {"type": ["null", "int"], "value": {"int": 1}}}, "then": b + ["n"], "else": 2}],
    "cast": lambda b: [{"cast": {"type": ["null", "int"], "value": {"int": 1}}, "cases": [{"as": "int", "named": "n", "do": b + [1]}, {"as": "null", "named": "n", "do": [2]}]}],
    "function": None, "updater": lambda b: [{"cell": "c", "to": fcn([("z", "int")], "int", b + ["z"])}],
    "pool updater": lambda b: [{"pool": "p", "path": [S("k")], "to": fcn([("z", "int")], "int", b + ["z"]), "init": 0}],
    "attr updater": lambda b: [{"let": {"ar": ARR3}}, {"attr": "ar", "path": [1], "to": fcn([("z", "int")], "int", b + ["z"])}],
    "shared updater": lambda b: [{"cell": "s", "to": fcn([("z", "int")], "int", b + ["z"])}],
}
RECURSION = {
    "direct": ({"r": fcn([("n", "int")], "int", [TICK, {"if": {">": ["n", 0]}, "then": {"u.r": {"-": ["n", 1]}}, "else": 0}])}, [{"u.r": 6}]),
    "mutual": ({"r": fcn([("n", "int")], "int", [TICK, {"if": {">": ["n", 0]}, "then": {"u.q": {"-": ["n", 1]}}, "else": 0}]), "q": fcn([("n", "int")], "int", [TICK, {"if": {">": ["n", 0]}, "then": {"u.r": {"-": ["n", 1]}}, "else": 0}])}, [{"u.r": 6}]),
    "tree": ({"r": fcn([("n", "int")], "int", [TICK, {"if": {"<": ["n", 2]}, "then": 1, "else": {"+": [{"u.r": {"-": ["n", 1]}}, {"u.r": {"-": ["n", 2]}}]}}])}, [{"u.r": 5}]),
    "by reference": ({"r": fcn([("n", "int")], "int", [TICK, "n"])}, [{"a.map": [ARR3, {"fcn": "u.r"}]}, {"a.map": [ARR3, {"fcn": "u.r"}]}]),
    "filled": ({"r": fcn([("n", "int"), ("m", "int")], "int", [TICK, {"+": ["n", "m"]}])}, [{"a.map": [ARR3, {"fcn": "u.r", "fill": {"m": 1}}]}, {"a.map": [ARR3, {"fcn": "u.r", "fill": {"n": 2}}]}]),
    "calls": ({"r": fcn([("n", "int")], "int", [TICK, "n"])}, [{"foreach": "x", "in": ARR3, "do": [{"u.r": {"u.r": "x"}}]}]),
    "try inside": ({"r": fcn([("n", "int")], "int", [TICK, {"ifnotnull": {"x": {"try": [{"if": {">": ["n", 0]}, "then": {"u.r": {"-": ["n", 1]}}, "else": 0}]}}, "then": "x", "else": -1}])}, [{"u.r": 6}]),
}


def document(section, body, fcns=None, method="map", options=None):
    """A document that runs body in one section, and only if the cell "on" says so."""
    d = {"input": "int", "output": "int", "method": method, "cells": {"c": {"type": "int", "init": 0}, "s": {"type": "int", "init": 0, "shared": True}}, "pools": {"p": {"type": "int", "init": {"k": 1}}}, "fcns": fcns or {}, "action": ["input"]}
    if options:
        d["options"] = options
    if method == "fold":
        d["zero"] = 0
        d["merge"] = ["tallyOne"]
    d[section] = body + ([{"cell": "c"}] if section in ("action", "merge") else [])
    return d


def body(wrap, b):
    """(functions, expressions)"""
    if wrap == "function":
        return {"f": fcn([("n", "int")], "int", b + ["n"])}, [{"u.f": 1}]
    return {}, WRAPS[wrap](b)


class Ticker(object):
    """The host: one millisecond passes for every tick of the program."""

    def __init__(self):
        self.clock = clock.install(0.0)
        self.ticks = 0

    def log(self, values, namespace):
        self.clock.now += 0.001
        self.ticks += 1

    def call(self, e, section):
        e.log = self.log
        self.ticks = 0
        if section == "action":
            x = outcome(e.action, 3)
        elif section == "merge":
            x = outcome(e.merge, 1, 2)
        else:
            x = outcome(getattr(e, section))
        return (x[0], U.raw(x[1]) if x[0] == "ok" and section in ("action", "merge") else x[1:] if x[0] not in ("ok", "timeout") else None), self.ticks


def option(section):
    return "timeout" if section == "merge" else "timeout." + section


def cut(ctx, label, section, doc, where):
    """Run a document with every limit."""
    host = Ticker()
    free, total = host.call(make(doc), section)
    if free[0] == "timeout":
        ctx.fail(label, "ends with a time limit error without a limit")
        return
    if total < 2 and where != "library":
        ctx.fail(label, "a program that loops ticks %d times" % total)
        return
    limits = range(1, total + 2)
    if total > 14:
        limits = [n for n in limits if n < 6 or n > total - 3 or n % 5 == 0]
    for limit in limits:
        case = [label, section, limit]
        if not ctx.want(case):
            continue
        # the limit as the host's option and as the document's
        for how in ("host", "document"):
            if how == "host":
                e = make(doc, options={option(section): limit})
            else:
                e = make(dict(doc, options={option(section): limit}))
            ctx.states += 1
            if how == "host" and total >= limit + 2:
                ctx.nontrivial += 1
                ctx.sample("%s in %s: %d ticks, limit %d" % (label, section, total, limit))
            for again in (0, 1):                       # every call starts its own time
                got, ticks = host.call(e, section)
                ctx.transitions += ticks
                if total <= limit:
                    if again == 0 and (got, ticks) != (free, total) or again and got[0] == "timeout":
                        ctx.fail(case, "%s in %s with a limit of %d ms by the %s gives %s after %d ms, call %d; without a limit %s after %d ms" % (label, section, limit, how, show(got), ticks, again + 1, show(free), total))
                        break
                elif total >= limit + 2:
                    if got[0] != "timeout" or ticks > limit + 2:
                        ctx.fail(case, "%s in %s with a limit of %d ms by the %s gives %s after %d ms of %d, call %d" % (label, section, limit, how, show(got), ticks, total, again + 1))
                        break
                ctx.outcome((section, limit, total, got[0], ticks))
            if ctx.full():
                return


SECTIONS = ("begin", "action", "end", "merge")


def loops(ctx, wrap):
    for section in SECTIONS:
        for name in sorted(LOOPS):
            f, b = body(wrap, LOOPS[name]([], "i"))
            d = document(section, b, f, "fold" if section == "merge" else "map")
            cut(ctx, [wrap, name], section, d, "loop")
            if ctx.full():
                return


def nested(ctx, outer):
    sections = SECTIONS if ctx.thorough else ("action", "end")
    for wrap in sorted(WRAPS) if ctx.thorough else ("plain", "try", "updater"):
        for inner in sorted(LOOPS):
            if wrap == "function":
                f, b = body("function", LOOPS[inner]([], "j"))
            else:
                f, b = body(wrap, LOOPS[inner]([], "j"))
            # an update inside an update is refused, and so is a loop variable set from a function
            bb = LOOPS[outer](b, "i")
            for section in sections:
                d = document(section, bb, f, "fold" if section == "merge" else "map")
                if tryMake(d)[0] != "ok":
                    ctx.note("refused documents")
                    continue
                cut(ctx, [outer, wrap, inner], section, d, "loop")
                if ctx.full():
                    return


def recursion(ctx):
    for name in sorted(RECURSION):
        f, b = RECURSION[name]
        for section in SECTIONS:
            for wrap in ("plain", "try", "try filtered"):
                cut(ctx, ["recursion", name, wrap], section, document(section, WRAPS[wrap](b), f, "fold" if section == "merge" else "map"), "recursion")


def sortings(ctx):
    for section in SECTIONS:
        for name in ("a.sortLT", "a.minLT", "a.maxNLT", "a.argminNLT", "a.argmaxLT"):
            lt = fcn([("x", "int"), ("y", "int")], "boolean", [TICK, {"<": ["x", "y"]}])
            args = [{"type": A, "value": [4, 1, 3, 5, 2, 6]}] + ([3] if "N" in name else []) + [lt]
            cut(ctx, [name], section, document(section, [{name: args}], {}, "fold" if section == "merge" else "map"), "library")


# ---- which limit

NAMES = ("timeout", "timeout.begin", "timeout.action", "timeout.end")
VALUES = (None, 2, 5)


def options(ctx, first):
    """All ways to give the limits in the document and by the host."""
    host = Ticker()
    for rest in itertools.product(VALUES, repeat=7):
        values = first + rest
        docOpts = dict((k, v) for k, v in zip(NAMES, values[:4]) if v is not None)
        hostOpts = dict((k, v) for k, v in zip(NAMES, values[4:]) if v is not None)
        if not ctx.thorough and sum(v is not None for v in values) > 4:
            continue
        case = [docOpts, hostOpts]
        if not ctx.want(case):
            continue
        if docOpts and hostOpts:
            ctx.nontrivial += 1
        loop = lambda n: [{"let": {"i": 0}}, {"while": {"<": ["i", n]}, "do": [TICK, {"set": {"i": {"+": ["i", 1]}}}]}]
        d = {"input": "int", "output": "int", "method": "fold", "zero": 0, "cells": {"n": {"type": "int", "init": 0}}, "action": loop({"cell": "n"}) + [{"cell": "n"}], "begin": loop({"cell": "n"}), "end": loop({"cell": "n"}),
             "merge": loop({"cell": "n"}) + [{"cell": "n"}], "options": docOpts}
        e = make(d, options=hostOpts) if hostOpts else make(d)
        both = dict(docOpts, **hostOpts)
        ctx.states += 1
        for section in SECTIONS:
            limit = both.get("timeout." + section, both.get("timeout"))
            for n in (1, 2, 4, 5, 8) if limit is not None else (20,):
                e.cells["n"].value = n
                got, ticks = host.call(e, section)
                ctx.transitions += ticks
                if limit is None or n <= limit:
                    ok = got[0] == "ok" and ticks == n
                elif n >= limit + 2:
                    ok = got[0] == "timeout" and ticks <= limit + 2
                else:
                    ok = True
                if not ok:
                    ctx.fail(case, "with options %s in the document and %s by the host, %s that loops %d ms gives %s after %d ms (its limit is %s)" % (docOpts, hostOpts, section, n, show(got), ticks, limit))
            if ctx.full():
                return


def unlimited(ctx):
    """Limits that are none, ways to give them, and limits that make no sense."""
    host = Ticker()
    for name in NAMES:
        for value, limit in ((-1, None), (-5, None), (3, 3), (3.0, 3), ("3", 3), ("x", "bad"), ("", "bad")):
            for how in ("document", "host"):
                case = [name, value, how]
                if not ctx.want(case):
                    continue
                ctx.nontrivial += 1
                d = document("action", forLoop([], "i") + forLoop([], "j"))
                d["begin"] = d["end"] = forLoop([], "i") + forLoop([], "j")
                kw = {"options": {name: value}} if how == "host" else {}
                if how == "document":
                    d["options"] = {name: value}
                made = tryMake(d, **kw)
                if limit == "bad":
                    if made[0] != "init":
                        ctx.fail(case, "option %s = %r by the %s gives %s, should be refused" % (name, value, how, show(made)))
                    continue
                if made[0] != "ok":
                    ctx.fail(case, "option %s = %r by the %s gives %s" % (name, value, how, show(made)))
                    continue
                for section in ("begin", "action", "end"):
                    got, ticks = host.call(made[1], section)
                    ctx.transitions += ticks
                    mine = limit if name in ("timeout", "timeout." + section) else None
                    if (got[0] == "timeout") != (mine is not None):
                        ctx.fail(case, "with option %s = %r by the %s a loop of 6 ms in %s gives %s" % (name, value, how, section, show(got)))


# ---- after a time limit

def afterwards(ctx):
    """The engine after a time limit: counted as started, usable, stores as documented (rollback or not), and the next call starts its own time."""
    host = Ticker()
    for method in ("map", "fold", "emit"):
        for rollback in (False, True):
            d = {"input": "int", "output": "int", "method": method, "cells": {"c": {"type": "int", "init": 0, "rollback": rollback}}, "options": {"timeout": 3},
                 "action": [{"cell": "c", "to": {"+": [{"cell": "c"}, 1]}}, {"for": {"i": 0}, "while": {"<": ["i", "input"]}, "step": {"i": {"+": ["i", 1]}}, "do": TICK}, {"+": ["tally", "input"]} if method == "fold" else {"emit": "input"} if method == "emit" else "input"]}
            if method == "fold":
                d.update(zero=0, merge=["tallyOne"])
            for h in itertools.product((1, 3, 9), repeat=5):
                case = [method, rollback, h]
                if not ctx.want(case):
                    continue
                ctx.nontrivial += 1
                e = make(d) if h[0] == h[1] or True else None
                emitted = []
                if method == "emit":
                    e.emit = emitted.append
                e.log = host.log
                want = {"c": 0, "started": 0, "finished": 0, "tally": 0, "emitted": []}
                for n in h:
                    ctx.transitions += 1
                    got = outcome(e.action, n)
                    want["started"] += 1
                    if n == 9:
                        want["c"] += 0 if rollback else 1
                        ok = got[0] == "timeout"
                    else:
                        want["c"] += 1
                        want["finished"] += 1
                        want["tally"] += n
                        want["emitted"].append(n)
                        ok = got == ("ok", want["tally"] if method == "fold" else None if method == "emit" else n)
                    if method == "fold" and e.tally != want["tally"]:
                        ok = False
                    if method == "emit" and emitted != want["emitted"]:
                        ok = False
                    if not ok or (e.cells["c"].value, e.actionsStarted, e.actionsFinished) != (want["c"], want["started"], want["finished"]):
                        ctx.fail(case, "%s engine: action(%d) of %s gives %s, cell %s, started %s, finished %s; expected %s" % (method, n, h, show(got), e.cells["c"].value, e.actionsStarted, e.actionsFinished, want))
                        break
                if ctx.full():
                    return


# ---- library functions

def withTick(d):
    return dict(d, do=[TICK] + (d["do"] if isinstance(d["do"], list) else [d["do"]]))


def library(ctx, part, parts):
    names = [n for n in sorted(L.FUNCTIONS) if not n.startswith("rand.")]
    for n in names[part::parts]:
        for inst in list(L.instances(n))[:2]:
            which = [i for i, k in enumerate(inst.kinds) if k[0] == "fcn"]
            if not which:
                continue
            types = [("fcn", withTick(inst.fcnDef(i, 1))) if k[0] == "fcn" else k[1] for i, k in enumerate(inst.kinds)]
            doc = callDoc(n, types, inst.ret)
            if tryMake(once(doc))[0] != "ok":
                ctx.note("instances without an engine")
                continue
            host = Ticker()
            for size in (1, 2):
                values = {}
                for i, k in enumerate(inst.kinds):
                    if k[0] != "fcn":
                        values["a%d" % i] = L.tagged(k[1], L.value(k[1], 3, size))
                label = [n, inst.label, size]

                class E(object):
                    pass

                def call(**kw):
                    e = make(doc, **kw)
                    e.log = host.log
                    host.ticks = 0
                    x = outcome(e.action, values)
                    return x[0], host.ticks
                free, total = call()
                ctx.note("library functions that call their argument" if total else "library functions that do not call their argument on this value")
                for limit in range(1, min(total, 12) + 1):
                    if not ctx.want([label, limit]):
                        continue
                    ctx.states += 1
                    got, ticks = call(options={"timeout": limit})
                    ctx.transitions += ticks
                    if total <= limit and (got, ticks) != (free, total) or total >= limit + 2 and (got != "timeout" or ticks > limit + 2):
                        ctx.fail([label, limit], "%s %s with a limit of %d ms is %s after %d ms (without: %s after %d)" % (n, inst.label, limit, got, ticks, free, total))
                    if total >= limit + 2:
                        ctx.nontrivial += 1
                if ctx.full():
                    return


def enumerations(ctx):
    """Functions that enumerate more than they are given, on a clock that moves a second with every reading."""
    c = clock.install(1.0)
    for expr in ({"a.permutations": ["input"]}, {"a.combinations": ["input", 4]}, {"a.combinations": ["input", 5]}):
        name = list(expr)[0]
        for n in (9, 10):
            if name == "a.combinations":
                n += 15
            case = [expr, n]
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            e = make({"input": A, "output": "int", "action": [{"a.len": [expr]}], "options": {"timeout": 2000}})
            got = outcome(e.action, list(range(n)))
            if got[0] != "timeout":
                ctx.fail(case, "%s on %d items does not obey its time limit: %s" % (expr, n, show(got)))
            e = make({"input": A, "output": "int", "action": [{"a.len": [expr]}]})
            if n in (9, 24):
                got = outcome(e.action, list(range(n)))
                if got[0] != "ok":
                    ctx.fail(case, "%s on %d items without a limit gives %s" % (expr, n, show(got)))


def tasks(tier):
    out = [("recursion", recursion, ()), ("sortings", sortings, ()), ("unlimited", unlimited, ()), ("afterwards", afterwards, ()), ("enumerations", enumerations, ())]
    out += [("loops " + w, loops, (w,)) for w in sorted(WRAPS)]
    out += [("nested " + n, nested, (n,)) for n in sorted(LOOPS)]
    out += [("options %s" % v, options, ((v,),)) for v in VALUES]
    out += [("library %d" % i, library, (i, 8)) for i in range(8)]
    return out
