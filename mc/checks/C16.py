"""C16: the scoring life cycle delivers what each method promises."""
import itertools

from mc.hist import *

LEVEL = "model_checking"
RULE = ("every history of begin, succeeding and failing actions (several ways of failing) and end up to the depth bound, on map, emit and fold engines with every subset of the optional document fields "
        "and many ways to emit, in step with a reference interpreter that predicts answers, emissions, log output, their order and every model parameter; non-trivial: histories with a failed call")
ASSUMPTIONS = []

S = lambda s: {"string": s}
A = {"type": "array", "items": "int"}
FAILS = [{"if": {"==": ["input", 90]}, "then": {"error": "user", "code": -7}}, {"if": {"==": ["input", 91]}, "then": {"//": [1, 0]}}]
LATE = [{"if": {"==": ["input", 92]}, "then": [{"let": {"late": 3}}, {"error": "late"}]}]


def params(doc, section):
    out = ["instance", {"map.len": "metadata"}]
    if "name" in doc:
        out.append("name")
    if "version" in doc:
        out.append("version")
    if "metadata" in doc:
        out.append({"attr": "metadata", "path": [S("who")]})
    if section in ("action", "end"):
        out += ["actionsStarted", "actionsFinished"]
    if section in ("action", "end") and doc["method"] == "fold":
        out.append("tally")
    return out


FCNS = {"note": {"params": [{"x": "int"}], "ret": "int", "do": [{"log": ["x", S("in a function")], "namespace": "fcn"}, {"+": ["x", 1]}]},
        "out": {"params": [{"x": "int"}], "ret": "int", "do": [{"emit": "x"}, {"+": ["x", 1]}]},
        "out2": {"params": [{"x": "int"}], "ret": "null", "do": {"emit": {"u.out": "x"}}}}
EMITS = {
    "once": [{"emit": "input"}], "never": [{"+": ["input", 1]}], "twice": [{"emit": "input"}, {"emit": {"+": ["input", 1]}}],
    "function": [{"u.out": "input"}], "functions": [{"u.out2": "input"}, {"u.out": 5}],
    "loop": [{"foreach": "x", "in": {"type": A, "value": [3, 1, 2]}, "do": {"emit": "x"}}],
    "map": [{"a.map": [{"type": A, "value": [3, 1, 2]}, {"params": [{"x": "int"}], "ret": "null", "do": {"emit": "x"}}]}],
    "reference": [{"a.map": [{"type": A, "value": [3, 1, 2]}, {"fcn": "emit"}]}], "user reference": [{"a.map": [{"type": A, "value": [3, 1, 2]}, {"fcn": "u.out"}]}],
    "if": [{"if": {">": ["input", 1]}, "then": {"emit": 1}, "else": [{"emit": 2}, {"emit": 3}]}], "cond": [{"cond": [{"if": {">": ["input", 1]}, "then": {"emit": 1}}, {"if": {"==": ["input", 1]}, "then": {"emit": 4}}]}],
    "try": [{"try": [{"emit": 1}, {"error": "inside"}]}, {"emit": 2}], "in argument": [{"+": [{"u.out": 3}, {"u.out": 4}]}], "let": [{"let": {"y": {"u.out": 6}}}, {"emit": "y"}],
    "updater": [{"cell": "c", "to": {"params": [{"z": "int"}], "ret": "int", "do": [{"emit": "z"}, {"+": ["z", "input"]}]}}, {"emit": {"cell": "c"}}],
    "log between": [{"emit": 1}, {"log": [S("between")]}, {"emit": 2}, {"log": ["input", S("after")], "namespace": "ns"}],
    "nothing emitted": [{"if": False, "then": {"emit": 1}}],
}


def document(method, optional, body):
    d = {"input": "int", "output": "int", "method": method, "fcns": dict((k, v) for k, v in FCNS.items() if method == "emit" or k == "note"), "cells": {"c": {"type": "int", "init": 0}}}
    if "name" in optional:
        d["name"] = "Engine_Under_Test"
    if "version" in optional:
        d["version"] = 12
    if "metadata" in optional:
        d["metadata"] = {"who": "me", "why": "x"}
    if method == "fold":
        d["zero"] = 100
        d["merge"] = [{"+": ["tallyOne", "tallyTwo"]}]
    emits = [{"u.out": {"int": 77}}] if method == "emit" else []
    if "begin" in optional:
        d["begin"] = [{"log": params(d, "begin"), "namespace": "begin"}, {"cell": "c", "to": {"u.note": {"cell": "c"}}}] + emits
    if "end" in optional:
        d["end"] = [{"log": params(d, "end"), "namespace": "end"}, {"cell": "c", "to": {"u.note": {"cell": "c"}}}] + emits + [{"if": {">": [{"cell": "c"}, 3]}, "then": {"error": "end", "code": -3}}, {"log": [{"cell": "c"}]}]
    d["action"] = [{"log": params(d, "action")}] + FAILS + (body or []) + LATE
    if method == "map":
        d["action"].append({"u.note": {"+": ["input", {"cell": "c"}]}})
    elif method == "fold":
        d["action"].append({"+": ["tally", {"u.note": "input"}]})
    return d


OPS = [("begin",), ("action", 1), ("action", 2), ("action", 90), ("action", 91), ("action", 92), ("end",)]


def histories(ctx, items, depth):
    for label, d in items:
        hs = [h for h in itertools.product(OPS, repeat=depth) if ctx.want([label, h])]
        for start in range(0, len(hs), 350):
            part = hs[start:start + 350]
            engines = PFAEngine.fromJson(once(d), multiplicity=len(part))
            for i, (h, e) in enumerate(zip(part, engines)):
                pair = Pair(e, Ref(d, i))
                ctx.traces += 1
                if any(o[1:] and o[1] >= 90 for o in h):
                    ctx.nontrivial += 1
                for k, op in enumerate(h):
                    ctx.transitions += 1
                    wrong = pair.step(op)
                    if wrong:
                        ctx.fail([label, h], "after %s: %s" % (h[:k], wrong))
                        break
                ctx.outcome((d["method"], pair.ref.started, pair.ref.finished, repr(pair.ref.cells), repr(pair.ref.tally)))
                ctx.states += 1
                if ctx.full():
                    return


OUTS = [["null", "int"], {"type": "record", "name": "O", "fields": [{"name": "v", "type": ["null", "int"]}, {"name": "a", "type": A}]}, A, "string", "double", {"type": "map", "values": "int"}, {"type": "enum", "name": "E", "symbols": ["x", "y"]}]


def callbacks(ctx):
    """Callbacks of the host: replaced between calls and during one, one per instance; values of every type pass unchanged."""
    d = document("emit", ("begin", "end"), [{"emit": "input"}, {"u.out": {"+": ["input", 1]}}, {"a.map": [{"type": A, "value": [7]}, {"fcn": "emit"}]}])
    steps = ["begin", 1, 90, 2, "end"]
    for order in itertools.product((0, 1, 2), repeat=len(steps)):
        case = ["callbacks", order]
        if not ctx.want(case):
            continue
        ctx.nontrivial += 1
        e, other = PFAEngine.fromJson(once(d), multiplicity=2)
        bins = [[], []]
        strange = []
        other.emit = other.log = lambda *a: strange.append(a)
        want = [[], []]
        for step, which in zip(steps, order):
            # which 2: the callback changes itself on the first emission
            got = []
            first = which % 2

            def sink(x, i=first):
                bins[i].append(x)

            def switching(x):
                bins[0].append(x)
                e.emit = lambda y: bins[1].append(y)
            e.emit = switching if which == 2 else sink
            e.log = lambda values, ns: None
            outcome({"begin": e.begin, "end": e.end}.get(step, lambda: e.action(step)))
            out = {"begin": [77], "end": [77], 1: [1, 2, 7], 2: [2, 3, 7], 90: []}[step]
            if which == 2:
                want[0] += out[:1]
                want[1] += out[1:]
            else:
                want[first] += out
            ctx.transitions += 1
        if bins != want or strange:
            ctx.fail(case, "callbacks received %s, should have received %s; another instance's callbacks received %s" % (bins, want, strange))
            return
        ctx.outcome(repr(want))
    for t in OUTS:
        for how in ("direct", "function", "reference"):
            body = {"direct": {"emit": "input"}, "function": {"u.f": "input"}, "reference": {"a.map": [{"type": {"type": "array", "items": t}, "new": ["input"]}, {"fcn": "emit"}]}}[how]
            d = {"input": t, "output": t, "method": "emit", "action": [body], "fcns": {"f": {"params": [{"x": t}], "ret": "null", "do": {"emit": "x"}}}}
            e = make(d)
            env = U.Env(t)
            for v in U.values(t, 5):
                case = ["types", repr(t), how, repr(v)]
                if not ctx.want(case):
                    continue
                ctx.transitions += 1
                got = []
                e.emit = got.append
                r = outcome(e.action, v)
                if r[0] != "ok" or len(got) != 1 or not same(plain(t, got[0], env), plain(t, v, env)):
                    ctx.fail(case, "emitting %s gives %s, the callback received %s" % (show(v), show(r), show(got)))


def tasks(tier):
    depth = 5 if tier == "thorough" else 4
    items = []
    fields = ("name", "version", "metadata", "begin", "end")
    for n in range(len(fields) + 1):
        for optional in itertools.combinations(fields, n):
            for method in ("map", "emit", "fold"):
                if tier != "thorough" and method != "map" and n in (2, 3) and "begin" not in optional:
                    continue
                items.append(("%s with %s" % (method, ",".join(optional)), document(method, optional, EMITS["twice"] if method == "emit" else [{"log": ["input"], "namespace": "body"}])))
    for name, body in EMITS.items():
        items.append(("emit " + name, document("emit", ("begin", "end", "name"), body)))
    return [("callbacks", callbacks, ())] + [("histories %d" % i, histories, (items[i::32], depth)) for i in range(32)]
