"""C12: control structures, scopes and errors: all small programs over every form, on the real engine and a reference interpreter."""
import itertools

from mc.eng import *
from mc.ref import Ref, Fuel, untag

LEVEL = "exploration"
RULE = ("a case is one program: every special form with every combination of leaf expressions in its places, every form nested in every place of every form (two levels thorough: three), run on "
        "the engine for three inputs and compared in result, error, log (order of evaluation) and cell; programs whose scopes are ill-formed must be refused and all others accepted; "
        "non-trivial: a nested program or one that logs")
ASSUMPTIONS = ["assignments in one let or set are simultaneous", "map iteration follows the order of the map"]

ARR = {"type": "array", "items": "int"}
MAYBE = ["null", "int"]
EITHER = ["int", "string"]


def t(k, x):
    return {"u.t": [k, x]}


# ------------------------------------------------------------------ forms
# Each: (name, kind of the form, [(hole kind, names visible in the hole)], builder(depth, holes))
# hole kinds: E an int expression, P a boolean, S a list of statements

def forms():
    F = []

    def add(name, kind, holes, build):
        F.append((name, kind, holes, build))
    # expressions of type int
    add("if", "E", [("P", ()), ("S", ()), ("E", ()), ("E", ())], lambda d, p, s, a, b: {"if": p, "then": s + [a], "else": b})
    add("ifBlock", "E", [("E", ()), ("S", ()), ("E", ())], lambda d, a, s, b: {"if": {"<": ["x", 1]}, "then": a, "else": s + [b]})
    add("cond", "E", [("P", ()), ("E", ()), ("P", ()), ("E", ()), ("E", ())],
        lambda d, p, a, q, b, c: {"cond": [{"if": p, "then": a}, {"if": q, "then": [{"let": {"k%d" % d: 4}}, b]}], "else": c})
    add("do", "E", [("S", ()), ("E", ())], lambda d, s, a: {"do": s + [a]})
    add("doLet", "E", [("E", ()), ("S", ("z%d",)), ("E", ("z%d",))], lambda d, i, s, a: {"do": [{"let": {"z%d" % d: i}}] + s + [a]})
    add("plus", "E", [("E", ()), ("E", ())], lambda d, a, b: {"+": [a, b]})
    add("div", "E", [("E", ()), ("E", ())], lambda d, a, b: {"//": [a, {"-": [b, 1]}]})
    add("user", "E", [("E", ()), ("E", ())], lambda d, a, b: {"u.f": [a, b]})
    add("trace", "E", [("E", ())], lambda d, a: t(50 + d, a))
    add("cast", "E", [("P", ()), ("E", ("c%d",)), ("E", ())],
        lambda d, p, a, b: {"cast": {"if": p, "then": {"type": EITHER, "value": {"int": 3}}, "else": {"type": EITHER, "value": {"string": "s"}}},
                            "cases": [{"as": "int", "named": "c%d" % d, "do": a}, {"as": "string", "named": "s%d" % d, "do": [t(60, 0), b]}]})
    add("ifnotnull", "E", [("P", ()), ("E", ("n%d",)), ("E", ())],
        lambda d, p, a, b: {"ifnotnull": {"n%d" % d: {"if": p, "then": {"type": MAYBE, "value": {"int": 5}}, "else": {"type": MAYBE, "value": None}}}, "then": a, "else": b})
    add("ifnotnull2", "E", [("P", ()), ("P", ()), ("E", ("n%d",))],
        lambda d, p, q, a: {"ifnotnull": {"n%d" % d: {"u.m": [p, 6]}, "m%d" % d: {"u.m": [q, 7]}}, "then": {"+": [a, "m%d" % d]}, "else": 8})
    for filt in (None, [-7], ["boom"], [18040], ["other", -99]):
        add("try%s" % (filt,), "E", [("E", ()), ("E", ())],
            lambda d, a, b, filt=filt: {"ifnotnull": {"v%d" % d: dict({"try": [t(70, 0), a]}, **({} if filt is None else {"filter": filt}))}, "then": "v%d" % d, "else": b})
    add("errElse", "E", [("P", ()), ("E", ())], lambda d, p, a: {"if": p, "then": {"error": "boom", "code": -7}, "else": a})
    add("errThen", "E", [("P", ()), ("E", ())], lambda d, p, a: {"if": p, "then": a, "else": [t(71, 1), {"error": "other"}]})
    add("newArray", "E", [("E", ()), ("E", ()), ("E", ())], lambda d, a, b, i: {"attr": {"type": ARR, "new": [a, b]}, "path": [i]})
    add("newMap", "E", [("E", ()), ("E", ())], lambda d, a, b: {"attr": {"type": {"type": "map", "values": "int"}, "new": {"p": a, "q": b}}, "path": [{"string": "q"}]})
    add("attrTo", "E", [("E", ()), ("E", ())], lambda d, i, a: {"a.sum": {"attr": {"attr": {"type": ARR, "value": [1, 2]}, "path": [i], "to": a}, "path": []}} if False else
        {"a.sum": {"attr": {"type": ARR, "value": [1, 2]}, "path": [i], "to": a}})
    add("attrToFcn", "E", [("E", ("e%d",)), ("E", ())],
        lambda d, a, i: {"a.sum": {"attr": {"type": ARR, "value": [1, 2]}, "path": [i], "to": {"params": [{"e%d" % d: "int"}], "ret": "int", "do": a}}})
    add("map", "E", [("S", ("q%d",)), ("E", ("q%d",))],
        lambda d, s, a: {"a.sum": {"a.map": [{"type": ARR, "value": [0, 1]}, {"params": [{"q%d" % d: "int"}], "ret": "int", "do": s + [a]}]}})
    add("fold", "E", [("E", ()), ("E", ("r%d", "q%d"))],
        lambda d, z, a: {"a.fold": [{"type": ARR, "value": [3, 1]}, z, {"params": [{"r%d" % d: "int"}, {"q%d" % d: "int"}], "ret": "int", "do": a}]})
    add("mapRef", "E", [("E", ())], lambda d, a: {"a.sum": {"a.map": [{"type": ARR, "new": [a, 2]}, {"fcn": "u.g"}]}})
    add("mapFill", "E", [("E", ()), ("V", ())], lambda d, a, b: {"a.sum": {"a.map": [{"type": ARR, "new": [a, 2]}, {"fcn": "u.f", "fill": {"b": b}}]}})
    add("cellTo", "E", [("E", ())], lambda d, a: {"cell": "c", "to": a})
    add("cellToFcn", "E", [("E", ("e%d",))], lambda d, a: {"cell": "c", "to": {"params": [{"e%d" % d: "int"}], "ret": "int", "do": a}})
    add("call", "E", [("P", ()), ("E", ()), ("E", ())],
        lambda d, p, a, b: {"call": {"if": p, "then": {"type": "enum", "name": "Fs", "symbols": ["f", "h"]} if False else {"type": FS, "value": "f"}, "else": {"type": FS, "value": "h"}}, "args": [a, b]})
    # booleans
    add("and", "P", [("P", ()), ("P", ())], lambda d, p, q: {"&&": [p, q]})
    add("or", "P", [("P", ()), ("P", ())], lambda d, p, q: {"||": [p, q]})
    add("not", "P", [("P", ())], lambda d, p: {"!": p})
    add("less", "P", [("E", ()), ("E", ())], lambda d, a, b: {"<": [a, b]})
    add("eq", "P", [("E", ()), ("E", ())], lambda d, a, b: {"==": [a, b]})
    add("boolDo", "P", [("S", ()), ("P", ())], lambda d, s, p: {"do": s + [p]})
    # statements (each hole S is a list)
    add("set", "S", [("E", ())], lambda d, a: [{"set": {"x": a}}])
    add("set2", "S", [("E", ()), ("E", ())], lambda d, a, b: [{"set": {"x": a, "y": b}}])
    add("let", "S", [("E", ()), ("E", ())], lambda d, a, b: [{"let": {"l%d" % d: a, "m%d" % d: b}}, {"set": {"y": {"+": ["l%d" % d, "m%d" % d]}}}])
    add("letUse", "S", [("E", ()), ("S", ("z%d",))], lambda d, a, s: [{"let": {"z%d" % d: a}}] + s + [{"set": {"y": "z%d" % d}}])
    add("ifS", "S", [("P", ()), ("S", ())], lambda d, p, s: [{"if": p, "then": s + [None]}])
    add("ifElseS", "S", [("P", ()), ("S", ()), ("S", ())], lambda d, p, s, r: [{"if": p, "then": s + [1], "else": r + [2]}])
    add("condS", "S", [("P", ()), ("S", ()), ("P", ()), ("S", ())],
        lambda d, p, s, q, r: [{"cond": [{"if": p, "then": s + [1]}, {"if": q, "then": r + [1]}]}])
    add("while", "S", [("P", ()), ("S", ())],
        lambda d, p, s: [{"let": {"w%d" % d: 0}}, {"while": {"&&": [{"<": ["w%d" % d, 2]}, p]}, "do": [{"set": {"w%d" % d: {"+": ["w%d" % d, 1]}}}] + s}])
    add("until", "S", [("S", ()), ("P", ())],
        lambda d, s, p: [{"let": {"w%d" % d: 0}}, {"do": [{"set": {"w%d" % d: {"+": ["w%d" % d, 1]}}}] + s, "until": {"||": [{">=": ["w%d" % d, 3]}, p]}}])
    add("for", "S", [("E", ()), ("P", ("i%d",)), ("E", ("i%d",)), ("S", ("i%d",))],
        lambda d, a, p, st, s: [{"for": {"i%d" % d: a, "j%d" % d: 0}, "while": {"&&": [{"<": ["j%d" % d, 2]}, p]}, "step": {"j%d" % d: {"+": ["j%d" % d, 1]}, "i%d" % d: st}, "do": s + [t(80, "i%d" % d)]}])
    add("forStepOuter", "S", [("S", ("i%d",))],
        lambda d, s: [{"for": {"i%d" % d: 0}, "while": {"<": ["i%d" % d, 2]}, "step": {"x": {"+": ["x", "i%d" % d]}, "i%d" % d: {"+": ["i%d" % d, 1]}}, "do": s + [0]}])
    add("foreach", "S", [("E", ()), ("S", ("q%d",))],
        lambda d, a, s: [{"foreach": "q%d" % d, "in": {"type": ARR, "new": [a, 1]}, "do": s + [t(81, "q%d" % d)], "seq": False}])
    add("foreachSeq", "S", [("E", ()), ("S", ("q%d",))],
        lambda d, a, s: [{"foreach": "q%d" % d, "in": {"type": ARR, "new": [a, 1]}, "do": s + [{"set": {"y": {"+": ["y", "q%d" % d]}}}], "seq": True}])
    add("forkeyval", "S", [("E", ()), ("S", ("q%d",))],
        lambda d, a, s: [{"forkey": "k%d" % d, "forval": "q%d" % d, "in": {"type": {"type": "map", "values": "int"}, "new": {"u": a, "v": 2}},
                          "do": s + [t({"s.len": "k%d" % d}, "q%d" % d)]}])
    add("doS", "S", [("S", ()), ("S", ())], lambda d, s, r: [{"do": s + [{"set": {"y": 3}}] + r}])
    add("tryS", "S", [("E", ())], lambda d, a: [{"try": [t(82, 0), a]}])
    add("trySDo", "S", [("S", ())], lambda d, s: [{"try": [{"do": s + [1]}]}])
    add("tryFilter", "S", [("S", ())], lambda d, s: [{"try": [{"do": s + [1]}], "filter": ["boom", 18040]}])
    add("err", "S", [("P", ())], lambda d, p: [{"if": p, "then": {"error": "boom", "code": -7}}])
    add("castS", "S", [("P", ()), ("S", ("c%d",))],
        lambda d, p, s: [{"cast": {"if": p, "then": {"type": EITHER, "value": {"int": 3}}, "else": {"type": EITHER, "value": {"string": "s"}}},
                          "cases": [{"as": "int", "named": "c%d" % d, "do": s + [1]}], "partial": True}])
    add("ifnotnullS", "S", [("P", ()), ("S", ("n%d",))],
        lambda d, p, s: [{"ifnotnull": {"n%d" % d: {"u.m": [p, 5]}}, "then": s + [1]}])
    add("log", "S", [("E", ()), ("E", ())], lambda d, a, b: [{"log": [a, b], "namespace": "ns"}])
    add("cellS", "S", [("E", ())], lambda d, a: [{"cell": "c", "to": a}])
    add("seq", "S", [("S", ()), ("S", ())], lambda d, s, r: s + r)
    add("doc", "S", [("S", ())], lambda d, s: [{"doc": "text"}] + s)
    return F


FS = {"type": "enum", "name": "Fs", "symbols": ["f", "h"]}
FORMS = forms()

LEAF = {
    "E": [t(1, "x"), "x", 2, {"+": ["x", "y"]}],
    "P": [{"<": [t(2, "x"), 1]}, True, False, {"==": ["x", "y"]}],
    "V": ["x", 2, {"+": ["x", "y"]}],       # a plain value: how often a filled argument is evaluated is left open
    "S": [[{"set": {"x": {"+": ["x", 1]}}}], [], [t(3, "x")], [{"set": {"x": "y", "y": "x"}}], [{"let": {"l": 7}}, {"set": {"y": "l"}}]],
}
ERR = {"V": "y", "E": {"u.e": 1}, "P": {"==": [{"u.e": 1}, 1]}, "S": [{"error": "boom", "code": -7}]}


def leaves(kind, names, d, full):
    out = list(LEAF[kind]) if full else LEAF[kind][:1]
    for n in names:
        n = n % d
        if kind == "E":
            out = [{"+": [n, t(4, "x")]}] + out
        elif kind == "P":
            out = [{"<": [n, 1]}] + out
        else:
            out = [[{"set": {"x": {"+": ["x", n]}}}]] + out + ([[{"set": {n: {"+": [n, 1]}}}, t(5, n)]] if full else [])
    return out


def outside(kind, d, form):
    """A leaf that uses, outside of its scope, a name which the form introduces."""
    out = []
    for _, names in form[2]:
        for n in names:
            n = n % d
            out.append({"V": n, "E": n, "P": {"<": [n, 1]}, "S": [{"set": {"x": n}}]}[kind])
    return out


def wrap(kind, x):
    """A program around an instance of a form."""
    body = {"E": [{"set": {"y": x}}], "P": [{"if": x, "then": {"set": {"y": 77}}}], "S": x}[kind]
    return [{"let": {"x": "input", "y": 10}}] + body + [{"type": ARR, "new": ["x", "y"]}]


def document(action):
    return {"name": "E", "input": "int", "output": ARR, "action": action, "cells": {"c": {"type": "int", "init": 100}},
            "fcns": {"t": {"params": [{"k": "int"}, {"v": "int"}], "ret": "int", "do": [{"log": ["k", "v"]}, "v"]},
                     "f": {"params": [{"a": "int"}, {"b": "int"}], "ret": "int", "do": [{"let": {"x": {"*": ["a", 10]}, "q": "b"}}, {"set": {"x": {"+": ["x", "q"]}}}, "x"]},
                     "h": {"params": [{"a": "int"}, {"b": "int"}], "ret": "int", "do": [t(90, "a"), {"-": ["a", "b"]}]},
                     "g": {"params": [{"a": "int"}], "ret": "int", "do": {"if": {"<": ["a", 1]}, "then": t(91, "a"), "else": {"+": [{"u.g": {"-": ["a", 2]}}, 1]}}},
                     "m": {"params": [{"p": "boolean"}, {"v": "int"}], "ret": MAYBE, "do": [{"log": ["v"]}, {"if": "p", "then": {"type": MAYBE, "value": {"int": 9}}, "else": None}]},
                     "e": {"params": [{"a": "int"}], "ret": "int", "do": [{"log": ["a"]}, {"error": "boom", "code": -7}, "a"]}}}


# ------------------------------------------------------------------ which scopes are well-formed

class Illegal(Exception):
    pass


class Scope(object):
    def __init__(self, parent=None, above=False, within=False, names=()):
        self.parent, self.above, self.within, self.names = parent, above, within, set(names)

    def has(self, n):
        return n in self.names or (self.parent is not None and self.parent.has(n))

    def writable(self, n):
        if self.within:
            return False
        if n in self.names:
            return True
        return not self.above and self.parent is not None and self.parent.writable(n)

    def open(self, names=()):
        return Scope(self, names=names)

    def sealed(self):
        return Scope(self, True, True)


def block(x, s):
    for e in (x if isinstance(x, list) else [x]):
        static(e, s)


def fresh(n, s):
    if s.has(n):
        raise Illegal("redeclared " + n)


def writes(x):
    if isinstance(x, dict):
        return "cell" in x and "to" in x or any(writes(v) for v in x.values())
    return isinstance(x, list) and any(writes(v) for v in x)


def fcn(x, s):
    inner = Scope(s, True, False, [list(p)[0] for p in x["params"]])
    block(x["do"], inner)


def static(e, s):
    if e is None or isinstance(e, (bool, int, float)):
        return
    if isinstance(e, str):
        if not s.has(e.split(".")[0]):
            raise Illegal("unknown " + e)
        return
    if isinstance(e, list):
        return
    if "value" in e and "type" in e or "string" in e or "doc" in e or "error" in e:
        return
    if "params" in e and "do" in e:
        return fcn(e, s)
    if "fcn" in e:
        for v in e.get("fill", {}).values():
            static(v, s.sealed())
    elif "new" in e:
        for v in (e["new"].values() if isinstance(e["new"], dict) else e["new"]):
            static(v, s.sealed())
    elif "let" in e:
        if s.within:
            raise Illegal("let in sealed scope")
        for n, v in e["let"].items():
            fresh(n, s)
            static(v, s.sealed())
        s.names |= set(e["let"])
    elif "set" in e:
        for n, v in e["set"].items():
            if not s.has(n) or not s.writable(n):
                raise Illegal("set " + n)
            static(v, s.sealed())
    elif "attr" in e:
        static(e["attr"], s.sealed())
        for x in e["path"]:
            static(x, s.sealed())
        if "to" in e:
            static(e["to"], s)
    elif "cell" in e:
        if "to" in e:
            static(e["to"], s)
            if isinstance(e["to"], dict) and "params" in e["to"] and writes(e["to"]["do"]):
                raise Illegal("an updating function updates")
    elif "if" in e:
        static(e["if"], s.sealed())
        block(e["then"], s.open())
        if "else" in e:
            block(e["else"], s.open())
    elif "cond" in e:
        for c in e["cond"]:
            static(c["if"], s.sealed())
            block(c["then"], s.open())
        if "else" in e:
            block(e["else"], s.open())
    elif "for" in e:
        inner = s.open()
        for n, v in e["for"].items():
            fresh(n, s)
            static(v, inner.sealed())
        inner.names |= set(e["for"])
        static(e["while"], inner.sealed())
        for n, v in e["step"].items():
            if not inner.has(n) or not inner.writable(n):
                raise Illegal("step " + n)
            static(v, inner.sealed())
        block(e["do"], inner.open())
    elif "while" in e:
        inner = s.open()
        static(e["while"], inner.sealed())
        block(e["do"], inner)
    elif "until" in e:
        inner = s.open()
        block(e["do"], inner)
        static(e["until"], inner.sealed())
    elif "foreach" in e:
        fresh(e["foreach"], s)
        static(e["in"], s.sealed())
        inner = Scope(s, not e.get("seq", True), False, [e["foreach"]])
        block(e["do"], inner.open())
    elif "forkey" in e:
        fresh(e["forkey"], s)
        fresh(e["forval"], s)
        static(e["in"], s.sealed())
        block(e["do"], s.open([e["forkey"], e["forval"]]).open())
    elif "cast" in e:
        static(e["cast"], s.sealed())
        for c in e["cases"]:
            block(c["do"], s.open([c["named"]]))
    elif "ifnotnull" in e:
        for v in e["ifnotnull"].values():
            static(v, s.sealed())
        block(e["then"], s.open(e["ifnotnull"]).open())
        if "else" in e:
            block(e["else"], s.open())
    elif "try" in e:
        block(e["try"], s.sealed())
    elif "log" in e:
        for x in e["log"]:
            static(x, s.sealed())
    elif "do" in e:
        block(e["do"], s.open())
    elif "call" in e:
        static(e["call"], s.sealed())
        for x in e["args"]:
            static(x, s.sealed())
    else:
        (name, args), = e.items()
        for x in (args if isinstance(args, list) else [args]):
            static(x, s.sealed())


def legal(action):
    try:
        block(action, Scope(Scope(names=["input", "name", "instance", "metadata", "actionsStarted", "actionsFinished"]), True))
        return True
    except Illegal:
        return False


# ------------------------------------------------------------------ running

def check(ctx, label, action, nontrivial):
    case = [label, action]
    if not ctx.want(case):
        return
    if nontrivial:
        ctx.nontrivial += 1
    doc = document(action)
    r = tryMake(once(doc))
    ok = legal(action)
    if r[0] == "bad":
        ctx.fail(case, "making the engine fails: %s" % r[1])
        return
    if not ok:
        if r[0] == "ok":
            ctx.fail(case, "accepted with an ill-formed scope")
        else:
            ctx.outcome((r[0],))
        return
    if r[0] != "ok":
        ctx.fail(case, "refused: %s %s" % r)
        return
    e, ref = r[1], Ref(doc)
    logs = []
    e.log = lambda values, ns: logs.append((ns, list(values)))
    for x in (0, 1, -1):
        try:
            want = ref.action(x)
        except Fuel:
            return
        got = outcome(e.action, x)
        ctx.transitions += 1
        if not agree(got, want):
            ctx.fail(case, "input %d: result %s, should be %s" % (x, show(got), show(want)))
            return
        if not same(stripLogs(logs), stripLogs(ref.logs)):
            ctx.fail(case, "input %d: evaluated %s, should be %s" % (x, show(logs), show(ref.logs)))
            return
        if e.cells["c"].value != ref.cells["c"]:
            ctx.fail(case, "input %d: cell %s, should be %s" % (x, e.cells["c"].value, ref.cells["c"]))
            return
        ctx.outcome((want[0], str(want[1]), len(ref.logs)))
        del logs[:]
        del ref.logs[:]


def stripLogs(logs):
    return [list(v) for ns, v in logs]


def single(ctx, which):
    """One form with every combination of leaves, errors and out-of-scope names in its places."""
    form = FORMS[which]
    name, kind, holes, build = form
    choices = [leaves(k, n, 0, True) for k, n in holes]
    for combo in itertools.product(*choices):
        check(ctx, name, wrap(kind, build(0, *combo)), True)
    base = [c[0] for c in choices]
    for i, (k, n) in enumerate(holes):
        for x in [ERR[k]] + outside(k, 0, form) + [leaf for leaf in bad(k)]:
            for j, (k2, n2) in enumerate(holes):
                for y in (choices[j] if j != i else [x]):
                    combo = list(base)
                    combo[j] = y
                    combo[i] = x
                    check(ctx, name, wrap(kind, build(0, *combo)), True)
    # names used after the form, and the form twice in a row
    for x in outside("E", 0, form):
        check(ctx, name + " then", wrap("S", (build(0, *base) if kind == "S" else [build(0, *base)]) + [{"set": {"x": x}}]), True)
    check(ctx, name + " twice", wrap("S", (build(0, *base) * 2 if kind == "S" else [build(0, *base)] * 2)), True)


def bad(kind):
    """Leaves that break the rules of scopes."""
    return {"V": ["nosuch"], "E": ["nosuch", {"do": [{"set": {"x": 5}}, "x"]}, {"do": [{"let": {"x": 5}}, 1]}, {"do": [{"let": {"h": 5}}, "h"]}],
            "P": [{"do": [{"set": {"x": 5}}, True]}, {"do": [{"let": {"h": 5}}, {"<": ["h", 6]}]}],
            "S": [[{"let": {"x": 1}}], [{"let": {"input": 1}}], [{"set": {"input": 1}}], [{"set": {"nosuch": 1}}], [{"let": {"l": 7}}, {"let": {"l": 8}}], [{"set": {"actionsStarted": 1}}],
                  [{"do": [{"let": {"l": 7}}]}, {"let": {"l": 8}}, {"set": {"x": "l"}}], [{"do": [{"let": {"l": 7}}]}, {"set": {"x": "l"}}]]}[kind]


def nested(ctx, which, depth):
    """Every form in every place of one form (to the given depth along one path), other places at their first leaves."""
    for label, kind, x in instances(which, 0, depth, True):
        check(ctx, label, wrap(kind, x), True)


def instances(which, d, depth, alternatives):
    form = FORMS[which]
    name, kind, holes, build = form
    base = [leaves(k, n, d, False)[0] for k, n in holes]
    for i, (k, n) in enumerate(holes):
        for w2, form2 in enumerate(FORMS):
            if form2[1] != k:
                continue
            inner = []
            if depth > 2:
                inner = [(l, x) for l, _, x in instances(w2, d + 1, depth - 1, False)]
            else:
                b2 = [leaves(k2, n2, d + 1, False)[0] for k2, n2 in form2[2]]
                inner.append((form2[0], form2[3](d + 1, *b2)))
                for j, (k2, n2) in enumerate(form2[2] if alternatives else []):
                    alts = [ERR[k2]] + LEAF[k2][1:4] + [{"V": q % d, "E": q % d, "P": {"<": [q % d, 1]}, "S": [{"set": {"x": q % d}}]}[k2] for q in n]
                    for alt in alts:
                        c2 = list(b2)
                        c2[j] = alt
                        inner.append((form2[0], form2[3](d + 1, *c2)))
            for l, x in inner:
                combo = list(base)
                combo[i] = x
                yield name + "/" + l, kind, build(d, *combo)


def tasks(tier):
    out = []
    for i, f in enumerate(FORMS):
        out.append(("one-%s" % f[0], single, (i,)))
        out.append(("two-%s" % f[0], nested, (i, 2)))
        if tier == "thorough":
            out.append(("three-%s" % f[0], nested, (i, 3)))
    return out
