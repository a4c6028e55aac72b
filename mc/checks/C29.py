"""C29: chains of two and three documents against the documents run one after another, over all input sequences."""
import copy
import itertools
import json
import re

import titus.producer.chain as chain
import titus.reader as reader
from titus.errors import *
from titus.genpy import PFAEngine
from titus.producer.chain import PFAChainError

from mc.eng import *
from mc.eng import outcome
from mc.universe import raw

LEVEL = "exploration"
RULE = ("a case is one chain of 2 or 3 documents from a family (map and emit, stateless and stateful, user functions by call, reference, partial application and enum, "
        "local and carried named types, cells and pools with typed initial values, begin and end, errors, with equal and with different names) together with all input "
        "sequences up to length 3; the chained engine must answer exactly as the single engines one after another; non-trivial: all chains that are accepted")
ASSUMPTIONS = ["the names, counters of actions and metadata seen by a chained document are those of the chain (documented)", "after an error nothing more is compared",
               "tags of named types are compared up to the step prefixes", "chains with fold documents are refused as not implemented; promotions between documents may be refused"]
ENUM = lambda q: {"type": "enum", "name": "QE" + q, "symbols": ["lo", "hi"]}
FIX = lambda q: {"type": "fixed", "name": "QF" + q, "size": 2}


def REC(q):
    return {"type": "record", "name": "QR" + q, "fields": [{"name": "x", "type": "int"}, {"name": "e", "type": ENUM(q)}, {"name": "e2", "type": "QE" + q}]}


def DEEP(q):
    return {"type": "record", "name": "QD" + q, "fields": [{"name": "a", "type": REC(q)}, {"name": "b", "type": "QR" + q}, {"name": "u", "type": ["null", "QR" + q, "int"]},
                                                           {"name": "l", "type": {"type": "array", "items": "QR" + q}}, {"name": "next", "type": ["null", "QD" + q]}]}


def UNI(q):
    return ["null", REC(q), "int", {"type": "map", "values": "QR" + q}]


def NS(q):
    return {"type": "record", "name": "QN" + q, "namespace": "com.x" + q, "fields": [{"name": "x", "type": "int"}, {"name": "up", "type": ["null", "QN" + q]}]}


TYPES = {"int": lambda q: "int", "rec": REC, "deep": DEEP, "uni": UNI, "ns": NS}
INPUTS = {"int": [0, 1, 2, -1], "rec": [{"x": 1, "e": "lo", "e2": "hi"}, {"x": 2, "e": "hi", "e2": "hi"}]}
DOCS = {}


def once(x, seen):
    """A named type is written out in full only once."""
    if isinstance(x, list):
        return [once(i, seen) for i in x]
    if isinstance(x, dict):
        if x.get("type") in ("record", "enum", "fixed"):
            name = (x.get("namespace", "") + "." + x["name"]).lstrip(".")
            if name in seen:
                return name
            seen.add(name)
        return {k: once(v, seen) for k, v in x.items()}
    return x


def doc(name, a, b, **kw):
    def deco(f):
        def build(q):
            d = f(q)
            d.update(input=TYPES[a](q), output=TYPES[b](q))
            d["name"] = kw.get("engine", name.capitalize())
            return once(d, set())
        DOCS[name] = (a, b, build)
        return f
    return deco


def S(x):
    return {"string": x}


@doc("plus", "int", "int")
def _(q):
    return {"action": [{"+": ["input", 1]}]}


@doc("fcns", "int", "int", engine="Same")
def _(q):
    return {"action": [{"a.sum": [{"a.map": [{"new": [{"u.f": ["input"]}, 2], "type": {"type": "array", "items": "int"}}, {"fcn": "u.g"}]}]}],
            "fcns": {"f": {"params": [{"n": "int"}], "ret": "int", "do": [{"if": {"||": [{"<=": ["n", 0]}, {">": ["n", 20]}]}, "then": 0, "else": {"+": [1, {"u.f": [{"-": ["n", 1]}]}]}}]},
                     "g": {"params": [{"name": "int"}], "ret": "int", "do": [{"*": ["name", 2]}]}}}


@doc("refs", "int", "int", engine="Same")
def _(q):
    return {"action": [{"let": {"y": {"a.map": [{"type": {"type": "array", "items": "int"}, "value": [1, 2, 3]}, {"fcn": "u.f", "fill": {"k": "input"}}]}}}, {"a.sum": ["y"]}],
            "fcns": {"f": {"params": [{"n": "int"}, {"k": "int"}], "ret": "int", "do": [{"+": [{"*": ["n", "k"]}, 1]}]}}}


@doc("cell", "int", "int", engine="Same")
def _(q):
    return {"action": [{"cell": "c", "to": {"fcn": "u.f", "fill": {"d": "input"}}}, {"cell": "r", "path": [S("x")], "to": {"params": [{"o": "int"}], "ret": "int", "do": [{"+": ["o", 1]}]}},
                       {"+": [{"cell": "c"}, {"*": [100, {"cell": "r", "path": [S("x")]}]}]}],
            "cells": {"c": {"type": "int", "init": 0}, "r": {"type": REC(q), "init": {"x": 5, "e": "lo", "e2": "hi"}}},
            "fcns": {"f": {"params": [{"o": "int"}, {"d": "int"}], "ret": "int", "do": [{"+": ["o", "d"]}]}}}


@doc("pool", "int", "int", engine="Same")
def _(q):
    return {"action": [{"let": {"k": {"s.int": ["input"]}}}, {"pool": "c", "path": ["k"], "to": {"params": [{"o": "int"}], "ret": "int", "do": [{"+": ["o", 1]}]}, "init": 1},
                       {"if": {">=": [{"pool": "c", "path": ["k"]}, 2]}, "then": [{"pool": "c", "del": "k"}]}, {"pool": "c", "path": [S("z")], "to": {"params": [{"o": "int"}], "ret": "int", "do": [{"+": ["o", 10]}]}, "init": 0},
                       {"+": [{"pool": "c", "path": [S("z")]}, "input"]}],
            "pools": {"c": {"type": "int", "init": {"z": 7}}}}


@doc("emit", "int", "int")
def _(q):
    return {"method": "emit", "action": [{"if": {">=": ["input", 0]}, "then": [{"emit": ["input"]}, {"emit": [{"*": ["input", 10]}]}]}]}


@doc("emitfcn", "int", "int", engine="Same")
def _(q):
    return {"method": "emit", "action": [{"u.f": ["input"]}, {"foreach": "v", "in": {"type": {"type": "array", "items": "int"}, "value": [7, 8]}, "do": [{"emit": [{"+": ["v", "input"]}]}]}],
            "fcns": {"f": {"params": [{"n": "int"}], "ret": "null", "do": [{"emit": ["n"]}]}}}


@doc("emitref", "int", "int")
def _(q):
    return {"method": "emit", "action": [{"a.map": [{"new": ["input", 3], "type": {"type": "array", "items": "int"}}, {"fcn": "emit"}]}, None]}


@doc("begin", "int", "int", engine="Same")
def _(q):
    return {"begin": [{"let": {"x": 5}}, {"cell": "c", "to": {"+": ["x", "instance"]}}], "end": [{"let": {"x": {"cell": "c"}}}, {"log": ["x"]}],
            "action": [{"cell": "c", "to": {"params": [{"o": "int"}], "ret": "int", "do": [{"+": ["o", 1]}]}}, {"let": {"x": {"cell": "c"}}}, {"*": ["x", "input"]}],
            "cells": {"c": {"type": "int", "init": 0}}}


@doc("fails", "int", "int")
def _(q):
    return {"action": [{"if": {"==": ["input", 2]}, "then": {"error": "no", "code": -5}, "else": {"+": ["input", 3]}}]}


@doc("named", "int", "int")
def _(q):
    return {"action": [{"let": {"r": {"new": {"x": "input", "e": {"type": ENUM(q), "value": "hi"}, "e2": {"type": "QE" + q, "value": "lo"}}, "type": REC(q)}}},
                       {"let": {"l": {"new": ["r", {"type": "QR" + q, "value": {"x": 4, "e": "lo", "e2": "lo"}}], "type": {"type": "array", "items": "QR" + q}}}},
                       {"let": {"u": {"type": ["null", "QR" + q, "int"], "value": {"QR" + q: {"x": 9, "e": "lo", "e2": "hi"}}}}},
                       {"let": {"n": {"cast": "u", "cases": [{"as": "null", "named": "z", "do": [0]}, {"as": "QR" + q, "named": "z", "do": ["z.x"]}, {"as": "int", "named": "z", "do": ["z"]}]}}},
                       {"let": {"up": {"upcast": "r", "as": ["null", "QR" + q]}}},
                       {"let": {"m": {"ifnotnull": {"w": "up"}, "then": "w.x", "else": 0}}},
                       {"let": {"s": {"a.sum": [{"a.map": ["l", {"params": [{"i": "QR" + q}], "ret": "int", "do": ["i.x"]}]}]}}},
                       {"+": [{"+": ["n", "m"]}, {"+": ["s", {"if": {"==": ["r.e", {"type": "QE" + q, "value": "hi"}]}, "then": 1000, "else": 0}]}]}]}


@doc("typed", "int", "int", engine="Same")
def _(q):
    return {"action": [{"let": {"u": {"cell": "u"}}},
                       {"let": {"n": {"cast": "u", "cases": [{"as": "null", "named": "z", "do": [0]}, {"as": "QR" + q, "named": "z", "do": ["z.x"]}, {"as": "int", "named": "z", "do": ["z"]}]}}},
                       {"let": {"d": {"pool": "d", "path": [S("k")]}}},
                       {"let": {"m": {"ifnotnull": {"w": "d.next"}, "then": "w.a.x", "else": 0}}},
                       {"cell": "u", "to": {"type": ["null", "QR" + q, "int"], "value": {"int": 3}}},
                       {"+": ["input", {"+": ["n", {"+": ["m", "d.b.x"]}]}]}],
            "cells": {"u": {"type": ["null", REC(q), "int"], "init": {"QR" + q: {"x": 50, "e": "hi", "e2": "lo"}}}},
            "pools": {"d": {"type": DEEP(q), "init": {"k": {"a": {"x": 1, "e": "lo", "e2": "lo"}, "b": {"x": 2, "e": "lo", "e2": "lo"}, "u": {"QR" + q: {"x": 3, "e": "lo", "e2": "hi"}}, "l": [], "next":
                                                            {"QD" + q: {"a": {"x": 600, "e": "lo", "e2": "lo"}, "b": {"x": 2, "e": "lo", "e2": "lo"}, "u": None, "l": [], "next": None}}}}}}}


@doc("byenum", "int", "int")
def _(q):
    return {"action": [{"call": {"if": {">": ["input", 0]}, "then": {"type": {"type": "enum", "name": "QW" + q, "symbols": ["f", "g"]}, "value": "f"}, "else": {"type": "QW" + q, "value": "g"}}, "args": ["input"]}],
            "fcns": {"f": {"params": [{"n": "int"}], "ret": "int", "do": [{"+": ["n", 100]}]}, "g": {"params": [{"n": "int"}], "ret": "int", "do": [{"-": ["n", 100]}]}}}


@doc("params", "int", "int")
def _(q):
    return {"action": [{"let": {"k": {"a.map": [{"type": {"type": "array", "items": "int"}, "value": [1, 2]}, {"params": [{"name": "int"}], "ret": "int", "do": [{"+": ["name", "instance"]}]}]}}},
                       {"+": [{"a.sum": ["k"]}, {"+": ["instance", "input"]}]}]}


@doc("torec", "int", "rec")
def _(q):
    return {"action": [{"new": {"x": "input", "e": {"if": {">": ["input", 1]}, "then": {"type": ENUM(q), "value": "hi"}, "else": {"type": "QE" + q, "value": "lo"}}, "e2": {"type": "QE" + q, "value": "hi"}}, "type": REC(q)}]}


@doc("recrec", "rec", "rec", engine="Same")
def _(q):
    return {"action": [{"u.f": ["input"]}], "fcns": {"f": {"params": [{"r": "QR" + q}], "ret": "QR" + q, "do": [{"attr": "r", "path": [S("x")], "to": {"+": ["r.x", 1]}}]}}}


@doc("emitrec", "rec", "rec")
def _(q):
    return {"method": "emit", "action": [{"emit": ["input"]}, {"emit": [{"attr": "input", "path": [S("e")], "to": {"type": "QE" + q, "value": "hi"}}]}]}


@doc("fromrec", "rec", "int", engine="Same")
def _(q):
    return {"action": [{"cell": "last", "to": "input"}, {"+": ["input.x", {"if": {"==": ["input.e", {"type": "QE" + q, "value": "hi"}]}, "then": 100, "else": 0}]}],
            "cells": {"last": {"type": "QR" + q, "init": {"x": 0, "e": "lo", "e2": "lo"}}}}


@doc("todeep", "rec", "deep")
def _(q):
    return {"action": [{"new": {"a": "input", "b": {"attr": "input", "path": [S("x")], "to": 5}, "u": "input", "l": {"new": ["input", "input"], "type": {"type": "array", "items": "QR" + q}}, "next": None}, "type": DEEP(q)}]}


@doc("deepdeep", "deep", "deep")
def _(q):
    return {"action": [{"let": {"o": {"attr": "input", "path": [S("u")], "to": {"type": ["null", "QR" + q, "int"], "value": {"int": 7}}}}}, {"attr": "o", "path": [S("next")], "to": {"upcast": "input", "as": ["null", "QD" + q]}}]}


@doc("fromdeep", "deep", "int")
def _(q):
    return {"action": [{"+": [{"+": ["input.a.x", "input.b.x"]}, {"+": [{"a.len": ["input.l"]}, {"cast": "input.u", "cases": [{"as": "QR" + q, "named": "z", "do": [{"*": ["z.x", 1000]}]}, {"as": "null", "named": "z", "do": [0]}, {"as": "int", "named": "z", "do": [{"*": ["z", 100]}]}]}]}]}]}


@doc("touni", "int", "uni")
def _(q):
    return {"action": [{"let": {"r": {"new": {"x": "input", "e": {"type": ENUM(q), "value": "hi"}, "e2": {"type": "QE" + q, "value": "hi"}}, "type": REC(q)}}},
                       {"cond": [{"if": {"==": ["input", 0]}, "then": {"upcast": None, "as": UNI(q)}}, {"if": {"==": ["input", 1]}, "then": {"upcast": "r", "as": UNI(q)}}, {"if": {"<": ["input", 0]}, "then": {"upcast": {"new": {"k": "r"}, "type": {"type": "map", "values": "QR" + q}}, "as": UNI(q)}}],
                        "else": {"upcast": "input", "as": UNI(q)}}]}


@doc("fromuni", "uni", "int")
def _(q):
    return {"action": [{"cast": "input", "cases": [{"as": "null", "named": "z", "do": [-7]}, {"as": "QR" + q, "named": "z", "do": [{"+": ["z.x", 70]}]}, {"as": "int", "named": "z", "do": ["z"]},
                                                   {"as": {"type": "map", "values": "QR" + q}, "named": "z", "do": [{"+": [{"map.len": ["z"]}, 500]}]}]}]}


@doc("tons", "int", "ns")
def _(q):
    n = "com.x%s.QN%s" % (q, q)
    return {"action": [{"let": {"r": {"new": {"x": "input", "up": None}, "type": NS(q)}}}, {"new": {"x": 4, "up": "r"}, "type": n}]}


@doc("nsns", "ns", "ns")
def _(q):
    return {"action": [{"attr": "input", "path": [S("x")], "to": {"+": ["input.x", 1]}}]}


@doc("fromns", "ns", "int")
def _(q):
    return {"action": [{"ifnotnull": {"u": "input.up"}, "then": {"+": ["u.x", "input.x"]}, "else": -1}]}


TAG = re.compile(r"(?:.*\.)?(?:Step\d+_[A-Za-z]+_)?Q[A-Z][A-Z]?$")


def norm(v):
    """Without the tags of unions (all records of the family have more than one field)."""
    if isinstance(v, dict):
        if len(v) == 1 and (TAG.match(list(v)[0]) or list(v)[0] in ("int", "map")):
            return norm(list(v.values())[0])
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, list):
        return [norm(x) for x in v]
    return raw(v)


class Runner(object):
    """One engine with its outputs and log collected."""

    def __init__(self, engine):
        self.engine, self.out, self.logs = engine, [], []
        if engine.config.method == "emit":
            engine.emit = self.out.append
        engine.log = lambda xs, ns: self.logs.append(tuple(repr(raw(x)) for x in xs))

    def feed(self, x):
        del self.out[:]
        got = outcome(self.engine.action, x)
        if got[0] != "ok":
            return got, list(self.out)
        return got, (list(self.out) if self.engine.config.method == "emit" else [got[1]])


def single(docs, seq):
    """The documents one after another: per input the list of outputs, or the error."""
    rs = [Runner(PFAEngine.fromJson(d)[0]) for d in docs]
    for r in rs:
        r.engine.begin()
    answers = []
    for x in seq:
        try:
            def push(i, v):
                if i == len(rs):
                    return [raw(v)]
                got, outs = rs[i].feed(v)
                out = []
                for o in outs:
                    out += push(i + 1, (lambda n: {"map": n} if isinstance(n, dict) and list(n) == ["k"] else n)(norm(o)))      # the next document may have other names
                if got[0] != "ok":
                    raise Stop(got)
                return out
            answers.append(push(0, x))
        except Stop as err:
            answers.append(err.args[0][:2])
            return answers, None
    for r in rs:
        r.engine.end()
    return answers, sorted(sum((r.logs for r in rs), []))


class Stop(Exception):
    pass


def chained(make, seq):
    r = Runner(make())
    r.engine.begin()
    answers = []
    for x in seq:
        got, outs = r.feed(x)
        if got[0] != "ok":
            answers.append(got[:2])
            return answers, None
        answers.append([raw(o) for o in outs])
    r.engine.end()
    return answers, sorted(r.logs)


def flat(d):
    return json.dumps(d)


def one(ctx, names, qs, depth=3):
    case = (names, qs)
    if not ctx.want(case):
        return
    docs = [DOCS[n][2](q) for n, q in zip(names, qs)]
    texts = [json.dumps(d) for d in docs]
    label = "chain of %s with names %s" % (" | ".join(names), "/".join(q or "-" for q in qs))
    ins = INPUTS[DOCS[names[0]][0]] if DOCS[names[0]][0] in INPUTS else None
    try:
        text = chain.json(texts, check=False)
        e = lambda: PFAEngine.fromJson(text)[0]
        e()
    except Exception as err:
        ctx.fail(case, "%s is not accepted: %s: %s" % (label, type(err).__name__, " ".join(str(err).split())[:300]),
                 "chain:call-by-enum" if "byenum" in names and "in enumeration type" in str(err) else None)
        return
    ctx.nontrivial += 1
    seqs = [s for k in range(1, depth + 1) for s in itertools.product(ins, repeat=k)]
    # prefixes need not be run on their own: the longest sequences contain them
    stateful = any("cells" in d or "pools" in d for d in docs)
    for seq in seqs if not stateful else [s for s in seqs if len(s) == depth]:
        if not stateful and len(seq) > 1:
            continue
        want, wlog = single(docs, seq)
        got, glog = chained(e, seq)
        ctx.states += 1
        ctx.transitions += len(seq)
        ctx.traces += 1
        ctx.outcome((names, repr(want)))
        if [norm(g) for g in got] != [norm(w) for w in want] or glog != wlog:
            ctx.fail(case + (seq,), "%s on %s gives %s (log %s), one after another they give %s (log %s)" % (label, show(seq), show(got), show(glog), show(want), show(wlog)))
            break
    ctx.sample("%s: %d sequences agree" % (label, len(seqs)), 1)


def fits(names):
    return all(DOCS[a][1] == DOCS[b][0] for a, b in zip(names, names[1:])) and DOCS[names[0]][0] in INPUTS


def pairs(ctx, first):
    for other in sorted(DOCS):
        if fits((first, other)):
            for qs in (("", ""), ("A", "B"), ("B", "A")) if ctx.thorough else (("", ""), ("A", "B")):
                one(ctx, (first, other), qs, 3 if ctx.thorough else 2)


def triples(ctx, first, inner):
    for a in inner:
        for b in sorted(DOCS) if inner is None or ctx.thorough else inner:
            names = (first, a, b)
            if fits(names):
                for qs in (("", "", ""), ("A", "B", "A")) if ctx.thorough else (("A", "B", "A"),):
                    one(ctx, names, qs, 2)


CORE = ["plus", "fcns", "cell", "emit", "begin", "typed", "torec", "recrec", "fromrec", "emitrec"]
LINKS = ["todeep", "deepdeep", "fromdeep", "touni", "fromuni", "tons", "nsns", "fromns"]


def longer(ctx):
    """Every way through the carried types."""
    for names in (("torec", "todeep", "fromdeep"), ("torec", "todeep", "deepdeep"), ("recrec", "todeep", "deepdeep", "fromdeep"), ("todeep", "deepdeep", "deepdeep"), ("touni", "fromuni", "touni"), ("touni", "fromuni"),
                  ("tons", "nsns", "fromns"), ("tons", "nsns", "nsns"), ("emit", "torec", "emitrec", "fromrec"), ("cell", "emitfcn", "cell", "emit", "cell")):
        for qs in itertools.product(("", "A"), repeat=len(names)):
            one(ctx, names, qs, 2)


def forms(ctx):
    """All ways of giving the documents and of getting the chain; the documents stay as they were; the settings arrive."""
    docs = [DOCS[n][2]("") for n in ("cell", "emit", "typed")]
    want = [single(docs, s) for s in ((1, 2), (0, 1))]
    asts = [reader.jsonToAst(json.dumps(d)) for d in docs]
    before = [a.toJson() for a in asts]
    given = {"strings": [json.dumps(d) for d in docs], "trees": asts, "structures": docs, "mixed": [docs[0], asts[1], json.dumps(docs[2])]}
    ways = {"ast": lambda ds, **kw: PFAEngine.fromAst(chain.ast(ds, **kw))[0], "json": lambda ds, **kw: PFAEngine.fromJson(chain.json(ds, **kw))[0],
            "jsonNode": lambda ds, **kw: PFAEngine.fromJson(chain.jsonNode(ds, **kw))[0], "engine": lambda ds, **kw: chain.engine(ds, **kw)[0]}
    for g in sorted(given):
        for w in sorted(ways):
            for kw in ({}, {"name": "Mine", "randseed": 5, "doc": "text", "metadata": {"a": "b"}}, {"version": 3}, {"options": {"timeout": 100000}}, {"tryYaml": True}):
                case = ("forms", g, w, sorted(kw))
                if not ctx.want(case):
                    continue
                ctx.nontrivial += 1
                try:
                    answers = [chained(lambda: ways[w](given[g], **kw), s) for s in ((1, 2), (0, 1))]
                    e = ways[w](given[g], **kw)
                except Exception as err:
                    ctx.fail(case, "chain.%s from %s with %s: %s %s" % (w, g, kw, type(err).__name__, str(err)[:300]), "chain.%s:%s:%s" % (w, g, "+".join(sorted(kw))))
                    continue
                ctx.outcome(repr(answers))
                if [norm([list(x) for x in a[0]]) + [a[1]] for a in answers] != [norm([list(x) for x in a[0]]) + [a[1]] for a in want]:
                    ctx.fail(case, "chain.%s from %s with %s answers %s, must answer %s" % (w, g, kw, show(answers), show(want)))
                c = e.config
                have = {"name": c.name, "randseed": c.randseed, "doc": c.doc, "metadata": c.metadata, "version": c.version}
                for k, v in have.items():
                    if k in kw and kw[k] != v or k not in kw and k != "name" and v not in (None, {}):
                        ctx.fail(case + (k,), "chain.%s with %s has %s %r" % (w, kw, k, v))
    if [a.toJson() for a in asts] != before or docs != [DOCS[n][2]("") for n in ("cell", "emit", "typed")]:
        ctx.fail(("forms", "unchanged"), "chaining changed the documents it was given")


def refused(ctx):
    """Chains that do not fit."""
    def d(a, b, **kw):
        x = {"input": a, "output": b, "action": [{"error": "x"}]}
        x.update(kw)
        return x
    R = lambda n, *f: {"type": "record", "name": n, "fields": [{"name": a, "type": t} for a, t in f]}
    A = lambda t: {"type": "array", "items": t}
    M = lambda t: {"type": "map", "values": t}
    E = lambda n, *s: {"type": "enum", "name": n, "symbols": list(s)}
    types = ["null", "boolean", "int", "long", "float", "double", "string", "bytes", {"type": "fixed", "name": "F2", "size": 2}, {"type": "fixed", "name": "F3", "size": 3}, E("E1", "a", "b"), E("E2", "a", "b", "c"), E("E3", "b", "a"),
             A("int"), A("string"), A(A("int")), M("int"), M("string"), R("R1", ("x", "int")), R("R2", ("x", "string")), R("R3", ("y", "int")), R("R4", ("x", "int"), ("y", "int")), R("R5", ("r", R("R6", ("x", "int")))),
             R("R7", ("r", R("R8", ("x", "string")))), R("R9", ("a", R("Ra", ("x", "int"))), ("b", "Ra")), R("Rb", ("a", R("Rc", ("x", "int"))), ("b", "string")), ["int", "null"], ["int", "string"], ["null", "string"], A(["null", "string"]),
             R("Rd", ("next", ["null", "Rd"])), R("Re", ("next", ["null", "Re"]), ("x", "int")), ["null", R("Rf", ("x", "int"))]]
    promote = {("int", "long"), ("int", "float"), ("int", "double"), ("long", "float"), ("long", "double"), ("float", "double")}
    for (i, a), (j, b) in itertools.product(enumerate(types), enumerate(types)):
        case = ("refused", i, j)
        if not ctx.want(case):
            continue
        if isinstance(a, str) and isinstance(b, str) and (a, b) in promote or isinstance(b, list) and i != j and (a in b or isinstance(a, list)):
            continue        # open: types that fit without being the same
        ctx.nontrivial += 1
        try:
            chain.ast([json.dumps(d("int", a)), json.dumps(d(b, "int"))])
            got = "accepted"
        except (PFAChainError, PFASemanticException):
            got = "refused"
        except Exception as err:
            got = type(err).__name__ + ": " + str(err)[:200]
        ctx.outcome((got, i == j))
        if got != ("accepted" if i == j else "refused"):
            ctx.fail(case, "chaining an output of type %s to an input of type %s is %s" % (json.dumps(a), json.dumps(b), got))
    for ds in ([d("int", "int", method="fold", zero=0, merge=[0]), d("int", "int")], [d("int", "int"), d("int", "int", method="fold", zero=0, merge=[0])]):
        case = ("fold", json.dumps(ds))
        if ctx.want(case):
            ctx.nontrivial += 1
            try:
                chain.ast([json.dumps(x) for x in ds])
                ctx.fail(case, "a chain with a fold document is accepted")
            except (NotImplementedError, PFAChainError):
                pass


def tasks(tier):
    out = [("pairs " + n, pairs, (n,)) for n in sorted(DOCS) if DOCS[n][0] in INPUTS]
    out += [("triples " + n, triples, (n, sorted(DOCS) if tier == "thorough" else CORE)) for n in (sorted(DOCS) if tier == "thorough" else CORE) if DOCS[n][0] in INPUTS]
    return out + [("longer", longer, ()), ("forms", forms, ()), ("refused", refused, ())]
