"""C05: snapshots. Explicit-state exploration of the real engine: all states of cells and pools that a bounded history reaches; in each,
a snapshot is taken, two engines are made from it (directly, and through its text), and all three engines take every next step alike."""
import copy
import json

from mc import universe as U
from mc.eng import *
from titus.genpy import PFAEngine, SharedState
from titus.pfaast import EngineConfig

LEVEL = "model_checking"
RULE = ("a state is the content of all cells and pools after a history of at most two (three thorough) scoring calls over a small alphabet, breadth first, with equal states merged; in every "
        "state a snapshot is taken and each resumed engine is compared with the original in its content and in its answer to every next call; types of the universe times flags "
        "(shared, rollback), and documents that use every section; non-trivial: states other than the initial one")
ASSUMPTIONS = ["engines with a tally or a random generator have memory beyond cells and pools and are only compared in cells and pools"]


def content(e):
    return {"cells": dict((k, U.raw(v.value)) for k, v in e.cells.items()), "pools": dict((k, U.raw(v.value)) for k, v in e.pools.items())}


def k(x):
    return repr(U.key(x))


def noat(x):
    if isinstance(x, dict):
        return dict((n, noat(v)) for n, v in x.items() if n != "@")
    return [noat(v) for v in x] if isinstance(x, list) else x


def strip(ast):
    d = noat(json.loads(ast.toJson()))
    for sec in ("cells", "pools"):
        for v in d.get(sec, {}).values():
            v.pop("init", None)
            v.pop("source", None)
    return d


def untaggedUnion(doc, cont):
    """Does a cell or pool hold a union value without its tag (or an untagged part)?"""
    for name, c in doc.get("cells", {}).items():
        if not U.conforms(c["type"], cont["cells"][name], U.Env(doc.get("input"), c["type"])) and hasUnion(c["type"]):
            return True
    for name, c in doc.get("pools", {}).items():
        if hasUnion(c["type"]) and any(not U.conforms(c["type"], x, U.Env(doc.get("input"), c["type"])) for x in cont["pools"][name].values()):
            return True
    return False


def hasUnion(t):
    return isinstance(t, list) or isinstance(t, dict) and any(hasUnion(x) for x in [t.get("items"), t.get("values")] + [f["type"] for f in t.get("fields", [])] if x is not None)


class System(object):
    """A document, how to make its engine, its alphabet, and how to call."""

    def __init__(self, doc, alphabet, method="map", build=None):
        self.doc, self.alphabet, self.method = once(doc), alphabet, method
        self.build = build

    def fresh(self):
        return self.hook(self.build(self.doc) if self.build else PFAEngine.fromJson(copy.deepcopy(self.doc))[0])

    def hook(self, e):
        e.captured = []
        if self.method == "emit":
            e.emit = lambda x, e=e: e.captured.append(U.raw(x))
        return e

    def call(self, e, datum):
        """What a call shows: answer, emissions."""
        del e.captured[:]
        if datum == "begin()":
            r = outcome(e.begin)
        elif datum == "end()":
            r = outcome(e.end)
        else:
            r = outcome(e.action, copy.deepcopy(datum))
        return (r[0], U.raw(r[1]) if len(r) > 1 and r[0] == "ok" and self.method != "fold" else r[1:2] if r[0] != "ok" else None, list(e.captured))

    def reach(self, history):
        e = self.fresh()
        for d in history:
            self.call(e, d)
        return e


def explore(ctx, label, system, depth):
    first = content(system.fresh())
    seen, frontier = {k(first): ()}, [()]
    while frontier:
        h = frontier.pop(0)
        case = [label, list(h)]
        wanted = ctx.want(case)
        e = system.reach(h)
        here = content(e)
        if wanted:
            ctx.states += 1
            if h:
                ctx.nontrivial += 1
            ctx.outcome(repr((label, k(here))))
            ctx.sample([label, list(h), here], 2)
            key = "untagged-union" if untaggedUnion(system.doc, here) else None
            r = outcome(e.snapshot)
            if r[0] != "ok" or not isinstance(r[1], EngineConfig):
                ctx.fail(case, "snapshot fails: %s" % show(r))
                continue
            snap = r[1]
            text = snap.toJson()
            if k(content(e)) != k(here):
                ctx.fail(case, "taking a snapshot changes the engine from %s to %s" % (show(here), show(content(e))))
            if strip(snap) != strip(e.config):
                ctx.fail(case, "the snapshot differs from the document in more than its initial values: %s" % show(strip(snap), 600))
            resumed = []
            for how, fn in (("directly", lambda: PFAEngine.fromAst(snap)[0]), ("from text", lambda: PFAEngine.fromJson(text)[0])):
                r = outcome(fn)
                if r[0] != "ok":
                    ctx.fail(case, "no engine %s from the snapshot of %s: %s" % (how, show(here), show(r)), key)
                    break
                system.hook(r[1])
                got = content(r[1])
                got = {"cells": dict((n, x) for n, x in got["cells"].items()), "pools": got["pools"]}
                own = {"cells": dict((n, x) for n, x in here["cells"].items() if n in e.config.cells), "pools": dict((n, x) for n, x in here["pools"].items() if n in e.config.pools)}
                if not same(got, own):
                    ctx.fail(case, "the engine made %s from the snapshot holds %s, should be %s" % (how, show(got, 500), show(own, 500)))
                    break
                for name in e.config.cells:
                    if (r[1].cells[name].shared, r[1].cells[name].rollback) != (e.cells[name].shared, e.cells[name].rollback):
                        ctx.fail(case, "flags of cell %s change" % name)
                for name in e.config.pools:
                    if (r[1].pools[name].shared, r[1].pools[name].rollback) != (e.pools[name].shared, e.pools[name].rollback):
                        ctx.fail(case, "flags of pool %s change" % name)
                resumed.append(r[1])
            else:
                # every pair of next steps, on all three in turn; afterwards the snapshot is what it was
                for datum in system.alphabet:
                    ctx.transitions += 1
                    ctx.traces += 1
                    want = system.call(e, datum)
                    after = content(e)
                    for x in resumed:
                        got = system.call(x, datum)
                        if not same(got[1], want[1]) or got[0] != want[0] or not same(got[2], want[2]):
                            ctx.fail(case + [datum], "the resumed engine answers %s, the original %s" % (show(got), show(want)))
                        c = content(x)
                        if not same(c["cells"], dict((n, y) for n, y in after["cells"].items() if n in c["cells"])) or not same(c["pools"], dict((n, y) for n, y in after["pools"].items() if n in c["pools"])):
                            ctx.fail(case + [datum], "the resumed engine then holds %s, the original %s" % (show(c), show(after)))
                if snap.toJson() != text:
                    ctx.fail(case, "the snapshot changes when scoring goes on")
                r = outcome(PFAEngine.fromAst, snap)
                if r[0] != "ok" or not same(content(r[1][0])["cells"], own["cells"]) or not same(content(r[1][0])["pools"], own["pools"]):
                    ctx.fail(case, "the snapshot means something else after scoring went on")
            if ctx.full():
                return
        if len(h) < depth:
            for datum in system.alphabet:
                e = system.reach(h)
                system.call(e, datum)
                c = k(content(e))
                if c not in seen:
                    seen[c] = h + (datum,)
                    frontier.append(h + (datum,))


def typed(t, shared, rollback, deep):
    vs = U.values(t, 3)
    vs = [vs[0], vs[len(vs) // 2], vs[-1]] if len(vs) > 3 else vs
    if deep:
        vs = U.values(t, 3)[:6]
    flags = {"shared": shared, "rollback": rollback}
    doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "op", "type": "int"}, {"name": "k", "type": "string"}, {"name": "v", "type": t}]}, "output": t,
           "cells": {"c": dict(flags, type=t, init=vs[0])}, "pools": {"p": dict(flags, type=t, init={"z y\u00e9": vs[-1]})},
           "action": [{"cond": [
               {"if": {"==": ["input.op", 1]}, "then": {"cell": "c", "to": "input.v"}},
               {"if": {"==": ["input.op", 2]}, "then": {"pool": "p", "path": ["input.k"]}},
               {"if": {"==": ["input.op", 3]}, "then": {"pool": "p", "path": ["input.k"], "to": "input.v", "init": "input.v"}},
               {"if": {"==": ["input.op", 4]}, "then": [{"pool": "p", "del": "input.k"}, {"cell": "c"}]},
               {"if": {"==": ["input.op", 5]}, "then": [{"cell": "c", "to": "input.v"}, {"pool": "p", "path": ["input.k"], "to": "input.v", "init": "input.v"}, {"error": "no", "code": -5},
                                                       {"cell": "c"}]}],
               "else": {"cell": "c"}}]}
    keys = ["z y\u00e9", "b"]
    alphabet = [{"op": 0, "k": "", "v": vs[0]}] + [{"op": 1, "k": "", "v": v} for v in vs] + [{"op": 2, "k": x, "v": vs[0]} for x in keys] + \
        [{"op": 3, "k": x, "v": v} for x in keys for v in vs[1:] or vs] + [{"op": 4, "k": x, "v": vs[0]} for x in keys] + [{"op": 5, "k": "b", "v": vs[-1]}]
    return System(doc, alphabet)


def types(ctx, lo, hi):
    for i, t in enumerate(U.universe(ctx.thorough)):
        if not lo <= i < hi:
            continue
        combos = [(False, False), (True, False), (False, True)]
        for shared, rollback in combos if ctx.thorough else [combos[i % 3]]:
            explore(ctx, [t, shared, rollback], typed(t, shared, rollback, ctx.thorough), 2)


def documents():
    out = {}
    out["counter"] = System({"input": "int", "output": "int", "action": [{"cell": "c", "to": {"params": [{"x": "int"}], "ret": "int", "do": {"+": ["x", "input"]}}}],
                             "cells": {"c": {"type": "int", "init": 0}}}, [0, 1, -3, U.INT_MAX])
    out["sections"] = System({
        "name": "Whole", "version": 3, "doc": "all", "metadata": {"a": "b"}, "options": {"timeout": 100000}, "input": "int", "output": "int",
        "begin": [{"cell": "c", "to": {"params": [{"x": "int"}], "ret": "int", "do": {"+": ["x", 100]}}}],
        "action": [{"let": {"m": {"attr": "metadata", "path": [{"string": "a"}]}}}, {"cell": "c", "to": {"fcn": "u.f"}}, {"+": [{"cell": "c"}, {"+": ["version", {"s.len": ["m"]}]}]}],
        "end": [{"pool": "p", "path": [{"string": "e"}], "to": {"params": [{"x": "int"}], "ret": "int", "do": {"+": ["x", 1]}}, "init": 1}],
        "fcns": {"f": {"params": [{"x": "int"}], "ret": "int", "do": {"+": [{"u.g": ["x"]}, 1]}}, "g": {"params": [{"x": "int"}], "ret": "int", "do": {"*": ["x", 2]}}},
        "cells": {"c": {"type": "int", "init": 1}, "unused": {"type": {"type": "array", "items": "string"}, "init": ["x"]}},
        "pools": {"p": {"type": "int", "init": {}}}}, ["begin()", 1, 2, "end()"])
    node = {"type": "record", "name": "Node", "namespace": "n.s", "fields": [{"name": "v", "type": "double"}, {"name": "next", "type": ["null", "n.s.Node"]}, {"name": "e", "type": U.ENUM}]}
    out["named"] = System({
        "input": node, "output": "double", "cells": {"last": {"type": "n.s.Node", "init": {"v": 0, "next": {"n.s.Node": {"v": 1, "next": None, "e": "blue"}}, "e": "red"}},
                                                     "hist": {"type": {"type": "array", "items": "n.s.Node"}, "init": []}},
        "pools": {"by": {"type": {"type": "map", "values": "n.s.Node"}, "init": {"x": {"y": {"v": 2.5, "next": None, "e": "green"}}}}},
        "action": [{"let": {"old": {"cell": "last", "path": [{"string": "v"}]}}}, {"cell": "last", "to": "input"},
                   {"cell": "hist", "to": {"params": [{"a": U.arr("n.s.Node")}], "ret": U.arr("n.s.Node"), "do": {"a.append": ["a", "input"]}}},
                   {"pool": "by", "path": [{"string": "x"}, {"string": "y"}, {"string": "v"}], "to": {"params": [{"x": "double"}], "ret": "double", "do": {"+": ["x", "old"]}},
                    "init": {"type": U.mp("n.s.Node"), "value": {}}},
                   {"attr": {"pool": "by", "path": [{"string": "x"}]}, "path": [{"string": "y"}, {"string": "v"}]}]},
        [{"v": 1.0, "next": None, "e": "red"}, {"v": 1e300, "next": {"n.s.Node": {"v": -0.5, "next": None, "e": "green"}}, "e": "blue"}])
    out["emit"] = System({"input": "string", "output": "string", "method": "emit", "cells": {"c": {"type": "string", "init": "", "rollback": True}}, "pools": {"n": {"type": "int", "init": {}}},
                          "action": [{"emit": {"cell": "c"}}, {"cell": "c", "to": {"params": [{"x": "string"}], "ret": "string", "do": {"s.concat": ["x", "input"]}}},
                                     {"pool": "n", "path": ["input"], "to": {"params": [{"x": "int"}], "ret": "int", "do": {"+": ["x", 1]}}, "init": 1},
                                     {"if": {"==": ["input", {"string": "!"}]}, "then": {"error": "stop"}}, {"emit": {"s.concat": [{"cell": "c"}, {"string": "."}]}}]},
                         ["a", "\u20ac", "!"], "emit")
    out["fold"] = System({"input": "int", "output": "int", "method": "fold", "zero": 0, "merge": {"+": ["tallyOne", "tallyTwo"]}, "cells": {"n": {"type": "long", "init": 0}},
                          "action": [{"cell": "n", "to": {"params": [{"x": "long"}], "ret": "long", "do": {"+": ["x", 1]}}}, {"+": ["tally", "input"]}]}, [1, 2], "fold")
    stat = {"type": "record", "name": "Stat", "fields": [{"name": "count", "type": "double"}, {"name": "mean", "type": "double"}, {"name": "variance", "type": "double"}]}
    out["stat"] = System({"input": "double", "output": "double", "cells": {"s": {"type": stat, "init": {"count": 0, "mean": 0, "variance": 0}}},
                          "action": [{"cell": "s", "to": {"params": [{"x": "Stat"}], "ret": "Stat", "do": {"stat.sample.update": ["input", 1.0, "x"]}}}, {"cell": "s", "path": [{"string": "variance"}]}]},
                         [0.1, 3.0, 1e-20])
    out["untagged"] = System({"input": "int", "output": "int", "cells": {"u": {"type": ["int", "string"], "init": {"int": 0}}},
                              "action": [{"cell": "u", "to": "input"}, {"ifnotnull": {"x": {"cell": "u"}}, "then": 1, "else": 2} if False else 1]}, [1, 2])
    return out


def docs(ctx, name, depth):
    explore(ctx, [name], documents()[name], depth)


def sources(ctx):
    """Cells and pools read from a file, engines in a wider shared state, and engines made several at a time."""
    import os, tempfile, shutil
    d = tempfile.mkdtemp()
    try:
        for name, content in (("c.json", '{"x": [1, 2], "y": null}'), ("p.json", '{"a": 5, "b": -1}')):
            with open(os.path.join(d, name), "w") as f:
                f.write(content)
        T = {"type": "record", "name": "R", "fields": [{"name": "x", "type": U.arr("int")}, {"name": "y", "type": ["null", "string"]}]}
        doc = {"input": "int", "output": "int", "cells": {"c": {"type": T, "init": os.path.join(d, "c.json"), "source": "json"}, "plain": {"type": "string", "init": "q"}},
               "action": [{"cell": "c", "path": [{"string": "x"}, 0], "to": {"params": [{"x": "int"}], "ret": "int", "do": {"+": ["x", "input"]}}}, {"cell": "c", "path": [{"string": "x"}, 0]}]}
        explore(ctx, ["json source"], System(doc, [1, 5]), 2)
    finally:
        shutil.rmtree(d)

    def wider(doc):
        from titus.genpy import Cell, Pool
        from titus.pfaast import CellPoolSource
        shared = SharedState()
        shared.cells["other"] = Cell("foreign", True, False, CellPoolSource.EMBEDDED)
        shared.pools["otherp"] = Pool({"f": 1}, True, False, CellPoolSource.EMBEDDED)
        return PFAEngine.fromJson(doc, sharedState=shared)[0]
    base = documents()["counter"]
    explore(ctx, ["wider shared state"], System(base.doc, base.alphabet, build=wider), 2)

    def second(doc):
        a, b, c = PFAEngine.fromJson(doc, multiplicity=3)
        a.action(7)
        c.action(9)
        return b
    explore(ctx, ["one of several"], System(base.doc, base.alphabet, build=second), 2)


def tasks(tier):
    deep = tier == "thorough"
    m = len(U.universe(deep))
    out = [("sources", sources, ())]
    for n in sorted(documents()):
        out.append(("doc " + n, docs, (n, 4 if deep else 3)))
    for lo in range(0, m, 4):
        out.append(("types%d" % lo, types, (lo, lo + 4)))
    return out
