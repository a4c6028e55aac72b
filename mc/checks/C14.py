"""C14: fold engines aggregate, and merging partial results is consistent."""
import copy
import itertools
import json

from mc.hist import *

LEVEL = "model_checking"
RULE = ("histories: every sequence of actions, failing actions, merges, failing merges, begin and end up to the depth bound, for fold engines over every kind of tally, in step with a reference interpreter; "
        "splits: every data sequence up to a length, cut in every way over two and three engines and merged in both associations, against one engine and against a direct computation; "
        "non-trivial: histories with a merge or a failure, splits with two non-empty parts")
ASSUMPTIONS = ["merge programs of the split part are right for their folds over integers and other exact values"]

A = lambda t: {"type": "array", "items": t}
M = lambda t: {"type": "map", "values": t}
S = lambda s: {"string": s}
ERRIF = lambda x, n, msg: {"if": {"==": [x, n]}, "then": {"error": msg, "code": -abs(n) if n else -1}}
MEAN = {"type": "record", "name": "Mean", "fields": [{"name": "n", "type": "int"}, {"name": "sum", "type": "int"}, {"name": "last", "type": ["null", "int"]}]}
LOGS = [{"log": ["actionsStarted", "actionsFinished", "tally"], "namespace": "end"}]


def doc(out, zero, action, merge, inp="int", **more):
    return dict({"input": inp, "output": out, "method": "fold", "zero": zero, "action": action, "merge": merge, "name": "Fold"}, **more)


X = "input"
# name: (document, data, tallies for merging, data that fail, tally that makes merge fail)
DOCS = {
    "sum": (doc("int", 0, [ERRIF(X, 99, "bad"), {"+": ["tally", X]}], [ERRIF("tallyTwo", 77, "badmerge"), {"+": ["tallyOne", "tallyTwo"]}], end=LOGS), [1, 2, -3], [0, 5], 99, 77),
    "max from": (doc("int", -10, [ERRIF(X, 99, "bad"), {"max": ["tally", X]}], [ERRIF("tallyTwo", 77, "badmerge"), {"max": ["tallyOne", "tallyTwo"]}], end=LOGS), [1, 2, -30], [-10, 5], 99, 77),
    "order": (doc("string", "", [{"if": {"==": [X, S("!")]}, "then": {"error": "bad", "code": -4}}, {"s.concat": ["tally", X]}],
                  [{"if": {"==": ["tallyTwo", S("!")]}, "then": {"error": "bad", "code": -5}}, {"s.concat": ["tallyOne", "tallyTwo"]}], "string", end=[{"log": ["tally"]}]), ["a", "b", ""], ["", "xy"], "!", "!"),
    "list": (doc(A("int"), [], [ERRIF(X, 99, "bad"), {"a.append": ["tally", X]}], [ERRIF({"a.len": "tallyTwo"}, 9, "badmerge"), {"a.concat": ["tallyOne", "tallyTwo"]}], end=[{"log": [{"a.len": "tally"}]}]), [1, 2], [[], [7]], 99, [0] * 9),
    "counts": (doc(M("int"), {}, [{"if": {"==": [X, S("!")]}, "then": {"error": "bad", "code": -4}},
                                  {"let": {"n": {"ifnotnull": {"k": {"try": {"attr": "tally", "path": [X]}}}, "then": "k", "else": 0}}}, {"map.add": ["tally", X, {"+": ["n", 1]}]}],
                   [ERRIF({"map.len": "tallyTwo"}, 4, "badmerge"), {"let": {"m": "tallyOne"}},
                    {"forkey": "k", "forval": "v", "in": "tallyTwo", "do": [{"set": {"m": {"map.add": ["m", "k", {"+": ["v", {"ifnotnull": {"o": {"try": {"attr": "m", "path": ["k"]}}}, "then": "o", "else": 0}]}]}}}]}, "m"], "string"),
               ["a", "b"], [{}, {"a": 2, "c": 1}], "!", {"1": 1, "2": 2, "3": 3, "4": 4}),
    "mean": (doc(MEAN, {"n": 0, "sum": 0, "last": None}, [ERRIF(X, 99, "bad"), {"type": "Mean", "new": {"n": {"+": ["tally.n", 1]}, "sum": {"+": ["tally.sum", X]}, "last": X}}],
                 [ERRIF("tallyTwo.n", 77, "badmerge"), {"type": "Mean", "new": {"n": {"+": ["tallyOne.n", "tallyTwo.n"]}, "sum": {"+": ["tallyOne.sum", "tallyTwo.sum"]},
                                                                            "last": {"if": {">": ["tallyTwo.n", 0]}, "then": "tallyTwo.last", "else": "tallyOne.last"}}}], end=[{"log": ["tally.n", "tally.sum"]}]),
             [1, 5], [{"n": 0, "sum": 0, "last": None}, {"n": 2, "sum": 9, "last": {"int": 4}}], 99, {"n": 77, "sum": 0, "last": None}),
    "mean by attr": (doc(MEAN, {"n": 0, "sum": 0, "last": None}, [{"let": {"t": {"attr": "tally", "path": [S("n")], "to": {"params": [{"z": "int"}], "ret": "int", "do": {"+": ["z", 1]}}}}}, ERRIF(X, 99, "bad"),
                                                                  {"attr": {"attr": "t", "path": [S("sum")], "to": {"+": ["t.sum", X]}}, "path": [S("last")], "to": X}],
                         [ERRIF("tallyTwo.n", 77, "badmerge"), {"let": {"t": {"attr": "tallyOne", "path": [S("n")], "to": {"+": ["tallyOne.n", "tallyTwo.n"]}}}},
                          {"attr": {"attr": "t", "path": [S("sum")], "to": {"+": ["t.sum", "tallyTwo.sum"]}}, "path": [S("last")], "to": {"if": {">": ["tallyTwo.n", 0]}, "then": "tallyTwo.last", "else": "tallyOne.last"}}]),
                     [1, 5], [{"n": 0, "sum": 0, "last": None}, {"n": 2, "sum": 9, "last": {"int": 4}}], 99, {"n": 77, "sum": 0, "last": None}),
    "maybe": (doc(["null", "int"], None, [ERRIF(X, 99, "bad"), {"ifnotnull": {"t": "tally"}, "then": {"+": ["t", X]}, "else": X}],
                  [{"ifnotnull": {"a": "tallyOne", "b": "tallyTwo"}, "then": [ERRIF("b", 77, "badmerge"), {"+": ["a", "b"]}], "else": {"ifnotnull": {"a": "tallyOne"}, "then": "a", "else": "tallyTwo"}}]),
              [1, -2], [None, {"int": 4}], 99, {"int": 77}),
    "cells": (doc("int", 3, [{"cell": "c", "to": {"params": [{"z": "int"}], "ret": "int", "do": {"+": ["z", 1]}}}, {"pool": "p", "path": [S("k")], "to": {"cell": "c"}, "init": 0}, ERRIF(X, 99, "bad"), {"+": ["tally", {"*": [X, {"cell": "c"}]}]}],
                  [{"cell": "c", "to": {"params": [{"z": "int"}], "ret": "int", "do": {"+": ["z", 10]}}}, {"pool": "p", "path": [S("m")], "to": "tallyTwo", "init": 0}, ERRIF("tallyTwo", 77, "badmerge"), {"+": ["tallyOne", {"*": ["tallyTwo", 2]}]}],
                  cells={"c": {"type": "int", "init": 0, "rollback": True}}, pools={"p": {"type": "int", "init": {}, "rollback": True}}, end=LOGS, begin=[{"cell": "c", "to": 5}]), [1, 2], [0, 5], 99, 77),
}
RIGHT = {
    "sum": lambda xs: sum(xs), "max from": lambda xs: max([-10] + xs), "order": lambda xs: "".join(xs), "list": lambda xs: list(xs),
    "counts": lambda xs: dict((k, xs.count(k)) for k in xs), "mean": lambda xs: {"n": len(xs), "sum": sum(xs), "last": xs[-1] if xs else None},
    "mean by attr": lambda xs: {"n": len(xs), "sum": sum(xs), "last": xs[-1] if xs else None}, "maybe": lambda xs: sum(xs) if xs else None,
}


def histories(ctx, name, first):
    d, data, tallies, bad, badTally = DOCS[name]
    ops = [("action", x) for x in data] + [("action", bad)] + [("merge", a, b) for a, b in itertools.product(tallies, repeat=2)][:4] + [("merge", tallies[1], badTally), ("merge mine", tallies[1]), ("end",), ("begin",)]
    if first >= len(ops):
        return
    depth = 5 if ctx.thorough else 4
    todo = []
    for rest in itertools.product(ops, repeat=depth - 1):
        h = (ops[first],) + rest
        if ctx.want(["histories", name, h]):
            todo.append(h)
    for start in range(0, len(todo), 400):
        part = todo[start:start + 400]
        engines = PFAEngine.fromJson(once(d), multiplicity=len(part))
        for i, (h, e) in enumerate(zip(part, engines)):
            run(ctx, name, d, h, e, i)
            if ctx.full():
                return


def run(ctx, name, d, h, e, instance):
    pair = Pair(e, Ref(d, instance))
    if any(o[0] in ("merge", "merge mine") for o in h):
        ctx.nontrivial += 1
    ctx.traces += 1
    trail = []
    for op in h:
        ctx.transitions += 1
        tally = copy.deepcopy(op)
        wrong = pair.step(op)
        if wrong is None and not same(plain(d["output"], e.tally, pair.ref.types), pair.ref.tally):
            wrong = "after %s the tally is %s, should be %s" % (op, show(e.tally), show(pair.ref.tally))
        if wrong is None and not same(list(tally), list(op)):
            wrong = "%s changed its arguments to %s" % (tally, op)
        if wrong:
            ctx.fail(["histories", name, h], "after %s: %s" % (trail, wrong))
            return
        trail.append(op)
    ctx.outcome((name, repr(pair.ref.tally)))
    ctx.states += 1


def splits(ctx, name):
    d, data, tallies, bad, badTally = DOCS[name]
    out = d["output"]
    longest = (6 if ctx.thorough else 5) if len(data) == 2 else (5 if ctx.thorough else 4)
    engines = PFAEngine.fromJson(once(d), multiplicity=4)
    env = Ref(d).types
    zeros = [copy.deepcopy(e.tally) for e in engines]
    for n in range(longest + 1):
        for xs in itertools.product(data, repeat=n):
            xs = list(xs)
            want = RIGHT[name](xs)

            def fold(e, zero, part):
                e.tally = copy.deepcopy(zero)
                last = e.tally
                for x in part:
                    last = e.action(x)
                return last
            for i in range(n + 1):
                for j in [None] + list(range(i, n + 1)):
                    case = ["splits", name, xs, i, j]
                    if not ctx.want(case):
                        continue
                    if 0 < i < n:
                        ctx.nontrivial += 1
                    ctx.transitions += n
                    parts = [xs[:i], xs[i:]] if j is None else [xs[:i], xs[i:j], xs[j:]]
                    got = []
                    got.append(outcome(fold, engines[0], zeros[0], xs))
                    def two(order):
                        t = [fold(e, z, p) for e, z, p in zip(engines[1:], zeros[1:], parts)]
                        host = engines[0] if order == "other" else engines[1]
                        if len(t) == 2:
                            r = host.merge(t[0], t[1])
                        elif order == "right":
                            r = host.merge(t[0], engines[2].merge(t[1], t[2]))
                        else:
                            r = host.merge(host.merge(t[0], t[1]), t[2])
                        if not same(r, host.tally):
                            raise ValueError("merge gives %s but the tally is %s" % (r, host.tally))
                        return r
                    for order in ("left", "right", "other"):
                        got.append(outcome(two, order))
                    # the merged engine goes on
                    def goOn():
                        two("left")
                        last = None
                        for x in xs[:1]:
                            last = engines[1].action(x)
                        return last
                    for g in got:
                        if g[0] != "ok" or not same(plain(out, g[1], env), want):
                            ctx.fail(case, "parts %s give %s, must give %s" % (parts, [show(x, 100) for x in got], show(want)))
                            return
                    if xs and j is None:
                        g = outcome(goOn)
                        more = RIGHT[name](xs + xs[:1])
                        if g[0] != "ok" or not same(plain(out, g[1], env), more):
                            ctx.fail(case, "after the merge of %s and %s gives %s, must give %s" % (parts, xs[:1], show(g), show(more)))
                            return
                    ctx.outcome((name, repr(want)))


def zeros(ctx):
    """Tallies of every type: the zero is the tally before any datum, merging takes whole tallies of the type."""
    for t in U.universe(ctx.thorough):
        vs = U.values(t, 4)
        env = U.Env(t)
        for z in vs:
            d = doc(t, z, ["tally"], ["tallyTwo"], "null", end=[{"cell": "seen", "to": "tally"}], cells={"seen": {"type": t, "init": vs[0]}})
            case0 = ["zeros", json.dumps(t), json.dumps(z)]
            if not ctx.want(case0):
                continue
            ctx.nontrivial += 1
            made = outcome(lambda: PFAEngine.fromJson(once(d), multiplicity=2))
            if made[0] != "ok":
                ctx.fail(case0, "no engine: %s" % show(made))
                continue
            e, other = made[1]
            p = lambda v: plain(t, v, env)

            def is_(where, got, want):
                ctx.transitions += 1
                if got[0] != "ok" or not same(p(got[1]), p(want)):
                    ctx.fail(case0, "%s is %s, must be %s" % (where, show(got), show(want)))
            is_("the end section's tally before any datum", outcome(lambda: (e.end(), e.cells["seen"].value)[1]), z)
            is_("the first answer", outcome(e.action, None), z)
            for v in vs:
                is_("merge of the zero and %s" % show(v), outcome(e.merge, z, v), v)
                is_("the answer after merging %s" % show(v), outcome(e.action, None), v)
                is_("the end section's tally after merging %s" % show(v), outcome(lambda: (e.end(), e.cells["seen"].value)[1]), v)
                is_("another engine's answer", outcome(other.action, None), z)
            ctx.outcome((json.dumps(t), json.dumps(z)))


def tasks(tier):
    out = [("zeros", zeros, ())]
    for name in DOCS:
        out += [("histories %s %d" % (name, i), histories, (name, i)) for i in range(12)]
        if name in RIGHT:
            out.append(("splits " + name, splits, (name,)))
    return out
