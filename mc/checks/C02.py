"""C02: updates of shared cells and pools are atomic, under every schedule with a bounded number of preemptions."""
from mc import sched
sched.install()     # before titus creates any lock

import itertools
import json
import os

import titus.reader
from titus.errors import PFARuntimeException, PFAUserException
from titus.genpy import PFAEngine, SharedState

LEVEL = "model_checking"
RULE = ("a case is one complete execution of 2 or 3 real engines in real threads under one schedule of the controlled "
        "scheduler (scheduling points: every line of titus/genpy.py and of the generated engine, every lock operation); "
        "all schedules up to the stated preemption bound are run; non-trivial: at least one preemption took place")
ASSUMPTIONS = ["scheduling points are source lines, calls and lock operations of the engine run time, not byte codes",
               "library functions called inside an updater run without preemption (they touch no shared state)"]

INT = "int"
REC = {"type": "record", "name": "R", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": {"type": "array", "items": "int"}}]}
CELLS = {"n": {"type": "int", "init": 0, "shared": True},
         "m": {"type": "int", "init": 10, "shared": True},
         "r": {"type": REC, "init": {"a": 0, "b": [0, 0]}, "shared": True}}
POOLS = {"p": {"type": "int", "init": {"z": 5}, "shared": True},
         "q": {"type": {"type": "array", "items": "int"}, "init": {"z": [1, 1]}, "shared": True}}


def fn(body, t="int"):
    return {"params": [{"x": t}], "ret": t, "do": body}


def boom(code):
    return [{"error": "boom", "code": code}]


S = lambda s: {"string": s}
BOOM = {"params": [{"x": "int"}], "ret": "int", "do": [{"if": {">=": ["x", -1000]}, "then": {"error": "boom", "code": -7}}, "x"]}
INC = fn({"+": ["x", 1]})
DBL = fn({"+": [{"*": ["x", 2]}, 3]})
SUM = lambda e: {"a.sum": [e]}

# every operation: (PFA expression of type int, reference: state -> result; raises Err)


class Err(Exception):
    pass


def R_cell(name, f):
    def go(st):
        v = f(st[name])
        st[name] = v
        return v
    return go


def R_pool(k, f, init):
    def go(st):
        p = dict(st["p"])
        v = f(p.get(k, init))
        p[k] = v
        st["p"] = p
        return v
    return go


def R_fail(code):
    def go(st):
        raise Err(code)
    return go


def R_recpair(st):
    a, b = st["r"]
    return a * 100 + b[0] * 10 + b[1]


def R_recall(st):
    a, b = st["r"]
    st["r"] = (a + 1, (b[0] + 1, b[1] + 1))
    return a + 1


def R_reca(st):
    a, b = st["r"]
    st["r"] = (a + 1, b)
    return a + 1


def R_recb(st):
    a, b = st["r"]
    st["r"] = (a, (b[0], b[1] + 1))
    return b[1] + 1


def R_pget(k):
    def go(st):
        if k not in st["p"]:
            raise Err(2009)
        return st["p"][k]
    return go


def R_pdel(k):
    def go(st):
        p = dict(st["p"])
        p.pop(k, None)
        st["p"] = p
        return 0
    return go


def R_q(k, i, init):
    def go(st):
        q = dict(st["q"])
        v = list(q.get(k, init))
        v[i] += 1
        q[k] = tuple(v)
        st["q"] = q
        return sum(v)
    return go


def R_qget(k):
    def go(st):
        if k not in st["q"]:
            raise Err(2009)
        return sum(st["q"][k])
    return go


def R_nested(st):
    st["m"] = st["m"] + 1
    st["n"] = st["m"]
    return st["n"]


def R_pinit(st):
    # the initial value is computed, and counts, before the pool is touched
    st["n"] = st["n"] + 1
    p = dict(st["p"])
    p["a"] = p.get("a", st["n"]) + 1
    st["p"] = p
    return p["a"]


def R_try(st):
    return -1


RECUP = {"params": [{"x": "R"}], "ret": "R", "do": {"type": "R", "new": {
    "a": {"+": ["x.a", 1]},
    "b": {"type": {"type": "array", "items": "int"}, "new": [{"+": ["x.b.0", 1]}, {"+": ["x.b.1", 1]}]}}}}

OPS = {
    "inc": ({"cell": "n", "to": INC}, [R_cell("n", lambda x: x + 1)]),
    "dbl": ({"cell": "n", "to": DBL}, [R_cell("n", lambda x: x * 2 + 3)]),
    "set": ({"cell": "n", "to": 50}, [R_cell("n", lambda x: 50)]),
    "get": ({"cell": "n"}, [lambda st: st["n"]]),
    "boom": ({"cell": "n", "to": BOOM}, [R_fail(-7)]),
    "trap": ({"try": [{"cell": "n", "to": BOOM}]}, [R_try]),
    "ufcn": ({"cell": "n", "to": {"fcn": "u.inc"}}, [R_cell("n", lambda x: x + 1)]),
    "nest": ({"cell": "n", "to": {"cell": "m", "to": INC}}, None),
    "rall": ({"attr": {"cell": "r", "to": RECUP}, "path": [S("a")]}, [R_recall]),
    "ra": ({"attr": {"cell": "r", "path": [S("a")], "to": INC}, "path": [S("a")]}, [R_reca]),
    "rb": ({"attr": {"cell": "r", "path": [S("b"), 1], "to": INC}, "path": [S("b"), 1]}, [R_recb]),
    "rget": ({"do": [{"let": {"v": {"cell": "r"}}}, {"+": [{"*": ["v.a", 100]}, {"+": [{"*": ["v.b.0", 10]}, "v.b.1"]}]}]}, [R_recpair]),
    "pinc": ({"pool": "p", "path": [S("a")], "to": INC, "init": 0}, [R_pool("a", lambda x: x + 1, 0)]),
    "pdbl": ({"pool": "p", "path": [S("a")], "to": DBL, "init": 4}, [R_pool("a", lambda x: 2 * x + 3, 4)]),
    "pinb": ({"pool": "p", "path": [S("b")], "to": INC, "init": 2}, [R_pool("b", lambda x: x + 1, 2)]),
    "pinz": ({"pool": "p", "path": [S("z")], "to": INC, "init": 0}, [R_pool("z", lambda x: x + 1, 0)]),
    "pset": ({"pool": "p", "path": [S("a")], "to": 70, "init": 0}, [R_pool("a", lambda x: 70, 0)]),
    "pget": ({"pool": "p", "path": [S("a")]}, [R_pget("a")]),
    "pgez": ({"pool": "p", "path": [S("z")]}, [R_pget("z")]),
    "pdel": ({"do": [{"pool": "p", "del": S("a")}, 0]}, [R_pdel("a")]),
    "pdez": ({"do": [{"pool": "p", "del": S("z")}, 0]}, [R_pdel("z")]),
    "pboo": ({"pool": "p", "path": [S("a")], "to": BOOM, "init": 0}, [R_fail(-7)]),
    "qinc": (SUM({"pool": "q", "path": [S("a"), 0], "to": INC, "init": {"type": {"type": "array", "items": "int"}, "value": [3, 4]}}), [R_q("a", 0, [3, 4])]),
    "qinz": (SUM({"pool": "q", "path": [S("z"), 1], "to": INC, "init": {"type": {"type": "array", "items": "int"}, "value": [3, 4]}}), [R_q("z", 1, [3, 4])]),
    "qget": (SUM({"pool": "q", "path": [S("a")]}), [R_qget("a")]),
}


def R_nestA(st):
    st["m"] = st["m"] + 1
    return st["m"]


# an operation with several atomic steps: each step gets the result of the one before
STEPS = {
    "nest": [lambda st, prev: R_nestA(st), lambda st, prev: R_cell("n", lambda x: prev)(st)],
}


def steps(op):
    if op in STEPS:
        return STEPS[op]
    return [(lambda f: lambda st, prev: f(st))(f) for f in OPS[op][1]]


def isTry(op):
    return op == "trap"


def doc(seq):
    if len(seq) == 1 and seq[0] != "trap":
        return {"name": "E", "input": "null", "output": "int", "action": OPS[seq[0]][0], "cells": CELLS, "pools": POOLS,
                "fcns": {"inc": INC}}
    lets = []
    for i, op in enumerate(seq):
        e = OPS[op][0]
        if op == "trap":
            e = {"ifnotnull": {"t": e}, "then": "t", "else": -1}
        lets.append({"let": {"v%d" % i: e}})
    lets.append({"type": {"type": "array", "items": "int"}, "new": ["v%d" % i for i in range(len(seq))]})
    return {"name": "E", "input": "null", "output": {"type": "array", "items": "int"}, "action": lets, "cells": CELLS, "pools": POOLS,
            "fcns": {"inc": INC}}


_asts = {}


def ast(seq):
    if seq not in _asts:
        _asts[seq] = titus.reader.jsonToAst(doc(seq))
    return _asts[seq]


def reader():
    """A document over the same stores that only looks at them."""
    key = ("reader",)
    if key not in _asts:
        _asts[key] = titus.reader.jsonToAst({"input": "null", "output": "null", "action": None, "cells": CELLS, "pools": POOLS})
    return _asts[key]


def finalState(engine):
    js = engine.snapshot().jsonNode(False, set())
    r = js["cells"]["r"]["init"]
    return (js["cells"]["n"]["init"], js["cells"]["m"]["init"], r["a"], tuple(r["b"]),
            tuple(sorted(js["pools"]["p"]["init"].items())), tuple(sorted((k, tuple(v)) for k, v in js["pools"]["q"]["init"].items())))


def refFinal(st):
    return (st["n"], st["m"], st["r"][0], st["r"][1], tuple(sorted(st["p"].items())), tuple(sorted(st["q"].items())))


def reference(seqs):
    """All outcomes (results of every thread, final state) of one-at-a-time orders of the atomic steps."""
    flat = []
    for seq in seqs:
        flat.append([(op, j, f) for op in seq for j, f in enumerate(steps(op))])
    init = {"n": 0, "m": 10, "r": (0, (0, 0)), "p": {"z": 5}, "q": {"z": (1, 1)}}
    out = set()
    seen = set()

    def key(st, pos, res, prev):
        return (refFinal(st), pos, res, prev)

    def go(st, pos, res, prev):
        k = key(st, pos, res, prev)
        if k in seen:
            return
        seen.add(k)
        moved = False
        for t in range(len(flat)):
            if pos[t] >= len(flat[t]):
                continue
            moved = True
            op, j, f = flat[t][pos[t]]
            st2 = dict(st)
            r2, p2 = list(res), list(prev)
            npos = list(pos)
            try:
                v = f(st2, prev[t])
            except Err as err:
                r2[t] = ("err", err.args[0])
                npos[t] = len(flat[t])
                st2 = dict(st)
            else:
                p2[t] = v
                if j == len(steps(op)) - 1:
                    r2[t] = r2[t] + (v,)
                npos[t] += 1
            go(st2, tuple(npos), tuple(r2), tuple(p2))
        if not moved:
            out.add((res, refFinal(st)))
    go(init, tuple(0 for _ in flat), tuple(() for _ in flat), tuple(None for _ in flat))
    return out


def traced(code):
    f = code.co_filename
    if f.endswith("titus/genpy.py"):
        return code.co_name not in ("labeledFcn", "do", "checkTime", "__init__")
    return f == "<string>"


def make(seqs):
    asts = [ast(s) for s in seqs]

    def build():
        shared = SharedState()
        if all(a is asts[0] for a in asts):
            engines = PFAEngine.fromAst(asts[0], sharedState=shared, multiplicity=len(asts))
        else:
            engines = [PFAEngine.fromAst(a, sharedState=shared)[0] for a in asts]

        def body(e, seq):
            def go():
                try:
                    v = e.action(None)
                except PFAUserException as err:
                    return ("err", err.code)
                except PFARuntimeException as err:
                    return ("err", err.code)
                return tuple(v) if isinstance(v, list) else (v,)
            return go
        look = engines[0]
        return [body(e, s) for e, s in zip(engines, seqs)], lambda: finalState(look)
    return build


def harness(ctx, seqs, bound, cap=None):
    allowed = reference(seqs)
    case0 = (seqs, bound)
    if ctx.only is not None and not ctx.only.startswith(repr(case0)[:-1]):
        return
    seen = set()

    def cut(choices):
        choices = list(choices)
        while choices and choices[-1] == 0:
            choices.pop()
        return tuple(choices)

    def judge(x, observe):
        ctx.evaluations += 1
        ctx.transitions += x.steps
        ctx.traces += 1
        if any(c for c in x.choices):
            ctx.nontrivial += 1
        if x.deadlock or x.overrun:
            ctx.fail((seqs, bound, cut(x.choices)), "threads wait for each other forever" if x.deadlock else "no end after %d steps" % x.steps)
            return False
        got = (tuple(x.results), observe())
        seen.add(got)
        if got not in allowed:
            ctx.fail((seqs, bound, cut(x.choices)),
                     "results and final stores %r are those of no one-at-a-time order; allowed: %r" % (got, sorted(allowed, key=repr)[:6]))
            return False
        return True
    if ctx.only is not None:
        import ast as pyast
        case = pyast.literal_eval(ctx.only)
        if len(case) == 3:
            bodies, observe = make(seqs)()
            judge(sched.Scheduler(bodies, case[2], traced).run(), observe)
        return
    executions, points, capped = sched.explore(make(seqs), judge, bound, traced, cap)
    ctx.states += points
    for s in seen:
        ctx.outcome((seqs, s))
    ctx.note("harnesses")
    ctx.note("outcomes allowed by some one-at-a-time order", len(allowed))
    ctx.note("distinct outcomes observed", len(seen))
    ctx.sample({"threads": seqs, "bound": bound, "executions": executions, "outcomes": len(seen)}, 1)


def group(ctx, items):
    for seqs, bound in items:
        harness(ctx, seqs, bound)


CORE2 = [("inc", "dbl"), ("inc", "boom"), ("pinc", "pinc"), ("pinc", "pdbl"), ("pinc", "pdel"), ("pinz", "pdez"), ("pinc", "pboo")]
CELLOPS = ["inc", "dbl", "set", "get", "boom", "trap", "ufcn", "nest"]
RECOPS = ["rall", "ra", "rb", "rget"]
POOLOPS = ["pinc", "pdbl", "pinb", "pset", "pget", "pdel", "pboo"]
ZOPS = ["pinz", "pgez", "pdez"]
QOPS = ["qinc", "qinz", "qget"]


def tasks(tier):
    out = []
    thorough = tier == "thorough"
    pairs = []
    for ops in (CELLOPS, RECOPS, POOLOPS, ZOPS, QOPS):
        pairs.extend(itertools.combinations_with_replacement(ops, 2))
    pairs += [("pinz", "pinc"), ("pdez", "pdel"), ("pdez", "pinc"), ("inc", "pinc"), ("rall", "inc")]
    one = []
    for a, b in pairs:
        if thorough:
            one.append((((a,), (b,)), 2))
        elif (a, b) not in CORE2 and (b, a) not in CORE2:
            one.append((((a,), (b,)), 1))
    if not thorough:
        for a, b in CORE2:
            out.append(("2 threads, bound 2: %s | %s" % (a, b), group, ([(((a,), (b,)), 2)],)))
    else:
        for a, b in CORE2:
            out.append(("2 threads, bound 3: %s | %s" % (a, b), group, ([(((a,), (b,)), 3)],)))
    trip = [("inc", "inc", "dbl"), ("inc", "boom", "inc"), ("pinc", "pinc", "pinc"), ("pinc", "pdel", "pinc"), ("pinc", "pget", "pdel"), ("rall", "rb", "rget"), ("pboo", "pinc", "pget")]
    for t in trip:
        one.append((tuple((x,) for x in t), 2 if thorough and t[0][0] == "p" else 1))
    two = [(("inc", "dbl"), ("inc",)), (("inc", "get"), ("set",)), (("boom",), ("inc", "get")), (("trap", "inc"), ("inc", "get")),
           (("pinc", "pdel"), ("pinc",)), (("pinc", "pget"), ("pdel",)), (("pdel", "pinc"), ("pinc", "pget")), (("pinc", "pinc"), ("pinc",)),
           (("ra", "rb"), ("rget",)), (("rall",), ("rget", "rget")), (("qinc", "qget"), ("qinc",)), (("pinc", "inc"), ("inc", "pinc")),
           (("nest",), ("nest",)), (("pinc", "get"), ("inc", "pget"))]
    for t in two:
        one.append((t, 2 if thorough else 1))
    n = 48 if thorough else 16
    for i in range(n):
        part = one[i::n]
        if part:
            out.append(("part %d" % i, group, (part,)))
    return out


TASK_LIMIT = {"quick": 600, "thorough": 3 * 3600}
