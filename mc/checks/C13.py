"""C13: engine instances are isolated and reproducible."""
import itertools
import os
import subprocess
import sys

from titus.genpy import SharedState

from mc.hist import *
from mc import lib as L

LEVEL = "model_checking"
RULE = ("orders: every sequence of calls of three instances (of one document, of documents made separately and of documents with one shared state) up to the depth bound, every instance in step with its own "
        "reference interpreter, all stores of all instances compared after every call; non-trivial: sequences that call two instances or more; "
        "random: for every function that draws random numbers, every seed and every interleaving of three calls to each of three instances, against the answers each instance gives alone")
ASSUMPTIONS = ["shared stores of the model are those declared as shared, with the initial value of the first document that declares them"]

S = lambda s: {"string": s}
A = {"type": "array", "items": "int"}
REC = {"type": "record", "name": "Rec", "fields": [{"name": "l", "type": A}, {"name": "m", "type": {"type": "map", "values": A}}]}
INC = {"params": [{"z": "int"}], "ret": "int", "do": {"+": ["z", 1]}}
APP = {"params": [{"z": A}], "ret": A, "do": {"a.append": ["z", "input"]}}
FAIL = {"if": {"==": ["input", 9]}, "then": {"error": "bad", "code": -9}}


def stores(shared, rollback=False, inits=(0, 1)):
    flags = {"shared": True} if shared else {"rollback": True} if rollback else {}
    return {"cells": {"c": dict({"type": "int", "init": inits[0]}, **flags), "l": dict({"type": A, "init": [1, 2]}, **flags), "r": dict({"type": REC, "init": {"l": [5], "m": {"a": [1]}}}, **flags)},
            "pools": {"p": dict({"type": A, "init": {"x": [inits[1]]}}, **flags)}}


BODY = [{"log": ["instance", "actionsStarted"]}, {"cell": "c", "to": INC}, {"cell": "l", "to": APP}, {"cell": "r", "path": [S("l")], "to": APP}, {"cell": "r", "path": [S("m"), S("a")], "to": {"a.append": [{"type": A, "value": [7]}, "input"]}},
        {"pool": "p", "path": [S("x")], "to": APP, "init": {"type": A, "value": []}}, {"pool": "p", "path": [S("y")], "to": APP, "init": {"type": A, "value": [3]}}, {"let": {"lit": {"type": A, "value": [8]}}},
        {"set": {"lit": {"attr": "lit", "path": [0], "to": {"+": ["input", {"attr": "lit", "path": [0]}]}}}}, FAIL, {"u.f": [{"attr": "lit", "path": [0]}, {"cell": "c"}]}]


def f(k):
    return {"f": {"params": [{"x": "int"}, {"y": "int"}], "ret": "int", "do": {"+": ["x", {"*": ["y", k]}]}}}


def plainDoc(shared, rollback=False, k=10, inits=(0, 1)):
    return dict({"input": "int", "output": "int", "name": "D%d" % k, "action": BODY, "fcns": f(k),
                 "begin": [{"cell": "c", "to": {"params": [{"z": "int"}], "ret": "int", "do": {"+": ["z", 100]}}}], "end": [{"log": [{"cell": "c"}, "instance", "actionsFinished"]}]}, **stores(shared, rollback, inits))


def foldDoc(shared):
    return dict({"input": "int", "output": A, "method": "fold", "zero": [0], "name": "Fold", "fcns": f(3), "action": BODY[:-1] + [{"a.append": ["tally", {"u.f": ["input", {"cell": "c"}]}]}],
                 "merge": [{"cell": "c", "to": INC}, {"a.concat": ["tallyOne", "tallyTwo"]}]}, **stores(shared))


def emitDoc(shared):
    return dict({"input": "int", "output": "int", "method": "emit", "name": "Emit", "fcns": dict(f(4), out={"params": [{"x": "int"}], "ret": "null", "do": {"emit": "x"}}),
                 "action": BODY[:-2] + [{"emit": "instance"}, {"u.out": {"u.f": ["input", {"cell": "c"}]}}, FAIL, {"a.map": [{"cell": "l"}, {"fcn": "emit"}]}]}, **stores(shared))


def mixed():
    d = plainDoc(False, k=6)
    d["cells"]["c"]["shared"] = True
    d["pools"]["p"]["shared"] = True
    return d


# name: (list of (document, number of instances), whether they get one shared state)
WORLDS = {
    "private": ([(plainDoc(False), 3)], False), "rollback": ([(plainDoc(False, True), 3)], False), "shared": ([(plainDoc(True), 3)], False), "mixed": ([(mixed(), 3)], False),
    "fold": ([(foldDoc(False), 3)], False), "fold shared": ([(foldDoc(True), 3)], False), "emit": ([(emitDoc(False), 3)], False), "emit shared": ([(emitDoc(True), 3)], False),
    "separate": ([(plainDoc(False), 1), (plainDoc(False), 1), (plainDoc(False, k=20), 1)], False), "separate shared": ([(plainDoc(True), 2), (plainDoc(True), 1)], False),
    "one state": ([(plainDoc(True, k=1, inits=(50, 51)), 2), (plainDoc(True, k=2), 1)], True), "one state, one private": ([(plainDoc(True, k=1, inits=(50, 51)), 1), (plainDoc(False, k=2), 1), (mixed(), 1)], True),
    "one state, three methods": ([(plainDoc(True), 1), (foldDoc(True), 1), (emitDoc(True), 1)], True), "private state": ([(plainDoc(False), 1), (foldDoc(False), 1), (emitDoc(False), 1)], True),
}


def isShared(d, kind, name):
    return d.get(kind, {}).get(name, {}).get("shared", False)


class World(object):
    def __init__(self, groups, engines):
        """groups: the documents with numbers of instances; engines: one list per group."""
        self.pairs, self.states = [], []
        for (d, n), es in zip(groups, engines):
            for i, e in enumerate(es):
                self.pairs.append(Pair(e, Ref(d, i)))
        self.share = []

    def link(self, i, j, pre):
        """Copy what is shared from reference i to j (pre: they have a common state)."""
        a, b = self.pairs[i].ref, self.pairs[j].ref
        for kind in ("cells", "pools"):
            for name in a.doc.get(kind, {}):
                if isShared(a.doc, kind, name) and isShared(b.doc, kind, name):
                    v = getattr(a, kind)[name]
                    getattr(b, kind)[name] = dict(v) if kind == "pools" else v


def orders(ctx, name, depth):
    groups, one = WORLDS[name]
    owner = [g for g, (d, n) in enumerate(groups) for _ in range(n)]
    ops = []
    for i, g in enumerate(owner):
        d = groups[g][0]
        ops += [(i, ("action", 3)), (i, ("action", 9))]
        if d.get("method") == "fold":
            ops.append((i, ("merge mine", [7])))
        elif "begin" in d:
            ops.append((i, ("begin",)))
    todo = [h for h in itertools.product(ops, repeat=depth) if ctx.want([name, h])]
    for start in range(0, len(todo), 300):
        part = todo[start:start + 300]
        pools = []
        if one:
            made = []
            for h in part:
                st = SharedState()
                made.append([PFAEngine.fromJson(once(d), multiplicity=n, sharedState=st) for d, n in groups])
        elif len(groups) == 1:
            # one document: instances with a shared store need engines of their own for every history
            if any(isShared(groups[0][0], k, x) for k in ("cells", "pools") for x in groups[0][0][k]):
                made = [[PFAEngine.fromJson(once(groups[0][0]), multiplicity=groups[0][1])] for h in part]
                es = [None]
            else:
                es = PFAEngine.fromJson(once(groups[0][0]), multiplicity=3 * len(part))
                made = [[es[3 * i:3 * i + 3]] for i in range(len(part))]
        else:
            made = [[PFAEngine.fromJson(once(d), multiplicity=n) for d, n in groups] for h in part]
        for k, (h, engines) in enumerate(zip(part, made)):
            w = World(groups, engines)
            if len(groups) == 1:
                if made[0][0][0] is es[0]:
                    for i, p in enumerate(w.pairs):
                        p.ref.instance = 3 * k + i
            for j in range(len(w.pairs)):
                for i in range(j):
                    if one or owner[i] == owner[j]:
                        w.link(i, j, one)
            if len(set(i for i, op in h)) > 1:
                ctx.nontrivial += 1
            ctx.traces += 1
            wrong = None
            for n, (i, op) in enumerate(h):
                ctx.transitions += 1
                wrong = w.pairs[i].step(op)
                for j in range(len(w.pairs)):
                    if j != i and (one or owner[i] == owner[j]):
                        w.link(i, j, one)
                if not wrong:
                    for j, p in enumerate(w.pairs):
                        x = p.state()
                        if x and not wrong:
                            wrong = "a call of instance %d, %s, changes instance %d: %s" % (i, op, j, x)
                if wrong:
                    ctx.fail([name, h], "after %s: %s" % (h[:n], wrong))
                    break
            ctx.states += 1
            ctx.outcome((name, repr([(p.ref.cells, p.ref.pools, p.ref.tally) for p in w.pairs])))
            if ctx.full():
                return


# ---- random numbers

P4 = {"type": A, "value": [10, 20, 30, 40, 50, 60, 70]}
DIST = {"type": {"type": "array", "items": "double"}, "value": [0.1, 0.2, 0.3, 0.1, 0.3, 0.25, 0.25]}
DISTR = {"type": {"type": "array", "items": {"type": "record", "name": "Pr", "fields": [{"name": "prob", "type": "double"}, {"name": "k", "type": "int"}]}}, "value": [{"prob": 0.5, "k": 1}, {"prob": 0.25, "k": 2}, {"prob": 1.0, "k": 3}]}
# expression, output type, enough different answers that six of them in a row never agree by chance
RANDOM = {
    "rand.int": ({"rand.int": []}, "int"), "rand.int range": ({"rand.int": [0, 1000000]}, "int"), "rand.long": ({"rand.long": []}, "long"), "rand.long range": ({"rand.long": [0, 1000000000]}, "long"),
    "rand.float": ({"rand.float": [{"float": 0.0}, {"float": 1.0}]}, "float"), "rand.double": ({"rand.double": [-1.0, 1.0]}, "double"), "rand.choice": ({"rand.choice": [P4]}, "int"), "rand.choices": ({"rand.choices": [12, P4]}, A),
    "rand.sample": ({"rand.sample": [6, P4]}, A), "rand.histogram": ({"rand.histogram": [DIST]}, "int"), "rand.histogram records": ({"attr": {"rand.histogram": [DISTR]}, "path": [S("k")]}, "int"),
    "rand.string": ({"rand.string": [4]}, "string"), "rand.string population": ({"rand.string": [12, S("abcdef")]}, "string"), "rand.string range": ({"rand.string": [6, 65, 100]}, "string"),
    "rand.bytes": ({"rand.bytes": [6]}, "bytes"), "rand.bytes population": ({"rand.bytes": [9, {"bytes.encodeUtf8": [S("abcdef")]}]}, "bytes"), "rand.bytes range": ({"rand.bytes": [6, 65, 100]}, "bytes"),
    "rand.uuid": ({"rand.uuid": []}, "string"), "rand.uuid4": ({"rand.uuid4": []}, "string"), "rand.gaussian": ({"rand.gaussian": [0.0, 1.0]}, "double"), "a.shuffle": ({"a.shuffle": [P4]}, A),
    "mixture": ({"+": [{"rand.int": [0, 1000]}, {"if": {"<": [{"rand.double": [0.0, 1.0]}, 0.5]}, "then": {"rand.int": [0, 1000]}, "else": {"rand.choice": [P4]}}]}, "int"),
    "in a function": ({"a.map": [P4, {"params": [{"x": "int"}], "ret": "int", "do": {"rand.int": [0, 1000]}}]}, A), "user function": ({"u.draw": [1000]}, "int"), "by reference": ({"a.map": [P4, {"fcn": "u.draw"}]}, A),
    "sorted at random": ({"a.sortLT": [P4, {"params": [{"x": "int"}, {"y": "int"}], "ret": "boolean", "do": {"<": [{"rand.double": [0.0, 1.0]}, 0.5]}}]}, A),
    "failing": ({"try": [{"rand.int": [0, 1000]}, {"if": {"<": [{"rand.double": [0.0, 1.0]}, 0.5]}, "then": {"error": "unlucky"}}, {"rand.int": [0, 100000]}]}, ["null", "int"]),
    "cell": ({"cell": "c", "to": {"params": [{"z": "int"}], "ret": "int", "do": {"rand.int": [0, 100000]}}}, "int"),
}
SEEDS = [0, 1, -77, 12345, 2 ** 31 - 1, -2 ** 31]


def randomDoc(label, seed, method="map"):
    expr, out = RANDOM[label]
    d = {"input": "null", "output": out, "action": [expr], "name": "Random", "cells": {"c": {"type": "int", "init": 0}}, "fcns": {"draw": {"params": [{"n": "int"}], "ret": "int", "do": {"rand.int": [0, {"+": ["n", 1]}]}}}}
    if seed is not None:
        d["randseed"] = seed
    if label == "cell":
        d["action"] = [expr, {"cell": "c"}]
    if method == "fold":
        d = dict(d, method="fold", output="string", zero="", action=[{"let": {"drawn": expr}}, {"s.concat": ["tally", {"s.hex": [{"rand.int": [0, 1000]}]}]}], merge=[{"s.concat": ["tallyOne", {"s.hex": [{"rand.int": [0, 1000]}]}]}])
    if method == "sections":
        d = dict(d, begin=[{"log": [{"rand.int": [0, 100000]}]}], end=[{"log": [{"rand.int": [0, 100000]}]}])
    return d


CALLS = {"map": ["action"] * 6, "fold": ["action", "merge", "action", "merge", "action", "action"], "sections": ["begin", "action", "end", "action", "begin", "end"]}


def call(e, op, seen):
    logs = []
    e.log = lambda xs, ns: logs.append(list(xs))
    if op == "action":
        x = outcome(e.action, None)
    elif op == "merge":
        x = outcome(e.merge, e.tally, "")
    else:
        x = outcome(getattr(e, op))
    return repr((U.raw(x[1]) if x[0] == "ok" and op in ("action", "merge") else x[0], logs, e.cells["c"].value))


def stream(e, method):
    return [call(e, op, None) for op in CALLS[method]]


def randomness(ctx, label):
    for method in ("map", "fold", "sections"):
        if label == "failing" and method == "fold":
            continue
        base = {}
        for seed in SEEDS:
            d = randomDoc(label, seed, method)
            engines = PFAEngine.fromJson(d, multiplicity=3)
            base[seed] = [stream(e, method) for e in engines]
            ctx.outcome((label, method, seed, repr(base[seed])))
            case = [label, method, seed, "answers"]
            if ctx.want(case):
                bad = [x for s in base[seed] for x in s if x.startswith("('bad'") or x.startswith("('err'")]
                if bad:
                    ctx.fail(case, "%s with seed %d fails: %s" % (label, seed, bad[0]))
            # instances differ from each other, and an instance's own answers from call to call
            if ctx.want([label, method, seed, "different"]):
                for i, j in ((0, 1), (0, 2), (1, 2)):
                    if base[seed][i] == base[seed][j]:
                        ctx.fail([label, method, seed, "different"], "%s: instances %d and %d of seed %d give the same answers %s" % (label, i, j, seed, base[seed][i]))
                if method == "map" and len(set(base[seed][0])) == 1:
                    ctx.fail([label, method, seed, "different"], "%s: instance 0 of seed %d gives the same answer again and again: %s" % (label, seed, base[seed][0]))
            # however they are made: alone, more of them, again, after others were used, with a program-wide seed set
            for how in ("again", "alone", "many", "half used", "global seed", "shared state", "text", "version"):
                case = [label, method, seed, how]
                if not ctx.want(case):
                    continue
                ctx.nontrivial += 1
                import random
                if how == "alone":
                    es = PFAEngine.fromJson(d)
                elif how == "many":
                    es = PFAEngine.fromJson(d, multiplicity=5)
                elif how == "half used":
                    es = PFAEngine.fromJson(d, multiplicity=3)
                    other = PFAEngine.fromJson(d, multiplicity=2)
                    call(other[0], "action", None), call(other[1], "action", None)
                elif how == "global seed":
                    random.seed(seed + 17)
                    numpy.random.seed(3)
                    es = PFAEngine.fromJson(d, multiplicity=3)
                    random.random()
                elif how == "shared state":
                    es = PFAEngine.fromJson(d, multiplicity=3, sharedState=SharedState())
                elif how == "text":
                    es = PFAEngine.fromJson(json.dumps(d), multiplicity=2)
                elif how == "version":
                    es = PFAEngine.fromJson(d, multiplicity=2, version="0.8.1", options={"timeout": 1000000})
                else:
                    es = PFAEngine.fromJson(d, multiplicity=3)
                for i, e in list(enumerate(es))[::-1]:
                    if how == "global seed":
                        random.seed(i)
                    got = stream(e, method)
                    ctx.transitions += len(got)
                    if i < 3 and got != base[seed][i]:
                        ctx.fail(case, "%s: instance %d of seed %d gives %s when made %s, %s otherwise" % (label, i, seed, got, how, base[seed][i]))
        for a, b in itertools.combinations(SEEDS, 2):
            case = [label, method, a, b, "seeds differ"]
            if ctx.want(case) and base[a][0] == base[b][0]:
                ctx.fail(case, "%s: seeds %d and %d give the same answers %s" % (label, a, b, base[a][0]))
        # no seed: instances still do not move in step
        case = [label, method, "no seed"]
        if label in ("rand.long", "rand.uuid4", "rand.gaussian") and ctx.want(case):
            es = PFAEngine.fromJson(randomDoc(label, None, method), multiplicity=3)
            ss = [stream(e, method) for e in es]
            if len(set(map(repr, ss))) < 3:
                ctx.fail(case, "%s: instances of a document without a seed give the same answers" % label)


def interleavings(n, k):
    """All orders of k calls to each of n instances."""
    def go(left):
        if not any(left):
            yield ()
            return
        for i in range(n):
            if left[i]:
                for rest in go(left[:i] + (left[i] - 1,) + left[i + 1:]):
                    yield (i,) + rest
    return go((k,) * n)


def mixing(ctx, label, calls):
    for method in ("map", "fold", "sections"):
        if label == "failing" and method == "fold":
            continue
        seed = 4711
        d = randomDoc(label, seed, method)
        ops = CALLS[method][:calls]
        base = [[call(e, op, None) for op in ops] for e in PFAEngine.fromJson(d, multiplicity=3)]
        doc2 = dict(d, name="Other")
        for order in interleavings(3, calls):
            case = [label, method, order]
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            es = PFAEngine.fromJson(d, multiplicity=3)
            done, got = [0, 0, 0], [[], [], []]
            for i in order:
                got[i].append(call(es[i], ops[done[i]], None))
                done[i] += 1
                ctx.transitions += 1
            ctx.states += 1
            if got != base:
                ctx.fail(case, "%s: calls in the order %s give %s, one instance after the other %s" % (label, order, got, base))
                if ctx.full():
                    return


SCRIPT = """
import sys, json
sys.path[:0] = json.loads(sys.argv[1])
from mc.checks import C13
out = {}
for label in sorted(C13.RANDOM):
    for seed in C13.SEEDS[:3]:
        out[label + str(seed)] = [C13.stream(e, "map") for e in C13.PFAEngine.fromJson(C13.randomDoc(label, seed), multiplicity=2)]
print(json.dumps(out))
"""


def processes(ctx):
    """The same answers in another process, whatever its hash seed."""
    results = []
    for seed in ("0", "1", "31337"):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-c", SCRIPT, json.dumps(sys.path)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        out, err = p.communicate()
        try:
            results.append((seed, json.loads(out.decode().strip().split("\n")[-1])))
        except Exception:
            ctx.fail(["processes", seed], "a process with hash seed %s fails: %s" % (seed, err.decode()[-500:]))
            return
    here = dict((label + str(seed), [stream(e, "map") for e in PFAEngine.fromJson(randomDoc(label, seed), multiplicity=2)]) for label in sorted(RANDOM) for seed in SEEDS[:3])
    for hs, got in results:
        for k in here:
            case = ["processes", hs, k]
            if ctx.want(case):
                ctx.nontrivial += 1
                if got[k] != here[k]:
                    ctx.fail(case, "%s gives %s in a process with hash seed %s, %s here" % (k, got[k], hs, here[k]))


def tasks(tier):
    thorough = tier == "thorough"
    out = [("processes", processes, ())]
    for name in sorted(WORLDS):
        groups, one = WORLDS[name]
        cheap = not one and len(groups) == 1 and not any(isShared(groups[0][0], k, x) for k in ("cells", "pools") for x in groups[0][0][k])
        out.append(("orders " + name, orders, (name, (5 if thorough else 4) if cheap else (4 if thorough else 3))))
    for label in sorted(RANDOM):
        out.append(("random " + label, randomness, (label,)))
        out.append(("mixing " + label, mixing, (label, 3 if thorough else 2)))
    return out
