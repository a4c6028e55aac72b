"""C07: accepted programs never go wrong and return what they declare."""
import copy
import itertools
import resource
import signal

from mc import lib
from mc import universe as U
from mc.eng import *

LEVEL = "model_checking"
RULE = ("")
ASSUMPTIONS = []

IMIN, IMAX, LMIN, LMAX = -2**31, 2**31 - 1, -2**63, 2**63 - 1


def ok(t, v, env=None, ns=""):
    """Does the run-time value v belong to type t? Branches of unions with or without their tag."""
    env = env or U.Env(t)
    kind, t, name, inner = env.resolve(t, ns)
    if kind == "union":
        if isinstance(v, dict) and len(v) == 1:
            (tag, x), = v.items()
            if any(env.tag(b, ns) == tag and tag != "null" and ok(b, x, env, ns) for b in t):
                return True
        return any(ok(b, v, env, ns) for b in t)
    if kind == "array":
        return isinstance(v, list) and all(ok(t["items"], x, env, ns) for x in v)
    if kind == "map":
        return isinstance(v, dict) and all(isinstance(k, str) and ok(t["values"], x, env, ns) for k, x in v.items())
    if kind == "record":
        return isinstance(v, dict) and set(v) == set(f["name"] for f in t["fields"]) and all(ok(f["type"], v[f["name"]], env, inner) for f in t["fields"])
    return U.conforms(t, v, env, ns)


LEAVES = {"null": [None], "boolean": [True, False],
          "int": [1, 0, 2, -1, 3, IMAX, IMIN],
          "long": [1, 0, 2, -1, 3, LMAX, LMIN],
          "float": [0.5, 2.0, -1.0, 0.0, 3.5, NAN, INF, -INF, 1e308, -1e308, 5e-324],
          "double": [0.5, 2.0, -1.0, 0.0, 3.5, NAN, INF, -INF, 1e308, -1e308, 5e-324],
          "string": ["a", "", "b", "abc", u"\u00e9\u4e2d", u"\U0001F600", "-3", "%d", "(", "\n"],
          "bytes": ["a", "", "b", "abc", "\x00\xff\x80", "("]}


def domain(t, names=None, depth=0):
    """Values of type t (tagged), the plain ones first."""
    names = {} if names is None else names
    if isinstance(t, str) and t in names:
        t = names[t]
    if isinstance(t, list):
        out = []
        for b in t:
            d = domain(b, names, depth + 1)
            out.append([x if b == "null" else {lib.tag(b): x} for x in d])
        return [x for xs in itertools.zip_longest(*out, fillvalue=U) for x in xs if x is not U]
    if isinstance(t, dict):
        if "name" in t:
            names[t["name"]] = t
        kind = t["type"]
        if kind == "enum":
            return t["symbols"][:3]
        if kind == "fixed":
            n = t["size"]
            return [("ab" * n)[:n], "\x00" * n, "\xff" * n]
        if kind in ("array", "map"):
            d = domain(t["items" if kind == "array" else "values"], names, depth + 1) if depth < 3 else []
            if depth >= 2:
                d = d[:6]
            out = [d[:2], []] + [[x] for x in d] + [d[:3], d[1:4]] + [[x, d[0]] for x in d[1:]] + [[d[0], x, d[0]] for x in d[1:]][:6]
            out = [x for x in U.uniq(out)]
            if kind == "map":
                out = [dict(zip("abc", x)) for x in out]
            return out
        if kind == "record":
            ds = [(f["name"], domain(f["type"], names, depth + 1)) for f in t["fields"]] if depth < 4 else []
            if any(not d for n, d in ds) or not ds:
                return []
            out = []
            for k in range(3):
                out.append(dict((n, d[k % len(d)]) for n, d in ds))
            for n, d in ds:
                for x in d[1:]:
                    for base in out[:1]:
                        out.append(dict(base, **{n: x}))
            return U.uniq(out)
        return domain(kind, names, depth)
    return LEAVES[t]


def tuples(ds, cap):
    """All tuples if there are at most cap; else all that differ from the plain ones in at most two places, then one."""
    n = 1
    for d in ds:
        n *= len(d)
    if n <= cap:
        for x in itertools.product(*ds):
            yield x
        return
    seen = set()
    bases = [tuple(d[min(k, len(d) - 1)] for d in ds) for k in (0, 2)]
    count = 0
    for width in (0, 1, 2):
        for base in bases:
            for where in itertools.combinations(range(len(ds)), width):
                for xs in itertools.product(*[ds[i] for i in where]):
                    t = list(base)
                    for i, x in zip(where, xs):
                        t[i] = x
                    k = U.key(t)
                    if k in seen:
                        continue
                    seen.add(k)
                    yield tuple(t)
                    count += 1
                    if count >= cap and width == 2:
                        return


def narrow(t):
    """The type with int for every wider number, outside records."""
    if isinstance(t, list):
        return t
    if isinstance(t, dict):
        if t["type"] == "array":
            return dict(t, items=narrow(t["items"]))
        if t["type"] == "map":
            return dict(t, values=narrow(t["values"]))
        return t
    return "int" if t in ("long", "float", "double") else t


def libDoc(inst, which, types):
    fields = [{"name": "a%d" % i, "type": t} for i, t in types]
    args = ["input.a%d" % i if k[0] == "value" else inst.fcnDef(i, which) for i, k in enumerate(inst.kinds)]
    return {"input": {"type": "record", "name": "In", "fields": fields}, "output": inst.ret, "action": [{inst.fname: args}], "randseed": 5}


class Stuck(BaseException):
    pass


def stuck(*args):
    raise Stuck()


def limited(fn, *args):
    """The outcome, unless the call takes more than 3 s of processor time or all the memory it may have."""
    signal.setitimer(signal.ITIMER_VIRTUAL, 3)
    try:
        got = outcome(fn, *args)
    except (Stuck, MemoryError) as err:
        got = ("stuck", type(err).__name__)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return got


# arguments that are sizes of what is to be made
SIZES = {"stat.sample.fillHistogram": ["x"], "rand.string": ["size"], "rand.bytes": ["size"], "rand.choices": ["size"], "s.repeat": ["n"], "s.hex": ["width"], "s.int": ["width"], "s.number": ["width", "precision"],
         "stat.sample.forecastHoltWinters": ["n"], "stat.sample.forecast1HoltWinters": ["n"]}
SIZES.update(dict(("cast.fanout" + x, ["minimum", "maximum"]) for x in ("Boolean", "Int", "Long", "Float", "Double")))


BIG = (IMAX, IMIN, LMAX, LMIN)


def has(v, xs):
    if isinstance(v, dict):
        return any(has(x, xs) for x in v.values())
    if isinstance(v, list):
        return any(has(x, xs) for x in v)
    return isinstance(v, int) and v in xs


def library(ctx, names):
    signal.signal(signal.SIGVTALRM, stuck)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    for fname in names:
        if ctx.only is not None and repr(fname) not in ctx.only:
            continue
        for inst in lib.instances(fname):
            values = [(i, k[1]) for i, k in enumerate(inst.kinds) if k[0] == "value"]
            narrowed = [(i, narrow(t)) for i, t in values]
            for mode, types in [("as declared", values)] + ([("of ints", narrowed)] if narrowed != values else []):
                for which in ((0, 1) if any(k[0] == "fcn" for k in inst.kinds) else (0,)):
                    one(ctx, fname, inst, mode, types, which)
                    if ctx.full():
                        return


def one(ctx, fname, inst, mode, types, which):
    case0 = ["library", fname, inst.label, mode, which]
    r = tryMake(once(libDoc(inst, which, types)))
    if r[0] != "ok":
        if r[0] == "bad":
            ctx.fail(case0, "making an engine for %s ends in %s" % (inst.label, r[1]), "lib:%s:make" % fname)
        elif mode == "as declared":
            ctx.note("no engine: %s: %s" % (inst.label, r[1][:200]))
        return
    e = r[1]
    ds = []
    for i, t in types:
        d = domain(t)
        if inst.names[i] in SIZES.get(fname, []):
            d = [x for x in d if not has(x, BIG)]
        ds.append(d)
    bad = set()
    for values in tuples(ds, 3000 if ctx.thorough else 250):
        case = case0 + list(values)
        if not ctx.want(case):
            continue
        datum = dict(("a%d" % i, v) for (i, t), v in zip(types, values))
        got = limited(e.action, datum)
        ctx.transitions += 1
        ctx.nontrivial += 1
        ctx.outcome((fname, got[0]))
        why = None
        if got[0] == "stuck":
            why, kind = "does not come back (%s)" % got[1], "stuck"
        elif got[0] == "bad":
            why, kind = "ends in " + got[1], got[1].partition(":")[0]
        elif got[0] == "ok" and not ok(inst.ret, U.raw(got[1])):
            why, kind = "returns " + show(got[1], 150) + ", which is not of type " + show(inst.ret, 100), "type"
        if why is not None:
            if kind not in bad:
                ctx.fail(case, "%s%s %s" % (fname, show(values, 250), why), "lib:%s:%s" % (fname, kind))
            bad.add(kind)
            if kind == "stuck":
                break


def tasks(tier):
    names = sorted(lib.FUNCTIONS)
    step = 8
    return [("library %s" % names[i], library, (names[i::40],)) for i in range(40)]


# programs -----------------------------------------------------------------------------------------------------------------

R = {"type": "record", "name": "R", "fields": [{"name": "x", "type": "int"}, {"name": "y", "type": "string"}, {"name": "z", "type": {"type": "array", "items": "double"}}]}
E = {"type": "enum", "name": "E", "symbols": ["f", "g"]}
ARR = lambda t: {"type": "array", "items": t}
MAP = lambda t: {"type": "map", "values": t}
VARS = [("i", "int"), ("l", "long"), ("d", "double"), ("s", "string"), ("b", "boolean"), ("n", "null"), ("y", "bytes"),
        ("ai", ARR("int")), ("ms", MAP("string")), ("r", R), ("u", ["int", "string"]), ("w", ["null", R]), ("e", E), ("au", ARR(["null", "double"]))]
IN = {"type": "record", "name": "In", "fields": [{"name": n, "type": t} for n, t in VARS]}
REC = {"x": 1, "y": "a", "z": [0.5, 1.5]}
INPUTS = [{"i": 1, "l": 0, "d": 0.5, "s": "a", "b": False, "n": None, "y": "ab", "ai": [0, 1, 2], "ms": {"a": "b", "x": "y"}, "r": REC, "u": {"int": 1}, "w": {"R": REC}, "e": "f", "au": [None, {"double": 0.5}]},
          {"i": IMAX, "l": LMAX, "d": 1e300, "s": u"x\u00e9", "b": True, "n": None, "y": "\x00\xff\x80\x7f", "ai": [IMAX, IMIN], "ms": {"": ""}, "r": {"x": IMAX, "y": "", "z": []}, "u": {"string": ""}, "w": None, "e": "g", "au": [{"double": INF}]},
          {"i": IMIN, "l": LMIN, "d": NAN, "s": "", "b": True, "n": None, "y": "", "ai": [], "ms": {}, "r": {"x": -1, "y": "z", "z": [NAN]}, "u": {"string": "b"}, "w": {"R": dict(REC, x=IMIN)}, "e": "f", "au": []},
          {"i": 0, "l": -1, "d": -INF, "s": "3", "b": False, "n": None, "y": "\x01\x00\x00\x00\x00\x00\x00\x00", "ai": [1], "ms": {"x": "1"}, "r": dict(REC, x=0), "u": {"int": 0}, "w": None, "e": "g", "au": [None, None, {"double": 1.0}]}]
LEAF = ["i", "l", "d", "s", "b", "n", "y", "ai", "ms", "r", "u", "w", "e", "au"]


def F(params, ret, *do):
    return {"params": [{n: t} for n, t in params], "ret": ret, "do": list(do)}


DOC = {"method": "emit", "input": IN, "output": "null",
       "cells": {"c": {"type": "int", "init": 3}, "cr": {"type": "R", "init": REC}, "cm": {"type": MAP(ARR("R")), "init": {"a": [REC]}}},
       "pools": {"p": {"type": "double", "init": {"a": 1.5}}, "pa": {"type": ARR("int"), "init": {"a": [1, 2]}}},
       "fcns": {"f": F([("v", "int")], "int", {"+": ["v", 1]}), "g": F([("v", "int")], "int", {"*": ["v", 2]}), "h": F([("v", "double"), ("o", "double")], "double", {"/": ["v", "o"]}),
                "m": F([("v", "R")], "string", "v.y"), "q": F([("v", ["null", "R"])], ["null", "string"], {"ifnotnull": {"k": "v"}, "then": "k.y", "else": None}),
                "z": F([], "double", 2.5), "id": F([("v", ARR("int"))], ARR("int"), "v")},
       "options": {"timeout": 200}}


def at(path):
    return {"attr": "r", "path": path}


def forms():
    """The forms with one, two or three places to fill."""
    A, B, C = ("A",), ("B",), ("C",)
    T1 = [
        {"type": ARR("int"), "new": [A]}, {"type": ARR("double"), "new": [A, 1]}, {"type": ARR(["null", "string", "R", "double"]), "new": [A, None]}, {"type": MAP("long"), "new": {"k": A, "": 3}},
        {"type": MAP(["int", "string"]), "new": {"k": A}}, {"type": ARR(ARR("float")), "new": [A]}, {"type": ARR("R"), "new": [A, "r"]},
        {"attr": A, "path": [["x"]]}, {"attr": A, "path": [["z"], "i"]}, {"attr": A, "path": ["i"]}, {"attr": A, "path": ["s"]}, {"attr": A, "path": ["e"]}, {"attr": A, "path": [0]},
        {"attr": "r", "path": [A]}, {"attr": "ai", "path": [A]}, {"attr": "ms", "path": [A]}, {"attr": "r", "path": [["z"], A]}, {"attr": "au", "path": [A]},
        {"attr": A, "path": [["x"]], "to": 5}, {"attr": A, "path": [["x"]], "to": {"fcn": "u.f"}}, {"attr": A, "path": ["i"], "to": F([("v", "int")], "int", {"-": ["v", 1]})}, {"attr": A, "path": [["nope"]], "to": "s"},
        {"attr": "r", "path": [["x"]], "to": A}, {"attr": "r", "path": [["y"]], "to": A}, {"attr": "r", "path": [["z"]], "to": A}, {"attr": "r", "path": [["z"], "i"], "to": A}, {"attr": "ms", "path": ["s"], "to": A}, {"attr": "au", "path": [0], "to": A},
        {"cell": "c", "to": A}, {"cell": "cr", "to": A}, {"cell": "cr", "path": [["x"]], "to": A}, {"cell": "cr", "path": [A]}, {"cell": "cm", "path": [["a"], A, ["y"]]}, {"cell": "cm", "path": [A], "to": {"type": ARR("R"), "value": []}},
        {"cell": "cm", "path": [A, 0, ["z"]], "to": {"type": ARR("double"), "value": [1.5]}}, {"pool": "p", "path": [A]}, {"pool": "pa", "path": [A]}, {"pool": "pa", "path": [["a"], A]}, {"pool": "p", "del": A},
        {"do": [{"let": {"v": A}}, "v"]}, {"let": {"v": A}}, {"do": [{"let": {"v": A}}, {"let": {"v": A}}]}, {"do": [A]}, {"do": [{"let": {"v": A}}, {"set": {"v": A}}]},
        {"if": A, "then": 1}, {"if": A, "then": 1, "else": 2.5}, {"if": A, "then": "s", "else": None}, {"cond": [{"if": A, "then": "i"}, {"if": "b", "then": "s"}]}, {"cond": [{"if": "b", "then": A}, {"if": A, "then": 3}], "else": None},
        {"while": A, "do": "i"}, {"do": "i", "until": A}, {"for": {"v": A}, "while": {"<": ["v", 3]}, "step": {"v": {"+": ["v", 1]}}, "do": "v"}, {"for": {"v": 0}, "while": A, "step": {"v": 1}, "do": "v"},
        {"for": {"v": A}, "while": False, "step": {"v": A}, "do": "v"}, {"for": {"v": A}, "while": "b", "step": {"v": A}, "do": {"error": "x"}},
        {"foreach": "v", "in": A, "do": "v"}, {"foreach": "v", "in": A, "do": {"set": {"i": "v"}}, "seq": True}, {"foreach": "v", "in": A, "do": {"let": {"k": "v"}}, "seq": False}, {"forkey": "k", "forval": "v", "in": A, "do": {"s.concat": ["k", "v"]}},
        {"cast": A, "cases": [{"as": "int", "named": "v", "do": "v"}, {"as": "string", "named": "v", "do": "v"}]}, {"cast": A, "cases": [{"as": "null", "named": "v", "do": 0}, {"as": "R", "named": "v", "do": "v.x"}]},
        {"cast": A, "cases": [{"as": "int", "named": "v", "do": "v"}], "partial": True}, {"cast": A, "cases": [{"as": "double", "named": "v", "do": "v"}]}, {"cast": A, "cases": [{"as": ["int", "null"], "named": "v", "do": "v"}, {"as": "string", "named": "v", "do": "s"}, {"as": "R", "named": "v", "do": "v.x"}], "partial": True},
        {"upcast": A, "as": "double"}, {"upcast": A, "as": "long"}, {"upcast": A, "as": ["null", "double", "string", "R"]}, {"upcast": A, "as": ARR("double")}, {"upcast": A, "as": ARR(["int", "null"])}, {"upcast": A, "as": MAP(["null", "string"])}, {"upcast": A, "as": "string"},
        {"ifnotnull": {"v": A}, "then": "v"}, {"ifnotnull": {"v": A}, "then": "v", "else": 1}, {"ifnotnull": {"v": A, "k": "w"}, "then": {"let": {"t": "v"}}, "else": None},
        {"pack": [{"int": A}, {"pad": 2}]}, {"pack": [{"double": A}]}, {"pack": [{"raw3": A}]}, {"pack": [{"raw": A}]}, {"pack": [{"nullterminated": A}]}, {"pack": [{"lengthprefixed": A}]}, {"pack": [{"boolean": A}, {"unsigned short": A}]}, {"pack": [{"byte": A}]}, {"pack": [{"<long": A}]}, {"pack": [{"float": A}]},
        {"unpack": A, "format": [{"v": "int"}], "then": "v", "else": 0}, {"unpack": A, "format": [{"v": "unsigned byte"}, {"k": "raw"}], "then": {"let": {"q": "v"}}}, {"unpack": A, "format": [{"v": "long"}], "then": "v", "else": None}, {"unpack": A, "format": [{"v": "lengthprefixed"}], "then": "v", "else": "y"},
        {"unpack": A, "format": [{"v": "unsigned long"}], "then": "v", "else": 0}, {"unpack": A, "format": [{"v": "unsigned int"}], "then": "v", "else": 0}, {"unpack": A, "format": [{"v": "float"}], "then": "v", "else": 0}, {"unpack": A, "format": [{"v": "boolean"}], "then": "v", "else": None}, {"unpack": A, "format": [{"v": "nullterminated"}], "then": "v"},
        {"try": A}, {"try": [{"+": ["i", 1]}, A]}, {"try": [{"if": "b", "then": {"error": "x"}}, A], "filter": ["x"]}, {"log": [A, "s"]}, {"emit": A}, {"try": {"attr": "ai", "path": [A]}},
        {"u.f": A}, {"u.m": A}, {"u.q": A}, {"u.h": [1, A]}, {"u.id": A}, {"call": A, "args": ["i"]}, {"call": "e", "args": [A]},
        {"a.map": [A, {"fcn": "u.f"}]}, {"a.map": [A, F([("v", "double")], "double", {"**": ["v", 2]})]}, {"a.map": ["ai", F([("v", "int")], ["int", "string"], "u")]}, {"a.map": ["ai", {"fcn": "u.h", "fill": {"o": A}}]}, {"map.map": [A, F([("v", "string")], "int", {"s.len": "v"})]},
        {"a.filter": [A, F([("v", ["null", "double"])], "boolean", {"!=": ["v", None]})]}, {"a.reduce": [A, {"fcn": "+"}]}, {"a.fold": ["ai", A, F([("t", "double"), ("v", "int")], "double", {"+": ["t", "v"]})]}, {"a.sort": [A]}, {"a.max": [A]}, {"fcn": "u.f"},
        {"-": [A]}, {"!": [A]}, {"~": [A]}, {"u-": [A]}, {"u+": [A]}, {"error": "x"}, {"doc": "x"}, {"type": "R", "new": {"x": A, "y": "s", "z": {"type": ARR("double"), "value": []}}}, {"type": "R", "new": {"x": 1, "y": A, "z": {"type": ARR("double"), "new": [A]}}},
    ] + [{"set": {v: A}} for v in ("i", "l", "d", "s", "u", "w", "r", "ai", "au")] + [{"attr": "input", "path": [[v]], "to": A} for v in ("i", "l", "d", "s", "u", "w", "r", "ai", "au", "e", "ms")]
    T2 = [
        {"type": ARR(["int", "string", "null"]), "new": [A, B]}, {"type": MAP("double"), "new": {"k": A, "q": B}}, {"type": "R", "new": {"x": A, "y": B, "z": {"type": ARR("double"), "value": [0.5]}}},
        {"attr": A, "path": [B]}, {"attr": A, "path": [["z"], B]}, {"attr": A, "path": [B], "to": 1}, {"attr": "ai", "path": [A], "to": B}, {"attr": A, "path": ["s"], "to": B}, {"cell": "cr", "path": [A], "to": B},
        {"cell": "cm", "path": [A, B]}, {"pool": "p", "path": [A], "to": B, "init": 0.5}, {"pool": "p", "path": [A], "to": {"fcn": "u.h", "fill": {"o": 2}}, "init": B}, {"pool": "pa", "path": [A, B], "to": 3, "init": {"type": ARR("int"), "value": [1]}},
        {"if": "b", "then": A, "else": B}, {"if": A, "then": {"set": {"i": B}}, "else": B}, {"cond": [{"if": "b", "then": A}, {"if": {"==": ["i", 0]}, "then": B}]}, {"cond": [{"if": "b", "then": A}], "else": B},
        {"ifnotnull": {"v": A}, "then": "v", "else": B}, {"ifnotnull": {"v": A, "k": B}, "then": "k", "else": "i"}, {"do": [{"let": {"v": A, "k": B}}, "k"]}, {"do": [{"set": {"u": A}}, {"set": {"w": B}}]},
        {"cast": A, "cases": [{"as": "int", "named": "v", "do": B}, {"as": "string", "named": "v", "do": "v"}]}, {"cast": A, "cases": [{"as": "null", "named": "v", "do": B}, {"as": "R", "named": "v", "do": "v"}]},
        {"unpack": A, "format": [{"v": "short"}], "then": "v", "else": B}, {"pack": [{"int": A}, {"nullterminated": B}]}, {"try": {"if": "b", "then": A, "else": B}}, {"foreach": "v", "in": A, "do": B}, {"foreach": "v", "in": A, "do": {"set": {"d": "v"}, "@": "c"}, "seq": True},
        {"for": {"v": A}, "while": "b", "step": {"v": B}, "do": "v"}, {"u.h": [A, B]}, {"a.append": [A, B]}, {"a.concat": [A, B]}, {"map.add": [A, "s", B]}, {"a.map": [A, F([("v", "int")], ["int", "string", "null"], B)]},
    ] + [{op: [A, B]} for op in ("+", "-", "*", "/", "//", "%", "%%", "**", "<", "<=", "==", "!=", "&&", "||", "^^", "!&", "&", "|", "^", "cmp", "max", "min")]
    T3 = [
        {"if": A, "then": B, "else": C}, {"cond": [{"if": "b", "then": A}, {"if": "b", "then": B}], "else": C}, {"pool": "p", "path": [A], "to": B, "init": C}, {"attr": A, "path": [B], "to": C},
        {"cast": A, "cases": [{"as": "int", "named": "v", "do": B}, {"as": "string", "named": "v", "do": C}]}, {"ifnotnull": {"v": A, "k": B}, "then": C, "else": "i"}, {"type": ARR(["int", "string", "null", "R"]), "new": [A, B, C]},
    ]
    return [(1, t) for t in T1] + [(2, t) for t in T2] + [(3, t) for t in T3]


def fill(t, xs):
    if isinstance(t, tuple):
        return xs["ABC".index(t[0])]
    if isinstance(t, dict):
        return dict((k, fill(v, xs)) for k, v in t.items())
    if isinstance(t, list):
        return [fill(v, xs) for v in t]
    return t


LETS = [{"let": dict((n, "input." + n) for n, t in VARS)}]


class Typer(object):
    """The type that the checker gives to an expression after LETS."""

    def __init__(self):
        from titus import pfaast
        from titus.reader import jsonToAst
        from titus.options import EngineOptions
        self.pfaast, self.jsonToAst, self.options = pfaast, jsonToAst, EngineOptions(None, None)

    def __call__(self, expr):
        p = self.pfaast
        try:
            ast = self.jsonToAst(json.dumps(once(dict(DOC, action=LETS + [expr]))))
            functions = dict(p.FunctionTable.blank().functions)
            for name, f in ast.fcns.items():
                functions["u." + name] = p.UserFcn.fromFcnDef("u." + name, f)
            functions["emit"] = p.EmitFcn(ast.output)
            top = p.SymbolTable(p.SymbolTable.blank(), {}, ast.cells, ast.pools, True, False)
            top.put("input", ast.input)
            scope = top.newScope(True, False)
            for x in ast.action:
                context, result = x.walk(p.NoTask(), scope, p.FunctionTable(functions), self.options, p_version())
            return json.loads(repr(context.retType))
        except (PFASyntaxException, PFASemanticException, SchemaParseException, AvroException):
            return None


def p_version():
    from titus.signature import PFAVersion
    return PFAVersion(0, 8, 1)


def inner(t):
    """The inferred type as a document type, the named ones by name."""
    if isinstance(t, list):
        return [inner(x) for x in t]
    if isinstance(t, dict):
        if "name" in t:
            return t["name"] if t["name"] in ("R", "E") else t
        return dict((k, inner(v)) for k, v in t.items())
    return t


def programs(ctx, form, n, deep):
    typer = Typer()
    pools = [LEAF + [2.5, {"string": "x"}] if n < 3 or ctx.thorough else ["i", "d", "s", "n", "r", "u", "w", "ai", "b"]] * n
    if deep is not None:
        pools = [deep] + [["i", "s", "d", "w"]] * (n - 1)
    for xs in itertools.product(*pools):
        expr = fill(form, list(xs))
        case = ["program", expr]
        if not ctx.want(case):
            continue
        program(ctx, typer, case, expr)
        if ctx.full():
            return


NOTYPE = ["exception"]


def program(ctx, typer, case, expr):
    ctx.states += 1
    try:
        t = typer(expr)
    except Exception as err:
        ctx.fail(case, "checking the types of %s ends in %s: %s" % (show(expr), type(err).__name__, err), "check:%s" % type(err).__name__)
        return
    doc = dict(DOC, method="map", output=inner(t) if t is not None else "null", action=LETS + [expr])
    if t is None:
        ctx.outcome("refused")
        return
    if t == {"type": "exception"}:
        doc["output"] = "null"
        doc["action"] = LETS + [expr, None]
    ctx.nontrivial += 1
    del doc["method"]
    if uses(expr, "emit"):
        doc["method"] = "emit"
    r = tryMake(once(doc))
    if r[0] != "ok":
        ctx.fail(case, "%s has type %s by itself but the engine returning that is refused: %s" % (show(expr, 300), show(t), r), "make:" + r[0])
        return
    e = r[1]
    if uses(expr, "emit"):
        e.emit = lambda x: None
    env = U.Env(IN)
    for datum in INPUTS:
        got = limited(e.action, copy.deepcopy(datum))
        ctx.transitions += 1
        ctx.outcome((got[0], show(t, 60)))
        if got[0] in ("bad", "stuck"):
            why = "ends in " + got[1]
            kind = "%s:%s" % (topForm(expr), got[1].partition(":")[0])
        elif got[0] == "ok" and t != {"type": "exception"} and not uses(expr, "emit") and not ok(inner(t), U.raw(got[1]), env):
            why = "returns %s, which is not of its type %s" % (show(got[1], 200), show(inner(t), 100))
            kind = "%s:type" % topForm(expr)
            if ok(inner(t), widened(U.raw(got[1])), env):
                kind = "tag-of-a-widened-branch"
        else:
            continue
        ctx.fail(case, "%s on %s %s" % (show(expr, 300), show(datum, 200), why), "prog:" + kind)
        break


def widened(v):
    """The value with "double" in place of each narrower tag."""
    if isinstance(v, dict):
        if len(v) == 1 and list(v)[0] in ("int", "long", "float"):
            return {"double": list(v.values())[0]}
        return dict((k, widened(x)) for k, x in v.items())
    return [widened(x) for x in v] if isinstance(v, list) else v


def topForm(expr):
    return sorted(k for k in expr if k not in ("then", "else", "path", "to", "type", "do", "in", "as", "format", "init", "args", "step"))[0] if isinstance(expr, dict) else "leaf"


def uses(x, name):
    if isinstance(x, dict):
        return name in x or any(uses(v, name) for v in x.values())
    return isinstance(x, list) and any(uses(v, name) for v in x)


def shallow(ctx, k, of):
    signal.signal(signal.SIGVTALRM, stuck)
    for j, (n, form) in enumerate(forms()):
        if j % of == k:
            programs(ctx, form, n, None)


# nested: every form around expressions of every type that forms of one place give
DEEP = [{"if": "b", "then": "i", "else": "s"}, {"if": "b", "then": "i"}, {"try": "i"}, {"cast": "u", "cases": [{"as": "int", "named": "t", "do": "t"}], "partial": True}, {"ifnotnull": {"q": "w"}, "then": "q.x"},
        {"ifnotnull": {"q": "w"}, "then": "q", "else": "r"}, {"attr": "w", "path": [["x"]]}, {"attr": "r", "path": [["z"], 0]}, {"attr": "au", "path": ["i"]}, {"+": ["i", "l"]}, {"/": ["i", 2]}, {"a.map": ["ai", {"fcn": "u.f"}]},
        {"attr": "r", "path": [["x"]], "to": "i"}, {"cell": "cr"}, {"cell": "cm", "path": [["a"], 0]}, {"pool": "pa", "path": [["a"]]}, {"u.q": "w"}, {"u.z": []}, {"upcast": "i", "as": ["null", "int", "R"]}, {"do": [{"error": "x"}]}, {"log": "i"},
        {"pack": [{"int": "i"}]}, {"unpack": "y", "format": [{"q": "byte"}], "then": "q", "else": None}, {"foreach": "q", "in": "ai", "do": "q"}, {"let": {"q": 1}}, {"set": {"u": "i"}}, {"do": [{"set": {"u": "s"}}, "u"]}, {"type": ARR("R"), "new": ["r"]},
        {"type": MAP(["null", "R"]), "new": {"k": "w"}}, {"cond": [{"if": "b", "then": "i"}, {"if": "b", "then": "d"}], "else": "n"}, {"if": "b", "then": "au", "else": "n"}, {"error": "x"}, {"s.len": "s"}, {"==": ["u", 1]}, {"upcast": "ai", "as": ARR("double")}, {"fcn": "u.f"},
        {"a.filter": ["au", F([("q", ["null", "double"])], "boolean", {"==": ["q", None]})]}, {"call": "e", "args": ["i"]}, {"type": ["null", "string"], "value": {"string": "x"}}, {"type": "R", "value": REC}, {"base64": "AAE="}, {"float": 2}, {"long": 3}, {"type": "E", "value": "g"}, ["x"]]


def nested(ctx, k, of):
    signal.signal(signal.SIGVTALRM, stuck)
    for j, (n, form) in enumerate(forms()):
        if j % of == k and (n < 3 or ctx.thorough):
            programs(ctx, form, n, DEEP)


RULE = ("(1) every library function, for every one of its signatures and every choice of the types for its wildcards from a fixed list, as one-call programs: an engine is made and called on all tuples of values from a fixed list per type "
        "(boundary numbers, nan, infinities, empty and ragged containers, keys that do not match; if there are more than the bound, all tuples which differ from a plain one in at most two places), once with the declared types and once with every number an int. "
        "(2) every expression form (literals, new, attr and attr-to, cells, pools, let, set, do, if, cond, loops, casts, upcast, ifnotnull, pack, unpack, try, log, calls, function references, arithmetic and comparison) with every combination of variables of 14 types in its places, "
        "and around 45 kinds of nested expressions; the type checker infers its type, an engine which declares that type as output has to be made and is called on four inputs with boundary values. "
        "Required of each call: a value of the declared type, or an error that PFA defines (numbered, user, timeout); never an exception of Python's, a value of another type or no answer within 3 s of processor time.")
ASSUMPTIONS = ["sizes of what is to be made (rand.*, s.hex, cast.fanout*, ...) stay small: a request for gigabytes is the host's to refuse", "numbers of wider types may be represented by Python ints or floats of the same value as decided in C09", "unlimited recursion is the host's limit"]


def tasks(tier):
    names = sorted(lib.FUNCTIONS)
    return ([("library %s" % names[i], library, (names[i::40],)) for i in range(40)] + [("programs %d" % k, shallow, (k, 48)) for k in range(48)] +
            [("nested %d" % k, nested, (k, 48)) for k in range(48)])
