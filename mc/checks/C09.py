"""C09: data encoded, decoded and validated, for all small types and values, and all data at one deviation from conforming."""
import json

import numpy
import titus.datatype as D
from mc import universe as U
from mc.eng import *

LEVEL = "exploration"
RULE = ("a case is one datum of one type through one boundary (decoder, encoder, input check of an identity engine, initial value of a cell or pool); all types of a "
        "universe closed to depth two (three thorough), all their small values and all data at one deviation from conforming; non-trivial: a container, record or union")
ASSUMPTIONS = ["numeric strings and the strings true, false, null are admitted by the engine on purpose and not judged",
               "union values may be given untagged to the engine when some branch admits them",
               "raw data may be Python bytes or strings with one character per byte"]

REFUSED = (AvroException, TypeError, SchemaParseException)


def simple(t):
    return isinstance(t, str) or (isinstance(t, dict) and t["type"] in ("enum", "fixed"))


def strip(t, v, env=None, ns=""):
    """The untagged form of a model value."""
    env = env or U.Env(t)
    kind, t, name, inner = env.resolve(t, ns)
    if kind == "array":
        return [strip(t["items"], x, env, ns) for x in v]
    if kind == "map":
        return dict((k, strip(t["values"], x, env, ns)) for k, x in v.items())
    if kind == "record":
        return dict((f["name"], strip(f["type"], v[f["name"]], env, inner)) for f in t["fields"])
    if kind == "union" and v is not None:
        (tag, x), = v.items()
        return [strip(b, x, env, ns) for b in t if env.tag(b, ns) == tag][0]
    return v


def encode(ctx, t, vs):
    T = D.jsonNodeToAvroType(once(t))
    for v in vs:
        case = ["codec", t, v]
        if not ctx.want(case):
            continue
        if not simple(t):
            ctx.nontrivial += 1
        text = json.dumps(v)
        try:
            got = D.jsonDecoder(T, json.loads(text))
        except Exception as err:
            ctx.fail(case, "conforming datum not read: %r" % err)
            continue
        if not same(U.raw(got), v):
            ctx.fail(case, "read as %s" % show(got))
            continue
        try:
            back = D.jsonEncoder(T, got)
            plain = D.jsonEncoder(T, got, False)
            json.dumps(back)
        except Exception as err:
            ctx.fail(case, "value just read is not written: %r" % err)
            continue
        if not same(back, v):
            ctx.fail(case, "read and written back as %s" % show(back))
        if not same(plain, strip(t, v)):
            ctx.fail(case, "written without tags as %s" % show(plain))
        if not same(U.raw(D.jsonDecoder(T, back)), v):
            ctx.fail(case, "a second pass differs")
        if not same(json.loads(text), v):
            ctx.fail(case, "the datum was changed by reading it")
        ctx.outcome((str(got)[:60],))


def refuse(ctx, t, bad):
    T = D.jsonNodeToAvroType(once(t))
    for what, x in bad:
        case = ["decoder refuses", t, what, x]
        if not ctx.want(case):
            continue
        ctx.nontrivial += 1
        try:
            got = D.jsonDecoder(T, x)
        except REFUSED:
            ctx.outcome(("refused", what))
            continue
        except Exception as err:
            ctx.fail(case, "undocumented error %r" % err)
            continue
        ctx.fail(case, "read as %s" % show(got))


def engineDoc(t):
    return {"input": t, "output": t, "cells": {"seen": {"type": "int", "init": 0}},
            "action": [{"cell": "seen", "to": {"params": [{"n": "int"}], "ret": "int", "do": {"+": ["n", 1]}}}, "input"]}


def boundary(ctx, t, vs, bad):
    e = make(engineDoc(t))
    seen = 0
    for v in vs:
        for form, x in (("tagged", v), ("untagged", strip(t, v)), ("bytes", asBytes(t, v))):
            case = ["engine", t, form, x if form != "bytes" else repr(x)]
            if form != "tagged" and x == v and form != "bytes":
                continue
            if not ctx.want(case):
                continue
            if not simple(t):
                ctx.nontrivial += 1
            copy = repr(x)
            try:
                got = e.action(x)
            except Exception as err:
                if form == "untagged":      # admitted only where some branch takes it as it stands
                    seen = e.cells["seen"].value
                    continue
                ctx.fail(case, "conforming datum refused: %r" % err)
                seen = e.cells["seen"].value
                continue
            seen += 1
            if form == "untagged":
                if x in ("null", "1"):
                    pass
                elif not U.conforms(t, U.raw(got)) and not U.lax(U.Env(t).resolve(t)[0], t, U.raw(got), U.Env(t), ""):
                    ctx.fail(case, "let in as %s" % show(got))
                elif not same(strip2(U.raw(got)), strip2(x)):
                    ctx.fail(case, "let in as %s" % show(got))
            elif not same(U.raw(got), v):
                ctx.fail(case, "let in as %s" % show(got))
            if repr(x) != copy:
                ctx.fail(case, "the host's datum was changed")
            if e.cells["seen"].value != seen:
                ctx.fail(case, "the program ran %d times for %d data" % (e.cells["seen"].value, seen))
                seen = e.cells["seen"].value
    for what, x in bad:
        case = ["engine refuses", t, what, x]
        if not ctx.want(case):
            continue
        ctx.nontrivial += 1
        try:
            got = e.action(x)
        except REFUSED as err:
            ctx.outcome(("refused", what))
        except Exception as err:
            ctx.fail(case, "undocumented error %r" % err)
        else:
            ctx.fail(case, "let in as %s" % show(got))
        if e.cells["seen"].value != seen:
            ctx.fail(case, "reached the program")
            seen = e.cells["seen"].value
    # superfluous record fields never reach the program
    env = U.Env(t)
    if env.resolve(t)[0] == "record":
        for v in vs:
            case = ["superfluous", t, v]
            if not ctx.want(case):
                continue
            try:
                got = e.action(dict(v, zzz=12))
            except REFUSED:
                continue
            if not same(U.raw(got), v):
                ctx.fail(case, "let in as %s" % show(got))
            T = D.jsonNodeToAvroType(once(t))
            try:
                got = D.jsonDecoder(T, dict(v, zzz=12))
            except REFUSED:
                continue
            if not same(U.raw(got), v):
                ctx.fail(case, "read as %s" % show(got))


def strip2(v):
    """All tags off, as far as one can tell without the type."""
    if isinstance(v, dict) and len(v) == 1:
        return strip2(list(v.values())[0])
    if isinstance(v, dict):
        return dict((k, strip2(x)) for k, x in v.items())
    if isinstance(v, list):
        return [strip2(x) for x in v]
    return float(v) if num(v) else v


def asBytes(t, v, env=None, ns=""):
    """The value with raw data as Python bytes."""
    env = env or U.Env(t)
    kind, t, name, inner = env.resolve(t, ns)
    if kind in ("bytes", "fixed"):
        return v.encode("latin-1")
    if kind == "array":
        return [asBytes(t["items"], x, env, ns) for x in v]
    if kind == "map":
        return dict((k, asBytes(t["values"], x, env, ns)) for k, x in v.items())
    if kind == "record":
        return dict((f["name"], asBytes(f["type"], v[f["name"]], env, inner)) for f in t["fields"])
    if kind == "union" and v is not None:
        (tag, x), = v.items()
        return {tag: [asBytes(b, x, env, ns) for b in t if env.tag(b, ns) == tag][0]}
    return v


def inits(ctx, t, vs, bad):
    """Initial values of cells and pools, and zeros of folds."""
    null = {"input": "null", "output": "null", "action": [None]}

    def docs(x):
        yield "cell", dict(null, output=t, cells={"c": {"type": t, "init": x}}, action=[{"cell": "c"}])
        yield "pool", dict(null, output=t, pools={"p": {"type": t, "init": {"k": x}}}, action=[{"pool": "p", "path": [{"string": "k"}]}])
        yield "zero", dict(null, output=t, method="fold", zero=x, action=["tally"], merge=["tallyOne"])
        yield "literal", dict(null, output=t, action=[{"type": t, "value": x}])
    for v in vs:
        for form, doc in docs(v):
            case = ["init", form, t, v]
            if not ctx.want(case):
                continue
            if not simple(t):
                ctx.nontrivial += 1
            r = tryMake(once(doc))
            if r[0] != "ok":
                ctx.fail(case, "refused: %s %s" % r, key="init-%s" % form)
                continue
            got = outcome(r[1].action, None)
            if got[0] != "ok" or not same(U.raw(got[1]), v):
                ctx.fail(case, "used as %s" % show(got))
    for what, x in bad:
        for form, doc in docs(x):
            case = ["init refuses", form, t, what, x]
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            r = tryMake(once(doc))
            if r[0] == "ok":
                ctx.fail(case, "accepted")
            elif r[0] == "bad":
                ctx.fail(case, "undocumented error: %s" % r[1])
            else:
                ctx.outcome((r[0], what))


def defaults(ctx):
    for t, good in (("int", 5), ("string", "q"), (U.arr("int"), [1]), (["int", "null"], 3), (U.ENUM, "green"), ("double", 1.5), ("boolean", False), ("bytes", "a"),
                    (U.mp("int"), {"a": 1}), ("long", 0)):
        T = D.jsonNodeToAvroType({"type": "record", "name": "Dflt", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": t, "default": good}]})
        case = ["default", t, good]
        if not ctx.want(case):
            continue
        ctx.nontrivial += 1
        want = {"int": good} if isinstance(t, list) else good
        try:
            got = D.jsonDecoder(T, {"a": 1})
        except Exception as err:
            if isinstance(t, list):
                continue
            ctx.fail(case, "missing field with a default not read: %r" % err)
            continue
        if not same(got, {"a": 1, "b": want}):
            ctx.fail(case, "default read as %s" % show(got))


def numpys(ctx):
    kinds = [("int", numpy.int32, [0, -1, 2**31 - 1, -2**31]), ("int", numpy.int8, [5, -5]), ("int", numpy.uint16, [65535]), ("long", numpy.int64, [2**63 - 1, -2**63, 0]),
             ("long", numpy.uint32, [2**32 - 1]), ("float", numpy.float32, [0.5, -2.0]), ("double", numpy.float64, [1e300, -0.0]), ("double", numpy.int64, [3]),
             ("boolean", numpy.bool_, [True, False])]
    for t, c, vs in kinds:
        e = make(engineDoc(t))
        a = make(engineDoc(U.arr(t)))
        for v in vs:
            case = ["numpy", t, c.__name__, v]
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            got = outcome(e.action, c(v))
            if got[0] != "ok" or not same(got[1], v) or type(got[1]).__module__ == "numpy":
                ctx.fail(case, "let in as %s" % show(got))
            got = outcome(a.action, numpy.array([v, v], dtype=c))
            if got[0] != "ok" or not same(got[1], [v, v]) or type(got[1]) is not list:
                ctx.fail(case, "array let in as %s" % show(got))
    for t, x in (("int", numpy.int64(2**31)), ("int", numpy.uint32(2**32 - 1)), ("long", numpy.uint64(2**64 - 1)), ("int", numpy.bool_(True)), ("double", numpy.bool_(True)),
                 ("boolean", numpy.int32(1)), ("int", numpy.float64(2.5)), ("string", numpy.int32(1))):
        case = ["numpy refuses", t, repr(x)]
        if not ctx.want(case):
            continue
        ctx.nontrivial += 1
        e = make(engineDoc(t))
        try:
            got = e.action(x)
        except REFUSED:
            continue
        ctx.fail(case, "let in as %s" % show(got))


def group(ctx, fn, lo, hi, n):
    ts = U.universe(ctx.thorough)
    for i, t in enumerate(ts):
        if lo <= i < hi:
            vs = U.values(t, n)
            if fn is encode:
                encode(ctx, t, vs)
            elif fn is refuse:
                refuse(ctx, t, U.deviations(t))
            else:
                bad = U.deviations(t)
                if fn is inits and not ctx.thorough:
                    vs = vs[:6]
                    seen = {}
                    for what, x in bad:
                        seen.setdefault(" ".join(what.split()[-2:]) if "branch" not in what else what.split()[-1], (what, x))
                    bad = list(seen.values())[:14]
                fn(ctx, t, vs, bad)


def tasks(tier):
    n = len(U.universe(tier == "thorough"))
    size = 4 if tier == "thorough" else 3
    out = [("defaults", defaults, ()), ("numpy", numpys, ())]
    for lo in range(0, n, 8):
        out.append(("codec%d" % lo, group, (encode, lo, lo + 8, size + 2)))
        out.append(("refuse%d" % lo, group, (refuse, lo, lo + 8, size)))
        out.append(("engine%d" % lo, group, (boundary, lo, lo + 8, size)))
        out.append(("init%d" % lo, group, (inits, lo, lo + 8, size)))
    return out
