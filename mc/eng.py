"""Engines for the checks: building, calling, comparing outcomes."""
import json
import math

import numpy
from titus.errors import (PFAException, PFARuntimeException, PFAUserException, PFATimeoutException,
                          PFASyntaxException, PFASemanticException, PFAInitializationException,
                          SchemaParseException, AvroException, PrettyPfaException)
from titus.genpy import PFAEngine

NAN = float("nan")
INF = float("inf")


def once(x, seen=None, ns=""):
    """A copy of a document in which every named type is declared where it first appears and only named later on."""
    if seen is None:
        seen = set()
    if isinstance(x, dict):
        if x.get("type") in ("record", "enum", "fixed") and "name" in x and ("fields" in x or "symbols" in x or "size" in x):
            full = x["name"] if "." in x["name"] else (x.get("namespace", ns) + "." + x["name"]).lstrip(".")
            if full in seen:
                return full
            seen.add(full)
            ns = full.rpartition(".")[0]
        return dict((k, v if k in ("init", "value") else once(v, seen, ns)) for k, v in x.items())
    if isinstance(x, list):
        return [once(v, seen, ns) for v in x]
    return x


def make(doc, **kw):
    """The first engine of a document."""
    return PFAEngine.fromJson(once(doc), **kw)[0]


def tryMake(doc, **kw):
    """("ok", engine) | ("syntax"|"semantic"|"init"|"schema", text) | ("bad", text)"""
    try:
        return ("ok", PFAEngine.fromJson(doc, **kw)[0])
    except PFASyntaxException as err:
        return ("syntax", str(err))
    except PFASemanticException as err:
        return ("semantic", str(err))
    except PFAInitializationException as err:
        return ("init", str(err))
    except (SchemaParseException, AvroException) as err:
        return ("schema", str(err))
    except Exception as err:
        return ("bad", type(err).__name__ + ": " + str(err)[:300])


def outcome(fn, *args):
    """("ok", value) | ("err", code, message) | ("user", code, message) | ("timeout",) | ("bad", text)"""
    try:
        return ("ok", fn(*args))
    except PFARuntimeException as err:
        return ("err", err.code, err.message)
    except PFAUserException as err:
        return ("user", err.code, err.message)
    except PFATimeoutException:
        return ("timeout",)
    except Exception as err:
        return ("bad", type(err).__name__ + ": " + str(err)[:200])


def run(engine, datum):
    return outcome(engine.action, datum)


def callDoc(fname, types, ret, fcns=None, extra=None):
    """A document that calls fname on the fields a0, a1, ... of its input; types: list of Avro types, or
    ("fcn", {"fcn": ...}) for arguments that are functions (given literally)."""
    fields, args = [], []
    for i, t in enumerate(types):
        if isinstance(t, tuple) and t[0] == "fcn":
            args.append(t[1])
        else:
            fields.append({"name": "a%d" % i, "type": t})
            args.append("input.a%d" % i)
    doc = {"input": {"type": "record", "name": "In", "fields": fields}, "output": ret, "action": [{fname: args}]}
    if fcns:
        doc["fcns"] = fcns
    if extra:
        doc.update(extra)
    return doc


class Call(object):
    """A library function of fixed argument types, called on the real engine."""

    def __init__(self, fname, types, ret, fcns=None, extra=None):
        self.fname = fname
        self.which = [i for i, t in enumerate(types) if not (isinstance(t, tuple) and t[0] == "fcn")]
        self.engine = make(callDoc(fname, types, ret, fcns, extra))

    def __call__(self, *values):
        return outcome(self.engine.action, dict(("a%d" % i, v) for i, v in zip(self.which, values)))


def num(x):
    return isinstance(x, (int, float, numpy.integer, numpy.floating)) and not isinstance(x, (bool, numpy.bool_))


def same(a, b, tol=0.0):
    """Equality of PFA values: nan equals nan, booleans are not numbers, containers follow their parts."""
    if isinstance(a, (bool, numpy.bool_)) or isinstance(b, (bool, numpy.bool_)):
        return isinstance(a, (bool, numpy.bool_)) and isinstance(b, (bool, numpy.bool_)) and bool(a) == bool(b)
    if num(a) and num(b):
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        if tol and math.isfinite(a) and math.isfinite(b):
            return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
        return False
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if num(a) or num(b):
        return False
    return type(a) == type(b) and a == b


def agree(got, want, tol=0.0):
    """Outcome against expectation: want is ("ok", v) or ("err", code) or ("user", code[, message])."""
    if got[0] != want[0]:
        return False
    if got[0] == "ok":
        return same(got[1], want[1], tol)
    if got[0] in ("err", "user"):
        return all(g == w for g, w in zip(got[1:], want[1:]))
    return True


def show(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Err(Exception):
    """Raised by reference functions: the documented error with this code."""

    def __init__(self, code):
        self.code = code


def expect(fn, *args):
    try:
        return ("ok", fn(*args))
    except Err as err:
        return ("err", err.code)


def sweep(ctx, fname, types, ret, ref, cases, fcns=None, tol=0.0, key=None, label=None, judge=None, trivial=None):
    """Enumerate all cases (tuples of arguments) of one library function against its reference."""
    call = Call(fname, types, ret, fcns)
    for args in cases:
        case = (label or fname,) + tuple(args)
        if not ctx.want(case):
            continue
        before = repr(args)
        got = call(*args)
        want = expect(ref, *args)
        if want[0] == "ok" and want[1] is SKIP:
            continue
        if trivial is None or not trivial(*args):
            ctx.nontrivial += 1
        ctx.outcome((fname, want[0], want[1]) if want[0] == "err" else (fname, repr(want[1])))
        ctx.sample("{0}{1} -> {2}".format(fname, show(args, 120), show(want, 80)), 1)
        ok = agree(got, want, tol) if judge is None else judge(got, want, args)
        if not ok:
            ctx.fail(case, "{0}{1} gives {2}, must give {3}".format(fname, show(args), show(got), show(want)),
                     key(args, got, want) if key else None)
            if ctx.full():
                return
        if repr(args) != before:
            ctx.fail(case, "{0} changed its arguments {1} to {2}".format(fname, before[:200], show(args, 200)))


SKIP = object()     # returned by a reference where the documentation leaves the result open
