"""Signatures as data, and a reference for calls that fit them."""
import itertools
import json
import os

import titus.P as P
from titus.datatype import (AvroArray, AvroBoolean, AvroBytes, AvroDouble, AvroEnum, AvroFixed, AvroFloat, AvroInt, AvroLong, AvroMap, AvroNull, AvroRecord, AvroString, AvroUnion, ExceptionType, FcnType)
from titus.signature import IncompatibleTypes, LabelData, Sigs

SIMPLE = {"null": AvroNull, "boolean": AvroBoolean, "int": AvroInt, "long": AvroLong, "float": AvroFloat, "double": AvroDouble, "bytes": AvroBytes, "string": AvroString}
PAT = {"null": P.Null, "boolean": P.Boolean, "int": P.Int, "long": P.Long, "float": P.Float, "double": P.Double, "bytes": P.Bytes, "string": P.String}
NUMBERS = ["int", "long", "float", "double"]


def asData(p):
    for name, c in PAT.items():
        if isinstance(p, c):
            return name
    if isinstance(p, P.Array):
        return {"array": asData(p.items)}
    if isinstance(p, P.Map):
        return {"map": asData(p.values)}
    if isinstance(p, P.Union):
        return {"union": [asData(x) for x in p.types]}
    if isinstance(p, P.Fcn):
        return {"fcn": [asData(x) for x in p.params], "ret": asData(p.ret)}
    if isinstance(p, P.Wildcard):
        return {"wild": p.label, "oneOf": None if p.oneOf is None else sorted(json.loads(repr(x)) for x in p.oneOf)}
    if isinstance(p, P.WildRecord):
        return {"wildrecord": p.label, "fields": dict((k, asData(v)) for k, v in p.minimalFields.items())}
    if isinstance(p, P.WildEnum):
        return {"wildenum": p.label}
    if isinstance(p, P.WildFixed):
        return {"wildfixed": p.label}
    if isinstance(p, P.EnumFields):
        return {"enumfields": p.label, "of": p.wildRecord}
    if isinstance(p, (P.Record, P.Enum, P.Fixed)):
        return {"named": p.fullName, "kind": type(p).__name__.lower()}
    raise Exception(repr(p))


def pattern(d):
    """The pattern object of titus."""
    if isinstance(d, str):
        return PAT[d]()
    if "array" in d:
        return P.Array(pattern(d["array"]))
    if "map" in d:
        return P.Map(pattern(d["map"]))
    if "union" in d:
        return P.Union([pattern(x) for x in d["union"]])
    if "fcn" in d:
        return P.Fcn([pattern(x) for x in d["fcn"]], pattern(d["ret"]))
    if "wild" in d:
        return P.Wildcard(d["wild"], None if d["oneOf"] is None else set(SIMPLE[x]() for x in d["oneOf"]))
    if "wildrecord" in d:
        return P.WildRecord(d["wildrecord"], dict((k, pattern(v)) for k, v in d["fields"].items()))
    if "wildenum" in d:
        return P.WildEnum(d["wildenum"])
    if "wildfixed" in d:
        return P.WildFixed(d["wildfixed"])
    if "enumfields" in d:
        return P.EnumFields(d["enumfields"], d["of"])
    raise Exception(repr(d))


def current():
    from mc import lib
    out = {}
    for name, f in lib.FUNCTIONS.items():
        cases = f.sig.cases if isinstance(f.sig, Sigs) else [f.sig]
        version = lambda v: None if v is None else str(v)
        out[name] = [{"params": [[list(p.keys())[0], asData(list(p.values())[0])] for p in s.params], "ret": asData(s.ret),
                      "life": [version(s.lifespan.birth), version(s.lifespan.deprecation), version(s.lifespan.death)]} for s in cases]
    return out


def documented():
    with open(os.path.join(os.path.dirname(__file__), "signatures.json")) as f:
        return json.load(f)


def kind(t):
    for name, c in SIMPLE.items():
        if type(t) is c:
            return name
    return type(t).__name__


def fits(p, t, binds, strict=False, given=False):
    """Does the type t of an argument fit the pattern?  given: t is what a function takes, so that it may be wider than the pattern.
    Wildcards collect what they stand for in binds."""
    if isinstance(t, ExceptionType):
        return False
    if isinstance(p, str):
        k = kind(t)
        if k == p:
            return True
        if strict or p not in NUMBERS or k not in NUMBERS:
            return False
        return NUMBERS.index(k) > NUMBERS.index(p) if given else NUMBERS.index(k) < NUMBERS.index(p)
    if "array" in p:
        return isinstance(t, AvroArray) and fits(p["array"], t.items, binds, strict, given)
    if "map" in p:
        return isinstance(t, AvroMap) and fits(p["map"], t.values, binds, strict, given)
    if "union" in p:
        if isinstance(t, AvroUnion):
            # each branch is one of those of the pattern, and no two of them the same one
            for order in itertools.permutations(range(len(p["union"])), len(t.types)):
                trial = dict((k, list(v)) for k, v in binds.items())
                if all(fits(p["union"][i], b, trial, True, given) for i, b in zip(order, t.types)):
                    binds.clear()
                    binds.update(trial)
                    return True
            return False
        if isinstance(t, FcnType):
            return False
        for x in p["union"]:
            trial = dict((k, list(v)) for k, v in binds.items())
            if fits(x, t, trial, strict, given):
                binds.clear()
                binds.update(trial)
                return True
        return False
    if "fcn" in p:
        return isinstance(t, FcnType) and len(p["fcn"]) == len(t.params) and all(fits(x, y, binds, strict, True) for x, y in zip(p["fcn"], t.params)) and fits(p["ret"], t.ret, binds, strict, False)
    if "wild" in p:
        if isinstance(t, FcnType) or p["oneOf"] is not None and kind(t) not in p["oneOf"]:
            return False
        binds.setdefault(p["wild"], []).append(t)
        if p["oneOf"] is not None:
            binds.setdefault(("oneOf", p["wild"]), []).append(p["oneOf"])
        return True
    if "wildrecord" in p:
        if not isinstance(t, AvroRecord):
            return False
        binds.setdefault(p["wildrecord"], []).append(t)
        have = dict((f.name, f.avroType) for f in t.fields)
        return all(k in have and fits(x, have[k], binds, True, given) for k, x in p["fields"].items())
    if "wildenum" in p:
        binds.setdefault(p["wildenum"], []).append(t)
        return isinstance(t, AvroEnum)
    if "wildfixed" in p:
        binds.setdefault(p["wildfixed"], []).append(t)
        return isinstance(t, AvroFixed)
    if "enumfields" in p:
        if not isinstance(t, AvroEnum):
            return False
        binds.setdefault(p["enumfields"], []).append(t)
        binds.setdefault(("fields", p["of"]), []).append(list(t.symbols))
        return True
    raise Exception(repr(p))


def stands(p, assigned):
    """The type that the pattern stands for, or raises IncompatibleTypes."""
    if isinstance(p, str):
        return SIMPLE[p]()
    if "array" in p:
        return AvroArray(P.mustBeAvro(stands(p["array"], assigned)))
    if "map" in p:
        return AvroMap(P.mustBeAvro(stands(p["map"], assigned)))
    if "union" in p:
        return AvroUnion([P.mustBeAvro(stands(x, assigned)) for x in p["union"]])
    if "fcn" in p:
        return FcnType([stands(x, assigned) for x in p["fcn"]], stands(p["ret"], assigned))
    for k in ("wild", "wildrecord", "wildenum", "wildfixed", "enumfields"):
        if k in p:
            return assigned[p[k]]
    raise Exception(repr(p))


def resolve(case, args):
    """None if the call does not fit, else the type of its result."""
    if len(case["params"]) != len(args):
        return None
    binds = {}
    for (name, p), t in zip(case["params"], args):
        if not fits(p, t, binds):
            return None
    assigned = {}
    try:
        for label, members in binds.items():
            if isinstance(label, str):
                assigned[label] = LabelData.broadestType(members)
        for label, members in binds.items():
            if isinstance(label, tuple) and label[0] == "oneOf":
                if any(kind(assigned[label[1]]) not in oneOf for oneOf in members):
                    return None
            elif isinstance(label, tuple):
                t = assigned[label[1]]
                if not isinstance(t, AvroRecord) or any(symbols != [f.name for f in t.fields] for symbols in members):
                    return None
    except IncompatibleTypes:
        return None
    try:
        for (name, p), t in zip(case["params"], args):
            if isinstance(p, dict) and "fcn" in p:
                if not all(have.accepts(stands(want, assigned)) for have, want in zip(t.params, p["fcn"])) or not stands(p["ret"], assigned).accepts(t.ret):
                    return None
        return stands(case["ret"], assigned)
    except IncompatibleTypes:
        return None
