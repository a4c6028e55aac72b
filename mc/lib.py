"""Every function of the library, with concrete types for every signature and small values for every type."""
import itertools
import json

import titus.P as P
from titus.datatype import AvroType, jsonToAvroType
from titus.pfaast import FunctionTable
from titus.signature import PFAVersion, Sigs

FUNCTIONS = FunctionTable.blank().functions
VERSION = PFAVersion(0, 8, 1)

SIMPLE = {P.Null: "null", P.Boolean: "boolean", P.Int: "int", P.Long: "long", P.Float: "float", P.Double: "double", P.Bytes: "bytes", P.String: "string"}
ENUM = {"type": "enum", "name": "En", "symbols": ["p", "q", "r"]}
FIXED = {"type": "fixed", "name": "Fx", "size": 2}
REC = {"type": "record", "name": "Rw", "fields": [{"name": "i", "type": "int"}, {"name": "l", "type": {"type": "array", "items": "int"}}]}
ARR = {"type": "array", "items": "int"}
WILD = ["int", "string", ARR, REC]

# optional fields that change what a function does with a record
EXTRA = {
    "stat.sample.update": [{}, {"mean": "double"}, {"mean": "double", "variance": "double"}],
    "stat.sample.updateWindow": [{}, {"mean": "double"}, {"mean": "double", "variance": "double"}],
    "stat.sample.updateEWMA": [{}, {"variance": "double"}],
    "stat.sample.fillHistogram": [{}, {"underflow": "double", "overflow": "double", "nanflow": "double"}, {"infflow": "double", "underflow": "double", "overflow": "double", "nanflow": "double"}],
    "stat.sample.fillHistogram2d": [{}, {"underflow": "double", "overflow": "double", "nanflow": "double", "infflow": "double"}],
    "model.neural.simpleLayers": [{}],
}
# names with a meaning
STRINGS = {("interp", "m"): ["a"]}


class Skip(Exception):
    pass


def plain(t):
    """A titus type as JSON."""
    return json.loads(repr(t))


class Instance(object):
    """One way to call one function: kinds: list of ("value", type) | ("fcn", params, ret)."""

    def __init__(self, fname, label, sig, binding, extra):
        self.fname, self.label, self.sig = fname, label, sig
        self.binding = binding
        self.named = {}
        self.extra = extra
        self.names = [list(p.keys())[0] for p in sig.params]
        self.kinds = []
        self.records = {}
        for p in sig.params:
            records(list(p.values())[0], self.records)
        for p in sig.params:
            pat = list(p.values())[0]
            if isinstance(pat, P.Fcn):
                self.kinds.append(("fcn", [self.concrete(x) for x in pat.params], self.concrete(pat.ret)))
            else:
                self.kinds.append(("value", self.concrete(pat)))
        self.ret = self.concrete(sig.ret)

    def concrete(self, pat):
        for k, v in SIMPLE.items():
            if isinstance(pat, k):
                return v
        if isinstance(pat, P.Array):
            return {"type": "array", "items": self.concrete(pat.items)}
        if isinstance(pat, P.Map):
            return {"type": "map", "values": self.concrete(pat.values)}
        if isinstance(pat, P.Union):
            out = []
            for x in pat.types:
                c = self.concrete(x)
                if c not in out:
                    out.append(c)
            return out
        if isinstance(pat, P.Wildcard) and pat.label in self.records:
            return self.concrete(self.records[pat.label])
        if isinstance(pat, P.Wildcard):
            return self.binding[pat.label]
        if isinstance(pat, P.EnumFields):
            return {"type": "enum", "name": "En" + pat.label, "symbols": [f["name"] for f in self.concrete(self.records[pat.wildRecord])["fields"]]}
        if isinstance(pat, P.WildRecord):
            if pat.label not in self.named:
                self.named[pat.label] = None
                fields = [{"name": k, "type": self.concrete(v)} for k, v in pat.minimalFields.items()]
                fields += [{"name": k, "type": v} for k, v in sorted(self.extra.items()) if k not in pat.minimalFields]
                if not fields:
                    fields = [{"name": "i", "type": "double"}, {"name": "l", "type": {"type": "array", "items": "double"}}]
                self.named[pat.label] = {"type": "record", "name": "Rec" + pat.label, "fields": fields}
            if self.named[pat.label] is None:
                return "Rec" + pat.label
            return self.named[pat.label]
        if isinstance(pat, P.WildEnum):
            return ENUM
        if isinstance(pat, P.WildFixed):
            return FIXED
        raise Skip(repr(pat))

    def fcnDef(self, i, which=0):
        """A function for parameter i: its parameters pass through if one fits, else a constant."""
        kind, params, ret = self.kinds[i]
        names = ["z%d" % j for j in range(len(params))]
        fits = [n for n, t in zip(names, params) if t == ret]
        body = fits[which % len(fits)] if fits else {"type": ret, "value": tagged(ret, value(ret, 2, which))}
        if "double" in params and ret == "double" and which % 2 == 1:
            body = {"+": [names[params.index("double")], 1]}
        if ret == "boolean" and "boolean" not in params and which < 2:
            body = which == 1
        elif ret == "boolean" and len(params) == 2 and params[0] == params[1] and params[0] in ("int", "double", "string", ARR["type"]):
            body = {"<": names[:2]}
        return {"params": [{n: t} for n, t in zip(names, params)], "ret": ret, "do": body}


def records(pat, out):
    if isinstance(pat, (P.WildFixed, P.WildEnum)):
        out.setdefault(pat.label, pat)
    if isinstance(pat, P.WildRecord):
        out.setdefault(pat.label, pat)
        for x in pat.minimalFields.values():
            records(x, out)
    for x in [getattr(pat, "items", None), getattr(pat, "values", None), getattr(pat, "ret", None)] + list(getattr(pat, "types", [])) + list(getattr(pat, "params", [])):
        if x is not None and isinstance(x, P.Pattern):
            records(x, out)


def labels(pat, out):
    if isinstance(pat, P.Wildcard):
        out.setdefault(pat.label, pat.oneOf if out.get(pat.label) is None else out[pat.label])
        if pat.oneOf is not None:
            out[pat.label] = pat.oneOf
    elif isinstance(pat, P.Array):
        labels(pat.items, out)
    elif isinstance(pat, P.Map):
        labels(pat.values, out)
    elif isinstance(pat, P.Union):
        for x in pat.types:
            labels(x, out)
    elif isinstance(pat, P.WildRecord):
        for x in pat.minimalFields.values():
            labels(x, out)
    elif isinstance(pat, P.Fcn):
        for x in pat.params:
            labels(x, out)
        labels(pat.ret, out)


def instances(fname, wild=WILD):
    """All instances of a function: signatures of the current version, one type after the other for the wildcards."""
    sig = FUNCTIONS[fname].sig
    for n, s in enumerate(sig.cases if isinstance(sig, Sigs) else [sig]):
        if not hasattr(s, "params") or not (s.lifespan.current(VERSION) or s.lifespan.deprecated(VERSION)):
            continue
        found = {}
        for p in s.params:
            labels(list(p.values())[0], found)
        labels(s.ret, found)
        recs = {}
        for p in s.params:
            records(list(p.values())[0], recs)
        for label in recs:
            found.pop(label, None)
        choices = []
        for label in sorted(found):
            if found[label] is not None:
                choices.append([plain(t) for t in found[label]])
            else:
                choices.append(wild)
        width = max([1] + [len(c) for c in choices])
        # every label runs through all its choices, the labels offset against each other
        seen = []
        for i in range(width):
            for shift in ((0, 1) if len(choices) > 1 else (0,)):
                binding = dict((label, c[(i + j * shift) % len(c)]) for j, (label, c) in enumerate(zip(sorted(found), choices)))
                if binding in seen:
                    continue
                seen.append(binding)
                for k, extra in enumerate(EXTRA.get(fname, [{}])):
                    try:
                        yield Instance(fname, "%s #%d %s %d" % (fname, n, json.dumps(binding, sort_keys=True), k), s, binding, extra)
                    except Skip:
                        pass


INTS = [1, 2, 0, 3, -1]
DOUBLES = [0.5, 2.0, -1.0, 3.5, 0.0]
STRS = ["a", "b", "c", "a", ""]


def value(t, n, k, names=None, depth=0):
    """A value of type t (untagged unions): containers of n items, the k-th choice of leaves."""
    names = names if names is not None else {}
    if isinstance(t, str) and t in names:
        t = names[t]
    if isinstance(t, list):
        b = t[k % len(t)]
        if depth > 2:
            b = next((x for x in t if x in SIMPLE.values() or isinstance(x, dict) and x["type"] in ("array", "map", "enum", "fixed")), t[-1])
        return value(b, n, k, names, depth + 1)
    if isinstance(t, dict):
        if "name" in t:
            names[t["name"]] = t
        kind = t["type"]
        if kind == "array":
            return [value(t["items"], n, k + j, names, depth + 1) for j in range(n if depth < 4 else 0)]
        if kind == "map":
            return dict(("abc"[j % 3] + "" * (j // 3), value(t["values"], n, k + j, names, depth + 1)) for j in range(n if depth < 4 else 0))
        if kind == "record":
            return dict((f["name"], value(f["type"], n, k + j, names, depth + 1)) for j, f in enumerate(t["fields"]))
        if kind == "enum":
            return t["symbols"][k % len(t["symbols"])]
        if kind == "fixed":
            return "".join(chr(97 + (k + j) % 20) for j in range(t["size"]))
        return value(kind, n, k, names, depth)
    return {"null": None, "boolean": k % 2 == 1, "int": INTS[k % 5], "long": INTS[k % 5], "float": DOUBLES[k % 5], "double": DOUBLES[k % 5], "string": STRS[k % 5], "bytes": STRS[k % 5]}[t]


def tag(t):
    return t if isinstance(t, str) else t["name"] if "name" in t else t["type"]


def tagged(t, v, names=None):
    """The untagged value with the tags that JSON wants in unions."""
    names = names if names is not None else {}
    if isinstance(t, str) and t in names:
        t = names[t]
    if isinstance(t, list):
        if v is None:
            return None
        for b in t:
            if fits(b, v, names):
                return {tag(b): tagged(b, v, names)}
        raise Skip("no branch")
    if isinstance(t, dict):
        if "name" in t:
            names[t["name"]] = t
        if t["type"] == "array":
            return [tagged(t["items"], x, names) for x in v]
        if t["type"] == "map":
            return dict((k, tagged(t["values"], x, names)) for k, x in v.items())
        if t["type"] == "record":
            return dict((f["name"], tagged(f["type"], v[f["name"]], names)) for f in t["fields"])
    return v


def fits(t, v, names):
    if isinstance(t, str) and t in names:
        t = names[t]
    kind = t if isinstance(t, str) else t["type"]
    if kind == "null":
        return v is None
    if kind == "boolean":
        return isinstance(v, bool)
    if kind in ("int", "long"):
        return isinstance(v, int) and not isinstance(v, bool)
    if kind in ("float", "double"):
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if kind in ("string", "bytes"):
        return isinstance(v, str)
    if kind == "enum":
        return v in t["symbols"]
    if kind == "fixed":
        return isinstance(v, str) and len(v) == t["size"]
    if kind == "array":
        return isinstance(v, list) and all(fits(t["items"], x, names) for x in v)
    if kind == "map":
        return isinstance(v, dict) and all(fits(t["values"], x, names) for x in v.values())
    if kind == "record":
        return isinstance(v, dict) and set(v) == set(f["name"] for f in t["fields"])
    return False


def size(t):
    """Does a value of this type hold others?"""
    if isinstance(t, list):
        return any(size(x) for x in t)
    return isinstance(t, dict) and t["type"] in ("array", "map", "record")
