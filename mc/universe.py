"""A universe of Avro types with their values, and an independent model of what conforms, what accepts what,
and what is less than what. Types are Avro JSON schemas (Python objects). Model values: None, bool, int, float,
str (strings, enum symbols, and raw data with one character per byte), list, dict, and for unions None or {tag: value}."""
import itertools
import math

INT_MIN, INT_MAX, LONG_MIN, LONG_MAX = -2**31, 2**31 - 1, -2**63, 2**63 - 1
NAN, INF = float("nan"), float("inf")

PRIMS = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"]
ENUM = {"type": "enum", "name": "Color", "symbols": ["red", "green", "blue"]}
ENUMZ = {"type": "enum", "name": "Dir", "namespace": "com.x", "symbols": ["z", "m", "a"]}
FIXED = {"type": "fixed", "name": "Two", "size": 2}
FIXEDN = {"type": "fixed", "name": "Two", "namespace": "com.x", "size": 1}
TREE = {"type": "record", "name": "Tree", "fields": [{"name": "v", "type": "int"}, {"name": "next", "type": ["null", "Tree"]}]}
FOREST = {"type": "record", "name": "Forest", "namespace": "com.x",
          "fields": [{"name": "kids", "type": {"type": "array", "items": "com.x.Forest"}}]}


def arr(t):
    return {"type": "array", "items": t}


def mp(t):
    return {"type": "map", "values": t}


def rec(name, *fields, **kw):
    out = {"type": "record", "name": name, "fields": [f if isinstance(f, dict) else {"name": f[0], "type": f[1]} for f in fields]}
    out.update(kw)
    return out


REC = rec("Rec", ("x", "int"), ("y", "string"))
RECN = rec("Rec", ("x", "double"), namespace="com.x")
EMPTY = rec("Empty")
ORD = rec("Ord", {"name": "a", "type": "int", "order": "descending"}, {"name": "b", "type": "string", "order": "ignore"},
          {"name": "c", "type": "double"})


def universe(deep=False):
    """Types closed to depth two (three when deep), a list."""
    leaves = PRIMS + [ENUM, ENUMZ, FIXED, FIXEDN, REC, RECN, EMPTY, ORD, TREE, FOREST]
    out = list(leaves)
    out += [arr(t) for t in leaves]
    out += [mp(t) for t in leaves]
    unions = [["null", "int"], ["int", "null"], ["null", "string"], ["int", "string"], ["string", "bytes"], ["null", "boolean", "double"],
              ["int", "double"], ["int", "long"], ["float", "null", "double"], ["null", ENUM], [ENUM, ENUMZ], [ENUM, "string"], ["null", FIXED, FIXEDN],
              ["bytes", FIXED], [REC, RECN], ["null", REC], [arr("int"), "null"], [mp("int"), arr("int")], [arr("int"), mp("string"), "string"],
              ["null", TREE], [REC, mp("string")], [REC, EMPTY, "string"], [ENUM, REC, FIXED, "null"]]
    out += unions
    out += [arr(["null", "int"]), mp(["null", "string"]), arr(["int", "string"]), mp([REC, RECN]), arr(arr("int")), mp(arr("string")), arr(mp("double")),
            arr(["null", FIXED, FIXEDN]), mp(mp("null")), arr(arr(["null", "boolean"])),
            rec("Out", ("a", REC), ("b", arr(ENUM))), rec("Opt", ("a", ["null", "int"]), ("b", ["null", "string"])),
            rec("Deep", ("m", mp(["null", REC])), ("u", [ENUM, "double"])), rec("Raw", ("b", "bytes"), ("f", FIXED), ("s", "string")),
            rec("Two", ("t", TREE), ("f", "float"), namespace="org.y"),
            rec("Nest", ("r", rec("Inner", ("i", ["null", "long"]), namespace="org.z")), namespace="org.y")]
    if deep:
        out += [arr(u) for u in unions] + [mp(u) for u in unions]
        out += [rec("R%d" % i, ("p", u), ("q", arr(u))) for i, u in enumerate(unions)]
        out += [arr(arr(t)) for t in leaves] + [arr(mp(t)) for t in leaves] + [mp(arr(t)) for t in leaves]
    return out


# ------------------------------------------------------------------ names

def full(t, ns=""):
    if "." in t["name"]:
        return t["name"]
    n = t.get("namespace", ns)
    return (n + "." + t["name"]) if n else t["name"]


class Env(object):
    """Named types of one schema, by full name."""

    def __init__(self, *types):
        self.named = {}
        for t in types:
            self.scan(t, "")

    def scan(self, t, ns):
        if isinstance(t, list):
            for x in t:
                self.scan(x, ns)
        elif isinstance(t, dict):
            if t["type"] in ("record", "enum", "fixed"):
                name = full(t, ns)
                self.named[name] = t
                inner = name.rpartition(".")[0]
                for f in t.get("fields", []):
                    self.scan(f["type"], inner)
            elif t["type"] == "array":
                self.scan(t["items"], ns)
            elif t["type"] == "map":
                self.scan(t["values"], ns)

    def resolve(self, t, ns=""):
        """(kind, type, full name or None, inner name space)"""
        if isinstance(t, list):
            return "union", t, None, ns
        if isinstance(t, str):
            if t in PRIMS:
                return t, t, None, ns
            name = t if "." in t or not ns or (ns + "." + t) not in self.named else ns + "." + t
            return self.named[name]["type"], self.named[name], name, name.rpartition(".")[0]
        if t["type"] in ("array", "map"):
            return t["type"], t, None, ns
        if t["type"] in PRIMS:
            return t["type"], t["type"], None, ns
        name = full(t, ns)
        return t["type"], self.named[name], name, name.rpartition(".")[0]

    def tag(self, t, ns=""):
        kind, _, name, _ = self.resolve(t, ns)
        return name if name is not None else kind


def tags(t, env=None):
    env = env or Env(t)
    return [env.tag(x) for x in t]


# ------------------------------------------------------------------ values

def values(t, n=3, env=None, ns="", depth=3):
    """A list of small conforming values, first the simplest; n is the number wanted of each part."""
    env = env or Env(t)
    kind, t, name, inner = env.resolve(t, ns)
    if kind == "null":
        return [None]
    if kind == "boolean":
        return [False, True]
    if kind == "int":
        return [0, -1, 1, INT_MAX, INT_MIN][:n + 2]
    if kind == "long":
        return [0, -1, 2**40, LONG_MAX, LONG_MIN][:n + 2]
    if kind in ("float", "double"):
        return [0.0, -1.5, 1.5, INF, -INF, NAN][:n + 3]
    if kind == "bytes":
        return ["", "a", "\x00\xff", "b"][:n + 1]
    if kind == "string":
        return ["", "a", "\u00e9\u20ac", "b", "null", "1"][:n + 1]
    if kind == "enum":
        return list(t["symbols"])[:max(n, 2)]
    if kind == "fixed":
        return [s * t["size"] for s in ("a", "\x00", "\xff")][:n] + (["ab"] if t["size"] == 2 else [])
    if kind == "array":
        items = values(t["items"], n, env, ns, depth - 1)[:max(2, n)] if depth > 0 else []
        out = [[]] + [[x] for x in items]
        if items:
            out += [[items[0], items[-1]], [items[-1], items[0]]] + ([list(items)] if n > 1 else [])
        return uniq(out)
    if kind == "map":
        items = values(t["values"], n, env, ns, depth - 1)[:max(2, n)] if depth > 0 else []
        out = [{}] + [{"k": x} for x in items]
        if items:
            out += [{"k": items[-1], "\u00e9 q": items[0]}, {"k": items[0], "null": items[-1]}]
        return uniq(out)
    if kind == "record":
        parts = [values(f["type"], max(1, n - 1), env, inner, depth - 1) for f in t["fields"]] if depth > 0 else \
                [values(f["type"], 1, env, inner, depth - 1)[:1] for f in t["fields"]]
        out = [dict(zip((f["name"] for f in t["fields"]), (p[0] for p in parts)))]
        for i, f in enumerate(t["fields"]):
            for x in parts[i][1:]:
                d = dict(out[0])
                d[f["name"]] = x
                out.append(d)
        if len(parts) > 1:
            out.append(dict(zip((f["name"] for f in t["fields"]), (p[-1] for p in parts))))
        return uniq(out)
    if kind == "union":
        out = []
        for x in t:
            k, tt, _, _ = env.resolve(x, ns)
            if k == "null":
                out.append(None)
            elif depth > 0 or k not in ("record", "array", "map"):
                out += [{env.tag(x, ns): v} for v in values(x, n, env, ns, depth - 1)]
        return uniq(out)
    raise ValueError(kind)


def key(v):
    """A hashable form that tells apart what the model tells apart."""
    if isinstance(v, list):
        return ("l",) + tuple(key(x) for x in v)
    if isinstance(v, dict):
        return ("d",) + tuple(sorted((k, key(x)) for k, x in v.items()))
    if isinstance(v, float) and v != v:
        return ("nan",)
    return (type(v).__name__, v)


def uniq(xs):
    seen, out = set(), []
    for x in xs:
        k = key(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def conforms(t, v, env=None, ns=""):
    env = env or Env(t)
    kind, t, name, inner = env.resolve(t, ns)
    isnum = isinstance(v, (int, float)) and not isinstance(v, bool)
    if kind == "null":
        return v is None
    if kind == "boolean":
        return isinstance(v, bool)
    if kind == "int":
        return isnum and isinstance(v, int) and INT_MIN <= v <= INT_MAX
    if kind == "long":
        return isnum and isinstance(v, int) and LONG_MIN <= v <= LONG_MAX
    if kind in ("float", "double"):
        return isnum
    if kind == "bytes":
        return isinstance(v, str) and all(ord(c) < 256 for c in v)
    if kind == "string":
        return isinstance(v, str)
    if kind == "enum":
        return isinstance(v, str) and v in t["symbols"]
    if kind == "fixed":
        return isinstance(v, str) and all(ord(c) < 256 for c in v) and len(v) == t["size"]
    if kind == "array":
        return isinstance(v, list) and all(conforms(t["items"], x, env, ns) for x in v)
    if kind == "map":
        return isinstance(v, dict) and all(isinstance(k, str) and conforms(t["values"], x, env, ns) for k, x in v.items())
    if kind == "record":
        return isinstance(v, dict) and set(v) == set(f["name"] for f in t["fields"]) and \
            all(conforms(f["type"], v[f["name"]], env, inner) for f in t["fields"])
    if kind == "union":
        if v is None:
            return any(env.resolve(x, ns)[0] == "null" for x in t)
        if isinstance(v, dict) and len(v) == 1:
            (tag, x), = v.items()
            return any(env.tag(b, ns) == tag and tag != "null" and conforms(b, x, env, ns) for b in t)
        return False


def raw(v):
    """Engine value in model form: Python bytes become strings, tuples lists, numpy scalars Python ones."""
    if isinstance(v, bytes):
        return v.decode("latin-1")
    if isinstance(v, (list, tuple)):
        return [raw(x) for x in v]
    if isinstance(v, dict):
        return dict((k, raw(x)) for k, x in v.items())
    if type(v).__module__ == "numpy" and hasattr(v, "item"):
        return v.item()
    return v


def deviations(t, env=None, ns="", depth=2):
    """JSON data at one deviation from conforming to t: (what, datum). Numeric strings and the strings "true", "false" and
    "null" are left out: titus reads them as numbers, booleans and null, deliberately (data from text sources)."""
    env = env or Env(t)
    kind, t, name, inner = env.resolve(t, ns)
    junk = [("none", None), ("bool", True), ("int", 12), ("fraction", 2.5), ("string", "zzz"), ("list", []), ("list1", [7]), ("map", {}), ("map1", {"zzz": 7}),
            ("intmap", {"int": 7}), ("nullmap", {"null": None}), ("wide", "\u20ac\u20ac"), ("huge", 2**70)]
    out = [(what, x) for what, x in junk if not lax(kind, t, x, env, ns)]
    if kind == "int":
        out += [("over", INT_MAX + 1), ("under", INT_MIN - 1)]
    elif kind == "long":
        out += [("over", LONG_MAX + 1), ("under", LONG_MIN - 1)]
    elif kind == "enum":
        out += [("case", t["symbols"][0].upper()), ("empty", ""), ("number", 0)]
    elif kind == "fixed":
        out += [("short", "a" * (t["size"] - 1)), ("long", "a" * (t["size"] + 1))]
    elif depth > 0 and kind == "array":
        good = values(t["items"], 1, env, ns, 1)[0] if values(t["items"], 1, env, ns, 1) else None
        for what, x in deviations(t["items"], env, ns, depth - 1):
            out += [("item " + what, [x]), ("later item " + what, [good, x])]
    elif depth > 0 and kind == "map":
        for what, x in deviations(t["values"], env, ns, depth - 1):
            out.append(("value " + what, {"k": x}))
    elif kind == "record":
        base = values({"type": "array", "items": name}, 1, env, ns, 3)[1][0]
        for f in t["fields"]:
            out.append(("missing " + f["name"], dict((k, v) for k, v in base.items() if k != f["name"])))
            if depth > 0:
                for what, x in deviations(f["type"], env, inner, depth - 1):
                    out.append(("field " + f["name"] + " " + what, dict(base, **{f["name"]: x})))
    elif kind == "union":
        for b in t:
            k = env.resolve(b, ns)[0]
            if k == "null":
                continue
            tag = env.tag(b, ns)
            if "." in tag and tag.rpartition(".")[2] not in [env.tag(x, ns) for x in t]:
                good = values(b, 1, env, ns, 1)[0]
                out.append(("short tag", {tag.rpartition(".")[2]: good}))
            if depth > 0:
                for what, x in deviations(b, env, ns, depth - 1):
                    out.append(("branch %s %s" % (tag, what), {tag: x}))
    return [(w, x) for w, x in out if not lax(kind, t, x, env, ns)]


def lax(kind, t, x, env, ns):
    """May the engine admit x as a datum of this type? Wider than conforms: integers for floating point, untagged union values,
    superfluous record fields."""
    isnum = isinstance(x, (int, float)) and not isinstance(x, bool)
    if kind == "null":
        return x is None
    if kind == "boolean":
        return isinstance(x, bool)
    if kind in ("int", "long"):
        lo, hi = (INT_MIN, INT_MAX) if kind == "int" else (LONG_MIN, LONG_MAX)
        return isinstance(x, int) and isnum and lo <= x <= hi
    if kind in ("float", "double"):
        return isnum
    if kind == "string":
        return isinstance(x, str)
    if kind == "bytes":
        return isinstance(x, str) and all(ord(c) < 256 for c in x)
    if kind == "enum":
        return isinstance(x, str) and x in t["symbols"]
    if kind == "fixed":
        return isinstance(x, str) and all(ord(c) < 256 for c in x) and len(x) == t["size"]
    sub = lambda s, y, n: lax(*(env.resolve(s, n)[:2] + (y, env, env.resolve(s, n)[3])))
    if kind == "array":
        return isinstance(x, list) and all(sub(t["items"], y, ns) for y in x)
    if kind == "map":
        return isinstance(x, dict) and all(sub(t["values"], y, ns) for y in x.values())
    if kind == "record":
        inner = full(t, ns).rpartition(".")[0]
        return isinstance(x, dict) and all(f["name"] in x and sub(f["type"], x[f["name"]], inner) for f in t["fields"])
    if kind == "union":
        if isinstance(x, dict) and len(x) == 1:
            (tag, y), = x.items()
            for b in t:
                if env.tag(b, ns) == tag:
                    return sub(b, y, ns)
        return any(sub(b, x, ns) for b in t)
    raise ValueError(kind)


# ------------------------------------------------------------------ order

def cmp(t, a, b, env=None, ns=""):
    """The order of Avro: -1, 0, 1. Nan is the greatest number and equal to itself; false < true; arrays lexicographic;
    maps are not ordered (only equality counts: 0 or 1)."""
    env = env or Env(t)
    kind, t, name, inner = env.resolve(t, ns)
    if kind == "null":
        return 0
    if kind in ("float", "double"):
        if a != a or b != b:
            return (a != a) - (b != b)
        return (a > b) - (a < b)
    if kind in ("boolean", "int", "long", "bytes", "string", "fixed"):
        return (a > b) - (a < b)
    if kind == "enum":
        i, j = t["symbols"].index(a), t["symbols"].index(b)
        return (i > j) - (i < j)
    if kind == "array":
        for x, y in zip(a, b):
            c = cmp(t["items"], x, y, env, ns)
            if c:
                return c
        return (len(a) > len(b)) - (len(a) < len(b))
    if kind == "record":
        for f in t["fields"]:
            order = f.get("order", "ascending")
            if order == "ignore":
                continue
            c = cmp(f["type"], a[f["name"]], b[f["name"]], env, inner)
            if c:
                return -c if order == "descending" else c
        return 0
    if kind == "union":
        def at(v):
            if v is None:
                return [env.tag(x, ns) for x in t].index("null")
            return [env.tag(x, ns) for x in t].index(list(v)[0])
        i, j = at(a), at(b)
        if i != j:
            return (i > j) - (i < j)
        if a is None:
            return 0
        return cmp(t[i], list(a.values())[0], list(b.values())[0], env, ns)
    raise ValueError(kind)


def hasMap(t, env=None, ns="", seen=()):
    env = env or Env(t)
    kind, t, name, inner = env.resolve(t, ns)
    if kind == "map":
        return True
    if kind == "array":
        return hasMap(t["items"], env, ns, seen)
    if kind == "union":
        return any(hasMap(x, env, ns, seen) for x in t)
    if kind == "record" and name not in seen:
        return any(hasMap(f["type"], env, inner, seen + (name,)) for f in t["fields"])
    return False
