"""A reference interpreter for the core of PFA, written from the language's definition, over documents as JSON.
Union values are kept untagged. Used to predict results, errors, logs, emissions and the cells and pools of engines."""
from mc import universe as U


class PFAError(Exception):
    """A runtime error: kind "err" (library, numbered) or "user" (error form)."""

    def __init__(self, kind, message, code):
        self.kind, self.message, self.code = kind, message, code


class Fuel(Exception):
    pass


class Env(object):
    def __init__(self, parent=None, names=None):
        self.parent, self.names = parent, dict(names or {})

    def find(self, name):
        e = self
        while e is not None:
            if name in e.names:
                return e.names
            e = e.parent
        raise KeyError(name)

    def get(self, name):
        return self.find(name)[name]


def untag(t, v, env, ns=""):
    """Model value with branch tags -> without."""
    kind, t, name, inner = env.resolve(t, ns)
    if kind == "array":
        return [untag(t["items"], x, env, ns) for x in v]
    if kind == "map":
        return dict((k, untag(t["values"], x, env, ns)) for k, x in v.items())
    if kind == "record":
        return dict((f["name"], untag(f["type"], v[f["name"]], env, inner)) for f in t["fields"])
    if kind == "union" and isinstance(v, dict) and len(v) == 1:
        (tag, x), = v.items()
        for b in t:
            if env.tag(b, ns) == tag:
                return untag(b, x, env, ns)
        for b in t:
            k, full, _, _ = env.resolve(b, ns)
            if k == "map" or k == "record" and all(f["name"] in v for f in full["fields"]):
                try:
                    return untag(b, v, env, ns)
                except (KeyError, AttributeError, TypeError):
                    pass
    if kind == "union":
        for b in t:
            if env.resolve(b, ns)[0] in ("array",) and isinstance(v, list) or env.resolve(b, ns)[0] in ("record", "map") and isinstance(v, dict):
                try:
                    return untag(b, v, env, ns)
                except KeyError:
                    pass
    return v


def listy(x):
    """A block: one expression or a list of them (a list of exactly one string is a string literal only as an expression)."""
    return x if isinstance(x, list) else [x]


def wrap32(a, b, code, x):
    if not U.INT_MIN <= x <= U.INT_MAX:
        raise PFAError("err", "int overflow", code)
    return x


def arith(op):
    def f(r, a, b):
        x = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
        if isinstance(a, int) and isinstance(b, int):
            return wrap32(a, b, {"+": 18000, "-": 18010, "*": 18020}[op], x)
        return x
    return f


def lib_intdiv(r, a, b):
    if b == 0:
        raise PFAError("err", "integer division by zero", 18040)
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def order(a, b):
    return (a > b) - (a < b)


LIB = {
    "+": arith("+"), "-": arith("-"), "*": arith("*"), "//": lib_intdiv,
    "==": lambda r, a, b: a == b, "!=": lambda r, a, b: a != b, "<": lambda r, a, b: a < b, "<=": lambda r, a, b: a <= b,
    ">": lambda r, a, b: a > b, ">=": lambda r, a, b: a >= b, "!": lambda r, a: not a,
    "min": lambda r, a, b: min(a, b), "max": lambda r, a, b: max(a, b),
    "a.len": lambda r, a: len(a), "a.append": lambda r, a, x: a + [x], "a.concat": lambda r, a, b: a + b,
    "a.sum": lambda r, a: sum(a), "a.map": lambda r, a, f: [r.apply(f, [x]) for x in a],
    "a.filter": lambda r, a, f: [x for x in a if r.apply(f, [x])],
    "a.reverse": lambda r, a: a[::-1], "s.concat": lambda r, a, b: a + b, "s.len": lambda r, a: len(a),
    "map.add": lambda r, m, k, v: dict(m, **{k: v}), "map.len": lambda r, m: len(m),
    "map.keys": lambda r, m: list(m), "map.values": lambda r, m: list(m.values()),
}


def lib_reduce(r, a, f):
    if not a:
        raise PFAError("err", "empty array", 15140 if False else 15140)
    out = a[0]
    for x in a[1:]:
        out = r.apply(f, [out, x])
    return out


def lib_fold(r, a, z, f):
    for x in a:
        z = r.apply(f, [z, x])
    return z


LIB["a.reduce"] = lib_reduce
LIB["a.fold"] = lib_fold
LAZY = ("&&", "||", "&&&", "|||", "^^")


class Ref(object):
    """One engine instance."""

    def __init__(self, doc, instance=0, fuel=3000):
        self.doc = doc
        self.types = U.Env(*[x for x in self.schemas(doc)])
        self.fcns = doc.get("fcns", {})
        self.cells = dict((k, untag(c["type"], c["init"], self.types)) for k, c in doc.get("cells", {}).items())
        self.pools = dict((k, dict((i, untag(c["type"], v, self.types)) for i, v in c.get("init", {}).items())) for k, c in doc.get("pools", {}).items())
        self.celltype = dict((k, c["type"]) for k, c in doc.get("cells", {}).items())
        self.logs, self.emits, self.events = [], [], []
        self.maxFuel, self.fuel = fuel, fuel
        self.started = self.finished = 0
        self.instance = instance
        self.tally = untag(doc["output"], doc["zero"], self.types) if doc.get("method") == "fold" else None

    def schemas(self, x):
        if isinstance(x, dict):
            if "type" in x and (isinstance(x["type"], str) and x["type"] in ("record", "enum", "fixed")):
                yield x
            for k, v in x.items():
                for y in self.schemas(v):
                    yield y
        elif isinstance(x, list):
            for v in x:
                for y in self.schemas(v):
                    yield y

    def base(self):
        out = {"name": self.doc.get("name", "E"), "instance": self.instance, "actionsStarted": self.started, "actionsFinished": self.finished}
        if "version" in self.doc:
            out["version"] = self.doc["version"]
        out["metadata"] = self.doc.get("metadata", {})
        return out

    # ---- running

    def guarded(self, body, env):
        self.fuel = self.maxFuel
        saveC = dict((k, v) for k, v in self.cells.items() if self.doc["cells"][k].get("rollback"))
        saveP = dict((k, dict(v)) for k, v in self.pools.items() if self.doc["pools"][k].get("rollback"))
        try:
            return ("ok", self.block(listy(body), env))
        except PFAError as err:
            self.cells.update(saveC)
            self.pools.update(saveP)
            return (err.kind, err.code, err.message)

    def action(self, datum):
        names = dict(self.base(), input=untag(self.doc["input"], datum, self.types))
        fold = self.doc.get("method") == "fold"
        self.started += 1
        names["actionsStarted"] = self.started
        if fold:
            names["tally"] = self.tally
        out = self.guarded(self.doc["action"], Env(None, names))
        if out[0] == "ok":
            self.finished += 1
            if fold:
                self.tally = out[1]
            if self.doc.get("method") == "emit":
                out = ("ok", None)
        return out

    def merge(self, one, two):
        out = self.guarded(self.doc["merge"], Env(None, dict(self.base(), tallyOne=one, tallyTwo=two)))
        if out[0] == "ok":
            self.tally = out[1]
        return out

    def begin(self):
        return self.guarded(self.doc["begin"], Env(None, self.base())) if "begin" in self.doc else ("ok", None)

    def end(self):
        names = self.base()
        if self.doc.get("method") == "fold":
            names["tally"] = self.tally
        return self.guarded(self.doc["end"], Env(None, names)) if "end" in self.doc else ("ok", None)

    # ---- evaluation

    def block(self, exprs, env):
        out = None
        for e in exprs:
            out = self.ev(e, env)
        return out

    def burn(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()

    def fcn(self, spec, env):
        """A function value: ("def", params, body, env) | ("name", name, fill)."""
        if "fcn" in spec:
            fill = dict((k, self.ev(v, env)) for k, v in spec["fill"].items()) if "fill" in spec else None
            return ("name", spec["fcn"], fill)
        return ("def", [list(p)[0] for p in spec["params"]], spec["do"], env)

    def apply(self, f, args):
        self.burn()
        if f[0] == "def":
            return self.block(listy(f[2]), Env(f[3], dict(zip(f[1], args))))
        name, fill = f[1], f[2]
        if name.startswith("u."):
            d = self.fcns[name[2:]]
            params = [list(p)[0] for p in d["params"]]
            if fill:
                it = iter(args)
                args = [fill[p] if p in fill else next(it) for p in params]
            return self.block(listy(d["do"]), Env(None, dict(zip(params, args))))
        if name == "emit":
            self.emits.append(args[0])
            self.events.append(("emit", args[0]))
            return None
        return LIB[name](self, *args)

    def isFcn(self, a):
        return isinstance(a, dict) and ("fcn" in a or ("params" in a and "ret" in a and "do" in a))

    def call(self, name, args, env):
        if name in ("&&", "||"):
            a = self.ev(args[0], env)
            return (a and self.ev(args[1], env)) if name == "&&" else (a or self.ev(args[1], env))
        if name == "!" or name not in ("&&", "||"):
            vals = [self.fcn(a, env) if self.isFcn(a) else self.ev(a, env) for a in args]
        if name.startswith("u.") or name == "emit":
            return self.apply(("name", name, None), vals)
        return LIB[name](self, *vals)

    def literal(self, e):
        return untag(e["type"], e["value"], self.types)

    def path(self, p, env):
        return [self.ev(x, env) for x in p]

    def get(self, obj, path, codes):
        for h in path:
            if isinstance(obj, list):
                if not 0 <= h < len(obj):
                    raise PFAError("err", "array index not found", codes[0])
                obj = obj[h]
            else:
                if h not in obj:
                    raise PFAError("err", "map key not found", codes[1])
                obj = obj[h]
        return obj

    def put(self, obj, path, f, codes):
        if not path:
            return f(obj)
        h = path[0]
        if isinstance(obj, list):
            if not 0 <= h < len(obj):
                raise PFAError("err", "array index not found", codes[0])
            return obj[:h] + [self.put(obj[h], path[1:], f, codes)] + obj[h + 1:]
        if h not in obj:
            raise PFAError("err", "map key not found", codes[1])
        return dict((k, self.put(v, path[1:], f, codes) if k == h else v) for k, v in obj.items())

    def updater(self, to, env):
        if self.isFcn(to):
            f = self.fcn(to, env)
            return lambda old: self.apply(f, [old])
        v = self.ev(to, env)
        return lambda old: v

    def matches(self, t, v):
        """Does an untagged value belong to a type (kinds told apart)?"""
        kind, tt, _, inner = self.types.resolve(t)
        if kind == "union":
            return any(self.matches(b, v) for b in t)
        if kind == "null":
            return v is None
        if kind == "boolean":
            return isinstance(v, bool)
        if kind in ("int", "long"):
            return isinstance(v, int) and not isinstance(v, bool)
        if kind in ("float", "double"):
            return isinstance(v, (int, float)) and not isinstance(v, bool)
        if kind == "enum":
            return isinstance(v, str) and v in tt["symbols"]
        if kind in ("string", "bytes", "fixed"):
            return isinstance(v, str)
        if kind == "array":
            return isinstance(v, list) and all(self.matches(tt["items"], x) for x in v)
        if kind == "map":
            return isinstance(v, dict) and all(self.matches(tt["values"], x) for x in v.values())
        return isinstance(v, dict) and set(v) == set(f["name"] for f in tt["fields"])

    def ev(self, e, env):
        self.burn()
        if e is None or isinstance(e, (bool, int, float)):
            return e
        if isinstance(e, str):
            head, *rest = e.split(".")
            return self.get(env.get(head), rest, (2000, 2001))
        if isinstance(e, list):
            assert len(e) == 1 and isinstance(e[0], str)
            return e[0]
        keys = set(e) - {"@"}
        if keys in ({"int"}, {"long"}, {"float"}, {"double"}, {"string"}):
            v = list(e.values())[0]
            return float(v) if keys in ({"float"}, {"double"}) else v
        if "value" in e and "type" in e:
            return self.literal(e)
        if "new" in e:
            if isinstance(e["new"], list):
                return [self.ev(x, env) for x in e["new"]]
            return dict((k, self.ev(v, env)) for k, v in e["new"].items())
        if "let" in e:
            vals = dict((k, self.ev(v, env)) for k, v in e["let"].items())
            env.names.update(vals)
            return None
        if "set" in e:
            vals = dict((k, self.ev(v, env)) for k, v in e["set"].items())
            for k, v in vals.items():
                env.find(k)[k] = v
            return None
        if "attr" in e:
            obj = env.get(e["attr"]) if isinstance(e["attr"], str) else self.ev(e["attr"], env)
            if "to" in e:
                return self.put(obj, self.path(e["path"], env), self.updater(e["to"], env), (2002, 2003))
            return self.get(obj, self.path(e["path"], env), (2000, 2001))
        if "cell" in e:
            if "to" in e:
                path = self.path(e.get("path", []), env)
                up = self.updater(e["to"], env)
                self.cells[e["cell"]] = self.put(self.cells[e["cell"]], path, up, (2006, 2007))
                return self.cells[e["cell"]]
            return self.get(self.cells[e["cell"]], self.path(e.get("path", []), env), (2004, 2005))
        if "pool" in e:
            if "del" in e:
                self.pools[e["pool"]].pop(self.ev(e["del"], env), None)
                return None
            path = self.path(e["path"], env)
            p = self.pools[e["pool"]]
            if "to" in e:
                init = self.ev(e["init"], env) if "init" in e else None
                up = self.updater(e["to"], env)
                if path[0] not in p:
                    # an item that does not exist is created from init, to which the update is applied
                    new = self.put(init, path[1:], up, (2010, 2011))
                else:
                    new = self.put(p[path[0]], path[1:], up, (2010, 2011))
                p[path[0]] = new
                return new
            return self.get(p, path, (2008, 2009))
        if "if" in e:
            if self.ev(e["if"], Env(env)):
                out = self.block(listy(e["then"]), Env(env))
                return out if "else" in e else None
            return self.block(listy(e["else"]), Env(env)) if "else" in e else None
        if "cond" in e:
            for c in e["cond"]:
                if self.ev(c["if"], Env(env)):
                    out = self.block(listy(c["then"]), Env(env))
                    return out if "else" in e else None
            return self.block(listy(e["else"]), Env(env)) if "else" in e else None
        if "for" in e:
            inner = Env(env)
            inner.names.update(dict((k, self.ev(v, inner)) for k, v in e["for"].items()))
            while self.ev(e["while"], Env(inner)):
                self.block(listy(e["do"]), Env(inner))
                vals = dict((k, self.ev(v, inner)) for k, v in e["step"].items())
                for k, v in vals.items():
                    inner.find(k)[k] = v
            return None
        if "while" in e:
            while self.ev(e["while"], Env(env)):
                self.block(listy(e["do"]), Env(env))
            return None
        if "until" in e:
            while True:
                self.block(listy(e["do"]), Env(env))
                if self.ev(e["until"], Env(env)):
                    return None
        if "foreach" in e:
            for x in self.ev(e["in"], env):
                self.block(listy(e["do"]), Env(env, {e["foreach"]: x}))
            return None
        if "forkey" in e:
            for k, v in self.ev(e["in"], env).items():
                self.block(listy(e["do"]), Env(env, {e["forkey"]: k, e["forval"]: v}))
            return None
        if "cast" in e:
            v = self.ev(e["cast"], env)
            for c in e["cases"]:
                if self.matches(c["as"], v):
                    out = self.block(listy(c["do"]), Env(env, {c["named"]: v}))
                    return None if e.get("partial") else out
            return None
        if "upcast" in e:
            v = self.ev(e["upcast"], env)
            return float(v) if e["as"] in ("float", "double") else v
        if "ifnotnull" in e:
            vals = dict((k, self.ev(v, env)) for k, v in e["ifnotnull"].items())
            if all(v is not None for v in vals.values()):
                out = self.block(listy(e["then"]), Env(env, vals))
                return out if "else" in e else None
            return self.block(listy(e["else"]), Env(env)) if "else" in e else None
        if "doc" in e:
            return None
        if "error" in e:
            raise PFAError("user", e["error"], e.get("code"))
        if "try" in e:
            try:
                return self.block(listy(e["try"]), Env(env))
            except PFAError as err:
                if "filter" not in e or err.message in e["filter"] or err.code in e["filter"]:
                    return None
                raise
        if "log" in e:
            self.logs.append((e.get("namespace"), [self.ev(x, env) for x in (e["log"] if isinstance(e["log"], list) else [e["log"]])]))
            self.events.append(("log",) + self.logs[-1])
            return None
        if "do" in e:
            return self.block(listy(e["do"]), Env(env))
        if "call" in e:
            name = self.ev(e["call"], env)
            args = [self.ev(a, env) for a in e["args"]]
            return self.apply(("name", "u." + name, None), args)
        (name, args), = [(k, v) for k, v in e.items() if k != "@"]
        return self.call(name, args if isinstance(args, list) else [args], env)
