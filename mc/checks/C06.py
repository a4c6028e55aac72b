"""C06: documents survive parsing, serialization and identity transformation."""
import copy
import io
import itertools
import json

import yaml

from titus.reader import jsonToAst, yamlToAst
from titus.pfaast import Ast, EngineConfig, Expression, LiteralString, Literal, LiteralInt, FcnDef, Subs
from titus.genpy import PFAEngine

from mc.hist import *
from mc import universe as U

LEVEL = "exploration"
RULE = ("forms: every syntactic form with another form in each of its places, in every section of a document (begin, action, end, merge, user functions; as a list and alone); optional: every combination of optional document "
        "fields, and of cell and pool properties; literals: every literal form over boundary values, every name and string that YAML could misread; types: every type of the universe in every place of a type, and every order "
        "of declarations; programs: documents of every form run before and after; non-trivial: documents with at least one nested form")
ASSUMPTIONS = ["words like 1e5, a number in JSON and YAML 1.2 but a string in YAML 1.1, are not used as strings in YAML", "\"@\" keys are line numbers wherever they occur and carry no meaning"]

ENUM = U.ENUM
# places: <e> expression, <a> argument (also functions), <b> block (a list of expressions, or one), <m> string map entry's expression is <e>
FORMS = [
    {"u.f": ["<a>", "<a>"]}, {"+": ["<e>", "<e>"]}, {"m.abs": "<a>"}, {"rand.gauss": []},
    {"call": "<e>", "args": ["<e>", "<e>"]}, {"call": "<e>", "args": []},
    {"new": ["<e>", "<e>"], "type": {"type": "array", "items": "string"}}, {"new": {"x": "<e>", "y": "<e>"}, "type": {"type": "map", "values": "string"}},
    {"new": [], "type": {"type": "array", "items": "string"}}, {"new": {}, "type": {"type": "map", "values": "string"}}, {"new": {"x": "<e>"}, "type": "Rec"},
    {"do": "<b>"}, {"let": {"v": "<e>", "w": "<e>"}}, {"set": {"v": "<e>", "w": "<e>"}},
    {"attr": "<e>", "path": ["<e>", "<e>"]}, {"attr": "<e>", "path": ["<e>"], "to": "<a>"},
    {"cell": "c"}, {"cell": "c", "path": ["<e>", "<e>"]}, {"cell": "c", "to": "<a>"}, {"cell": "c", "path": ["<e>"], "to": "<a>"}, {"cell": "c", "path": []},
    {"pool": "p", "path": ["<e>", "<e>"]}, {"pool": "p", "path": ["<e>"], "to": "<a>", "init": "<e>"}, {"pool": "p", "del": "<e>"},
    {"if": "<e>", "then": "<b>"}, {"if": "<e>", "then": "<b>", "else": "<b>"},
    {"cond": [{"if": "<e>", "then": "<b>"}, {"if": "<e>", "then": "<b>"}]}, {"cond": [{"if": "<e>", "then": "<b>"}], "else": "<b>"},
    {"while": "<e>", "do": "<b>"}, {"do": "<b>", "until": "<e>"},
    {"for": {"i": "<e>", "j": "<e>"}, "while": "<e>", "step": {"i": "<e>", "j": "<e>"}, "do": "<b>"},
    {"foreach": "x", "in": "<e>", "do": "<b>"}, {"foreach": "x", "in": "<e>", "do": "<b>", "seq": False}, {"foreach": "x", "in": "<e>", "do": "<b>", "seq": True},
    {"forkey": "k", "forval": "x", "in": "<e>", "do": "<b>"},
    {"cast": "<e>", "cases": [{"as": "int", "named": "x", "do": "<b>"}, {"as": "string", "named": "y", "do": "<b>"}]},
    {"cast": "<e>", "cases": [{"as": "Rec", "named": "x", "do": "<b>"}], "partial": True}, {"cast": "<e>", "cases": [{"as": "int", "named": "x", "do": "<b>"}], "partial": False},
    {"upcast": "<e>", "as": "double"}, {"ifnotnull": {"x": "<e>", "y": "<e>"}, "then": "<b>"}, {"ifnotnull": {"x": "<e>"}, "then": "<b>", "else": "<b>"},
    {"pack": [{"pad": "<e>"}, {"int32": "<e>"}, {"pad": "<e>"}]}, {"unpack": "<e>", "format": [{"x": "int32"}, {"y": "raw3"}], "then": "<b>"}, {"unpack": "<e>", "format": [{"x": "pad"}], "then": "<b>", "else": "<b>"},
    {"doc": "words"}, {"error": "words"}, {"error": "words", "code": -3}, {"error": "", "code": -2147483648},
    {"try": "<b>"}, {"try": "<b>", "filter": ["some message", -5]}, {"try": "<b>", "filter": []},
    {"log": "<b>"}, {"log": "<b>", "namespace": "ns.x"}, {"log": []},
]
LEAVES = [None, True, False, 0, -1, 2147483647, -2147483648, 2147483648, 9223372036854775807, -9223372036854775808, 0.0, -0.0, 2.5, 1e300, 5e-324, 1e-7, 123456789012345.0, 3.0, {"int": 3}, {"int": -0}, {"long": 3}, {"long": 2147483648},
          {"float": 2.5}, {"float": 3}, {"double": 2.5}, {"double": 3}, {"double": 1e22}, {"string": "x"}, {"string": ""}, ["x"], [""], ["with.dot"], {"base64": ""}, {"base64": "AP/+gA=="}, "x", "input", "a_B9", "x.y", "x.y.z", "x.0", "x.0.y", "x.-1", "x.+2",
          "x. y", "x.", "x..y", {"type": "int", "value": 3}, {"type": {"type": "array", "items": "int"}, "value": []}, {"type": {"type": "map", "values": ["null", "int"]}, "value": {"a": None, "b": {"int": 3}}},
          {"type": "Rec", "value": {"x": 1, "y": "s"}}, {"type": "null", "value": None}, {"type": "double", "value": 1e-300}, {"type": "string", "value": "null"}, {"type": "boolean", "value": False}, {"fcn": "u.f"}, {"fcn": "m.abs"}]
FCNS = [{"params": [{"x": "int"}, {"y": {"type": "array", "items": "Rec"}}], "ret": "string", "do": "<b>"}, {"params": [], "ret": ["null", "int"], "do": "<b>"}, {"fcn": "u.f", "fill": {"x": "<a>", "y": "<a>"}}, {"fcn": "u.f"}]
WORDS = ["yes", "No", "on", "off", "true", "TRUE", "null", "Null", "~", "", " ", "1", "1.0", "-1", "0x1F", "0o17", "017", "1_000", "nan", "NaN", "inf", "-inf", "Infinity", "infinity", ".inf", ".nan", "-.inf", "-", "- x", "? x", ": x", "x: y", "a # b", "#", "&a", "*a", "!t",
         "|", ">", "%", "@", "`", "'", "\"", "\\", "{", "}", "[x]", "a,b", "<<", "=", "2001-01-01", "1:30", "é", "☃", "\U0001f600", "\n", "a\nb", "\t", "\r\n", "\x00", "\x07", "\x7f", "\x85", " x", "\ufeff", "x ", " x", "...", "---", "１", "null ", "y", "n", "Y"]


def walkPlaces(t, path=()):
    if isinstance(t, str):
        if t in ("<e>", "<a>", "<b>"):
            yield path, t
    elif isinstance(t, dict):
        for k in t:
            yield from walkPlaces(t[k], path + (k,))
    elif isinstance(t, list):
        for i, x in enumerate(t):
            yield from walkPlaces(x, path + (i,))


def put(t, path, v):
    if not path:
        return v
    if isinstance(t, dict):
        return dict((k, put(x, path[1:], v) if k == path[0] else x) for k, x in t.items())
    return [put(x, path[1:], v) if i == path[0] else x for i, x in enumerate(t)]


def close(t, count):
    """Marks in all the places that are left."""
    if isinstance(t, str):
        if t in ("<e>", "<a>"):
            return {"string": "mark%d" % next(count)}
        if t == "<b>":
            n = next(count)
            return [{"string": "mark%d" % n}] if n % 2 else [{"string": "mark%d" % n}, {"string": "mark%d" % next(count)}]
        return t
    if isinstance(t, dict):
        return dict((k, close(x, count)) for k, x in t.items())
    if isinstance(t, list):
        return [close(x, count) for x in t]
    return t


# ------------------------------------------------------------------ the meaning of a document, independently

TYPED = {"type", "input", "output", "ret", "as"}
BLOCKS = {"do", "then", "else", "log", "try"}
SPECIAL = set(["args", "as", "attr", "base64", "call", "cases", "cast", "cell", "code", "cond", "do", "doc", "double", "else", "error", "fcn", "fill", "filter", "float", "for", "foreach", "forkey", "format", "forval", "if",
               "ifnotnull", "in", "init", "int", "let", "log", "long", "namespace", "new", "pack", "params", "partial", "path", "pool", "ret", "seq", "set", "step", "string", "then", "to", "try", "type", "unpack", "until",
               "upcast", "value", "while", "del"])


def typesOf(x, out):
    """All types written in a document."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in TYPED and not (k == "type" and "value" not in x and "new" not in x and "init" not in x and k not in ("input", "output") and not ("type" in x and ("shared" in x or len(x) == 1))):
                out.append(v)
            elif k == "params":
                out.extend(list(p.values())[0] for p in v)
            elif k in ("value", "init") and "type" in x:
                pass
            else:
                typesOf(v, out)
    elif isinstance(x, list):
        for v in x:
            typesOf(v, out)
    return out


def number(x):
    """Numbers apart: 1 is not 1.0 is not true."""
    if isinstance(x, dict):
        return dict((k, number(v)) for k, v in x.items())
    if isinstance(x, list):
        return [number(v) for v in x]
    return (type(x).__name__, repr(x))


class Norm(object):
    def __init__(self, doc):
        self.doc = doc
        self.env = U.Env(*[t for t in typesOf(doc, []) if self.known(t)])

    def known(self, t):
        return not isinstance(t, str)

    def type(self, t):
        from mc.checks.C08 import canon
        return canon(t, self.env)

    def block(self, x):
        return [self.expr(y) for y in x] if isinstance(x, list) else [self.expr(x)]

    def expr(self, x):
        if x is None or isinstance(x, bool):
            return ("lit", repr(x))
        if isinstance(x, int):
            return ("int" if -2**31 <= x < 2**31 else "long", x)
        if isinstance(x, float):
            return ("double", repr(x))
        if isinstance(x, list):
            assert len(x) == 1 and isinstance(x[0], str)
            return ("string", x[0])
        if isinstance(x, str):
            if "." in x:
                words = x.split(".")
                path = []
                for w in words[1:]:
                    try:
                        path.append(("int", int(w)))
                    except ValueError:
                        path.append(("string", w))
                return ("attr", ("ref", words[0]), path)
            return ("ref", x)
        x = dict((k, v) for k, v in x.items() if k != "@")
        keys = set(x)
        if keys == {"int"} or keys == {"long"}:
            return (list(keys)[0], x[list(keys)[0]])
        if keys == {"float"} or keys == {"double"}:
            return (list(keys)[0], repr(float(x[list(keys)[0]])))
        if keys == {"string"} or keys == {"base64"}:
            return (list(keys)[0], list(x.values())[0])
        if keys == {"type", "value"}:
            return ("literal", self.type(x["type"]), number(x["value"]))
        if keys == {"attr", "path"}:
            return ("attr", self.expr(x["attr"]), [self.expr(p) for p in x["path"]])
        if len(keys) == 1 and not keys & SPECIAL:
            name, = keys
            args = x[name]
            return ("call", name, [self.expr(a) for a in args] if isinstance(args, list) else [self.expr(args)])
        out = {}
        for k, v in x.items():
            if k in BLOCKS:
                out[k] = self.block(v)
            elif k in ("type", "ret", "as"):
                out[k] = self.type(v)
            elif k == "params":
                out[k] = [(n, self.type(t)) for p in v for n, t in p.items() if n != "@"]
            elif k in ("let", "set", "for", "step", "ifnotnull", "fill") or k == "new" and isinstance(v, dict):
                out[k] = dict((n, self.expr(e)) for n, e in v.items() if n != "@")
            elif k == "new" or k in ("path", "args"):
                out[k] = [self.expr(e) for e in v]
            elif k == "cond":
                out[k] = [self.expr(e) for e in v]
            elif k == "cases":
                out[k] = [self.expr(e) for e in v]
            elif k == "pack":
                out[k] = [(n, self.expr(e)) for p in v for n, e in p.items() if n != "@"]
            elif k == "format":
                out[k] = [(n, e) for p in v for n, e in p.items() if n != "@"]
            elif k in ("foreach", "forkey", "forval", "fcn", "cell", "pool", "doc", "error", "namespace", "code", "filter", "seq", "partial", "named"):
                out[k] = number(v)
            else:
                out[k] = self.expr(v)
        if "foreach" in out:
            out.setdefault("seq", number(True))
        if "cast" in out:
            out.setdefault("partial", number(False))
        if out.get("path") == [] and "cell" in out:
            del out["path"]
        return out

    def document(self):
        d = dict((k, v) for k, v in self.doc.items() if k != "@")
        out = {"method": d.get("method", "map")}
        for k, v in d.items():
            if k in ("input", "output"):
                out[k] = self.type(v)
            elif k in ("begin", "action", "end", "merge"):
                if v != [] or k == "action":
                    out[k] = self.block(v)
            elif k == "fcns":
                if v:
                    out[k] = dict((n, self.expr(f)) for n, f in v.items() if n != "@")
            elif k in ("cells", "pools"):
                if v:
                    out[k] = {}
                    for n, c in v.items():
                        if n == "@":
                            continue
                        out[k][n] = {"type": self.type(c["type"]), "init": number(strip(c.get("init", {}))), "shared": c.get("shared", False), "rollback": c.get("rollback", False), "source": c.get("source", "embedded")}
            elif k in ("metadata", "options"):
                v = strip(v)
                if v:
                    out[k] = number(v)
            elif k in ("zero", "randseed", "doc", "version", "name"):
                out[k] = number(strip(v))
        return out


def strip(x):
    if isinstance(x, dict):
        return dict((k, strip(v)) for k, v in x.items() if k != "@")
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def norm(doc):
    return Norm(doc).document()


class Find(object):
    """Every node of some kind."""

    def __init__(self, what, f=lambda x: x):
        self.what, self.f = what, f

    def isDefinedAt(self, x):
        return self.what(x)

    def __call__(self, x):
        return self.f(x)


def marks(x):
    if isinstance(x, dict):
        if set(x) == {"string"} and isinstance(x["string"], str) and x["string"].startswith("mark"):
            return [x["string"]]
        return [m for v in x.values() for m in marks(v)]
    if isinstance(x, list):
        return [m for v in x for m in marks(v)]
    return []


def remark(x):
    if isinstance(x, dict):
        if set(x) == {"string"} and isinstance(x["string"], str) and x["string"].startswith("mark"):
            return {"string": "other" + x["string"][4:]}
        return dict((k, remark(v)) for k, v in x.items())
    if isinstance(x, list):
        return [remark(v) for v in x]
    return x


def annotate(x, n=None, skip=False):
    """Line numbers on every object that is part of the syntax."""
    n = n or itertools.count()
    if isinstance(x, dict):
        out = {"@": "place %d" % next(n)}
        for k, v in x.items():
            out[k] = annotate(v, n)
        return out
    if isinstance(x, list):
        return [annotate(v, n) for v in x]
    return x


def judge(ctx, case, doc, deep=True):
    """All the ways a document is written and read."""
    def bad(what, *more):
        ctx.fail(case, "%s: %s %s" % (what, json.dumps(doc)[:300], " | ".join(str(m)[:250] for m in more)))
        return None
    ctx.transitions += 1
    got = outcome(jsonToAst, json.dumps(doc))
    if got[0] == "ok":
        ctx.outcome(hash(repr(got[1])))
    if got[0] != "ok":
        return bad("not read", show(got))
    ast = got[1]
    again = outcome(jsonToAst, doc)
    if again[0] != "ok" or "name" in doc and not again[1] == ast:
        return bad("text and data read differently", show(again))
    text = outcome(ast.toJson, False)
    if text[0] != "ok":
        return bad("not written", show(text))
    back = json.loads(text[1])
    want = norm(doc)
    have = norm(back)
    want.setdefault("name", have.get("name"))
    if have != want:
        for k in set(want) | set(have):
            if want.get(k) != have.get(k):
                return bad("written differently in %r" % k, json.dumps(back.get(k))[:300])
    re = outcome(jsonToAst, text[1])
    if re[0] != "ok":
        return bad("not read again", text[1], show(re))
    if not re[1] == ast or not ast == re[1]:
        return bad("read again as another tree", text[1])
    if re[1].toJson(False) != text[1]:
        return bad("the second writing differs", text[1], re[1].toJson(False))
    withPos = outcome(ast.toJson, True)
    if withPos[0] != "ok" or strip(json.loads(withPos[1])) != back:
        return bad("line numbers change the document", show(withPos))
    # nothing replaced
    same_ = outcome(ast.replace, Find(lambda x: False))
    if same_[0] != "ok" or not same_[1] == ast or same_[1].toJson(False) != text[1]:
        return bad("replacing nothing changes it", show(same_))
    if deep and "name" in doc:
        noted = annotate(doc)
        got = outcome(jsonToAst, json.dumps(noted))
        if got[0] != "ok" or "name" in doc and not got[1] == ast:
            return bad("line numbers in the document change it", show(got))
        w = outcome(got[1].toJson, True)
        if w[0] != "ok" or strip(json.loads(w[1])) != back:
            return bad("a document with line numbers is written differently", show(w))
        if outcome(got[1].toJson, False) != text:
            return bad("line numbers remain")
    if ast.toJson(False) != text[1]:
        return bad("the tree was changed")
    return ast, back


def traverse(ctx, case, doc, ast, back):
    mine = sorted(marks(doc))
    got = outcome(ast.collect, Find(lambda x: isinstance(x, LiteralString) and x.value.startswith("mark"), lambda x: x.value))
    if got[0] != "ok" or sorted(got[1]) != mine:
        ctx.fail(case, "collect found %s of %s in %s" % (show(got), mine, json.dumps(doc)[:300]))
    new = outcome(ast.replace, Find(lambda x: isinstance(x, LiteralString) and x.value.startswith("mark"), lambda x: LiteralString("other" + x.value[4:])))
    if new[0] != "ok" or norm(dict(json.loads(new[1].toJson(False)), name="n")) != norm(dict(remark(doc), name="n")):
        ctx.fail(case, "replace missed something in %s: %s" % (json.dumps(doc)[:300], show(new)[:400]))
    if sorted(marks(json.loads(ast.toJson(False)))) != mine:
        ctx.fail(case, "replace changed the tree it was given")
    # every node is reached once
    nodes = ast.collect(Find(lambda x: True))
    if len(nodes) != len(set(map(id, nodes))):
        ctx.fail(case, "collect visits something twice in %s" % json.dumps(doc)[:300])
    exprs = [x for x in nodes if isinstance(x, Expression)]
    if len(exprs) != count(norm(doc)):
        ctx.fail(case, "collect visits %d expressions of %d in %s" % (len(exprs), count(norm(doc)), json.dumps(doc)[:300]))


def count(d):
    """The number of expressions in a normal form."""
    n = 0
    for k in ("begin", "action", "end", "merge"):
        for x in d.get(k, []):
            n += exprs(x)
    for f in d.get("fcns", {}).values():
        n += exprs(f) 
    return n


def exprs(x):
    if isinstance(x, tuple):
        if x[0] == "call":
            return 1 + sum(map(exprs, x[2]))
        if x[0] == "attr":
            return 1 + exprs(x[1]) + sum(map(exprs, x[2]))
        return 1
    n = 0 if "params" in x or "fcn" in x or "named" in x else 1
    for k, v in x.items():
        if k in BLOCKS or k in ("path", "args", "cond", "cases") or k == "new" and isinstance(v, list):
            n += sum(map(exprs, v))
        elif k in ("let", "set", "for", "step", "ifnotnull", "fill") or k == "new" and isinstance(v, dict):
            n += sum(map(exprs, v.values()))
        elif k == "pack":
            n += sum(exprs(e) for _, e in v)
        elif k in ("attr", "call", "to", "init", "del", "if", "while", "until", "in", "cast", "upcast", "unpack"):
            n += exprs(v)
    return n


SECTIONS = ["action", "begin", "end", "merge", "fcn", "lambda"]


def document(section, expr, alone=False):
    value = expr if alone else [{"string": "markA"}, expr, {"string": "markB"}]
    d = {"name": "n", "input": U.REC, "output": "string", "action": [["a"]], "cells": {"c": {"type": "Rec", "init": {"x": 1, "y": "s"}}}, "pools": {"p": {"type": {"type": "array", "items": "Rec"}}}}
    if section == "merge":
        d.update(method="fold", zero="z")
    if section == "fcn":
        d["fcns"] = {"f": {"params": [{"x": "Rec"}], "ret": "string", "do": value}, "g": {"params": [], "ret": "null", "do": None}}
    elif section == "lambda":
        d["action"] = {"a.map": ["input", {"params": [{"x": "Rec"}], "ret": "string", "do": value}]}
    else:
        d[section] = value
    return d


def nestings(depth, forms):
    """Forms with one place of them filled by another form, to a depth."""
    if depth == 1:
        for i, f in enumerate(forms):
            yield (i,), f
        return
    for i, f in enumerate(forms):
        for p, kind in walkPlaces(f):
            for key, inner in nestings(depth - 1, forms):
                yield (i, "/".join(map(str, p))) + key, put(f, p, inner)
            if depth == 2:
                for j, x in enumerate(LEAVES):
                    if not (isinstance(x, dict) and "fcn" in x and kind != "<a>") and not (isinstance(x, list) and (kind == "<b>" or p == ("m.abs",))):
                        yield (i, "/".join(map(str, p)), "leaf", j), put(f, p, x)
                for j, x in enumerate(FCNS):
                    if kind == "<a>":
                        yield (i, "/".join(map(str, p)), "fcn", j), put(f, p, x)


def nested(ctx, depth, section, part, parts):
    n = 0
    for key, x in nestings(depth, FORMS):
        n += 1
        if n % parts != part:
            continue
        for alone in (False, True):
            if alone and depth > 1 and (depth > 2 or section != "action"):
                continue
            case = ["form", depth, section, list(key), alone]
            if not ctx.want(case):
                continue
            ctx.nontrivial += depth > 1
            doc = document(section, close(x, itertools.count(2 * (n % 2))), alone)
            r = judge(ctx, case, doc, deep=depth < 3 and not alone)
            if r:
                traverse(ctx, case, doc, *r)
                ctx.states += 1
                if depth == 2 and not alone and section in ("action", "merge"):
                    inYaml(ctx, case, doc, r[0])
            if ctx.full():
                return


def inYaml(ctx, case, doc, ast, styles=None):
    for style in styles or (["block"] if not ctx.thorough else ["block", "flow", "json"]):
        text = yamlText(doc, style)
        if (style == "unicode" or style == "json" and "\\u" in text) and number(yaml.safe_load(text)) != number(doc):
            continue          # not this document in YAML (surrogates, dumped control characters)
        ctx.traces += 1
        got = outcome(yamlToAst, text)
        if got[0] != "ok":
            ctx.fail(case, "YAML (%s) not read: %s: %r" % (style, show(got)[:300], text[:300]))
        elif not got[1] == ast:
            ctx.fail(case, "YAML (%s) read as another tree: %r" % (style, text[:300]))
        elif json.loads(got[1].toJson(False)) != json.loads(ast.toJson(False)):
            ctx.fail(case, "YAML (%s) written differently: %r" % (style, text[:300]))


def yamlText(doc, style):
    if style == "json":
        return json.dumps(doc)
    if style == "unicode":
        return yaml.safe_dump(doc, default_flow_style=False, allow_unicode=True)
    if style == "quoted":
        return yaml.safe_dump(doc, default_style='"')
    return yaml.safe_dump(doc, default_flow_style=(style == "flow"))


def literals(ctx):
    """Every literal, name and string."""
    for i, x in enumerate(LEAVES):
        if isinstance(x, dict) and "fcn" in x:
            continue
        for section in SECTIONS:
            case = ["leaf", i, section]
            if ctx.want(case):
                ctx.nontrivial += 1
                doc = document(section, x)
                r = judge(ctx, case, doc)
                if r:
                    traverse(ctx, case, doc, *r)
                    inYaml(ctx, case, doc, r[0], ["block", "flow", "json", "unicode", "quoted"])
    for i, w in enumerate(WORDS):
        places = {
            "string": {"string": w}, "list": [w], "log": {"log": [["x"]], "namespace": w}, "error": {"error": w}, "doc": {"doc": w}, "key": {"new": {w: ["x"]}, "type": {"type": "map", "values": "string"}},
            "value": {"type": "string", "value": w}, "values": {"type": {"type": "map", "values": "string"}, "value": {w: w}}, "filter": {"try": [["x"]], "filter": [w]},
        }
        if w.isalpha() and w.isascii():
            places.update(ref=w, let={"let": {w: ["x"]}}, attr=w + ".x", foreach={"foreach": w, "in": w, "do": w}, path="x." + w, params={"do": [{"a.map": ["x", {"params": [{w: "int"}], "ret": "int", "do": w}]}]},
                          pack={"pack": [{"pad": w}]}, unpack={"unpack": w, "format": [{w: "int32"}], "then": w}, ifnotnull={"ifnotnull": {w: ["x"]}, "then": w}, call={w: "x"})
        for where, x in sorted(places.items()):
            if w == "@" and where in ("key", "values"):
                continue
            case = ["word", i, w, where]
            if ctx.want(case):
                ctx.nontrivial += 1
                doc = document("action", x)
                r = judge(ctx, case, doc)
                if r:
                    inYaml(ctx, case, doc, r[0], ["block", "flow", "json", "unicode", "quoted"])
        case = ["word", i, w, "top"]
        if ctx.want(case) and w != "@":
            ctx.nontrivial += 1
            doc = document("action", ["x"])
            doc.update(doc=w, metadata={w: w, "k": w}, zero={w: [w]}, method="fold", merge=["x"])
            if w.isalpha() and w.isascii():
                doc.update(name=w, fcns={w: {"params": [], "ret": "null", "do": None}})
                doc["cells"] = {w: {"type": "string", "init": w}}
                doc["pools"] = {w: {"type": "string", "init": {w: w}}}
            r = judge(ctx, case, doc)
            if r:
                inYaml(ctx, case, doc, r[0], ["block", "flow", "json", "unicode", "quoted"])


OPTIONAL = {
    "method": [None, "map", "emit", "fold"], "begin": [None, [], ["markA"], [{"string": "markA"}, None]], "end": [None, [], 3, [3, 4]], "fcns": [None, {}, {"f": {"params": [{"x": "int"}], "ret": "int", "do": "x"}, "g.h": {"params": [], "ret": "Rec", "do": [{"error": "x"}]}}],
    "randseed": [None, 0, -1, 9223372036854775807], "doc": [None, "", "words"], "version": [None, 0, -3, 2147483647], "metadata": [None, {}, {"a": "b", "": ""}], "options": [None, {}, {"timeout": 1000, "x.y": [1, {"z": None}]}],
    "name": [None, "Some_Name"],
}
STORES = [{"type": "int", "init": 3}, {"type": "int", "init": 3, "shared": True}, {"type": "int", "init": 3, "rollback": True}, {"type": "int", "init": 3, "shared": False, "rollback": False, "source": "embedded"},
          {"type": "null", "init": None}, {"type": ["null", "int"], "init": {"int": 3}}, {"type": "Rec", "init": {"x": 3, "y": "z"}}, {"type": {"type": "map", "values": "double"}, "init": {"a": 1, "b": 2.5}},
          {"type": U.TREE, "init": {"v": 1, "next": {"Tree": {"v": 2, "next": None}}}}, {"type": {"type": "array", "items": "boolean"}, "init": [True, False]}]


def options(ctx, part, parts):
    names = sorted(OPTIONAL)
    n = 0
    # all pairs of optional fields with all of their values; every single value with everything else present
    todo = []
    for a, b in itertools.combinations(names, 2):
        for x in range(len(OPTIONAL[a])):
            for y in range(len(OPTIONAL[b])):
                todo.append({a: x, b: y})
    for k in names:
        for x in range(len(OPTIONAL[k])):
            todo.append(dict([(m, len(OPTIONAL[m]) - 1) for m in names], **{k: x}))
    if ctx.thorough:
        todo += [dict(zip(names, xs)) for xs in itertools.product(*[range(min(3, len(OPTIONAL[m]))) for m in names])]
    for pick in todo:
        n += 1
        if n % parts != part:
            continue
        case = ["optional", pick]
        if not ctx.want(case):
            continue
        ctx.nontrivial += 1
        doc = {"input": U.REC, "output": "string", "action": [["markZ"]]}
        for k, i in pick.items():
            if OPTIONAL[k][i] is not None:
                doc[k] = OPTIONAL[k][i]
        if doc.get("method") == "fold":
            doc.update(zero="", merge=[["markY"]])
        doc["action"] = [{"string": "markZ"}]
        r = judge(ctx, case, doc)
        if r:
            if "name" not in doc:
                if not r[1]["name"] or not isinstance(r[1]["name"], str):
                    ctx.fail(case, "no name was made")
                doc = dict(doc, name=r[1]["name"])
            inYaml(ctx, case, doc, r[0])
        if ctx.full():
            return


def stores(ctx):
    for kind in ("cells", "pools"):
        for i, a in enumerate(STORES):
            for j, b in enumerate(STORES):
                case = [kind, i, j]
                if not ctx.want(case):
                    continue
                ctx.nontrivial += 1
                doc = {"name": "n", "input": U.REC, "output": "string", "action": [["x"]]}
                mk = lambda s: s if kind == "cells" else dict(s, init={"one": s["init"], "two": s["init"]})
                if i == j and kind == "pools":
                    doc[kind] = {"a": dict((k, v) for k, v in a.items() if k != "init")}
                else:
                    doc[kind] = {"a": mk(a), "b": mk(b)} if not (a == b and "Tree" in repr(a)) else {"a": mk(a)}
                if "Tree" in repr(a) and "Tree" in repr(b) and len(doc[kind]) > 1:
                    continue
                r = judge(ctx, case, doc)
                if r:
                    inYaml(ctx, case, doc, r[0], ["block", "flow", "json", "quoted"])


def sources(ctx):
    """Cells and pools that are read from files."""
    import os
    scratch = os.environ["MC_SCRATCH"]
    for kind in ("cells", "pools"):
        for i, s in enumerate(STORES[4:] + STORES[:1]):
            case = ["source", kind, i]
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            name = os.path.join(scratch, "store-%s-%d-%d.json" % (kind, i, os.getpid()))
            with open(name, "w") as f:
                json.dump(s["init"] if kind == "cells" else {"one": s["init"]}, f)
            doc = {"name": "n", "input": U.REC, "output": s["type"], "action": {"cell": "a"} if kind == "cells" else {"pool": "a", "path": [["one"]]}, kind: {"a": {"type": "Tree" if s["type"] == U.TREE else s["type"], "init": name, "source": "json"}}}
            r = judge(ctx, case, doc)
            if r:
                first = PFAEngine.fromJson(doc)[0]
                second = outcome(PFAEngine.fromJson, r[0].toJson(False))
                if second[0] != "ok":
                    ctx.fail(case, "the written document makes no engine: %s" % show(second))
                else:
                    x = {"x": 1, "y": ""}
                    if not agree(outcome(first.action, x), outcome(second[1][0].action, x)):
                        ctx.fail(case, "the engines differ")
            os.remove(name)


def typePlaces(t):
    d = {"name": "n", "input": "int", "output": "string", "action": [["x"]]}
    yield "input", dict(d, input=t)
    yield "output", dict(d, output=t)
    if "name" not in repr(t):
        yield "both", dict(d, input=t, output=U.arr(t))
    elif isinstance(t, dict) and "name" in t:
        yield "both", dict(d, input=t, output=U.arr(U.full(t)))
    yield "literal", dict(d, action={"type": t, "value": None})
    yield "new", dict(d, action={"type": t, "new": []})
    yield "object", dict(d, action={"type": t, "new": {}})
    yield "upcast", dict(d, action={"upcast": ["x"], "as": t})
    yield "case", dict(d, action={"cast": ["x"], "cases": [{"as": t, "named": "y", "do": ["x"]}]})
    yield "param", dict(d, fcns={"f": {"params": [{"x": t}], "ret": "null", "do": None}})
    yield "ret", dict(d, fcns={"f": {"params": [], "ret": t, "do": None}})
    yield "inline", dict(d, action={"a.map": ["x", {"params": [{"x": t}], "ret": "null", "do": None}]})
    yield "cell", dict(d, cells={"c": {"type": t, "init": None}})
    yield "pool", dict(d, pools={"c": {"type": t, "init": {}}})


def typesIn(ctx, part, parts):
    for i, t in enumerate(U.universe(ctx.thorough)):
        if i % parts != part:
            continue
        for where, doc in typePlaces(t):
            case = ["type", t, where]
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            r = judge(ctx, case, doc)
            if r:
                inYaml(ctx, case, doc, r[0])
            if ctx.full():
                return


def orders(ctx):
    """A type may be declared in one place and used in all others, whatever the order."""
    named = U.rec("Chain", ("to", ["null", "Chain"]), ("e", ENUM))
    places = ["input", "output", "cell", "pool", "param", "literal", "ret"]
    for declared in places:
        for used in itertools.combinations(places, 2):
            case = ["declared", declared, used]
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            t = lambda p: named if p == declared else "Chain" if used[0] == p else U.arr("Chain") if p == used[1] else ["null", "Color"] if p == "ret" else "null"
            doc = {"name": "n", "action": {"type": t("literal"), "value": None}, "fcns": {"f": {"params": [{"x": t("param")}], "ret": t("ret"), "do": None}}, "pools": {"p": {"type": t("pool")}}, "cells": {"c": {"type": t("cell"), "init": None}},
                   "output": t("output"), "input": t("input")}
            for flip in (False, True):
                d = dict(reversed(list(doc.items()))) if flip else doc
                r = judge(ctx, case + [flip], d)
                if r:
                    inYaml(ctx, case + [flip], d, r[0])


def distinct(ctx):
    """Different documents are different trees: equality misses nothing."""
    docs = []
    for key, x in nestings(1, FORMS):
        docs.append(document("action", close(x, itertools.count())))
        for p, kind in walkPlaces(x):
            docs.append(document("action", close(put(x, p, {"string": "markOther"} if kind != "<b>" else [{"string": "markOther"}]), itertools.count())))
    for x in LEAVES[:-2]:
        docs.append(document("action", x))
    for section in SECTIONS:
        docs.append(document(section, ["x"]))
        docs.append(document(section, ["y"]))
    for k, vs in OPTIONAL.items():
        for v in vs:
            if v is not None and not (k == "method" and v == "fold"):
                docs.append(dict(document("action", ["x"]), **{k: v}))
    base = document("action", ["x"])
    for i, s in enumerate(STORES):
        docs.append(dict(base, cells={"c": s}))
        docs.append(dict(base, pools={"p": dict(s, init={"a": s["init"]})}))
    for where, doc in typePlaces("long"):
        docs.append(doc)
    for where, doc in typePlaces("float"):
        docs.append(doc)
    for d in docs:
        if d.get("begin") == ["markA"]:
            d["begin"] = [["markA"]]
    norms, asts = [], []
    for d in docs:
        got = outcome(jsonToAst, d)
        norms.append(norm(d))
        asts.append(got[1] if got[0] == "ok" else None)
    for i in range(len(docs)):
        case = ["distinct", i]
        if not ctx.want(case):
            continue
        if asts[i] is None:
            ctx.fail(case, "not read: %s" % json.dumps(docs[i])[:300])
            continue
        for j in range(len(docs)):
            if asts[j] is None:
                continue
            ctx.transitions += 1
            want, got = lenient(norms[i]) == lenient(norms[j]), asts[i] == asts[j]
            if want != got:
                ctx.fail(case, "%s and %s are %s" % (json.dumps(docs[i])[:300], json.dumps(docs[j])[:300], "different" if want else "equal"))
                break


def lenient(x):
    return repr(x).replace("'-0.0'", "'0.0'")


PROGRAMS = [
    ("int", "int", ["+", "input", 1], {}), 
]


def P(i, o, action, **kw):
    return dict({"name": "n", "input": i, "output": o, "action": action}, **kw)


A, M = U.arr, U.mp
PROGRAMS = [
    P("int", "int", {"+": ["input", 1]}),
    P("double", "double", [{"let": {"x": {"*": ["input", 2]}, "y": 3.0}}, {"set": {"x": {"+": ["x", "y"]}}}, "x"]),
    P(A("int"), A("int"), {"a.map": ["input", {"params": [{"x": "int"}], "ret": "int", "do": [{"let": {"y": "x"}}, {"+": ["y", "x"]}]}]}),
    P(A("int"), "int", {"a.reduce": ["input", {"fcn": "u.f"}]}, fcns={"f": {"params": [{"x": "int"}, {"y": "int"}], "ret": "int", "do": {"-": ["x", "y"]}}}),
    P(A("int"), A("int"), {"a.map": ["input", {"fcn": "u.f", "fill": {"y": 10}}]}, fcns={"f": {"params": [{"x": "int"}, {"y": "int"}], "ret": "int", "do": {"-": ["x", "y"]}}}),
    P("int", "string", {"if": {">": ["input", 0]}, "then": ["pos"], "else": [{"log": ["input"]}, ["neg"]]} if False else {"if": {">": ["input", 0]}, "then": {"string": "pos"}, "else": {"string": "neg"}}),
    P("int", "int", {"cond": [{"if": {"<": ["input", 0]}, "then": -1}, {"if": {"==": ["input", 0]}, "then": [{"do": [0]}]}], "else": 1}),
    P("int", "int", [{"let": {"i": 0}}, {"while": {"<": ["i", "input"]}, "do": {"set": {"i": {"+": ["i", 2]}}}}, {"do": {"set": {"i": {"+": ["i", 1]}}}, "until": {">": ["i", 3]}}, "i"]),
    P("int", "int", [{"let": {"s": 0}}, {"for": {"i": 0, "j": 1}, "while": {"<": ["i", "input"]}, "step": {"i": {"+": ["i", "j"]}, "j": {"+": ["j", 1]}}, "do": {"set": {"s": {"+": ["s", "i"]}}}}, "s"]),
    P(A("int"), "int", [{"let": {"s": 0}}, {"foreach": "x", "in": "input", "do": {"set": {"s": {"-": ["x", "s"]}}}}, "s"]),
    P(M("int"), "int", [{"let": {"s": 0}}, {"forkey": "k", "forval": "x", "in": "input", "do": {"set": {"s": {"+": ["x", {"s.len": "k"}]}}}}, "s"]),
    P(["int", "string", "null"], "int", {"cast": "input", "cases": [{"as": "int", "named": "x", "do": "x"}, {"as": "string", "named": "x", "do": {"s.len": "x"}}, {"as": "null", "named": "x", "do": -1}]}),
    P(["int", "string"], ["null", "int"], {"cast": "input", "cases": [{"as": "int", "named": "x", "do": "x"}], "partial": True} if False else {"cast": "input", "cases": [{"as": "int", "named": "x", "do": "x"}, {"as": "string", "named": "x", "do": None}]}),
    P(["null", "int"], "int", {"ifnotnull": {"x": "input"}, "then": {"+": ["x", 1]}, "else": 0}),
    P("int", "double", {"upcast": "input", "as": "double"}),
    P(U.REC, "int", "input.x"), P(U.REC, "Rec", {"attr": "input", "path": [["x"]], "to": {"params": [{"o": "int"}], "ret": "int", "do": {"+": ["o", 1]}}}),
    P("int", "Rec", {"type": U.REC, "new": {"x": "input", "y": ["lit"]}}), P("int", A("int"), {"type": A("int"), "new": ["input", 3, "input"]}), P("int", M("int"), {"type": M("int"), "new": {"a": "input"}}),
    P("int", "int", [{"cell": "c", "to": {"params": [{"o": "int"}], "ret": "int", "do": {"+": ["o", "input"]}}}, {"cell": "c"}], cells={"c": {"type": "int", "init": 5, "rollback": True}}),
    P("string", "int", [{"pool": "p", "path": ["input"], "to": {"params": [{"o": "int"}], "ret": "int", "do": {"+": ["o", 1]}}, "init": 10}, {"pool": "p", "path": ["input"]}], pools={"p": {"type": "int", "init": {"a": 3}}}),
    P("string", "int", [{"pool": "p", "del": "input"}, {"try": {"pool": "p", "path": [["a"]]}}, 3], pools={"p": {"type": "int", "init": {"a": 3}}}),
    P("int", "int", [{"emit": "input"}, {"emit": {"+": ["input", 1]}}], method="emit"),
    P("int", "int", {"+": ["tally", "input"]}, method="fold", zero=0, merge={"+": ["tallyOne", "tallyTwo"]}),
    P("int", ["null", "int"], {"try": {"if": {">": ["input", 1]}, "then": {"error": "big", "code": -3}, "else": "input"}, "filter": [-3]}),
    P("int", ["null", "int"], {"try": [{"a.head": {"new": [], "type": A("int")}}, 3], "filter": ["nothing"]}), P("int", "int", [{"log": ["input", ["x"]], "namespace": "some"}, {"log": "input"}, {"doc": "words"}, "input"]),
    P("int", "bytes", {"pack": [{"int32": "input"}, {"pad": 0}] if False else [{"int32": "input"}]}), P("bytes", ["null", "int"], {"unpack": "input", "format": [{"x": "int32"}], "then": "x", "else": -1}),
    P("int", "string", [{"call": {"type": U.rec("Nothing"), "value": {}}, "args": []}] if False else {"call": {"new": [], "type": A("int")}, "args": []} if False else {"s.concat": ["name", {"s.int": [{"+": ["input", 1]}]}]}),
    P(U.ENUM, "int", {"call": "input", "args": [3]}, fcns={"red": {"params": [{"x": "int"}], "ret": "int", "do": "x"}, "green": {"params": [{"x": "int"}], "ret": "int", "do": {"u-": "x"}}, "blue": {"params": [{"x": "int"}], "ret": "int", "do": {"error": "none"}}}),
    P("null", "double", {"rand.gaussian": [0, 1]}, randseed=12345), P("null", "string", {"metadata": 0} if False else {"attr": "metadata", "path": [["a"]]}, metadata={"a": "b"}), P("null", "int", "version", version=7),
    P("null", "int", {"cell": "c"}, begin={"cell": "c", "to": 7}, end={"cell": "c", "to": 8}, cells={"c": {"type": "int", "init": 5}}), P(U.TREE, "Tree", "input"), P("bytes", "bytes", {"base64": "AP+A"}), P("null", "long", 2147483648),
    P("null", "float", {"float": 0.1}), P("null", "double", 0.1), P("null", "long", {"long": 3}), P("null", ["null", "int", "string"], {"type": ["null", "int", "string"], "value": {"string": "x"}}),
]


def programs(ctx, part, parts):
    for i, doc in enumerate(PROGRAMS):
        if i % parts != part:
            continue
        case = ["program", i]
        if not ctx.want(case):
            continue
        ctx.nontrivial += 1
        first = tryMake(doc)
        if first[0] != "ok":
            ctx.fail(case, "not accepted: %s" % show(first))
            continue
        r = judge(ctx, case, doc)
        if not r:
            continue
        ast, back = r
        others = {"written": lambda: PFAEngine.fromJson(ast.toJson(False)), "numbered": lambda: PFAEngine.fromJson(ast.toJson(True)), "tree": lambda: PFAEngine.fromAst(ast),
                  "replaced": lambda: PFAEngine.fromAst(ast.replace(Find(lambda x: False))), "yaml": lambda: PFAEngine.fromYaml(yamlText(doc, "block")), "flow": lambda: PFAEngine.fromYaml(yamlText(doc, "flow"))}
        inputs = U.values(doc["input"], 1)[:6]
        a = run(first[1], doc, inputs)
        for name, make_ in others.items():
            e = outcome(make_)
            if e[0] != "ok":
                ctx.fail(case, "%s: no engine: %s" % (name, show(e)))
                continue
            b = run(e[1][0], doc, inputs)
            ctx.transitions += len(inputs)
            if repr(a) != repr(b):
                ctx.fail(case, "%s: %s, should be %s" % (name, b, a))
            # an engine's own copy of its document
            c = e[1][0].config
            if json.loads(c.toJson(False)) != json.loads(ast.toJson(False)):
                ctx.fail(case, "%s: the engine's document differs" % name)


def run(engine, doc, inputs):
    logs, emits = [], []
    engine.log = lambda v, ns: logs.append((U.raw(list(v)), ns))
    if doc.get("method") == "emit":
        engine.emit = emits.append
    out = [outcome(engine.begin)]
    for x in inputs:
        r = outcome(engine.action, x)
        out.append((r[0], U.raw(r[1]) if r[0] == "ok" else r[1:]))
    out.append(outcome(engine.end))
    return out, logs, [U.raw(x) for x in emits]


def tasks(tier):
    out = []
    for s in SECTIONS:
        out.append(("%s 1" % s, nested, (1, s, 0, 1)))
        out += [("%s 2 %d" % (s, i), nested, (2, s, i, 3)) for i in range(3)]
    if tier == "thorough":
        out += [("%s 3 %d" % (s, i), nested, (3, s, i, 40)) for s in ("action", "merge") for i in range(40)]
    out += [("literals", literals, ()), ("stores", stores, ()), ("sources", sources, ()), ("orders", orders, ()), ("distinct", distinct, ())]
    out += [("options %d" % i, options, (i, 4)) for i in range(4)]
    out += [("types %d" % i, typesIn, (i, 4)) for i in range(4)]
    out += [("programs %d" % i, programs, (i, 4)) for i in range(4)]
    return out
