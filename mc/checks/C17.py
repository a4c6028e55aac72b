"""C17: ill-formed documents are refused: every single fault in every form, section and place."""
import itertools
import json

from titus.reader import jsonToExpressionAst
from titus.errors import PFASyntaxException
from titus.genpy import PFAEngine

from mc.eng import *
from mc import universe as U
from mc.checks import C08

LEVEL = "exploration"
RULE = ("a case is one document with one fault, put next to the same document without it: keys: every set of up to three (thorough: four) keys of special forms; forms: every form with every key left out, every other "
        "key added and every ill-shaped value in every place, nested in every section; document: every top-level, cell, pool, function and parameter field left out, unknown or of the wrong shape, every combination of "
        "method, zero and merge; sections: every predefined symbol read, assigned and redeclared in every section; names: every kind of name with every ill-formed name; places: every place that wants a certain type "
        "with every type of the universe; values: every literal, initial value and zero with every deviation from its type; text: every cut of and every character left out of a document; non-trivial: a faulty document")
ASSUMPTIONS = ["names of engines are not checked", "text that is no JSON may be refused by the JSON parser"]

ENUM = {"type": "enum", "name": "Fs", "symbols": ["f", "h"]}
REC = U.rec("Rec", ("x", "int"), ("y", "string"))
IN = U.rec("In", ("i", "int"), ("l", "long"), ("d", "double"), ("s", "string"), ("b", "boolean"), ("y", "bytes"), ("n", ["null", "int"]), ("e", ["int", "string"]), ("a", U.arr("int")), ("m", U.mp("int")), ("r", REC), ("k", ENUM))
FCN = {"params": [{"o": "int"}], "ret": "int", "do": "o"}
BASE = {"name": "E", "input": IN, "output": "int", "cells": {"c": {"type": "int", "init": 0}, "v": {"type": U.arr("int"), "init": []}}, "pools": {"p": {"type": "int", "init": {"q": 1}}},
        "fcns": {"f": {"params": [{"x": "int"}], "ret": "int", "do": ["x"]}, "h": {"params": [{"x": "int"}], "ret": "int", "do": ["x"]}, "g": {"params": [{"x": "int"}, {"z": "int"}], "ret": "int", "do": ["x"]}}}

# shapes: E expression, A argument, B block, L list of expressions, M map of symbols to expressions, N map of fields to expressions, S string, Y symbol, I negative int, O boolean, T type, J json
# each form: (key -> (shape, good value)), the optional keys
BOOL, ONE = {"<": ["input.i", 3]}, {"+": ["input.i", 1]}
FORMS = [
    ({"do": ("B", [ONE])}, ()),
    ({"let": ("M", {"w": ONE})}, ()),
    ({"attr": ("E", "input"), "path": ("L", [["a"], 0])}, ()),
    ({"attr": ("E", "input"), "path": ("L", [["a"], 0]), "to": ("A", ONE)}, ()),
    ({"attr": ("E", "input"), "path": ("L", [["a"], 0]), "to": ("A", FCN)}, ()),
    ({"cell": ("S", "c")}, ()), ({"cell": ("S", "v"), "path": ("L", [0])}, ()), ({"cell": ("S", "c"), "to": ("A", ONE)}, ()), ({"cell": ("S", "v"), "path": ("L", ["input.i"]), "to": ("A", FCN)}, ()),
    ({"pool": ("S", "p"), "path": ("L", ["input.s"])}, ()), ({"pool": ("S", "p"), "path": ("L", ["input.s"]), "to": ("A", FCN), "init": ("E", ONE)}, ()), ({"pool": ("S", "p"), "del": ("E", "input.s")}, ()),
    ({"if": ("E", BOOL), "then": ("B", [ONE])}, ()), ({"if": ("E", BOOL), "then": ("B", [ONE]), "else": ("B", ONE)}, ()),
    ({"cond": ("C", [{"if": BOOL, "then": ONE}])}, ()), ({"cond": ("C", [{"if": BOOL, "then": ONE}]), "else": ("B", [ONE])}, ()),
    ({"while": ("E", BOOL), "do": ("B", [ONE])}, ()), ({"do": ("B", [ONE]), "until": ("E", BOOL)}, ()),
    ({"for": ("M", {"w": 0}), "while": ("E", BOOL), "step": ("P", {"w": ONE}), "do": ("B", [ONE])}, ()),
    ({"foreach": ("Y", "w"), "in": ("E", "input.a"), "do": ("B", [ONE]), "seq": ("O", True)}, ("seq",)),
    ({"forkey": ("Y", "w"), "forval": ("Y", "u"), "in": ("E", "input.m"), "do": ("B", [ONE])}, ()),
    ({"cast": ("E", "input.e"), "cases": ("K", [{"as": "int", "named": "w", "do": ONE}, {"as": "string", "named": "u", "do": [ONE]}]), "partial": ("O", False)}, ("partial",)),
    ({"upcast": ("E", "input.i"), "as": ("T", "double")}, ()),
    ({"ifnotnull": ("M", {"w": "input.n"}), "then": ("B", [ONE])}, ()), ({"ifnotnull": ("M", {"w": "input.n"}), "then": ("B", [ONE]), "else": ("B", [ONE])}, ()),
    ({"pack": ("Q", [{"int": ONE}])}, ()), ({"unpack": ("E", "input.y"), "format": ("F", [{"w": "int"}]), "then": ("B", [ONE])}, ()),
    ({"unpack": ("E", "input.y"), "format": ("F", [{"w": "int"}]), "then": ("B", [ONE]), "else": ("B", [ONE])}, ()),
    ({"doc": ("S", "words")}, ()), ({"error": ("S", "words")}, ()), ({"error": ("S", "words"), "code": ("I", -3)}, ()),
    ({"try": ("b", [ONE])}, ()), ({"try": ("b", [ONE]), "filter": ("G", ["x", -3])}, ()), ({"log": ("l", [ONE])}, ()), ({"log": ("l", [ONE]), "namespace": ("S", "ns")}, ()),
    ({"call": ("E", "input.k"), "args": ("L", [ONE])}, ()), ({"new": ("n", [ONE]), "type": ("T", U.arr("int"))}, ()), ({"new": ("N", {"x": ONE, "y": "input.s"}), "type": ("T", "Rec")}, ()),
    ({"new": ("V", {"q": ONE}), "type": ("T", U.mp("int"))}, ()), ({"type": ("T", "int"), "value": ("J", 3)}, ()), ({"u.f": ("a", [ONE])}, ()), ({"a.map": ("a2", ["input.a", FCN])}, ()),
    ({"int": ("i", 3)}, ()), ({"long": ("i", 3)}, ()), ({"float": ("f", 2.5)}, ()), ({"double": ("f", 2.5)}, ()), ({"string": ("S", "x")}, ()), ({"base64": ("6", "AAAA")}, ()),
]
BIG = 2 ** 70
BADE = ["bad name", "", "nosuch", "input.nosuch", "nosuch.x", [], [1, 2], [["x"]], {}, {"nosuch.function": 1}, {"fcn": "u.f"}, FCN, BIG, ["x", "y"], {"@": "here"}, {"u.nosuch": []}, {"int": 1, "long": 1}]
BADT = ["nosuch", None, 0, True, {}, {"type": "array"}, {"type": "map"}, ["int", "int"], [["int"], "null"], {"type": "nosuch"}, {"type": "record", "name": "Q1"}, {"type": "enum", "name": "Q2"},
        {"type": "enum", "name": "Q3", "symbols": ["a", "a"]}, {"type": "fixed", "name": "Q4"}, {"type": "fixed", "name": "Q5", "size": -1}, {"type": "fixed", "name": "Q5", "size": "1"}, {"type": "array", "items": "nosuch"}, ["null", "nosuch"],
        {"type": "record", "name": "Q6", "fields": [{"name": "x", "type": "int"}, {"name": "x", "type": "int"}]}, {"type": "record", "name": "Q7", "fields": [{"name": "x"}]}, {"type": "record", "name": "Q8", "fields": [{"type": "int"}]},
        {"type": "record", "fields": []}, {"type": "record", "name": "1bad", "fields": []}, {"type": "record", "name": "Q9", "fields": [{"name": "1x", "type": "int"}]},
        {"type": "enum", "name": "Q10", "symbols": ["a b"]}, {"type": "enum", "name": "Q11", "symbols": [1]}, {"type": "array", "items": ["int", "int"]}, [U.arr("int"), U.arr("string")], ["int", "nosuch"], {"type": None}, {"type": 1}, "Int", "arrays", "INT"]
BADNAME = ["", "1x", "a b", "a.b", "é", "x-y", "x\n", "$x", " x", "x ", "a:b"]
NOTSTRING = [None, True, 0, 1.5, ["x"], {}, {"string": "x"}, []]


def bad(shape):
    if shape in ("E", "A"):
        return [x for x in BADE if shape == "E" or x != FCN and x != {"fcn": "u.f"}] + ([{"params": [], "ret": "int"}, {"fcn": "nosuch"}, {"fcn": "u.f", "fill": {}}, {"fcn": "u.f", "fill": {"nosuch": 1}}, {"fcn": "f"}] if shape == "A" else [])
    if shape in ("B", "l", "b"):
        lists = [[x] for x in BADE if x not in ([], )]
        return [x for x in BADE if x not in ([], [1, 2], [["x"]], ["x", "y"])] + lists + [["x"], ["nosuch", 1], [1, "nosuch"], [[], 1]] + ([[]] if shape == "B" else [])
    if shape == "L":
        return [None, True, 0, 1.5, "input.i", {}, {"string": "x"}] + [[x] for x in BADE if x != []] + [[[]]]
    if shape in ("a", "a2"):
        one = [[x] for x in BADE if x not in ([], FCN, {"fcn": "u.f"})] + [[[]], [], [1, 1], ["input.s"]]
        return one if shape == "a" else [["input.a", x] for x in BADE if x not in (FCN, {"fcn": "u.f"})] + [["input.a"], [FCN, "input.a"], ["input.i", FCN], ["input.a", {"fcn": "u.g"}], ["input.a", FCN, FCN], FCN]
    if shape in ("M", "P", "N", "V"):
        out = [None, True, 0, 1.5, "input.i", [], ["x"]] + [dict([("w" if shape in "MP" else "x", x)] + ([("y", "input.s")] if shape == "N" else [])) for x in BADE]
        if shape in ("M", "P"):
            out += [{}] + [{n: "input.n"} for n in BADNAME]
        if shape == "M":
            out += [{"input": "input.n"}] if False else []
        if shape == "P":
            out += [{"nosuch": 1}, {"w": "input.s"}]
        if shape == "N":
            out += [{}, {"x": 1}, {"x": 1, "y": "input.s", "z": 1}, {"x": "input.s", "y": "input.s"}]
        return out
    if shape == "n":
        return [None, True, 0, "input.a"] + [[x] for x in BADE if x != []] + [[[]], ["input.s"], [1, "input.s"], [None]]
    if shape == "S":
        return NOTSTRING
    if shape == "Y":
        return NOTSTRING + BADNAME + ["input"]
    if shape == "I":
        return [None, True, 1.5, "x", [], {}, 0, 3, BIG, -BIG, -2147483649]
    if shape == "i":
        return [None, True, False, 1.5, "x", "3", [], {}, BIG, -BIG]
    if shape == "f":
        return [None, True, False, "x", "2.5", [], {}]
    if shape == "6":
        return NOTSTRING + ["A", "AAA", "A===", "AA", "AAAAA"]
    if shape == "O":
        return [None, 0, 1, "true", [], {}]
    if shape == "T":
        return BADT
    if shape == "C":
        return [None, 0, "x", {}, [], {"if": BOOL, "then": ONE}, [1], ["x"], [["x"]], [{"if": BOOL}], [{"then": ONE}], [{"if": BOOL, "then": ONE, "else": ONE}], [{"if": ONE, "then": ONE}], [{"if": BOOL, "then": []}], [{"do": ONE}], [FCN],
                [{"if": BOOL, "then": ONE}, {"if": "nosuch", "then": ONE}], [{"if": BOOL, "then": ONE}, {"if": BOOL, "then": "nosuch"}], [{"if": BOOL, "then": ONE}, 3]]
    if shape == "K":
        i, s = {"as": "int", "named": "w", "do": ONE}, {"as": "string", "named": "u", "do": [ONE]}
        return [None, 0, "x", {}, [], i, [i], [s], [1], [i, {"as": "string", "named": "u"}], [i, {"as": "string", "do": ONE}], [i, {"named": "u", "do": ONE}], [i, dict(s, nosuch=1)], [i, dict(s, named="1x")], [i, dict(s, do=[])], [i, dict(s, do="w")],
                [i, s, {"as": "double", "named": "v", "do": ONE}] if False else [i, s, {"as": "bytes", "named": "v", "do": ONE}], [i, s, {"as": "null", "named": "v", "do": ONE}], [i, {"as": "boolean", "named": "u", "do": ONE}], [i, dict(s, named=3)], [dict(i, **{"as": "nosuch"}), s]]
    if shape == "Q":
        return [None, 0, "x", {}, {"int": ONE}, [], [{}], [1], ["x"], [{"nosuch": ONE}], [{"int": "input.s"}], [{"int": "nosuch"}], [{"int": ONE, "long": ONE}], [{"raw": ONE}], [{"int": FCN}], [{"raw3": "input.i"}], [{"boolean": ONE}], [{"rawx": "input.y"}]]
    if shape == "F":
        return [None, 0, "x", {}, {"w": "int"}, [], [{}], [1], ["x"], [{"w": "nosuch"}], [{"w": "int", "u": "int"}], [{"1x": "int"}], [{"input": "int"}], [{"w": 3}], [{"w": "raw"}], [{"w": "rawx"}], [{"w": "int"}, {"w": "int"}]]
    if shape == "G":
        return [None, 0, "x", {}, [1.5], [None], [["x"]], [{}], [True]]
    return []


def verdict(ctx, case, doc, want, text=None):
    """want: True accepted, False refused, None either, as long as nothing breaks."""
    r = tryMake(doc if isinstance(doc, str) or case[:2] == ["document", "two types"] else once(doc))
    ctx.transitions += 1
    ctx.outcome((r[0], want))
    if want is False:
        ctx.nontrivial += 1
    if r[0] == "bad" and r[1].startswith(("AvroException", "SchemaParseException")):
        r = ("schema", r[1])
    if r[0] == "bad":
        ctx.fail(case, "%s: making the engine ends in %s" % (text or show(case), r[1]), "breaks:" + r[1].split(":")[0] + ":" + show(case, 120))
    elif want is not None and want != (r[0] == "ok"):
        ctx.fail(case, "%s is %s" % (text or show(case), "accepted" if r[0] == "ok" else "refused: " + r[1][:300]), "wrong:" + show(case, 150))
    return r


def inside(section, x):
    """A document with the statement in one of its sections."""
    d = dict(BASE, action=[0])
    if section == "action":
        return dict(d, action=[x, 0])
    if section == "nested":
        return dict(d, action=[{"if": True, "then": {"do": [{"foreach": "each", "in": {"type": U.arr("int"), "value": [1]}, "do": [x, 0]}]}}, 0])
    if section == "inline":
        return dict(d, action=[{"a.map": [{"type": U.arr("int"), "value": [1]}, {"params": [{"each": "int"}], "ret": "int", "do": [x, 0]}]}, 0])
    if section == "fcns":
        return dict(d, fcns=dict(BASE["fcns"], t={"params": [{"input": "In"}], "ret": "int", "do": [x, 0]}))
    need = {"let": {"input": {"type": "In", "value": U.values(IN, 1)[0]}}}
    if section == "begin":
        return dict(d, begin=[need, x])
    if section == "end":
        return dict(d, end=[need, x])
    return dict(d, method="fold", zero=0, merge=[need, x, 0])


SECTIONS = ["action", "nested", "inline", "fcns", "begin", "end", "merge"]
KNOWN = [frozenset(k) for f, opt in FORMS for n in range(len(opt) + 1) for out in itertools.combinations(opt, n) for k in [set(f) - set(out)]] + [frozenset(x.split()) for x in ("params ret do", "fcn", "fcn fill", "set", "cell path", "cell path to")]
SPECIAL = {"params": [{"x": "int"}], "ret": "int", "fcn": "u.f", "fill": {"x": 1}, "set": {"w": 1}}
for f, opt in FORMS:
    for k in f:
        SPECIAL.setdefault(k, f[k][1])


def calls(s):
    return any("." in k for k in s)


def keys(ctx, part, parts):
    """Which sets of keys are special forms."""
    special = sorted(k for k in SPECIAL if "." not in k) + ["named", "source"]
    for n in range(0, (5 if ctx.thorough else 4)):
        for i, s in enumerate(itertools.combinations(special, n)):
            if i % parts != part or n == 4 and i % 2 != 0 and not ctx.thorough:
                continue
            case = ["keys"] + list(s)
            if not ctx.want(case):
                continue
            ctx.transitions += 1
            form = frozenset(s) in KNOWN
            call = len(s) == 1 and s[0] in ("named", "source")          # function names like any others
            try:
                jsonToExpressionAst(dict((k, SPECIAL.get(k, 1)) for k in s)) if not s or s[0] not in ("params", "fcn") and "params" not in s and "fcn" not in s else PFAEngine
                got = "ok"
            except PFASyntaxException:
                got = "syntax"
            except Exception as err:
                got = "%s: %s" % (type(err).__name__, err)
            if "params" in s or "fcn" in s:
                r = tryMake(once(inside("action", {"a.map": ["input.a", dict((k, SPECIAL.get(k, 1)) for k in s)]}))) if n < 4 else ("syntax", "")
                got = "ok" if r[0] == "ok" else "syntax" if r[0] in ("syntax", "semantic") else r[1]
                form = frozenset(s) in (frozenset(["params", "ret", "do"]), frozenset(["fcn"]))
                if frozenset(s) == frozenset(["fcn", "fill"]):
                    continue
            if form != (got == "ok") and not call or got not in ("ok", "syntax"):
                ctx.fail(case, "a form of %s is %s" % (", ".join(s), got), "keys:" + ",".join(s) + ":" + got[:30])
            if not form:
                ctx.nontrivial += 1
    ctx.note("")


def forms(ctx, part, parts):
    n = 0
    for form, opt in FORMS:
        good = dict((k, v) for k, (shape, v) in form.items())
        name = "+".join(sorted(form))
        for section in SECTIONS:
            n += 1
            if n % parts != part:
                continue
            case = ["form", name, section]
            if ctx.want(case):
                verdict(ctx, case, inside(section, good), True)
            changed = []
            for k in form:
                rest = dict((j, v) for j, v in good.items() if j != k)
                if frozenset(rest) not in KNOWN:
                    changed.append(("without " + k, rest))
            for k in sorted(SPECIAL) + ["nosuch"]:
                if k not in form and frozenset(list(form) + [k]) not in KNOWN:
                    changed.append(("with " + k, dict(good, **{k: SPECIAL.get(k, 1)})))
            few = section == "action" or ctx.thorough
            for j, (what, x) in enumerate(changed):
                if few or j % 5 == n % 5:
                    c = case + [what]
                    if ctx.want(c):
                        verdict(ctx, c, inside(section, x), False)
            for k, (shape, v) in form.items():
                for j, b in enumerate(bad(shape)):
                    if few or j % 7 == n % 7:
                        c = case + [k, b]
                        if ctx.want(c):
                            if name == "ifnotnull+then" and b == {"w": FCN} and False:
                                continue
                            verdict(ctx, c, inside(section, dict(good, **{k: b})), False)
        if ctx.full():
            return


TOP = {"name": NOTSTRING, "method": NOTSTRING + ["nosuch", "MAP", "", "fold"], "input": BADT, "output": BADT, "begin": bad("l"), "action": bad("B"), "end": bad("l"),
       "fcns": [None, 0, "x", [], [1], {"t": None}, {"t": 1}, {"t": {}}, {"t": ONE}, {"t": {"fcn": "u.f"}}] + [{n: FCN} for n in ["", "1x", "a b", "a..b", "a.", ".a", "a.1", "é", "f\n", "x-y", "$f"]],
       "zero": [0], "merge": [[1]], "cells": [None, 0, "x", [], {"t": None}, {"t": 1}, {"t": {}}] + [{n: {"type": "int", "init": 0}} for n in BADNAME], "pools": [None, 0, "x", [], {"t": None}, {"t": 1}, {"t": {}}] + [{n: {"type": "int"}} for n in BADNAME],
       "randseed": [None, True, 1.5, "1", [], {}, BIG, -BIG], "doc": NOTSTRING, "version": [None, True, 1.5, "1", [], {}, BIG, 2147483648], "metadata": [None, 0, "x", [], ["x"], {"x": 1}, {"x": None}, {"x": {}}, {"x": ["y"]}], "options": [None, 0, "x", [], ["x"], {"timeout": "x"}, {"timeout": None}, {"timeout": True}, {"timeout": []}]}
GOODTOP = {"name": ["E", "e_1"], "method": ["map"], "begin": [[], ONE, [ONE]], "end": [[], ONE, [ONE]], "fcns": [{}] + [{n: FCN} for n in ("t", "a.b", "a_b.c1", "f_", "T")], "cells": [{}, {"_": {"type": "int", "init": 0}}, {"x1": {"type": "int", "init": 0}}], "pools": [{}, {"_": {"type": "int"}}],
           "randseed": [0, -1, 2 ** 63 - 1, -2 ** 63], "doc": ["", "x"], "version": [0, 1, -1, 2147483647], "metadata": [{}, {"x": "y"}], "options": [{}, {"timeout": 1000}, {"timeout.action": 1000}]}


def document(ctx):
    d = {"name": "E", "input": "int", "output": "int", "action": ["input"]}
    c = ["document"]
    if ctx.want(c):
        verdict(ctx, c, d, True)
    for k in d:
        c = ["document", "without", k]
        if ctx.want(c):
            verdict(ctx, c, dict((j, v) for j, v in d.items() if j != k), k == "name")
    for k in ["nosuch", "Name", "inputs", "cell", "zeros", ""]:
        c = ["document", "with", k]
        if ctx.want(c):
            verdict(ctx, c, dict(d, **{k: 1}), False)
    for where in ("begin", "end"):
        for x in GOODTOP[where]:
            c = ["document", where, x]
            if ctx.want(c):
                verdict(ctx, c, dict(d, **{where: x if x == [] else 1 if x is ONE else [1]}), True)
    for k, xs in TOP.items():
        for x in xs:
            c = ["document", k, x]
            if ctx.want(c):
                verdict(ctx, c, dict(d, **{k: x}), False)
    for k, xs in GOODTOP.items():
        for x in xs:
            c = ["document", k, x]
            if k not in ("begin", "end") and ctx.want(c):
                verdict(ctx, c, dict(d, **{k: x}), True)
    for x in [None, 0, 1.5, "x", True, [], [d], {}]:
        c = ["document", x]
        if ctx.want(c):
            verdict(ctx, c, json.dumps(x), False)
    for method, zero, merge in itertools.product(("map", "emit", "fold", None), (0, None, "x", "absent"), ([{"+": ["tallyOne", "tallyTwo"]}], [], 0, ["input"], ["tally"], [["x"]], "absent")):
        c = ["document", "method", method, zero, merge]
        if ctx.want(c):
            x = dict(d, action=[{"emit": "input"}, 0] if method == "emit" else ["input"])
            for k, v in (("method", method), ("zero", zero), ("merge", merge)):
                if v != "absent" and not (k == "method" and v is None):
                    x[k] = v
            if method == "fold":
                want = zero == 0 and zero is not None and merge in ([{"+": ["tallyOne", "tallyTwo"]}], 0)
            else:
                want = None if (zero is None or zero == "absent") and merge == "absent" and zero is None else zero == "absent" and merge == "absent"
            verdict(ctx, c, x, want)
    # cells and pools
    for kind in ("cells", "pools"):
        init = 1 if kind == "cells" else {"q": 1}
        wrong = {"type": BADT, "init": ["x", None, 1.5, [], True, 2147483648] if kind == "cells" else [None, 0, "x", [], {"q": "x"}, {"q": None}, {"q": {}}], "shared": [None, 0, "true", [], {}], "rollback": [None, 0, "true", [], {}], "source": NOTSTRING + ["nosuch", "", "Embedded"], "nosuch": [1]}
        fine = {"type": "int", "init": init}
        for sh, rb, so, ini in itertools.product((True, False, "absent"), (True, False, "absent"), ("embedded", "absent"), (True, False)):
            c = ["document", kind, sh, rb, so, ini]
            if ctx.want(c):
                p = dict((k, v) for k, v in (("type", "int"), ("init", init if ini else "absent"), ("shared", sh), ("rollback", rb), ("source", so)) if v != "absent")
                verdict(ctx, c, dict(d, **{kind: {"t": p}}), not (sh is True and rb is True) and (ini or kind == "pools"))
        for k in fine:
            c = ["document", kind, "without", k]
            if ctx.want(c):
                verdict(ctx, c, dict(d, **{kind: {"t": dict((j, v) for j, v in fine.items() if j != k)}}), kind == "pools" and k == "init")
        for k, xs in wrong.items():
            for x in xs:
                c = ["document", kind, k, x]
                if ctx.want(c):
                    verdict(ctx, c, dict(d, **{kind: {"t": dict(fine, **{k: x})}}), False)
    # one name stands for one type
    for first, second in itertools.permutations((REC, U.rec("Rec", ("x", "int")), U.rec("Rec", ("y", "string"), ("x", "int")), {"type": "enum", "name": "Rec", "symbols": ["x"]}, {"type": "fixed", "name": "Rec", "size": 4}), 2):
        for where in ("output", "cells", "pools", "params", "nested"):
            c = ["document", "two types", first, second, where]
            if ctx.want(c):
                verdict(ctx, c, dict(d, input=first if where != "nested" else {"type": "record", "name": "Out", "fields": [{"name": "u", "type": first}, {"name": "v", "type": {"type": "array", "items": second}}]},
                                     output=second if where == "output" else "int", action=[{"error": "e"}] if where == "output" else [1], cells={"c": {"type": U.arr(second), "init": []}} if where == "cells" else {},
                                     pools={"c": {"type": second}} if where == "pools" else {}, fcns={"t": {"params": [{"x": second}], "ret": "int", "do": 1}} if where == "params" else {}), False)
    # functions
    f = {"params": [{"x": "int"}], "ret": "int", "do": ["x"]}
    wrong = {"params": [None, 0, "x", {}, {"x": "int"}, [1], ["x"], [{}], [{"x": "int", "y": "int"}], [{"x": "int"}, {"x": "int"}], [{"y": "int"}], [{"x%d" % i: "int"} for i in range(23)] + [{"x": "int"}]] + [[{n: "int"}] for n in BADNAME] + [[{"x": t}] for t in BADT],
             "ret": BADT + ["string", "null"], "do": [x for x in bad("B") if x != ["x"]] + ["input", "name", ["string"], {"emit": "x"}, {"cell": "c"}, [{"let": {"x": 1}}, 1], [{"set": {"x": 2}}, "y"]], "nosuch": [1], "name": ["t"]}
    for place in ("fcns", "inline"):
        put = lambda g: dict(d, fcns={"t": g}) if place == "fcns" else dict(d, action=[{"a.map": [{"type": U.arr("int"), "value": [1]}, g]}, 0])
        c = ["document", place]
        if ctx.want(c):
            verdict(ctx, c, put(f), True)
        for k in f:
            c = ["document", place, "without", k]
            if ctx.want(c):
                verdict(ctx, c, put(dict((j, v) for j, v in f.items() if j != k)), False)
        for k, xs in wrong.items():
            for x in xs:
                c = ["document", place, k, x]
                if ctx.want(c):
                    if place == "inline" and (k == "do" and x in ("input", "name", ["string"], ) or k == "ret" and x in ("string", "null")):
                        verdict(ctx, c, put(dict(f, **{k: x})), None if x != ["string"] or k != "do" else None)
                        continue
                    verdict(ctx, c, put(dict(f, **{k: x})), False)
    for count in (0, 1, 21, 22, 23):
        c = ["document", "parameters", count]
        if ctx.want(c):
            verdict(ctx, c, dict(d, fcns={"t": {"params": [{"x%d" % i: "int"} for i in range(count)], "ret": "int", "do": [0]}}), count <= 22)
    for g in ({"params": [{"x": "int"}], "ret": "int", "do": {"u.t": "x"}}, {"params": [{"x": "int"}], "ret": "int", "do": {"u.other": "x"}}):
        c = ["document", "recursion", sorted(g["do"])]
        if ctx.want(c):
            verdict(ctx, c, dict(d, fcns={"t": g, "other": {"params": [{"x": "int"}], "ret": "int", "do": {"u.t": "x"}}}), True)


def sections(ctx):
    """The symbols that each section has."""
    types = {"input": "int", "name": "string", "instance": "int", "version": "int", "metadata": U.mp("string"), "actionsStarted": "long", "actionsFinished": "long", "tally": "int", "tallyOne": "int", "tallyTwo": "int", "nosuch": "int"}
    always = ["name", "instance", "metadata"]
    for method, version, section, symbol in itertools.product(("map", "emit", "fold"), (True, False), ("begin", "action", "end", "merge", "fcns", "inline", "inner"), sorted(types)):
        if section == "merge" and method != "fold":
            continue
        where = "action" if section in ("inline", "inner") else section
        have = {"begin": always, "merge": always + ["tallyOne", "tallyTwo"], "action": always + ["input", "actionsStarted", "actionsFinished"], "end": always + ["actionsStarted", "actionsFinished"], "fcns": []}[where]
        have = have + (["version"] if version and where != "fcns" else []) + (["tally"] if method == "fold" and where in ("action", "end") else [])
        for use in ("read", "read as another", "set", "let", "loop", "parameter", "case"):
            c = ["sections", method, version, section, symbol, use]
            if not ctx.want(c):
                continue
            t, v = types[symbol], lit(types[symbol])
            there = symbol in have
            if use == "read":
                x, want = {"let": {"t": {"type": U.arr(t), "new": [symbol]}}}, there
            elif use == "read as another":
                x, want = {"let": {"t": {"type": U.arr("bytes"), "new": [symbol]}}}, False
            elif use == "set":
                x, want = {"set": {symbol: v}}, False
            elif use == "let":
                x, want = {"let": {symbol: v}}, not there
            elif use == "loop":
                x, want = {"foreach": symbol, "in": {"type": U.arr("int"), "value": []}, "do": 1}, not there
            elif use == "parameter":
                x, want = {"a.map": [{"type": U.arr("int"), "value": []}, {"params": [{symbol: "int"}], "ret": "int", "do": symbol}]}, True
            else:
                x, want = {"ifnotnull": {symbol: {"type": ["null", "int"], "value": None}}, "then": symbol, "else": 0}, True
            d = {"name": "E", "method": method, "input": "int", "output": "int", "action": [0]}
            if version:
                d["version"] = 3
            if method == "fold":
                d["zero"], d["merge"] = 0, [0]
            if section == "fcns":
                d["fcns"] = {"t": {"params": [], "ret": "int", "do": [x, 0]}}
            elif section == "inline":
                d["action"] = [{"a.map": [{"type": U.arr("int"), "value": []}, {"params": [{"each": "int"}], "ret": "int", "do": [x, 0]}]}, 0]
            elif section == "inner":
                d["action"] = [{"if": True, "then": [{"while": False, "do": [x, 0]}, 0]}, 0]
            else:
                d[section] = [x, 0]
            verdict(ctx, c, d, want)
    # emit belongs to emitting engines
    for method, section, given in itertools.product(("map", "emit", "fold"), ("begin", "action", "end", "merge", "fcns"), ("int", "string", "none", "two", "reference")):
        if section == "merge" and method != "fold":
            continue
        c = ["sections", "emit", method, section, given]
        if ctx.want(c):
            x = {"emit": {"int": [1], "string": [["x"]], "none": [], "two": [1, 1]}[given]} if given != "reference" else {"a.map": [{"type": U.arr("int"), "value": []}, {"fcn": "emit"}]}
            d = {"name": "E", "method": method, "input": "int", "output": "int", "action": [0]}
            if method == "fold":
                d["zero"], d["merge"] = 0, [0]
            if section == "fcns":
                d["fcns"] = {"t": {"params": [], "ret": "int", "do": [x, 0]}}
            else:
                d[section] = [x, 0]
            verdict(ctx, c, d, method == "emit" and given in ("int", "reference"))


def lit(t):
    return {"int": 1, "long": {"long": 1}, "string": ["x"]}.get(t if isinstance(t, str) else "") or {"type": t, "value": {}}


def names(ctx):
    good = ["x1", "_", "X", "_1", "self", "state", "scope", "do_", "lambda", "None", "é" * 0 + "u"]
    uses = [("let", lambda n: {"let": {n: 1}}), ("for", lambda n: {"for": {n: 1}, "while": False, "step": {n: 2}, "do": n}), ("foreach", lambda n: {"foreach": n, "in": "input.a", "do": n}), ("forkey", lambda n: {"forkey": n, "forval": "t", "in": "input.m", "do": n}),
            ("forval", lambda n: {"forkey": "t", "forval": n, "in": "input.m", "do": n}), ("case", lambda n: {"cast": "input.e", "cases": [{"as": "int", "named": n, "do": n}, {"as": "string", "named": "t", "do": 1}]}), ("ifnotnull", lambda n: {"ifnotnull": {n: "input.n"}, "then": n, "else": 1}),
            ("unpack", lambda n: {"unpack": "input.y", "format": [{n: "int"}], "then": n, "else": 1}), ("parameter", lambda n: {"a.map": ["input.a", {"params": [{n: "int"}], "ret": "int", "do": n}]}), ("reference", lambda n: {"do": [{"let": {"x1": 1}}, n]})]
    for (use, make), n, section in itertools.product(uses, good + BADNAME, SECTIONS):
        c = ["names", use, n, section]
        if ctx.want(c):
            if use == "reference" and (n != "x1" and n not in BADNAME):
                continue
            verdict(ctx, c, inside(section, make(n)), n in good)
    for (use, make), section in itertools.product(uses[:5] + uses[7:8], SECTIONS):
        for n in (["input"] if section != "fcns" else ["input"]):
            c = ["names", use, n, section, "redeclared"]
            if ctx.want(c):
                verdict(ctx, c, inside(section, make(n)), False)
    for use, x in (("forkey", {"forkey": "t", "forval": "t", "in": "input.m", "do": "t"}), ("cell", {"cell": "nosuch"}), ("cell to", {"cell": "nosuch", "to": 1}), ("pool", {"pool": "nosuch", "path": [["x"]]}), ("pool to", {"pool": "nosuch", "path": [["x"]], "to": FCN, "init": 1}),
                   ("pool del", {"pool": "nosuch", "del": ["x"]}), ("a pool as a cell", {"cell": "p"}), ("a cell as a pool", {"pool": "c", "path": [["x"]]}), ("function", {"u.nosuch": 1}), ("function", {"nosuch": 1}), ("function", {"m.nosuch": 1}), ("function", {"f": 1}), ("function", {"u.f": []}),
                   ("function", {"u.f": [1, 1]}), ("function", {"u.f": [["x"]]}), ("call", {"call": "input.k", "args": []}), ("call", {"call": "input.k", "args": [["x"]]}), ("call", {"call": "input.s", "args": [1]}), ("call", {"call": {"type": {"type": "enum", "name": "X1", "symbols": ["f", "nosuch"]}, "value": "f"}, "args": [1]}),
                   ("call", {"call": {"type": {"type": "enum", "name": "X1", "symbols": ["f", "g"]}, "value": "f"}, "args": [1]}), ("field", "input.nosuch"), ("field", "input.r.nosuch"), ("field", "input.i.x"), ("field", {"attr": "input", "path": [["nosuch"]]}), ("field", {"attr": "input", "path": ["input.s"]}),
                   ("field", {"attr": "input", "path": [0]}), ("field", {"attr": "input", "path": []}), ("field", {"attr": "input", "path": [["r"], ["x"], ["x"]]}), ("type", {"type": "Nosuch", "value": 1}), ("type", {"type": "ns.Rec", "new": {"x": 1, "y": ["x"]}}),
                   ("null let", {"let": {"t": {"error": "x"}}}), ("fcn let", {"let": {"t": FCN}}), ("pool path", {"pool": "p", "path": []}), ("pool path", {"pool": "p", "path": [0]}), ("cell path", {"cell": "c", "path": [0]}), ("cell path", {"cell": "v", "path": [["x"]]})):
        for section in SECTIONS:
            c = ["names", use, x, section]
            if ctx.want(c):
                verdict(ctx, c, inside(section, x), False)


TYPES = ["null", "boolean", "int", "long", "float", "double", "string", "bytes", U.arr("int"), U.arr("string"), U.arr(["null", "int"]), U.mp("int"), U.mp("string"), ["null", "int"], ["int", "null"], ["int", "string"], ["null", "int", "string"], ["null"], ["boolean"], ["boolean", "null"],
         U.rec("R1", ("x", "int")), ["null", U.rec("R1", ("x", "int"))], {"type": "enum", "name": "E1", "symbols": ["f", "h"]}, {"type": "enum", "name": "E2", "symbols": ["f", "q"]}, {"type": "fixed", "name": "F1", "size": 2}, U.arr(U.arr("int")), U.mp(U.mp("int")), ["string", "bytes"]]


def kind(t):
    return t if isinstance(t, str) else "union" if isinstance(t, list) else t["type"]


def places(ctx, part, parts):
    """Places that want types of a certain kind."""
    P = [("if", {"if": "v", "then": 1}, "boolean"), ("cond", {"cond": [{"if": False, "then": 1}, {"if": "v", "then": 1}]}, "boolean"), ("while", {"while": "v", "do": 1}, "boolean"), ("until", {"do": 1, "until": "v"}, "boolean"), ("for", {"for": {"t": 0}, "while": "v", "step": {"t": 1}, "do": 1}, "boolean"),
         ("&&", {"&&": [True, "v"]}, "boolean"), ("!", {"!": "v"}, "boolean"), ("index", {"attr": {"type": U.arr("int"), "value": []}, "path": ["v"]}, "int long"), ("index to", {"attr": {"type": U.arr("int"), "value": []}, "path": ["v"], "to": 1}, "int long"), ("second index", {"attr": {"type": U.arr(U.arr("int")), "value": []}, "path": [0, "v"]}, "int long"),
         ("key", {"attr": {"type": U.mp("int"), "value": {}}, "path": ["v"]}, "string"), ("cell index", {"cell": "v", "path": ["v"]}, "int long"), ("pool key", {"pool": "p", "path": ["v"]}, "string"), ("pool to key", {"pool": "p", "path": ["v"], "to": FCN, "init": 0}, "string"), ("del", {"pool": "p", "del": "v"}, "string"),
         ("foreach", {"foreach": "t", "in": "v", "do": 1}, "array"), ("forkey", {"forkey": "t", "forval": "u", "in": "v", "do": 1}, "map"), ("unpack", {"unpack": "v", "format": [{"t": "int"}], "then": 1}, "bytes"), ("ifnotnull", {"ifnotnull": {"t": "v"}, "then": 1}, "maybe"), ("second ifnotnull", {"ifnotnull": {"u": "input.n", "t": "v"}, "then": 1}, "maybe"),
         ("call", {"call": "v", "args": [1]}, "enum E1"), ("indexed", {"attr": "v", "path": [0]}, "array"), ("keyed", {"attr": "v", "path": [["q"]]}, "map"), ("field", "v.x", "map R1"), ("nested field", "v.0.0", "nested"), ("field to", {"attr": "v", "path": [["x"]], "to": 1}, "intmap R1"), ("indexed to", {"attr": "v", "path": [0], "to": 1}, "intarray"),
         ("log", {"log": "v"}, "any"), ("do", {"do": "v"}, "any"), ("let", {"let": {"t": "v"}}, "any"), ("set", {"set": {"w": "v"}}, "int"), ("step", {"for": {"t": 0}, "while": False, "step": {"t": "v"}, "do": 1}, "int"), ("cell", {"cell": "c", "to": "v"}, "int"), ("pool", {"pool": "p", "path": [["q"]], "to": "v", "init": 0}, "int"),
         ("pool init", {"pool": "p", "path": [["q"]], "to": FCN, "init": "v"}, "int"), ("to", {"attr": {"type": U.arr("int"), "value": []}, "path": [0], "to": "v"}, "int"), ("upcast", {"upcast": "v", "as": "double"}, "number"), ("item", {"type": U.arr("int"), "new": ["v"]}, "int"), ("user", {"u.f": "v"}, "int"), ("second argument", {"u.g": [1, "v"]}, "int")]
    fns = lambda t: [("to function", lambda f: {"attr": {"type": U.arr("int"), "value": []}, "path": [0], "to": f}), ("cell function", lambda f: {"cell": "c", "to": f}), ("pool function", lambda f: {"pool": "p", "path": [["q"]], "to": f, "init": 0}), ("path function", lambda f: {"cell": "v", "path": [0], "to": f})]
    n = 0
    for t in TYPES:
        for place, x, want in P:
            n += 1
            if n % parts != part:
                continue
            k = kind(t)
            name = t.get("name") if isinstance(t, dict) else None
            if want == "any":
                ok = True
            elif want == "boolean":
                ok = t == "boolean"
            elif want == "number":
                ok = t in ("int", "long", "float", "double")
            elif want == "maybe":
                ok = k == "union" and "null" in t and len(t) > 1
            elif want == "enum E1":
                ok = name == "E1"
            elif want == "map R1":
                ok = k == "map" or name == "R1"
            elif want == "intmap R1":
                ok = t == U.mp("int") or name == "R1"
            elif want == "intarray":
                ok = t == U.arr("int") or t == U.arr(["null", "int"])
            elif want == "nested":
                ok = t == U.arr(U.arr("int"))
            else:
                ok = k in want.split()
            c = ["places", place, t]
            if place in ("if", "while", "&&", "cond", "until", "for", "!") and t == ["boolean"] or k == "union" and len(t) == 1:
                ok = None                       # a union of one type
            if ctx.want(c):
                verdict(ctx, c, once(dict(BASE, input=IN, fcns=dict(BASE["fcns"], t={"params": [{"input": "In"}, {"v": t}], "ret": "int", "do": [{"let": {"w": 0}}, x, 0]}), action=[0])), ok)
        for place, make in fns(t):
            for which, f, ok in (("parameter", {"params": [{"o": t}], "ret": "int", "do": 0}, t in ("int", "long", "float", "double") or kind(t) == "union" and "int" in t), ("result", {"params": [{"o": "int"}], "ret": t, "do": ["v"]}, t == "int"),
                                 ("two", {"params": [{"o": "int"}, {"q": t}], "ret": "int", "do": 0}, False), ("none", {"params": [], "ret": t, "do": ["v"]}, False)):
                n += 1
                if n % parts != part:
                    continue
                c = ["places", place, which, t]
                if ctx.want(c):
                    verdict(ctx, c, once(dict(BASE, input=IN, fcns=dict(BASE["fcns"], t={"params": [{"v": t}], "ret": "int", "do": [make(f), 0]}), action=[0])), ok)
        # casts: cases must fit and cover
        for s in TYPES:
            n += 1
            if n % parts != part:
                continue
            branches = t if isinstance(t, list) else [t]
            for cases, partial in (([s], False), ([s], True), (branches, False), (branches + [s], False), (branches[1:], False), (branches[:-1], True)):
                c = ["places", "cast", t, cases, partial]
                if not ctx.want(c):
                    continue
                can = [C08.accepts(t, a) for a in cases]
                covered = all(any(C08.accepts(a, b) and C08.accepts(b, a) for a in cases) for b in branches)
                want = bool(cases) and all(can) and (partial or covered)
                if any(isinstance(a, list) for a in cases):
                    want = None                 # cases of unions
                if not cases:
                    want = None                 # a cast without cases
                verdict(ctx, c, once(dict(BASE, input=IN, fcns=dict(BASE["fcns"], t={"params": [{"v": t}], "ret": "int", "do": [{"cast": "v", "cases": [{"as": a, "named": "w", "do": 1} for a in cases], "partial": partial}, 0]}), action=[0])), want)
        if ctx.full():
            return


def values(ctx, part, parts):
    """Literals, zeros and initial values."""
    n = 0
    for t in TYPES + [U.rec("R2", ("a", U.arr("int")), ("u", ["null", "string"])), U.arr(U.rec("R1", ("x", "int"))), U.mp(["null", "double"]), U.rec("Tree", ("v", "int"), ("next", ["null", "Tree"]))]:
        good, wrong = U.values(t, 2), U.deviations(t)
        for place in ("literal", "cell", "pool", "zero", "user", "nested"):
            for ok, vs in ((True, good), (False, wrong)):
                for v in vs:
                    n += 1
                    if n % parts != part:
                        continue
                    if isinstance(v, tuple):
                        v = v[1]
                    c = ["values", t, place, v]
                    if not ctx.want(c):
                        continue
                    try:
                        json.dumps(v)
                    except (TypeError, ValueError):
                        continue
                    d = {"name": "E", "input": "null", "output": "null", "action": [None]}
                    if place == "literal":
                        d["action"] = [{"type": t, "value": v}, None]
                    elif place == "nested":
                        d["action"] = [{"if": False, "then": {"let": {"t": {"type": t, "value": v}}}}, None]
                    elif place == "user":
                        d["fcns"] = {"t": {"params": [], "ret": t, "do": {"type": t, "value": v}}}
                    elif place == "cell":
                        d["cells"] = {"t": {"type": t, "init": v}}
                    elif place == "pool":
                        d["pools"] = {"t": {"type": t, "init": {"k": v}}}
                    else:
                        d.update({"method": "fold", "output": t, "zero": v, "action": ["tally"], "merge": ["tallyOne"]})
                    verdict(ctx, c, once(d), ok)
        if ctx.full():
            return


def text(ctx):
    d = json.dumps({"name": "E", "input": "int", "output": "int", "action": [{"+": ["input", 1]}], "cells": {"c": {"type": "int", "init": 3}}})
    for i in range(len(d)):
        for how, s in (("cut", d[:i]), ("without", d[:i] + d[i + 1:]), ("doubled", d[:i] + d[i] + d[i:])):
            c = ["text", how, i]
            if not ctx.want(c):
                continue
            ctx.transitions += 1
            try:
                x = json.loads(s)
            except ValueError:
                x = None
                ctx.nontrivial += 1
                try:
                    PFAEngine.fromJson(s)
                except (PFASyntaxException, ValueError):
                    continue
                except Exception as err:
                    ctx.fail(c, "%s ends in %s: %s" % (s, type(err).__name__, err), "text:" + type(err).__name__)
                    continue
                ctx.fail(c, "%s is accepted" % s, "text")
                continue
            if x is not None:
                verdict(ctx, c, s, None, s)


def tasks(tier):
    return ([("keys %d" % k, keys, (k, 24)) for k in range(24)] + [("forms %d" % k, forms, (k, 48)) for k in range(48)] + [("document", document, ()), ("sections", sections, ()), ("names", names, ()), ("text", text, ())] +
            [("places %d" % k, places, (k, 24)) for k in range(24)] + [("values %d" % k, values, (k, 16)) for k in range(16)])
