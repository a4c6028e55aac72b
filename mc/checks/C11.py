"""C11: PrettyPFA text means exactly the PFA document it stands for."""
import itertools
import json
import re

import avro.schema
import titus.prettypfa as P
from titus.errors import PFAException, PrettyPfaException, SchemaParseException
from titus.genpy import PFAEngine
from titus.reader import jsonToAst, jsonToExpressionAst

from mc import core

LEVEL = "exploration"
RULE = ("a case is one text: operators: every chain of up to three (thorough: four) binary operators with every unary operator in every place, against a reference parser; shapes: every tree of up to three operators written with as few and with all parentheses; "
        "forms: every special form alone, with every form in every place for an expression, and with blocks or single expressions as bodies; literals: every number, string and escape of a grid; layout: every token boundary of a set of programs "
        "with every kind of white space, comments and (where tokens stay apart) nothing, with redundant parentheses around every expression and redundant semicolons after every one; documents: every section, cell and pool parameter with every value; "
        "substitutions: every kind of value in every place; tokens: every sequence of up to five (thorough: six) tokens of an expression language against a reference parser; refusals: every token of the programs dropped, doubled, exchanged, and every cut of their text; "
        "non-trivial: a text with at least one operator or form")
ASSUMPTIONS = ["a word and a colon at the beginning of a line start a section; names of functions are never variables", "which of two equal keys counts is open"]

BIN = [["||"], ["^^"], ["&&"], None, ["==", "!=", "<", "<=", ">", ">="], ["|"], ["^"], ["&"], ["+", "-"], ["*", "/", "idiv", "%", "%%"], None, ["**"]]
LEVELS = dict((op, i) for i, ops in enumerate(BIN) if ops for op in ops)
NONASSOC = 4
PRE = {"!": 3, "-": 10, "~": 10}
NAME = {"idiv": "//"}
OPS = sorted(LEVELS)


def read(text, subs=None):
    """A text of expressions: ('ok', list of JSON), ('refused', message) or ('bad', exception)."""
    try:
        return "ok", [x.jsonNode(False, set()) for x in P.ppfas(text, subs or {})]
    except (PFAException, avro.schema.AvroException, SchemaParseException) as err:
        return "refused", str(err)[:200]
    except Exception as err:
        return "bad", "%s: %s" % (err.__class__.__name__, str(err)[:200])


def norm(x):
    return jsonToExpressionAst(json.dumps(x) if isinstance(x, str) else x).jsonNode(False, set())


def flat(x):
    """A block in parentheses where a body stands is that body."""
    if isinstance(x, dict):
        out = dict((k, flat(v)) for k, v in x.items())
        for k in ("do", "then", "else", "try"):
            while isinstance(out.get(k), list) and len(out[k]) == 1 and isinstance(out[k][0], dict) and list(out[k][0]) == ["do"]:
                out[k] = out[k][0]["do"]
        if list(out) == ["u-"]:
            v = out["u-"][0] if isinstance(out["u-"], list) and len(out["u-"]) == 1 else out["u-"]
            if type(v) in (int, float):
                return -v
        return out
    return [flat(y) for y in x] if isinstance(x, list) else x


def judge(ctx, case, text, want, subs=None):
    """want: list of JSON, None for a text that is no program, Ellipsis for either."""
    r = read(text, subs)
    ctx.transitions += 1
    ctx.outcome(r[0])
    if r[0] == "bad":
        ctx.fail(case, "%r ends in %s" % (text, r[1]), "breaks:%s:%s" % (r[1].split(":")[0], text[:150]))
    elif want is None and r[0] == "ok":
        ctx.fail(case, "%r is read as %s" % (text, json.dumps(r[1])), "accepted:" + text[:150])
    elif want is not None and want is not Ellipsis:
        if r[0] != "ok":
            ctx.fail(case, "%r is refused: %s" % (text, r[1]), "refused:" + text[:150])
        elif r[1] != [norm(x) for x in want] and flat(r[1]) != flat([norm(x) for x in want]):
            ctx.fail(case, "%r is read as %s rather than %s" % (text, json.dumps(r[1]), json.dumps(want)), "wrong:" + text[:150])


# ---------------------------------------------------------------- operators
class No(Exception):
    pass


def pratt(tokens):
    """Reference reading of operators, parentheses, names, numbers, calls and items."""
    at = [0]

    def peek():
        return tokens[at[0]] if at[0] < len(tokens) else None

    def take(x=None):
        t = peek()
        if t is None or x is not None and t != x:
            raise No
        at[0] += 1
        return t

    def arguments(end):
        out = []
        if peek() == end:
            take()
            return out
        while True:
            out.append(expression(-1))
            if peek() == ",":
                take()
            else:
                take(end)
                return out

    def operand():
        t = take()
        if t in PRE:
            x = expression(PRE[t])
            if t == "-" and isinstance(x, (int, float)) and not isinstance(x, bool) and not str(x).startswith("-"):
                return -x
            return {"u-" if t == "-" else t: [x]}
        if t == "(":
            x = expression(-1)
            take(")")
        elif re.match(r"[A-Za-z_.]+$", t) and t not in LEVELS:
            if peek() == "(":
                take()
                x = {t: arguments(")")}
            elif t in ("true", "false", "null"):
                return {"true": True, "false": False, "null": None}[t]
            else:
                x = t
        elif re.match(r"[0-9]", t):
            x = json.loads(t)
        elif t[0] == '"':
            x = {"string": json.loads(t)}
        else:
            raise No
        while peek() == "[":
            take()
            path = arguments("]")
            if not path:
                raise No
            x = {"attr": x, "path": path}
        return x

    def expression(low):
        left = operand()
        compared = False
        while peek() in LEVELS and LEVELS[peek()] > low:
            op = peek()
            if LEVELS[op] == NONASSOC:
                if compared:
                    raise No
            compared = LEVELS[op] == NONASSOC
            take()
            right = expression(LEVELS[op])
            left = {NAME.get(op, op): [left, right]}
        return left

    out = expression(-1)
    if peek() is not None:
        raise No
    return out


def want(tokens):
    try:
        return [pratt(tokens)]
    except No:
        return None


def chains(ctx, part, parts):
    """Chains of operators without any parentheses."""
    few = ["||", "^^", "&&", "==", "<", "|", "^", "&", "-", "idiv", "%%", "**"]
    n = 0

    def go(ops, pre):
        nonlocal n
        n += 1
        if n % parts != part:
            return
        tokens = []
        for i, p in enumerate(pre):
            if i:
                tokens.append(ops[i - 1])
            tokens.extend(p)
            tokens.append("abcdefgh"[i] + ("x" if i % 2 else ""))
        c = ["chain"] + tokens
        if ctx.want(c):
            ctx.nontrivial += 1
            judge(ctx, c, " ".join(tokens), want(tokens))
            if n % 3 == 0:
                judge(ctx, c, "".join(" idiv " if t == "idiv" else t for t in tokens), want(tokens))
    none, one = [""], ["", "-", "!", "~"]
    pres = [(), ("-",), ("!",), ("~",)]
    for p in itertools.product(("-", "!", "~"), repeat=3):
        go((), [p])
    for ops in itertools.product(OPS, repeat=1):
        for pre in itertools.product(pres + [("-", "!"), ("!", "-"), ("~", "-"), ("!", "!"), ("-", "-")], repeat=2):
            go(ops, pre)
    for ops in itertools.product(OPS, repeat=2):
        for pre in itertools.product(pres, repeat=3) if ops[0] in few and ops[1] in few or ctx.thorough else [((),) * 3]:
            go(ops, pre)
    for ops in itertools.product(OPS, repeat=3):
        go(ops, ((),) * 4)
    if ctx.thorough:
        for ops in itertools.product(few, repeat=3):
            for pre in itertools.product(pres, repeat=4):
                if sum(map(len, pre)) in (1, 2):
                    go(ops, pre)
        for ops in itertools.product(few, repeat=4):
            go(ops, ((),) * 5)


def write(t, full):
    """A tree as text, with parentheses around everything or only where the precedences ask for them."""
    if isinstance(t, str):
        return t, 99, False
    if len(t) == 2:
        s, level, _ = write(t[1], full)
        p = PRE[t[0]]
        if level < p or full or level == p and t[0] == "-" and s.startswith("-") and False:
            s = "(" + s + ")"
        return t[0] + s, p, True
    l = LEVELS[t[1]]
    a, la, opena = write(t[0], full)
    b, lb, openb = write(t[2], full)
    return (a, la), t[1], (b, lb), l


def shapes(n):
    if n == 0:
        return [0]
    return [(a, b) for k in range(n) for a in shapes(k) for b in shapes(n - 1 - k)]


def trees(ctx, part, parts):
    """Trees of operators with all parentheses: parentheses win over precedence."""
    n = 0
    few = ["||", "&&", "==", "<", "&", "+", "-", "*", "**", "idiv"]
    for size in (1, 2, 3):
        for shape in shapes(size):
            for ops in itertools.product(OPS if size < 3 or ctx.thorough else few, repeat=size):
                n += 1
                if n % parts != part:
                    continue
                it, names = iter(ops), iter("abcdef")

                def build(s, around):
                    if s == 0:
                        x = next(names)
                        return x, x
                    op = next(it)
                    (ta, ja), (tb, jb) = build(s[0], True), build(s[1], True)
                    return ("(%s %s %s)" if around else "%s %s %s") % (ta, op, tb), {NAME.get(op, op): [ja, jb]}
                text, js = build(shape, False)
                c = ["tree", text]
                if ctx.want(c):
                    ctx.nontrivial += 1
                    judge(ctx, c, text, [js])
                    if n % 4 == 0:
                        judge(ctx, c, "((" + text.replace("a", "((a))") + "))", [js])
                        judge(ctx, c, "-(" + text + ")", [{"u-": js}])
                        judge(ctx, c, "!(" + text + ") && z", [{"&&": [{"!": js}, "z"]}])
                        judge(ctx, c, "(" + text + ")[0]", [{"attr": js, "path": [0]}])


# ---------------------------------------------------------------- forms
# each form: text with places %1.. for expressions, and its JSON with "%1"..; whether it is closed at its right end, whether it may stand in a list of arguments as it is
FORMS = [
    ("x", "x", 1), ("x.y", "x.y", 1), ("x.y.z", "x.y.z", 1), ("null", None, 1), ("true", True, 1), ("false", False, 1), ("3", 3, 1), ("2.5", 2.5, 1), ('"s"', {"string": "s"}, 1), ("'s'", {"string": "s"}, 1),
    ("%1 + %2", {"+": ["%1", "%2"]}, 0), ("-%1", {"u-": "%1"}, 0), ("!%1", {"!": "%1"}, 0), ("(%1)", "%1", 1),
    ("f(%1, %2)", {"f": ["%1", "%2"]}, 1), ("u.f()", {"u.f": []}, 1), ("a.len(%1)", {"a.len": ["%1"]}, 1), ("a.map(x, fcn(o: int -> int) %1)", {"a.map": ["x", {"params": [{"o": "int"}], "ret": "int", "do": ["%1"]}]}, 1),
    ("a.map(%1, fcn(o: int, p: array(int) -> map(string)) {%2; %3})", {"a.map": ["%1", {"params": [{"o": "int"}, {"p": {"type": "array", "items": "int"}}], "ret": {"type": "map", "values": "string"}, "do": ["%2", "%3"]}]}, 1),
    ("a.map(x, fcn(-> int) %1)", {"a.map": ["x", {"params": [], "ret": "int", "do": ["%1"]}]}, 1), ("a.map(x, m.exp)", {"a.map": ["x", {"fcn": "m.exp"}]}, 1), ("a.map(x, u.f(q: %1))", {"a.map": ["x", {"fcn": "u.f", "fill": {"q": "%1"}}]}, 1),
    ("a.map(x, u.f(q: %1, r: %2))", {"a.map": ["x", {"fcn": "u.f", "fill": {"q": "%1", "r": "%2"}}]}, 1),
    ("json(int, 3)", {"int": 3}, 1), ("json(double, 3)", {"double": 3}, 1), ("json(null, null)", None, 1), ("json(string, \"x\")", {"string": "x"}, 1), ("json(boolean, true)", {"type": "boolean", "value": True}, 1), ("json(bytes, \"AAAA\")", {"base64": "AAAA"}, 1),
    ("json(array(int), [1, 2, -3])", {"type": {"type": "array", "items": "int"}, "value": [1, 2, -3]}, 1), ("json(array(int), [])", {"type": {"type": "array", "items": "int"}, "value": []}, 1),
    ("json(map(array(double)), {a: [], \"b c\": [1.5, null, true, \"x\"]})", {"type": {"type": "map", "values": {"type": "array", "items": "double"}}, "value": {"a": [], "b c": [1.5, None, True, "x"]}}, 1), ("json(map(int), {})", {"type": {"type": "map", "values": "int"}, "value": {}}, 1),
    ("json(union(int, null), {int: 3})", {"type": ["int", "null"], "value": {"int": 3}}, 1), ("json(record(R1, a: int), {a: -3})", {"type": {"type": "record", "name": "R1", "fields": [{"name": "a", "type": "int"}]}, "value": {"a": -3}}, 1),
    ("json(enum([a, b], E1), \"a\")", {"type": {"type": "enum", "name": "E1", "symbols": ["a", "b"]}, "value": "a"}, 1), ("json(fixed(4, F1), \"abcd\")", {"type": {"type": "fixed", "name": "F1", "size": 4}, "value": "abcd"}, 1), ("E@sym", {"type": "E", "value": "sym"}, 1),
    ("int(3)", {"int": 3}, 1), ("long(3)", {"long": 3}, 1), ("float(3)", {"float": 3.0}, 1), ("double(3)", {"double": 3.0}, 1), ("string(\"x\")", {"string": "x"}, 1), ("bytes(\"AAAA\")", {"base64": "AAAA"}, 1), ("long(-3)", {"long": -3}, 1),
    ("{%1; %2}", {"do": ["%1", "%2"]}, 1), ("{%1}", {"do": ["%1"]}, 1), ("{%1;}", {"do": ["%1"]}, 1), ("{%1; %2; %3;;}", {"do": ["%1", "%2", "%3"]}, 1), ("do(%1, %2)", None, 1),
    ("apply(%1, %2)", {"call": "%1", "args": ["%2"]}, 1), ("apply(%1)", {"call": "%1", "args": []}, 1), ("update(%1, k: %2)", {"attr": "%1", "path": [{"string": "k"}], "to": "%2"}, 1),
    ("new(array(int), %1, %2)", {"new": ["%1", "%2"], "type": {"type": "array", "items": "int"}}, 1), ("new(map(int), k: %1, \"l m\": %2)", {"new": {"k": "%1", "l m": "%2"}, "type": {"type": "map", "values": "int"}}, 1), ("new(record(Rec, k: int), k: %1)", {"new": {"k": "%1"}, "type": {"type": "record", "name": "Rec", "fields": [{"name": "k", "type": "int"}]}}, 1),
    ("new(record(R2, k: int), k: %1)", {"new": {"k": "%1"}, "type": {"type": "record", "name": "R2", "fields": [{"name": "k", "type": "int"}]}}, 1), ("new(array(union(int, null)), %1)", {"new": ["%1"], "type": {"type": "array", "items": ["int", "null"]}}, 1),
    ("upcast(double, %1)", {"upcast": "%1", "as": "double"}, 1), ("upcast(union(int, string), %1)", {"upcast": "%1", "as": ["int", "string"]}, 1), ("pack(\"<int\": %1, double: %2)", {"pack": [{"<int": "%1"}, {"double": "%2"}]}, 1),
    ("doc(\"words\")", {"doc": "words"}, 1), ("error(\"words\")", {"error": "words"}, 1), ("error(words)", {"error": "words"}, 1), ("error(\"words\", code: -3)", {"error": "words", "code": -3}, 1),
    ("log(%1, %2)", {"log": ["%1", "%2"]}, 1), ("log(%1, namespace: \"ns\")", {"log": ["%1"], "namespace": "ns"}, 1), ("log(%1, namespace: ns)", {"log": ["%1"], "namespace": "ns"}, 1), ("log()", {"log": []}, 1),
    ("if (%1) %2", {"if": "%1", "then": ["%2"]}, 0), ("if (%1) %2 else %3", {"if": "%1", "then": ["%2"], "else": ["%3"]}, 0), ("if (%1) {%2; %3} else {%3; %2}", {"if": "%1", "then": ["%2", "%3"], "else": ["%3", "%2"]}, 1),
    ("if (%1) %2 else if (%3) %4", {"cond": [{"if": "%1", "then": ["%2"]}, {"if": "%3", "then": ["%4"]}]}, 0), ("if (%1) %2 else if (%3) %4 else %5", {"cond": [{"if": "%1", "then": ["%2"]}, {"if": "%3", "then": ["%4"]}], "else": ["%5"]}, 0),
    ("if (%1) {%2} else if (%3) {%4; %5} else if (%2) {%1} else {%5; x}", {"cond": [{"if": "%1", "then": ["%2"]}, {"if": "%3", "then": ["%4", "%5"]}, {"if": "%2", "then": ["%1"]}], "else": ["%5", "x"]}, 1),
    ("while (%1) %2", {"while": "%1", "do": ["%2"]}, 0), ("while (%1) {%2; %3}", {"while": "%1", "do": ["%2", "%3"]}, 1), ("do %1 until (%2)", {"do": ["%1"], "until": "%2"}, 1), ("do {%1; %2} until (%3)", {"do": ["%1", "%2"], "until": "%3"}, 1),
    ("for (i = %1; %2; i = %3) %4", {"for": {"i": "%1"}, "while": "%2", "step": {"i": "%3"}, "do": ["%4"]}, 0), ("for (i = 0, j = %1; %2; i = %3, j = x) {%4; %5}", {"for": {"i": 0, "j": "%1"}, "while": "%2", "step": {"i": "%3", "j": "x"}, "do": ["%4", "%5"]}, 1),
    ("foreach (i: %1) %2", {"foreach": "i", "in": "%1", "do": ["%2"], "seq": False}, 0), ("foreach (i: %1, seq: true) {%2; %3}", {"foreach": "i", "in": "%1", "do": ["%2", "%3"], "seq": True}, 1), ("foreach (i: %1, seq: false) %2", {"foreach": "i", "in": "%1", "do": ["%2"], "seq": False}, 0),
    ("foreach (k, v: %1) %2", {"forkey": "k", "forval": "v", "in": "%1", "do": ["%2"]}, 0), ("foreach (k, v: %1) {%2; %3}", {"forkey": "k", "forval": "v", "in": "%1", "do": ["%2", "%3"]}, 1),
    ("cast (%1) { as(i: int) %2 as(s: string) {%3; %4} }", {"cast": "%1", "cases": [{"as": "int", "named": "i", "do": ["%2"]}, {"as": "string", "named": "s", "do": ["%3", "%4"]}], "partial": False}, 1),
    ("cast (%1, partial: true) { as(i: array(int)) %2 }", {"cast": "%1", "cases": [{"as": {"type": "array", "items": "int"}, "named": "i", "do": ["%2"]}], "partial": True}, 1), ("cast (%1, partial: false) { as(i: int) {%2} }", {"cast": "%1", "cases": [{"as": "int", "named": "i", "do": ["%2"]}], "partial": False}, 1),
    ("ifnotnull (n: %1) %2", {"ifnotnull": {"n": "%1"}, "then": ["%2"]}, 0), ("ifnotnull (n: %1, o: %2) %3 else %4", {"ifnotnull": {"n": "%1", "o": "%2"}, "then": ["%3"], "else": ["%4"]}, 0), ("ifnotnull (n: %1) {%2; %3} else {%3; %2}", {"ifnotnull": {"n": "%1"}, "then": ["%2", "%3"], "else": ["%3", "%2"]}, 1),
    ("unpack (%1, i: int, d: \"<double\") %2", {"unpack": "%1", "format": [{"i": "int"}, {"d": "<double"}], "then": ["%2"]}, 0), ("unpack (%1, i: int) {%2; %3} else {%3; %2}", {"unpack": "%1", "format": [{"i": "int"}], "then": ["%2", "%3"], "else": ["%3", "%2"]}, 1),
    ("unpack (%1, i: int) %2 else %3", {"unpack": "%1", "format": [{"i": "int"}], "then": ["%2"], "else": ["%3"]}, 0),
    ("try %1", {"try": ["%1"]}, 0), ("try {%1; %2}", {"try": ["%1", "%2"]}, 1), ("try (words) %1", {"try": ["%1"], "filter": ["words"]}, 0), ("try (\"some words\", -3, 4) {%1}", {"try": ["%1"], "filter": ["some words", -3, 4]}, 1),
    ("var i = %1", {"let": {"i": "%1"}}, 0), ("var i = %1, j = %2", {"let": {"i": "%1", "j": "%2"}}, 0), ("i = %1", {"set": {"i": "%1"}}, 0), ("i = %1, j = %2", {"set": {"i": "%1", "j": "%2"}}, 0),
    ("x[%1]", {"attr": "x", "path": ["%1"]}, 1), ("x[%1, %2]", {"attr": "x", "path": ["%1", "%2"]}, 1), ("x.y[%1]", {"attr": "x", "path": [{"string": "y"}, "%1"]}, 1), ("f(%1)[%2]", {"attr": {"f": ["%1"]}, "path": ["%2"]}, 1), ("(%1)[%2]", {"attr": "%1", "path": ["%2"]}, 1),
    ("x[%1][%2]", {"attr": {"attr": "x", "path": ["%1"]}, "path": ["%2"]}, 1), ("x[%1] = %2", {"attr": "x", "path": ["%1"], "to": "%2"}, 0), ("x.y = %1", {"attr": "x", "path": [{"string": "y"}], "to": "%1"}, 0), ("x.y[%1] = %2", {"attr": "x", "path": [{"string": "y"}, "%1"], "to": "%2"}, 0),
    ("f(%1)[%2] = %3", {"attr": {"f": ["%1"]}, "path": ["%2"], "to": "%3"}, 0), ("x[%1] to fcn(o: int -> int) %2", {"attr": "x", "path": ["%1"], "to": {"params": [{"o": "int"}], "ret": "int", "do": ["%2"]}}, 0), ("x[%1] to m.exp", {"attr": "x", "path": ["%1"], "to": {"fcn": "m.exp"}}, 1),
    ("x[%1] to u.f(q: %2)", {"attr": "x", "path": ["%1"], "to": {"fcn": "u.f", "fill": {"q": "%2"}}}, 1), ("x.y to fcn(o: int -> int) {%1; %2}", {"attr": "x", "path": [{"string": "y"}], "to": {"params": [{"o": "int"}], "ret": "int", "do": ["%1", "%2"]}}, 1),
]
FORMS = [f for f in FORMS if f[0] not in ("do(%1, %2)", "E@sym")]    # an enumeration's symbol needs the type, see PROGRAMS
PLACE = re.compile("%[1-5]")


def put(text, js, what):
    """Fill the places; what: name -> (text, json)."""
    t = PLACE.sub(lambda m: what[m.group()][0], text)

    def go(x):
        if isinstance(x, str) and x in what:
            return what[x][1]
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, dict):
            return dict((k, go(v)) for k, v in x.items())
        return x
    return t, go(js)


PLAIN = {"%1": ("p", "p"), "%2": ("q.r", "q.r"), "%3": ("7", 7), "%4": ("w", "w"), "%5": ('"s"', {"string": "s"})}


def inner(f, k):
    """A form with its own operands, named apart from those of the form around it."""
    return put(f[0], f[1], dict((p, ("i%d%s" % (k, p[1]), "i%d%s" % (k, p[1]))) for p in PLAIN))


def forms(ctx, part, parts):
    n = 0
    for text, js, closed in FORMS:
        places = sorted(set(PLACE.findall(text)))
        c = ["form", text]
        if part == 0 and ctx.want(c):
            ctx.nontrivial += 1
            t, j = put(text, js, PLAIN)
            judge(ctx, c, t, [j])
            judge(ctx, c, t + ";", [j])
            judge(ctx, c, t + "; z;; " + t + ";", [j, "z", j])
            judge(ctx, c, "(" + t + ")", [j])
            judge(ctx, c, "{" + t + "}", [{"do": [j]}])
            if closed and not re.match(r"(if|ifnotnull|while|for|foreach|unpack|try) |.* to ", text):     # whose body would go on
                judge(ctx, c, t + " + z", [{"+": [j, "z"]}])
        for k, place in enumerate(places):
            for f in FORMS:
                n += 1
                if n % parts != part:
                    continue
                c = ["form", text, place, f[0]]
                if not ctx.want(c):
                    continue
                ctx.nontrivial += 1
                t, j = inner(f, k)
                around = dict(PLAIN, **{place: ("(%s)" % t, j)})
                a, b = put(text, js, around)
                judge(ctx, c, a, [b])
                # as a block: a statement list, where a body stands, or one expression
                last = text.endswith(place)
                before = text.split(place)[0]
                if f[0].startswith("{"):
                    continue                    # a block would be the body itself
                alone = place + "}" in text or place + ";" in text and not text.startswith("for") or last and not text[0] in "-!" and " + " not in text or "(%s)" % place in text
                if f[0].startswith("if") and ("else " + place in text):
                    alone = False               # would become another branch
                if "else" in text and f[0].startswith(("if", "ifnotnull", "unpack")) and not last and "{" not in text:
                    alone = False
                if alone and "i = %1, j = %2" != f[0] or closed and f[2] and f[0] not in ("%1 + %2",):
                    around = dict(PLAIN, **{place: (t, j)})
                    a, b = put(text, js, around)
                    if f[0] in ("i = %1, j = %2", "i = %1") and "," in text and not (place + "}" in text):
                        continue
                    judge(ctx, c, a, [b])
        if ctx.full():
            return


# ---------------------------------------------------------------- literals
def literals(ctx):
    for digits in ("0", "1", "10", "1234567890", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808", "1" * 30):
        for sign in ("", "-", "- ", "--"):
            for frac in ("", ".", ".0", ".5", ".125"):
                for exp in ("", "e5", "E5", "e+5", "e-5", "e0", "E-10", "e300", "e400", "e-400"):
                    text = sign + digits + frac + exp
                    c = ["number", text]
                    if not ctx.want(c):
                        continue
                    ctx.nontrivial += 1
                    if frac == "" and exp == "":
                        v = int(digits) * (-1 if sign.startswith("-") and sign != "--" else 1)
                        big = not -2 ** 63 <= v < 2 ** 63
                        if sign == "--":
                            judge(ctx, c, text, [{"u-": -v}] if -2 ** 63 <= -v < 2 ** 63 else None)
                        else:
                            judge(ctx, c, text, None if big else [v])
                    else:
                        v = float(digits + frac + exp)
                        if v in (float("inf"),):
                            judge(ctx, c, text, Ellipsis)
                        else:
                            judge(ctx, c, text, [{"u-": -v}] if sign == "--" else [-v if sign else v])
                        judge(ctx, c, "x" + text if sign in ("-", "- ") else "x + " + text, Ellipsis if v == float("inf") else [{"-": ["x", v]}] if sign in ("-", "- ") else [{"+": ["x", {"u-": -v} if sign else v]}])
    for text in ("01", "1.5.2", ".5", "1e", "1e+", "0x1", "1_000", "+1", "1 2", "5x", "1..2"):
        c = ["number", text]
        if ctx.want(c):
            judge(ctx, c, text, None)
    # strings
    pieces = ["", "a", "é", "\u4e2d", "'", " ", "//", ";", "<<x>>", "{", "null", "\\\\", "\\\"", "\\n", "\\t", "\\r", "\\u00e9", "\\u4e2d", "\\b", "\\f", "%", "#", "0", "-"]
    mean = {"\\\\": "\\", "\\\"": '"', "\\n": "\n", "\\t": "\t", "\\r": "\r", "\\u00e9": "é", "\\u4e2d": "\u4e2d", "\\b": "\b", "\\f": "\f"}
    for ps in itertools.product(pieces, repeat=3 if ctx.thorough else 2):
        c = ["string"] + list(ps)
        if ctx.want(c):
            ctx.nontrivial += 1
            v = "".join(mean.get(p, p) for p in ps)
            judge(ctx, c, '"' + "".join(ps) + '"', [{"string": v}])
            judge(ctx, c, 'f("' + "".join(ps) + '", "b") + "c"', [{"+": [{"f": [{"string": v}, {"string": "b"}]}, {"string": "c"}]}])
            if "'" not in "".join(ps):
                judge(ctx, c, "'" + "".join(ps) + "'", [{"string": "".join(ps)}])
                judge(ctx, c, "f('" + "".join(ps) + "', 'b')", [{"f": [{"string": "".join(ps)}, {"string": "b"}]}])
            judge(ctx, c, 'new(map(int), "' + "".join(ps) + '": 3)', [{"new": {v: 3}, "type": {"type": "map", "values": "int"}}] if v != "@" else Ellipsis)
    c = ["string", "newline"]
    if ctx.want(c):
        judge(ctx, c, "'a\nb'", [{"string": "a\nb"}])
        judge(ctx, c, '"a\nb"', None)
        judge(ctx, c, '"a', None)
        judge(ctx, c, "'a", None)
        judge(ctx, c, '"a\\"', None)
    for name in ("x", "X", "_", "_x", "x1", "x_1", "idivx", "iff", "fcnx", "trueish", "nullx", "toto", "init1", "var1", "as_", "Null", "TRUE"):
        c = ["name", name]
        if ctx.want(c):
            judge(ctx, c, name, [name])
            judge(ctx, c, name + " + " + name + ".y", [{"+": [name, name + ".y"]}])
    for name in ("fcn", "if", "else", "while", "do", "until", "for", "foreach", "cast", "as", "ifnotnull", "unpack", "try", "var", "to", "init", "idiv", "x.", ".x", "x..y", "x. y", "é", "$x", "x$", "1x", "@", "x@", "?", "\\", "`x`"):
        c = ["name", name]
        if ctx.want(c):
            judge(ctx, c, name, None)


# ---------------------------------------------------------------- layout
TOKEN = re.compile(r"""\s*(//[^\n]*|'[^']*'|"(?:[^"\\]|\\.)*"|[A-Za-z_][A-Za-z_0-9]*(?:\.[A-Za-z_][A-Za-z_0-9]*)*|[0-9]+(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?|<<\w+>>|->|\*\*|==|!=|<=|>=|&&|\|\||\^\^|%%|.)""")
PROGRAMS = ["var x = input + 1; var y = -x ** 2 idiv 3 %% (4 - z); if (x > y && !(x == 3) || false) {x = x + 1; y} else if (y != -2) f(x, \"a b\", 'c d') else {null}",
            "foreach (k, v: m.b[\"a\", 0]) {total = total + v[0][k]; log(k, namespace: ns)}; do {i = i + 1} until (i >= 10 ^^ j <= 3); while (i < 3 | 4 & 5 ^ ~6) {i = i - 1}; x.y to fcn(o: int -> int) o * 2",
            "cast (u(x)) { as(i: int) {i} as(s: array(string)) a.map(s, fcn(z: string -> string) s.upper(z)) }; ifnotnull (n: a, o: b) {n} else {error(\"none\", code: -3)}; try (oops, -3) {unpack (b, p: \"<int\") {p} else {0}}",
            "json(enum([sym, b], E), \"b\"); for (i = 0, j = 1.5e3; i < 3; i = i + 1, j = j) {q[i] = new(record(Out, x: int, z: union(int, null)), x: 3, z: json(array(map(int)), [{a: 1}, {}]))}; update(r, k: E@sym); pack(\"<int\": x); apply(f, x); upcast(double, x)"]
SPACES = [" ", "  ", "\t", "\n ", " \n\n \t", "\r\n ", " // words ; { \" ' \n ", "\n // one\n // two\n "]


def glue(a, b):
    """Two tokens that stay two without anything between them."""
    word = lambda x: re.match(r"[\w.]", x)
    if word(a[-1]) and word(b[0]) or a[-1] == "/" and b[0] == "/":
        return False
    return a + b not in ("**", "==", "!=", "<=", ">=", "&&", "||", "^^", "%%", "->", "***") and not (a in "=!<>" and b[0] == "=") and not (a == "*" and b[0] == "*") and not (a == "-" and b == ">") and not (a == "<" and b[0] == "<") and a not in ("%",) and b not in ("%", "%%") and (a, b) != ("&", "&&")


def layout(ctx, part, parts):
    n = 0
    for k, text in enumerate(PROGRAMS):
        tokens = TOKEN.findall(text)
        base = read(text)
        if base[0] != "ok":
            ctx.fail(["layout", k], "%r is refused: %s" % (text, base[1]), "refused:layout:%d" % k)
            continue

        def same(c, t):
            ctx.nontrivial += 1
            ctx.transitions += 1
            r = read(t)
            ctx.outcome(r[0])
            if r != base:
                ctx.fail(c, "%r is read as %s rather than %s" % (t, r[1], base[1]), "layout:%s" % json.dumps(c)[:150])
        for s in SPACES + [""]:
            n += 1
            c = ["layout", k, "everywhere", s]
            if n % parts == part and ctx.want(c):
                out = tokens[0]
                for a, b in zip(tokens, tokens[1:]):
                    out += (s if s or glue(a, b) else " ") + b
                same(c, s + out + s)
        for i in range(len(tokens) + 1):
            for s in SPACES + [""]:
                n += 1
                c = ["layout", k, i, s]
                if n % parts != part or not ctx.want(c):
                    continue
                if s == "" and 0 < i < len(tokens) and not glue(tokens[i - 1], tokens[i]):
                    continue
                same(c, " ".join(tokens[:i]) + s + " ".join(tokens[i:]))
                if s and ctx.thorough:
                    for j in range(i + 1, len(tokens)):
                        same(c + [j], " ".join(tokens[:i]) + s + " ".join(tokens[i:j]) + s + " ".join(tokens[j:]))
        # redundant semicolons and parentheses
        for i, t in enumerate(tokens):
            c = ["layout", k, "semicolons", i]
            n += 1
            if t == "}" and "do" not in tokens[i:i + 1] and n % parts == part and ctx.want(c):
                same_or = read(" ".join(tokens[:i]) + ";; " + " ".join(tokens[i:]))
                ctx.transitions += 1
                if same_or[0] == "ok" and same_or != base or same_or[0] == "bad":
                    ctx.fail(c, "with more semicolons, %r is read as %s" % (text, same_or[1]), "layout:%s" % json.dumps(c))
            if t == ";" and n % parts == part and ctx.want(c):
                depth = 0
                for u in tokens[:i]:
                    depth += (u == "(") - (u == ")")
                if depth == 0:
                    same(c, " ".join(tokens[:i]) + ";;" + " ".join(tokens[i:]))
            if re.match(r"[0-9]|[xyi]$", t) and n % parts == part and ctx.want(c):
                after = tokens[i + 1] if i + 1 < len(tokens) else ";"
                before = tokens[i - 1] if i else ""
                if after not in (":", "=", "[", "(") and before not in ("var", ",", "@", "-", "[", ":", "(") and not (before == "," and after == "="):
                    same(c, " ".join(tokens[:i]) + " ((" + t + ")) " + " ".join(tokens[i + 1:]))


# ---------------------------------------------------------------- token sequences
WORDS = ["a", "f", "2", "(", ")", "[", "]", ",", "+", "-", "*", "**", "<", "!", "&&", "idiv"]


def sequences(ctx, part, parts):
    """Every sequence of tokens of the language of operators, against the reference parser."""
    n = 0
    for length in range(1, 7 if ctx.thorough else 6):
        words = WORDS if length < 6 else ["a", "2", "(", ")", "[", "]", ",", "-", "**", "<", "!"]
        for tokens in itertools.product(words, repeat=length):
            n += 1
            if n % parts != part:
                continue
            if length >= 5 and (tokens.count("(") != tokens.count(")") or tokens.count("[") != tokens.count("]")) and n % 7:
                continue
            c = ["tokens"] + list(tokens)
            if not ctx.want(c):
                continue
            w = want(list(tokens))
            if w is not None:
                ctx.nontrivial += 1
            elif any(x + y in ("(,", "[,") for x, y in zip(tokens, tokens[1:])):
                w = Ellipsis    # the grammar admits an empty first argument
            judge(ctx, c, " ".join(tokens), w)
        if ctx.full():
            return


# ---------------------------------------------------------------- documents
def doc(text, subs=None):
    try:
        return "ok", P.ast(text, check=False, subs=subs or {}).jsonNode(False, set())
    except (PFAException, avro.schema.AvroException, SchemaParseException) as err:
        return "refused", str(err)[:200]
    except Exception as err:
        return "bad", "%s: %s" % (err.__class__.__name__, str(err)[:200])


def judgeDoc(ctx, case, text, want, subs=None, run=None):
    r = doc(text, subs)
    ctx.transitions += 1
    ctx.outcome(r[0])
    if want is not None:
        ctx.nontrivial += 1
    if r[0] == "bad":
        ctx.fail(case, "%r ends in %s" % (text, r[1]), "breaks:%s:%s" % (r[1].split(":")[0], json.dumps(case)[:150]))
    elif want is None:
        if r[0] == "ok":
            ctx.fail(case, "%r is read as %s" % (text, json.dumps(r[1])), "accepted:" + json.dumps(case)[:150])
    elif want is not Ellipsis:
        w = jsonToAst(want).jsonNode(False, set())
        if "name" not in want:
            w.pop("name", None)
            r[1].pop("name", None) if r[0] == "ok" else None
        if r[0] != "ok":
            ctx.fail(case, "%r is refused: %s" % (text, r[1]), "refused:" + json.dumps(case)[:150])
        elif r[1] != w:
            ctx.fail(case, "%r is read as %s rather than %s" % (text, json.dumps(r[1]), json.dumps(w)), "wrong:" + json.dumps(case)[:150])


TYPES = [("null", "null"), ("boolean", "boolean"), ("int", "int"), ("long", "long"), ("float", "float"), ("double", "double"), ("string", "string"), ("bytes", "bytes"), ("array(int)", {"type": "array", "items": "int"}), ("map(int)", {"type": "map", "values": "int"}),
         ("array(map(array(string)))", {"type": "array", "items": {"type": "map", "values": {"type": "array", "items": "string"}}}), ("union(int, null)", ["int", "null"]), ("union(null, array(union(int, string)), map(null))", ["null", {"type": "array", "items": ["int", "string"]}, {"type": "map", "values": "null"}]),
         ("record(R, x: int)", {"type": "record", "name": "R", "fields": [{"name": "x", "type": "int"}]}), ("record(x: int, R)", {"type": "record", "name": "R", "fields": [{"name": "x", "type": "int"}]}), ("record(R)", {"type": "record", "name": "R", "fields": []}),
         ("record(a.b.R, x: int, y: array(double))", {"type": "record", "name": "R", "namespace": "a.b", "fields": [{"name": "x", "type": "int"}, {"name": "y", "type": {"type": "array", "items": "double"}}]}),
         ("record(R, x: union(null, R), y: array(R))", {"type": "record", "name": "R", "fields": [{"name": "x", "type": ["null", "R"]}, {"name": "y", "type": {"type": "array", "items": "R"}}]}),
         ("record(R, x: record(S, y: int), z: S)", {"type": "record", "name": "R", "fields": [{"name": "x", "type": {"type": "record", "name": "S", "fields": [{"name": "y", "type": "int"}]}}, {"name": "z", "type": "S"}]}),
         ("enum([a, b, c], E)", {"type": "enum", "name": "E", "symbols": ["a", "b", "c"]}), ("enum([a], n.s.E)", {"type": "enum", "name": "E", "namespace": "n.s", "symbols": ["a"]}), ("fixed(4, F)", {"type": "fixed", "name": "F", "size": 4}), ("fixed(16, n.F)", {"type": "fixed", "name": "F", "namespace": "n", "size": 16})]
JSON = [("3", 3), ("-3", -3), ("2.5", 2.5), ("-2.5e3", -2500.0), ('"x y"', "x y"), ("'x \"y'", 'x "y'), ("true", True), ("false", False), ("null", None), ("words", "words"), ("[]", []), ("[1, -2, [3], {}]", [1, -2, [3], {}]), ("{}", {}), ("{a: 1, \"b c\": [null, true], 'd': {e: -1.5}}", {"a": 1, "b c": [None, True], "d": {"e": -1.5}}),
        ("3000000000", 3000000000), ("-9223372036854775808", -2 ** 63)]


def documents(ctx, part, parts):
    n = 0

    def go(case, text, want):
        nonlocal n
        n += 1
        case = ["document"] + case
        if n % parts == part and ctx.want(case):
            judgeDoc(ctx, case, text, want)
    base = {"input": "int", "output": "int", "action": ["input"]}
    T = "input: int\noutput: int\naction: input\n"
    go(["base"], T, base)
    for order in itertools.permutations(("input: int", "output: int", "action: input", "name: Engine")):
        go(["order"] + list(order), "\n".join(order), dict(base, name="Engine"))
        go(["order crlf"] + list(order), "\r\n".join(order) + "\r\n", dict(base, name="Engine"))
        go(["order blank"] + list(order), "\n\n// words\n" + "\n  // words: more\n\n".join(order), dict(base, name="Engine"))
    for left in range(3):
        go(["without", left], "\n".join(T.split("\n")[:left] + T.split("\n")[left + 1:]), None)
    for t, j in TYPES:
        named = isinstance(j, dict) and "name" in j
        go(["input", t], "input: %s\noutput: int\naction: 3" % t, dict(base, input=j, action=[3]))
        go(["input", t, "lines"], "input:\n  %s\noutput: int;\naction: 3" % t.replace("(", "(\n  ").replace(", ", ",\n\t"), Ellipsis if False else dict(base, input=j, action=[3]))
        go(["output", t], "input: int\noutput: %s\naction: error(\"x\")" % t, dict(base, output=j, action=[{"error": "x"}]))
        go(["alias", t], "types: T = %s\ninput: T\noutput: array(T)\naction: error(\"x\")" % t, dict(base, input=j, output={"type": "array", "items": j if not named else (j.get("namespace", "") + "." + j["name"]).lstrip(".")}, action=[{"error": "x"}]))
        go(["alias", t, "more"], "types:\n  T = %s;\n  U = map(T);\n\ninput: U\noutput: int\naction: 3" % t, dict(base, input={"type": "map", "values": j}, action=[3]))
        if named:
            full = (j.get("namespace", "") + "." + j["name"]).lstrip(".")
            go(["named", t], "types: %s\ninput: %s\noutput: int\naction: 3" % (t, full), dict(base, input=j, action=[3]))
            go(["named", t, "more"], "types: %s; Q = array(%s)\ninput: Q\noutput: int\naction: 3" % (t, full), dict(base, input={"type": "array", "items": j}, action=[3]))
        go(["cell", t], T + "cells: c(%s) = 3" % t, dict(base, cells={"c": {"type": j, "init": 3}}))
        go(["pool", t], T + "pools: c(type: %s) = {a: 3}" % t, dict(base, pools={"c": {"type": j, "init": {"a": 3}}}))
        go(["function", t], T + "fcns: f = fcn(x: %s, y: int -> string) \"x\"" % t, dict(base, fcns={"f": {"params": [{"x": j}, {"y": "int"}], "ret": "string", "do": [{"string": "x"}]}}))
        go(["function", t, "ret"], T + "fcns: f = fcn(-> %s) error(\"x\")" % t, dict(base, fcns={"f": {"params": [], "ret": j, "do": [{"error": "x"}]}}))
    for t, j in JSON:
        go(["cell", "init", t], T + "cells: c(int) = %s" % t, dict(base, cells={"c": {"type": "int", "init": j}}))
        go(["cells", "init", t], T + "cells:\n  c(int) = %s;\n  d(type: double) = %s;\n" % (t, t), dict(base, cells={"c": {"type": "int", "init": j}, "d": {"type": "double", "init": j}}))
        go(["pool", "init", t], T + "pools: c(int) = %s" % t, dict(base, pools={"c": {"type": "int", "init": j}}) if isinstance(j, dict) else None)
        go(["pool", "item", t], T + "pools: c(int) = {q: %s}" % t, dict(base, pools={"c": {"type": "int", "init": {"q": j}}}))
        go(["zero", t], T.replace("action: input", "action: tally") + "method: fold\nzero: %s\nmerge: tallyOne" % t, dict(base, method="fold", zero=j, action=["tally"], merge=["tallyOne"]))
        go(["metadata", t], T + "metadata: {a: %s}" % t, dict(base, metadata={"a": j}) if isinstance(j, str) else Ellipsis)
        go(["options", t], T + "options: {timeout: %s, \"timeout.begin\": 3}" % t, dict(base, options={"timeout": j, "timeout.begin": 3}))
        go(["literal", t], T.replace("input\n", "json(array(int), %s)\n" % t), dict(base, action=[{"type": {"type": "array", "items": "int"}, "value": j}]) if t not in () else Ellipsis)
        go(["randseed", t], T + "randseed: " + t, dict(base, randseed=j) if isinstance(j, int) and not isinstance(j, bool) else None)
        go(["version", t], T + "version: " + t, dict(base, version=j) if isinstance(j, int) and not isinstance(j, bool) and abs(j) < 2 ** 31 else None if not isinstance(j, int) or isinstance(j, bool) else Ellipsis)
        go(["doc", t], T + "doc: " + t, dict(base, doc=j) if isinstance(j, str) else dict(base, doc=t) if t in ("true", "false", "null") else None)
        go(["name", t], T + "name: " + t, Ellipsis)
        go(["method", t], T + "method: " + t, None)
    for m in ("map", "emit", "fold", '"emit"', "'fold'"):
        go(["method", m], "method: %s\n" % m + T + ("zero: 0\nmerge: tallyOne" if "fold" in m else ""), dict(base, method=m.strip("\"'"), **({"zero": 0, "merge": ["tallyOne"]} if "fold" in m else {})))
    for shared, rollback, source, typ in itertools.product(("", "shared: true", "shared: false"), ("", "rollback: true", "rollback: false"), ("", "source: embedded", 'source: "embedded"'), ("int", "type: int")):
        args = [x for x in (typ, shared, rollback, source) if x]
        for order in (args, args[::-1]):
            w = {"type": "int", "init": 3, "shared": "true" in shared, "rollback": "true" in rollback, "source": "embedded"}
            ok = not (w["shared"] and w["rollback"])
            go(["cell"] + order, T + "cells: c(%s) = 3" % ", ".join(order), dict(base, cells={"c": w}) if ok else None)
            go(["pool"] + order, T + "pools: c(%s) = {}" % ", ".join(order), dict(base, pools={"c": dict(w, init={})}) if ok else None)
    for args in ("", "int, int", "shared: true", "int, shared: 1", "int, shared: yes", "int, rollback: null", "int, nosuch: true", "type: int, int", "int, source: 3", "int, source: nosuch", "type: 3", "3", "[]", "fcn(-> int) 3"):
        for kind, init in (("cells", "3"), ("pools", "{}")):
            go([kind, args], T + "%s: c(%s) = %s" % (kind, args, init), Ellipsis if "source" in args else None)
    # statements in all sections
    for section in ("begin", "action", "end", "merge"):
        rest = [x for x in T.split("\n") if not x.startswith(section + ":") and x] + (["method: fold", "zero: 0"] + (["merge: 3"] if section != "merge" else []) if True else [])
        w0 = dict(base, method="fold", zero=0, **({"merge": [3]} if section != "merge" else {}))
        for text, js in (("3", [3]), ("3;", [3]), ("{3}", [3]), ("{3; x}", [3, "x"]), ("3; x; y", [3, "x", "y"]), ("\n  3;\n  x;;\n", [3, "x"]), ("{\n  3;\n  {x}\n  }", [3, {"do": ["x"]}]), ("var q = 3, r = 4; q = r", [{"let": {"q": 3, "r": 4}}, {"set": {"q": "r"}}]),
                         ("if (x) {3} else {4}", [{"if": "x", "then": [3], "else": [4]}]), ("\n  // words\n  3 // more\n  ; x // end", [3, "x"]), ("c", [{"cell": "c"}]), ("c.x", [{"cell": "c", "path": [{"string": "x"}]}]), ("c[0].x", None), ("c[0, x]", [{"cell": "c", "path": [0, "x"]}]), ("c = 4", [{"cell": "c", "to": 4}]),
                         ("c.x[0] = 4", [{"cell": "c", "path": [{"string": "x"}, 0], "to": 4}]), ("c.x = 4", [{"cell": "c", "path": [{"string": "x"}], "to": 4}]), ("c to u.f", [{"cell": "c", "to": {"fcn": "u.f"}}]), ("c[0] to fcn(o: int -> int) o", [{"cell": "c", "path": [0], "to": {"params": [{"o": "int"}], "ret": "int", "do": ["o"]}}]),
                         ("p[\"a\"]", [{"pool": "p", "path": [{"string": "a"}]}]), ("p.a", [{"pool": "p", "path": [{"string": "a"}]}]), ("p[k, 0]", [{"pool": "p", "path": ["k", 0]}]), ("p[k] = 3", [{"pool": "p", "path": ["k"], "to": 3, "init": 3}]), ("p.a = 3", [{"pool": "p", "path": [{"string": "a"}], "to": 3, "init": 3}]),
                         ("p[k] to u.f init 0", [{"pool": "p", "path": ["k"], "to": {"fcn": "u.f"}, "init": 0}]), ("p[k] to fcn(o: int -> int) {o} init c + 1", [{"pool": "p", "path": ["k"], "to": {"params": [{"o": "int"}], "ret": "int", "do": ["o"]}, "init": {"+": [{"cell": "c"}, 1]}}]), ("p.a to u.f init 0", [{"pool": "p", "path": [{"string": "a"}], "to": {"fcn": "u.f"}, "init": 0}]),
                         ("p[k] to u.f", None), ("c to u.f init 3", None), ("x[0] to u.f init 3", None), ("c = u.f", None), ("p[k] = u.f", None), ("x[0] = u.f", None), ("x.y = u.f", None), ("c to 3", None), ("p[k] to 3 init 3", None), ("x.y to 3", None), ("c[0] = fcn(o: int -> int) o", None), ("x = u.f", None),
                         ("a.map(x, u.f)", [{"a.map": ["x", {"fcn": "u.f"}]}]), ("u.f(x)", [{"u.f": ["x"]}]), ("u.f.g", ["u.f.g"]), ("", Ellipsis), (";", Ellipsis), ("{}", Ellipsis), ("x y", None), ("x;; ;y", ["x", "y"]), ("f(c, p[c])", [{"f": [{"cell": "c"}, {"pool": "p", "path": [{"cell": "c"}]}]}]), ("a.b = 1, c.d = 2", None)):
            go([section, text], "\n".join(rest + ["%s: %s" % (section, text), "cells: c(int) = 3", "pools: p(int) = {}", "fcns: f = fcn(o: int -> int) o"]), None if js is None else js if js is Ellipsis else dict(w0, cells={"c": {"type": "int", "init": 3}}, pools={"p": {"type": "int", "init": {}}}, fcns={"f": {"params": [{"o": "int"}], "ret": "int", "do": ["o"]}}, **{section: js}))
    for text, js in (("f = fcn(x: int -> int) x", {"f": [[{"x": "int"}], ["x"]]}), ("f = fcn(x: int -> int) {x; 3}", {"f": [[{"x": "int"}], ["x", 3]]}), ("f = fcn(x: int -> int) x; g = fcn(-> int) {3};", {"f": [[{"x": "int"}], ["x"]], "g": [[], [3]]}), ("\n  f = fcn(x: int -> int) x;\n  g = fcn(y: int, z: int -> int) u.f(y);\n  h.i = fcn(y: int -> int) u.g(y, y)",
                     {"f": [[{"x": "int"}], ["x"]], "g": [[{"y": "int"}, {"z": "int"}], [{"u.f": ["y"]}]], "h.i": [[{"y": "int"}], [{"u.g": ["y", "y"]}]]}), ("", {}), ("f = fcn(x: int -> int) a.map(x, u.f)", {"f": [[{"x": "int"}], [{"a.map": ["x", {"fcn": "u.f"}]}]]})):
        go(["fcns", text], T + "fcns: " + text, dict(base, fcns=dict((k, {"params": v[0], "ret": "int", "do": v[1]}) for k, v in js.items())))
    for text in ("3", "x", "f", "f = 3", "fcn(x: int -> int) x", "f = fcn(x -> int) x", "f = fcn(x: int) x", "f = fcn(x: int ->) x", "f = fcn(x: int -> int)", "f(x)", "{f = fcn(-> int) 3}", "[f]", "{a: 3}", "{}", "f = fcn(x: 3 -> int) x", "f = fcn(x: int -> 3) x", "f = fcn(x: [] -> int) x", '"f" = fcn(-> int) 3'):
        go(["fcns", "bad", text], T + "fcns: " + text, None)
    for section in ("input", "output", "types", "begin", "action", "end", "cells", "pools", "zero", "randseed", "doc", "version", "metadata", "options", "name", "method", "merge", "fcns"):
        for text in ("", "[", "{", "}", ")", "3 4", "x: y", "[1]", "{a: 1}", "f = fcn(-> int) 3", "c(int) = 3", "x = 3", "if (x) y", "E@x", "<<", "x[0]", "x.y = 3", "x; y", "(x)", "fcn(-> int) 3", "null", '"x"', "-3", "array(int, int)", "array()", "map(3)", "union(int)", "union(int, 3)", "enum(a)", "enum([a, 3], E)", "enum([a], 3)", "fixed(a)", "fixed(-1)", "fixed(0, F)",
                     "fixed(3, \"F\")", "record(3)", "record(x: 3)", "record(R, S)", "json(int)", "int(x, y)", "new(int)", "update(x, y)", "error(3)", "error(x, code: y)", "error(x, code: 2.5)", "log(x, namespace: 3)", "try (x + 1) y", "doc(3)", "foreach (x: y, nosuch: true) z", "foreach (x: y, seq: 3) z", "cast (x, nosuch: true) { as(i: int) i }", "cast (x, partial: 3) { as(i: int) i }", "cast (x) { }",
                     "unpack(x, i: 3) y", "pack(x)", "upcast(int)", "apply()", "bytes(3)", "bytes(\"A\")", "int(x)", "int(\"x\")", "double(x)", "string(3)", "json(bytes, 3)", "json(int, x)", "json(double, x)", "json(string, 3)", "json(int, fcn(-> int) 3)", "fcn(x: int -> int) x", "a.map(x, y: 3, 4)", "new(array(int), x: 3)", "new(map(int), 3)", "upcast(3, 4)", "as(x: int) 3", "else 3", "f(,)", "f(x,)", "f(,x)"):
            go(["section", section, text], "\n".join(x for x in T.split("\n") if not x.startswith(section + ":")) + "\n%s: %s\n" % (section, text), Ellipsis)
    for heading in ("nosuch", "inputs", "x", "fcn", "cell"):
        go(["heading", heading], T + "%s: 3" % heading, None)
    for text in ("", " ", "\n", "//", "input", "input:", ":", "3", "x", "input int\noutput int", T + "}", T + ")", "{" + T, T.replace(":", ""), T.replace("\n", " ")):
        go(["whole", text], text, None)


# ---------------------------------------------------------------- substitutions
def substitutions(ctx):
    values = [(3, 3), (2.5, 2.5), (None, None), (True, True), ("x", "x"), ("x + y", {"+": ["x", "y"]}), ("-x", {"u-": "x"}), ("f(x, 3)", {"f": ["x", 3]}), ('"s"', {"string": "s"}), (["s"], {"string": "s"}), ({"string": "s"}, {"string": "s"}), ({"+": ["x", 1]}, {"+": ["x", 1]}), ("{x; y}", {"do": ["x", "y"]}), ("if (x) y else z", {"if": "x", "then": ["y"], "else": ["z"]}),
              (jsonToExpressionAst({"*": ["x", 2]}), {"*": ["x", 2]}), ({"type": {"type": "array", "items": "int"}, "value": [1]}, {"type": {"type": "array", "items": "int"}, "value": [1]}), ("x = 3", {"set": {"x": 3}}), ("x.y", "x.y")]
    texts = [("<<V>>", "%1"), ("<<V>> * z", {"*": ["%1", "z"]}), ("z ** <<V>>", {"**": ["z", "%1"]}), ("-<<V>>", {"u-": "%1"}), ("f(<<V>>, <<V>>)", {"f": ["%1", "%1"]}), ("f(<<V>>, <<W>>)", {"f": ["%1", "w"]}), ("{<<V>>; <<W>>}", {"do": ["%1", "w"]}), ("if (<<V>>) <<W>> else <<V>>", {"if": "%1", "then": ["w"], "else": ["%1"]}),
             ("x[<<V>>]", {"attr": "x", "path": ["%1"]}), ("x[0] = <<V>>", {"attr": "x", "path": [0], "to": "%1"}), ("a.map(x, fcn(o: int -> int) <<V>>)", {"a.map": ["x", {"params": [{"o": "int"}], "ret": "int", "do": ["%1"]}]}), ("var y = <<V>>", {"let": {"y": "%1"}}), ("'<<V>>'", {"string": "<<V>>"}), ('"<<V>>" + <<V>>', {"+": [{"string": "<<V>>"}, "%1"]}),
             ("z < <<V>>", {"<": ["z", "%1"]}), ("z<<<V>>", None), ("try <<V>>", {"try": ["%1"]}), ("foreach (i: <<V>>) <<V>>", {"foreach": "i", "in": "%1", "do": ["%1"], "seq": False}), ("new(array(int), <<V>>)", {"new": ["%1"], "type": {"type": "array", "items": "int"}})]
    for (v, j), (text, js) in itertools.product(values, texts):
        c = ["subs", str(v), text]
        if text == "z<<<V>>" or not ctx.want(c):
            continue
        ctx.nontrivial += 1
        if text == "-<<V>>" and v in (3, 2.5) and v is not True:
            continue
        if isinstance(j, str) and "." in j and False:
            continue
        t, w = put(text, js, {"%1": (None, j)})
        judge(ctx, c, text, [w], {"V": v, "W": "w"})
        # the same afterwards, into the tree
        try:
            tree, = P.ppfas(text)
            r = P.subs(tree, V=v, W="w").jsonNode(False, set())
        except Exception as err:
            r = "%s: %s" % (err.__class__.__name__, err)
        ctx.transitions += 1
        if r != norm(w):
            ctx.fail(c + ["after"], "substituting %r for V in %r gives %s rather than %s" % (v, text, r, json.dumps(w)), "after:%s:%s" % (v, text))
    # types, JSON, and names in documents
    for t, j in TYPES:
        for where, text, w in (("input", "input: <<T>>\noutput: int\naction: 3", {"input": j, "output": "int", "action": [3]}), ("array", "input: array(<<T>>)\noutput: int\naction: 3", {"input": {"type": "array", "items": j}, "output": "int", "action": [3]}), ("cell", "input: int\noutput: int\naction: 3\ncells: c(<<T>>) = <<I>>", {"input": "int", "output": "int", "action": [3], "cells": {"c": {"type": j, "init": 5}}}),
                               ("function", "input: int\noutput: int\naction: 3\nfcns: f = fcn(x: <<T>> -> int) <<I>>", {"input": "int", "output": "int", "action": [3], "fcns": {"f": {"params": [{"x": j}], "ret": "int", "do": [5]}}}), ("field", "input: record(Field, q: <<T>>)\noutput: int\naction: 3", {"input": {"type": "record", "name": "Field", "fields": [{"name": "q", "type": j}]}, "output": "int", "action": [3]}),
                               ("upcast", "input: int\noutput: int\naction: upcast(<<T>>, input)", {"input": "int", "output": "int", "action": [{"upcast": "input", "as": j}]}), ("json", "input: int\noutput: int\naction: json(<<T>>, {a: <<I>>})", {"input": "int", "output": "int", "action": [{"type": j, "value": {"a": 5}}]})):
            c = ["subs", "type", where, t]
            if ctx.want(c) and not (where == "json" and isinstance(j, str)):
                judgeDoc(ctx, c, text, w, {"T": j, "I": 5})
    for text in ("<<V>>", "<<V>> + 1", "f(<<V>>)"):
        c = ["subs", "unresolved", text]
        if ctx.want(c):
            ctx.nontrivial += 1
            try:
                P.engine("input: int\noutput: int\naction: " + text)
                ctx.fail(c, "an engine is made of %r" % text)
            except PFAException:
                pass
            except Exception as err:
                ctx.fail(c, "an engine of %r ends in %s: %s" % (text, err.__class__.__name__, err), "breaks:unresolved:" + text)
    for name in ("V", "v1", "_x", "V_1"):
        c = ["subs", "name", name]
        if ctx.want(c):
            judge(ctx, c, "<<%s>> + 1" % name, [{"+": ["x", 1]}], {name: "x"})
    for text in ("<<1>>", "<< V>>", "<<V >>", "<<>>", "<<V", "<V>>"):
        c = ["subs", "malformed", text]
        if ctx.want(c):
            judge(ctx, c, text, None, {"V": "x"})


# ---------------------------------------------------------------- refusals
DOC = """name: Engine
types: Rec = record(Rec, x: int)
input: union(Rec, null)
output: int
method: emit
cells: c(int, shared: true) = 3;
  d(array(int)) = [1, 2]
pools: p(map(int)) = {a: {b: 1}}
fcns: f = fcn(x: int -> int) {x + 1}
begin: c = 1
action:
  var x = ifnotnull (i: input) i.x else -1;
  p["a", "b"] to u.f init new(map(int), b: 0);
  emit(if (x < 3 && true) u.f(x) else c)
end: c to fcn(o: int -> int) o ** 2
options: {timeout: 1000}
"""


def refusals(ctx, part, parts):
    """Texts with one fault: whatever becomes of them, nothing breaks."""
    n = 0

    def go(case, text, whole):
        nonlocal n
        n += 1
        if n % parts != part or not ctx.want(case):
            return
        ctx.nontrivial += 1
        if whole:
            judgeDoc(ctx, case, text, Ellipsis)
        else:
            judge(ctx, case, text, Ellipsis)
    for k, (text, whole) in enumerate([(x, False) for x in PROGRAMS] + [(DOC, True)]):
        tokens = re.findall(r"\n[a-z]+:|" + TOKEN.pattern.replace("(//", "(?://", 1), text)
        tokens = [t if t.startswith("\n") and t.endswith(":") else " " + t.strip() for t in tokens]
        for i in range(len(tokens)):
            go(["drop", k, i], "".join(tokens[:i] + tokens[i + 1:]), whole)
            go(["double", k, i], "".join(tokens[:i + 1] + tokens[i:]), whole)
            go(["exchange", k, i], "".join(tokens[:i] + tokens[i + 1:i + 2] + tokens[i:i + 1] + tokens[i + 2:]), whole)
            go(["cut", k, i], "".join(tokens[:i]), whole)
            for other in (" (", " )", " {", " }", " [", " ]", " ;", " ,", " :", " =", " x", " 3", ' "s"', " fcn", " if", " else", " to", " -", " ->", " <<V>>", " @", " null", "\n") + ((" init", " do", " as", " try", " var", " cast", " foreach", " !", " **", " '", ' "', " $", "\n x: ", "\nend: ") if ctx.thorough or whole else ()):
                go(["for", k, i, other], "".join(tokens[:i] + [other] + tokens[i + 1:]), whole)
                if ctx.thorough:
                    go(["in", k, i, other], "".join(tokens[:i] + [other] + tokens[i:]), whole)
        for i in range(len(text)):
            go(["text", k, i], text[:i], whole)
            if whole or ctx.thorough:
                go(["without", k, i], text[:i] + text[i + 1:], whole)


def tasks(tier):
    t = []
    for i in range(4):
        t.append(("chains %d" % i, chains, (i, 4)))
        t.append(("trees %d" % i, trees, (i, 4)))
        t.append(("refusals %d" % i, refusals, (i, 4)))
    for i in range(8):
        t.append(("forms %d" % i, forms, (i, 8)))
        t.append(("layout %d" % i, layout, (i, 8)))
        t.append(("sequences %d" % i, sequences, (i, 8)))
        t.append(("documents %d" % i, documents, (i, 8)))
    t.append(("literals", literals, ()))
    t.append(("substitutions", substitutions, ()))
    return t
