"""C31: search and edit of JSON documents against an independent definition of matching, over all small documents and patterns."""
import copy
import io
import itertools
import json
import re

import titus.producer.tools as t

from mc.eng import *

LEVEL = "exploration"
RULE = ("a case is one pair of a document (all documents to depth 2 over a small alphabet, with and without line marks) and a pattern (all matchers over literals to depth 2), with all tools; "
        "non-trivial: pairs with at least one match")
ASSUMPTIONS = ["true and false are not numbers for literals; whether number matchers take them is open", "replacing or removing the whole document, and keys that look like numbers in text paths, are left open",
               "the order of matches is open (their set and multiplicity is not)"]


class P(object):
    """A pattern: its tool, and what it means."""

    def __init__(self, name, tool, means, subst=None, numeric=False):
        self.name, self.tool, self.means, self.numeric = name, tool, means, numeric
        self.subst = subst      # what the match becomes (None: itself)


def bare(x):
    """Without line marks."""
    if isinstance(x, dict):
        return {k: bare(v) for k, v in x.items() if k != "@"}
    if isinstance(x, list):
        return [bare(i) for i in x]
    return x


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    return a == b and isinstance(a, str) == isinstance(b, str) and not isinstance(b, (dict, list))


def lit(x):
    return P(json.dumps(x), copy.deepcopy(x), lambda d: same(bare(x), bare(d)))


def num(d):
    return isinstance(d, (int, float)) and not isinstance(d, bool)


def sub(p, d):
    return p.subst(d) if p.subst else d


def patterns(thorough):
    base = [lit(x) for x in (None, True, False, 0, 1, 1.5, "a", "ab", "", [], {}, ["a"], [1, "a"], {"a": 1}, {"a": "a", "b": 1}, {"a": 1, "@": "other"}, [[]], {"a": {"b": 1}})]
    base += [P("Any()", t.Any(), lambda d: True), P("Any(str)", t.Any(str), lambda d: isinstance(d, str)), P("Any(dict, list)", t.Any(dict, list), lambda d: isinstance(d, (dict, list))),
             P("Approx", t.Approx(1, 0.5), lambda d: num(d) and abs(d - 1) <= 0.5, numeric=True), P("LT", t.LT(1), lambda d: num(d) and d < 1, numeric=True), P("LE", t.LE(1), lambda d: num(d) and d <= 1, numeric=True),
             P("GT", t.GT(1), lambda d: num(d) and d > 1, numeric=True), P("GE", t.GE(1), lambda d: num(d) and d >= 1, numeric=True),
             P("RegEx a", t.RegEx("a"), lambda d: isinstance(d, str) and d[:1] == "a"), P("RegEx A i", t.RegEx("A", flags="i"), lambda d: isinstance(d, str) and d[:1] == "a"), P("RegEx A", t.RegEx("A"), lambda d: False),
             P("RegEx a to z", t.RegEx("a(.*)", r"z\1"), lambda d: isinstance(d, str) and d[:1] == "a", lambda d: "z" + d[1:])]
    one = [p for p in base if p.name in ("null", "1", '"a"', '{"a": 1}', "Any()", "Any(str)", "GT", "RegEx a", "RegEx a to z", "[]")]
    out = list(base)
    for p in base if thorough else one:
        q = p
        out.append(P("Min(a=%s)" % p.name, t.Min(a=p.tool), lambda d, p=p: isinstance(d, dict) and "a" in d and p.means(d["a"]), lambda d, p=p: dict(d, a=sub(p, d["a"])), p.numeric))
        out.append(P("Start(%s)" % p.name, t.Start(p.tool), lambda d, p=p: isinstance(d, list) and len(d) >= 1 and p.means(d[0]), lambda d, p=p: [sub(p, d[0])] + d[1:], p.numeric))
        out.append(P("End(%s)" % p.name, t.End(p.tool), lambda d, p=p: isinstance(d, list) and len(d) >= 1 and p.means(d[-1]), lambda d, p=p: d[:-1] + [sub(p, d[-1])], p.numeric))
        out.append(P("[%s]" % p.name, [p.tool], lambda d, p=p: isinstance(d, list) and len(d) == 1 and p.means(d[0]), lambda d, p=p: [sub(p, d[0])], p.numeric))
        out.append(P("{a: %s}" % p.name, {"a": p.tool}, lambda d, p=p: isinstance(d, dict) and set(d) - {"@"} == {"a"} and p.means(d["a"]), lambda d, p=p: {"a": sub(p, d["a"])}, p.numeric))
        out.append(P("Group(g=%s)" % p.name, t.Group(g=p.tool), p.means, p.subst, p.numeric))
    out.append(P("Min()", t.Min(), lambda d: isinstance(d, dict)))
    out.append(P("Start()", t.Start(), lambda d: isinstance(d, list)))
    out.append(P("End()", t.End(), lambda d: isinstance(d, list)))
    out.append(P("Or()", t.Or(), lambda d: False))
    for p, q in itertools.product(one, one):
        if p is q:
            continue
        out.append(P("Or(%s, %s)" % (p.name, q.name), t.Or(p.tool, q.tool), lambda d, p=p, q=q: p.means(d) or q.means(d), lambda d, p=p, q=q: sub(p, d) if p.means(d) else sub(q, d), p.numeric or q.numeric))
        out.append(P("And(%s, %s)" % (p.name, q.name), t.And(p.tool, q.tool), lambda d, p=p, q=q: p.means(d) and q.means(d), lambda d, p=p, q=q: sub(q, d) if q.subst else sub(p, d), p.numeric or q.numeric))
        out.append(P("Group(h=And(Group(g=%s), Group(i=%s)))" % (p.name, q.name), t.Group(h=t.And(t.Group(g=p.tool), t.Group(i=q.tool))), lambda d, p=p, q=q: p.means(d) and q.means(d), lambda d, p=p, q=q: sub(q, d) if q.subst else sub(p, d), p.numeric or q.numeric))
        if thorough or one.index(p) < 5:
            out.append(P("Start(%s, %s)" % (p.name, q.name), t.Start(p.tool, q.tool), lambda d, p=p, q=q: isinstance(d, list) and len(d) >= 2 and p.means(d[0]) and q.means(d[1]), lambda d, p=p, q=q: [sub(p, d[0]), sub(q, d[1])] + d[2:], p.numeric or q.numeric))
            out.append(P("End(%s, %s)" % (p.name, q.name), t.End(p.tool, q.tool), lambda d, p=p, q=q: isinstance(d, list) and len(d) >= 2 and p.means(d[-2]) and q.means(d[-1]), lambda d, p=p, q=q: d[:-2] + [sub(p, d[-2]), sub(q, d[-1])], p.numeric or q.numeric))
            out.append(P("Min(a=%s, b=%s)" % (p.name, q.name), t.Min(a=p.tool, b=q.tool), lambda d, p=p, q=q: isinstance(d, dict) and "a" in d and "b" in d and p.means(d["a"]) and q.means(d["b"]),
                         lambda d, p=p, q=q: dict(d, a=sub(p, d["a"]), b=sub(q, d["b"])), p.numeric or q.numeric))
    return out


def documents(thorough):
    s0 = [None, True, False, 1, 0, 1.5, 2, "a", "ab", ""]
    s1 = [None, 1, "a", "ab", 2, True] if thorough else [None, 1, "a", "ab"]
    flat = [[]] + [[x] for x in s0] + [[x, y] for x in s1 for y in s1] + [["a", 1, "a"], [1, 1, 1]]
    flat += [{}] + [{"a": x} for x in s0] + [{"b": x} for x in s1] + [{"a": x, "b": y} for x in s1 for y in s1] + [{"a": x, "@": "a"} for x in s1] + [{"@": "a"}, {"@": "ab", "c": 1}]
    small = [[], ["a"], [1], ["a", 1], [1, "a", None], {}, {"a": 1}, {"b": "a"}, {"a": "ab", "b": 1}, {"a": 1, "@": "ab"}, [[]], [{"a": 1}], {"a": {"b": 1}}, {"a": ["a", 1]}]
    leaf = small + s1
    deep = [[x] for x in small] + [[x, y] for x in leaf for y in leaf if not (x in s1 and y in s1)] + [{"a": x} for x in small] + [{"a": x, "b": y} for x in small for y in leaf] + [{"a": x, "@": "a"} for x in small] + [{"b": x, "c": y} for x in leaf for y in small]
    deep += [{"a": [{"a": 1}, {"a": {"a": 1}}], "b": {"a": {"a": {"a": 1}}}}, [[[["a"]]], "a"]]
    return [json.loads(json.dumps(d)) for d in s0 + flat + deep]


def places(d, path=()):
    """All places with their content, line marks left out."""
    yield path, d
    if isinstance(d, dict):
        for k, v in d.items():
            if k != "@":
                yield from places(v, path + (k,))
    elif isinstance(d, list):
        for i, v in enumerate(d):
            yield from places(v, path + (i,))


def at(d, path):
    for k in path:
        d = d[k]
    return d


def parts(x):
    """The identities of all containers within."""
    out = set()
    if isinstance(x, (dict, list)):
        out.add(id(x))
        for y in x.values() if isinstance(x, dict) else x:
            out |= parts(y)
    return out


def key(path):
    return [str(type(k)) + str(k) for k in path]


def edited(d, paths, to):
    """The document with the outermost of the places replaced."""
    def go(x, path):
        if path in paths:
            return to
        if isinstance(x, dict):
            return {k: v if k == "@" else go(v, path + (k,)) for k, v in x.items()}
        if isinstance(x, list):
            return [go(v, path + (i,)) for i, v in enumerate(x)]
        return x
    return go(d, ())


def hasBool(x):
    return isinstance(x, bool) or isinstance(x, (list, dict)) and any(hasBool(y) for y in (x.values() if isinstance(x, dict) else x))


def search(ctx, n, of):
    docs = documents(ctx.thorough)
    for p in patterns(ctx.thorough)[n::of]:
        for d in docs if ctx.thorough or p.name.count("(") < 2 or p.name[0] in "EMS" else docs[::3]:
            if p.numeric and hasBool(d):
                continue
            case = (p.name, d)
            if not ctx.want(case):
                continue
            before = json.dumps(d)
            want = sorted([path for path, x in places(d) if p.means(x)], key=key)
            label = "pattern %s in %s" % (p.name, before)
            ctx.states += 1
            if want:
                ctx.nontrivial += 1

            def bad(what, got, must):
                ctx.fail(case + (what,), "%s of %s: %s, must be %s" % (what, label, show(got), show(must)))
            try:
                found = list(t.search(p.tool, d))
                got = sorted([path for path, m in found], key=key)
                ctx.outcome((p.name, repr(got)))
                if got != want:
                    bad("search", got, want)
                    continue
                for path, m in found:
                    x = at(d, path)
                    if not same(bare(m.original), bare(x)):
                        bad("the original", m.original, x)
                    s = sub(p, x)
                    if not same(bare(m.modified), bare(s)):
                        bad("the modified match", m.modified, s)
                    if p.name.startswith("Group(h") and (sorted(m.groups) != ["g", "h", "i"] or not same(bare(m.groups["h"]), bare(s))):
                        bad("the groups", m.groups, s)
                    if p.name.startswith("Group(g") and not ("g" in m.groups and same(bare(m.groups["g"]), bare(s))):
                        bad("the group", m.groups, {"g": s})
                if sorted(t.indexes(p.tool, d), key=key) != want:
                    bad("indexes", list(t.indexes(p.tool, d)), want)
                i = t.index(p.tool, d)
                if (i is None) != (not want) or want and i not in want:
                    bad("index", i, want)
                if t.contains(p.tool, d) != bool(want) or t.count(p.tool, d) != len(want):
                    bad("contains and count", (t.contains(p.tool, d), t.count(p.tool, d)), (bool(want), len(want)))
                r, c = t.findRef(p.tool, d), t.findCopy(p.tool, d)
                if not want and (r is not None or c is not None) or want and not (any(r is at(d, w) for w in want) and any(same(bare(c), bare(at(d, w))) for w in want)):
                    bad("findRef and findCopy", (r, c), want)
                rs, cs = list(t.findAllRef(p.tool, d)), list(t.findAllCopy(p.tool, d))
                if len(rs) != len(want) or len(cs) != len(want) or not all(x is at(d, f[0]) for x, f in zip(rs, found)) or not all(same(bare(x), bare(at(d, f[0]))) for x, f in zip(cs, found)):
                    bad("findAllRef and findAllCopy", (rs, cs), want)
                if parts(d) & (parts(c) | parts(cs)):
                    bad("the copies", "not detached from the document", "detached")
                if () not in want:
                    to = {"new": ["value"]}
                    wd = edited(d, set(want), to)
                    out = t.assignedAt(p.tool, d, copy.deepcopy(to))
                    if json.dumps(d) != before:
                        bad("assignedAt", d, "unchanged")
                    if not same(out, wd):
                        bad("assignedAt", out, wd)
                    if parts(out) & parts(d):
                        bad("assignedAt", "shares parts with the original", "detached")
                    mine = copy.deepcopy(d)
                    t.assignAt(p.tool, mine, to)
                    if not same(mine, wd):
                        bad("assignAt", mine, wd)
                    # the replacement itself may match, and may complete a match around it
                    for to in ("a", 1, [1], {"a": 1}, []) if ctx.thorough else ("a", [1], {"a": 1})[len(want) % 3:] if want else ():
                        wd = edited(d, set(want), to)
                        out = t.assignedAt(p.tool, d, to)
                        ctx.transitions += 1
                        if not same(out, wd):
                            bad("assignedAt with %s" % json.dumps(to), out, wd)
                            break
                if json.dumps(d) != before:
                    bad("the document", d, before)
            except Exception as err:
                ctx.fail(case + ("exception",), "%s: %s %s" % (label, type(err).__name__, err))


def edit(ctx):
    """get, assign, remove and their copying forms at every place, with paths as text and as sequences."""
    for d in documents(True):
        for path, x in places(d):
            case = ("edit", d, path)
            if not path or not ctx.want(case):
                continue
            ctx.nontrivial += 1
            before = json.dumps(d)
            for index in (path, list(path), ",".join(map(str, path)), " , ".join(map(str, path))):
                ctx.states += 1
                label = "at %r of %s" % (index, before)
                for to in ("new", {"a": [1]}, None):
                    want = edited(d, {path}, to)
                    out = t.assigned(d, index, to)
                    mine = copy.deepcopy(d)
                    t.assign(mine, index, to)
                    if t.get(d, index) is not x or not same(out, want) or not same(mine, want) or json.dumps(d) != before or parts(out) & parts(d):
                        ctx.fail(case, "%s: get %s, assigned %s, assign %s, must be %s" % (label, show(t.get(d, index)), show(out), show(mine), show(want)))
                want = copy.deepcopy(d)
                del at(want, path[:-1])[path[-1]]
                out = t.removed(d, index)
                mine = copy.deepcopy(d)
                t.remove(mine, index)
                if not same(out, want) or not same(mine, want) or json.dumps(d) != before or parts(out) & parts(d):
                    ctx.fail(case, "%s: removed %s, remove %s, must be %s" % (label, show(out), show(mine), show(want)))
                ctx.outcome((path, json.dumps(out)))
                if isinstance(path[-1], str):       # new keys can be added
                    fresh = path[:-1] + ("new",)
                    want = copy.deepcopy(d)
                    at(want, path[:-1])["new"] = 5
                    if not same(t.assigned(d, fresh, 5), want):
                        ctx.fail(case, "%s: assigning a new key gives %s" % (label, show(t.assigned(d, fresh, 5))))


def look(ctx):
    """What is displayed, put together, is the document; every line's path leads to what it shows."""
    for d in documents(True):
        for inline in (0, 1, 2):
            case = ("look", d, inline)
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            out = io.StringIO()
            before = json.dumps(d)
            try:
                t.look(d, inlineDepth=inline, stream=out)
            except Exception as err:
                ctx.fail(case, "look at %s with inlineDepth %d: %s %s" % (before, inline, type(err).__name__, err))
                continue
            lines = out.getvalue().split("\n")[2:-1]
            text = "".join(l[31:] for l in lines)
            try:
                got = json.loads(text)
            except ValueError:
                got = text
            ctx.states += 1
            ctx.outcome(text)
            if not same(got, bare(d)) or json.dumps(d) != before:
                ctx.fail(case, "look at %s with inlineDepth %d shows %s" % (before, inline, text))
                continue
            for l in lines:
                path, shown = l[:30].strip(), l[31:].strip()
                if path and not shown.rstrip(",").endswith(("{", "[")):
                    want = bare(t.get(d, path))
                    m = re.match(r'("(?:[^"\\]|\\.)*": )?(.*?),?$', shown)
                    if not isinstance(want, (dict, list)) and json.loads(m.group(2)) != want:
                        ctx.fail(case, "look at %s: line %r shows the wrong place" % (before, l))


def tasks(tier):
    n = 24 if tier == "thorough" else 12
    return [("search %d" % i, search, (i, n)) for i in range(n)] + [("edit", edit, ()), ("look", look, ())]
