"""C32: pack and unpack against an independent byte layout, over all small formats, values, truncations and extensions; Avro files of all small types."""
import io
import itertools
import json
import math
import os
import shutil
import struct
import tempfile

import avro.schema
from avro.datafile import DataFileReader, DataFileWriter
from avro.io import DatumReader, DatumWriter

from titus.genpy import PFAEngine

from mc import universe as U
from mc.eng import *
from mc.eng import outcome
from mc.universe import raw

LEVEL = "exploration"
RULE = ("a case is one format (all sequences of up to two, thorough: three, elements) with all combinations of boundary values, their bytes, every truncation, every extension by a byte and single changed bytes; "
        "or one Avro type with files of all its small values; non-trivial: all")
ASSUMPTIONS = ["what packing a number that does not fit its element does is a finding of C07 and not repeated here", "terminated data that contain a zero byte, and boolean bytes other than 0 and 1, are left open",
               "the files that are read are written by the Avro library, with a writer that takes the branch of a union it is told to take"]


def i(n, size, little):
    return (n % (1 << 8 * size)).to_bytes(size, "little" if little else "big")


def bits(code, x, little):
    b = struct.pack(">" + code, x)
    return b[::-1] if little else b


def ints(size, signed):
    top = 1 << 8 * size
    return [0, 1, -1, -top // 2, top // 2 - 1, 256 if size > 1 else 100] if signed else [0, 1, top - 1, top // 2, 258 if size > 1 else 10]


class Elt(object):
    """One element: spelling, type of its value, values, bytes of a value, and reading: rest -> (value, rest) or None."""

    def __init__(self, text, typ, values, enc, dec):
        self.text, self.typ, self.values, self.enc, self.dec = text, typ, values, enc, dec


def fixed(text, typ, values, size, enc, dec):
    return Elt(text, typ, values, enc, lambda b: (dec(b[:size]), b[size:]) if len(b) >= size else None)


def floats(code):
    xs = [0.0, 1.0, -2.5, 0.1, 3.4e38, 1e-40, float("inf"), -float("inf")]
    return xs if code == "d" else xs[:4] + xs[4:]


def elements():
    """All spellings of all elements, the plain spellings first."""
    out = [fixed("pad", "null", [None], 1, lambda v: b"\0", lambda b: None), fixed("boolean", "boolean", [True, False], 1, lambda v: bytes([int(v)]), lambda b: b != b"\0")]
    for name in ("byte", "int8"):
        out.append(fixed(name, "int", ints(1, True), 1, lambda v: i(v, 1, False), lambda b: (b[0] + 128) % 256 - 128))
        out.append(fixed("unsigned " + name, "int", ints(1, False), 1, lambda v: i(v, 1, False), lambda b: b[0]))
    for order in ("", "<", ">", "!", "little ", "big ", "network ", " <  "):
        little = "<" in order or "little" in order
        for names, size in ((("short", "int16"), 2), (("int", "int32"), 4), (("long", "int64", "long long"), 8)):
            for name in names:
                for un in ("", "unsigned "):
                    typ = ("int" if size == 2 else "long" if size == 4 else "double") if un else ("long" if size == 8 else "int")
                    vals = ints(size, not un)
                    if typ == "double":
                        vals = [0.0, 1.0, 2.0 ** 63, 2.0 ** 53, 2.0 ** 64 - 2048, 258.0]

                    def dec(b, little=little, un=un, size=size, typ=typ):
                        n = int.from_bytes(b, "little" if little else "big")
                        n = n if un or n < 1 << (8 * size - 1) else n - (1 << 8 * size)
                        return float(n) if typ == "double" else n
                    out.append(fixed(order + un + name, typ, vals, size, lambda v, little=little, size=size: i(int(v), size, little), dec))
        for name, code in (("float", "f"), ("float32", "f"), ("double", "d"), ("float64", "d")):
            size = 4 if code == "f" else 8
            out.append(fixed(order + name, "float" if code == "f" else "double", floats(code), size, lambda v, code=code, little=little: bits(code, v, little),
                             lambda b, code=code, little=little: struct.unpack(">" + code, b[::-1] if little else b)[0]))
    for n in (0, 1, 3):
        out.append(fixed("raw%s%d" % (" " if n else "", n), "bytes", [bytes([0, 255, 65][:n]), b"abc"[:n]], n, lambda v: v, lambda b: b))
    zero = lambda b: (b[:b.index(b"\0")], b[b.index(b"\0") + 1:]) if b"\0" in b else None
    pre = lambda b: (b[1:1 + b[0]], b[1 + b[0]:]) if b and len(b) >= 1 + b[0] else None
    for t in ("terminated", "null terminated", " null  terminated "):
        out.append(Elt(t, "bytes", [b"", b"a", b"\xff\x01"], lambda v: v + b"\0", zero))
    for t in ("prefixed", "length prefixed"):
        out.append(Elt(t, "bytes", [b"", b"a", b"\0\xff", bytes(range(256))[:255]], lambda v: bytes([len(v)]) + v, pre))
    return out


CORE = ["pad", "boolean", "byte", "unsigned byte", "short", "< unsigned short".replace("< ", "<"), "<int", "unsigned int", "long", "<unsigned long", "float", "<double", "raw 3", "raw0", "terminated", "prefixed"]


def strip(x):
    return raw(x)


def eq(a, b):
    a, b = raw(a), raw(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(eq, a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a:
        return b != b
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def parse(elts, data):
    out = []
    for e in elts:
        got = e.dec(data)
        if got is None:
            return None
        out.append(got[0])
        data = got[1]
    return out if not data else None


def engines(elts):
    names = ["f%d" % k for k in range(len(elts))]
    rtype = {"type": "record", "name": "R", "fields": [{"name": n, "type": e.typ} for n, e in zip(names, elts)]}
    packer = PFAEngine.fromJson({"input": rtype, "output": "bytes", "action": [{"pack": [{e.text: "input." + n} for n, e in zip(names, elts)]}]})[0]
    fmt = [{n: e.text} for n, e in zip(names, elts)]
    new = {"new": {n: n for n in names}, "type": "R"}
    unpacker = PFAEngine.fromJson({"input": "bytes", "output": ["null", rtype], "action": [{"unpack": "input", "format": fmt, "then": [{"upcast": new, "as": ["null", "R"]}], "else": [None]}]})[0]
    nothing = PFAEngine.fromJson({"input": "bytes", "output": ["null", rtype], "cells": {"c": {"type": ["null", "R"], "init": None}},
                                  "action": [{"cell": "c", "to": {"upcast": None, "as": ["null", "R"]}}, {"unpack": "input", "format": fmt, "then": [{"cell": "c", "to": {"upcast": new, "as": ["null", "R"]}}]}, {"cell": "c"}]})[0]
    return names, packer, unpacker, nothing


def changes(data, elts):
    """The bytes and what is near them."""
    yield data
    for k in range(len(data)) if len(data) < 40 else list(range(6)) + [len(data) - 1]:
        yield data[:k]
    for b in (0, 1, 65, 255):
        yield data + bytes([b])
        yield bytes([b]) + data
    for k in range(min(len(data), 12)):
        for b in (0, 1, 255):
            yield data[:k] + bytes([b]) + data[k + 1:]


def format_(ctx, elts):
    texts = tuple(e.text for e in elts)
    if not ctx.want(("format", texts)):
        return
    try:
        names, packer, unpacker, nothing = engines(elts)
    except Exception as err:
        ctx.fail(("format", texts), "format %s is not accepted: %s" % (list(texts), " ".join(str(err).split())[:200]))
        return
    ctx.nontrivial += 1
    done = set()
    open_ = [k for k, t in enumerate(texts) if t == "boolean"]
    full = len(elts) == 1 or ctx.thorough
    combos = list(itertools.product(*[e.values if full and len(elts) < 3 else e.values[:1] + e.values[-2:] for e in elts]))
    for vals in combos:
        want = b"".join(e.enc(v) for e, v in zip(elts, vals))
        given = dict(zip(names, vals))
        got = outcome(packer.action, dict(given))
        ctx.states += 1
        ctx.outcome((texts, repr(got)))
        label = "format %s" % (list(texts),)
        if got[0] != "ok" or not eq(got[1], want):
            ctx.fail(("format", texts, vals), "%s packs %s to %s, must be %s" % (label, show(vals), show(got), show(want)))
            continue
        if any(isinstance(v, bytes) for v in vals):
            other = outcome(packer.action, {k: v.decode("latin-1") if isinstance(v, bytes) else v for k, v in given.items()})
            if other[0] != "ok" or not eq(other[1], want):
                ctx.fail(("format", texts, vals), "%s packs the characters of %s to %s, must be %s" % (label, show(vals), show(other), show(want)))
        back = parse(elts, want)
        if not all(eq(a, b) or e.typ == "float" and struct.unpack("f", struct.pack("f", b))[0] == a for a, b, e in zip(back, vals, elts)):
            raise ValueError((texts, vals, back))
        for data in changes(want, elts):
            if data in done or len(done) > 4000:
                continue
            done.add(data)
            parsed = parse(elts, data)
            if open_ and parsed is not None:
                # boolean bytes other than 0 and 1 are open
                rest, odd = data, False
                for e in elts:
                    if e.text == "boolean" and rest[0] > 1:
                        odd = True
                    rest = e.dec(rest)[1]
                if odd:
                    continue
            expected = None if parsed is None else {"R": dict(zip(names, parsed))}
            ctx.transitions += 1
            for which, engine in (("unpack", unpacker), ("unpack without else", nothing)):
                got = outcome(engine.action, data)
                v = got[1] if got[0] == "ok" else got
                if isinstance(v, dict) and "R" not in v:
                    v = {"R": v}
                if got[0] != "ok" or not eq(v, expected):
                    ctx.fail(("format", texts, data, which), "%s with %s: %s gives %s, must give %s" % (label, which, show(data), show(got), show(expected)))
                    break


def formats(ctx, ns, n):
    by = {e.text: e for e in elements()}
    if n == 1:
        for e in elements()[ns::8]:
            format_(ctx, [e])
    else:
        first = by[CORE[ns]]
        for rest in itertools.product(CORE, repeat=n - 1):
            format_(ctx, [first] + [by[t] for t in rest])


def errors(ctx):
    """Data that do not fit, with their codes; formats that are refused; expressions of narrower types."""
    T = lambda fmt, typ: PFAEngine.fromJson({"input": typ, "output": "bytes", "action": [{"pack": [{"byte": 7}, {fmt: "input"}]}]})[0]
    for fmt, values, code in (("raw 3", [b"", b"ab", b"abcd"], 3000), ("raw1", [b"", b"ab"], 3000), ("raw 0", [b"a"], 3000), ("prefixed", [b"x" * 256, b"\0" * 300], 3001), ("length prefixed", [b"x" * 256], 3001)):
        e = T(fmt, "bytes")
        for v in values:
            for form in (v, v.decode("latin-1")):
                case = ("errors", fmt, form)
                if ctx.want(case):
                    ctx.nontrivial += 1
                    got = outcome(e.action, form)
                    if got[:2] != ("err", code):
                        ctx.fail(case, "packing %r as %s: %s, must be error %d" % (v, fmt, show(got), code))
    for fmt in ("raw", " raw "):
        e = T(fmt, "bytes")
        for v in (b"", b"a", b"\0\xffabc"):
            got = outcome(e.action, v)
            if ctx.want(("errors", fmt, v)) and (got[0] != "ok" or not eq(got[1], b"\7" + v)):
                ctx.fail(("errors", fmt, v), "packing %r as %s: %s" % (v, fmt, show(got)))
    numeric = {"int": ("byte", "short", "int", "long", "float", "double", "unsigned int", "unsigned long"), "long": ("long", "float", "double", "unsigned int", "unsigned long"), "float": ("float", "double", "unsigned long"), "double": ("double", "unsigned long"),
               "null": ("pad",), "boolean": ("boolean",), "bytes": ("raw", "raw 1", "terminated", "prefixed"), "string": ()}
    everything = sorted(set(sum(map(list, numeric.values()), [])))
    for typ in sorted(numeric):
        for fmt in everything:
            case = ("accepts", typ, fmt)
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            try:
                e = T(fmt, typ)
                got = True
            except Exception as err:
                got = False if type(err).__name__ == "PFASemanticException" else repr(err)
            ctx.outcome((typ, fmt, got))
            if got != (fmt in numeric[typ]):
                ctx.fail(case, "packing a %s as %s is accepted: %s" % (typ, fmt, got))
            elif got is True and typ in ("int", "long", "float", "double"):
                by = [x for x in elements() if x.text == fmt][0]
                v = 3 if typ in ("int", "long") else 3.0
                out = outcome(e.action, v)
                if out[0] != "ok" or not eq(out[1], b"\7" + by.enc(v)):
                    ctx.fail(case, "packing a %s as %s gives %s" % (typ, fmt, show(out)))
    for fmt in ("", "bytes", "unsigned", "unsigned float", "unsigned double", "little byte", "raw -1", "raw x", "int 4", "3 raw", "<>int", "shorts", "null", "length", "int24", "signed int"):
        for doc in ({"input": "bytes", "output": "null", "action": [{"unpack": "input", "format": [{"x": fmt}], "then": [1]}]}, {"input": "int", "output": "bytes", "action": [{"pack": [{fmt: "input"}]}]}):
            case = ("refused", fmt, "unpack" in json.dumps(doc))
            if ctx.want(case):
                ctx.nontrivial += 1
                try:
                    PFAEngine.fromJson(doc)
                    ctx.fail(case, "format %r is accepted" % fmt)
                except Exception as err:
                    if type(err).__name__ not in ("PFASemanticException", "PFASyntaxException"):
                        ctx.fail(case, "format %r: %r" % (fmt, err))
    for doc, why in (({"unpack": "input", "format": [{"x": "raw"}], "then": [1]}, "unsized raw"), ({"unpack": "input", "format": [{"x": "int"}, {"x": "int"}], "then": [1]}, "a symbol twice"), ({"unpack": "input", "format": [{"input": "int"}], "then": [1]}, "a symbol in use"),
                     ({"unpack": "input", "format": [{"1x": "int"}], "then": [1]}, "an invalid symbol"), ({"unpack": "input", "format": [], "then": [1]}, "an empty format"), ({"unpack": {"string": "a"}, "format": [{"x": "int"}], "then": [1]}, "a string to unpack"),
                     ({"do": [{"unpack": "input", "format": [{"x": "int"}], "then": [1]}, "x"]}, "a symbol outside its scope"), ({"unpack": "input", "format": [{"x": "int"}], "then": [1], "else": ["x"]}, "a symbol in the else clause")):
        case = ("refused", why)
        if ctx.want(case):
            ctx.nontrivial += 1
            try:
                PFAEngine.fromJson({"input": "bytes", "output": "null", "action": [doc, None]})
                ctx.fail(case, "unpack with %s is accepted" % why)
            except Exception as err:
                if type(err).__name__ not in ("PFASemanticException", "PFASyntaxException"):
                    ctx.fail(case, "unpack with %s: %r" % (why, err))


def untag(t, v, env, ns=""):
    """The value as the Avro library wants it."""
    k, t, _, ns = env.resolve(t, ns)
    if k == "union":
        if v is None:
            return None
        (tag, x), = v.items()
        for b in t:
            if env.tag(b, ns) == tag:
                return untag(b, x, env, ns)
        raise ValueError((t, v))
    if k in ("bytes", "fixed"):
        return v if isinstance(v, bytes) else v.encode("latin-1")
    if k == "float":
        return struct.unpack("f", struct.pack("f", v))[0] if abs(v) < 3.4e38 or v != v or math.isinf(v) else v
    if k == "double":
        return float(v)
    if k == "array":
        return [untag(t["items"], x, env, ns) for x in v]
    if k == "map":
        return {q: untag(t["values"], x, env, ns) for q, x in v.items()}
    if k == "record":
        return {f["name"]: untag(f["type"], v[f["name"]], env, ns) for f in t["fields"]}
    return v


def once(x, seen):
    if isinstance(x, list):
        return [once(y, seen) for y in x]
    if isinstance(x, dict):
        if x.get("type") in ("record", "enum", "fixed"):
            name = (x.get("namespace", "") + "." + x["name"]).lstrip(".")
            if name in seen:
                return name
            seen.add(name)
        return {k: once(v, seen) for k, v in x.items()}
    return x


def files(ctx, n, of):
    types = U.universe(ctx.thorough)
    where = tempfile.mkdtemp(prefix="c32")
    try:
        for ti, t in list(enumerate(types))[n::of]:
            text = json.dumps(t)
            env = U.Env(t)
            vals = U.values(t, 4 if ctx.thorough else 3, env)
            plain = [untag(t, v, env) for v in vals]
            schema = avro.schema.Parse(json.dumps(once(t, set())))
            doc = {"input": t, "output": t if not (isinstance(t, dict) and "name" in t) else (t.get("namespace", "") + "." + t["name"]).lstrip("."), "action": "input"}
            doc = once(doc, set())
            try:
                engine = PFAEngine.fromJson(doc)[0]
            except Exception as err:
                ctx.fail(("files", text), "the identity of %s is refused: %s" % (text, err))
                continue
            for k in (0, 1, 2, 3, len(vals)):
                for first in (0, 1) if k < len(vals) else (0,):
                    data, want = vals[first:first + k], plain[first:first + k]
                    case = ("files", text, k, first)
                    if not ctx.want(case):
                        continue
                    ctx.nontrivial += 1
                    ctx.states += 1
                    ctx.transitions += len(data)
                    source, target = os.path.join(where, "in.avro"), os.path.join(where, "out.avro")
                    tagged = [tagAll(t, v, env) for v in data]
                    with open(source, "wb") as f:
                        w = DataFileWriter(f, BranchWriter(), schema)
                        for x in tagged:
                            w.append(x)
                        w.close()
                    try:
                        with open(source, "rb") as f:
                            got = list(engine.avroInputIterator(f))
                        outs = [outcome(engine.action, x) for x in got]
                    except Exception as err:
                        ctx.fail(case, "reading %s of type %s from a file: %s %s" % (show(want), text, type(err).__name__, err))
                        continue
                    if len(got) != len(want):
                        ctx.fail(case, "a file of %s of type %s is read as %s" % (show(want), text, show(got)))
                        continue
                    if not all(o[0] == "ok" for o in outs):
                        ctx.fail(case, "data read from a file of type %s are not accepted: %s gives %s" % (text, show(got), show(outs)))
                        continue
                    results = [[o[1] for o in outs], None]
                    results[-1] = [engine.action(U_copy(x)) for x in data]
                    for answers in results:
                        try:
                            w = engine.avroOutputDataFileWriter(target)
                            for x in answers:
                                w.append(x)
                            w.close()
                            with open(target, "rb") as f:
                                back = list(DataFileReader(f, TagReader()))
                        except Exception as err:
                            ctx.fail(case, "writing %s of type %s to a file: %s %s" % (show(answers), text, type(err).__name__, " ".join(str(err).split())[:200]))
                            break
                        ctx.outcome((text, repr(back)))
                        if len(back) != len(tagged) or not all(map(eq, back, tagged)):
                            ctx.fail(case, "outputs %s of type %s are written as %s" % (show(answers), text, show(back)))
                            break
    finally:
        shutil.rmtree(where)


def U_copy(x):
    return json.loads(json.dumps(x)) if not isinstance(x, bytes) else x


class BranchWriter(DatumWriter):
    """Writes the branch that is asked for."""

    def write(self, datum, encoder):
        self.write_data(self.writer_schema, datum, encoder)

    def write_union(self, writer_schema, datum, encoder):
        encoder.write_long(datum[1])
        self.write_data(writer_schema.schemas[datum[1]], datum[2], encoder)


class TagReader(DatumReader):
    """Keeps which branch of a union a datum is of."""

    def read_union(self, writer_schema, reader_schema, decoder):
        index = int(decoder.read_long())
        s = writer_schema.schemas[index]
        value = self.read_data(s, s, decoder)
        return ("branch", index, value)


def tagAll(t, v, env, ns=""):
    k, t, _, ns = env.resolve(t, ns)
    if k == "union":
        if v is None:
            return ("branch", t.index("null"), None)
        (tag, x), = v.items()
        for n, b in enumerate(t):
            if env.tag(b, ns) == tag:
                return ("branch", n, tagAll(b, x, env, ns))
        raise ValueError((t, v))
    if k == "array":
        return [tagAll(t["items"], x, env, ns) for x in v]
    if k == "map":
        return {q: tagAll(t["values"], x, env, ns) for q, x in v.items()}
    if k == "record":
        return {f["name"]: tagAll(f["type"], v[f["name"]], env, ns) for f in t["fields"]}
    return untag(t, v, env, ns)


def tasks(tier):
    out = [("formats of one %d" % k, formats, (k, 1)) for k in range(8)] + [("formats of two %d" % k, formats, (k, 2)) for k in range(len(CORE))]
    if tier == "thorough":
        out += [("formats of three %d" % k, formats, (k, 3)) for k in range(len(CORE))]
    n = 24 if tier == "thorough" else 8
    return out + [("errors", errors, ())] + [("files %d" % k, files, (k, n)) for k in range(n)]
