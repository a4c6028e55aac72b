"""C22: strings, bytes, regular expressions, parsing, casting, enums and fixed, against independent definitions."""
import itertools
import math
import struct
from fractions import Fraction

from mc.eng import *
from mc import universe as U
from mc.checks.C21 import encoded, A, M, bag, fcn

LEVEL = "exploration"
RULE = ("a case is one call of one function on the real engine: all strings to a length over a small alphabet with a non-ASCII letter, all tuples of them for functions of several, boundary numbers and indexes, all regular expressions of a grammar to a size against all haystacks; "
        "bytes in both of their run time forms (Python bytes from the input, latin-1 text from functions); non-trivial: not all arguments empty")
ASSUMPTIONS = ["replacing the empty string, malformed padding of base64, UTF-16 without a byte order mark, surrogates, and numerals with underscores or prefixes are left open",
               "regular expressions are POSIX extended ones: the leftmost, among those the longest match; where several parses of the same match assign groups differently any of them is admitted; unmatched optional groups are dropped; nothing is matched at the very end of the haystack; split drops one empty piece at either end (pinned by the repository's tests)",
               "cast.float computes in double precision"]

ALPHA = ["a", "b", "\u20ac"]
IMAX, LMAX = 2**31 - 1, 2**63 - 1


def strings(n, alpha=ALPHA):
    return ["".join(x) for k in range(n + 1) for x in itertools.product(alpha, repeat=k)]


def cut(n, start, end):
    """Indexes count from the end when negative and are truncated; end before start stands for nothing just before start."""
    start = min(max(start + n if start < 0 else start, 0), n)
    end = min(max(end + n if end < 0 else end, 0), n)
    return start, max(end, start)


def at(h, n):
    return [i for i in range(len(h) - len(n) + 1) if all(h[i + j] == n[j] for j in range(len(n)))]


def apart(h, n):
    """Places of n in h, leftmost first, not overlapping."""
    out, last = [], 0
    for i in at(h, n):
        if i >= last:
            out.append(i)
            last = i + len(n)
    return out


trivial = lambda *a: all(x == "" or x == b"" for x in a if isinstance(x, (str, bytes))) and any(isinstance(x, (str, bytes)) for x in a)


def go(ctx, name, types, ret, ref, cases, **kw):
    sweep(ctx, name, types, ret, ref, cases, trivial=trivial, **kw)


# ---------------------------------------------------------------- strings
def text(ctx):
    deep = strings(4 if ctx.thorough else 3)
    short = strings(2)
    one = [(s,) for s in deep]
    pairs = [(s, n) for s in deep for n in strings(2 if not ctx.thorough else 3)]
    idx = [-IMAX - 1, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, IMAX]
    S = "string"

    def count(xs):
        n = 0
        for x in xs:
            n += 1
        return n
    go(ctx, "s.len", [S], "int", count, one + [("\U0001f600",), ("e\u0301\n",)])
    go(ctx, "s.substr", [S, "int", "int"], S, lambda s, i, j: "".join(s[k] for k in range(*cut(len(s), i, j))), itertools.product(deep, idx, idx))
    go(ctx, "s.substrto", [S, "int", "int", S], S, lambda s, i, j, r: "".join([s[k] for k in range(0, cut(len(s), i, j)[0])] + [r] + [s[k] for k in range(cut(len(s), i, j)[1], len(s))]), itertools.product(deep if ctx.thorough else deep[:25], idx, idx, ["", "x", "a\u20ac"]))
    go(ctx, "s.contains", [S, S], "boolean", lambda h, n: len(at(h, n)) > 0, pairs)
    go(ctx, "s.count", [S, S], "int", lambda h, n: 0 if n == "" or h == "" else len(apart(h, n)), pairs)
    go(ctx, "s.index", [S, S], "int", lambda h, n: (at(h, n) + [-1])[0], pairs)
    go(ctx, "s.rindex", [S, S], "int", lambda h, n: ([-1] + at(h, n))[-1], pairs)
    go(ctx, "s.startswith", [S, S], "boolean", lambda h, n: 0 in at(h, n), pairs)
    go(ctx, "s.endswith", [S, S], "boolean", lambda h, n: len(h) - len(n) in at(h, n), pairs)

    def join(a, sep):
        out = ""
        for i, x in enumerate(a):
            out += (sep if i else "") + x
        return out
    go(ctx, "s.join", [A(S), S], S, join, [(list(x), s) for n in range(4) for x in itertools.product(["", "a", "b\u20ac"], repeat=n) for s in ("", ",", "ab")])

    def split(s, sep):
        if sep == "":
            return []
        out, last = [], 0
        for i in apart(s, sep):
            out.append(s[last:i])
            last = i + len(sep)
        return out + [s[last:]]
    go(ctx, "s.split", [S, S], A(S), split, pairs)
    go(ctx, "s.concat", [S, S], S, lambda a, b: "".join(list(a) + list(b)), pairs)
    go(ctx, "s.repeat", [S, "int"], S, lambda s, n: "".join(c for i in range(max(n, 0)) for c in s), itertools.product(short, [-IMAX - 1, -1, 0, 1, 2, 5]))
    pool = strings(2, ["a", "B", "\u00e9", "\u00c9", "1", "_"])
    swap = dict(zip("aB\u00e9\u00c9", "ab\u00e9\u00e9"))
    go(ctx, "s.lower", [S], S, lambda s: "".join(swap.get(c, c) for c in s), [(s,) for s in pool])
    swap2 = dict(zip("aB\u00e9\u00c9", "AB\u00c9\u00c9"))
    go(ctx, "s.upper", [S], S, lambda s: "".join(swap2.get(c, c) for c in s), [(s,) for s in pool])

    def lstrip(s, chars):
        i = 0
        while i < len(s) and s[i] in chars:
            i += 1
        return s[i:]

    def rstrip(s, chars):
        return lstrip(s[::-1], chars)[::-1]
    go(ctx, "s.lstrip", [S, S], S, lstrip, pairs)
    go(ctx, "s.rstrip", [S, S], S, rstrip, pairs)
    go(ctx, "s.strip", [S, S], S, lambda s, c: lstrip(rstrip(s, c), c), pairs)

    def put(s, places, old, new):
        out, last = "", 0
        for i in places:
            out += s[last:i] + new
            last = i + len(old)
        return out + s[last:]
    triples = list(itertools.product(deep, strings(2)[1:], ["", "a", "xa\u20ac"]))
    go(ctx, "s.replaceall", [S, S, S], S, lambda s, o, n: put(s, apart(s, o), o, n), triples)
    go(ctx, "s.replacefirst", [S, S, S], S, lambda s, o, n: put(s, apart(s, o)[:1], o, n), triples)
    go(ctx, "s.replacelast", [S, S, S], S, lambda s, o, n: put(s, at(s, o)[-1:], o, n), triples)

    def translate(s, old, new):
        out = ""
        for c in s:
            if c not in old:
                out += c
            elif old.index(c) < len(new):
                out += new[old.index(c)]
        return out
    go(ctx, "s.translate", [S, S, S], S, translate, itertools.product(deep, ["", "a", "ab", "ba", "a\u20ac", "aab"], ["", "x", "ba", "\u20acxyz"]))


def pad(s, width, zero):
    if width < 0:
        return s + " " * (-width - len(s))
    if zero:
        neg = s[:1] == "-"
        body = s[1:] if neg else s
        return ("-" if neg else "") + "0" * (width - len(s)) + body
    return " " * (width - len(s)) + s


def digits(n, base):
    out = ""
    while n:
        out = "0123456789abcdefghijklmnopqrstuvwxyz"[n % base] + out
        n //= base
    return out or "0"


def numbers(ctx):
    longs = [0, 1, 9, 10, 15, 16, 255, 256, 2**31 - 1, 2**31, 2**53 + 1, LMAX, -1, -9, -16, -255, -2**31, -LMAX - 1]
    widths = [-20, -9, -8, -2, -1, 1, 2, 3, 8, 9, 20, 30]

    def hexa(x, width=None, zero=None):
        if x < 0:
            raise Err(39111)
        if width is None:
            return digits(x, 16)
        if zero and width < 0:
            raise Err(39110)
        return pad(digits(x, 16), width, zero)

    def dec(base):
        def f(x, width=None, zero=None):
            s = ("-" if x < 0 else "") + digits(abs(x), 10)
            if width is None:
                return s
            if zero and width < 0:
                raise Err(base)
            return pad(s, width, zero)
        return f
    for name, ref in (("s.hex", hexa), ("s.int", dec(39240))):
        go(ctx, name, ["long"], "string", ref, [(x,) for x in longs])
        go(ctx, name, ["long", "int", "boolean"], "string", ref, itertools.product(longs, widths, [True, False]))
        go(ctx, name, ["int"], "string", ref, [(x,) for x in longs if abs(x) <= IMAX])
    doubles = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1 / 3.0, 2.5, 0.00012345678, 0.0001, 0.00009999, 99999.0, 100000.0, 100000.5, 123456.789, 1e6, 1e10, 1e300, 1e-300, 5e-324, 1234567.0, 0.125, 0.375, 9.9999999, 999999.9999999, -3.14159265358979, -2.5e-7, 1e22, float("nan"), float("inf"), float("-inf")]

    def number(x, width, precision, lo=0.0001, hi=100000):
        if precision is not None and precision < 0:
            raise Err(39121)
        if x != x or x in (float("inf"), float("-inf")):
            s = "nan" if x != x else "inf" if x > 0 else "-inf"
        else:
            places = 6 if precision is None else precision
            v = abs(Fraction(x))

            def fixed(v):
                n = v * 10**places
                r = n.numerator // n.denominator
                rest = n - r
                if rest > Fraction(1, 2) or rest == Fraction(1, 2) and r % 2:
                    r += 1
                t = digits(r, 10).rjust(places + 1, "0")
                return (t[:-places] + "." + t[-places:] if places else t), r
            if v == 0 or lo <= abs(x) <= hi:
                s, r = fixed(v)
                if precision is None:
                    s = s.rstrip("0")
                    s += "0" if s.endswith(".") else ""
            else:
                e = 0
                while v >= 10**(e + 1) if e >= 0 else v >= Fraction(1, 10**(-e - 1)) and e < -1:
                    e += 1
                while v < (Fraction(10)**e):
                    e -= 1
                m, r = fixed(v / Fraction(10)**e)
                if r >= 10**(places + 1):
                    e += 1
                    m, r = fixed(v / Fraction(10)**e)
                if precision is None:
                    m = m.rstrip("0")
                    m += "0" if m.endswith(".") else ""
                s = m + "e" + ("-" if e < 0 else "+") + str(abs(e)).rjust(2, "0")
            if x < 0:
                s = "-" + s
        return s if width is None else pad(s, width, False)
    UI = ["int", "null"]
    go(ctx, "s.number", ["double", UI, UI], "string", number, itertools.product(doubles, [None, -12, -3, 1, 5, 12, 20], [None, 0, 1, 3, 10, -1]))
    go(ctx, "s.number", ["double", UI, UI, "double", "double"], "string", number, itertools.product(doubles, [None, -12, 12], [None, 0, 2, -1], [0.0, 1e-10, 1.0, 1e4], [0.0, 1.0, 1e4, 1e12]), label="s.number/range")


# ---------------------------------------------------------------- bytes
def utf8(s):
    out = b""
    for c in s:
        n = ord(c)
        if n < 0x80:
            out += bytes([n])
        elif n < 0x800:
            out += bytes([0xc0 | n >> 6, 0x80 | n & 63])
        elif n < 0x10000:
            out += bytes([0xe0 | n >> 12, 0x80 | n >> 6 & 63, 0x80 | n & 63])
        else:
            out += bytes([0xf0 | n >> 18, 0x80 | n >> 12 & 63, 0x80 | n >> 6 & 63, 0x80 | n & 63])
    return out


def utf16(s, big):
    out = b""
    for c in s:
        n = ord(c)
        for u in ([n] if n < 0x10000 else [0xd800 + ((n - 0x10000) >> 10), 0xdc00 + ((n - 0x10000) & 1023)]):
            out += bytes([u >> 8, u & 255] if big else [u & 255, u >> 8])
    return out


def toUtf16(b, big):
    if len(b) % 2:
        return None
    units = [b[i] * 256 + b[i + 1] if big else b[i + 1] * 256 + b[i] for i in range(0, len(b), 2)]
    out, i = "", 0
    while i < len(units):
        u = units[i]
        if 0xd800 <= u < 0xdc00:
            if i + 1 == len(units) or not 0xdc00 <= units[i + 1] < 0xe000:
                return None
            out += chr(0x10000 + ((u - 0xd800) << 10) + units[i + 1] - 0xdc00)
            i += 2
        elif 0xdc00 <= u < 0xe000:
            return None
        else:
            out += chr(u)
            i += 1
    return out


def toUtf8(b):
    out, i = "", 0
    while i < len(b):
        n = b[i]
        k = 0 if n < 0x80 else 1 if 0xc2 <= n < 0xe0 else 2 if 0xe0 <= n < 0xf0 else 3 if 0xf0 <= n < 0xf5 else None
        if k is None or i + k >= len(b):
            return None
        v = n if k == 0 else n & (0x3f >> k)
        for c in b[i + 1:i + 1 + k]:
            if c >> 6 != 2:
                return None
            v = v << 6 | c & 63
        if k == 2 and (v < 0x800 or 0xd800 <= v < 0xe000) or k == 3 and not 0x10000 <= v < 0x110000:
            return None
        out += chr(v)
        i += k + 1
    return out


def base64(b):
    letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    out = ""
    for i in range(0, len(b), 3):
        part = b[i:i + 3]
        n = int.from_bytes(part + b"\0" * (3 - len(part)), "big")
        out += "".join(letters[n >> s & 63] for s in (18, 12, 6, 0))[:len(part) + 1] + "=" * (3 - len(part))
    return out


class Form(object):
    """Calls of a function of bytes and other arguments, the bytes in one of their run time forms."""

    def __init__(self, fname, types, ret, form):
        self.form, self.types = form, types
        fields = [{"name": "a%d" % i, "type": "string" if t == "bytes" and form == "text" else t} for i, t in enumerate(types)]
        args = [{"bytes.encodeLatin1": "input.a%d" % i} if t == "bytes" and form == "text" else "input.a%d" % i for i, t in enumerate(types)]
        self.engine = make({"input": {"type": "record", "name": "In", "fields": fields}, "output": ret, "action": [{fname: args}]})

    def __call__(self, *values):
        data = {}
        for i, (t, v) in enumerate(zip(self.types, values)):
            data["a%d" % i] = v.decode("latin-1") if t == "bytes" and self.form != "bytes" else v
        got = outcome(self.engine.action, data)
        return (got[0], U.raw(got[1])) if got[0] == "ok" else got


def both(ctx, name, types, ret, ref, cases, code=None):
    """Sweep with each form of the bytes; bytes in results compared as latin-1 text."""
    cases = list(cases)
    for form in ("bytes", "json", "text"):
        call = Form(name, types, ret, form)
        for args in cases:
            case = (name, form) + tuple(args)
            if not ctx.want(case):
                continue
            want = expect(ref, *args)
            if want[0] == "ok":
                if want[1] is SKIP:
                    continue
                want = ("ok", U.raw(want[1]))
            got = call(*args)
            if not trivial(*args):
                ctx.nontrivial += 1
            ctx.outcome((name, repr(want[1])))
            if not agree(got, want):
                ctx.fail(case, "{0}{1} with bytes as {2} gives {3}, must give {4}".format(name, show(args), form, show(got), show(want)))
                if ctx.full():
                    return


def octets(ctx):
    sample = [bytes(x) for n in range(4 if ctx.thorough else 3) for x in itertools.product([0, 65, 0x7f, 0x80, 0xe9, 0xff], repeat=n)]
    idx = [-IMAX - 1, -4, -3, -2, -1, 0, 1, 2, 3, 4, IMAX]
    both(ctx, "bytes.len", ["bytes"], "int", lambda b: sum(1 for x in b), [(b,) for b in sample])
    both(ctx, "bytes.subseq", ["bytes", "int", "int"], "bytes", lambda b, i, j: bytes(b[k] for k in range(*cut(len(b), i, j))), itertools.product([b"", b"a", b"a\xff", b"a\x80b", b"abcd"], idx, idx))
    both(ctx, "bytes.subseqto", ["bytes", "int", "int", "bytes"], "bytes", lambda b, i, j, r: b[:cut(len(b), i, j)[0]] + r + b[cut(len(b), i, j)[1]:], itertools.product([b"", b"a", b"a\x80b"], idx, idx, [b"", b"x\xff"]))
    texts = strings(3 if ctx.thorough else 2, ["a", "\x7f", "\x80", "\xe9", "\u0153", "\u20ac", "\U0001f600"])
    hard = sample + [utf8(s) for s in texts] + [utf8(s)[:-1] for s in texts[1:]] + [utf16(s, big) for s in texts for big in (True, False)] + [bytes(x) for n in (2, 3, 4) for x in itertools.product([0xe0, 0xed, 0xf0, 0xf4, 0x80, 0x9f, 0xa0, 0xd8, 0xdc], repeat=n) if n < 4 or ctx.thorough or x[0] > 0xef]

    def marked(b):
        if b[:2] == b"\xfe\xff":
            return toUtf16(b[2:], True)
        if b[:2] == b"\xff\xfe":
            return toUtf16(b[2:], False)
        return SKIP if b else ""
    marks = [m + utf16(s, m == b"\xfe\xff") for m in (b"\xfe\xff", b"\xff\xfe") for s in texts] + [b"\xfe\xff\xd8", b"\xfe\xff\xd8\x00", b"\xff\xfe\x00\xdc"]
    decoders = [("Ascii", lambda b: b.decode("latin-1") if all(x < 128 for x in b) else None, hard, 16030, 16090), ("Latin1", lambda b: "".join(chr(x) for x in b), hard, 16040, 16100), ("Utf8", toUtf8, hard, 16050, 16110),
                ("Utf16", marked, marks + [b""], 16060, 16120), ("Utf16be", lambda b: toUtf16(b, True), hard, 16070, 16130), ("Utf16le", lambda b: toUtf16(b, False), hard, 16080, 16140)]
    for label, f, cases, _, code in decoders:
        def decode(b, f=f, code=code):
            out = f(b)
            if out is None:
                raise Err(code)
            return out
        both(ctx, "bytes.decode" + label, ["bytes"], "string", decode, [(b,) for b in cases])
        both(ctx, "bytes.is" + label, ["bytes"], "boolean", lambda b, f=f: SKIP if f(b) is SKIP else f(b) is not None, [(b,) for b in cases])
    encoders = [("Ascii", lambda s: s.encode("latin-1") if all(ord(c) < 128 for c in s) else None, 16150), ("Latin1", lambda s: bytes(ord(c) for c in s) if all(ord(c) < 256 for c in s) else None, 16160), ("Utf8", utf8, 16170),
                ("Utf16be", lambda s: utf16(s, True), 16190), ("Utf16le", lambda s: utf16(s, False), 16200)]
    for label, f, code in encoders:
        def encode(s, f=f, code=code):
            out = f(s)
            if out is None:
                raise Err(code)
            return out
        both(ctx, "bytes.encode" + label, ["string"], "bytes", encode, [(s,) for s in texts])
        both(ctx, "bytes.is" + label, ["string"], "boolean", lambda s, f=f: f(s) is not None, [(s,) for s in texts])
    engine = make({"input": "string", "output": "bytes", "action": [{"bytes.encodeUtf16": "input"}]})
    for s in texts:
        if ctx.want(["bytes.encodeUtf16", s]):
            got = U.raw(engine.action(s)).encode("latin-1")
            if marked(got) != s:
                ctx.fail(["bytes.encodeUtf16", s], "bytes.encodeUtf16({0!r}) gives {1!r}".format(s, got))
    both(ctx, "bytes.toBase64", ["bytes"], "string", base64, [(b,) for b in hard])
    both(ctx, "bytes.fromBase64", ["string"], "bytes", lambda s: dict((base64(b), b) for b in hard)[s], [(base64(b),) for b in hard[:400]])

    def bad(s):
        raise Err(16220)
    both(ctx, "bytes.fromBase64", ["string"], "bytes", bad, [(s,) for s in ["a", "ab", "abc", "abcde", "a===", "ab c", "abc!", "=abc", "ab=c", "\u20acbcd", "YQ==YQ==", " YQ==", "ab-_"]])


# ---------------------------------------------------------------- regular expressions
# ("c", "a") | ("any",) | ("set", "ab", negated) | ("cat", x, y) | ("alt", x, y) | ("rep", x, lo, hi) | ("grp", x) | ("e",) | ("^",) | ("$",)
def render(r):
    k = r[0]
    if k == "c":
        return r[1]
    if k == "any":
        return "."
    if k == "set":
        return "[" + ("^" if r[2] else "") + r[1] + "]"
    if k == "cat":
        return "".join(render(x) for x in r[1:])
    if k == "alt":
        return render(r[1]) + "|" + render(r[2])
    if k == "rep":
        return render(r[1]) + {(0, None): "*", (1, None): "+", (0, 1): "?"}.get((r[2], r[3]), "{%d%s}" % (r[2], "" if r[3] == r[2] else ",%s" % ("" if r[3] is None else r[3])))
    if k == "grp":
        return "(" + render(r[1]) + ")"
    return {"e": "", "^": "^", "$": "$"}[k]


def number_groups(r, counter):
    if r[0] == "grp":
        counter[0] += 1
        n = counter[0]
        return ("grp", number_groups(r[1], counter), n)
    if r[0] in ("cat", "alt"):
        return (r[0],) + tuple(number_groups(x, counter) for x in r[1:])
    if r[0] == "rep":
        return ("rep", number_groups(r[1], counter), r[2], r[3])
    return r


def parses(r, s, i):
    """All ways r matches s from i: a set of (end, groups), groups a frozenset of (number, begin, end) of the last iteration."""
    k = r[0]
    if k == "c":
        return {(i + 1, frozenset())} if i < len(s) and s[i] == r[1] else set()
    if k == "any":
        return {(i + 1, frozenset())} if i < len(s) else set()
    if k == "set":
        return {(i + 1, frozenset())} if i < len(s) and (s[i] in r[1]) != r[2] else set()
    if k == "e":
        return {(i, frozenset())}
    if k == "^":
        return {(i, frozenset())} if i == 0 else set()
    if k == "$":
        return {(i, frozenset())} if i == len(s) else set()
    if k == "alt":
        return parses(r[1], s, i) | parses(r[2], s, i)
    if k == "cat":
        out = {(i, frozenset())}
        for x in r[1:]:
            out = {(e2, g | g2) for e, g in out for e2, g2 in parses(x, s, e)}
        return out
    if k == "grp":
        return {(e, g | {(r[2], i, e)}) for e, g in parses(r[1], s, i)}
    x, lo, hi = r[1], r[2], r[3]
    out, front = set(), {(i, frozenset())}
    n = 0
    while front:
        if n >= lo:
            out |= front
        if n == hi or n > len(s) + lo:
            break
        nxt = set()
        for e, g in front:
            for e2, g2 in parses(x, s, e):
                if e2 == e and n >= lo and n > 0:
                    continue
                inner = {a for a, _, _ in g2}
                # groups of earlier iterations may survive or be reset: both admitted
                nxt.add((e2, g2 | frozenset(t for t in g if t[0] not in inner)))
                if g:
                    nxt.add((e2, g2))
        front = nxt - out
        n += 1
    return out


def matches(r, s, begin=0):
    """The leftmost, longest matches, one after the other: [(begin, end, set of group assignments)]."""
    out, i = [], begin
    while i < len(s):
        found = None
        for b in range(i, len(s) + 1):
            ps = parses(r, s, b)
            if ps:
                e = max(e for e, _ in ps)
                found = (b, e, {g for e2, g in ps if e2 == e})
                break
        if found is None:
            break
        out.append(found)
        i = found[1] if found[1] > found[0] else found[1] + 1
    return out


def grammar(deep):
    a, b, u = ("c", "a"), ("c", "b"), ("c", "\u20ac")
    atoms = [a, b, u, ("any",), ("set", "ab", False), ("set", "a", True)]
    reps = [("rep", x, lo, hi) for x in (a, u, ("any",), ("set", "a", True), ("grp", a), ("grp", ("cat", a, b)), ("grp", ("alt", a, b)), ("grp", ("alt", a, ("cat", a, b)))) for lo, hi in [(0, None), (1, None), (0, 1), (2, 2), (1, 2), (2, None)]]
    units = atoms + reps + [("grp", x) for x in atoms[:2] + reps[:12]] + [("grp", ("alt", a, ("cat", b, a))), ("grp", ("alt", ("cat", a, b), a))]
    out = list(units)
    tails = units if deep else units[:4] + reps[:3] + reps[6:9] + units[-6:]
    out += [("cat", x, y) for x in units for y in tails]
    out += [("alt", x, y) for x in units[:10] + reps[:8] + reps[24:27] for y in units[:6] + reps[:3] + reps[24:30:2]]
    out += [("cat", ("^",), x) for x in units] + [("cat", x, ("$",)) for x in units] + [("cat", ("^",), x, ("$",)) for x in units[:20]]
    return out


def regex(ctx, part, parts):
    ctx.sample("pieces: " + render(grammar(ctx.thorough)[part]), 1)
    hay = strings(4 if ctx.thorough else 3) + ["abab", "aabb", "baab\u20acab", "ab\u20ac\u20acab", "aaaaa"]
    S = "string"
    for kind in (S, "bytes"):
        types = {"index": A("int"), "contains": "boolean", "count": "int", "rindex": A("int"), "groups": A(A("int")), "indexall": A(A("int")), "findall": A(kind), "findfirst": [kind, "null"], "findgroupsfirst": A(kind), "findgroupsall": A(A(kind)), "groupsall": A(A(A("int"))), "split": A(kind)}
        names = sorted(types)
        fields = [{"name": n, "type": types[n]} for n in names]
        new = dict((n, {"re." + n: ["input.h", "input.p"]}) for n in names)
        for n in ("replacefirst", "replacelast", "replaceall"):
            fields.append({"name": n, "type": kind})
            new[n] = {"re." + n: ["input.h", "input.p", "input.r"]}
        engine = make({"input": {"type": "record", "name": "In", "fields": [{"name": x, "type": kind} for x in "hpr"]},
                       "output": {"type": "record", "name": "Out", "fields": fields}, "action": [{"new": new, "type": "Out"}]})
        for gi, r0 in enumerate(grammar(ctx.thorough)):
            if gi % parts != part:
                continue
            counter = [0]
            r = number_groups(r0, counter)
            pattern = render(r0)
            if kind == "bytes" and "\u20ac" in pattern or kind == "bytes" and gi % 3 and not ctx.thorough:
                continue
            for h in hay:
                if kind == "bytes" and "\u20ac" in h:
                    h = h.replace("\u20ac", "\xff")
                for rep in ("", "x\\0") if len(h) < 4 else ("yb",):
                    case = [kind, pattern, h, rep]
                    if not ctx.want(case):
                        continue
                    got = outcome(engine.action, {"h": h, "p": pattern, "r": rep})
                    ms = matches(r, h)
                    ctx.nontrivial += 1 if ms else 0
                    ctx.outcome((kind, repr(ms)))
                    if got[0] != "ok":
                        ctx.fail(case, "{0} for {1!r} in {2!r}".format(got, pattern, h))
                        continue
                    got = U.raw(got[1])
                    cutout = lambda ms: [h[x:y] for x, y in zip([0] + [m[1] for m in ms], [m[0] for m in ms] + [len(h)])]
                    pieces = cutout(ms)

                    def choices(m, f):
                        return [[f(b, e) for _, b, e in [(0, m[0], m[1])] + sorted(g)] for g in m[2]]
                    span = lambda b, e: [b, e]
                    word = lambda b, e: h[b:e]
                    sp = pieces
                    if ms:
                        if ms[0][0] == 0:
                            sp = sp[1:]
                        if ms[-1][1] == len(h):
                            sp = sp[:-1]
                    want = {"index": list(ms[0][:2]) if ms else [], "contains": bool(ms), "count": len(ms), "rindex": list(ms[-1][:2]) if ms else [], "indexall": [list(m[:2]) for m in ms], "findall": [h[m[0]:m[1]] for m in ms], "findfirst": {kind: h[ms[0][0]:ms[0][1]]} if ms else None,
                            "replaceall": rep.join(pieces), "replacefirst": rep.join(cutout(ms[:1])), "replacelast": rep.join(cutout(ms[-1:])), "split": sp}
                    if ms and len(ms) == 1 and ms[0][0] == 0 and ms[0][1] == len(h):
                        want["split"] = []
                    for n in sorted(want):
                        if not same(got[n], want[n]):
                            ctx.fail(case + [n], "re.{0} of {1!r} in {2!r} ({3}) gives {4}, must give {5}".format(n, pattern, h, kind, show(got[n]), show(want[n])))
                    some = {"groups": [got["groups"]] if ms else [], "findgroupsfirst": [got["findgroupsfirst"]] if ms else [], "groupsall": got["groupsall"], "findgroupsall": got["findgroupsall"]}
                    for n, f in (("groups", span), ("groupsall", span), ("findgroupsfirst", word), ("findgroupsall", word)):
                        these = ms[:1] if n in ("groups", "findgroupsfirst") else ms
                        xs = some[n]
                        if len(xs) != len(these) or any(x not in choices(m, f) for x, m in zip(xs, these)) or not ms and got[n] != []:
                            ctx.fail(case + [n], "re.{0} of {1!r} in {2!r} ({3}) gives {4}, must be one of {5}".format(n, pattern, h, kind, show(got[n]), show([choices(m, f) for m in these])))
                    if ctx.full():
                        return


def patterns(ctx):
    """Ill-formed patterns are errors, of both kinds and all functions."""
    names = [n for n in sorted(SIGS) if n.startswith("re.")]
    for n in names:
        three = "replace" in n
        for kind in ("string", "bytes"):
            for bad in ("(", "[a", "a{2", "*(", "(a", "[[:nosuch:]]", "a{3,2}", "\\"):
                def ref(*a):
                    raise Err(CODES[n])
                ret = RETS[n](kind)
                sweep(ctx, n, [kind] * (3 if three else 2), ret, ref, [("aab", bad) + (("x",) if three else ())], label="%s/%s/bad" % (n, kind))


RETS = {"re.index": lambda k: A("int"), "re.contains": lambda k: "boolean", "re.count": lambda k: "int", "re.rindex": lambda k: A("int"), "re.groups": lambda k: A(A("int")), "re.indexall": lambda k: A(A("int")), "re.findall": lambda k: A(k), "re.findfirst": lambda k: [k, "null"],
        "re.findgroupsfirst": lambda k: A(k), "re.findgroupsall": lambda k: A(A(k)), "re.groupsall": lambda k: A(A(A("int"))), "re.replacefirst": lambda k: k, "re.replacelast": lambda k: k, "re.split": lambda k: A(k), "re.replaceall": lambda k: k}
SIGS = sorted(RETS)
CODES = dict((n, 35000 + 10 * i) for i, n in enumerate(["re.index", "re.contains", "re.count", "re.rindex", "re.groups", "re.indexall", "re.findall", "re.findfirst", "re.findgroupsfirst", "re.findgroupsall", "re.groupsall", "re.replacefirst", "re.replacelast", "re.split", "re.replaceall"]))


# ---------------------------------------------------------------- parsing and casting
def value(s, base):
    s = s.strip(" ")
    sign = -1 if s[:1] == "-" else 1
    if s[:1] in ("-", "+"):
        s = s[1:]
    if not s:
        return None
    n = 0
    for c in s:
        d = "0123456789abcdefghijklmnopqrstuvwxyz".find(c.lower()) if c.isascii() else -1
        if not 0 <= d < base:
            return None
        n = n * base + d
    return sign * n


def parsing(ctx):
    alphabet = ["", "-", "+", "0", "1", "9", "a", "z", "A", " ", "."]
    words = sorted(set("".join(x) for x in itertools.product(alphabet, repeat=4 if ctx.thorough else 3)))
    words += [s + digits(n, b) for n in (IMAX, IMAX + 1, IMAX + 2, LMAX, LMAX + 1, LMAX + 2) for b in (2, 10, 16, 36) for s in ("", "-", " -")]
    bases = [-IMAX - 1, -1, 0, 1, 2, 3, 8, 10, 11, 16, 35, 36, 37, IMAX]
    for name, code, top in (("int", 33000, IMAX), ("long", 33010, LMAX)):
        def ref(s, base):
            if not 2 <= base <= 36:
                raise Err(code + 1)
            if s.strip(" ")[:2] in ("+ ", "- "):
                return SKIP     # read by the int of some Python implementations
            n = value(s, base)
            if n is None or not -top - 1 <= n <= top:
                raise Err(code)
            return n
        sweep(ctx, "parse." + name, ["string", "int"], name, ref, itertools.product(words, bases), trivial=lambda s, b: not s)
    chars = ["", "-", "+", ".", "1", "05", "e", "E", "e5", "e-", "x", " "]
    nums = sorted(set("".join(x) for x in itertools.product(chars, repeat=4))) + ["nan", "NaN", "inf", "-inf", "+INF", " inf ", "1e400", "-1e400", "1e-400", "0.1", "123456789012345678901234567890", "1e-50", "3.5e38", "-3.5e38", "1.5e-45", "infx", "nanx", "1 2"]
    import re as _re

    def decimal(code, limit, least):
        def ref(s):
            t = s.strip(" ").lower()
            if t in ("nan", "+nan", "-nan"):
                return float("nan")
            if t in ("inf", "+inf", "-inf"):
                return float("-inf") if t[0] == "-" else float("inf")
            m = _re.match(r"^([-+]?)(\d*)(?:\.(\d*))?(?:e([-+]?\d+))?$", t)
            if m is None or not m.group(2) and not m.group(3):
                raise Err(code)
            v = Fraction(int((m.group(2) or "") + (m.group(3) or "") or "0")) * Fraction(10) ** (int(m.group(4) or "0") - len(m.group(3) or ""))
            sign = -1 if m.group(1) == "-" else 1
            if v > limit:
                return sign * float("inf")
            out = v.numerator / v.denominator
            return 0.0 if out < least else sign * out
        return ref
    sweep(ctx, "parse.double", ["string"], "double", decimal(33030, Fraction(1.7976931348623157e308), 4.9e-324), [(s,) for s in nums], trivial=lambda s: not s)
    sweep(ctx, "parse.float", ["string"], "float", decimal(33020, Fraction(3.4028235e38), 1.4e-45), [(s,) for s in nums], trivial=lambda s: not s)


def casting(ctx):
    longs = sorted(set(s * (2**k) + d for k in (0, 1, 2, 7, 8, 15, 31, 32, 53, 62, 63) for s in (1, -1) for d in (-2, -1, 0, 1, 2) if -LMAX - 1 <= s * 2**k + d <= LMAX))
    bits = [-IMAX - 1, -1, 0, 1, 2, 3, 4, 8, 16, 31, 32, 33, 62, 63, 64, 65, IMAX]

    def signed(x, n):
        if not 2 <= n <= 64:
            raise Err(17000)
        x &= 2**n - 1
        return x - 2**n if x >> (n - 1) else x

    def unsigned(x, n):
        if not 1 <= n <= 63:
            raise Err(17010)
        return x & (2**n - 1)
    sweep(ctx, "cast.signed", ["long", "int"], "long", signed, itertools.product(longs, bits))
    sweep(ctx, "cast.unsigned", ["long", "int"], "long", unsigned, itertools.product(longs, bits))
    doubles = [0.0, -0.0, 0.5, 0.49999999999999994, -0.5, -0.49999999999999994, 1.5, -1.5, 2.5, 0.9999999999999999, IMAX + 0.0, IMAX + 0.25, IMAX + 0.5, IMAX + 1.0, -IMAX - 1.0, -IMAX - 1.5, -IMAX - 1.75, 2.0**52 + 0.5, 2.0**52 + 1, 2.0**53 - 1, 2.0**53, -2.0**52 - 1, 2.0**62, 2.0**63, -2.0**63, 9.223372036854775e18, -9.3e18, 1e300, 5e-324, float("nan"), float("inf"), float("-inf")]

    def rounded(top, code):
        def ref(x):
            if isinstance(x, float):
                if x != x or x in (float("inf"), float("-inf")):
                    raise Err(code)
                x = Fraction(x) + Fraction(1, 2)
                x = x.numerator // x.denominator
            if not -top - 1 <= x <= top:
                raise Err(code)
            return x
        return ref
    for t in ("float", "double"):
        sweep(ctx, "cast.int", [t], "int", rounded(IMAX, 17020), [(x,) for x in doubles], label="cast.int/" + t)
        sweep(ctx, "cast.long", [t], "long", rounded(LMAX, 17030), [(x,) for x in doubles], label="cast.long/" + t)
    ints = [x for x in longs if -IMAX - 1 <= x <= IMAX]
    for t, xs in (("int", ints), ("long", longs)):
        sweep(ctx, "cast.int", [t], "int", rounded(IMAX, 17020), [(x,) for x in xs], label="cast.int/" + t)
        sweep(ctx, "cast.long", [t], "long", rounded(LMAX, 17030), [(x,) for x in xs], label="cast.long/" + t)
        for f in ("float", "double"):
            sweep(ctx, "cast." + f, [t], f, lambda x: struct.unpack("<d", struct.pack("<d", x))[0], [(x,) for x in xs], label="cast.%s/%s" % (f, t))
    for t in ("float", "double"):
        for f in ("float", "double"):
            sweep(ctx, "cast." + f, [t], f, lambda x: x, [(x,) for x in doubles], label="cast.%s/%s" % (f, t))
    E = {"type": "enum", "name": "En", "symbols": ["zz", "aa", "mm"]}
    for kind, yes, no in (("Boolean", True, False), ("Int", 1, 0), ("Long", 1, 0), ("Float", 1.0, 0.0), ("Double", 1.0, 0.0)):
        name, ret, code = "cast.fanout" + kind, A(kind.lower()), 17060 + 10 * ["Boolean", "Int", "Long", "Float", "Double"].index(kind)
        sweep(ctx, name, [E], ret, lambda x: [yes if x == s else no for s in ("zz", "aa", "mm")], [(s,) for s in E["symbols"]])

        def fromDict(x, d, extra):
            if any(d[i] == d[j] for i in range(len(d)) for j in range(i)):
                raise Err(code)
            out = [yes if x == s else no for s in d]
            return out + [yes if not any(x == s for s in d) else no] if extra else out
        sweep(ctx, name, ["string", A("string"), "boolean"], ret, fromDict, itertools.product(["", "a", "b", "c\u20ac"], [list(d) for n in range(4) for d in itertools.product(["a", "b", ""], repeat=n)], [True, False]))

        def fromRange(x, lo, hi, extra):
            out = []
            i = lo
            while i < hi:
                out.append(yes if x == i else no)
                i += 1
            return out + [no if lo <= x < hi else yes] if extra else out
        sweep(ctx, name, ["int", "int", "int", "boolean"], ret, fromRange, itertools.product([-IMAX - 1, -2, -1, 0, 1, 2, 3, IMAX], [-2, 0, 1], [-2, 0, 1, 3], [True, False]), label=name + "/range")
    sweep(ctx, "enum.toString", [E], "string", lambda s: s, [(s,) for s in E["symbols"]])
    sweep(ctx, "enum.toInt", [E], "int", lambda s: {"zz": 0, "aa": 1, "mm": 2}[s], [(s,) for s in E["symbols"]])
    sweep(ctx, "enum.numSymbols", [E], "int", lambda s: 3, [(s,) for s in E["symbols"]])
    # fixed, in both forms
    F = {"type": "fixed", "name": "Fx", "size": 3}
    odd = [b"abc", b"\x00\x80\xff", b"\xe9b\x7f"]
    both(ctx, "fixed.toBytes", [F], "bytes", lambda b: b, [(b,) for b in odd])
    both(ctx, "fixed.fromBytes", [F, "bytes"], "Fx", lambda f, b: b[:3] + f[len(b):], [(f, r) for f in odd for r in (b"", b"x", b"\xff\x00", b"xyz", b"xyzw\x80")])
    # Avro and JSON text
    R = {"type": "record", "name": "Rc", "fields": [{"name": "n", "type": "int"}, {"name": "s", "type": "string"}]}
    for t, xs in ((["int", "string"], [1, "x"]), (["null", "int"], [None, 3]), (R, [{"n": -5, "s": "\u20ac"}, {"n": 0, "s": ""}]), (A(A("int")), [[], [[]], [[1, 2], [3]]]), (M("int"), [{}, {"a": 1}, {"\u20ac": -1}]), ("string", ["", "\u20ac\"\\\n"]), ("long", longs), ("double", [0.0, -1.5, 1e300]), ("float", [0.5, -2.25]),
                  ("boolean", [True, False]), ("null", [None]), (E, E["symbols"]), ("bytes", [b"", b"\x00\xff"]), (F, odd), (A(["null", "double"]), [[None, 1.5], []]), ({"type": "record", "name": "Rz", "fields": [{"name": "b", "type": "bytes"}, {"name": "u", "type": ["null", A("int")]}]}, [{"b": b"\xe9", "u": None}, {"b": b"", "u": [1]}])):
        c = Call("cast.avro", [t], "bytes")
        j = Call("cast.json", [t], "string")
        for x in xs:
            case = ["cast", t, x]
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            a, b = c(x), j(x)
            if a[0] != "ok" or U.raw(a[1]).encode("latin-1") != wire(t, x):
                ctx.fail(case, "cast.avro({0!r}) of type {1} gives {2}, must give {3}".format(x, t, a, wire(t, x)))
            import json
            if b[0] != "ok" or json.loads(b[1]) != tagged(t, x) or "\n" in b[1]:
                ctx.fail(case, "cast.json({0!r}) of type {1} gives {2}, must stand for {3}".format(x, t, b, tagged(t, x)))


def branch(t, x):
    kinds = {"int": lambda x: isinstance(x, int), "double": lambda x: isinstance(x, float), "string": lambda x: isinstance(x, str), "null": lambda x: x is None, "array": lambda x: isinstance(x, list)}
    return next(i for i, b in enumerate(t) if kinds[b["type"] if isinstance(b, dict) else b](x))


def wire(t, x):
    from mc.checks.C21 import zigzag
    if isinstance(t, list):
        i = branch(t, x)
        return zigzag(i) + wire(t[i], x)
    if t == "bytes":
        return zigzag(len(x)) + x
    if isinstance(t, dict) and t["type"] == "fixed":
        return x
    if isinstance(t, dict) and t["type"] == "map":
        return (zigzag(len(x)) + b"".join(wire("string", k) + wire(t["values"], v) for k, v in x.items()) if x else b"") + b"\0"
    if isinstance(t, dict) and t["type"] == "array":
        return (zigzag(len(x)) + b"".join(wire(t["items"], y) for y in x) if x else b"") + b"\0"
    if isinstance(t, dict) and t["type"] == "record":
        return b"".join(wire(f["type"], x[f["name"]]) for f in t["fields"])
    return encoded(t, x)


def tagged(t, x):
    if isinstance(t, list):
        b = t[branch(t, x)]
        return None if b == "null" else {b["type"] if isinstance(b, dict) else b: tagged(b, x)}
    if isinstance(x, bytes):
        return x.decode("latin-1")
    if isinstance(t, dict) and t["type"] == "map":
        return dict((k, tagged(t["values"], v)) for k, v in x.items())
    if isinstance(t, dict) and t["type"] == "array":
        return [tagged(t["items"], v) for v in x]
    if isinstance(t, dict) and t["type"] == "record":
        return dict((f["name"], tagged(f["type"], x[f["name"]])) for f in t["fields"])
    return x


def tasks(tier):
    parts = 24 if tier == "thorough" else 12
    return [("text", text, ()), ("numbers", numbers, ()), ("octets", octets, ()), ("patterns", patterns, ()), ("parsing", parsing, ()), ("casting", casting, ())] + [("regex/%d" % i, regex, (i, parts)) for i in range(parts)]
