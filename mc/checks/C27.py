"""C27: linear algebra, all small matrices over a small alphabet, against exact rational arithmetic."""
import itertools
import math
from fractions import Fraction as Q

from mc.eng import *
from mc.checks.C24 import A, M

LEVEL = "exploration"
RULE = ("a case is one call of a function of la on the real engine: all matrices of up to 3 rows and columns over alphabets of 2-4 numbers, "
        "all ragged, empty and sparse shapes; results are compared with exact rational arithmetic, eigenvectors with their definition; non-trivial: all")
ASSUMPTIONS = ["singular matrices have no inverse (known finding of C07), zero eigenvalues no eigenbasis", "results within 1e-9 of the exact ones",
               "when two errors apply, either may be reported"]
MM, AA = M(M("double")), A(A("double"))


def grids(letters, shapes):
    for r, c in shapes:
        for t in itertools.product(letters, repeat=r * c):
            yield [list(t[i * c:i * c + c]) for i in range(r)]


def ragged():
    """Every shape of up to three rows of up to two columns that is not a rectangle with a column."""
    for n in range(4):
        for t in itertools.product(range(3), repeat=n):
            if n == 0 or len(set(t)) > 1 or t[0] == 0:
                yield [[1.5] * k for k in t]


def sparse(letters, rows="ab", cols="xy"):
    inner = [dict((k, v) for k, v in zip(cols, t) if v is not None) for t in itertools.product((None,) + tuple(letters), repeat=len(cols))]
    for t in itertools.product([None] + inner, repeat=len(rows)):
        yield dict((k, v) for k, v in zip(rows, t) if v is not None)


def bad(x):
    return len(set(map(len, x))) > 1


def columns(m):
    return sorted(set(k for r in m.values() for k in r))


def get(m, i, j):
    return m.get(i, {}).get(j, 0.0)


def either(ctx, fname, types, ret, ref, cases, **kw):
    """The reference returns a value, or a set of admissible error codes."""
    def judge(got, want, args):
        if isinstance(want[1], frozenset):
            return got[0] == "err" and got[1] in want[1]
        return agree(got, want, kw.get("tol", 0.0))
    return sweep(ctx, fname, types, ret, ref, cases, judge=judge, **kw)


def arithmetic(ctx, fname, base):
    op = {"la.add": lambda a, b: a + b, "la.sub": lambda a, b: a - b, "la.zipmap": lambda a, b: 10 * a - b}[fname]
    extra = [("fcn", {"params": [{"p": "double"}, {"q": "double"}], "ret": "double", "do": {"-": [{"*": ["p", 10.0]}, "q"]}})] if fname == "la.zipmap" else []

    def arr(x, y):
        if len(x) != len(y) or any(len(a) != len(b) for a, b in zip(x, y)):
            raise Err(base)
        return [[op(p, q) for p, q in zip(a, b)] for a, b in zip(x, y)]
    ms = list(grids((-1.0, 2.5), [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3)])) + list(ragged()) + [[[INF, 1.0]], [[NAN, -INF]]]
    sweep(ctx, fname, [AA, AA] + extra, AA, arr, itertools.product(ms, repeat=2))

    def mp(x, y):
        rows, cols = set(x) | set(y), set(columns(x)) | set(columns(y))
        return dict((i, dict((j, op(get(x, i, j), get(y, i, j))) for j in cols)) for i in rows)
    maps = list(sparse((-1.0, 2.5)))
    maps = maps if ctx.thorough else maps[::2]
    if fname == "la.zipmap" or True:
        sweep(ctx, fname, [MM, MM] + extra, MM, mp, itertools.product(maps, repeat=2))
    if fname == "la.zipmap":
        return

    def vec(x, y):
        if len(x) != len(y):
            raise Err(base)
        return [op(a, b) for a, b in zip(x, y)]
    vs = [list(t) for n in range(4) for t in itertools.product((-1.0, 0.0, 2.5, INF), repeat=n)]
    sweep(ctx, fname, [A("double")] * 2, A("double"), vec, itertools.product(vs, repeat=2))
    ds = [dict((k, v) for k, v in zip("abc", t) if v is not None) for t in itertools.product((None, -1.0, 0.0, 2.5), repeat=3)]
    sweep(ctx, fname, [M("double")] * 2, M("double"), lambda x, y: dict((k, op(x.get(k, 0.0), y.get(k, 0.0))) for k in set(x) | set(y)), itertools.product(ds, repeat=2))


def single(ctx):
    ms = list(grids((-1.0, 2.5, INF), [(1, 1), (1, 2), (2, 1), (2, 2)])) + list(grids((-1.0, 2.5), [(2, 3), (3, 2)])) + list(ragged())
    maps = list(sparse((-1.0, 2.5, 7.0)))
    twice = ("fcn", {"params": [{"p": "double"}], "ret": "double", "do": {"+": [{"*": ["p", 2]}, 1]}})
    sweep(ctx, "la.map", [AA, twice], AA, lambda x: [[2 * v + 1 for v in r] for r in x], ((m,) for m in ms))
    sweep(ctx, "la.map", [MM, twice], MM, lambda x: dict((k, dict((j, 2 * v + 1) for j, v in r.items())) for k, r in x.items()), ((m,) for m in maps))
    for alpha in (0.0, -2.0, 0.5, NAN):
        sweep(ctx, "la.scale", [AA, "double"], AA, lambda x, a: [[v * a for v in r] for r in x], ((m, alpha) for m in ms), label="scale/%s" % alpha)
        sweep(ctx, "la.scale", [MM, "double"], MM, lambda x, a: dict((k, dict((j, v * a) for j, v in r.items())) for k, r in x.items()), ((m, alpha) for m in maps), label="scale/%s" % alpha)
        sweep(ctx, "la.scale", [A("double"), "double"], A("double"), lambda x, a: [v * a for v in x],
              ((list(t), alpha) for n in range(4) for t in itertools.product((-1.0, 2.5, INF), repeat=n)), label="scale/%s" % alpha)
        sweep(ctx, "la.scale", [M("double"), "double"], M("double"), lambda x, a: dict((k, v * a) for k, v in x.items()),
              ((dict(zip("abc", t)), alpha) for n in range(4) for t in itertools.product((-1.0, 2.5, INF), repeat=n)), label="scale/%s" % alpha)

    def codes(x, base, square=False):
        out = set()
        if not x or not x[0]:
            out.add(base)
        if x and bad(x):
            out.add(base + 1)
        if square and x and not bad(x) and x[0] and len(x) != len(x[0]):
            out.add(base + 2)
        return frozenset(out)

    def transpose(x):
        return codes(x, 24060) or [list(c) for c in zip(*x)]
    either(ctx, "la.transpose", [AA], AA, transpose, ((m,) for m in ms))

    def few(x):
        return not x or not columns(x)

    def transposem(x):
        cols = columns(x)
        if few(x):
            return frozenset((24060,))
        if any(set(r) != set(cols) for r in x.values()):
            return frozenset((24061,))
        return dict((c, dict((r, x[r][c]) for r in x)) for c in cols)
    either(ctx, "la.transpose", [MM], MM, transposem, ((m,) for m in maps))

    def trace(x):
        if not x:
            return 0.0
        if bad(x):
            raise Err(24080)
        return sum(x[i][i] for i in range(min(len(x), len(x[0]))))
    sweep(ctx, "la.trace", [AA], "double", trace, ((m,) for m in ms))
    square = list(sparse((-1.0, 2.5, 7.0), "ab", "ab")) + maps
    sweep(ctx, "la.trace", [MM], "double", lambda x: sum(x[k].get(k, 0.0) for k in x), ((m,) for m in square))

    def truncate(x, keep):
        return codes(x, 24120) or x[:max(keep, 0)]
    either(ctx, "la.truncate", [AA, "int"], AA, truncate, itertools.product(ms, (-2**31, -1, 0, 1, 2, 3, 2**31 - 1)))

    def truncatem(x, keep):
        return frozenset((24120,)) if few(x) else dict((k, v) for k, v in x.items() if k in keep)
    either(ctx, "la.truncate", [MM, A("string")], MM, truncatem, itertools.product(maps, ([], ["a"], ["b"], ["a", "b"], ["x", "a"], ["zz"], ["ab"], [""])))

    def symmetric(x, tol):
        c = codes(x, 24100, True)
        if c:
            return c
        return all(close(x[i][j], x[j][i], tol) for i in range(len(x)) for j in range(len(x)))

    def close(a, b, tol):
        if a != a or b != b:
            return a != a and b != b
        return a == b if math.isinf(a) or math.isinf(b) else abs(a - b) < tol

    def symmetricm(x, tol):
        keys = set(x) | set(columns(x))
        return frozenset((24100,)) if few(x) else all(close(get(x, i, j), get(x, j, i), tol) for i in keys for j in keys)
    tols = (0.0, 0.25, 0.5, 1.5, INF, NAN)
    syms = ms + list(grids((0.0, 0.25, 1.0, -INF, NAN), [(2, 2)])) + [[[1.0, a, b], [c, 1.0, d], [e, f, 0.0]] for a, b, c, d, e, f in itertools.product((0.0, 1.0), repeat=6)]
    either(ctx, "la.symmetric", [AA, "double"], "boolean", symmetric, itertools.product(syms, tols))
    either(ctx, "la.symmetric", [MM, "double"], "boolean", symmetricm, itertools.product(list(sparse((0.0, 0.25, 1.0), "ab", "ab")) + list(sparse((0.0, 1.0), "ab", "bc")), tols))


def dot(ctx):
    ms = list(grids((-1.0, 2.5), [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)])) + [[[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]], [[1.0, -2.0], [0.5, 4.0], [7.0, 0.0]]]
    ms += list(ragged()) + [[[INF, 1.0]], [[NAN], [1.0]]]
    finite = lambda rows: all(math.isfinite(v) for r in rows for v in r)

    def mm(x, y):
        codes = set()
        if bad(x) or bad(y) or (x and y and len(x[0]) != len(y)):
            codes.add(24050)
        if not x or not y or not x[0] or not y[0]:
            codes.add(24051)
        if not x or not x[0]:
            codes.add(24050) if not y or (y and len(y) != (len(x[0]) if x else 0)) else None
        if not finite(x) or not finite(y):
            codes.add(24052)
        if codes:
            return frozenset(codes)
        return [[sum(a * b for a, b in zip(r, c)) for c in zip(*y)] for r in x]
    either(ctx, "la.dot", [AA, AA], AA, mm, itertools.product(ms, repeat=2), tol=1e-12)

    def mv(x, y):
        codes = set()
        if bad(x) or (x and len(x[0]) != len(y)):
            codes.add(24050)
        if not x or not x[0] or not y:
            codes.add(24051)
        if not finite(x) or not finite([y]):
            codes.add(24052)
        return frozenset(codes) or [sum(a * b for a, b in zip(r, y)) for r in x]
    vs = [list(t) for n in range(4) for t in itertools.product((-1.0, 0.0, 2.5), repeat=n)] + [[INF], [NAN, 1.0]]
    either(ctx, "la.dot", [AA, A("double")], A("double"), mv, itertools.product(ms, vs), tol=1e-12)
    xs = list(sparse((-1.0, 2.5)))
    ys = list(sparse((1.0, 7.0), "xz", "pq"))
    xs, ys = (xs, ys) if ctx.thorough else (xs[::2], ys[::3])

    def mmm(x, y):
        inter = set(columns(x)) | set(y)
        if not x or not columns(y) or not inter:
            return frozenset((24051,))
        return dict((i, dict((j, sum(get(x, i, k) * get(y, k, j) for k in inter)) for j in columns(y))) for i in x)
    either(ctx, "la.dot", [MM, MM], MM, mmm, itertools.product(xs, ys), tol=1e-12)
    ds = [dict((k, v) for k, v in zip("xyz", t) if v is not None) for t in itertools.product((None, -1.0, 0.5), repeat=3)]

    def mvm(x, y):
        if not x or not set(columns(x)) | set(y):
            return frozenset((24051,))
        return dict((i, sum(get(x, i, k) * y.get(k, 0.0) for k in set(columns(x)) | set(y))) for i in x)
    either(ctx, "la.dot", [MM, M("double")], M("double"), mvm, itertools.product(xs, ds), tol=1e-12)
    for x, y in (({"a": {"x": INF}}, {"x": {"p": 1.0}}), ({"a": {"x": 1.0}}, {"x": {"p": NAN}})):
        either(ctx, "la.dot", [MM, MM], MM, lambda x, y: frozenset((24052,)), [(x, y)])
        either(ctx, "la.dot", [MM, M("double")], M("double"), lambda x, y: frozenset((24052,)), [(x, y["x"] if False else {"x": y["x"]["p"]})], label="dot/nonfinite")


def det(m):
    if not m:
        return Q(1)
    return sum((-1) ** j * Q(m[0][j]) * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def inverse(m):
    n, D = len(m), det(m)
    minor = lambda i, j: [r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]
    return [[(-1) ** (i + j) * det(minor(j, i)) / D for j in range(n)] for i in range(n)]


def times(a, b):
    return [[sum(Q(x) * Q(y) for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def squares(ctx):
    three = (0.0, 1.0, -2.5) if not ctx.thorough else (0.0, 1.0, -2.5, 2.0)
    for n in (1, 2):
        for m in grids((0.0, 1.0, -2.5, 3.0), [(n, n)]):
            yield m
    for t in itertools.product(three, repeat=9):
        yield [list(t[:3]), list(t[3:6]), list(t[6:9])]


def determinants(ctx):
    def ref(x):
        codes = set()
        if not x or not x[0]:
            codes.add(24090)
        if x and bad(x):
            codes.add(24091)
        if x and not bad(x) and x[0] and len(x) != len(x[0]):
            codes.add(24092)
        if codes:
            return frozenset(codes)
        return NAN if any(not math.isfinite(v) for r in x for v in r) else float(det(x))
    either(ctx, "la.det", [AA], "double", ref, ((m,) for m in itertools.chain(squares(ctx), ragged(), grids((1.0,), [(1, 2), (2, 1), (2, 3)]), grids((1.0, INF, NAN), [(2, 2)]))), tol=1e-9)

    def refm(x):
        keys = sorted(set(x) | set(columns(x)))
        if not keys or not columns(x):
            return frozenset((24090,))
        if any(not math.isfinite(v) for r in x.values() for v in r.values()):
            return NAN
        return float(det([[get(x, i, j) for j in keys] for i in keys]))
    either(ctx, "la.det", [MM], "double", refm, ((m,) for m in itertools.chain(sparse((1.0, -2.5, NAN), "ab", "ab"), sparse((2.5,), "abc", "abc"), sparse((2.5,), "ab", "bc"))), tol=1e-9)


def inverses(ctx):
    def pseudo(x):
        """Moore-Penrose, for matrices of full rank."""
        t = [list(c) for c in zip(*x)]
        if len(x) == len(t):
            return inverse(x) if det(x) else None
        if len(x) < len(t):
            g = times(x, t)
            return times(t, inverse(g)) if det(g) else None
        g = times(t, x)
        return times(inverse(g), t) if det(g) else None

    def ref(x):
        codes = set()
        if not x or not x[0]:
            codes.add(24070)
        if x and bad(x):
            codes.add(24071)
        if codes:
            return frozenset(codes)
        p = pseudo(x)
        return SKIP if p is None else [[float(v) for v in r] for r in p]
    either(ctx, "la.inverse", [AA], AA, ref, ((m,) for m in itertools.chain(squares(ctx), ragged(), grids((0.0, 1.0, -2.5), [(1, 2), (2, 1), (2, 3), (3, 2)]))), tol=1e-9)

    def refm(x):
        rows, cols = sorted(x), columns(x)
        if not rows or not cols:
            return frozenset((24070,))
        p = pseudo([[get(x, i, j) for j in cols] for i in rows])
        return SKIP if p is None else dict((c, dict((r, float(v)) for r, v in zip(rows, vs))) for c, vs in zip(cols, p))
    either(ctx, "la.inverse", [MM], MM, refm, ((m,) for m in itertools.chain(sparse((1.0, -2.5, 3.0), "ab", "xy"), sparse((1.0, -2.5), "ab", "ab"), sparse((2.5,), "abc", "xyz"))), tol=1e-9)


def eigen(ctx):
    def symm(x):
        n = len(x)
        return [[(Q(x[i][j]) + Q(x[j][i])) / 2 for j in range(n)] for i in range(n)]

    def ok(x, rows):
        """rows: candidates for the eigenbasis of x (bare lists, first component of each nonnegative)"""
        n = len(x)
        s = [[float(v) for v in r] for r in symm(x)]
        if len(rows) != n or any(len(r) != n for r in rows):
            return "it has another shape"
        sizes = []
        total = 0.0
        scale = max(abs(v) for r in s for v in r)
        for v in rows:
            q = sum(a * a for a in v)
            if not math.isfinite(q) or q == 0:
                return "%s is not a vector" % v
            lam = sum(v[i] * s[i][j] * v[j] for i in range(n) for j in range(n)) / q
            if any(abs(sum(s[i][j] * v[j] for j in range(n)) - lam * v[i]) > 1e-6 * scale * math.sqrt(q) for i in range(n)):
                return "%s is not an eigenvector" % v
            if abs(q * abs(lam) - 1) > 1e-6:
                return "%s does not have the length 1/sqrt(%g)" % (v, abs(lam))
            if v[0] < -1e-9 * math.sqrt(q):
                return "%s begins with a negative number" % v
            sizes.append(abs(lam))
            total += lam
        if any(a < b * (1 - 1e-9) for a, b in zip(sizes, sizes[1:])):
            return "the eigenvalues %s are not in decreasing order" % sizes
        if abs(total - sum(s[i][i] for i in range(n))) > 1e-6 * scale:
            return "the eigenvalues do not add up to the trace"
        return None

    def ref(x):
        codes = set()
        if not x or not x[0]:
            codes.add(24110)
        if x and bad(x):
            codes.add(24111)
        if x and not bad(x) and x[0] and len(x) != len(x[0]):
            codes.add(24112)
        if any(not math.isfinite(v) for r in x for v in r):
            codes.add(24113)
        if codes:
            return frozenset(codes)
        return SKIP if abs(det(symm(x))) < Q(1, 1000) else "basis"
    said = {}

    def judge(got, want, args):
        if isinstance(want[1], frozenset):
            return got[0] == "err" and got[1] in want[1]
        return got[0] == "ok" and ok(args[0], got[1]) is None
    sweep(ctx, "la.eigenBasis", [AA], AA, ref, ((m,) for m in itertools.chain(squares(ctx), ragged(), grids((1.0,), [(1, 2), (2, 1), (2, 3)]), grids((1.0, INF, NAN), [(2, 2)]))), judge=judge)

    def refm(x):
        keys = sorted(set(x) | set(columns(x)))
        if not keys or not columns(x):
            return frozenset((24110,))
        if any(not math.isfinite(v) for r in x.values() for v in r.values()):
            return frozenset((24113,))
        return SKIP if abs(det(symm([[get(x, i, j) for j in keys] for i in keys]))) < Q(1, 1000) else "basis"

    def judgem(got, want, args):
        if isinstance(want[1], frozenset):
            return got[0] == "err" and got[1] in want[1]
        x = args[0]
        keys = sorted(set(x) | set(columns(x)))
        if got[0] != "ok" or sorted(got[1]) != sorted(str(i) for i in range(len(keys))) or any(set(r) != set(keys) for r in got[1].values()):
            return False
        # the order of the keys is not fixed: any component may be the first one
        return any(ok([[get(x, i, j) for j in p] for i in p], [[got[1][str(i)][k] for k in p] for i in range(len(p))]) is None for k in keys for p in [[k] + [j for j in keys if j != k]])
    sweep(ctx, "la.eigenBasis", [MM], MM, refm, ((m,) for m in itertools.chain(sparse((1.0, -2.5, NAN), "ab", "ab"), sparse((2.5,), "abc", "abc"), sparse((1.0, 2.5), "ab", "bc"))), judge=judgem)


def tasks(tier):
    return [(f, arithmetic, (f, b)) for f, b in (("la.add", 24030), ("la.sub", 24040), ("la.zipmap", 24020))] + \
           [(fn.__name__, fn, ()) for fn in (single, dot, determinants, inverses, eigen)]
