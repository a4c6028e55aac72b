"""C34: random functions with a generator whose every answer is chosen by the checker (all sequences of answers up to a bound)."""
import itertools
import math
import random
import re

import numpy

from mc.eng import *
from mc.checks.C24 import A, rec
from mc.universe import raw

LEVEL = "exploration"
RULE = ("a case is one call of a random function together with one sequence of answers of the engine's generator: every call the library makes to its generator (random, "
        "getrandbits) is a choice point, small ranges answer with every value, large ones with all boundary values, and all sequences are explored depth first up to a "
        "bound of choice points; every result must be permitted, every permitted result must be reached where the answers are enumerated completely, and no other source "
        "of randomness may be touched; non-trivial: all")
ASSUMPTIONS = ["a real-valued draw may round up to its upper bound", "the last group of a UUID has sixteen digits, which the tests pin; twelve are accepted too",
               "bounds that are infinite or not a number, negative sizes of choices and samples are open", "shapes of the continuous distributions are checked on 4000 draws of fixed seeds, with a wide margin"]
INF, NAN = float("inf"), float("nan")
FLOATS = (0.0, 1 - 2.0 ** -53, 0.5, 0.25, 0.75, 0.125, 0.875, 2.0 ** -53)
CHARS = 0xD800


class Scripted(random.Random):
    """A generator that answers what it is told to and counts its choice points."""

    def __init__(self, near=()):
        self.near, self.depth, self.rest = near, 0, random.Random(1)
        self.reset(())
        super().__init__()

    def seed(self, *args, **kw):
        self.gauss_next = None

    def reset(self, script):
        self.script, self.trail, self.gauss_next = script, [], None
        self.rest.seed(1)

    def choose(self, alternatives):
        if len(self.trail) >= self.depth:       # beyond the bound: a fixed ordinary sequence
            return self.rest.random() if alternatives is FLOATS else self.rest.choice(alternatives)
        i = self.script[len(self.trail)] if len(self.trail) < len(self.script) else 0
        self.trail.append(len(alternatives))
        return alternatives[i]

    def random(self):
        return self.choose(FLOATS)

    def getrandbits(self, k):
        if k <= 0:
            return 0
        top = 2 ** k
        if len(self.trail) >= self.depth:
            return self.rest.getrandbits(k)
        if k <= 4:
            return self.choose(range(top))
        near = [v for n in self.near for v in (n - 2, n - 1, n)]
        return self.choose([v for v in sorted(set([0, 1, 2, top // 2 - 1, top // 2, top - 2, top - 1] + near)) if 0 <= v < top])


def scripts(rng, run, depth, limit=200000):
    """All sequences of answers up to depth choice points; run(script) performs one execution."""
    stack, n, rng.depth = [()], 0, depth
    while stack:
        script = stack.pop()
        rng.reset(script)
        yield script, run()
        n += 1
        if n > limit:
            raise RuntimeError("too many executions")
        trail = rng.trail
        for pos in range(len(script), len(trail)):
            for alt in range(1, trail[pos]):
                stack.append(script + (0,) * (pos - len(script)) + (alt,))


def draw(ctx, fname, types, ret, cases, fcns=None, label=None, engine=None):
    """cases: (args, near, depth, permitted(result), complete set of results or None)."""
    call = Call(fname, types, ret, fcns) if engine is None else engine
    for args, near, depth, permitted, complete in cases:
        case = (label or fname, args)
        if not ctx.want(case):
            continue
        rng = Scripted(near)
        call.engine.rand = rng
        seen = set()
        state, nstate = random.getstate(), repr(numpy.random.get_state())
        before = repr(args)
        for script, got in scripts(rng, lambda: call(*args), depth):
            ctx.nontrivial += 1
            ctx.states += 1
            ctx.transitions += len(rng.trail)
            v = raw(got[1]) if got[0] == "ok" else got
            seen.add(repr(v))
            if got[0] != "ok" and not isinstance(permitted, Err) or not (got[:2] == ("err", permitted.code) if isinstance(permitted, Err) else permitted(v)):
                ctx.fail(case, "{0}{1} with the generator answering {2} gives {3}".format(fname, show(args), script, show(got)))
                break
        ctx.outcome((fname, repr(sorted(seen)[:50])))
        ctx.sample("{0}{1}: {2} different results, e.g. {3}".format(fname, show(args, 100), len(seen), show(sorted(seen)[:3], 100)), 2)
        if complete is not None and not isinstance(permitted, Err):
            missing = set(map(repr, complete)) - seen
            if missing:
                ctx.fail(case, "{0}{1} never gives {2}".format(fname, show(args), sorted(missing)[:5]))
        if random.getstate() != state or repr(numpy.random.get_state()) != nstate:
            ctx.fail(case, "{0}{1} uses another generator than the engine's".format(fname, show(args)))
        if repr(args) != before:
            ctx.fail(case, "{0}{1} changes its arguments".format(fname, before))
        if ctx.full():
            return


IMIN, IMAX, LMIN, LMAX = -2**31, 2**31 - 1, -2**63, 2**63 - 1


def integers(ctx):
    for t, lo, hi, base in (("int", IMIN, IMAX, 34000), ("long", LMIN, LMAX, 34010)):
        n = hi - lo + 1
        draw(ctx, "rand." + t, [], t, [((), (n,), 4, lambda v: type(v) is int and lo <= v <= hi, {lo, hi, lo + 1})], label=t + " without bounds")
        cases = []
        for a, b in itertools.product((lo, -3, 0, 1, hi - 2), (lo, lo + 1, -3, -2, 0, 1, 2, 5, 12, hi)):
            if b <= a:
                cases.append(((a, b), (), 1, Err(base), None))
            else:
                cases.append(((a, b), (b - a,), 3, lambda v, a=a, b=b: type(v) is int and a <= v < b, set(range(a, b)) if b - a <= 16 else {a, b - 1, a + 1}))
        draw(ctx, "rand." + t, [t, t], t, cases)


def reals(ctx):
    for t, base in (("float", 34020), ("double", 34030)):
        cases = []
        for a, b in itertools.product((-1e300, -2.0, 0.0, 0.5, 1e-300, 7.0), (-2.0, 0.0, 0.5, 1.0, 3.5, 7.0, 1e300)):
            if t == "float" and 1e-300 in (a, abs(a), b) or t == "float" and 1e300 in (abs(a), b):
                continue
            if b <= a:
                cases.append(((a, b), (), 1, Err(base), None))
            else:
                cases.append(((a, b), (), 3, lambda v, a=a, b=b: isinstance(v, float) and a <= v <= b and (v < b or (b - a) * 2.0 ** -53 < abs(b) * 2.0 ** -52),
                              {a, a + 0.5 * (b - a), a + 0.75 * (b - a)} if t == "double" and abs(a) < 1e10 and b < 1e10 else None))
        draw(ctx, "rand." + t, [t, t], t, cases)
    wide = Call("rand.double", ["double", "double"], "double")
    draw(ctx, "rand.double", None, None, [((-1.7e308, 1.7e308), (), 2, lambda v: -1.7e308 <= v <= 1.7e308, None)], engine=wide, label="rand.double over the whole range")


def populations(ctx):
    top = 5 if ctx.thorough else 4
    for t, letters in (("int", [3, 1, 4, 1, 5]), ("string", ["a", "", "a", "b", "c"]), (A("int"), [[1], [], [1], [2, 3], [4]])):
        pops = [letters[:k] for k in range(top + 1)]
        draw(ctx, "rand.choice", [A(t)], t, [((p,), (), 3, (lambda v, p=p: v in p) if p else Err(34040), p) for p in pops], label="choice %r" % (t,))
        cases = []
        for p in pops:
            for size in (0, 1, 2, 3):
                every = [list(x) for x in itertools.product(p, repeat=size)]
                small = len(p) ** size <= 200
                cases.append(((size, p), (), 5 if size < 3 else 4, (lambda v, p=p, size=size: isinstance(v, list) and len(v) == size and all(x in p for x in v)) if p else Err(34050), every if small and size < 3 else None))
        draw(ctx, "rand.choices", ["int", A(t)], A(t), cases, label="choices %r" % (t,))
        cases = []
        for p in pops:
            for size in range(0, len(p) + 2):
                every = [list(x) for x in itertools.permutations(p, size)]
                ok = Err(34060) if not p else Err(34061) if size > len(p) else lambda v, every=every: v in every
                cases.append(((size, p), (), 5 if ctx.thorough else 4, ok, every if len(p) <= 4 else None))
        draw(ctx, "rand.sample", ["int", A(t)], A(t), cases, label="sample %r" % (t,))
        cases = []
        for p in pops:
            every = [list(x) for x in itertools.permutations(p)]
            cases.append(((p,), (), 5 if ctx.thorough else 4, lambda v, every=every: v in every, every))
        draw(ctx, "a.shuffle", [A(t)], A(t), cases, label="shuffle %r" % (t,))
    big = list(range(30))
    draw(ctx, "rand.sample", ["int", A("int")], A("int"), [((k, big), (30, 29, 28), 2, lambda v, k=k: len(v) == k == len(set(v)) and set(v) <= set(big), None) for k in (1, 3, 7, 29, 30)], label="sample of many")


def histogram(ctx):
    R = rec("R", ("label", "string"), ("prob", "double"))
    probs = (0.0, 1.0, 0.25, 3.0)
    bad = (-1.0, INF, -INF, NAN, -0.0)
    dists = [list(t) for k in range(4) for t in itertools.product(probs, repeat=k)] + [list(t) for k in (1, 2) for t in itertools.product(probs[:2] + bad, repeat=k)] + [[0.1] * 10, [0.0] * 3 + [0.1] * 3 + [0.0], [1e-320, 0.0], [0.0, 1e308]]

    def expected(d):
        codes = set(34071 if p - p != 0 else 34072 for p in d if p - p != 0 or p < 0)
        if INF in d and -INF not in d and all(p >= 0 for p in d):
            codes = {34071}
        if codes:
            return frozenset(codes | {34071} if any(p == -INF for p in d) else codes)
        return frozenset([34070]) if sum(d) == 0 else None
    def positions(d, pick):
        """The indexes that the extremes and quarters of the unit interval select."""
        total = math.fsum(d)
        out = set()
        for u in FLOATS:
            s = 0.0
            for i, p in enumerate(d):
                s += p
                if u * total < s * (1 - 1e-9):
                    if u * total > (s - p) * (1 + 1e-9) or s == p:
                        out.add(pick(i))
                    break
        return out
    for record in (False, True):
        call = Call("rand.histogram", [A(R if record else "double")], R if record else "int")
        for d in dists:
            arg = [{"label": "abcdefghij"[i], "prob": p} for i, p in enumerate(d)] if record else d
            want = expected(d)
            if want is not None:
                case = ("histogram", record, d)
                if ctx.want(case):
                    ctx.nontrivial += 1
                    call.engine.rand = Scripted()
                    got = call(arg)
                    ctx.outcome(got)
                    if got[0] != "err" or got[1] not in want:
                        ctx.fail(case, "rand.histogram({0}) gives {1}, must give {2}".format(arg, got, sorted(want)))
                continue
            allowed = [i for i, p in enumerate(d) if p > 0]
            def ok(v):
                return v in [arg[i] for i in allowed] if record else v in allowed and type(v) is int
            every = positions(d, lambda i: i)
            draw(ctx, "rand.histogram", None, None, [((arg,), (), 2, ok, [arg[i] for i in every] if record else every)], engine=call, label="histogram %s" % record)


def texts(ctx):
    def string(size, ok):
        return lambda v: isinstance(v, str) and len(v) == size and all(map(ok, v))
    bads = [((n,), (), 1, Err(34080), None) for n in (0, -1, IMIN)]
    draw(ctx, "rand.string", ["int"], "string", [((n,), (CHARS, CHARS - 1), 3, string(n, lambda c: 1 <= ord(c) < CHARS), {"\x01", "\ud7ff"} if n == 1 else None) for n in (1, 2, 3, 10)] + bads)
    pops = ["a", "ab", "abcab", "\u00e9\u4e2d", "x" * 20 + "y"]
    cases = []
    for p in pops:
        for n in (1, 2, 3):
            cases.append(((n, p), (len(p),), 4, string(n, lambda c, p=p: c in p), ["".join(t) for t in itertools.product(p, repeat=n)] if n < 3 and len(p) < 6 else None))
    cases += [((1, ""), (), 1, Err(34083), None), ((3, ""), (), 1, Err(34083), None), ((0, "ab"), (), 1, Err(34080), None)]
    draw(ctx, "rand.string", ["int", "string"], "string", cases, label="string from population")

    def ranged(base, low, high):
        cases = []
        for a, b in itertools.product((-1, 0, 1, 2, 97, 254, 255, 256, 257, CHARS - 2, CHARS - 1, CHARS, CHARS + 1), (-1, 0, 1, 2, 3, 99, 255, 256, 257, 300, CHARS - 1, CHARS, CHARS + 1)):
            for n in (1, 2):
                if b <= a:
                    cases.append(((n, a, b), base))
                elif a < low or b > high:
                    cases.append(((n, a, b), base + 1))
                else:
                    cases.append(((n, a, b), None))
        out = []
        for (n, a, b), code in cases:
            if code is not None:
                out.append(((n, a, b), (), 1, code, None))
            else:
                out.append(((n, a, b), (b - a,), 3, string(n, lambda c, a=a, b=b: a <= ord(c) < b), ({chr(a), chr(b - 1)} | (set(map(chr, range(a, b))) if b - a <= 16 else set())) if n == 1 else None))
        return [(args, near, depth, Err(ok) if isinstance(ok, int) else ok, every) for args, near, depth, ok, every in out] + [((0, 97, 99), (), 1, Err(base - 1), None)]
    draw(ctx, "rand.string", ["int", "int", "int"], "string", ranged(34081, 1, CHARS), label="string from range")
    bads = [((n,), (), 1, Err(34090), None) for n in (0, -1, IMIN)]
    draw(ctx, "rand.bytes", ["int"], "bytes", [((n,), (256,), 3, string(n, lambda c: ord(c) < 256), {"\x00", "\xff"} if n == 1 else None) for n in (1, 2, 3, 10)] + bads)
    for asBytes in (False, True):
        cases = []
        for p in ["a", "ab", "\x00\xff", "abcab", "\xe9" * 3 + "z"]:
            q = p.encode("latin-1") if asBytes else p
            for n in (1, 2, 3):
                cases.append(((n, q), (), 4, string(n, lambda c, p=p: c in p), ["".join(t) for t in itertools.product(p, repeat=n)] if n < 3 else None))
        cases += [((1, b"" if asBytes else ""), (), 1, Err(34093), None), ((0, b"ab" if asBytes else "ab"), (), 1, Err(34090), None)]
        draw(ctx, "rand.bytes", ["int", "bytes"], "bytes", cases, label="bytes from population %s" % asBytes)
    draw(ctx, "rand.bytes", ["int", "int", "int"], "bytes", ranged(34091, 0, 256), label="bytes from range")
    uuid = re.compile("[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-([0-9a-f]{12}|[0-9a-f]{16})$")
    draw(ctx, "rand.uuid4", [], "string", [((), (), 5 if ctx.thorough else 4, lambda v: bool(uuid.match(v)), None)])


def gaussian(ctx):
    cases = []
    for mu, sigma in itertools.product((-2.5, 0.0, 1e6), (0.0, 0.5, 1.0, 3.0)):
        cases.append(((mu, sigma), (), 4, lambda v, mu=mu, sigma=sigma: isinstance(v, float) and abs(v - mu) <= 9 * sigma, [mu] if sigma == 0 else None))
    draw(ctx, "rand.gaussian", ["double", "double"], "double", cases)
    # the shapes, on fixed seeds
    def shape(fname, types, args, cdf, discrete=False):
        for seed in range(1, 4 if ctx.thorough else 2):
            case = ("shape", fname, args, seed)
            if not ctx.want(case):
                continue
            ctx.nontrivial += 1
            e = Call(fname, types, types[0] if types else "int", None, {"randseed": seed})
            vs = sorted(e(*args)[1] for i in range(4000))
            n = float(len(vs))
            worst = max(max(abs((i + 1) / n - cdf(v)), 0 if discrete else abs(i / n - cdf(v))) for i, v in enumerate(vs) if not discrete or i + 1 == n or vs[i + 1] != v)
            ctx.outcome((fname, args, round(worst, 2)))
            if worst > 0.05:
                ctx.fail(case, "the distribution of %s%r is off by %.3f over 4000 draws with seed %d" % (fname, args, worst, seed))
    shape("rand.gaussian", ["double", "double"], (10.0, 2.0), lambda v: 0.5 * math.erfc((10.0 - v) / (2.0 * math.sqrt(2))))
    shape("rand.gaussian", ["double", "double"], (-1.0, 0.5), lambda v: 0.5 * math.erfc((-1.0 - v) / (0.5 * math.sqrt(2))))
    shape("rand.double", ["double", "double"], (-2.0, 6.0), lambda v: (v + 2) / 8)
    shape("rand.float", ["float", "float"], (0.0, 0.25), lambda v: v / 0.25)
    shape("rand.int", ["int", "int"], (-3, 7), lambda v: (v + 4) / 10.0, True)
    shape("rand.long", ["long", "long"], (0, 2**40), lambda v: v / 2.0**40)


def seeds(ctx):
    C = rec("Cl", ("center", A("double")), ("id", "int"))
    new = {"params": [{"i": "int"}, {"vec": A("double")}], "ret": "Cl", "do": [{"new": {"center": "vec", "id": "i"}, "type": "Cl"}]}
    doc = callDoc("model.cluster.randomSeeds", [A(A("double")), "int", ("fcn", new)], A(C))

    class E(object):
        engine = make(doc)

        def __call__(self, data, k):
            return outcome(self.engine.action, {"a0": data, "a1": k})
    cases = []
    pts = [[1.0], [2.0], [1.0], [3.0], [4.0]]
    for n in range(5 if ctx.thorough else 4):
        data = pts[:n]
        distinct = []
        for p in data:
            if p not in distinct:
                distinct.append(p)
        for k in (-1, 0, 1, 2, 3):
            every = [[{"center": p, "id": i} for i, p in enumerate(t)] for t in itertools.permutations(distinct, max(k, 0))]
            ok = Err(29020) if k <= 0 else Err(29021) if k > len(distinct) else lambda v, every=every: v in every
            cases.append(((data, k), (), 4, ok, every))
    cases.append((([[1.0], [1.0, 2.0]], 1), (), 1, Err(29022), None))
    draw(ctx, "model.cluster.randomSeeds", None, None, cases, engine=E())


def tasks(tier):
    return [(f.__name__, f, ()) for f in (integers, reals, populations, histogram, texts, gaussian, seeds)]
