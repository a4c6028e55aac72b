"""C23: time functions against an independent calendar and independently written time zone rules."""
import itertools
import math

from mc.eng import *

LEVEL = "exploration"
RULE = ("a case is one time stamp, zone and set of arguments run through all time functions on the real engine: every day of seventeen years over the whole range at the edges of hours, days and working hours; both sides of each change of daylight saving time; "
        "all boundary values of the arguments of makeTimestamp; non-trivial: every case")
ASSUMPTIONS = ["time zones are sampled by ones whose rules are simple to state; local times which daylight saving time skips or repeats are left open for makeTimestamp", "where several arguments are wrong which error is reported is left open", "a fraction of a second is dropped before it is compared to a range"]

LO, HI = -62135596800, 253402300799


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def lengths(y):
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def newYear(y):
    """Days from 1970-01-01 to the first of the year y, counted by leap years."""
    before = lambda n: n // 4 - n // 100 + n // 400
    return (y - 1970) * 365 + before(y - 1) - before(1969)


def days(y, m, d):
    return newYear(y) + sum(lengths(y)[:m - 1]) + d - 1


def fields(ts):
    """Fields of UTC of a number of seconds (floored)."""
    t = math.floor(ts)
    day, sec = divmod(t, 86400)
    y = 1970 + day // 366 - 2
    while newYear(y + 1) <= day:
        y += 1
    while newYear(y) > day:
        y -= 1
    n = day - newYear(y)
    doy, m = n + 1, 1
    for k in lengths(y):
        if n < k:
            break
        n -= k
        m += 1
    return {"year": y, "monthOfYear": m, "dayOfYear": doy, "dayOfMonth": n + 1, "dayOfWeek": (day + 3) % 7, "hourOfDay": sec // 3600, "minuteOfHour": sec // 60 % 60, "secondOfMinute": sec % 60}


def sunday(y, m, n):
    """Day number of the n-th Sunday of a month (-1: the last)."""
    all_ = [days(y, m, d) for d in range(1, lengths(y)[m - 1] + 1) if (days(y, m, d) + 3) % 7 == 6]
    return all_[n - 1 if n > 0 else n]


def european(base):
    def offset(t, y):
        return base + (3600 if sunday(y, 3, -1) * 86400 + 3600 <= t < sunday(y, 10, -1) * 86400 + 3600 else 0)
    return offset


def american(base):
    def offset(t, y):
        return base + (3600 if sunday(y, 3, 2) * 86400 + 7200 - base <= t < sunday(y, 11, 1) * 86400 + 3600 - base else 0)
    return offset


ZONES = {"": lambda t, y: 0, "UTC": lambda t, y: 0, "Etc/UTC": lambda t, y: 0, "Etc/GMT+12": lambda t, y: -43200, "Etc/GMT-14": lambda t, y: 50400, "Asia/Kolkata": lambda t, y: 19800, "Asia/Kathmandu": lambda t, y: 20700, "Asia/Tokyo": lambda t, y: 32400,
         "Europe/Paris": european(3600), "Europe/London": european(0), "Europe/Athens": european(7200), "America/New_York": american(-18000), "America/Los_Angeles": american(-28800)}
FIXED = ["", "UTC", "Etc/UTC", "Etc/GMT+12", "Etc/GMT-14"]
NAMES = ["year", "monthOfYear", "dayOfYear", "dayOfMonth", "dayOfWeek", "hourOfDay", "minuteOfHour", "secondOfMinute"]
CODES = dict((n, 40000 + 10 * i) for i, n in enumerate(NAMES))
TESTS = {"isSecondOfMinute": ("secondOfMinute", 40090), "isMinuteOfHour": ("minuteOfHour", 40100), "isHourOfDay": ("hourOfDay", 40110), "isDayOfWeek": ("dayOfWeek", 40120), "isDayOfMonth": ("dayOfMonth", 40130), "isMonthOfYear": ("monthOfYear", 40140), "isDayOfYear": ("dayOfYear", 40150)}


def local(ts, zone):
    y = fields(ts)["year"]
    return fields(math.floor(ts) + ZONES[zone](math.floor(ts), y))


def machine():
    names = NAMES + ["isWeekend", "isWorkHours"]
    fs = [{"name": n, "type": "boolean" if n.startswith("is") else "int"} for n in names]
    new = dict((n, {"time." + n: ["input.ts", "input.zone"]}) for n in names)
    for n in TESTS:
        fs += [{"name": n + k, "type": "boolean"} for k in "abcd"]
        v = {"time." + TESTS[n][0]: ["input.ts", "input.zone"]}
        new[n + "a"] = {"time." + n: ["input.ts", "input.zone", v, {"+": [v, 1]}]}
        new[n + "b"] = {"time." + n: ["input.ts", "input.zone", {"+": [v, 1]}, {"+": [v, 2]}]}
        new[n + "c"] = {"time." + n: ["input.ts", "input.zone", {"-": [v, 1]}, v]}
        new[n + "d"] = {"time." + n: ["input.ts", "input.zone", {"-": [v, 0.5]}, {"+": [v, 0.5]}]}
    fs.append({"name": "back", "type": "double"})
    g = lambda n: {"time." + n: ["input.ts", "input.zone"]}
    new["back"] = {"time.makeTimestamp": [g("year"), g("monthOfYear"), g("dayOfMonth"), g("hourOfDay"), g("minuteOfHour"), g("secondOfMinute"), 0, "input.zone"]}
    return make({"input": {"type": "record", "name": "In", "fields": [{"name": "ts", "type": "double"}, {"name": "zone", "type": "string"}]},
                 "output": {"type": "record", "name": "Out", "fields": fs}, "action": [{"new": new, "type": "Out"}]})


def judge(ctx, engine, ts, zone, doubtful=False):
    case = [ts, zone]
    if not ctx.want(case):
        return
    ctx.nontrivial += 1
    got = outcome(engine.action, {"ts": ts, "zone": zone})
    want = local(ts, zone)
    want["isWeekend"] = want["dayOfWeek"] >= 5
    want["isWorkHours"] = want["dayOfWeek"] < 5 and 9 <= want["hourOfDay"] < 17
    for n in TESTS:
        want.update({n + "a": True, n + "b": False, n + "c": False, n + "d": True})
    want["back"] = float(math.floor(ts))
    ctx.outcome(repr(want))
    if got[0] != "ok":
        return ctx.fail(case, "{0} at {1!r} in {2!r}".format(show(got), ts, zone))
    for n in sorted(want):
        if n == "back" and (doubtful or not 1 <= want["year"] <= 9999):
            continue
        if not same(got[1][n], want[n]):
            ctx.fail(case + [n], "time.{0} of {1!r} in {2!r} gives {3}, must give {4}".format(n if n != "back" else "makeTimestamp of the fields", ts, zone, got[1][n], want[n]))


def calendar(ctx, years):
    engine = machine()
    edges = [0, 32399, 32400, 61199, 61200, 86399, 86399.5] if ctx.thorough else [0, 32399, 61200, 86399.75]
    for y in years:
        for n in range(366 if leap(y) else 365):
            for i, e in enumerate(edges):
                ts = (newYear(y) + n) * 86400 + e
                if ts > HI:
                    continue    # the last fraction of a second
                judge(ctx, engine, float(ts), FIXED[(n + i) % len(FIXED) if 1 < y < 9999 else 0])
                if ctx.full():
                    return


def seconds(ctx):
    """Every minute and some seconds of a day, before and after 1970."""
    engine = machine()
    for base in (0, -86400, days(2016, 2, 29) * 86400, days(1900, 2, 28) * 86400):
        for s in list(range(0, 86400, 599)) + [0.001, 0.5, 0.999, 59.999, 3599.9, 1.0, 61.0]:
            judge(ctx, engine, float(base + s), "")
    for ts in (LO, LO + 0.5, HI, HI - 0.5, HI - 1, 0.0, -0.0, -0.25, -1.0, 2.0**31, -2.0**31, 2.0**32, 1e9, 1e10, 1e11):
        judge(ctx, engine, float(ts), "")


def zones(ctx):
    engine = machine()
    for y in range(2007, 2037, 1 if ctx.thorough else 3):
        turns = [sunday(y, 3, -1) * 86400, sunday(y, 10, -1) * 86400, sunday(y, 3, 2) * 86400, sunday(y, 11, 1) * 86400, newYear(y) * 86400, days(y, 7, 1) * 86400]
        for t in turns:
            for h in range(-6, 20):
                for d in (-1, 0, 0.5, 1800):
                    for zone in ZONES:
                        ts = float(t + 3600 * h + d)
                        utc = math.floor(ts)
                        here = ZONES[zone](utc, y)
                        # a repeated hour is doubtful
                        doubtful = any(ZONES[zone](utc + k, fields(utc + k)["year"]) != here for k in (-7200, -3600, 3600, 7200))
                        judge(ctx, engine, ts, zone, doubtful)
                        if ctx.full():
                            return


def errors(ctx):
    bad = ["nosuch", "Europe/Nowhere", " ", "Etc", "\u00e9", "UTC ", "../UTC"]
    out = [LO - 1.0, HI + 1.0, -1e300, 1e300, float("nan"), float("inf"), float("-inf"), LO - 0.5]
    good = [0.0, 1e9, -1e9]

    def ref(code):
        def f(ts, zone, *r):
            if ts not in good:
                raise Err(code + 1)
            if zone in bad:
                raise Err(code)
            return SKIP
        return f
    for n in NAMES + ["isWeekend", "isWorkHours"]:
        code = CODES.get(n, 40160 if n == "isWeekend" else 40170)
        sweep(ctx, "time." + n, ["double", "string"], "boolean" if n.startswith("is") else "int", ref(code), [(t, "") for t in out] + [(t, z) for t in good for z in bad])

        # at the ends of the range, in zones that lead out of it
        def ends(ts, zone, code=code):
            raise Err(code + 1)
        sweep(ctx, "time." + n, ["double", "string"], "boolean" if n.startswith("is") else "int", ends, [(float(HI), "Etc/GMT-14"), (HI - 50399.0, "Etc/GMT-14"), (float(LO), "Etc/GMT+12"), (LO + 43199.0, "Etc/GMT+12")], label=n + "/ends")
    ranges = [-1.0, 0.0, 0.5, 1.0, 29.0, 366.0, float("inf"), float("-inf")]
    for n, (field, code) in TESTS.items():
        def test(ts, zone, low, high):
            if low >= high:
                raise Err(code)
            if ts not in good:
                raise Err(code + 2)
            if zone in bad:
                raise Err(code + 1)
            return low <= local(ts, zone)[field] < high
        sweep(ctx, "time." + n, ["double", "string", "double", "double"], "boolean", test, [(t, "", a, b) for t in good for a in ranges for b in ranges] + [(t, "", 1.0, 2.0) for t in out] + [(0.0, z, 1.0, 2.0) for z in bad])


def making(ctx):
    types = ["int"] * 7 + ["string"]

    def ref(y, mo, d, h, mi, s, ms, zone):
        ok = 1 <= y <= 9999 and 1 <= mo <= 12 and 1 <= d <= lengths(y)[mo - 1] and 0 <= h < 24 and 0 <= mi < 60 and 0 <= s < 60 and 0 <= ms < 1000
        if zone not in ZONES:
            if not ok:
                return SKIP
            raise Err(40080)
        if not ok:
            raise Err(40081)
        off = ZONES[zone](0, 2015)
        return (days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s - off) + ms / 1000.0
    M = 2**31 - 1
    years = [-M - 1, -1, 0, 1, 4, 1582, 1600, 1900, 1969, 1970, 2000, 2100, 9999, 10000, M]
    cases = [(y, m, d, 0, 0, 0, 0, "") for y in years for m in [-M - 1, -1, 0, 1, 2, 3, 4, 6, 9, 11, 12, 13, M] for d in [-M - 1, -1, 0, 1, 28, 29, 30, 31, 32, M]]
    cases += [(2016, 2, 29, h, mi, s, ms, z) for h in (-1, 0, 12, 23, 24, M) for mi in (-1, 0, 59, 60, M) for s in (-1, 0, 59, 60, 61, M) for ms in (-M - 1, -1, 0, 1, 500, 999, 1000, M) for z in ["", "Asia/Tokyo"]]
    cases += [(y, m, d, 1, 2, 3, 4, z) for y in (1, 2015, 9999) for m, d in ((1, 2), (12, 30)) for z in ["", "UTC", "Etc/GMT+12", "Etc/GMT-14"]]
    cases += [(2015, 1, 1, 0, 0, 0, 0, z) for z in ("nosuch", " ", "\u00e9", "Etc")]
    sweep(ctx, "time.makeTimestamp", types, "double", ref, cases, tol=1e-15)

    # local times at the ends of the calendar
    call = Call("time.makeTimestamp", types, "double")
    for args in [(1, 1, 1, 0, 0, 0, 0, "Etc/GMT-14"), (9999, 12, 31, 23, 59, 59, 999, "Etc/GMT+12"), (1, 1, 1, 13, 59, 59, 0, "Etc/GMT-14"), (1, 1, 1, 14, 0, 0, 0, "Etc/GMT-14")]:
        if ctx.want(["ends"] + list(args)):
            got = call(*args)
            off = ZONES[args[7]](0, 2015)
            exact = ("ok", (days(*args[:3]) * 86400 + args[3] * 3600 + args[4] * 60 + args[5] - off) + args[6] / 1000.0)
            if not agree(got, exact, 1e-15) and got[:2] != ("err", 40081):
                ctx.fail(["ends"] + list(args), "time.makeTimestamp{0} gives {1}, must give {2} or error 40081".format(args, got, exact))


def tasks(tier):
    years = [1, 4, 100, 400, 1582, 1600, 1700, 1900, 1904, 1969, 1970, 1972, 2000, 2015, 2016, 2100, 9999]
    if tier == "thorough":
        years = sorted(set(years + list(range(1890, 2110)) + list(range(2, 9999, 371))))
    return [("years/%d" % i, calendar, (years[i::8],)) for i in range(8)] + [("seconds", seconds, ()), ("zones", zones, ()), ("errors", errors, ()), ("making", making, ())]
