"""The shared driver of all checks.

A check module mc/checks/<id>.py has
    LEVEL        "model_checking" | "exploration" | "fault_enumeration"
    RULE         how cases are made and what makes one non-trivial
    ASSUMPTIONS  list of strings
    tasks(tier)  -> list of (name, function, args): function(ctx, *args) enumerates its part of the space completely
Every task runs in its own forked process (at most NPROC at once, with a watchdog).  Enumeration is deterministic: a
replay file names the task and the case, and replaying it runs that case alone.
"""
import importlib
import json
import os
import re
import select
import signal
import sys
import time
import traceback
import pickle
import hashlib

VERIF = os.environ.get("MC_HERE", "/verif")
NPROC = int(os.environ.get("MC_NPROC", "8"))


class Ctx(object):
    """Collects what one task explored."""

    def __init__(self, tier, only=None):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.only = only            # replay: repr of the one case to run
        self.evaluations = 0
        self.nontrivial = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.failures = []          # (finding key, case, message)
        self.notes = {}
        self.capped = False
        self.maxFailures = 25
        self._outcomes = set()

    def want(self, case):
        """Should this case run?  Counts it as one evaluation."""
        if self.only is not None:
            if repr(case) != self.only:
                return False
        self.evaluations += 1
        return True

    def sample(self, text, limit=3):
        if len(self.samples) < limit:
            self.samples.append(text if isinstance(text, (str, dict, list)) else repr(text))

    def outcome(self, x):
        """Record a distinct observed outcome (to show that the exploration is not vacuous)."""
        if len(self._outcomes) < 200000:
            self._outcomes.add(x if isinstance(x, (str, int, float, tuple, bool, type(None))) else repr(x))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def fail(self, case, message, key=None):
        """Report a violated case.  key: the identity under which a recorded finding may list it."""
        if key is None:
            if sum(1 for k, _, _ in self.failures if k is None) < self.maxFailures:
                self.failures.append((None, repr(case), message))
        elif sum(1 for k, _, _ in self.failures if k == key) < 2:
            self.failures.append((key, repr(case), message))

    def full(self):
        """Whether enough unlisted violations were found to stop (violations with a key, which may be listed, do not count)."""
        return sum(1 for k, _, _ in self.failures if k is None) >= self.maxFailures

    def result(self):
        return {"evaluations": self.evaluations, "nontrivial": self.nontrivial, "states": self.states,
                "transitions": self.transitions, "traces": self.traces, "samples": self.samples,
                "failures": self.failures, "notes": self.notes, "capped": self.capped,
                "outcomes": len(self._outcomes)}


def runTask(ctx, fn, args):
    try:
        fn(ctx, *args)
    except Exception as err:
        # The harness ran something that the code under test does not allow any more.
        ctx.failures.append((None, "<task>", "unexpected exception out of the code under test: " + traceback.format_exc()[-3000:]))
    return ctx.result()


def child(wfd, tier, fn, args):
    try:
        res = runTask(Ctx(tier), fn, args)
        data = pickle.dumps(res)
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
        sys.stdout.flush()
    except BaseException:
        traceback.print_exc()
        os._exit(3)
    os._exit(0)


FAILFAST = None    # with MC_FAILFAST set (while planting bugs only): the keys of known findings


def runAll(tasks, tier, limit):
    """Run the tasks in forked processes; returns {name: result}, with a result for hung or dead ones too."""
    pending = list(tasks)
    running = {}    # rfd -> [name, pid, deadline, chunks, started]
    results = {}
    while pending or running:
        while pending and len(running) < NPROC:
            name, fn, args = pending.pop(0)
            rfd, wfd = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                for other in running:
                    try:
                        os.close(other)
                    except OSError:
                        pass
                child(wfd, tier, fn, args)
            os.close(wfd)
            running[rfd] = [name, pid, time.time() + limit, [], time.time()]
        ready, _, _ = select.select(list(running), [], [], 0.5)
        for fd in ready:
            entry = running[fd]
            data = os.read(fd, 1 << 20)
            if data:
                entry[3].append(data)
                continue
            os.close(fd)
            del running[fd]
            _, status = os.waitpid(entry[1], 0)
            try:
                res = pickle.loads(b"".join(entry[3]))
            except Exception:
                res = Ctx(tier).result()
                res["failures"].append((None, "<task>", "the process exploring this part died (status {0})".format(status)))
            res["wall"] = time.time() - entry[4]
            results[entry[0]] = res
            if FAILFAST is not None and any(k not in FAILFAST for k, _, _ in res["failures"]):
                for other in running.values():
                    os.kill(other[1], signal.SIGKILL)
                print("VIOLATION (fail-fast) %s %s" % (entry[0], [m for k, _, m in res["failures"] if k not in FAILFAST][:1]))
                sys.stdout.flush()
                os._exit(1)
        now = time.time()
        for fd in list(running):
            entry = running[fd]
            if now > entry[2]:
                try:
                    os.kill(entry[1], signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(entry[1], 0)
                os.close(fd)
                del running[fd]
                res = Ctx(tier).result()
                res["failures"].append((None, "<task>", "no answer within {0} s: the code under test hangs or loops on this part of the space".format(limit)))
                res["wall"] = now - entry[4]
                results[entry[0]] = res
    return results


def loadFindings(pid):
    """known_findings.txt: lines 'finding: property=<id> key=<key> <what fails>'; 'fixed:' lines suppress nothing."""
    out = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    out[m.group(2)] = m.group(3)
    except IOError:
        pass
    return out


def main(pid, tier, replay):
    started = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    evidence = os.path.join(VERIF, "evidence")
    try:
        os.makedirs(os.path.join(evidence, "replay"))
    except OSError:
        pass
    level, rule, assumptions, exhaustive = "exploration", "", [], True
    try:
        mod = importlib.import_module("mc.checks." + pid)
        level, rule, assumptions = mod.LEVEL, mod.RULE, list(getattr(mod, "ASSUMPTIONS", []))
        tasks = mod.tasks(tier)
        loaded = None
    except Exception:
        loaded = traceback.format_exc()
        tasks = []
    if replay is not None:
        with open(replay) as f:
            doc = json.load(f)
        for name, fn, args in tasks:
            if name == doc["task"]:
                ctx = Ctx(doc.get("tier", tier), None if doc["case"] == "<task>" else doc["case"])
                res = runTask(ctx, fn, args)
                for key, case, message in res["failures"]:
                    print("case   " + case)
                    print("fails  " + message)
                if res["failures"]:
                    print("VIOLATION property={0} replay={1}".format(pid, replay))
                    return 1
                print("no violation ({0} cases matched)".format(res["evaluations"]))
                return 0
        print("no such task: " + doc["task"])
        return 1

    only = os.environ.get("MC_ONLY")
    if only:
        tasks = [t for t in tasks if only in t[0]]
    limit = getattr(sys.modules.get("mc.checks." + pid), "TASK_LIMIT", {"quick": 400, "thorough": 3 * 3600})[tier]
    if os.environ.get("MC_FAILFAST"):
        global FAILFAST
        FAILFAST = loadFindings(pid)
    results = runAll(tasks, tier, limit) if tasks else {}

    known = loadFindings(pid)
    violations, findings, keys = [], {}, {}
    if loaded is not None:
        violations.append(("<import>", "<task>", "cannot import or set up: " + loaded[-3000:]))
    tot = {"evaluations": 0, "nontrivial": 0, "states": 0, "transitions": 0, "traces": 0}
    samples, notes, outcomes, capped = [], {}, 0, False
    for name, fn, args in tasks:
        res = results[name]
        for k in tot:
            tot[k] += res[k]
        outcomes += res["outcomes"]
        capped = capped or res["capped"]
        if len(samples) < 40:
            samples.extend({"task": name, "case": s} for s in res["samples"])
        for k, v in res["notes"].items():
            notes[k] = notes.get(k, 0) + v
        for key, case, message in res["failures"]:
            if key is not None and key in known:
                findings.setdefault(key, (name, case, message))
            else:
                violations.append((name, case, message))
                keys[(name, case, message)] = key
    if os.environ.get("MC_TIMES"):
        for name in sorted(results, key=lambda n: -results[n].get("wall", 0))[:12]:
            sys.stderr.write("{0:8.1f}s {1} ({2} cases)\n".format(results[name]["wall"], name, results[name]["evaluations"]))

    cov = {"evaluations": tot["evaluations"], "distinct_nontrivial": tot["nontrivial"], "rule": rule,
           "samples": samples[:40], "exhaustive": not capped, "tasks": len(tasks), "distinct_outcomes": outcomes}
    if level == "model_checking":
        cov.update({"states": tot["states"], "transitions": tot["transitions"],
                    "traces_validated_against_impl": tot["traces"]})
    if notes:
        cov["counts"] = notes
    doc = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": assumptions, "wall_s": round(time.time() - started, 2), "violations": len(violations)}
    tmp = os.path.join(evidence, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=repr)
        f.write("\n")
    os.rename(tmp, os.path.join(evidence, pid + ".json"))

    for key in sorted(findings):
        print("KNOWN-FINDING: property={0} {1} (key {2})".format(pid, known[key], key))
    seen = set()
    for name, case, message in violations:
        h = hashlib.sha1((name + case).encode("utf-8")).hexdigest()[:10]
        if h in seen:
            continue
        seen.add(h)
        path = os.path.join("evidence", "replay", "{0}-{1}.json".format(pid, h))
        if len(seen) <= 20:
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump({"property": pid, "tier": tier, "task": name, "case": case, "message": message}, f, indent=1)
                f.write("\n")
        if len(seen) <= int(os.environ.get("MC_SHOW", "5")):
            print("  in {0}: {1}".format(name, case[:400]))
            print("  " + (message if len(message) < 700 else message[:150] + " ... " + message[-500:]).replace("\n", "\n  "))
            print("VIOLATION property={0} replay={1}".format(pid, path))
            if os.environ.get("MC_KEYS"):
                print("KEY\t{0}\t{1}".format(keys.get((name, case, message)), message.replace("\n", " ")))
    print("{0} {1}: {2} evaluations, {3} non-trivial, {4} states, {5} transitions, {6} outcomes, {7} violations, {8:.1f} s".format(
        pid, tier, tot["evaluations"], tot["nontrivial"], tot["states"], tot["transitions"], outcomes, len(violations), time.time() - started))
    return 1 if violations else 0
