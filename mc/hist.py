"""Histories of calls of one engine (or several) against the reference interpreter."""
from mc import universe as U
from mc.eng import *
from mc.ref import Ref, untag


def plain(t, v, env):
    """An engine's value: without tags and with one representation of bytes."""
    return untag(t, U.raw(v), env)


class Pair(object):
    """An engine and its model, called in step."""

    def __init__(self, engine, ref):
        self.e, self.ref = engine, ref
        self.logs, self.emits = [], []
        self.events = []
        engine.log = self.onLog
        if ref.doc.get("method") == "emit":
            engine.emit = self.onEmit

    def onLog(self, values, ns):
        self.logs.append((ns, U.raw(list(values))))
        self.events.append(("log", self.e.actionsStarted, self.e.actionsFinished))

    def onEmit(self, x):
        self.emits.append(U.raw(x))
        self.events.append(("emit", self.e.actionsStarted, self.e.actionsFinished))

    def step(self, op):
        """None, or what differs."""
        e, ref = self.e, self.ref
        del self.logs[:], self.emits[:], ref.logs[:], ref.emits[:], ref.events[:], self.events[:]
        finished = ref.finished
        if op[0] == "action":
            want, got = ref.action(op[1]), outcome(e.action, op[1])
        elif op[0] == "merge":
            want, got = ref.merge(*[untag(ref.doc["output"], x, ref.types) for x in op[1:]]), outcome(e.merge, op[1], op[2])
        elif op[0] == "merge mine":
            # the engine's own tally, as it was returned, with a given one
            want = ref.merge(ref.tally, untag(ref.doc["output"], op[1], ref.types))
            got = outcome(e.merge, e.tally, op[1])
        else:
            want, got = getattr(ref, op[0])(), outcome(getattr(e, op[0]))
        if op[0] in ("begin", "end"):
            want = ("ok", None) if want[0] == "ok" else want
            got = ("ok", None) if got[0] == "ok" else got
        if op[0] == "action" and ref.doc.get("method") == "emit" and got[0] == "ok":
            got = ("ok", None)
        if got[0] == "ok" and got[1] is not None:
            got = ("ok", plain(ref.doc["output"], got[1], ref.types))
        if not agree(got, want):
            return "%s gives %s, should give %s" % (op, show(got), show(want))
        if not same([[n, v] for n, v in self.logs], [[n, v] for n, v in ref.logs]):
            return "%s logs %s, should log %s" % (op, show(self.logs), show(ref.logs))
        emits = [plain(ref.doc["output"], x, ref.types) for x in self.emits]
        if not same(emits, ref.emits):
            return "%s emits %s, should emit %s" % (op, show(emits), show(ref.emits))
        if self.events != [(x[0], ref.started, finished) for x in ref.events]:
            return "%s logs and emits in the order %s, should be %s" % (op, show(self.events), show(ref.events))
        wrong = self.state()
        if wrong:
            return "after %s %s" % (op, wrong)
        self.want = want
        return None


    def state(self):
        """None, or where the stores, counters and tally of the engine differ from the model's."""
        e, ref = self.e, self.ref
        for name, c in ref.doc.get("cells", {}).items():
            if not same(plain(c["type"], e.cells[name].value, ref.types), ref.cells[name]):
                return "cell %s is %s, should be %s" % (name, show(e.cells[name].value), show(ref.cells[name]))
        for name, c in ref.doc.get("pools", {}).items():
            if not same(dict((k, plain(c["type"], v, ref.types)) for k, v in e.pools[name].value.items()), ref.pools[name]):
                return "pool %s is %s, should be %s" % (name, show(e.pools[name].value), show(ref.pools[name]))
        if (e.actionsStarted, e.actionsFinished) != (ref.started, ref.finished):
            return "the engine counts %d started and %d finished, should be %d and %d" % (e.actionsStarted, e.actionsFinished, ref.started, ref.finished)
        if ref.doc.get("method") == "fold" and not same(plain(ref.doc["output"], e.tally, ref.types), ref.tally):
            return "the tally is %s, should be %s" % (show(e.tally), show(ref.tally))
        return None
