"""A virtual clock.  The functions that read the time are replaced (before titus is imported) by ones that ask this module,
so that a check can make time pass at will: by one step for every reading, or only when the host says so."""
import time

NAMES = ("time", "monotonic", "perf_counter", "process_time", "time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns")
REAL = dict((n, getattr(time, n)) for n in NAMES if hasattr(time, n))
current = [None]


def wrap(name, real):
    def read():
        c = current[0]
        if c is None:
            return real()
        return int(c.read() * 1e9) if name.endswith("_ns") else c.read()
    return read


for _n in REAL:
    setattr(time, _n, wrap(_n, REAL[_n]))


class Clock(object):
    def __init__(self, step=2.0**-10):
        self.start()
        self.step = step
        self.readings = 0

    def start(self):
        """The same time again: sums of steps are rounded differently elsewhere, and repeated executions must not differ."""
        self.now = 1048576.0

    def read(self):
        self.readings += 1
        self.now += self.step
        return self.now


def install(step=2.0**-10):
    """In the process of this task only."""
    current[0] = Clock(step)
    return current[0]


def uninstall():
    current[0] = None
