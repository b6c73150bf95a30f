"""Results of an analysis, shared by all checks."""
import os
import sys
import time
import traceback


class Result:
    """findings: violations (dict where, fn, what, witness, tags); undecided: what could not be decided and why;
    counts: measured numbers; samples: a few obligations written out."""

    def __init__(self, name):
        self.name = name
        self.findings, self.undecided, self.samples = [], [], []
        self.counts, self.functions = {}, set()

    def add(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def bad(self, what, where="?", fn="?", witness="", tags=()):
        self.findings.append(dict(what=what, where=where, fn=fn, witness=str(witness)[:600], tags=tuple(tags)))

    def undec(self, what, why=""):
        self.undecided.append("%s: %s" % (what, str(why)[:200]))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def ok(self, rule, cond, what, where="?", fn="?", witness=""):
        """One obligation of a structural rule."""
        self.add("obligations")
        if cond:
            self.add("discharged")
            self.sample("%s: %s [%s]" % (rule, what, where))
        else:
            self.bad("%s: %s" % (rule, what), where, fn, witness, (rule,))


def guarded(name, fn, *args):
    """Run one analysis; constructs outside its reach make it undecided, never a verdict."""
    from engine.values import Unsupported
    from engine.program import AnalysisError
    from engine.bdd import TooBig
    r = Result(name)
    try:
        fn(r, *args)
    except (Unsupported, TooBig, AnalysisError, RecursionError, KeyError, IndexError, AttributeError, TypeError,
            ValueError, AssertionError, ZeroDivisionError, MemoryError, TimeoutError) as ex:
        tb = traceback.extract_tb(sys.exc_info()[2])
        r.undec(name, "%s: %s (%s)" % (type(ex).__name__, ex, "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)))
        if os.environ.get("REDSEA_DEBUG"):
            traceback.print_exc()
    r.functions = sorted(r.functions)
    return r
