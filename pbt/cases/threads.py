"""Schedules of two threads, chosen by the case: the first is stopped before its k-th bytecode instruction inside the code
under test, the second runs (to its end, to its m-th instruction, or until it waits for the first), then the first goes on.
No code under test here."""
import sys
import threading
from cases.base import *

PART = "/pytracer/"
LONG = 60.


def counted(f, stop, at, where=None):
    """runs f; at() is called before instruction number `stop` of the code under test. -> number of instructions"""
    n = [0]

    def local(fr, ev, arg):
        if ev == "opcode":
            n[0] += 1
            if where is not None:
                where.setdefault((fr.f_code.co_filename, id(fr.f_code), fr.f_lasti), []).append(n[0])
            if n[0] == stop:
                at()
        return local

    def tr(fr, ev, arg):
        if PART not in fr.f_code.co_filename:
            return None
        fr.f_trace_opcodes = True
        return local
    sys.settrace(tr)
    try:
        f()
    finally:
        sys.settrace(None)
    return n[0]


def moments(f, g, n, files=""):
    """numbers of n instructions that f executes: a function of the code (in files named so, if any), one of its instructions and
    one of its executions, the early ones more often; g is a generator"""
    where, code = {}, {}
    counted(f, -1, None, where)
    if not where:
        raise Reject()
    for c, v in where.items():
        code.setdefault(c[:2], []).append(v)
    code = [v for c, v in code.items() if files in c[0]] or list(code.values())
    out = []
    for _ in range(n):
        w = code[int(g.u() * len(code))]
        w = w[int(g.u() * len(w))]
        out.append(w[int(g.u() ** 2 * len(w))])
    return out


class Side(threading.Thread):
    def __init__(self, f, stop):
        super().__init__(daemon=True)
        self.f, self.stop_at = f, stop
        self.quiet, self.go = threading.Event(), threading.Event()
        self.err, self.out, self.done, self.reached = None, None, False, False

    def pause(self):
        self.reached = True
        self.quiet.set()
        self.go.wait(LONG)

    def run(self):
        def body():
            self.out = self.f()
        try:
            counted(body, self.stop_at, self.pause)
        except BaseException as e:
            self.err = e
        self.done = True
        self.quiet.set()


def together(f, g, k, m, what):
    """f to its instruction k, g to its instruction m, f to its end, g to its end. -> results and whether f was really stopped"""
    a, b = Side(f, k), Side(g, m)
    a.start()
    a.quiet.wait(LONG)
    stopped = a.reached
    b.start()
    b.quiet.wait(.05)       # it may have to wait for the first
    a.go.set()
    a.join(.1)              # and the first for it
    b.go.set()
    for t in (a, b):
        t.join(LONG)
        require(t.done, "%s: the two threads wait for each other forever", what)
    for t in (a, b):
        if t.err is not None:
            if isinstance(t.err, (Violation, Reject)):
                raise t.err
            raise Violation("%s: %s: %s" % (what, type(t.err).__name__, t.err))
    return a.out, b.out, stopped
