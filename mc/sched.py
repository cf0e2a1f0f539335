"""Two real threads under a deterministic scheduler: exactly one runs at a time
and control changes hands only at chosen points (executed lines, bytecode
instructions or function entries of the code under test)."""
import os
import sys
import threading
import xigt

ROOT = os.path.dirname(os.path.abspath(xigt.__file__)) + os.sep


class Sched:
    """cuts[0]: points thread 0 executes before thread 1 is let in; cuts[1]:
    points thread 1 then executes before thread 0 continues; and so on.  A
    thread that ends hands over to the other one."""

    def __init__(self, fns, cuts, unit='line', total=False):
        self.fns, self.cuts, self.unit = fns, list(cuts), unit
        self.go = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * len(fns)
        self.end = threading.Semaphore(0)
        self.count = 0              # points of the running thread since it was let in
        self.points = [0] * len(fns)
        self.result = [None] * len(fns)
        self.free = False
        self.total = total          # count all points (else only up to the last cut)
        self.where = None           # code location of the last preemption

    def point(self, me, frame):
        self.points[me] += 1
        if self.free:
            return
        self.count += 1
        if self.cuts and self.count == self.cuts[0]:
            self.cuts.pop(0)
            other = 1 - me
            if other < len(self.fns) and not self.done[other]:
                self.where = '%s:%s' % (frame.f_code.co_name, frame.f_lineno)
                self.count = 0
                self.go[other].release()
                self.go[me].acquire()

    def tracer(self, me):
        point, unit = self.point, self.unit

        def local(frame, event, arg):
            if not self.cuts and not self.total:
                sys.settrace(None)
                return None
            if event == unit:
                point(me, frame)
            return local

        def trace(frame, event, arg):
            if not self.cuts and not self.total:
                sys.settrace(None)
                return None
            if not frame.f_code.co_filename.startswith(ROOT):
                return None
            if unit == 'call':
                point(me, frame)
                return None
            if unit == 'opcode':
                frame.f_trace_opcodes = True
            return local
        return trace

    def body(self, me):
        self.go[me].acquire()
        try:
            sys.settrace(self.tracer(me))
            try:
                r = ('ok', self.fns[me]())
            finally:
                sys.settrace(None)
        except Exception as e:
            r = ('raises', '%s: %s' % (type(e).__name__, e))
        self.result[me] = r
        self.done[me] = True
        self.count = 0
        rest = [i for i, d in enumerate(self.done) if not d]
        if rest:
            self.go[rest[0]].release()
        else:
            self.end.release()

    def run(self, timeout=5):
        ths = [threading.Thread(target=self.body, args=(i,), daemon=True)
               for i in range(len(self.fns))]
        for t in ths:
            t.start()
        self.go[0].release()
        if not self.end.acquire(timeout=timeout):
            # the running thread waits for the preempted one (a lock): let both run
            self.free = True
            for g in self.go:
                g.release()
            if not self.end.acquire(timeout=20):
                return 'deadlock'
        for t in ths:
            t.join()
        return self.result
