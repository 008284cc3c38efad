"""A controlled scheduler for real Python threads, with scheduling points at every line (or call) of the code under test.

Exactly one thread runs at a time.  A schedule is (first thread, sorted list of global point numbers at which the running
thread is preempted in favour of the next unfinished one); everything else is fixed, so a schedule replays exactly.
"""
import sys
import threading


class Schedule:
    def __init__(self, bodies, first, preempt, prefix, granularity="line"):
        self.bodies, self.first, self.preempt = bodies, first, set(preempt)
        self.prefix = prefix
        self.line = granularity == "line"
        self.n = len(bodies)
        self.gates = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * self.n
        self.finished = threading.Semaphore(0)
        self.points = 0
        self.segments = []          # (thread, points executed in this segment)
        self.seg_start = 0
        self.results = [None] * self.n
        self.free = False           # set when a thread had to wait for a parked one
        self.interest = {}

    def _next(self, me):
        for d in range(1, self.n + 1):
            t = (me + d) % self.n
            if not self.done[t]:
                return t
        return None

    def _switch(self, me):
        t = self._next(me)
        if t is None or t == me:
            return
        self.segments.append((me, self.points - self.seg_start))
        self.seg_start = self.points
        self.gates[t].release()
        self.gates[me].acquire()

    def _point(self, me):
        self.points += 1
        if self.points in self.preempt:
            self._switch(me)

    def _thread(self, me):
        self.gates[me].acquire()
        interest = self.interest

        def local(frame, event, arg):
            if event == "line":
                self._point(me)
            return local

        def tracer(frame, event, arg):
            fn = frame.f_code.co_filename
            ok = interest.get(fn)
            if ok is None:
                ok = interest[fn] = fn.startswith(self.prefix)
            if not ok:
                return None
            self._point(me)
            return local if self.line else None

        sys.settrace(tracer)
        try:
            self.results[me] = ("value", self.bodies[me]())
        except Exception as e:  # pylint: disable=broad-except
            self.results[me] = ("raised", e)
        finally:
            sys.settrace(None)
        self.done[me] = True
        self.segments.append((me, self.points - self.seg_start))
        self.seg_start = self.points
        t = self._next(me)
        if t is None:
            self.finished.release()
        else:
            self.gates[t].release()

    def run(self, timeout=30):
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.gates[self.first].release()
        waited, last = 0.0, -1
        while not self.finished.acquire(timeout=0.05):
            waited += 0.05
            if self.points != last:
                last, waited = self.points, 0.0
            elif waited >= 0.1 and not self.free:
                # the running thread waits for something a parked thread holds (a lock): waiting hands over
                self.free, self.preempt = True, set()
                for g in self.gates:
                    g.release()
            elif waited > timeout:
                return False
        for t in ts:
            t.join()
        return True
