"""
Controlled scheduler: real threads, one runs at a time, every schedule.

Threads hand the baton over only at points: every call of `point()` (made by
user functions the code under test calls) and the end of a thread.  A schedule
is a list of (thread, number of points it passes before it is preempted); the
rest of the threads then run to completion in order.
"""
import sys
import threading


class Scheduler:
    """Runs a set of jobs under one schedule."""

    def __init__(self, jobs, schedule):
        self.jobs = jobs
        self.schedule = list(schedule)
        self.baton = [threading.Semaphore(0) for _ in jobs]
        self.done = [False]*len(jobs)
        self.out = [None]*len(jobs)
        self.points = [0]*len(jobs)
        self.local = threading.local()
        self.finished = threading.Semaphore(0)
        self.left = None      # points left in the current segment
        self.current = None
        self.switches = 0

    def point(self):
        me = getattr(self.local, "me", None)
        if me is None:
            return
        self.points[me] += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left < 0:
            self.switches += 1
            self._next()
            self.baton[me].acquire()

    def _next(self):
        """Give the baton to the next segment's thread."""
        while self.schedule:
            who, n = self.schedule.pop(0)
            if not self.done[who]:
                self.current, self.left = who, n
                self.baton[who].release()
                return
        self.left = None
        for who, d in enumerate(self.done):
            if not d:
                self.current = who
                self.baton[who].release()
                return
        self.finished.release()

    def _run(self, me):
        self.local.me = me
        self.baton[me].acquire()
        try:
            self.out[me] = ("ok", self.jobs[me](self.point))
        except Exception as ex:
            self.out[me] = ("raised", type(ex).__name__, str(ex)[:200])
        self.done[me] = True
        self._next()

    def run(self):
        threads = [threading.Thread(target=self._run, args=(i,), daemon=True)
                   for i in range(len(self.jobs))]
        for t in threads:
            t.start()
        self._next()
        self.finished.acquire()
        for t in threads:
            t.join()
        return self.out


def count_points(job):
    s = Scheduler([job], [])
    out = s.run()
    return s.points[0], out[0]


def lines(job, where):
    """How many lines of the code under `where` a job runs, and its result."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(where):
            return local
        return None
    out = _traced(job, tracer)
    return n[0], out


def distinct(job, where):
    """Positions at which each line under `where` runs the first and the last
    time, and the job's result."""
    n = [0]
    first, last = {}, {}

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            key = (frame.f_code, frame.f_lineno)
            first.setdefault(key, n[0])
            last[key] = n[0]
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(where):
            return local
        return None
    out = _traced(job, tracer)
    return sorted({*first.values(), *last.values()}), out


def _traced(job, tracer):
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return ("ok", job(lambda: None))
    except Exception as ex:
        return ("raised", type(ex).__name__, str(ex)[:200])
    finally:
        sys.settrace(old)


def at_line(job, k, other, where):
    """Run job, and at its k-th line the other in another thread."""
    n = [0]
    res = [None]

    def run_other():
        try:
            res[0] = ("ok", other(lambda: None))
        except Exception as ex:
            res[0] = ("raised", type(ex).__name__, str(ex)[:200])

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == k:
                t = threading.Thread(target=run_other, daemon=True)
                t.start()
                t.join()
                sys.settrace(None)
                return None
        return local if n[0] < k else None

    def tracer(frame, event, arg):
        if n[0] < k and frame.f_code.co_filename.startswith(where):
            return local
        return None
    out = _traced(job, tracer)
    return out, res[0]
