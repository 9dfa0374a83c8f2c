"""The scheduler: caller threads parked and released one at a time, every
pylogit source line a possible preemption point and a possible fault point.

One plan (a JSON value, itself a pure function of one integer seed) decides
every choice; `Run` executes it and records what happened.
"""
import os
import random
import sys
import threading
import zlib

from . import env

EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RuntimeError": RuntimeError,
    "SystemExit": SystemExit,
    "FloatingPointError": FloatingPointError,
    "GeneratorExit": GeneratorExit,
}


def make_exc(name):
    import errno
    import numpy as np
    if name == "LinAlgError":
        return np.linalg.LinAlgError("sim: singular matrix")
    if name == "EPIPE":
        return BrokenPipeError(errno.EPIPE, "sim: broken pipe")
    if name == "ENOSPC":
        return OSError(errno.ENOSPC, "sim: no space left on device")
    if name == "EIO":
        return OSError(errno.EIO, "sim: input/output error")
    if name == "EINTR":
        return InterruptedError(errno.EINTR, "sim: interrupted system call")
    if name == "ClosedFile":
        return ValueError("sim: I/O operation on closed file")
    if name == "SimCrash":
        return env.SimCrash("sim: process died")
    return EXC[name]("sim: injected %s" % name)


class Task(object):
    def __init__(self, idx, body=None):
        self.idx = idx
        self.body = body
        self.lock = env.real["Lock"]()
        self.lock.acquire()
        self.done = False
        self.blocked_on = None
        self.error = None
        # per operation
        self.lines = 0
        self.seams = {}
        self.line_faults = {}
        self.seam_faults = {}
        self.fired = []
        self.in_op = False
        self.out = []


class Run(object):
    MAX_LINES_PER_OP = 3000000

    MAX_SEAMS_PER_OP = 100000

    def __init__(self, schedule=None, clock=None, optimizer=None, entropy=0):
        self.entropy = random.Random("entropy/%s" % entropy)
        self.schedule = schedule or {"mode": "serial"}
        self.optimizer = optimizer
        self.steps = 0
        self.switches = []
        self.fault_counts = {}
        self.seam_counts = {}
        self.tasks = []
        self.cur = Task(0)          # the task of a serial run
        self.serial = True
        self.preempt = False
        self.ctl = env.real["Lock"]()
        self.ctl.acquire()
        self.digest = 0
        self.by_ident = {}
        self._codes = {}
        self.disk = None
        self.lines_total = 0
        env.clock.reset(clock)
        self.hist = []

    # -- life cycle --------------------------------------------------------
    def __enter__(self):
        env.ambient_reset()
        env.current = self
        self._py_random = random.getstate()
        random.seed(self.entropy.getrandbits(64))
        return self

    def __exit__(self, *a):
        random.setstate(self._py_random)
        env.current = None

    # -- per operation -----------------------------------------------------
    def begin_op(self, faults=(), trace=False, task=None):
        t = task or self.cur
        t.lines = 0
        t.seams = {}
        t.line_faults = {}
        t.seam_faults = {}
        t.fired = []
        t.out = []
        for f in faults:
            if f["at"] == "line":
                t.line_faults[f["n"]] = f["exc"]
            else:
                t.seam_faults[(f["at"], f["n"])] = f["exc"]
        t.in_op = True
        if trace or t.line_faults or self.preempt:
            sys.settrace(self._tracer(t))

    def end_op(self, task=None):
        t = task or self.cur
        sys.settrace(None)
        t.in_op = False
        self.lines_total += t.lines
        return t.fired

    # -- tracing -----------------------------------------------------------
    def _tracer(self, t):
        codes = self._codes
        pkg = env.PKG_DIR
        faults = t.line_faults
        run = self

        def new_frame():
            # A line is counted when the frame moves to another line: the
            # interpreter's JIT makes the repeated events of one-line loops
            # and comprehensions unreliable.
            last = [None]

            def local(frame, event, arg):
                if event == "line":
                    here = frame.f_lineno
                    if here == last[0]:
                        return local
                    last[0] = here
                    t.lines += 1
                    n = t.lines
                    if n in faults:
                        exc = faults.pop(n)
                        run._note_fault(t, "line", n, exc, frame)
                        raise make_exc(exc)
                    if run.preempt:
                        run._on_line(t, frame)
                    if n > run.MAX_LINES_PER_OP:
                        raise env.SimFault("operation does not terminate")
                return local
            return local

        def glob(frame, event, arg):
            c = frame.f_code
            ok = codes.get(c)
            if ok is None:
                ok = codes[c] = c.co_filename.startswith(pkg)
            if ok:
                return new_frame()
            return None
        return glob

    def _where(self, frame):
        return "%s:%s:%d" % (os.path.basename(frame.f_code.co_filename),
                             frame.f_code.co_name, frame.f_lineno)

    def _note_fault(self, t, at, n, exc, frame=None):
        where = self._where(frame) if frame is not None else ""
        t.fired.append({"at": at, "n": n, "exc": exc, "where": where})
        key = "%s:%s" % (at, exc)
        self.fault_counts[key] = self.fault_counts.get(key, 0) + 1
        self.digest = zlib.crc32(("%s|%s|%d" % (key, where, n)).encode(),
                                 self.digest)

    # -- seams -------------------------------------------------------------
    def task_here(self):
        if self.serial:
            return self.cur
        return self.by_ident.get(threading.get_ident())

    def seam(self, name, info=None):
        t = self.task_here()
        if t is None or not t.in_op:
            return
        n = t.seams.get(name, 0) + 1
        t.seams[name] = n
        if n > self.MAX_SEAMS_PER_OP:
            raise env.SimFault("operation does not terminate")
        self.seam_counts[name] = self.seam_counts.get(name, 0) + 1
        f = t.seam_faults.pop((name, n), None)
        if f is not None:
            self._note_fault(t, name, n, f)
            raise make_exc(f)

    # -- threads -----------------------------------------------------------
    def run_tasks(self, bodies):
        """Run the bodies as concurrent caller threads under the schedule."""
        sch = self.schedule
        self.rng = random.Random(sch.get("seed", 0))
        self.mode = sch["mode"]
        self.explicit = None
        if self.mode == "explicit":
            self.explicit = {int(s): int(t) for s, t in sch["switches"]}
        self.p = sch.get("p", 0.05)
        if self.mode == "points":
            self.points = set(sch["points"])
        if self.mode == "loc":
            self.mod = sch.get("mod", 7)
            self.rem = sch.get("rem", 0)
            self.loc_cache = {}
        self.serial = False
        self.tasks = [Task(i, b) for i, b in enumerate(bodies)]
        threads = []
        old = threading.stack_size()
        for t in self.tasks:
            th = threading.Thread(target=self._thread_main, args=(t,))
            th.daemon = True
            threads.append(th)
        self.preempt = len(self.tasks) > 1
        for th in threads:
            th.start()
        first = self._pick(None)
        self._release(first)
        self.ctl.acquire()
        for th in threads:
            th.join()
        self.serial = True
        self.preempt = False
        for t in self.tasks:
            if t.error is not None:
                raise t.error
        return [t.result for t in self.tasks]

    def _thread_main(self, t):
        t.lock.acquire()
        self.by_ident[threading.get_ident()] = t
        try:
            t.result = t.body(t)
        except BaseException as e:      # harness error inside a body
            t.error = e
        sys.settrace(None)
        t.done = True
        self.steps += 1
        nxt = self._pick(t)
        if nxt is None:
            self.ctl.release()
        else:
            self._release(nxt)

    def _release(self, t):
        t.lock.release()

    def _runnable(self, me=None):
        out = []
        for t in self.tasks:
            if t.done or t is me:
                continue
            if t.blocked_on is not None:
                if t.blocked_on.owner is not None:
                    continue
                t.blocked_on = None
            out.append(t)
        return out

    def _pick(self, me):
        c = self._runnable(me)
        if not c:
            return None
        if self.explicit is not None:
            want = self.explicit.get(self.steps)
            for t in c:
                if t.idx == want:
                    break
            else:
                t = c[0]
        else:
            t = c[self.rng.randrange(len(c))]
        self.switches.append((self.steps, t.idx))
        return t

    def _on_line(self, t, frame):
        self.steps += 1
        if self.explicit is not None:
            if self.steps not in self.explicit:
                return
            go = self.explicit[self.steps] != t.idx
        else:
            m = self.mode
            if m == "prob":
                go = self.rng.random() < self.p
            elif m == "points":
                go = self.steps in self.points
            elif m == "loc":
                key = (frame.f_code, frame.f_lineno)
                h = self.loc_cache.get(key)
                if h is None:
                    h = zlib.crc32(self._where(frame).encode()) % self.mod
                    self.loc_cache[key] = h
                go = h == self.rem and self.rng.random() < self.p
            else:
                go = False
        if go:
            self._switch(t, frame)

    def _switch(self, t, frame=None):
        nxt = self._pick(t)
        if nxt is None:
            return False
        if frame is not None:
            self.digest = zlib.crc32(
                ("%d>%d@%s" % (t.idx, nxt.idx, self._where(frame))).encode(),
                self.digest)
        self._release(nxt)
        t.lock.acquire()
        return True

    def checkpoint(self, t):
        """A preemption point between two operations of a caller."""
        if not self.preempt:
            return
        self.steps += 1
        if self.explicit is not None:
            if self.steps in self.explicit and self.explicit[self.steps] != t.idx:
                self._switch(t)
        elif self.rng.random() < 0.5:
            self._switch(t)

    def disk_point(self, t):
        """A preemption point at a call that reaches the simulated disk."""
        self.steps += 1
        if self.explicit is not None:
            if self.steps in self.explicit and self.explicit[self.steps] != t.idx:
                self._switch(t)
        elif self.rng.random() < 0.3:
            self._switch(t)

    def block_on(self, lock):
        t = self.task_here()
        if self.serial or t is None:
            return False
        t.blocked_on = lock
        self.steps += 1
        ok = self._switch(t)
        t.blocked_on = None
        return ok
