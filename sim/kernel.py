"""Simulation kernel: deterministic tasks, preemption, fault points, event log.

A run is a pure function of (plan, code).  Nothing here draws random numbers or
reads a clock; every decision is read from the plan.
"""

from __future__ import annotations

import _thread
import hashlib
import os
import sys
import threading
import traceback
from collections import Counter

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "htmltools") + os.sep
MAX_STEPS = 8_000_000
MAX_VIOLATIONS = 8


# --------------------------------------------------------------------------
# Injected exceptions
# --------------------------------------------------------------------------
class Injected(BaseException):
    """Marker base of every exception that the simulator injects."""


def _mk(base):
    return type("Injected" + base.__name__, (base, Injected), {})


EXC = {
    b.__name__: _mk(b)
    for b in (
        RuntimeError,
        ValueError,
        KeyError,
        TypeError,
        AttributeError,
        IndexError,
        MemoryError,
        KeyboardInterrupt,
        OSError,
        StopIteration,
        GeneratorExit,
        NotImplementedError,
        RecursionError,
        SystemExit,
        AssertionError,
        UnicodeError,
        StopAsyncIteration,
    )
}


class StepBudget(BaseException):
    pass


class Abort(BaseException):
    pass


class HarnessError(Exception):
    pass


class Stop(Exception):
    """The run cannot go on; the violation has been recorded."""


def is_injected(e) -> bool:
    """True if e is, or was caused by, an injected exception."""
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Injected):
            return True
        todo.append(x.__cause__)
        todo.append(x.__context__)
    return False


def in_library(e) -> bool:
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG):
            return True
        tb = tb.tb_next
    return False


class Outcome:
    __slots__ = ("kind", "value", "exc")

    def __init__(self, kind, value=None, exc=None):
        self.kind = kind  # "ok" | "fault" | "exc"
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.kind == "ok"

    def __repr__(self):
        return f"<{self.kind} {self.value!r} {self.exc!r}>"


# --------------------------------------------------------------------------
# Locks owned by the simulator (only used if the code under test creates locks)
# --------------------------------------------------------------------------
_current: "Sim | None" = None


class SimLock:
    """A lock on which a simulated task waits by yielding to the scheduler."""

    def __init__(self):
        self._l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        sim = _current
        if sim is None or sim.cur is None or sim.cur.thread_id != _thread.get_ident():
            return self._l.acquire(True, timeout)
        while not self._l.acquire(False):
            sim.block("lock")
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _thread.allocate_lock()


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if super().acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            super().release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        s = (self._count, self._owner)
        self._count, self._owner = 0, None
        SimLock.release(self)
        return s

    def _acquire_restore(self, s):
        SimLock.acquire(self)
        self._count, self._owner = s


def install_lock_seam():
    threading.Lock = SimLock
    threading.RLock = SimRLock


# --------------------------------------------------------------------------
# Tasks and scheduler
# --------------------------------------------------------------------------
class Task:
    def __init__(self, index, ops):
        self.index = index
        self.ops = ops
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.quantum = 1 << 60
        self.done = False
        self.blocked = False
        self.op_steps = 0
        self.int_at = -1
        self.int_exc = None
        self.cb_count = 0
        self.cbf_at = -1
        self.cbf_exc = None
        self.in_op = False
        self.nesting = False
        self.thread_id = None
        self.op_index = -1
        self.local = {}


_TOOL = sys.monitoring.DEBUGGER_ID
_codes: list = []


def library_codes():
    """Every code object of the library (functions and what is nested in them)."""
    import gc
    import types

    seen = {}

    def add(c):
        if c in seen or not c.co_filename.startswith(PKG):
            return
        seen[c] = True
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    return list(seen)


def _on_line(code, line):
    s = _current
    if s is not None:
        s._step(code, line)


def _on_instruction(code, offset):
    s = _current
    if s is not None:
        s._step(code, offset)


def instrument(instructions=False):
    """Deliver line (and instruction) events of library code to the simulator."""
    m = sys.monitoring
    if not _codes:
        m.use_tool_id(_TOOL, "sim")
        m.register_callback(_TOOL, m.events.LINE, _on_line)
        m.register_callback(_TOOL, m.events.INSTRUCTION, _on_instruction)
        _codes.extend(library_codes())
    ev = m.events.LINE | (m.events.INSTRUCTION if instructions else 0)
    for c in _codes:
        m.set_local_events(_TOOL, c, ev)


class Sim:
    def __init__(self, plan):
        global _current
        self.plan = plan
        self.log = []
        self.fired = Counter()
        self.probes = Counter()
        self.violations = []
        self.harness_error = None
        self.cur: Task | None = None
        self.steps = 0
        self.switches = 0
        self.sig = hashlib.sha1()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.abort = False
        self.opcode = bool(plan.get("opcode"))
        self._multi = False
        self.nest = plan.get("_nest")
        self.nested = {}
        self.judged = ()
        _current = self
        if self.opcode:
            instrument(True)

    # ---- reporting --------------------------------------------------------
    def ev(self, *a):
        self.log.append(a)

    def probe(self, name, n=1):
        self.probes[name] += n

    def violate(self, cls, msg):
        self.ev("violation", cls)
        if len(self.violations) < MAX_VIOLATIONS:
            self.violations.append({"cls": cls, "msg": str(msg)[:2000]})

    def expect(self, cond, cls, msg=""):
        if not cond:
            self.violate(cls, msg() if callable(msg) else msg)
        return cond

    def digest(self):
        h = hashlib.sha1()
        for e in self.log:
            h.update(repr(e).encode("utf-8", "backslashreplace"))
            h.update(b"\n")
        return h.hexdigest()

    # ---- tracing ----------------------------------------------------------
    def _step(self, code, where):
        """One line (or instruction) of the library is about to run."""
        t = self.cur
        if t is None or not t.in_op or t.thread_id != _thread.get_ident():
            return
        t.op_steps += 1
        self.steps += 1
        if t.op_steps == t.int_at:
            self._fire_int(t, code)
        if t.op_steps > MAX_STEPS:
            raise StepBudget()
        t.quantum -= 1
        if t.quantum <= 0:
            self._switch(code, where)

    def _fire_int(self, t, code):
        t.int_at = -1
        name = t.int_exc
        self.fired["interrupt:" + name] += 1
        self.ev("interrupt", t.index, name, code.co_name)
        raise EXC[name]("injected interrupt")

    # ---- scheduling -------------------------------------------------------
    def _switch(self, code=None, at=None):
        """Give the processor back to the scheduler (called in a task thread)."""
        t = self.cur
        if t is None or not self._multi:
            if t is not None:
                t.quantum = 1 << 60
            return
        # never park a thread inside the import system
        f = sys._getframe(1)
        while f is not None:
            if f.f_code.co_filename.startswith("<frozen importlib"):
                t.quantum = 1
                return
            f = f.f_back
        where = (os.path.basename(code.co_filename), code.co_name, at) if code is not None else "yield"
        self.switches += 1
        self.ev("switch", t.index, where if code is None else where[1])
        self.sig.update(repr((t.index, where)).encode())
        if t.in_op:
            self.probes["preempted-inside-operation"] += 1
        self._park(t)

    def _park(self, t):
        self.main.release()
        t.baton.acquire()
        if self.abort:
            raise Abort()

    def block(self, what):
        t = self.cur
        t.blocked = True
        self.probes["blocked-on-" + what] += 1
        self._park(t)

    def yield_point(self, n=1):
        """Explicit preemption point (foreign code, operation boundary)."""
        t = self.cur
        if t is None:
            return
        self.steps += n

        if t.op_steps > MAX_STEPS:
            raise StepBudget()
        t.quantum -= n
        if t.quantum <= 0:
            self._switch(None)

    def foreign(self, kind, ident=""):
        """Called by every piece of foreign code that the library calls back."""
        t = self.cur
        if t is None:
            return
        t.cb_count += 1
        self.probes["foreign:" + kind] += 1
        if t.cb_count == t.cbf_at:
            t.cbf_at = -1
            self.fired["foreign-raise:" + t.cbf_exc] += 1
            self.ev("foreign-raise", t.index, kind, ident, t.cbf_exc)
            raise EXC[t.cbf_exc]("injected in " + kind)
        self.yield_point()
        if self.nest and self.nest["k"] and t.in_op and not t.nesting and t.cb_count % max(1, self.nest["every"]) == 0:
            ks = self.nest["k"]
            t.nesting = True
            try:
                self._nested(ks[t.cb_count % len(ks)])
            finally:
                t.nesting = False

    def _nested(self, kind, last=False):
        """The foreign code itself uses the library (see nest.py)."""
        from . import nest

        self.probes["reentrant:" + kind] += 1
        try:
            x = nest.do(kind)
        except Exception as e:
            if is_injected(e):
                raise
            x = "raised " + repr(e)
        y = self.nested.setdefault(kind, x)
        if x != y and kind in self.judged:
            when = "after everything else" if last else "in a callback"
            self.violate("nested-call-differs", f"{kind}: {when} {x[:600]}, before {y[:600]}")

    # ---- running library code --------------------------------------------
    def call(self, fn, *args, op=None, **kw) -> Outcome:
        """Run library code under the tracer; classify how it ended."""
        t = self.cur
        own = False
        if t is None:
            t = Task(-1, [])
            t.thread_id = _thread.get_ident()
            self.cur = t
            own = True
        t.op_steps = 0
        t.cb_count = 0
        t.int_at = t.cbf_at = -1
        if op is not None:
            i = op.get("int")
            if i:
                t.int_at, t.int_exc = i["at"], i["exc"]
            c = op.get("cbf")
            if c:
                t.cbf_at, t.cbf_exc = c["at"], c["exc"]
        t.in_op = True
        multi = self._multi
        if own:
            self._multi = False
        try:
            v = fn(*args, **kw)
            t.in_op = False
            return Outcome("ok", v)
        except (StepBudget, Abort):
            t.in_op = False
            raise
        except BaseException as e:
            t.in_op = False
            if is_injected(e):
                return Outcome("fault", exc=e)
            return Outcome("exc", exc=e)
        finally:
            t.in_op = False
            t.int_at = t.cbf_at = -1
            if own:
                self.cur = None
                self._multi = multi

    # ---- phases -----------------------------------------------------------
    def run_tasks(self, op_lists, schedule, exec_op):
        """Run one list of operations per task under the given schedule."""
        tasks = [Task(i, ops) for i, ops in enumerate(op_lists)]
        live = [t for t in tasks if t.ops]
        self._multi = len(live) > 1
        if not live:
            return tasks
        if len(live) == 1:
            t = live[0]
            t.thread_id = _thread.get_ident()
            self.cur = t
            try:
                self._task_body(t, exec_op, None)
            finally:
                self.cur = None
            self._check_abort()
            return tasks
        self.probes["multi-task-phase"] += 1
        for t in live:
            _thread.start_new_thread(self._thread_main, (t, exec_op))
        sched = list(schedule or [])
        rr = 0
        spins = 0
        while True:
            ready = [t for t in live if not t.done]
            if not ready or self.harness_error:
                break
            runnable = [t for t in ready if not t.blocked]
            if not runnable:
                spins += 1
                if spins > 50:
                    self.violate("deadlock", "all tasks wait for each other")
                    self.abort = True
                    break
                for t in ready:
                    t.blocked = False
                runnable = ready
            pick = None
            if sched:
                who, n = sched.pop(0)
                t = live[who % len(live)]
                if t.done or t.blocked:
                    continue
                pick, quantum = t, max(1, n)
            else:
                pick, quantum = runnable[rr % len(runnable)], 1 << 60
                rr += 1
            pick.quantum = quantum
            self.cur = pick
            pick.baton.release()
            self.main.acquire()
            self.cur = None
            if not pick.blocked:
                spins = 0
                for t in ready:
                    t.blocked = False
        self._check_abort()
        self._multi = False
        return tasks

    def _check_abort(self):
        if self.harness_error:
            raise HarnessError(self.harness_error)

    def _thread_main(self, t, exec_op):
        t.baton.acquire()
        t.thread_id = _thread.get_ident()
        try:
            if not self.abort:
                self._task_body(t, exec_op, True)
        except Abort:
            return
        finally:
            t.done = True
        self.main.release()

    def _task_body(self, t, exec_op, _threaded):
        try:
            for i, op in enumerate(t.ops):
                t.op_index = i
                exec_op(t, op)
                self.yield_point()
        except Abort:
            raise
        except Stop:
            pass
        except StepBudget:
            self.violate("no-progress", f"operation exceeded {MAX_STEPS} steps")
        except BaseException as e:
            tb = traceback.format_exc()
            if in_library(e):
                self.violate("unexpected-exception", tb)
            else:
                self.harness_error = tb


def setup_failed(sim, o):
    """A construction that must succeed has raised."""
    if o.kind == "exc" and in_library(o.exc):
        sim.violate("construction-raised", "".join(traceback.format_exception(o.exc))[-1500:])
        raise Stop()
    raise HarnessError(repr(o.exc))


def run_plan(mod, plan):
    """Execute one plan; returns a JSON-able result.  Runs in a forked child."""
    sim = Sim(plan)
    err = None
    if sim.nest:
        from . import nest

        sim.judged = nest.JUDGED[mod.__name__[-3:].upper()]
    try:
        mod.execute(sim, plan)
        for k in sorted(sim.nested):
            sim._nested(k, True)
    except Stop:
        pass
    except HarnessError as e:
        err = str(e)
    except StepBudget:
        sim.violate("no-progress", f"operation exceeded {MAX_STEPS} steps")
    except BaseException as e:
        tb = traceback.format_exc()
        if in_library(e) and not isinstance(e, (KeyboardInterrupt, SystemExit)):
            sim.violate("unexpected-exception", tb)
        else:
            err = tb
    return {
        "violations": sim.violations,
        "digest": sim.digest(),
        "sig": sim.sig.hexdigest() if sim.switches else "",
        "fired": dict(sim.fired),
        "probes": dict(sim.probes),
        "steps": sim.steps,
        "switches": sim.switches,
        "events": len(sim.log),
        "error": err,
        "extra": getattr(sim, "extra", None),
    }
