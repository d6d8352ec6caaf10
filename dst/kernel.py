"""Deterministic simulation kernel.

Real OS threads run the real code, but only one at a time: every sim thread parks on its own
baton and the kernel decides who holds it.  Control can move

* at a heap-touching bytecode instruction of diwire (or of code diwire generates),
* at a lock acquire / release made through ``threading`` (patched to ``SimLock``),
* at explicit points of the workload (slow providers, sleeps, task steps).

Every choice comes from one ``random.Random`` owned by the run, or, in a replay, from the recorded
schedule.  Preemptions are keyed by (thread, local step of that thread) and forced choices by their
ordinal, so a schedule is a small list that can be cut down by the minimiser.
"""

from __future__ import annotations

import _thread
import os
import random
import sys
import threading
from typing import Any, Callable

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_get_ident = _thread.get_ident

HEAP_OPS = {
    "LOAD_ATTR",
    "STORE_ATTR",
    "DELETE_ATTR",
    "BINARY_SUBSCR",
    "STORE_SUBSCR",
    "DELETE_SUBSCR",
    "CALL",
    "CALL_FUNCTION_EX",
    "CONTAINS_OP",
    "STORE_GLOBAL",
    "STORE_DEREF",
    "LOAD_DEREF",
    "FOR_ITER",
    "BEFORE_WITH",
}


class SimError(Exception):
    """The simulator itself failed (never a verdict on the code)."""


class Unsuitable(SimError):
    """The generator made something the model does not cover: the run is not counted."""


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class SimAbort(BaseException):
    """Unwinds a sim thread after the run has been decided."""


WATCHDOG_S = 120.0
ACTIVE: "Kernel | None" = None
_BY_IDENT: dict[int, "SimThread"] = {}


def current() -> "SimThread | None":
    if ACTIVE is None:
        return None
    return _BY_IDENT.get(_get_ident())


class SimThread:
    __slots__ = (
        "tid",
        "name",
        "fn",
        "baton",
        "state",
        "wake_at",
        "blocked_on",
        "local",
        "prio",
        "error",
        "result",
        "ident",
        "next_at",
        "poked",
    )

    def __init__(self, tid: int, name: str, fn: Callable[[], Any]) -> None:
        self.tid = tid
        self.name = name
        self.fn = fn
        self.baton = _real_allocate()
        self.baton.acquire()
        self.state = "ready"  # ready | blocked | sleeping | idle | done
        self.wake_at = 0.0
        self.blocked_on: Any = None
        self.local = 0
        self.prio = 0.0
        self.error: BaseException | None = None
        self.result: Any = None
        self.ident = 0
        self.next_at = 0
        self.poked = False


class Kernel:
    """One run.  ``strategy`` is a dict produced by the generator (or stored in a replay)."""

    def __init__(
        self,
        *,
        seed: int,
        strategy: dict[str, Any],
        replay: dict[str, Any] | None = None,
        max_steps: int = 400_000,
    ) -> None:
        self.rng = random.Random(seed)
        self.strategy = strategy
        self.kind = strategy.get("kind", "coarse")
        self.replay = replay
        self.max_steps = max_steps
        self.now = 0.0
        self.seq = 0
        self.steps = 0
        self.switches = 0
        self.threads: list[SimThread] = []
        self.running: SimThread | None = None
        self.main_baton = _real_allocate()
        self.main_baton.acquire()
        self.outcome: BaseException | None = None
        self.aborting = False
        self.preempts: list[list[int]] = []  # [tid, local, target]
        self.forced: list[int] = []
        self.lock_events = 0
        self.lock_waits = 0
        self.sig = 0  # rolling hash of the interleaving
        self.trace: list[tuple] | None = None
        if replay is not None:
            self._replay_pre = {(p[0], p[1]): p[2] for p in replay["preempts"]}
            self._replay_forced = list(replay["forced"])
        else:
            self._replay_pre = {}
            self._replay_forced = []
        self._gap = float(strategy.get("gap", 50))
        self._hot = bool(strategy.get("hot", False))

    # -- bookkeeping -----------------------------------------------------------------
    def tick(self) -> int:
        self.seq += 1
        return self.seq

    def _note(self, a: int, b: int) -> None:
        self.sig = (self.sig * 1000003 ^ (a * 8191 + b)) & 0xFFFFFFFFFFFFFFFF

    # -- lifecycle -------------------------------------------------------------------
    def spawn(self, name: str, fn: Callable[[], Any]) -> SimThread:
        t = SimThread(len(self.threads), name, fn)
        t.prio = self.rng.random()
        t.next_at = self._draw_gap(t)
        self.threads.append(t)
        return t

    def spawn_live(self, name: str, fn: Callable[[], Any]) -> SimThread:
        """Start another thread from inside the run; it competes from the next choice on."""
        t = self.spawn(name, fn)
        _real_start(self._bootstrap, (t,))
        return t

    def join(self, me: SimThread, t: SimThread) -> None:
        while t.state != "done":
            me.blocked_on = t
            self.block(me, "blocked")
        me.blocked_on = None

    def _draw_gap(self, t: SimThread) -> int:
        if self.replay is not None:
            return 0
        if self.kind == "rand":
            g = self._gap
            return t.local + 1 + int(self.rng.expovariate(1.0 / g))
        if self.kind == "pct":
            # a few preemptions, uniformly placed over an estimated horizon
            horizon = int(self.strategy.get("horizon", 400))
            budget = self.strategy.get("depth", 2)
            used = sum(1 for p in self.preempts if p[0] == t.tid)
            if used >= budget:
                return 1 << 60
            return t.local + 1 + self.rng.randrange(horizon)
        return 1 << 60

    def run(self) -> None:
        """Run all spawned threads to completion (or to a verdict)."""
        global ACTIVE
        if not self.threads:
            return
        if ACTIVE is not None:
            raise SimError("nested kernels")
        ACTIVE = self
        try:
            for t in self.threads:
                _real_start(self._bootstrap, (t,))
            first = self._choose(self._runnable())
            self.running = first
            first.baton.release()
            if not self.main_baton.acquire(True, WATCHDOG_S):
                raise SimError(f"watchdog: run still going after {WATCHDOG_S}s of real time")
        finally:
            ACTIVE = None
            for t in self.threads:
                _BY_IDENT.pop(t.ident, None)
        if self.outcome is not None:
            raise self.outcome

    def _bootstrap(self, t: SimThread) -> None:
        t.ident = _get_ident()
        t.baton.acquire()
        _BY_IDENT[t.ident] = t
        try:
            if not self.aborting:
                t.result = t.fn()
        except SimAbort:
            pass
        except BaseException as e:  # noqa: BLE001
            t.error = e
            if self.outcome is None:
                self.outcome = SimError(f"sim thread {t.name} died: {type(e).__name__}: {e}")
                self.outcome.__cause__ = e
                self.aborting = True
        t.state = "done"
        for o in self.threads:
            if o.state == "blocked" and o.blocked_on is t:
                o.state = "ready"
        self._note(t.tid, 7)
        self._finish(t)

    def _finish(self, t: SimThread) -> None:
        if self.aborting:
            self.main_baton.release()
            return
        nxt = self._next_after_block()
        if nxt is None:
            self.main_baton.release()
            return
        self.running = nxt
        nxt.baton.release()

    # -- scheduling --------------------------------------------------------------------
    def _runnable(self) -> list[SimThread]:
        return [t for t in self.threads if t.state == "ready"]

    def _choose(self, cands: list[SimThread]) -> SimThread:
        """A forced choice: the running thread cannot go on."""
        if len(cands) == 1:
            return cands[0]
        if self.replay is not None:
            k = len(self.forced)
            want = self._replay_forced[k] if k < len(self._replay_forced) else -1
            pick = next((t for t in cands if t.tid == want), cands[0])
        elif self.kind == "pct":
            pick = max(cands, key=lambda t: t.prio)
        else:
            pick = cands[self.rng.randrange(len(cands))]
        self.forced.append(pick.tid)
        return pick

    def _next_after_block(self) -> SimThread | None:
        while True:
            cands = self._runnable()
            if cands:
                return self._choose(cands)
            sleepers = [t for t in self.threads if t.state == "sleeping"]
            if sleepers:
                wake = min(t.wake_at for t in sleepers)
                if wake > self.now:
                    self.now = wake
                for t in sleepers:
                    if t.wake_at <= self.now:
                        t.state = "ready"
                continue
            stuck = [t for t in self.threads if t.state in ("blocked", "idle")]
            if stuck:
                self._verdict(Deadlock(self._describe_stuck(stuck)))
            return None

    def _describe_stuck(self, stuck: list[SimThread]) -> str:
        parts = []
        for t in stuck:
            if t.state == "idle":
                parts.append(f"{t.name}: event loop has nothing left to run")
            else:
                lk = t.blocked_on
                if isinstance(lk, SimThread):
                    parts.append(f"{t.name}: joins {lk.name}")
                    continue
                owner = getattr(lk, "owner", None)
                parts.append(
                    f"{t.name}: waits for lock held by {owner.name if owner is not None else '?'}"
                )
        return "; ".join(parts)

    def _verdict(self, exc: BaseException) -> None:
        if self.outcome is None:
            self.outcome = exc
        self.aborting = True

    def _switch_to(self, me: SimThread, nxt: SimThread) -> None:
        if nxt is me:
            return
        self.switches += 1
        self._note(nxt.tid, me.local)
        self.running = nxt
        nxt.baton.release()
        me.baton.acquire()
        if self.aborting:
            raise SimAbort

    def block(self, me: SimThread, state: str) -> None:
        """Park ``me`` (state already chosen) until something makes it ready again."""
        me.state = state
        nxt = self._next_after_block()
        if nxt is None:
            # verdict reached while parking: hand control to main and unwind
            me.state = "done"
            self.main_baton.release()
            park = _real_allocate()
            park.acquire()
            park.acquire()  # never returns: the thread is leaked on purpose
        self._switch_to(me, nxt)

    def abort_here(self, exc: BaseException) -> None:
        self._verdict(exc)
        self.main_baton.release()
        park = _real_allocate()
        park.acquire()
        park.acquire()

    def step(self, me: SimThread, weight: int = 0) -> None:
        """A possible preemption point reached by ``me``.

        weight 0: instruction; 1: synchronisation or workload point (more likely to switch);
        -1: an instruction at which this strategy does not switch.
        """
        me.local += 1
        self.steps += 1
        if self.steps > self.max_steps:
            self.abort_here(StepLimit(f"no end after {self.steps} steps"))
        if self.replay is not None:
            tgt = self._replay_pre.get((me.tid, me.local))
            if tgt is None:
                return
            nxt = self.threads[tgt] if tgt < len(self.threads) else None
            if nxt is None or nxt is me or nxt.state != "ready":
                return
            self.preempts.append([me.tid, me.local, nxt.tid])
            self._switch_to(me, nxt)
            return
        if weight < 0:
            return
        if weight:
            if self.kind == "pct":
                want = self.rng.random() < 0.05
            else:
                want = self.rng.random() < self.strategy.get("coarse_p", 0.35)
        elif self.kind == "store":
            # right before something is written: between the test or the read and the act
            want = self.rng.random() * self._gap < 1.0
        else:
            want = me.local >= me.next_at
        if not want:
            return
        cands = [t for t in self.threads if t.state == "ready" and t is not me]
        if cands:
            if self.kind == "pct":
                me.prio = min(t.prio for t in self.threads) - 0.001
                nxt = max(cands, key=lambda t: t.prio)
            else:
                nxt = cands[self.rng.randrange(len(cands))]
            self.preempts.append([me.tid, me.local, nxt.tid])
            me.next_at = self._draw_gap(me)
            self._switch_to(me, nxt)
        else:
            me.next_at = self._draw_gap(me)

    # -- blocking services ----------------------------------------------------------------
    def sleep(self, me: SimThread, d: float) -> None:
        me.wake_at = self.now + d
        self.block(me, "sleeping")

    def schedule_record(self) -> dict[str, Any]:
        return {"preempts": [list(p) for p in self.preempts], "forced": list(self.forced)}


# -- locks ---------------------------------------------------------------------------------
class SimLock:
    """``threading.Lock`` stand-in: a real lock outside a run, a simulated one inside."""

    __slots__ = ("_real", "owner", "_held", "__weakref__")

    def __init__(self) -> None:
        self._real = _real_allocate()
        self.owner: SimThread | None = None
        self._held = False

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = current()
        if me is None:
            ok = self._real.acquire(blocking, timeout)
            if ok:
                self._held = True
            return ok
        k = ACTIVE
        assert k is not None
        k.lock_events += 1
        k.step(me, 1)
        if self._held:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                deadline = k.now + timeout
                while self._held:
                    if k.now >= deadline:
                        return False
                    k.sleep(me, min(0.5, deadline - k.now) or 0.001)
            else:
                k.lock_waits += 1
                while self._held:
                    me.blocked_on = self
                    k.block(me, "blocked")
                me.blocked_on = None
        self._held = True
        self.owner = me
        k._note(me.tid, 3)
        return True

    def release(self) -> None:
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        self.owner = None
        if self._real.locked():
            self._real.release()
        k = ACTIVE
        if k is None:
            return
        for t in k.threads:
            if t.state == "blocked" and t.blocked_on is self:
                t.state = "ready"
        me = current()
        if me is not None and not k.aborting:
            k.lock_events += 1
            k.step(me, 1)

    def locked(self) -> bool:
        return self._held

    def _at_fork_reinit(self) -> None:
        self.__init__()

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *exc: Any) -> None:
        self.release()


class SimRLock:
    __slots__ = ("_lock", "_owner", "_count", "__weakref__")

    def __init__(self) -> None:
        self._lock = SimLock()
        self._owner: int | None = None
        self._count = 0

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        ok = self._lock.acquire(blocking, timeout)
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self) -> None:
        if self._owner != _get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def _is_owned(self) -> bool:
        return self._owner == _get_ident()

    def _release_save(self) -> Any:
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._lock.release()
        return state

    def _acquire_restore(self, state: Any) -> None:
        self._lock.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self) -> None:
        self.__init__()

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *exc: Any) -> None:
        self.release()


def install_lock_seam() -> None:
    threading.Lock = SimLock  # type: ignore[misc,assignment]
    threading.RLock = SimRLock  # type: ignore[misc,assignment]
    threading._allocate_lock = SimLock  # type: ignore[attr-defined]


# -- instruction seam --------------------------------------------------------------------------
_mon = sys.monitoring
_TOOL = 3
_heap_opcodes: set[int] = set()
_store_opcodes: set[int] = set()
_bytes: dict[int, tuple[Any, bytes]] = {}
_static_done = False
_src_prefix = ""


def _interesting(filename: str) -> bool:
    # code the library generates at run time has a made-up file name
    if filename.startswith("<"):
        return not filename.startswith(("<frozen", "<workload"))
    return filename.startswith(_src_prefix)


def _on_instruction(code: Any, off: int) -> Any:
    ent = _bytes.get(id(code))
    if ent is None:
        ent = _bytes[id(code)] = (code, code.co_code)
    if ent[1][off] not in _heap_opcodes:
        return _mon.DISABLE
    k = ACTIVE
    if k is None or k.aborting:
        return None
    me = _BY_IDENT.get(_get_ident())
    if me is None:
        return None
    if k.trace is not None:
        k.trace.append((me.tid, code.co_name, off))
    k.step(me, -1 if k.kind == "store" and ent[1][off] not in _store_opcodes else 0)
    return None


_dynamic: list[Any] = []


def _on_start(code: Any, off: int) -> Any:
    if _interesting(code.co_filename):
        _mon.set_local_events(_TOOL, code, _mon.events.INSTRUCTION)
        _dynamic.append(code)
    return _mon.DISABLE


def install_instruction_seam(src_dir: str) -> None:
    """Preempt inside every function below ``src_dir`` and inside generated resolver code."""
    global _src_prefix
    import opcode

    _src_prefix = os.path.join(os.path.realpath(src_dir), "diwire") + os.sep
    for n in HEAP_OPS:
        if n in opcode.opmap:
            _heap_opcodes.add(opcode.opmap[n])
            if n.startswith(("STORE", "DELETE")):
                _store_opcodes.add(opcode.opmap[n])
    _mon.use_tool_id(_TOOL, "diwire-dst")
    _mon.register_callback(_TOOL, _mon.events.PY_START, _on_start)
    _mon.register_callback(_TOOL, _mon.events.INSTRUCTION, _on_instruction)


def instruction_seam_on() -> None:
    _mon.set_events(_TOOL, _mon.events.PY_START)


def instruction_seam_off() -> None:
    _mon.set_events(_TOOL, 0)
    for code in _dynamic:
        _mon.set_local_events(_TOOL, code, 0)
    _dynamic.clear()
    _bytes.clear()
    _mon.restart_events()
