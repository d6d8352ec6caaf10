"""One simulated run: JSON in, verdict out."""

from __future__ import annotations

import contextvars
import gc
import os
import sys
from collections import Counter
from typing import Any

from dst import kernel as K

_ready = False


def prepare(repo: str = "/repo") -> None:
    """Install the seams, then import the code under test.  Call once per process."""
    global _ready
    if _ready:
        return
    _ready = True
    src = os.path.join(repo, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    # standard library first: its module level locks stay real
    import ast
    import asyncio  # noqa: F401
    import concurrent.futures  # noqa: F401
    import logging  # noqa: F401
    import queue  # noqa: F401

    import pytest  # noqa: F401
    import _pytest.python  # noqa: F401

    K.install_lock_seam()
    import diwire

    if not os.path.realpath(diwire.__file__).startswith(os.path.realpath(src) + os.sep):
        raise K.SimError(f"diwire imported from {diwire.__file__}")
    K.install_instruction_seam(src)
    # generated code has no line numbers worth computing: fixing them up dominates compilation
    for c in (ast.expr, ast.stmt, ast.arg, ast.keyword, ast.alias, ast.excepthandler, ast.pattern, ast.type_param):
        c.lineno = 1  # type: ignore[attr-defined]
        c.col_offset = 0  # type: ignore[attr-defined]
        c.end_lineno = 1  # type: ignore[attr-defined]
        c.end_col_offset = 0  # type: ignore[attr-defined]
    ast.fix_missing_locations = lambda node: node  # type: ignore[assignment]
    gc.disable()


class Result:
    __slots__ = ("violations", "stats", "sig", "schedule", "now", "steps", "switches", "error", "builds", "lock_waits", "sim_error")

    def __init__(self) -> None:
        self.violations: list[tuple[str, str]] = []
        self.error: str | None = None


def build_world(spec: dict[str, Any], share: Any = None, nth: int = 0) -> tuple[Any, str]:
    """Make the container and its registrations; an internal error of the container is a finding."""
    from dst.world import World

    try:
        if spec.get("pytest"):
            from dst.plug import PytWorld

            return PytWorld(spec), ""
        if spec.get("auto"):
            from dst.auto import AutoWorld

            return AutoWorld(spec, share, nth), ""
        return World(spec, share, nth), ""
    except (K.SimError, K.SimAbort):
        raise
    except Exception as e:
        tb = e.__traceback__
        inside = False
        while tb is not None:
            inside = inside or K._interesting(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        if inside:
            return None, f"{type(e).__name__}: {e}"
        raise


def run(spec: dict[str, Any], *, seed: int, strategy: dict[str, Any], replay: dict[str, Any] | None = None,
        trace: list[Any] | None = None) -> Result:
    from dst.execute import Exec

    r = Result()
    instr = strategy.get("kind", "coarse") != "coarse"
    K.WATCHDOG_S = float(os.environ.get("DST_WATCHDOG", "60"))
    k = K.Kernel(seed=seed, strategy=strategy, replay=replay, max_steps=strategy.get("max_steps", 300_000) * len(spec.get("multi", "1")) * (20 if spec.get("pytest") else 1))
    k.trace = trace
    ws: list[Any] = []
    failed: list[str] = []
    share: Any = None
    subs = spec.get("multi") or [spec]

    def setup(nth: int) -> Any:
        w, failure = build_world(subs[nth], share, nth)
        if w is None:
            failed.append(f"setting the container up failed: {failure}")
            return None
        ws.append(w)
        if w.spec.get("pytest"):
            from dst.plug import PytExec

            return PytExec(w)
        if w.spec.get("auto"):
            from dst.auto import AutoExec

            return AutoExec(w)
        return Exec(w)

    def apart(nth: int) -> None:
        ex = setup(nth)
        if ex is not None:
            ex.main()

    try:
        if len(subs) > 1:
            from dst.world import Shared

            share = Shared()
        if spec.get("apart"):
            # every container is set up by the thread that uses it
            for i in range(len(subs)):
                k.spawn(f"main{i or ''}", lambda i=i: contextvars.Context().run(apart, i))
        else:
            exs = [setup(i) for i in range(len(subs))]
            if failed:
                r.violations = [("error", failed[0])]
                r.stats, r.builds, r.sig, r.schedule = {}, [], 0, k.schedule_record()
                r.now, r.steps, r.switches, r.lock_waits = 0.0, 0, 0, 0
                return r
            if spec.get("nested"):
                exs[0].peer = exs[1]
                exs = exs[:1]
            for i, ex in enumerate(exs):
                k.spawn(f"main{i or ''}", lambda ex=ex: contextvars.Context().run(ex.main))
        if instr:
            K.instruction_seam_on()
        try:
            k.run()
        finally:
            if instr:
                K.instruction_seam_off()
    except K.Deadlock as e:
        r.violations.append(("deadlock", f"nothing can proceed any more: {e}"))
    except K.StepLimit as e:
        r.violations.append(("livelock", str(e)))
    r.violations += [("error", f) for f in failed]
    stats: Counter[str] = Counter()
    r.builds = []
    r.sig = k.sig
    for w in ws:
        r.violations += w.violations
        stats.update(w.stats)
        r.builds += [(b.pid, b.ok) for b in w.builds]
        r.sig ^= w.evsig * (31 if w.uid >= 1_000_000 else 1) & 0xFFFFFFFFFFFFFFFF
    r.stats = dict(stats)
    r.schedule = k.schedule_record()
    r.now = k.now
    r.steps = k.steps
    r.switches = k.switches
    r.lock_waits = k.lock_waits
    return r
