"""An asyncio event loop on simulated time, hosted by one sim thread.

Everything asyncio itself does (tasks, futures, locks, timeouts, cancellation) is the real standard
library; only the clock, the selector and executor threads belong to the simulator.
"""

from __future__ import annotations

import asyncio
import contextvars
from typing import Any, Callable

from dst import kernel as K


class _StubSelector:
    """No I/O exists in the simulation: selecting means letting simulated time or threads move on."""

    def __init__(self, loop: "SimLoop") -> None:
        self.loop = loop

    def select(self, timeout: float | None) -> list[Any]:
        k = K.ACTIVE
        me = K.current()
        if k is None or me is None:
            if timeout is None:
                raise K.SimError("event loop outside a run has nothing to do")
            return []
        if timeout is None:
            if me.poked:
                me.poked = False
                return []
            k.block(me, "idle")
            me.poked = False
        elif timeout > 0:
            if me.poked:
                me.poked = False
                return []
            k.sleep(me, timeout)
            me.poked = False
        else:
            k.step(me, 1)
        return []

    def close(self) -> None:
        pass

    def get_map(self) -> dict[Any, Any]:
        return {}


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self, on_tick: Callable[[int], None] | None = None) -> None:
        super().__init__()
        self._selector = _StubSelector(self)
        self._clock_resolution = 1e-9
        self.ticks = 0
        self._on_tick = on_tick
        self._host = K.current()
        self.set_exception_handler(lambda loop, ctx: None)

    def time(self) -> float:
        k = K.ACTIVE
        return k.now if k is not None else 0.0

    def _process_events(self, event_list: list[Any]) -> None:
        pass

    def _write_to_self(self) -> None:
        host = self._host
        if host is not None:
            host.poked = True
            if host.state == "idle" or host.state == "sleeping":
                host.state = "ready"

    def _run_once(self) -> None:
        self.ticks += 1
        if self._on_tick is not None:
            self._on_tick(self.ticks)
        super()._run_once()

    def run_in_executor(self, executor: Any, func: Callable[..., Any], *args: Any) -> Any:
        k = K.ACTIVE
        assert k is not None
        fut = self.create_future()
        ctx = contextvars.Context()

        def done(result: Any, exc: BaseException | None) -> None:
            if fut.cancelled():
                return
            if exc is not None:
                fut.set_exception(exc)
            else:
                fut.set_result(result)

        def body() -> None:
            try:
                r = ctx.run(func, *args)
            except K.SimAbort:
                raise
            except BaseException as e:  # noqa: BLE001
                self.call_soon_threadsafe(done, None, e)
            else:
                self.call_soon_threadsafe(done, r, None)

        k.spawn_live(f"pool{len(k.threads)}", body)
        return fut

    async def shutdown_default_executor(self, timeout: float | None = None) -> None:
        pass


def run_loop(coro: Any, on_tick: Callable[[int], None] | None = None, shutdown: bool = True) -> Any:
    """``asyncio.run`` on a simulated loop (same cleanup of left-over tasks and generators)."""
    loop = SimLoop(on_tick)
    try:
        return loop.run_until_complete(coro)
    finally:
        try:
            rest = asyncio.all_tasks(loop)
            for t in rest:
                t.cancel()
            if rest:
                loop.run_until_complete(asyncio.gather(*rest, return_exceptions=True))
            if shutdown:
                loop.run_until_complete(loop.shutdown_asyncgens())
        finally:
            loop.close()
