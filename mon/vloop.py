"""An asyncio event loop with a virtual clock that knows when the program is at rest.

It is the stock selector event loop: same FIFO ready queue, same timer heap, same tasks.  Only the
selector is replaced, so that waiting for a timer advances a virtual clock instead of sleeping,
and so that "nothing is ready and no timer is pending" (quiescence) is observable.
"""

from __future__ import annotations

import asyncio
import gc
import heapq
import random
import selectors
import sys
from typing import Any


class Deadlock(Exception):
    """The program is at rest although the driver of the case has not finished."""


class Livelock(Exception):
    """The program runs far more loop iterations than the workload can need."""


class Spin(BaseException):
    """One step of the program uses far more CPU time than the workload can need."""


class RTask(asyncio.Task):  # type: ignore[type-arg]
    """A task with a hash drawn from the seed.

    asyncio.wait() returns sets of tasks.  Their iteration order depends on addresses in real life
    (so any order is possible); here it depends on the seed (so it can be replayed).
    """

    def __hash__(self) -> int:
        try:
            return self._rhash  # type: ignore[no-any-return, has-type]
        except AttributeError:
            loop = asyncio._get_running_loop() or VLoop.current
            rng = getattr(loop, "hash_rng", None)
            self._rhash = rng.getrandbits(20) if rng is not None else id(self) >> 4
            return self._rhash

    def __eq__(self, other: object) -> bool:
        return self is other


class _VSelector(selectors.DefaultSelector):  # type: ignore[misc, valid-type]
    loop: "VLoop"

    def select(self, timeout: float | None = None) -> list[Any]:
        if timeout is None:
            self.loop._at_idle()
        elif timeout > 0 and not self.loop._due():
            self.loop._at_wait()
        return []


class VLoop(asyncio.SelectorEventLoop):
    """The loop."""

    current: "VLoop | None" = None

    def __init__(
        self,
        *,
        seed: int = 0,
        start: float = 0.0,
        eager: bool = False,
        late: float = 0.0,
        max_iters: int = 300_000,
    ) -> None:
        self.vtime = start
        self.iters = 0
        self.max_iters = max_iters
        self.late = late
        self.busy_log: list[tuple[float, float]] = []
        self.hash_rng = random.Random(seed ^ 0x5EED)
        self.late_rng = random.Random(seed ^ 0x1A7E)
        self._settlers: list[asyncio.Future[None]] = []
        self._idlers: list[asyncio.Future[None]] = []
        self.contexts: list[dict[str, Any]] = []
        self.closing = False
        self.n_settles = 0
        self.n_rests = 0
        self.last_rest = -1.0
        self.n_idles = 0
        self.early = 0.0
        self.n_early = 0
        self.collect = 0.0
        self.n_collects = 0
        sel = _VSelector()
        super().__init__(sel)
        sel.loop = self
        VLoop.current = self
        # Coarse enough for times of some years: asyncio never runs a timer with when >= time() + resolution.
        self._clock_resolution = 1e-7
        self.set_exception_handler(lambda _l, ctx: self.contexts.append(ctx))
        if eager:
            self.set_task_factory(asyncio.create_eager_task_factory(RTask))
        else:
            self.set_task_factory(lambda loop, coro, **kw: RTask(coro, loop=loop, **kw))

    # -- time ---------------------------------------------------------------------------------

    def time(self) -> float:
        return self.vtime

    def busy(self, seconds: float) -> None:
        """Block the loop for some virtual time (like time.sleep() in a callback)."""
        start = self.vtime
        self.vtime += seconds
        self.busy_log.append((start, self.vtime))

    def call_at(self, when: float, callback: Any, *args: Any, context: Any = None) -> asyncio.TimerHandle:
        """Like a loop with a coarse clock, which runs timers up to its resolution too early."""
        if self.early and when > self.vtime:
            frame: Any = sys._getframe(1)  # pylint: disable=protected-access
            while frame is not None:
                if "/frequenz/channels/" in frame.f_code.co_filename:
                    # Some of the time passes, or the program could not get anywhere.
                    part = self.late_rng.choice((0.0, 0.3, 0.9)) * (when - self.vtime)
                    when -= min(self.early, part)
                    self.n_early += 1
                    break
                frame = frame.f_back
        return super().call_at(when, callback, *args, context=context)

    def us(self) -> int:
        return round(self.vtime * 1_000_000)

    def _due(self) -> bool:
        # Timers that are closer than the clock resolution are going to run right now.
        when: float = self._scheduled[0]._when  # type: ignore[attr-defined]
        return not when >= self.time() + self._clock_resolution

    # -- rest ---------------------------------------------------------------------------------

    def _run_once(self) -> None:
        self.iters += 1
        if self.iters > self.max_iters:
            self.max_iters = self.iters + 20_000  # leave some room for the clean-up
            raise Livelock(f"more than {self.iters - 1} loop iterations")
        if self.collect and self.late_rng.random() < self.collect:
            # What is only reachable through weak references goes now (asyncio's tasks, for example).
            gc.collect()
            self.n_collects += 1
            if self.n_collects >= 150:
                self.collect = 0.0
        super()._run_once()  # type: ignore[misc]

    def forget_cancelled(self) -> None:
        """Drop the cancelled timers, as asyncio does now and then."""
        for handle in self._scheduled:  # type: ignore[has-type]
            if handle._cancelled:
                handle._scheduled = False
        self._scheduled = [h for h in self._scheduled if not h._cancelled]
        heapq.heapify(self._scheduled)
        self._timer_cancelled_count = 0

    def _wake(self, waiters: list[asyncio.Future[None]]) -> None:
        # One at a time: what it does may end the rest for the others.
        while waiters:
            fut = waiters.pop(0)
            if not fut.done():
                fut.set_result(None)
                return

    def _at_wait(self) -> None:
        if self._settlers:
            self.n_settles += 1
            self._wake(self._settlers)
            return
        when = self._scheduled[0]._when  # type: ignore[attr-defined]
        # Everything that could happen at this time has happened.
        self.n_rests += 1
        self.last_rest = self.vtime
        if when > self.vtime:
            self.vtime = when
        if self.late:
            self.vtime += self.late_rng.random() * self.late

    def _at_idle(self) -> None:
        if self._settlers:
            self.n_settles += 1
            self._wake(self._settlers)
        elif self._idlers:
            self.n_idles += 1
            self._wake(self._idlers)
        elif not self.closing:
            raise Deadlock("nothing can run any more, but the case has not finished")
        else:
            self.stop()
            self._ready.append(  # type: ignore[attr-defined]
                asyncio.Handle(lambda: None, (), self)
            )

    async def settle(self) -> None:
        """Wait until nothing can run without time passing."""
        fut = self.create_future()
        self._settlers.append(fut)
        await fut

    async def idle(self) -> None:
        """Wait until nothing can run at all, however much time passes."""
        fut = self.create_future()
        self._idlers.append(fut)
        await fut


class RLoop(asyncio.SelectorEventLoop):
    """The stock loop, in real time, with the same attributes."""

    def __init__(self) -> None:
        super().__init__()
        self.iters = 0
        self.max_iters = 0
        self.t0 = super().time()
        self.n_settles = 0
        self.n_idles = 0
        self.n_collects = 0
        self.contexts: list[dict[str, Any]] = []
        self.closing = False
        self.set_exception_handler(lambda _l, ctx: self.contexts.append(ctx))

    def _run_once(self) -> None:
        self.iters += 1
        super()._run_once()  # type: ignore[misc]

    @property
    def vtime(self) -> float:
        return self.time() - self.t0
