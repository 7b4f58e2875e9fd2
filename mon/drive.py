"""Drives receivers in every documented way and records what they deliver.

Everything a receiver hands out is recorded in the very step in which it is handed out, so the
recorded history is the real order of events.
"""

from __future__ import annotations

import asyncio
from collections.abc import Callable, Coroutine
from typing import Any

from frequenz.channels import Receiver, ReceiverStoppedError, select, selected_from
from frequenz.channels.event import Event

from .core import Env, Violation


class _Leave(Exception):
    """Raised by the body of a select loop to leave it."""


def plain_cancelled() -> bool:
    """Whether somebody asked to cancel the current task."""
    task = asyncio.current_task()
    return task is not None and task.cancelling() > 0


class Rx:
    """One receiver, used by one logical consumer."""

    def __init__(
        self,
        env: Env,
        recv: Receiver[Any],
        name: str,
        on_msg: Callable[["Rx", Any], None],
        on_error: Callable[["Rx", Exception], None] | None = None,
    ) -> None:
        self.env = env
        self.recv = recv
        self.name = name
        self.on_msg = on_msg
        self.on_error = on_error
        self.waiting = 0  # waits that nobody cancelled
        self.loose = 0  # waits running in a sub-task (possibly being cancelled)
        self.maybe = False  # a cancelled wait may have made the receiver ready
        self.maybe_iter = 0
        self.held = False  # ready() finished with True, nothing consumed yet
        self.stopped = False
        self.stop_exc: ReceiverStoppedError[Any] | None = None
        self.after_stop: list[Any] = []
        self.claim_start = 0
        self.n_got = 0
        self.in_select = False
        self.in_body = False  # the body of a select loop is running
        self.bells: list[Event] = []
        self.subs: list[asyncio.Task[Any]] = []
        self.quit = False

    # -- records ------------------------------------------------------------------------------

    def begin(self) -> None:
        n = self.env.ev("wait", self.name)
        if not self.claim_start:
            self.claim_start = n

    def left_behind(self) -> None:
        """A wait was left behind; until it is gone it may still make the receiver ready."""
        self.maybe = True
        self.maybe_iter = self.env.loop.iters

    def got(self, msg: Any) -> None:
        self.held = False
        recent = self.maybe_iter and self.env.loop.iters <= self.maybe_iter + 20
        if not recent:
            self.maybe = False
        self.n_got += 1
        if self.stopped:
            self.after_stop.append(msg)
        self.on_msg(self, msg)
        # A wait that is not finished yet may claim the next message from now on.
        self.claim_start = self.env.n_ev if self.in_select or self.loose or recent else 0

    def stop(self, exc: BaseException | None) -> None:
        self.held = False
        self.env.ev("stopped", self.name)
        self.stopped = True
        if isinstance(exc, ReceiverStoppedError):
            self.stop_exc = exc

    def failed(self, exc: Exception) -> None:
        if self.on_error is None or isinstance(exc, Violation):
            raise exc
        self.held = False
        self.on_error(self, exc)

    # -- single waits -------------------------------------------------------------------------

    async def receive(self) -> None:
        self.begin()
        self.waiting += 1
        try:
            msg = await self.recv.receive()
        except ReceiverStoppedError as exc:
            self.stop(exc)
            return
        except Exception as exc:  # pylint: disable=broad-except
            self.failed(exc)
            return
        finally:
            self.waiting -= 1
        self.got(msg)

    async def anext(self) -> None:
        self.begin()
        self.waiting += 1
        try:
            msg = await anext(self.recv)
        except StopAsyncIteration as exc:
            self.stop(exc.__cause__)
            return
        except Exception as exc:  # pylint: disable=broad-except
            self.failed(exc)
            return
        finally:
            self.waiting -= 1
        self.got(msg)

    async def iterate(self) -> None:
        left = self.env.rng.randint(1, 4)
        self.begin()
        self.waiting += 1
        try:
            async for msg in self.recv:
                self.got(msg)
                left -= 1
                if left <= 0 or self.quit:
                    return
                self.waiting -= 1
                try:
                    if self.env.rng.random() < 0.4:
                        await self.env.pause()
                finally:
                    self.waiting += 1
                self.begin()
        except Exception as exc:  # pylint: disable=broad-except
            self.failed(exc)
            return
        finally:
            self.waiting -= 1
        self.stop(None)

    async def _ready(self) -> bool:
        self.begin()
        self.waiting += 1
        try:
            ok = await self.recv.ready()
        finally:
            self.waiting -= 1
        if ok:
            self.held = True
        return ok

    async def ready_consume(self) -> None:
        ok = await self._ready()
        for _ in range(self.env.rng.choice((0, 0, 1, 2))):
            await self.env.pause()
            ok = await self._ready()
        try:
            msg = self.recv.consume()
        except ReceiverStoppedError as exc:
            self.stop(exc)
            return
        except Exception as exc:  # pylint: disable=broad-except
            self.failed(exc)
            return
        self.got(msg)

    async def timed(self) -> None:
        """receive() with a timeout."""
        timeout = self.env.rng.choice((0, 1, 1, 2, 3, 5)) / 1000
        self.begin()
        self.loose += 1
        try:
            if self.env.rng.random() < 0.5:
                async with asyncio.timeout(timeout):
                    await self._recv_and_log()
            else:
                await asyncio.wait_for(self._recv_and_log(), timeout)
        except TimeoutError:
            self.env.ev("timeout", self.name)
            self.left_behind()
            self.env.cov["timeouts"] += 1
        finally:
            self.loose -= 1

    async def _recv_and_log(self) -> None:
        try:
            msg = await self.recv.receive()
        except ReceiverStoppedError as exc:
            self.stop(exc)
            return
        except Exception as exc:  # pylint: disable=broad-except
            self.failed(exc)
            return
        self.got(msg)

    async def _ready_and_log(self) -> None:
        if await self.recv.ready():
            self.held = True

    def sub(self, what: str = "") -> asyncio.Task[Any]:
        """Start a wait in a sub-task."""
        what = what or self.env.rng.choice(("receive", "receive", "ready"))
        self.begin()
        coro = self._recv_and_log() if what == "receive" else self._ready_and_log()

        async def run(inner: Coroutine[Any, Any, None]) -> None:
            self.loose += 1
            try:
                await inner
            finally:
                self.loose -= 1

        task = self.env.spawn(run(coro), "sub")
        self.subs.append(task)
        self.env.cancellable.append(task)
        return task

    async def cancelled(self) -> None:
        """A wait that is cancelled; half of the time re-used without waiting for the clean-up."""
        task = self.sub()
        try:
            await self.env.pause()
            if task.done():
                return
            if self.env.rng.random() < 0.3:
                # Give the racers a chance to cancel it at the moment of a wake-up.
                await asyncio.sleep(self.env.rng.choice((1, 2, 4)) / 1000)
        finally:
            if not task.done():
                self.env.ev("cancel", self.name)
                self.left_behind()
                self.env.cov["cancelled_waits"] += 1
                task.cancel()
        if self.env.rng.random() < 0.5:
            await asyncio.wait([task])
        elif not task.done():
            self.env.cov["overlaps"] += 1

    async def selecting(self) -> None:
        """A select() loop, left in a random way."""
        rng = self.env.rng
        how = rng.choice(("break", "break", "raise", "aclose", "cancel", "timeout"))
        self.env.cov[f"select_{how}"] += 1
        if how in ("break", "raise", "aclose"):
            try:
                await self._select(rng.randint(1, 4), how)
            except _Leave:
                pass
            return
        if how == "timeout":
            try:
                async with asyncio.timeout(rng.choice((1, 2, 3, 5)) / 1000):
                    await self._select(1000, "break")
            except TimeoutError:
                pass
            return
        task = self.env.spawn(self._select(1000, "break"), "select")
        self.subs.append(task)
        self.env.cancellable.append(task)
        try:
            await self.env.pause()
            await self.env.pause()
        finally:
            if not task.done():
                self.env.ev("cancel-select", self.name)
                task.cancel()
        # The consumer is the same task in real life: it cannot go on before the loop was left.
        await asyncio.wait([task])

    async def _select(self, turns: int, how: str) -> None:
        bell = Event(name="bell")
        self.bells.append(bell)
        rng = self.env.rng
        if rng.random() < 0.3:
            bell.set()
        self.begin()
        self.in_select = True
        self.loose += 1
        args: list[Receiver[Any]] = [self.recv, bell]
        rng.shuffle(args)
        agen = select(*args)
        try:
            self.env.ev("select", self.name)
            async for sel in agen:
                self.in_body = True
                if selected_from(sel, self.recv):
                    if sel.was_stopped:
                        self.stop(sel.exception)
                        return
                    if sel.exception is not None:
                        self.failed(sel.exception)
                    else:
                        self.got(sel.message)
                elif selected_from(sel, bell):
                    self.env.ev("bell", self.name)
                turns -= 1
                if rng.random() < 0.3:
                    await self.env.pause()
                if turns <= 0 or self.quit:
                    if how == "raise":
                        raise _Leave
                    if how == "aclose":
                        await agen.aclose()  # type: ignore[attr-defined]
                    break
                self.in_body = False
        finally:
            self.in_body = False
            self.env.ev("left-select", self.name)
            self.left_behind()
            self.loose -= 1
            self.in_select = False
            self.bells.remove(bell)

    # -- long runs ----------------------------------------------------------------------------

    STYLES = {
        "receive": receive,
        "anext": anext,
        "iterate": iterate,
        "ready": ready_consume,
        "timed": timed,
        "cancelled": cancelled,
        "select": selecting,
    }
    PLAIN = ("receive", "anext", "iterate", "ready")
    ALL = (*PLAIN, "timed", "cancelled", "cancelled", "select")

    async def run(self, styles: tuple[str, ...], ops: int) -> None:
        """Consume with a mixture of styles until stopped."""
        for _ in range(ops):
            if self.stopped or self.quit:
                return
            if self.env.rng.random() < 0.6:
                await self.env.pause()
            style = self.env.rng.choice(styles)
            self.env.cov[f"style_{style}"] += 1
            await self.STYLES[style](self)

    async def drain(self, limit: int = 10_000) -> None:
        """Consume everything with plain receives until stopped (or blocked for ever)."""
        for _ in range(limit):
            if self.stopped:
                return
            await self.receive()


def kill(env: Env, keep: str = "") -> int:
    """Cancel all actors that are still alive, except those with a certain name."""
    n = 0
    for task in env.tasks:
        if not task.done() and task.get_name() != keep:
            task.cancel()
            n += 1
    return n
