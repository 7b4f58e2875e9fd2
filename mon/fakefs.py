"""A stand-in for the operating system's file watching, in virtual time.

`watchfiles.awatch` is replaced for paths below /fake/; other paths go to the real one.  A fake
watched tree keeps its undelivered batches, so nothing is lost while nobody watches (unless it is
lossy: then each watcher sees what happens while it watches, like with the real ones).  Like the real
generator, the fake one calls the filter for each change, drops empty batches, sets the stop event
when it is cancelled, ends when the stop event is set, and is finished after an exception.
"""

from __future__ import annotations

import asyncio
import collections
from collections.abc import AsyncGenerator
from typing import Any

import watchfiles
import watchfiles.main

_REAL = watchfiles.awatch


class FakeOS:
    """What happens to the files below one fake path."""

    registry: dict[str, "FakeOS"] = {}

    def __init__(self, name: str, lossy: bool = False) -> None:
        self.path = f"/fake/{name}"  # may contain ".."
        self.lossy = lossy
        self.queues: list[collections.deque[set[Any]]] = []
        self.unseen = 0
        self.active: list[Any] = []  # the stop events of the running watchers
        self.batches: collections.deque[set[Any]] = collections.deque()
        self.ended = False
        self.failure: Exception | None = None
        self.starts = 0
        self.running = 0
        self.calls: list[tuple[Any, ...]] = []  # the paths
        self.stop_events: list[Any] = []
        self.waiters: list[asyncio.Future[None]] = []
        self.yielded: list[set[Any]] = []
        FakeOS.registry[self.path] = self

    def wake(self) -> None:
        for fut in self.waiters:
            if not fut.done():
                fut.set_result(None)
        self.waiters.clear()

    def push(self, batch: set[Any]) -> None:
        if self.lossy:
            for queue in self.queues:
                queue.append(set(batch))
            self.unseen += not self.queues
        else:
            self.batches.append(batch)
        self.wake()

    def end(self, failure: Exception | None = None) -> None:
        self.ended = True
        self.failure = failure
        self.wake()

    async def _watch(
        self, watch_filter: Any, stop_event: Any, idle: float | None
    ) -> AsyncGenerator[set[Any], None]:
        self.starts += 1
        self.running += 1
        if stop_event is not None:
            self.stop_events.append(stop_event)
        self.active.append(stop_event)
        batches = self.batches
        if self.lossy:
            batches = collections.deque()
            self.queues.append(batches)
        gone = True
        try:
            while True:
                if stop_event is not None and stop_event.is_set():
                    return
                if batches:
                    raw = batches.popleft()
                    batch = {c for c in raw if watch_filter is None or watch_filter(c[0], c[1])}
                    if batch:
                        self.yielded.append(set(batch))
                        yield batch
                elif self.failure is not None:
                    raise self.failure
                elif self.ended:
                    return
                else:
                    fut = asyncio.get_running_loop().create_future()
                    self.waiters.append(fut)
                    try:
                        if idle is None:
                            await fut
                        elif not (await asyncio.wait([fut], timeout=idle))[0]:
                            # The watcher asked for being told that nothing happened.
                            self.waiters.remove(fut)
                            yield set()
                    except asyncio.CancelledError:
                        if fut in self.waiters:
                            self.waiters.remove(fut)
                        if stop_event is not None:
                            stop_event.set()
                        raise
        except GeneratorExit:
            gone = False  # see _Watching
            raise
        finally:
            self.running -= 1
            if gone:
                self.forget(stop_event)
            for i, queue in enumerate(self.queues):
                if queue is batches:
                    del self.queues[i]
                    break

    def watch(self, watch_filter: Any, stop_event: Any, idle: float | None) -> "_Watching":
        return _Watching(self, self._watch(watch_filter, stop_event, idle), stop_event)

    def forget(self, stop_event: Any) -> None:
        """A watcher ended."""
        for i, event in enumerate(self.active):
            if event is stop_event:
                del self.active[i]
                break

    def still_watching(self) -> bool:
        """Whether a watcher is running that was not told to stop."""
        return any(event is None or not event.is_set() for event in self.active)


class _Watching(AsyncGenerator[set[Any], None]):
    """A running watcher.

    Unlike a native generator it is not closed by being garbage-collected: whoever started it has to
    tell it to stop, or to close it.
    """

    def __init__(self, owner: FakeOS, inner: AsyncGenerator[set[Any], None], stop_event: Any) -> None:
        self._owner = owner
        self._inner = inner
        self._stop_event = stop_event

    def __anext__(self) -> Any:
        return self._inner.__anext__()

    def asend(self, value: Any) -> Any:
        return self._inner.asend(value)

    def athrow(self, *args: Any) -> Any:  # type: ignore[override]
        self._owner.forget(self._stop_event)
        return self._inner.athrow(*args)

    def aclose(self) -> Any:
        self._owner.forget(self._stop_event)
        return self._inner.aclose()


def _dispatch(*paths: Any, **kwargs: Any) -> Any:
    for path in paths:
        fake = FakeOS.registry.get(str(path))
        if fake is not None:
            fake.calls.append(paths)
            idle = (kwargs.get("rust_timeout") or 5000) / 1000 if kwargs.get("yield_on_timeout") else None
            return fake.watch(kwargs.get("watch_filter"), kwargs.get("stop_event"), idle)
    if RealWatch.current is not None:
        RealWatch.current.calls.append(paths)
        kwargs["watch_filter"] = RealWatch.current.filter(kwargs.get("watch_filter", watchfiles.DefaultFilter()))
    return _REAL(*paths, **kwargs)


class RealWatch:
    """Observes the real watchers of one case."""

    current: "RealWatch | None" = None

    def __init__(self) -> None:
        self.calls: list[Any] = []
        self.seen: list[tuple[Any, str]] = []  # every change the operating system reported
        self.opened = 0
        self.closed = 0
        self.threads = 0

    def filter(self, inner: Any) -> Any:
        def watch_filter(change: Any, path: str) -> bool:
            self.seen.append((change, path))
            return inner is None or inner(change, path)

        return watch_filter


_RUST = watchfiles.main.RustNotify


class _CountingNotify:
    """The real watcher; counts how many are open and how many threads are in it."""

    def __init__(self, *args: Any, **kwargs: Any) -> None:
        self._inner = _RUST(*args, **kwargs)
        self._owner = RealWatch.current

    def __enter__(self) -> "_CountingNotify":
        self._inner.__enter__()
        if self._owner is not None:
            self._owner.opened += 1
        return self

    def __exit__(self, *args: Any) -> Any:
        if self._owner is not None:
            self._owner.closed += 1
        return self._inner.__exit__(*args)

    def watch(self, *args: Any) -> Any:
        if self._owner is not None:
            self._owner.threads += 1
        try:
            return self._inner.watch(*args)
        finally:
            if self._owner is not None:
                self._owner.threads -= 1


def install() -> None:
    """Replace awatch wherever the library may take it from (before the library is loaded)."""
    watchfiles.main.RustNotify = _CountingNotify
    watchfiles.awatch = _dispatch
    watchfiles.main.awatch = _dispatch
    from frequenz.channels import file_watcher  # pylint: disable=import-outside-toplevel

    if getattr(file_watcher, "awatch", _dispatch) is _REAL:
        file_watcher.awatch = _dispatch  # type: ignore[attr-defined]


install()
