"""Receivers of all kinds and nestings with a controllable source at every leaf and a model."""

from __future__ import annotations

import asyncio
import collections
import functools
import zlib
from collections.abc import Callable
from datetime import timedelta
from typing import Any

from frequenz.channels import (
    Anycast,
    Broadcast,
    ChannelClosedError,
    ChannelError,
    Error,
    Receiver,
    ReceiverError,
    ReceiverStoppedError,
    SelectError,
    SenderError,
    merge,
)
from frequenz.channels.event import Event
from frequenz.channels.file_watcher import Event as FileEvent
from frequenz.channels.file_watcher import EventType, FileWatcher
from frequenz.channels.timer import Timer, TriggerAllMissed
from watchfiles import Change

from .core import Env, Messages, Violation, no_loop
from .fakefs import FakeOS


class LeafError(Exception):
    """An error made by the workload; travels through the library.

    Nothing that the library may tell apart: of any class except a stop.
    """

    kinds: list[type[Exception]] = [
        ReceiverError, ReceiverError, ReceiverError, SenderError, ChannelClosedError, ChannelError, Error, SelectError, KeyError, IndexError, RuntimeError,
        TimeoutError, asyncio.InvalidStateError, asyncio.QueueEmpty, ValueError, AttributeError, OSError, EOFError,
        NotImplementedError, ExceptionGroup,
    ]

    def __new__(cls, leaf: "Leaf", key: Any) -> "LeafError":
        num = zlib.crc32(f"{leaf.name}:{key}".encode())
        cls = _kind(cls, cls.kinds[num // 2 % len(cls.kinds)]) if num % 2 else cls
        if issubclass(cls, ExceptionGroup):
            return super().__new__(cls, "group", [ValueError("x")])  # type: ignore[call-arg]
        return super().__new__(cls)

    def __init__(self, leaf: "Leaf", key: Any) -> None:  # pylint: disable=super-init-not-called
        self.args = (f"{leaf.name}/{key}",)
        self.leaf = leaf
        self.key = key
        self.receiver = self.sender = self.channel = None

    def __bool__(self) -> bool:
        """Some exceptions are falsy, like those which are also containers."""
        return zlib.crc32(str(self.args[0]).encode()) % 3 != 0


@functools.cache
def _kind(cls: type, other: type) -> Any:
    """A class of errors that is also another one."""
    return type(f"{cls.__name__}Like{other.__name__}", (cls, other), {})


class Wrapped:
    """The result of a mapping function."""

    __slots__ = ("inner", "by")

    def __init__(self, inner: Any, by: int) -> None:
        self.inner = inner
        self.by = by


class Tagged:
    """A message of a leaf whose messages do not identify their origin."""

    __slots__ = ("leaf", "inner")

    def __init__(self, leaf: "Leaf", inner: Any) -> None:
        self.leaf = leaf
        self.inner = inner


def label(env: Env, name: str) -> str:
    """A name for a library object; they need not be unique."""
    return env.rng.choice((name, name, "same"))


class Leaf:
    """One source; items are delivered in the order of self.emitted."""

    kind = "?"
    timed = False

    def __init__(self, env: Env, name: str) -> None:
        self.env = env
        self.name = name
        self.emitted: list[Any] = []
        self.n_delivered = 0
        self.stopped = False
        self.prefetched = False  # below a merge()
        self.recv: Receiver[Any]
        self.stop_history: list[str] = []

    def must(self) -> int:
        return len(self.emitted) - self.n_delivered

    def may(self) -> int:
        return self.must()

    def can_emit(self) -> bool:
        return not self.stopped

    def emit(self) -> None:
        raise NotImplementedError

    def stop(self) -> None:
        self.env.ev("stop", self.name)
        self.stopped = True

    def key_of(self, msg: Any) -> Any:
        raise NotImplementedError

    def deliver(self, msg: Any) -> None:
        self.deliver_key(self.key_of(msg))

    def deliver_key(self, key: Any) -> None:
        want = self.emitted[self.n_delivered] if self.n_delivered < len(self.emitted) else None
        self.env.ev("got", self.name, str(key))
        self.env.cov["delivered"] += 1
        self.env.cov[f"delivered_{self.kind}"] += 1
        if want != key or want is None:
            if key in self.emitted[: self.n_delivered]:
                what = "duplicate"
            elif key in self.emitted:
                what = "lost-or-reordered"
            else:
                what = "phantom"
            raise Violation(
                what,
                f"{self.name} ({self.kind}) delivered {key}, expected {want}; emitted so far "
                f"{self.emitted}, delivered {self.n_delivered}",
            )
        self.n_delivered += 1


class _ChannelLeaf(Leaf):
    def __init__(self, env: Env, name: str) -> None:
        super().__init__(env, name)
        self.msgs = Messages(env, 0.0)

    def key_of(self, msg: Any) -> Any:
        return self.msgs.key(msg)

    def knows(self, msg: Any) -> bool:
        return self.msgs.knows(msg)


class BroadcastLeaf(_ChannelLeaf):
    kind = "broadcast"

    def __init__(self, env: Env, name: str) -> None:
        super().__init__(env, name)
        self.chan: Broadcast[Any] = Broadcast(name=label(env, name))
        self.tx = self.chan.new_sender()
        self.recv = self.chan.new_receiver(limit=100_000)

    def emit(self) -> None:
        msg, key = self.msgs.new()
        self.env.ev("emit", self.name, key)

        async def go() -> None:
            if self.stopped:
                return
            self.emitted.append(key)
            await self.tx.send(msg)

        step(self.env, go())

    def stop(self) -> None:
        super().stop()
        step(self.env, self.chan.close())


class AnycastLeaf(_ChannelLeaf):
    kind = "anycast"

    def __init__(self, env: Env, name: str) -> None:
        super().__init__(env, name)
        self.chan: Anycast[Any] = Anycast(name=label(env, name), limit=env.rng.choice((1, 2, 10)))
        self.tx = self.chan.new_sender()
        self.recv = self.chan.new_receiver()
        self.todo: collections.deque[tuple[Any, str]] = collections.deque()
        self.pump: asyncio.Task[Any] | None = None
        self.flight = False

    def emit(self) -> None:
        msg, key = self.msgs.new()
        self.env.ev("emit", self.name, key)
        self.todo.append((msg, key))
        if self.pump is None or self.pump.done():
            self.pump = step(self.env, self._pump())

    async def _pump(self) -> None:
        while self.todo:
            msg, key = self.todo.popleft()
            # The message is on its way from now on; if it is refused, it never was.
            self.emitted.append(key)
            self.flight = True
            try:
                await self.tx.send(msg)
            except SenderError:
                self.emitted.remove(key)
                self.todo.clear()
            finally:
                self.flight = False

    def must(self) -> int:
        # A send that is blocked when the channel is closed is about to be refused.  (Otherwise a
        # blocked send does not matter: the buffer is full, so messages are available.)
        return max(0, super().must() - int(self.stopped and self.flight))

    def stop(self) -> None:
        super().stop()
        step(self.env, self.chan.close())


class EventLeaf(Leaf):
    kind = "event"

    def __init__(self, env: Env, name: str) -> None:
        super().__init__(env, name)
        self.event = Event(name=label(env, name))
        self.recv = self.event
        self.sets = 0
        self.since = 0  # sets since the last delivery

    def emit(self) -> None:
        self.env.ev("set", self.name)
        self.sets += 1
        self.since += 1
        self.event.set()

    def must(self) -> int:
        return int(self.since > 0)

    def may(self) -> int:
        return self.sets - self.n_delivered if self.prefetched else self.must()

    def stop(self) -> None:
        super().stop()
        self.event.stop()

    def key_of(self, msg: Any) -> Any:
        return "None" if msg is None else f"alien:{msg!r}"

    def deliver_key(self, key: Any) -> None:
        may = self.may()
        self.env.ev("got", self.name, key)
        self.env.cov["delivered"] += 1
        self.env.cov["delivered_event"] += 1
        if may < 1 or key != "None":
            raise Violation("phantom", f"{self.name} (event) delivered {key} but was not set")
        self.n_delivered += 1
        self.since = 0


class TimerLeaf(Leaf):
    kind = "timer"
    timed = True

    def __init__(self, env: Env, name: str) -> None:
        super().__init__(env, name)
        self.ms = env.rng.choice((1, 2, 3, 7, 20))
        self.t0 = env.loop.us()
        self.timer = Timer(timedelta(milliseconds=self.ms), TriggerAllMissed())
        self.recv = self.timer
        self.limit: int | None = None

    def _due(self, slack: int) -> int:
        return max(0, self.env.loop.us() - self.t0 + slack) // (1000 * self.ms)

    def must(self) -> int:
        if self.stopped:
            return 0
        return max(0, self._due(-3) - self.n_delivered)

    def may(self) -> int:
        due = self._due(3) if self.limit is None else self.limit
        return max(0, due - self.n_delivered)

    def can_emit(self) -> bool:
        return False

    def emit(self) -> None:
        raise AssertionError

    def stop(self) -> None:
        # At most one tick that triggered before the stop (and those fetched by merges).
        self.limit = min(self._due(3), self.n_delivered + (9 if self.prefetched else 1))
        super().stop()
        self.timer.stop()

    def key_of(self, msg: Any) -> Any:
        if not isinstance(msg, timedelta) or msg < timedelta(0):
            return f"alien:{msg!r}"
        return "tick"

    def deliver_key(self, key: Any) -> None:
        may = self.may()
        self.env.ev("got", self.name, key)
        self.env.cov["delivered"] += 1
        self.env.cov["delivered_timer"] += 1
        if may < 1 or key != "tick":
            raise Violation(
                "phantom", f"{self.name} (timer, {self.ms} ms) delivered {key}, tick number "
                f"{self.n_delivered + 1}, at {self.env.loop.us() - self.t0} us"
            )
        self.n_delivered += 1


class FileLeaf(Leaf):
    kind = "file"

    def __init__(self, env: Env, name: str) -> None:
        super().__init__(env, name)
        self.os = FakeOS(f"{env.seed}-{name}")
        types = [t for t in EventType if env.rng.random() < 0.7] or [EventType.CREATE]
        self.types = types
        self.recv = FileWatcher([self.os.path], types)
        self.open: list[set[Any]] = []
        self.n_batches = 0

    def emit(self) -> None:
        self.n_batches += 1
        kinds = [t.value for t in EventType]
        batch: set[Any] = set()
        for i in range(self.env.rng.choice((1, 1, 2, 3))):
            change: Change = self.env.rng.choice(kinds)
            batch.add((change, f"{self.os.path}/{self.n_batches}-{i}"))
        keep = {c for c in batch if c[0] in [t.value for t in self.types]}
        if keep:
            self.open.append(set(keep))
            self.emitted.extend(sorted(map(str, keep)))
        self.env.ev("batch", self.name, sorted(map(str, batch)))
        self.os.push(batch)

    def stop(self) -> None:
        super().stop()
        self.os.end(FileNotFoundError("gone") if self.env.rng.random() < 0.3 else None)

    def key_of(self, msg: Any) -> Any:
        if not isinstance(msg, FileEvent):
            return None
        return (msg.type.value, str(msg.path))

    def deliver_key(self, key: Any) -> None:
        self.env.ev("got", self.name, str(key))
        self.env.cov["delivered"] += 1
        self.env.cov["delivered_file"] += 1
        while self.open and not self.open[0]:
            self.open.pop(0)
        if not self.open or key not in self.open[0]:
            raise Violation(
                "lost-duplicate-or-phantom",
                f"{self.name} (file watcher) delivered {key}, but the changes to deliver are {self.open}",
            )
        self.open[0].remove(key)
        self.n_delivered += 1


class Script(Receiver[Any]):
    """A user-defined receiver."""

    def __init__(self) -> None:
        self.items: collections.deque[Any] = collections.deque()
        self.stopped = False
        self.wakeup = asyncio.Event()

    async def ready(self) -> bool:
        while not self.items:
            if self.stopped:
                return False
            self.wakeup.clear()
            await self.wakeup.wait()
        return True

    def consume(self) -> Any:
        if not self.items:
            assert self.stopped, "consume() without ready()"
            raise ReceiverStoppedError(self)
        item = self.items.popleft()
        if isinstance(item, LeafError):
            raise item
        return item


class ScriptLeaf(_ChannelLeaf):
    kind = "user"
    script_type: type[Script] = Script

    def __init__(self, env: Env, name: str) -> None:
        super().__init__(env, name)
        self.script = self.script_type()
        self.recv = self.script

    def emit(self) -> None:
        msg, key = self.msgs.new()
        self.env.ev("emit", self.name, key)
        self.emitted.append(key)
        self.script.items.append(LeafError(self, key) if self.env.rng.random() < 0.15 else msg)
        self.script.wakeup.set()

    def stop(self) -> None:
        super().stop()
        self.script.stopped = True
        self.script.wakeup.set()


class Twin(Script):
    """A user-defined receiver that is equal to all others of its kind, and false."""

    def __eq__(self, other: object) -> bool:
        return isinstance(other, Twin)

    def __hash__(self) -> int:
        return 7

    def __bool__(self) -> bool:
        return False

    def __str__(self) -> str:
        return "twin"

    __repr__ = __str__


class Wrap(Receiver[Any]):
    """A user-defined receiver around another one; it says that it is equal to everything."""

    def __init__(self, inner: Receiver[Any]) -> None:
        self.inner = inner

    async def ready(self) -> bool:
        return await self.inner.ready()

    def consume(self) -> Any:
        return self.inner.consume()

    def __eq__(self, other: object) -> bool:
        return True

    def __hash__(self) -> int:
        return 7

    def __str__(self) -> str:
        return "twin"

    __repr__ = __str__


class TwinLeaf(ScriptLeaf):
    kind = "twin"
    script_type = Twin


LEAVES: dict[str, type[Leaf]] = {
    "broadcast": BroadcastLeaf,
    "anycast": AnycastLeaf,
    "event": EventLeaf,
    "timer": TimerLeaf,
    "file": FileLeaf,
    "user": ScriptLeaf,
    "twin": TwinLeaf,
}


def step(env: Env, coro: Any) -> asyncio.Task[Any] | None:
    """Run a coroutine right now; if it suspends, go on with it in a task."""
    task = env.spawn(_first(coro), "step")
    return task


async def _first(coro: Any) -> Any:
    return await coro


class Tree:
    """A receiver made of leaves, map() and merge()."""

    def __init__(
        self,
        env: Env,
        depth: int,
        kinds: tuple[str, ...] = tuple(LEAVES),
        errors: bool = True,
        top: str | None = None,
        prefix: str = "",
        raw: bool = False,
        widths: tuple[int, ...] = (1, 2, 2, 3, 4),
    ) -> None:
        self.env = env
        self.widths = widths
        self.errors = errors
        self.prefix = prefix
        self.leaves: list[Leaf] = []
        self.mergers: list[Any] = []
        self.n_maps = 0
        self.calls: collections.Counter[int] = collections.Counter()
        self.shape = ""
        self.ended_by_merger = False
        self.recv, self.shape = self._build(depth, kinds, top, False, raw)
        env.cov["trees"] += 1
        env.ev("tree", self.shape)

    def _build(
        self, depth: int, kinds: tuple[str, ...], top: str | None, merged: bool, raw: bool = False
    ) -> tuple[Receiver[Any], str]:
        rng = self.env.rng
        what = top or rng.choice(("leaf", "leaf", "leaf", "map", "map", "merge", "merge", "merge", "wrap"))
        if depth <= 0:
            what = "leaf"
        if what == "leaf":
            kind = rng.choice(kinds)
            with no_loop(kind != "timer" and rng.random() < 0.1):
                leaf = LEAVES[kind](self.env, f"{self.prefix}{kind[0]}{len(self.leaves)}")
            leaf.prefetched = merged
            self.leaves.append(leaf)
            recv = leaf.recv
            name = kind
            told = not merged or isinstance(leaf, _ChannelLeaf)  # messages tell their origin
            if not raw and (not told or rng.random() < 0.5):
                recv = recv.map(self._tagger(leaf))
                name = f"tag({kind})"
                if isinstance(leaf, _ChannelLeaf) and rng.random() < 0.5:
                    # Nobody but the mapped receiver refers to it from now on.
                    leaf.recv = recv
            return recv, name
        if what == "map":
            inner, name = self._build(depth - 1, kinds, None, merged)
            recv = inner.map(self._wrapper())
            return recv, f"map({name})"
        if what == "wrap":
            inner, name = self._build(depth - 1, kinds, None, merged)
            self.env.cov["wrappers"] += 1
            return Wrap(inner), f"wrap({name})"
        n = rng.choice(self.widths)
        parts = [self._build(depth - 1, kinds, None, True) for _ in range(n)]
        merger = merge(*[p[0] for p in parts])
        self.mergers.append(merger)
        self.env.cov["mergers"] += 1
        return merger, f"merge({','.join(p[1] for p in parts)})"

    def _tagger(self, leaf: Leaf) -> Callable[[Any], Any]:
        bad = self.errors and leaf.kind in ("broadcast", "anycast", "user", "twin") and self.env.rng.random() < 0.4

        def tag(msg: Any) -> Any:
            key = leaf.key_of(msg)
            if bad and hash(key) % 5 == 0:
                raise LeafError(leaf, key)
            return Tagged(leaf, msg)

        return tag

    def _wrapper(self) -> Callable[[Any], Any]:
        self.n_maps += 1
        num = self.n_maps

        def wrap(msg: Any) -> Any:
            self.calls[num] += 1
            return Wrapped(msg, num)

        return wrap

    # -- model --------------------------------------------------------------------------------

    def must(self) -> int:
        return sum(leaf.must() for leaf in self.leaves)

    def may(self) -> int:
        return sum(leaf.may() for leaf in self.leaves)

    def stopped(self) -> bool:
        return all(leaf.stopped for leaf in self.leaves)

    def timed(self) -> bool:
        return any(leaf.timed for leaf in self.leaves)

    def deliver(self, msg: Any) -> Leaf:
        inner = msg
        while isinstance(inner, Wrapped):
            inner = inner.inner
        if isinstance(inner, Tagged):
            leaf = inner.leaf
            inner = inner.inner
        elif len(self.leaves) == 1:
            leaf = self.leaves[0]
        else:
            found = [x for x in self.leaves if isinstance(x, _ChannelLeaf) and x.knows(inner)]
            if not found:
                raise Violation("phantom", f"unknown message {type(inner).__name__} {inner!r:.80}")
            leaf = found[0]
        if leaf not in self.leaves:
            raise Violation("foreign", f"{leaf.name} is not part of this receiver ({self.shape})")
        leaf.deliver(inner)
        return leaf

    def deliver_error(self, exc: BaseException) -> Leaf:
        if not isinstance(exc, LeafError):
            raise exc
        self.env.cov["errors_delivered"] += 1
        exc.leaf.deliver_key(exc.key)
        return exc.leaf

    # -- control ------------------------------------------------------------------------------

    def emit(self) -> None:
        """Something happens at one of the sources."""
        able = [x for x in self.leaves if x.can_emit()]
        if able:
            self.env.rng.choice(able).emit()

    def stop_all(self) -> None:
        for leaf in self.leaves:
            if not leaf.stopped:
                leaf.stop()

    def lost(self) -> list[str]:
        """Leaves that have not delivered everything."""
        return [
            f"{x.name}({x.kind}): {x.emitted[x.n_delivered:] or 'pending'}"
            for x in self.leaves if x.must()
        ]
