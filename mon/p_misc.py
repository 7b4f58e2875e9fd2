"""C24: nothing accumulates; C25: looking at things is harmless and tells the truth."""

from __future__ import annotations

import asyncio
import collections
import contextlib
import gc
import sys
from collections.abc import Awaitable, Callable
from datetime import timedelta
from typing import Any

from frequenz.channels import (
    Anycast,
    Broadcast,
    ChannelClosedError,
    ChannelError,
    Error,
    Merger,
    Receiver,
    ReceiverError,
    ReceiverStoppedError,
    SelectError,
    SenderError,
    UnhandledSelectedError,
    merge,
    select,
    selected_from,
)
from frequenz.channels.event import Event
from frequenz.channels.file_watcher import EventType, FileWatcher
from frequenz.channels.timer import (
    SkipMissedAndDrift,
    SkipMissedAndResync,
    Timer,
    TriggerAllMissed,
)
from watchfiles import Change

from .core import NAMES, Env, Violation
from .drive import Rx
from .fakefs import FakeOS
from .run import Check
from .tree import LeafError, Tree

Cycle = Callable[[], Awaitable[None]]

# -- C24 --------------------------------------------------------------------------------------


class Load:
    """A message that can be seen by the garbage collector."""

    def __init__(self) -> None:
        self.data = [self.__class__]


class Boom(Exception):
    """Raised by mapping functions and loop bodies."""


class Source:
    """A receiver that stays, and something that makes it ready."""

    def __init__(self, env: Env, kind: str, slow: bool = False) -> None:
        rng = env.rng
        self.kind = kind
        self.os: FakeOS | None = None
        self.recv: Receiver[Any]
        self.emit: Cycle
        if kind == "broadcast":
            chan: Broadcast[Any] = Broadcast(name="b", resend_latest=rng.random() < 0.5)
            self.recv = chan.new_receiver(limit=rng.choice((1, 2, 5)))
            sender = chan.new_sender()
            self.emit = lambda: sender.send(Load())
        elif kind == "anycast":
            any_chan: Anycast[Any] = Anycast(name="a", limit=rng.choice((1, 2, 4)))
            self.recv = any_chan.new_receiver()
            any_sender = any_chan.new_sender()

            async def put() -> None:
                with contextlib.suppress(TimeoutError):
                    await asyncio.wait_for(any_sender.send(Load()), 0.001)

            self.emit = put
        elif kind == "event":
            event = Event()
            self.recv = event

            async def fire() -> None:
                event.set()

            self.emit = fire
        elif kind == "timer":
            # What is left of a wait for a slow one must not stay until its tick.
            interval = timedelta(days=30) if slow else timedelta(seconds=1)
            env.cov["slow_timers"] += slow
            timer = Timer(interval, rng.choice((SkipMissedAndDrift, SkipMissedAndResync))())
            self.recv = timer

            async def tick() -> None:
                if rng.random() < 0.5:
                    timer.reset()
                await asyncio.sleep(1.5)

            self.emit = tick
        else:
            self.os = FakeOS(f"acc-{env.seed}-{len(FakeOS.registry)}")
            self.recv = FileWatcher([self.os.path])
            self.n = 0

            async def touch() -> None:
                assert self.os is not None
                self.os.push({(Change.modified, f"{self.os.path}/{self.n % 3}")})
                self.n += 1

            self.emit = touch

    def clean(self) -> None:
        """Forget what only the stand-in has recorded."""
        if self.os is not None:
            for log in (self.os.calls, self.os.yielded, self.os.stop_events, self.os.batches):
                log.clear()


_KINDS = ("broadcast", "anycast", "event", "timer", "file")


def _receive(env: Env, recv: Receiver[Any], style: str) -> Awaitable[None]:
    async def go() -> None:
        if style == "receive":
            await recv.receive()
        elif style == "ready":
            await recv.ready()
            await recv.ready()
            recv.consume()
        elif style == "iterate":
            async for _ in recv:
                break
        else:
            async for sel in select(recv):
                if selected_from(sel, recv):
                    break

    return go()


def _op_traffic(env: Env, src: Source) -> Cycle:
    style = env.rng.choice(("receive", "ready", "iterate", "select"))
    recv = src.recv
    for _ in range(env.rng.choice((0, 0, 1, 2))):
        recv = recv.map(lambda m: [m])

    async def cycle() -> None:
        await src.emit()
        await asyncio.wait_for(_receive(env, recv, style), 30)

    return cycle


def _op_give_up(env: Env, src: Source) -> Cycle:
    """Waits in vain (or not), and gives up."""
    style = env.rng.choice(("receive", "ready", "iterate", "select"))
    how = env.rng.choice(("timeout", "cancel", "cancel-at-once"))
    emits = env.rng.random() < 0.3

    async def cycle() -> None:
        if how == "timeout":
            with contextlib.suppress(TimeoutError):
                await asyncio.wait_for(_receive(env, src.recv, style), 0.001)
            return
        task = asyncio.ensure_future(_receive(env, src.recv, style))
        if how == "cancel":
            await asyncio.sleep(0)
            await asyncio.sleep(0)
        if emits:
            await src.emit()
        task.cancel()
        await asyncio.wait([task])
        with contextlib.suppress(asyncio.CancelledError):
            task.result()

    return cycle


def _op_left_select(env: Env, srcs: list[Source]) -> Cycle:
    how = env.rng.choice(("break", "aclose", "raise", "timeout", "cancel", "unhandled", "drop"))
    recvs = [s.recv for s in srcs]
    live = env.rng.random() < 0.5

    async def body(turns: int) -> None:
        bell = Event()
        bell.set()
        agen = select(*recvs, bell)
        async for sel in agen:
            if how == "unhandled":
                continue
            for recv in (*recvs, bell):
                if selected_from(sel, recv):
                    _ = sel.exception
            turns -= 1
            if turns > 0:
                continue
            if how == "aclose":
                await agen.aclose()  # type: ignore[attr-defined]
            if how == "raise":
                raise Boom
            break

    async def cycle() -> None:
        if live:
            for src in srcs:
                await src.emit()
        if how in ("timeout", "cancel"):
            task = asyncio.ensure_future(body(1000))
            if how == "timeout":
                with contextlib.suppress(TimeoutError):
                    await asyncio.wait_for(task, 0.002)
                return
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            task.cancel()
            await asyncio.wait([task])
            return
        if how == "drop":
            bell = Event()
            bell.set()
            agen = select(*recvs, bell)
            await anext(agen)
            del agen
            gc.collect(0)
            await asyncio.sleep(0.001)
            return
        with contextlib.suppress(Boom, UnhandledSelectedError):
            await body(env.rng.choice((1, 1, 2)) if live else 1)

    return cycle


def _op_temp_receivers(env: Env) -> Cycle:
    """Receivers come and go."""
    rng = env.rng
    chan: Broadcast[Any] = Broadcast(name="b", resend_latest=rng.random() < 0.5)
    sender = chan.new_sender()
    how = rng.choice(("idle", "full", "waited", "used", "mapped", "select", "merged"))
    n = rng.choice((1, 2, 5))
    any_chan: Anycast[Any] = Anycast(name="a", limit=5)
    use_anycast = rng.random() < 0.3

    def fresh() -> Receiver[Any]:
        return any_chan.new_receiver() if use_anycast else chan.new_receiver(limit=rng.choice((1, 3)))

    async def cycle() -> None:
        recvs = [fresh() for _ in range(n)]
        tx = any_chan.new_sender() if use_anycast else sender
        if how in ("full", "used") and not use_anycast:
            for _ in range(3):
                await tx.send(Load())
        for recv in recvs:
            if how == "waited":
                with contextlib.suppress(TimeoutError):
                    await asyncio.wait_for(recv.ready(), 0.001)
            elif how == "used":
                if use_anycast:
                    await tx.send(Load())
                await recv.receive()
            elif how == "mapped":
                mapped = recv.map(lambda m: m)
                await tx.send(Load())
                await mapped.receive()
        if how == "select":
            await tx.send(Load())
            async for sel in select(*recvs):
                for recv in recvs:
                    if selected_from(sel, recv):
                        _ = sel.message
                break
        elif how == "merged":
            await tx.send(Load())
            await merge(*recvs).receive()
        recvs.clear()
        del recv
        await asyncio.sleep(0)
        gc.collect()
        if use_anycast:
            while True:
                try:
                    await asyncio.wait_for(keeper.receive(), 0.001)
                except TimeoutError:
                    break
        else:
            await sender.send(Load())

    keeper = any_chan.new_receiver()
    return cycle


def _op_temp_merge(env: Env) -> Cycle:
    rng = env.rng
    n = rng.choice((1, 2, 5))
    how = rng.choice(("stop", "drop", "drop-unused", "exhaust", "error", "waited", "stop-waited"))
    chan: Broadcast[Any] = Broadcast(name="b")
    sender = chan.new_sender()

    def bad(_msg: Any) -> Any:
        raise Boom

    async def cycle() -> None:
        chans: list[Broadcast[Any]] = []
        recvs: list[Receiver[Any]]
        if how == "exhaust":
            chans = [Broadcast(name="t") for _ in range(n)]
            recvs = [c.new_receiver() for c in chans]
        else:
            recvs = [chan.new_receiver() for _ in range(n)]
        if how == "error":
            recvs[0] = recvs[0].map(bad)
        merged = merge(*recvs)
        if how == "exhaust":
            for one in chans:
                await one.new_sender().send(Load())
                await one.close()
            async for _ in merged:
                pass
        elif how == "error":
            await sender.send(Load())
            for _ in range(n):
                with contextlib.suppress(Boom):
                    await merged.receive()
            await merged.stop()
        elif how in ("waited", "stop-waited"):
            with contextlib.suppress(TimeoutError):
                await asyncio.wait_for(merged.receive(), 0.001)
            if how == "stop-waited":
                await merged.stop()
        elif how != "drop-unused":
            await sender.send(Load())
            await merged.receive()
            if how == "stop":
                await merged.stop()
        del merged, recvs
        gc.collect()
        await asyncio.sleep(0.001)
        await sender.send(Load())

    return cycle


def _op_temp_objects(env: Env) -> Cycle:
    """Whole channels, timers, events, file watchers come and go."""
    rng = env.rng
    what = rng.choice(("broadcast", "anycast", "timer", "event", "file", "senders", "full", "closed"))
    close = rng.random() < 0.5
    wait = rng.random() < 0.5
    keep: Broadcast[Any] | Anycast[Any] = rng.choice((Broadcast, Anycast))(name="keep")
    full: Anycast[Any] = Anycast(name="full", limit=1)
    done: Broadcast[Any] | Anycast[Any] = rng.choice((Broadcast, Anycast))(name="done")
    done_recv = done.new_receiver()
    fake = FakeOS(f"acc-{env.seed}-{len(FakeOS.registry)}")

    async def give_up(recv: Receiver[Any]) -> None:
        with contextlib.suppress(TimeoutError):
            await asyncio.wait_for(recv.receive(), 0.0005)

    async def cycle() -> None:
        if what in ("broadcast", "anycast"):
            chan: Any = Broadcast(name="t") if what == "broadcast" else Anycast(name="t")
            recvs = [chan.new_receiver() for _ in range(3)]
            await chan.new_sender().send(Load())
            await recvs[0].receive()
            if wait:
                await give_up(recvs[1] if what == "anycast" else recvs[0])
            if close:
                await chan.close()
                with contextlib.suppress(SenderError):
                    await chan.new_sender().send(Load())
        elif what == "timer":
            timer = Timer(timedelta(milliseconds=1), TriggerAllMissed())
            await timer.receive()
            if wait:
                await give_up(timer)
            if close:
                timer.stop()
        elif what == "event":
            event = Event()
            event.set()
            await event.receive()
            if wait:
                await give_up(event)
            if close:
                event.stop()
        elif what == "file":
            watcher = FileWatcher([fake.path], [EventType.MODIFY])
            fake.push({(Change.modified, fake.path)})
            await watcher.receive()
            if wait:
                await give_up(watcher)
            del watcher
            gc.collect()
            await asyncio.sleep(0.001)
            for log in (fake.calls, fake.yielded, fake.stop_events, fake.active):
                log.clear()
        elif what == "senders":
            sender = keep.new_sender()
            if isinstance(keep, Broadcast):
                await sender.send(Load())
        elif what == "full":
            for _ in range(2):
                with contextlib.suppress(TimeoutError):
                    await asyncio.wait_for(full.new_sender().send(Load()), 0.001)
        else:
            if not done.is_closed:
                await done.close()
            with contextlib.suppress(SenderError):
                await done.new_sender().send(Load())
            for _ in range(3):
                with contextlib.suppress(ReceiverStoppedError):
                    await done_recv.receive()
            async for sel in select(done_recv):
                selected_from(sel, done_recv)

    return cycle


class _Odd(Receiver[Any]):
    """A user-defined receiver with failures of all sorts."""

    def __init__(self, how: str) -> None:
        self.how = how

    async def ready(self) -> bool:
        if self.how == "ready-fails":
            raise Boom
        if self.how == "waits":
            await asyncio.get_running_loop().create_future()
        if self.how == "cleanup-fails":
            try:
                await asyncio.get_running_loop().create_future()
            finally:
                raise Boom
        return self.how != "stopped"

    def consume(self) -> Any:
        if self.how == "stopped":
            raise ReceiverStoppedError(self)
        if self.how == "consume-fails":
            raise Boom
        return Load()


def _op_failures(env: Env) -> Cycle:
    """Everything that may go wrong goes wrong, again and again."""
    rng = env.rng
    what = rng.choice((
        "select-ready", "select-consume", "select-cleanup", "unhandled", "event", "timer", "file", "merge",
        "arguments", "blocked-close", "nothing", "stops",
    ))
    n = rng.choice((0, 1, 3))
    fake = FakeOS(f"acc-{env.seed}-{len(FakeOS.registry)}")

    async def selecting(*hows: str) -> None:
        bell = Event()
        bell.set()
        recvs = [_Odd(how) for how in hows] + [_Odd("waits") for _ in range(n)]
        turns = 0
        try:
            async for sel in select(*recvs, bell):
                turns += 1
                if what == "unhandled":
                    continue
                for recv in (*recvs, bell):
                    if selected_from(sel, recv):
                        _ = sel.exception, sel.was_stopped, str(sel), repr(sel)
                        with contextlib.suppress(Boom, ReceiverStoppedError):
                            _ = sel.message
                if turns >= 3:
                    break
        except (Boom, SelectError, BaseExceptionGroup) as exc:
            _ = str(exc), repr(exc)
        await asyncio.sleep(0.001)

    async def cycle() -> None:
        if what == "select-ready":
            await selecting("ready-fails")
        elif what == "select-consume":
            await selecting("consume-fails")
        elif what == "select-cleanup":
            await selecting("cleanup-fails", "message")
            await selecting("cleanup-fails", "ready-fails")
        elif what == "unhandled":
            await selecting("message")
        elif what == "stops":
            await selecting("stopped", "stopped")
        elif what == "event":
            event = Event()
            event.set()
            await event.ready()
            event.stop()
            for _ in range(3):
                await event.ready()
                with contextlib.suppress(ReceiverStoppedError):
                    await event.receive()
            async for _ in event:
                pass
        elif what == "timer":
            timer = Timer(timedelta(milliseconds=5), TriggerAllMissed(), auto_start=False)
            task = asyncio.ensure_future(timer.ready())
            await asyncio.sleep(0.001)
            timer.reset()
            await asyncio.sleep(0.001)
            timer.stop()
            await task
            for _ in range(2):
                await timer.ready()
                with contextlib.suppress(ReceiverStoppedError):
                    await timer.receive()
            timer.reset(start_delay=timedelta(milliseconds=1))
            await timer.receive()
        elif what == "file":
            fake.end(OSError("fails"))
            watcher = FileWatcher([fake.path])
            for _ in range(3):
                await watcher.ready()
                with contextlib.suppress(ReceiverStoppedError):
                    await watcher.receive()
            async for _ in watcher:
                pass
            del watcher
            gc.collect()
            for log in (fake.calls, fake.yielded, fake.stop_events, fake.active):
                log.clear()
        elif what == "merge":
            odd = _Odd("consume-fails")
            merged = merge(odd, *[_Odd("waits") for _ in range(n)])
            for _ in range(3):
                with contextlib.suppress(Boom):
                    await merged.receive()
            await merged.stop()
            for _ in range(3):
                with contextlib.suppress(ReceiverStoppedError, Boom):
                    await merged.receive()
        elif what == "arguments":
            with contextlib.suppress(ValueError):
                merge()
            for make in (
                lambda: Timer(timedelta(0), TriggerAllMissed()),
                lambda: Timer(timedelta(1), TriggerAllMissed(), start_delay=timedelta(-1)),
                lambda: Timer(timedelta(1), TriggerAllMissed(), start_delay=timedelta(1), auto_start=False),
                lambda: Timer(timedelta(1), TriggerAllMissed()).reset(start_delay=timedelta(-1)),
                lambda: SkipMissedAndDrift(delay_tolerance=timedelta(-1)),
            ):
                with contextlib.suppress(ValueError):
                    make()
        elif what == "blocked-close":
            chan: Anycast[Any] = Anycast(name="full", limit=1)
            await chan.new_sender().send(Load())
            tasks = [asyncio.ensure_future(chan.new_sender().send(Load())) for _ in range(2)]
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            await chan.close()
            await asyncio.wait(tasks)
            for task in tasks:
                with contextlib.suppress(SenderError):
                    task.result()
        else:
            async for _ in select():
                pass

    return cycle


def _op_looks(env: Env) -> Cycle:
    """Looks at objects that stay."""
    rng = env.rng
    objects: list[Any] = []
    for cls in (Broadcast, Anycast):
        chan = cls(name=rng.choice(NAMES))
        recv = chan.new_receiver()
        objects += [chan, chan.new_sender(), recv, recv.map(str), SenderError("x", objects[0] if objects else recv)]
        objects += [ChannelClosedError(chan), ReceiverStoppedError(recv)]
    event = Event(name=rng.choice((None, "event")))
    timer = Timer(timedelta(1), SkipMissedAndDrift())
    fake = FakeOS(f"acc-{env.seed}-{len(FakeOS.registry)}")
    merged = merge(*[Event() for _ in range(rng.choice((1, 3, 5)))])
    objects += [event, timer, timer.missed_tick_policy, TriggerAllMissed(), FileWatcher([fake.path] * 5), merged]
    env.keep.append(objects)
    mode = rng.choice((0, 1, 1, 2))

    async def cycle() -> None:
        for obj in objects:
            if mode != 1:
                _ = str(obj), repr(obj)
            if mode == 0:
                continue
            if isinstance(obj, (Broadcast, Anycast)):
                _ = obj.name, obj.is_closed, str(obj)
                if isinstance(obj, Anycast):
                    _ = obj.limit
                else:
                    obj.resend_latest = not obj.resend_latest
            elif isinstance(obj, Event):
                _ = obj.name, obj.is_set, obj.is_stopped
            elif isinstance(obj, Timer):
                _ = obj.interval, obj.missed_tick_policy, obj.loop, obj.is_running
            elif isinstance(obj, SkipMissedAndDrift):
                _ = obj.delay_tolerance
            elif isinstance(obj, FileWatcher):
                _ = obj.event_types
            with contextlib.suppress(TypeError):
                _ = len(obj)
        async for sel in select(_Odd("message"), bell := _bell()):
            if selected_from(sel, bell):
                _ = sel.message, sel.exception, sel.was_stopped, str(sel), repr(sel)
            break

    return cycle


def _bell() -> Event:
    bell = Event()
    bell.set()
    return bell


_CONTAINERS = (list, dict, set, frozenset, tuple, collections.deque, str, bytes, bytearray)


def _held(objects: list[Any]) -> tuple[int, str]:
    """How many items the containers hold that belong to the library's objects and modules.

    Containers of numbers or texts are not all known to the garbage collector, and one which
    grows is still one object.
    """
    own: dict[type, bool] = {}
    todo: list[Any] = [
        vars(mod) for name, mod in list(sys.modules.items())
        if name.startswith("frequenz.channels") and mod is not None
    ]
    for obj in objects:
        kind = type(obj)
        mine = own.get(kind)
        if mine is None:
            mine = own[kind] = str(getattr(kind, "__module__", "")).startswith("frequenz.channels")
        if mine or (isinstance(obj, type) and str(obj.__module__).startswith("frequenz.channels")):
            todo.append(obj)
    done: set[int] = set()
    sizes: list[tuple[int, str]] = []
    total = 0
    while todo:
        obj = todo.pop()
        if id(obj) in done:
            continue
        done.add(id(obj))
        is_box = isinstance(obj, _CONTAINERS)
        if is_box:
            total += len(obj)
            sizes.append((len(obj), type(obj).__name__))
        if is_box or own.get(type(obj)) or isinstance(obj, type):
            for ref in gc.get_referents(obj):
                if isinstance(ref, _CONTAINERS):
                    todo.append(ref)
    return total, f"{total} items, the largest {sorted(sizes, reverse=True)[:4]}"


async def c24_cycles(env: Env) -> None:
    rng = env.rng
    srcs: list[Source] = []
    cycles: list[Cycle] = []
    names: list[str] = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        op = rng.randrange(8)
        if op <= 2:
            slow = op > 0 and rng.random() < 0.4
            some = [Source(env, rng.choice(_KINDS), slow) for _ in range(rng.choice((1, 2, 3)) if op == 2 else 1)]
            srcs += some
            if op == 0:
                cycles.append(_op_traffic(env, some[0]))
            elif op == 1:
                cycles.append(_op_give_up(env, some[0]))
            else:
                cycles.append(_op_left_select(env, some))
            names.append(f"op{op}({','.join(s.kind for s in some)})")
        else:
            cycles.append(
                (_op_temp_receivers, _op_temp_merge, _op_temp_objects, _op_failures, _op_looks)[op - 3](env)
            )
            names.append(f"op{op}")
        env.cov[f"op{op}"] += 1
    shape = []
    for cycle in cycles:
        free = zip(cycle.__code__.co_freevars, cycle.__closure__ or ())  # type: ignore[attr-defined]
        shape.append(sorted(f"{k}={v.cell_contents!r}" for k, v in free
                            if isinstance(v.cell_contents, (str, int, bool))))
    env.ev("program", *zip(names, map(tuple, shape)))

    kinds: list[collections.Counter[str]] = []
    held_texts: list[str] = []

    async def measure(warm: bool = False) -> tuple[int, int, int]:
        for src in srcs:
            src.clean()
        for _ in range(1 if warm else 3):
            await asyncio.sleep(500)
            gc.collect()
        await env.settle()
        env.loop.contexts.clear()
        del env.loop.busy_log[:]
        env.loop.forget_cancelled()
        tasks = len(asyncio.all_tasks())
        objects = gc.get_objects()
        kinds.append(collections.Counter(type(obj).__qualname__ for obj in objects))
        held, sizes = _held(objects)
        del objects
        held_texts.append(sizes)
        return kinds[-1].total(), tasks, held

    async def turns(n: int) -> None:
        for _ in range(n):
            for cycle in cycles:
                await cycle()
            env.cov["cycles"] += 1

    rounds = 15
    state = rng.getstate()
    await turns(rounds)
    await measure(True)
    seen: list[tuple[int, int, int]] = []

    async def one_round() -> None:
        rng.setstate(state)  # each round does the same
        await turns(rounds)
        seen.append(await measure())

    def growth(i: int) -> int:
        return min(b[i] - a[i] for a, b in zip(seen, seen[1:]))

    for _ in range(3):
        await one_round()
    env.cov["measured"] += 1
    env.cov["objects"] += seen[0][0]
    for i, what in enumerate(("objects", "tasks", "items")):
        while growth(i) >= rounds - 1 and len(seen) < 10:
            # Maybe a few messages are waiting at one time and not at another; that does not go on.
            env.cov["confirmed"] += 1
            await one_round()
        env.require(
            growth(i) < rounds - 1, f"growing-{what}",
            lambda: f"{names}: the number of {what} grows: {[s[i] for s in seen]} after "  # pylint: disable=cell-var-from-loop
            f"{rounds} more cycles each; "  # pylint: disable=cell-var-from-loop
            f"{(kinds[-1] - kinds[-2], asyncio.all_tasks(), held_texts[1:])[i]}",
        )
    env.nontrivial = True


# -- C25 --------------------------------------------------------------------------------------


class Peeker:
    """Looks at everything, at any moment."""

    def __init__(self, env: Env) -> None:
        self.env = env
        self.objects: list[Any] = []
        self.facts: list[tuple[str, Callable[[], Any], Callable[[], Any]]] = []

    def add(self, *objs: Any) -> None:
        self.objects.extend(objs)

    def fact(self, name: str, see: Callable[[], Any], expect: Callable[[], Any]) -> None:
        self.facts.append((name, see, expect))

    def text(self, obj: Any) -> None:
        """str() and repr() work."""
        for func in (str, repr, "{}".format):
            try:
                got = func(obj)
            except Exception as exc:  # pylint: disable=broad-except
                raise Violation("text", f"{func} of a {type(obj).__name__} raised {exc!r}") from exc
            self.env.cov["texts"] += 1
            self.env.require(isinstance(got, str), "text", f"{got!r}")

    def shows(self, obj: Any, name: str | None) -> None:
        """The name is shown in the text of an object."""
        if name is not None:
            self.fact(
                f"the name {name!r:.40} in str() of {type(obj).__name__}",
                lambda: name in (text := str(obj)) or repr(name)[1:-1] in text, lambda: True,
            )

    def look(self, p: float = 0.3) -> None:
        rng = self.env.rng
        for obj in self.objects:
            if rng.random() < p:
                self.text(obj)
        for name, see, expect in self.facts:
            if rng.random() < p:
                got, want = see(), expect()
                self.env.cov["facts"] += 1
                self.env.require(
                    got is want or (type(got) is type(want) and got == want), "fact",
                    f"{name} is {got!r}, expected {want!r}",
                )


def _watch_tree(env: Env, peek: Peeker, tree: Tree) -> None:
    peek.add(tree.recv, *tree.mergers)
    for leaf in tree.leaves:
        peek.add(leaf.recv)
        chan = getattr(leaf, "chan", None)
        if chan is not None:
            peek.add(chan, leaf.tx)  # type: ignore[attr-defined]
            name = chan.name
            peek.fact("name", lambda chan=chan: chan.name, lambda name=name: name)
            if isinstance(chan, Anycast):
                limit = chan.limit
                peek.fact("limit", lambda chan=chan: chan.limit, lambda limit=limit: limit)
        if leaf.kind == "event":
            event = leaf.event  # type: ignore[attr-defined]
            name = event.name
            peek.fact("event name", lambda event=event: event.name, lambda name=name: name)
            peek.fact("is_stopped", lambda event=event: event.is_stopped, lambda leaf=leaf: leaf.stopped)
        elif leaf.kind == "timer":
            timer = leaf.timer  # type: ignore[attr-defined]
            policy = timer.missed_tick_policy
            ms = leaf.ms  # type: ignore[attr-defined]
            peek.fact("interval", lambda timer=timer: timer.interval, lambda ms=ms: timedelta(milliseconds=ms))
            peek.fact("policy", lambda timer=timer: timer.missed_tick_policy, lambda policy=policy: policy)
            peek.fact("loop", lambda timer=timer: timer.loop, lambda: env.loop)
            peek.fact("is_running", lambda timer=timer: timer.is_running, lambda leaf=leaf: not leaf.stopped)
            peek.add(policy)
        elif leaf.kind == "file":
            types = frozenset(leaf.types)  # type: ignore[attr-defined]
            peek.fact("event_types", lambda leaf=leaf: leaf.recv.event_types, lambda types=types: types)


async def c25_trees(env: Env) -> None:
    """Deliveries are as the model says although somebody looks all the time."""
    rng = env.rng
    trees = [Tree(env, rng.choice((0, 0, 1, 2)), prefix=f"{i}.") for i in range(rng.choice((1, 1, 2, 4)))]
    peek = Peeker(env)
    for tree in trees:
        _watch_tree(env, peek, tree)

    def failed(tree: Tree) -> Callable[[Rx, Exception], None]:
        def on_error(_rx: Rx, exc: Exception) -> None:
            peek.text(exc)
            tree.deliver_error(exc)

        return on_error

    def got(tree: Tree) -> Callable[[Rx, Any], None]:
        return lambda _rx, msg: tree.deliver(msg) and None

    rxs = [Rx(env, tree.recv, f"r{i}", got(tree), failed(tree)) for i, tree in enumerate(trees)]
    runners = [env.spawn(rx.run(rng.choice((Rx.PLAIN, Rx.PLAIN, Rx.ALL)), 100_000), "consumer") for rx in rxs]
    for _ in range(rng.randint(3, 25)):
        tree = rng.choice(trees)
        r = rng.random()
        if r < 0.5:
            for _ in range(rng.choice((1, 1, 3))):
                tree.emit()
                peek.look(0.1)
        elif r < 0.57:
            alive = [x for x in tree.leaves if not x.stopped]
            if alive:
                rng.choice(alive).stop()
        elif r < 0.7:
            await env.settle()
            for rx, one in zip(rxs, trees):
                if not rx.stopped and (rx.waiting or (rx.loose and not rx.held and not rx.in_body)):
                    env.require(one.must() == 0, "forgotten", lambda: f"{one.shape}: {one.lost()}")  # pylint: disable=cell-var-from-loop
                    env.cov["rest_waiting"] += 1
        else:
            await env.pause()
        peek.look()
    for tree in trees:
        tree.stop_all()
    peek.look()
    await asyncio.sleep(1)
    for rx in rxs:
        for bell in rx.bells:
            bell.set()
    await asyncio.wait(runners, timeout=60)
    env.check()
    for rx, tree in zip(rxs, trees):
        env.require(rx.stopped and tree.must() == 0, "lost", lambda: f"{tree.shape}: {tree.lost()}")  # pylint: disable=cell-var-from-loop
        if rx.stop_exc is not None:
            peek.text(rx.stop_exc)
            peek.text(rx.stop_exc.__cause__)
    peek.look(1.0)
    env.nontrivial = env.cov["delivered"] >= 1


class _BadText:
    """A message whose text cannot be made; nobody should need it to pass it on."""

    def __str__(self) -> str:
        raise Boom("str() of a message")

    __repr__ = __str__


async def c25_facts(env: Env) -> None:
    """Attributes of channels and errors, followed by a little use."""
    rng = env.rng
    peek = Peeker(env)
    name = rng.choice(NAMES)
    bad = rng.random() < 0.4
    make: Callable[[], Any] = _BadText if bad else lambda: rng.choice((None, 0, "x", [1], Load()))
    is_any = rng.random() < 0.5
    limit = rng.choice((None, 1, 2, 7, 1000))
    chan: Any
    if is_any:
        chan = Anycast(name=name) if limit is None else Anycast(name=name, limit=limit)
    else:
        chan = Broadcast(name=name, resend_latest=rng.random() < 0.5)
    size = limit or (10 if is_any else 50)
    closed = False
    peek.fact("name", lambda: chan.name, lambda: name)
    peek.fact("is_closed", lambda: chan.is_closed, lambda: closed)
    if is_any:
        peek.fact("limit", lambda: chan.limit, lambda: size)
        recv = chan.new_receiver()
    elif limit is None:
        recv = chan.new_receiver()
    else:
        recv = chan.new_receiver(limit=limit)
    sender = chan.new_sender()
    peek.shows(chan, name)
    if not bad:
        peek.add(chan, sender, recv)
    buffered: list[Any] = []
    for _ in range(rng.randint(0, 12) + rng.choice((0, size if size < 100 else 0))):
        r = rng.random()
        peek.look()
        if r < 0.6:
            msg = make()
            if is_any and len(buffered) >= size:
                # It has to wait for a receiver.
                task = env.spawn(sender.send(msg), "blocked")
                await env.yields(rng.choice((0, 1, 2)))
                peek.look()
                env.require(not task.done(), "not-blocked", "send() on a full channel returned")
                env.cov["blocked_sends"] += 1
                if rng.random() < 0.3:
                    task.cancel()
                    await asyncio.wait([task])
                    continue
                got = await asyncio.wait_for(recv.receive(), 1)
                env.require(got is buffered.pop(0), "changed", "the received message is another object")
                await asyncio.wait_for(task, 1)
                buffered.append(msg)
                continue
            buffered.append(msg)
            await asyncio.wait_for(sender.send(msg), 1)
            if not is_any and len(buffered) > size:
                buffered.pop(0)
        elif buffered:
            got = await asyncio.wait_for(recv.receive(), 1)
            want = buffered.pop(0)
            env.require(got is want, "changed", "the received message is another object")
            env.cov["received"] += 1
        if not is_any:
            env.require(len(recv) == len(buffered), "len", f"len() is {len(recv)}, buffered {len(buffered)}")
    await chan.close()
    closed = True
    peek.look(1.0)
    try:
        await sender.send(make())
    except SenderError as exc:
        _check_error(env, peek, exc, bad)
        env.require(exc.sender is sender, "sender", "SenderError.sender is another one")
        _check_closed(env, exc.__cause__, chan)
    else:
        raise Violation("sent", "send() on a closed channel returned")
    while True:
        try:
            got = await asyncio.wait_for(recv.receive(), 1)
        except ReceiverStoppedError as exc:
            env.require(not buffered, "lost", f"{len(buffered)} messages were not delivered")
            _check_error(env, peek, exc, bad)
            env.require(isinstance(exc, ReceiverError), "kind", "ReceiverStoppedError is not a ReceiverError")
            env.require(exc.receiver is recv, "receiver", "ReceiverStoppedError.receiver is another one")
            _check_closed(env, exc.__cause__, chan)
            break
        env.require(bool(buffered) and got is buffered.pop(0), "changed", "wrong message")
    # Selected objects.
    event = Event(name=name)
    env.require(event.name == name, "name", f"{event.name!r} is not {name!r}")
    env.require(bool(Event().name), "name", "no default name")
    raised = Boom("x") if rng.random() < 0.5 else None
    msg = make()

    def func(_: None) -> Any:
        if raised is not None:
            raise raised
        return msg

    recv = event.map(func)
    event.set()
    forget = rng.random() < 0.3
    sel: Any = None
    try:
        async for sel in select(recv):
            if not forget:
                selected_from(sel, recv)
            for _ in range(rng.choice((1, 2))):
                if not bad:
                    peek.text(sel)
                env.require(sel.exception is raised, "selected", f"exception is {sel.exception!r}")
                env.require(sel.was_stopped is False, "selected", "was_stopped for a message")
                try:
                    env.require(sel.message is msg and raised is None, "selected", "wrong message")
                except Boom as exc:
                    env.require(exc is raised, "selected", "message raised something else")
            env.cov["selected"] += 1
            if not forget:
                break
    except UnhandledSelectedError as exc:
        env.require(forget and exc.selected is sel, "selected", "UnhandledSelectedError.selected is another one")
        env.require(isinstance(exc, SelectError), "kind", "UnhandledSelectedError is not a SelectError")
        _check_error(env, peek, exc, bad)
        env.cov["unhandled"] += 1
    else:
        env.require(not forget, "selected", "no UnhandledSelectedError")
    env.ev("facts", is_any, limit, len(name), bad, forget, raised is None)
    env.nontrivial = True


_HUGE = (10**17 + 1, 9 * 10**17 + 7, (timedelta.max - timedelta(0)) // timedelta(microseconds=1))
"""More microseconds than a float can tell apart ("never")."""


async def c25_zoo(env: Env) -> None:
    """Objects of all classes in all states, without any traffic in the background."""
    rng = env.rng
    peek = Peeker(env)
    name = rng.choice((None, *NAMES))
    event = Event(name=name)
    if name is not None:
        peek.fact("event name", lambda: event.name, lambda: name)
    peek.shows(event, name)
    state = {"set": False, "stopped": False}
    peek.fact("is_set", lambda: event.is_set, lambda: state["set"])
    peek.fact("is_stopped", lambda: event.is_stopped, lambda: state["stopped"])
    tol = timedelta(microseconds=rng.choice((0, 1, 17, 10**6, 10**13 + 1, *_HUGE)))
    drift = SkipMissedAndDrift(delay_tolerance=tol)
    peek.fact("delay_tolerance", lambda: drift.delay_tolerance, lambda: tol)
    interval = timedelta(microseconds=rng.choice((1, 1000, 1_500_000, 10**12 + 1, *_HUGE)))
    policy = rng.choice((drift, TriggerAllMissed(), SkipMissedAndResync()))
    auto = rng.random() < 0.5
    timer = Timer(interval, policy, auto_start=auto, loop=rng.choice((None, env.loop)))  # type: ignore[arg-type]
    running = [auto]
    peek.fact("interval", lambda: timer.interval, lambda: interval)
    peek.fact("policy", lambda: timer.missed_tick_policy, lambda: policy)
    peek.fact("loop", lambda: timer.loop, lambda: env.loop)
    peek.fact("is_running", lambda: timer.is_running, lambda: running[0])
    fake = FakeOS(f"zoo-{env.seed}")
    more = [f"{fake.path}/{rng.choice(NAMES)[:40]}".replace("\0", "") for _ in range(rng.choice((0, 1, 2, 3, 5)))]
    types = [t for t in EventType if rng.random() < 0.6]
    watcher = FileWatcher([fake.path, *more], types)
    peek.fact("event_types", lambda: watcher.event_types, lambda: frozenset(types))
    chans: list[Any] = [
        rng.choice((Anycast, Broadcast))(name=rng.choice(NAMES)) for _ in range(rng.choice((1, 2, 3, 4, 6)))
    ]
    recvs = [c.new_receiver() for c in chans]
    for chan in chans:
        peek.shows(chan, chan.name)
        if isinstance(chan, Broadcast):
            label = rng.choice((None, *NAMES))
            recvs.append(chan.new_receiver(name=label))
            peek.shows(recvs[-1], label)
    parts = (*recvs, Event(name=name).map(lambda _: "event"), Timer(interval, policy).map(lambda _: "tick"))
    if rng.random() < 0.7:
        merged = merge(*parts)
    else:
        label = rng.choice((None, *NAMES))
        merged = Merger(*parts, name=label)
        peek.shows(merged, label)
    mapped = merged.map(lambda m: m).map(str)
    peek.add(event, drift, policy, timer, watcher, *chans, *recvs, *[c.new_sender() for c in chans], merged, mapped)
    peek.look(0.5)
    for step in rng.sample(("set", "send", "batch", "tick", "reset", "stop", "close"), rng.randint(0, 7)):
        if step == "set" and not state["stopped"]:
            event.set()
            state["set"] = True
        elif step == "send" and not chans[0].is_closed:
            await chans[0].new_sender().send(Load())
        elif step == "batch":
            fake.push({(t.value, fake.path) for t in EventType})
        elif step == "tick":
            await asyncio.sleep(min(2.0, interval.total_seconds()))
        elif step == "reset":
            timer.reset()
            running[0] = True
        elif step == "stop":
            event.stop()
            state["stopped"] = True
            timer.stop()
            running[0] = False
        elif step == "close":
            for chan in chans:
                await chan.close()
        env.cov["zoo_steps"] += 1
        peek.look(0.5)
    for chan, recv in zip(chans, recvs):
        _check_texts(env, chan, recv)
    env.ev("zoo", name, tol, interval, auto, len(more), len(types), len(chans))
    await merged.stop()
    peek.add(merged)
    peek.look(1.0)
    if state["set"]:
        await asyncio.wait_for(event.receive(), 1)
        state["set"] = False
        peek.look(1.0)
    env.nontrivial = True


def _check_error(env: Env, peek: Peeker, exc: Error, bad: bool) -> None:
    env.cov["errors_checked"] += 1
    env.require(isinstance(exc, Error), "kind", f"{type(exc)} is not an Error")
    if not bad:
        peek.text(exc)


def _check_texts(env: Env, chan: Any, recv: Any) -> None:
    """The text of an error is its message, and names what it is about."""
    text = env.rng.choice(NAMES)
    sender = chan.new_sender()
    made: list[tuple[Error, type[Error], str | None, Any]] = [
        (Error(text), Error, None, None),
        (ChannelError(text, chan), Error, "channel", chan),
        (SenderError(text, sender), Error, "sender", sender),
        (ReceiverError(text, recv), Error, "receiver", recv),
        (SelectError(text), Error, None, None),
    ]
    for exc, kind, attr, what in made:
        env.cov["error_texts"] += 1
        env.require(isinstance(exc, kind) and isinstance(exc, RuntimeError), "kind", f"{type(exc)} is of another kind")
        env.require(str(exc) == text, "error-text", f"str() of {type(exc)} is {str(exc)!r}, not {text!r}")
        if attr is not None:
            env.require(getattr(exc, attr) is what, attr, f"{attr} of {type(exc)} is another one")
    stopped = ReceiverStoppedError(recv)
    env.require(str(recv) in str(stopped) and stopped.receiver is recv, "error-text", f"the receiver is not in {stopped}")
    env.require(isinstance(stopped, ReceiverError), "kind", "ReceiverStoppedError is not a ReceiverError")
    _check_closed(env, ChannelClosedError(chan), chan)


def _check_closed(env: Env, cause: BaseException | None, chan: Any) -> None:
    env.require(
        isinstance(cause, ChannelClosedError) and isinstance(cause, ChannelError), "cause", f"cause is {cause!r}"
    )
    assert isinstance(cause, ChannelError)
    env.require(cause.channel is chan, "channel", "ChannelClosedError.channel is another one")
    env.require(str(chan) in str(cause), "error-text", f"the channel is not in {cause}")


CHECKS = {
    "C24": Check(
        "C24",
        "one case = one seeded combination of 1-3 patterns of use (traffic, waits given up, select() loops left, "
        "temporary receivers, merges, channels, timers, events, watchers), repeated 60 times; the numbers of "
        "objects known to the garbage collector and of tasks are compared after every 15 cycles; "
        "non-trivial: always",
        [("cycles", 1, c24_cycles)], 1000, 20000,
        {"measured": 900, "cycles": 50000, "slow_timers": 30, **{f"op{i}": 150 for i in range(6)}},
        ["the virtual clock lets all pending timer handles of asyncio expire before each measurement",
         "watchfiles is replaced by a scripted stand-in"],
    ),
    "C25": Check(
        "C25",
        "one case = one seeded execution with 1-4 receivers of any kind (trees of map() and merge()) while "
        "str(), repr() and all documented attributes are looked at at random moments, deliveries compared with "
        "the model, or a history of one channel with all its attributes and errors; non-trivial: a "
        "message was delivered",
        [("trees", 4, c25_trees), ("facts", 2, c25_facts), ("zoo", 1, c25_zoo)], 10000, 250000,
        {"texts": 200000, "facts": 100000, "delivered": 20000, "errors_checked": 5000, "selected": 2500, "blocked_sends": 600,
         "unhandled": 800, "rest_waiting": 3000},
        ["texts are only required to exist; messages may have none"],
    ),
}
