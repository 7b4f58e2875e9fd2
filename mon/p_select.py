"""C15-C17: select()."""

from __future__ import annotations

import asyncio
import copy
import gc
from typing import Any

from frequenz.channels import (
    Error,
    Receiver,
    ReceiverError,
    ReceiverStoppedError,
    SelectError,
    Selected,
    UnhandledSelectedError,
    merge,
    select,
    selected_from,
)

from .core import Env, Messages, Violation
from .p_merge import Endless, _foreign
from .p_long import long_select
from .p_scale import wide_select
from .run import Check
from .tree import LEAVES, LeafError, Tree

_SIMPLE = ("broadcast", "anycast", "event", "timer", "user", "twin")


class Multi:
    """Several receivers with a model each, and the bookkeeping of a consumer using them all."""

    def __init__(self, env: Env, kinds: tuple[str, ...], depths: tuple[int, ...], widths: tuple[int, ...],
                 merges: bool = True, raw_twins: bool = False) -> None:
        self.env = env
        rng = env.rng
        self.trees: list[Tree] = []
        for i in range(rng.choice(widths)):
            depth = rng.choice(depths)
            twins = raw_twins and rng.random() < 0.5
            top = None if merges else rng.choice(("leaf", "leaf", "map")) if depth else "leaf"
            if top == "map":
                depth = 1
            self.trees.append(
                Tree(env, 0 if twins else depth, ("twin",) if twins else kinds, top="leaf" if twins else top,
                     prefix=f"{i}.", raw=twins)
            )
        self.stopped: set[int] = set()
        self.waiting = False
        self.holding = 0

    def recvs(self) -> list[Receiver[Any]]:
        return [t.recv for t in self.trees]

    def which(self, sel: Selected[Any], order: list[int]) -> int:
        """Find the source of a Selected; it must be exactly one."""
        hits = [i for i in order if selected_from(sel, self.trees[i].recv)]
        self.env.require(
            len(hits) == 1, "attribution",
            lambda: f"selected_from() is true for {[self.trees[i].shape for i in hits]}",
        )
        return hits[0]

    def took(self, i: int, sel: Selected[Any]) -> None:
        """Account for a Selected of receiver i."""
        env = self.env
        tree = self.trees[i]
        env.cov["selected"] += 1
        if sel.was_stopped:
            env.ev("sel-stop", i)
            env.require(i not in self.stopped, "stop-twice", f"{tree.shape} was reported stopped twice")
            env.require(
                isinstance(sel.exception, ReceiverStoppedError), "stop-exception", "was_stopped without cause"
            )
            self.stop(i)
            return
        env.require(i not in self.stopped, "after-stop", f"{tree.shape} was selected after its stop")
        if sel.exception is not None:
            tree.deliver_error(sel.exception)
            try:
                env.keep.append(sel.message)
            except LeafError as exc:
                env.require(exc is sel.exception, "message-error", "message raised something else")
            else:
                raise Violation("message-error", "message did not raise the exception")
        else:
            tree.deliver(sel.message)

    def stop(self, i: int) -> None:
        tree = self.trees[i]
        self.env.require(
            tree.stopped() and tree.must() == 0, "false-stop",
            lambda: f"{tree.shape} was reported as stopped, undelivered {tree.lost()}",
        )
        self.stopped.add(i)

    def emit(self) -> None:
        self.env.rng.choice(self.trees).emit()

    def must(self) -> int:
        return sum(t.must() + int(t.stopped() and i not in self.stopped) for i, t in enumerate(self.trees))

    def lost(self) -> list[Any]:
        return [t.lost() or f"{t.shape}: stop" for i, t in enumerate(self.trees)
                if t.must() or (t.stopped() and i not in self.stopped)]

    def stop_one(self) -> None:
        alive = [x for t in self.trees for x in t.leaves if not x.stopped]
        if alive:
            self.env.rng.choice(alive).stop()

    def stop_all(self) -> None:
        for tree in self.trees:
            tree.stop_all()

    def judge(self) -> None:
        """At rest, and the consumer is waiting: nothing is available."""
        env = self.env
        env.cov["rest_judged"] += 1
        if self.waiting:
            env.cov["rest_waiting"] += 1
            env.require(
                self.must() == 0, "held-back", lambda: f"the consumer waits although there is {self.lost()}"
            )


async def c15_dispatch(env: Env) -> None:
    rng = env.rng
    kinds = rng.choice((tuple(LEAVES), _SIMPLE, ("broadcast",)))
    multi = Multi(env, kinds, (0, 0, 1, 2), (40, 90) if rng.random() < 0.01 else rng.choice(((1, 2, 3), (2, 3, 4), (8, 12))),
                  raw_twins=rng.random() < 0.4)
    n = len(multi.trees)
    for _ in range(rng.choice((0, 0, 3, 6))):
        multi.emit()
    if rng.random() < 0.15:
        multi.stop_one()
    ended: list[int] = []
    args = multi.recvs()
    if rng.random() < 0.05:
        args.append(rng.choice(args))
        env.cov["passed_twice"] += 1
    busy = rng.choice((0.1, 0.4, 0.8))

    async def consume() -> None:
        multi.waiting = True
        async for sel in select(*args):
            multi.waiting = False
            order = list(range(n))
            rng.shuffle(order)
            multi.took(multi.which(sel, order), sel)
            if rng.random() < busy:
                await env.pause()
            multi.waiting = True
        multi.waiting = False
        ended.append(1)
        env.ev("ended")
        env.require(
            len(multi.stopped) == n, "ended-early",
            lambda: f"the iteration ended, but {[t.shape for i, t in enumerate(multi.trees) if i not in multi.stopped]}"
            " did not stop",
        )

    runner = env.spawn(consume(), "consumer")
    for _ in range(rng.randint(3, 40)):
        r = rng.random()
        if r < 0.55:
            for _ in range(rng.choice((1, 1, 2, 5))):
                multi.emit()
        elif r < 0.6:
            multi.stop_one()
        elif r < 0.75:
            if rng.random() < 0.7:
                await asyncio.sleep(0.006)
            await env.settle()
            multi.judge()
        else:
            await env.pause()
    alive = [x for t in multi.trees for x in t.leaves if not x.stopped]
    rng.shuffle(alive)
    for leaf in alive:
        for _ in range(rng.choice((0, 1, 2))):
            if leaf.can_emit():
                leaf.emit()
        if rng.random() < 0.3:
            await asyncio.sleep(0.006)
            await env.settle()
            multi.judge()
        leaf.stop()
        if rng.random() < 0.4:
            await env.pause()
    await asyncio.wait([runner], timeout=60)
    env.check()
    env.require(runner.done(), "stuck", lambda: f"the iteration does not end; there is {multi.lost()}")
    env.require(multi.must() == 0, "lost", lambda: f"never selected: {multi.lost()}")
    env.cov["sources"] += n
    env.nontrivial = env.cov["selected"] >= 2 and bool(ended)


async def c15_fair(env: Env) -> None:
    """Receivers that are always ready cannot starve others."""
    rng = env.rng
    n = rng.choice((1, 2, 3, 5, 8))
    sources: list[Any] = [Endless(i, 0) for i in range(n)]
    quiet = Tree(env, rng.choice((0, 0, 1)), ("broadcast", "anycast", "event", "user", "timer"), errors=False)
    args: list[Any] = [*sources, quiet.recv]
    rng.shuffle(args)
    bound = 10 * (n + 1) + 20
    # (Nested merges need some more turns to pass a message on.)
    last = [0] * n
    pos = 0
    since = 0
    stopped = False
    async for sel in select(*args):
        pos += 1
        if selected_from(sel, quiet.recv):
            if sel.was_stopped:
                stopped = True
                env.require(quiet.stopped() and not quiet.must(), "false-stop", "stopped early")
            else:
                if sel.exception is not None:
                    quiet.deliver_error(sel.exception)
                else:
                    quiet.deliver(sel.message)
                env.cov["selected_quiet"] += 1
            since = 0
        else:
            hit = [i for i, s in enumerate(sources) if selected_from(sel, s)]
            env.require(len(hit) == 1, "attribution", "selected_from")
            env.require(
                sel.message == (hit[0], sources[hit[0]].count), "attribution", f"{sel.message} from {hit}"
            )
            last[hit[0]] = pos
            if quiet.must() or (quiet.stopped() and not stopped):
                since += 1
                env.require(since <= bound, "starved", f"{quiet.shape} was overtaken {since} times by {n}")
        for i in range(n):
            env.require(
                pos - last[i] <= bound, "starved", f"source {i} of {n} was not selected in {pos - last[i]} turns"
            )
        if stopped:
            break
        if pos > 100 * (n + 1):
            quiet.stop_all()
            env.require(pos < 5000 * (n + 1), "starved", f"the stop of {quiet.shape} was not reported")
        elif rng.random() < 0.1:
            quiet.emit()
        if rng.random() < 0.2:
            await env.pause()
    env.require(stopped, "starved", f"the stop of {quiet.shape} was not reported")
    env.cov["fair_turns"] += pos
    env.nontrivial = True


async def c15_empty(env: Env) -> None:
    async for sel in select():
        raise Violation("phantom", f"select() without receivers yielded {sel!r:.80}")
    env.cov["empty"] += 1
    env.nontrivial = True


# -- C16 --------------------------------------------------------------------------------------


class _BodyError(Exception):
    pass


class _Failer(Receiver[Any]):
    """A receiver whose ready() raises once told so."""

    def __init__(self) -> None:
        self.bell = asyncio.Event()
        self.n = 0

    async def ready(self) -> bool:
        await self.bell.wait()
        self.n += 1
        raise RuntimeError("ready() failed")

    def consume(self) -> Any:
        raise Violation("consumed-failed", "consume() after a failed ready()")


class _Slow(Receiver[Any]):
    """A silent receiver whose ready() takes its time to react to a cancellation."""

    def __init__(self, seconds: float) -> None:
        self.seconds = seconds

    async def ready(self) -> bool:
        try:
            await asyncio.Event().wait()
        finally:
            await asyncio.sleep(self.seconds)
        return False

    def consume(self) -> Any:
        raise ReceiverStoppedError(self)


_WAYS = ("break", "return", "raise", "aclose", "cancel", "cancel_twice", "timeout", "unhandled",
         "select_error", "exhaust", "athrow")


async def _leaks(env: Env, before: set[Any]) -> list[str]:
    left = _foreign(env, before)
    if left:
        # An exception may keep the loop alive that it came from, until the garbage collection.
        env.cov["needed_gc"] += 1
        env.loop.contexts.clear()
        gc.collect()
        await env.settle()
        left = _foreign(env, before)
    return left


async def c16_leave(env: Env) -> None:
    rng = env.rng
    await asyncio.sleep(0)
    before = asyncio.all_tasks()
    leaks = rng.random() < 0.6
    multi = Multi(env, _SIMPLE if leaks else tuple(LEAVES), (0, 0, 1) if leaks else (0, 1, 2), (1, 2, 3, 5),
                  merges=not leaks, raw_twins=rng.random() < 0.2)
    n = len(multi.trees)

    async def session(way: str, turns: int, part: list[int]) -> None:
        failer = _Failer()
        args = [multi.trees[i].recv for i in part]
        if way == "select_error":
            args.insert(rng.randrange(len(args) + 1), failer)
        # Ways in which the loop is over when its last step is.
        final = leaks and way in ("aclose", "athrow", "unhandled", "select_error")
        if final and rng.random() < 0.2:
            args.insert(rng.randrange(len(args) + 1), _Slow(rng.choice((0, 0.001, 0.002, 0.002, 0.3))))
            env.cov["slow_receivers"] += 1
            busy["slow"] = True
        others = asyncio.all_tasks()
        over = False
        agen: Any = select(*args)
        left = turns
        try:
            if way == "select_error" and turns <= 1:
                failer.bell.set()
            multi.waiting = len(part) == n and not failer.bell.is_set()
            async for sel in agen:
                multi.waiting = False
                if way == "unhandled" and left <= 1:
                    # It was yielded, so it counts, but nobody claimed it.
                    # To ask for it would claim it, but not if a copy is asked.
                    multi.took(multi.which(copy.copy(sel), part), sel)
                    left -= 1
                    continue
                order = list(part)
                rng.shuffle(order)
                multi.took(multi.which(sel, order), sel)
                left -= 1
                if left == 0:
                    failer.bell.set()
                if rng.random() < 0.4:
                    await env.pause()
                if left <= 0:
                    if way == "break":
                        break
                    if way == "return":
                        return
                    if way == "raise":
                        raise _BodyError
                    if way == "aclose":
                        await agen.aclose()
                        over = True
                        break
                    if way == "athrow":
                        try:
                            await agen.athrow(_BodyError())
                        except (_BodyError, StopAsyncIteration):
                            pass
                        over = True
                        break
                multi.waiting = len(part) == n and not failer.bell.is_set()
            else:
                env.cov["exhausted"] += 1
                env.require(
                    all(i in multi.stopped for i in part), "ended-early", f"ended, stopped: {multi.stopped}"
                )
        except _BodyError:
            env.require(way == "raise", "foreign-error", way)
        except UnhandledSelectedError:
            env.require(way == "unhandled", "foreign-error", f"UnhandledSelectedError when leaving by {way}")
            over = True
            env.cov["unhandled"] += 1
        except SelectError as exc:
            env.require(
                way == "select_error" and isinstance(exc.__cause__, RuntimeError), "foreign-error",
                lambda: f"{exc!r} when leaving by {way}",
            )
            env.cov["select_errors"] += 1
            over = True
        except BaseExceptionGroup as group:
            # Documented: ready() failed while the loop was being left.
            env.require(
                way == "select_error" and all(isinstance(e, RuntimeError) for e in group.exceptions),
                "foreign-error", lambda: f"{group!r} when leaving by {way}",
            )
            env.cov["cleanup_groups"] += 1
        except LeafError as exc:
            raise Violation("foreign-error", f"{exc!r} came out of select()") from exc
        finally:
            multi.waiting = False
            failer.bell.set()
        # A garbage collection may have left an earlier loop just now.
        if over and final and not env.loop.n_collects:
            left_over = _foreign(env, others)
            env.require(not left_over, "task-left", lambda: f"when {way} is over: {left_over[:2]}")
            env.cov["over_checks"] += 1

    async def receive_some(part: list[int]) -> None:
        """Use a receiver directly."""
        i = rng.choice(part)
        tree = multi.trees[i]
        # Only when there is something: it must be there right away.
        if not tree.must() and not tree.stopped():
            return
        try:
            if rng.random() < 0.5:
                async with asyncio.timeout(0.5):
                    msg = await tree.recv.receive()
            else:
                async with asyncio.timeout(0.5):
                    await tree.recv.ready()
                msg = tree.recv.consume()
            tree.deliver(msg)
        except ReceiverStoppedError:
            if i not in multi.stopped:
                multi.stop(i)
        except LeafError as exc:
            tree.deliver_error(exc)
        except TimeoutError:
            raise Violation("held-back", f"{tree.shape} does not deliver {tree.lost()}") from None
        env.cov["direct_receives"] += 1

    async def use() -> None:
        for _ in range(rng.randint(2, 6)):
            part = [i for i in range(n) if i not in multi.stopped and rng.random() < 0.85]
            if not part:
                continue
            way = rng.choice(_WAYS)
            turns = rng.randint(1, 4)
            env.ev("session", way, turns, str(part))
            env.cov[f"left_by_{way}"] += 1
            env.cov["sessions"] += 1
            if way in ("cancel", "cancel_twice", "timeout"):
                task = env.spawn(session(way, 10_000, part), "session")
                if way == "timeout":
                    await asyncio.wait([task], timeout=rng.choice((1, 2, 5)) / 1000)
                else:
                    for _ in range(rng.choice((0, 1, 2, 3))):
                        if rng.random() < 0.5:
                            multi.emit()
                        await env.yields(rng.choice((0, 1, 2, 3)))
                    if rng.random() < 0.3:
                        await asyncio.sleep(0.002)
                env.ev("cancel")
                task.cancel()
                if way == "cancel_twice":
                    await env.yields(rng.choice((0, 1, 1, 2)))
                    task.cancel()
                # The consumer is this one task in real life; it goes on when the loop was left.
                await asyncio.wait([task])
                env.check()
                # (The cancelled task's exception would keep the loop alive.)
                env.tasks.remove(task)
                del task
            elif way == "exhaust":
                for i in part:
                    multi.trees[i].stop_all()
                await asyncio.wait_for(session(way, 10_000, part), 60)
            else:
                task = env.spawn(session(way, turns, part), "session")
                await asyncio.wait([task], timeout=rng.choice((0.02, 0.1)))
                if not task.done():
                    multi.waiting = False
                    task.cancel()
                    await asyncio.wait([task])
                    if busy["slow"]:
                        # (This may have interrupted the wait for the slow one.)
                        await asyncio.sleep(0.4)
                busy["slow"] = False
                await asyncio.wait([task])
                env.check()
                env.tasks.remove(task)
                del task
            r = rng.random()
            if r < 0.35:
                # Shortly afterwards no task is left.
                await env.settle()
                if leaks:
                    left = await _leaks(env, before)
                    env.require(
                        not left, "task-leak", lambda: f"after leaving by {way}: {left[:2]}"
                    )
                    env.cov["task_checks"] += 1
            elif r < 0.6:
                await receive_some(part)
            elif r < 0.75:
                await env.pause()
        busy["on"] = False

    busy = {"on": True, "slow": False}
    runner = env.spawn(use(), "consumer")
    while busy["on"] and not runner.done():
        r = rng.random()
        if r < 0.5:
            multi.emit()
            await env.yields(rng.choice((0, 1, 2)))
        elif r < 0.52:
            multi.stop_one()
        elif r < 0.6:
            await env.settle()
            multi.judge()
        else:
            await asyncio.sleep(rng.choice((1, 1, 3)) / 1000)
        env.check()
    await asyncio.wait([runner])
    env.check()
    # Everything that is left comes out of a new loop, a merge() or direct receives.
    for _ in range(rng.randint(0, 3)):
        multi.emit()
    multi.stop_all()
    rest = [i for i in range(n) if i not in multi.stopped]
    how = rng.choice(("select", "merge", "receive"))
    env.ev("rest", how)
    env.cov[f"rest_{how}"] += 1

    async def drain() -> None:
        if how == "select":
            await session("exhaust", 100_000, rest)
        elif how == "merge" and rest:
            def tag(i: int) -> Any:
                return lambda msg: (i, msg)
            for i in rest:
                for leaf in multi.trees[i].leaves:
                    leaf.prefetched = True
            merged = merge(*[multi.trees[i].recv.map(tag(i)) for i in rest])
            while True:
                try:
                    i, msg = await merged.receive()
                    multi.trees[i].deliver(msg)
                except ReceiverStoppedError:
                    break
                except LeafError as exc:
                    next(t for t in multi.trees if exc.leaf in t.leaves).deliver_error(exc)
            for i in rest:
                multi.stop(i)
        else:
            for i in rest:
                while i not in multi.stopped:
                    try:
                        multi.trees[i].deliver(await multi.trees[i].recv.receive())
                    except ReceiverStoppedError:
                        multi.stop(i)
                    except LeafError as exc:
                        multi.trees[i].deliver_error(exc)

    final = env.spawn(drain(), "drain")
    await asyncio.wait([final], timeout=60)
    env.check()
    env.require(final.done(), "stuck", lambda: f"({how}) stuck; there is {multi.lost()}")
    env.require(multi.must() == 0, "lost", lambda: f"never delivered: {multi.lost()}")
    if leaks:
        await env.settle()
        left = await _leaks(env, before)
        env.require(not left, "task-leak", lambda: f"in the end: {left[:2]}")
        env.cov["task_checks"] += 1
    env.nontrivial = env.cov["sessions"] >= 2


# -- C17 --------------------------------------------------------------------------------------


class Probe(Receiver[Any]):
    """A receiver that watches how it is used."""

    def __init__(self, env: Env, name: str, twin: bool) -> None:
        self.env = env
        self.name = name
        self.twin = twin
        self.items: list[tuple[str, Any]] = []
        self.stopped = False
        self.wakeup: list[asyncio.Future[None]] = []
        self.in_ready = 0
        self.finished = False
        self.n_ready = 0
        self.n_consumed = 0
        self.cleanup_errors: dict[int, BaseException] | None = None

    def __eq__(self, other: object) -> bool:
        return self is other or (self.twin and isinstance(other, Probe) and other.twin)

    def __hash__(self) -> int:
        return 3 if self.twin else id(self)

    def wake(self) -> None:
        for fut in self.wakeup:
            if not fut.done():
                fut.set_result(None)
        self.wakeup.clear()

    def put(self, kind: str, what: Any) -> None:
        self.items.append((kind, what))
        self.wake()

    async def ready(self) -> bool:
        env = self.env
        env.require(self.in_ready == 0, "ready-twice", f"two ready() calls at once on {self.name}")
        env.require(
            not self.finished, "ready-again", f"ready() of {self.name} was called without consuming first"
        )
        self.in_ready += 1
        try:
            for _ in range(env.rng.choice((0, 0, 1, 2))):
                await asyncio.sleep(0)
            while not self.items and not self.stopped:
                fut = env.loop.create_future()
                self.wakeup.append(fut)
                try:
                    await fut
                except asyncio.CancelledError:
                    if self.cleanup_errors is not None and env.rng.random() < 0.3:
                        # The receiver fails when the wait is given up: nobody may swallow that.
                        failed = _error(env, self, 0)
                        self.cleanup_errors[id(failed)] = failed
                        env.ev("cleanup-raises", self.name)
                        raise failed from None
                    raise
            if self.items and self.items[0][0] == "ready":
                _, exc = self.items.pop(0)
                env.ev("ready-raises", self.name)
                raise exc
            env.ev("ready", self.name)
            self.n_ready += 1
            self.finished = True
            return bool(self.items)
        finally:
            self.in_ready -= 1

    def consume(self) -> Any:
        env = self.env
        env.ev("consume", self.name)
        env.require(self.finished, "consume-early", f"consume() of {self.name} without a finished ready()")
        self.finished = False
        self.n_consumed += 1
        if not self.items:
            raise ReceiverStoppedError(self)
        kind, what = self.items.pop(0)
        if kind == "error":
            raise what
        return what


class _Falsy(ValueError):
    """An exception which is false, like one which is also an (empty) container."""

    def __len__(self) -> int:
        return 0


class _FalsyStop(ReceiverStoppedError):
    def __bool__(self) -> bool:
        return False


def _error(env: Env, probe: Probe, k: int) -> Exception:
    kind = env.rng.randrange(10)
    other = Probe(env, "other", False)
    return (
        ValueError(k), KeyError(k), Error(str(k)), ReceiverError(str(k), probe), ReceiverStoppedError(other),
        AssertionError(k), TimeoutError(k), SelectError(str(k)), _Falsy(k), _FalsyStop(other),
    )[kind]


async def c17_protocol(env: Env) -> None:
    rng = env.rng
    n = rng.choice((1, 2, 2, 3, 4))
    probes = [Probe(env, f"p{i}", rng.random() < 0.4) for i in range(n)]
    args: list[Receiver[Any]] = list(probes)
    identity = lambda msg: msg  # noqa: E731  pylint: disable=unnecessary-lambda-assignment
    for i in range(n):
        if rng.random() < 0.2:
            args[i] = probes[i].map(identity)
    msgs = Messages(env, 0.2)
    sent: list[list[tuple[str, Any]]] = [[] for _ in range(n)]
    ready_errors: dict[int, Exception] = {}
    p_ready_error = rng.choice((0.0, 0.0, 0.05))
    p_unhandled = rng.choice((0.0, 0.0, 0.1, 0.3))
    state = {"body": False, "waiting": False}
    stops: set[int] = set()
    cleanup_errors: dict[int, BaseException] = {}
    kept: list[tuple[Any, Any, Any, Any, bool]] = []
    keep = rng.random() < 0.3
    if rng.random() < 0.2:
        for probe in probes:
            probe.cleanup_errors = cleanup_errors

    def produce() -> None:
        i = rng.randrange(n)
        if probes[i].stopped:
            return
        r = rng.random()
        if r < 0.25:
            item = ("error", _error(env, probes[i], len(sent[i])))
        elif r < 0.25 + p_ready_error:
            item = ("ready", _error(env, probes[i], len(sent[i])))
            ready_errors[id(item[1])] = item[1]
        else:
            item = ("msg", msgs.new()[0])
        if item[0] != "ready":
            sent[i].append(item)
        probes[i].put(*item)

    async def consume() -> None:
        while len(stops) < n:
            expect: Selected[Any] | None = None
            cause: BaseException | None = None
            turns = rng.choice((3, 10, 10_000))
            # A batch that was left unconsumed is simply ready again.
            for probe in probes:
                probe.finished = False
            live = [i for i in range(n) if i not in stops]
            before = [probe.n_consumed for probe in probes]
            agen: Any = select(*[args[i] for i in live])
            try:
                state["waiting"] = True
                async for sel in agen:
                    state["waiting"] = False
                    env.require(
                        expect is None, "unhandled-missed",
                        "the iteration goes on although a Selected was not handled",
                    )
                    # The monitor learns from the receivers which one it was.
                    hits = [i for i in live if probes[i].n_consumed != before[i]]
                    env.require(
                        len(hits) == 1 and probes[hits[0]].n_consumed == before[hits[0]] + 1, "consume-once",
                        lambda: f"one step consumed {[probes[i].n_consumed - before[i] for i in range(n)]} times",
                    )
                    before = [probe.n_consumed for probe in probes]
                    i = hits[0]
                    if rng.random() < p_unhandled:
                        # Ask for others only, or for nobody.
                        for j in live:
                            if j != i and rng.random() < 0.7:
                                env.require(
                                    not selected_from(sel, args[j]), "attribution", "selected_from() is wrong"
                                )
                        if args[i] is not probes[i] and rng.random() < 0.5:
                            # The receiver below a map() was not given to select().
                            env.require(not selected_from(sel, probes[i]), "attribution", "below the map()")
                        expect = sel
                        env.cov["left_unhandled"] += 1
                    else:
                        order = list(live)
                        rng.shuffle(order)
                        for j in order:
                            env.require(
                                selected_from(sel, args[j]) == (j == i), "attribution",
                                f"selected_from() is wrong for p{j}",
                            )
                            if j == i and rng.random() < 0.5:
                                break
                    _check_selected(env, sel, i, probes[i], args[i], sent[i], stops)
                    if keep:
                        if kept:
                            _check_kept(env, rng.choice(kept), args)
                        kept.append((sel, args[i], sel.exception, None if sel.exception is not None else sel.message, sel.was_stopped))
                    if rng.random() < 0.3:
                        await env.pause()
                    turns -= 1
                    if turns <= 0 and expect is None:
                        break
                    state["waiting"] = True
                else:
                    env.require(expect is None, "unhandled-missed", "the iteration ended although a Selected was not handled")
                    env.require(len(stops) == n, "ended-early", f"ended; stopped: {stops}")
            except UnhandledSelectedError as exc:
                env.require(expect is not None, "unhandled-wrongly", f"{exc} although it was handled")
                env.require(exc.selected is expect, "unhandled-other", "UnhandledSelectedError has another Selected")
                env.cov["unhandled"] += 1
            except SelectError as exc:
                cause = exc.__cause__
                env.require(
                    id(cause) in ready_errors, "select-error-cause", lambda: f"{exc!r} caused by {cause!r}"
                )
                env.require(expect is None, "unhandled-missed", "SelectError instead of UnhandledSelectedError")
                del ready_errors[id(cause)]
                env.cov["select_errors"] += 1
            except BaseExceptionGroup as group:
                # Documented: several receivers failed, or one failed while the loop was left.
                _check_group(env, group, ready_errors, cleanup_errors)
            finally:
                state["waiting"] = False
            try:
                await agen.aclose()
            except BaseExceptionGroup as group:
                _check_group(env, group, ready_errors, cleanup_errors)
            env.require(
                not cleanup_errors, "swallowed",
                lambda: f"raised by ready() while the loop was left, but not raised by it: {[*cleanup_errors.values()]}",
            )
            await env.yields(2)

    runner = env.spawn(consume(), "consumer")
    for _ in range(rng.randint(5, 50)):
        r = rng.random()
        if r < 0.65:
            produce()
        elif r < 0.67:
            probe = rng.choice(probes)
            probe.stopped = True
            probe.wake()
        elif r < 0.8:
            await env.settle()
            env.cov["rest_judged"] += 1
            if state["waiting"]:
                env.require(
                    not any(p.items for p in probes), "held-back",
                    lambda: f"select() waits although there is {[len(p.items) for p in probes]}",
                )
        else:
            await env.pause()
    for probe in probes:
        probe.stopped = True
        probe.wake()
    await asyncio.wait([runner], timeout=60)
    env.check()
    env.require(runner.done(), "stuck", lambda: f"select() is stuck, items {[len(p.items) for p in probes]}")
    for i, probe in enumerate(probes):
        env.require(not sent[i], "lost", f"p{i}: {len(sent[i])} results were never yielded")
        env.cov["consumes"] += probe.n_consumed
    for entry in kept[-20:]:
        _check_kept(env, entry, args)
    env.nontrivial = env.cov["selected"] >= 2


def _check_kept(env: Env, entry: tuple[Any, Any, Any, Any, bool], args: list[Any]) -> None:
    """A Selected of an earlier turn still tells what it told then."""
    sel, recv, exception, message, was_stopped = entry
    env.cov["kept_checked"] += 1
    env.require(
        sel.exception is exception and sel.was_stopped == was_stopped, "kept",
        lambda: f"a Selected of an earlier turn changed from {exception!r} to {sel.exception!r}",
    )
    if exception is None:
        env.require(sel.message is message, "kept", "a Selected of an earlier turn has another message now")
    for other in args:
        env.require(selected_from(sel, other) == (other is recv), "kept", "an earlier Selected comes from another one now")


def _check_group(env: Env, group: BaseExceptionGroup[Any], ready_errors: dict[int, Exception],
                 cleanup_errors: dict[int, BaseException]) -> None:
    env.cov["cleanup_groups"] += 1
    for exc in group.exceptions:
        if isinstance(exc, Violation):
            raise exc
        if id(exc) in cleanup_errors:
            del cleanup_errors[id(exc)]
            env.cov["cleanup_errors"] += 1
            continue
        env.require(id(exc) in ready_errors, "group", lambda exc=exc: f"{exc!r} came from nowhere")  # type: ignore[misc]
        del ready_errors[id(exc)]


def _check_selected(env: Env, sel: Selected[Any], i: int, probe: Probe, recv: Any,
                    sent: list[tuple[str, Any]], stops: set[int]) -> None:
    env.cov["selected"] += 1
    if not sent:
        env.require(
            probe.stopped and isinstance(sel.exception, ReceiverStoppedError) and sel.was_stopped,
            "phantom", lambda: f"p{i} has no results left, but selected {sel.exception!r}",
        )
        env.require(i not in stops, "stop-twice", f"p{i} was reported stopped twice")
        stops.add(i)
        try:
            env.keep.append(sel.message)
        except ReceiverStoppedError:
            return
        raise Violation("message-error", "message of a stopped receiver did not raise")
    kind, what = sent.pop(0)
    if kind == "error":
        env.cov["errors_selected"] += 1
        env.require(sel.exception is what, "exception", lambda: f"{what!r} became {sel.exception!r}")
        env.require(
            sel.was_stopped == isinstance(what, ReceiverStoppedError), "was-stopped",
            lambda: f"was_stopped is {sel.was_stopped} for {what!r}",
        )
        for _ in range(2):
            try:
                env.keep.append(sel.message)
            except Exception as exc:  # pylint: disable=broad-except
                env.require(exc is what, "message-error", lambda: f"message raised {exc!r}")
            else:
                raise Violation("message-error", "message did not raise")
    else:
        env.require(sel.exception is None, "exception", lambda: f"a message became {sel.exception!r}")
        env.require(sel.message is what, "message", "another message")
        env.require(sel.message is what, "message", "message changed")
        env.require(not sel.was_stopped, "was-stopped", "was_stopped for a message")


_ASSUME = ["each receiver is used by the one consumer only (waits overlap only while being cancelled)",
           "watchfiles is replaced by a scripted stand-in for FileWatcher leaves"]
CHECKS = {
    "C15": Check(
        "C15",
        "one case = one seeded execution of select() over 1-12 receivers of all kinds (trees of map() and "
        "merge(), equal and false ones, one passed twice, none) with random emissions, stops and a busy "
        "consumer, or with always-ready receivers; non-trivial: at least two Selected were checked",
        [("dispatch", 5, c15_dispatch), ("fair", 1, c15_fair), ("empty", 0.02, c15_empty), ("wide", 0.012, wide_select), ("long", 0.03, long_select)], 12000, 300000,
        {"selected": 150000, "rest_waiting": 10000, "fair_turns": 200000, "delivered_timer": 1500,
         "delivered_twin": 10000, "delivered_file": 5000, "selected_quiet": 10000, "passed_twice": 200,
         "wide_stops": 3000, "long_selected": 15000, "long_sessions": 1500}, _ASSUME,
    ),
    "C16": Check(
        "C16",
        "one case = one seeded history of 2-6 select() sessions on the same 1-5 receivers, each left in one of "
        "11 ways, followed at once or later by direct receives, new sessions or merge(); tasks are counted "
        "and every message accounted for; non-trivial: at least two sessions",
        [("leave", 1, c16_leave), ("long", 0.004, long_select)], 12000, 300000,
        {"sessions": 30000, "task_checks": 10000, "direct_receives": 2000, "unhandled": 1000,
         "select_errors": 1000, "exhausted": 3000, "rest_select": 2000, "rest_merge": 2000,
         "rest_receive": 2000, "long_sessions": 1200, **{f"left_by_{w}": 1500 for w in _WAYS}}, _ASSUME,
    ),
    "C17": Check(
        "C17",
        "one case = one seeded history of select() sessions over 1-4 receivers that record every ready() and "
        "consume() call and fail in either at random, with bodies that handle or do not handle the Selected; "
        "non-trivial: at least two Selected were checked",
        [("protocol", 1, c17_protocol)], 12000, 300000,
        {"selected": 80000, "errors_selected": 20000, "unhandled": 5000, "select_errors": 1000,
         "rest_judged": 20000, "consumes": 80000, "kept_checked": 20000, "cleanup_errors": 300}, _ASSUME,
    ),
}
