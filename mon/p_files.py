"""C22, C23: FileWatcher."""

from __future__ import annotations

import asyncio
import collections
import gc
import pathlib
import random
import shutil
import tempfile
import threading
import weakref
from collections.abc import Callable
from typing import Any

from frequenz.channels import Receiver, ReceiverStoppedError, merge, select, selected_from
from frequenz.channels.event import Event
from frequenz.channels.file_watcher import Event as FileEvent
from frequenz.channels.file_watcher import EventType, FileWatcher

from .core import Env, Violation
from .drive import Rx
from .p_long import streaks
from .fakefs import FakeOS, RealWatch
from .run import Check

ALL_TYPES = tuple(EventType)
Key = tuple[Any, str]


# -- making watchers ----------------------------------------------------------------------------


def _types(env: Env, some: bool = False) -> tuple[list[EventType], Any]:
    """Event types, and one of the ways to give them."""
    rng = env.rng
    types = [t for t in ALL_TYPES if rng.random() < 0.7]
    if (some and not types) or rng.random() < 0.2:
        types = list(ALL_TYPES)
    how = rng.randrange(6)
    given: Any
    if how == 0:
        given = set(types)
    elif how == 1:
        given = frozenset(types)
    elif how == 2:
        given = tuple(types + types)
    elif how == 3:
        given = (t for t in types)  # can be read only once
    elif how == 4:
        given = dict.fromkeys(types)
    else:
        given = types[::-1]
    return types, given


def _build(env: Env, paths: list[Any], types: list[EventType], given: Any) -> FileWatcher:
    rng = env.rng

    def make() -> FileWatcher:
        if len(types) == len(ALL_TYPES) and rng.random() < 0.5:
            return FileWatcher(paths)
        if rng.random() < 0.3:
            return FileWatcher(paths=paths, event_types=given)
        return FileWatcher(paths, given)

    if rng.random() < 0.15:
        # Created where no loop is running, as in the example of the documentation.
        box: list[FileWatcher] = []
        thread = threading.Thread(target=lambda: box.append(make()))
        thread.start()
        thread.join()
        env.cov["made_without_loop"] += 1
        watcher = box.pop()
    else:
        watcher = make()
    if rng.random() < 0.3:
        # What the caller does with its own list afterwards is nobody's business.
        paths.clear()
        if isinstance(given, (list, set)):
            given.clear()
    return watcher


def _key(msg: Any) -> Key:
    if not (isinstance(msg, FileEvent) and isinstance(msg.type, EventType) and isinstance(msg.path, pathlib.Path)):
        raise Violation("type", f"the file watcher delivered {msg!r}")
    return (msg.type.value, str(msg.path))


ODD_NAMES = (
    ".{}", "{}~", ".{}.swp", "{}.swx", "{}.tmp", "{}.pyc", "__pycache__/{}.pyc", ".git/{}", "node_modules/{}",
    "#{}#", ".#{}", "{} with spaces ", "{}.part", ".{}/deep/er/{}", "\u00fcn\u00ef-{}", "{}\nline", "{}*?", "{}.",
    "{}4913", "~${}", "{}.lock", "{}.log", "{}.DS_Store", ".nfs{}", "-{}", "{}.LOG", "{}" + "x" * 120, "site-packages/{}",
    "sub/../{}", "../{}", "~/{}", "~{}", "{}%20", "A{}", "a{}", "\\{}", "{}.bak", "{}.tmp.123",
)
"""Names that one may be tempted to ignore."""


class Script:
    """A scripted watcher, and what must come out of it."""

    def __init__(self, env: Env, lossy: bool, some: bool = False, twin: "Script | None" = None) -> None:
        rng = env.rng
        self.env = env
        self.twins = [self] if twin is None else twin.twins
        if twin is not None:
            self.twins.append(self)
        self.os = twin.os if twin is not None else FakeOS(rng.choice(("", "", "up/../", "~/")) + f"{env.seed}-{rng.randrange(10**6)}", lossy)
        self.types, given = _types(env, some)
        self.values = {t.value for t in self.types}
        names = [self.os.path] + [f"/fake/other-{i}" for i in range(rng.choice((0, 0, 1, 4)))]
        rng.shuffle(names)
        self.names = list(names)
        env.ev("watch", names, [t.name for t in self.types], lossy)
        self.watcher = _build(env, [n if rng.random() < 0.5 else pathlib.Path(n) for n in names], self.types, given)
        self.open: list[tuple[bool, collections.Counter[Key]]] = []
        self.n_batches = 0
        self.delivered = 0
        self.n_must = 0

    def batch(self, must: bool = True) -> None:
        """The operating system reports some changes."""
        rng = self.env.rng
        self.n_batches += 1
        batch: set[Any] = set()
        for _ in range(rng.choice((1, 1, 2, 3, 6))):
            if self.os.lossy:
                # It may be lost as a whole, so it must be told from the others.
                name = f"{self.n_batches}-{len(batch)}"
                if rng.random() < 0.3:
                    name = rng.choice(ODD_NAMES).replace("{}", name)
            elif rng.random() < 0.3:
                name = rng.choice(ODD_NAMES).replace("{}", rng.choice(("a", "b", f"{self.n_batches}")))
            else:
                name = rng.choice(("a", "b", "c", "sub/d", f"{self.n_batches}"))
            batch.add((rng.choice(ALL_TYPES).value, f"{self.os.path}/{name}"))
        self.env.ev("batch", sorted(map(str, batch)), must)
        for script in self.twins:
            script.expect(batch, must)
        self.os.push(batch)

    def expect(self, batch: set[Any], must: bool) -> None:
        keep = collections.Counter(c for c in batch if c[0] in self.values)
        self.env.cov["changes_selected"] += len(keep)
        self.env.cov["changes_unselected"] += len(batch) - len(keep)
        if keep:
            self.open.append((must, keep))
            self.n_must += must

    def got(self, msg: Any) -> None:
        env = self.env
        key = _key(msg)
        env.ev("got", str(key))
        env.cov["delivered"] += 1
        self.delivered += 1
        env.require(key[0] in self.values, "unselected", f"{key} was delivered, but only {self.types} are watched")
        while self.open and (not self.open[0][1] or (not self.open[0][0] and not self.open[0][1][key])):
            # All of it was delivered, or it came while nobody was obliged to watch.
            self.open.pop(0)
        env.require(
            bool(self.open) and self.open[0][1][key] > 0, "lost-duplicate-or-phantom",
            lambda: f"{key} was delivered, but the changes to deliver are {[list(o[1]) for o in self.open[:3]]}",
        )
        self.open[0][1][key] -= 1
        self.open[0][1].__iadd__(collections.Counter())  # drop zeros
        if self.open[0][1]:
            # A batch that was begun must be finished.
            self.open[0] = (True, self.open[0][1])

    def left(self) -> list[Any]:
        return [list(keys) for must, keys in self.open if must and keys]

    def judge_paths(self) -> None:
        for paths in self.os.calls:
            self.env.require(
                any(sorted(map(str, paths)) == sorted(twin.names) for twin in self.twins), "paths",
                f"watching {list(map(str, paths))} instead of {self.names}",
            )


def _failed(_rx: Rx, exc: Exception) -> None:
    raise Violation("unexpected-error", f"the file watcher raised {exc!r}") from exc


def _waits(rx: Rx) -> bool:
    return bool(rx.waiting or (rx.loose and not rx.held and not rx.in_body))


# -- C22 ----------------------------------------------------------------------------------------


async def c22_script(env: Env) -> None:
    """Nothing is lost by the operating system: everything must come out exactly once."""
    rng = env.rng
    script = Script(env, lossy=False)
    recv: Receiver[Any] = script.watcher
    if rng.random() < 0.2:
        recv = recv.map(lambda m: m)
    if rng.random() < 0.1:
        recv = merge(recv, Event(name="never"))
    rx = Rx(env, recv, "root", lambda _r, msg: script.got(msg), _failed)
    styles = rng.choice((Rx.PLAIN, Rx.ALL, Rx.ALL, ("cancelled", "receive"), ("ready",), ("timed", "select")))
    if recv is not script.watcher:
        styles = Rx.PLAIN
    runner = env.spawn(rx.run(styles, 10_000), "consumer")
    for _ in range(rng.randint(3, 30)):
        r = rng.random()
        if r < 0.5:
            for _ in range(rng.choice((1, 1, 2))):
                script.batch()
            await env.yields(rng.choice((0, 0, 1, 2, 3)))
        elif r < 0.65 and env.cancellable:
            live = [t for t in env.cancellable if not t.done()]
            if live:
                rx.left_behind()
                env.cov["cancelled_waits"] += 1
                rng.choice(live).cancel()
        elif r < 0.85:
            await env.settle()
            _judge(env, script, rx)
        else:
            await env.pause()
    for _ in range(3):
        await asyncio.sleep(0.02)
        await env.settle()
        _judge(env, script, rx)
    script.os.end()
    for bell in rx.bells:
        bell.set()
    await asyncio.wait([runner], timeout=60)
    env.check()
    if isinstance(recv, FileWatcher):
        env.require(runner.done() and rx.stopped, "stop-lost", "the consumer was not stopped")
        env.require(not script.left(), "lost", lambda: f"never delivered: {script.left()}")
    env.require(not rx.after_stop, "revived", "delivered after the stop")
    script.judge_paths()
    env.nontrivial = script.delivered >= 2


def _judge(env: Env, script: Script, rx: Rx) -> None:
    env.cov["rest_judged"] += 1
    if _waits(rx):
        env.cov["rest_waiting"] += 1
        env.require(
            not script.left(), "forgotten", lambda: f"the consumer waits, but these were not delivered: {script.left()}"
        )


async def c22_busy(env: Env) -> None:
    """The operating system forgets what happens while nobody watches."""
    rng = env.rng
    script = Script(env, lossy=True, some=True)
    rx = Rx(env, script.watcher, "root", lambda _r, msg: script.got(msg), _failed)
    cancels = rng.random() < 0.5
    runner = env.spawn(rx.run(Rx.ALL if cancels else Rx.PLAIN, 10_000), "consumer")
    began = False
    for _ in range(rng.randint(3, 30)):
        r = rng.random()
        if r < 0.5:
            await env.settle()
            began = began or _waits(rx)
            sure = _waits(rx) if cancels else began
            if sure:
                env.cov["busy_batches"] += not _waits(rx)
                before = script.os.unseen
                script.batch(must=True)
                env.require(
                    script.os.unseen == before, "not-watching",
                    "nothing watches the files, although watching has begun and no wait was cancelled",
                )
                # Taken over before anybody may cancel the wait.
                if cancels:
                    await env.settle()
                else:
                    await env.yields(rng.choice((0, 0, 1, 2)))
            else:
                script.batch(must=False)
        elif r < 0.7:
            await env.settle()
            _judge(env, script, rx)
        else:
            await env.pause()
            if not cancels and rng.random() < 0.3 and began:
                script.batch(must=True)
    await asyncio.sleep(0.05)
    script.os.end()
    for bell in rx.bells:
        bell.set()
    await asyncio.wait([runner], timeout=60)
    env.check()
    env.require(runner.done() and rx.stopped, "stop-lost", "the consumer was not stopped")
    env.require(not script.left(), "lost", lambda: f"never delivered: {script.left()}")
    script.judge_paths()
    env.nontrivial = script.delivered >= 2


async def c22_several(env: Env) -> None:
    """Several watchers, of different files or the same ones, do not get in each other's way."""
    rng = env.rng
    same = rng.random() < 0.4
    scripts: list[Script] = []
    rxs: list[Rx] = []
    for i in range(rng.choice((2, 2, 3))):
        script = Script(env, lossy=same, twin=scripts[0] if same and scripts else None)
        scripts.append(script)
        rxs.append(Rx(env, script.watcher, f"w{i}", lambda _r, msg, script=script: script.got(msg), _failed))
    runners = [env.spawn(rx.run(Rx.PLAIN, 10_000), rx.name) for rx in rxs]
    await env.settle()
    while same and not all(_waits(rx) for rx in rxs):
        await asyncio.sleep(0.01)
        await env.settle()
    for _ in range(rng.randint(3, 20)):
        r = rng.random()
        if r < 0.6:
            rng.choice(scripts).batch()
            await env.yields(rng.choice((0, 0, 1, 2, 3)))
        elif r < 0.8:
            await env.settle()
            for script, rx in zip(scripts, rxs):
                _judge(env, script, rx)
        else:
            await env.pause()
    await asyncio.sleep(0.05)
    order = list(range(len(scripts)))
    rng.shuffle(order)
    for i in order:
        scripts[i].os.end()
        for bell in rxs[i].bells:
            bell.set()
        await asyncio.wait([runners[i]], timeout=60)
        env.check()
        env.require(runners[i].done() and rxs[i].stopped, "stop-lost", "the consumer was not stopped")
        env.require(not scripts[i].left(), "lost", lambda i=i: f"never delivered: {scripts[i].left()}")
        scripts[i].judge_paths()
        for k in order[order.index(i) + 1:] if not same else ():
            env.require(not rxs[k].stopped, "stopped-together", "the end of one watcher stopped another one")
            scripts[k].batch()
    env.cov["several_watchers"] += 1
    env.nontrivial = all(script.delivered for script in scripts)


# -- C23 ----------------------------------------------------------------------------------------


class _FalsyError(OSError):
    """An exception which is false."""

    def __bool__(self) -> bool:
        return False


def _failure(rng: random.Random) -> Exception | None:
    return rng.choice((
        None, None, FileNotFoundError("No path was found."), PermissionError("no"), OSError(28, "too many watches"),
        RuntimeError("watch thread unexpectedly received a signal"), ValueError("x"), TimeoutError("y"),
        ExceptionGroup("unhandled errors in a TaskGroup", [OSError("z")]), _FalsyError("f"),
    ))


async def _stopped_for_good(env: Env, script: Script, failure: Exception | None) -> None:
    """Every way to use a stopped watcher."""
    rng = env.rng
    watcher = script.watcher
    if rng.random() < 0.3:
        # Whatever happens later.
        script.os.ended = False
        script.os.failure = None
        script.os.push({(ALL_TYPES[0].value, f"{script.os.path}/late")})
        env.cov["late_changes"] += 1

    def cause(exc: BaseException | None) -> None:
        env.require(
            isinstance(exc, ReceiverStoppedError) and exc.receiver is watcher, "stop-error", f"stopped with {exc!r}"
        )
        assert exc is not None
        reason = exc.__cause__
        env.require(
            reason is not None if failure is None else reason is failure, "cause",
            f"the cause is {reason!r}, but the watcher {'ended' if failure is None else f'failed with {failure!r}'}",
        )

    for _ in range(rng.randint(2, 5)):
        how = rng.choice(("ready", "receive", "iterate", "anext", "select", "consume"))
        env.cov["after_stop_calls"] += 1
        async with asyncio.timeout(60):
            if how == "ready":
                env.require(await watcher.ready() is False, "revived", "ready() is not False after the stop")
            elif how in ("receive", "consume"):
                try:
                    if how == "consume":
                        env.require(await watcher.ready() is False, "revived", "ready() is not False after the stop")
                        msg = watcher.consume()
                    else:
                        msg = await watcher.receive()
                except ReceiverStoppedError as exc:
                    cause(exc)
                else:
                    raise Violation("revived", f"{msg!r} was received after the stop")
            elif how == "iterate":
                async for msg in watcher:
                    raise Violation("revived", f"{msg!r} was received after the stop")
            elif how == "anext":
                try:
                    msg = await anext(watcher)
                except StopAsyncIteration as exc2:
                    cause(exc2.__cause__)
                else:
                    raise Violation("revived", f"{msg!r} was received after the stop")
            else:
                stops = 0
                async for sel in select(watcher):
                    assert selected_from(sel, watcher)
                    stops += sel.was_stopped
                    env.require(sel.was_stopped, "revived", f"select() reported {sel!r} after the stop")
                    cause(sel.exception)
                env.require(stops == 1, "select-stops", f"select() reported the stop {stops} times")


async def c23_ends(env: Env) -> None:
    """The watcher ends or fails at some moment."""
    rng = env.rng
    script = Script(env, lossy=False)
    failure = _failure(rng)
    rx = Rx(env, script.watcher, "root", lambda _r, msg: script.got(msg), _failed)
    styles = rng.choice((Rx.PLAIN, Rx.ALL, Rx.ALL, ("select",), ("ready",), ("cancelled", "timed", "select")))
    n = rng.choice((0, 0, 1, 3, 10))
    if n == 0 and rng.random() < 0.7:
        # As for a path that does not exist.
        script.os.end(failure)
        env.cov["fails_at_once"] += 1
    runner = env.spawn(rx.run(styles, 10_000), "consumer")
    for _ in range(n):
        if rng.random() < 0.6:
            script.batch()
        if rng.random() < 0.5 and env.cancellable:
            live = [t for t in env.cancellable if not t.done()]
            if live:
                rx.left_behind()
                env.cov["cancelled_waits"] += 1
                rng.choice(live).cancel()
        await env.pause()
    script.os.end(failure)
    env.ev("end", repr(failure))
    for _ in range(20):
        if runner.done():
            break
        await asyncio.sleep(0.005)
        for bell in rx.bells:
            bell.set()
        await env.settle()
        _judge(env, script, rx)
        env.require(not _waits(rx), "stop-lost", "the consumer waits although the watcher has ended")
    await asyncio.wait([runner], timeout=60)
    env.check()
    env.require(runner.done() and rx.stopped, "stop-lost", "the consumer was not stopped")
    env.require(not script.left(), "lost", lambda: f"never delivered: {script.left()}")
    await _stopped_for_good(env, script, failure)
    env.cov["failed" if failure is not None else "ended"] += 1
    env.nontrivial = True


async def c23_select(env: Env) -> None:
    """select() from several watchers that end at different moments."""
    rng = env.rng
    scripts = [Script(env, lossy=False) for _ in range(rng.choice((1, 2, 3)))]
    failures = [_failure(rng) for _ in scripts]
    stops = [0] * len(scripts)
    bell = Event(name="bell")
    by_id = {id(s.watcher): i for i, s in enumerate(scripts)}

    async def produce() -> None:
        todo = list(range(len(scripts))) + [rng.randrange(len(scripts)) for _ in range(rng.randint(0, 8))]
        rng.shuffle(todo)
        for i in todo:
            scripts[i].batch()
            bell.set()
            await env.pause()
        rng.shuffle(order := list(range(len(scripts))))
        for i in order:
            scripts[i].os.end(failures[i])
            await env.pause()
        await asyncio.sleep(0.02)
        bell.stop()

    env.spawn(produce(), "producer")
    args: list[Receiver[Any]] = [s.watcher for s in scripts]
    args.append(bell)
    rng.shuffle(args)
    async with asyncio.timeout(60):
        async for sel in select(*args):
            if selected_from(sel, bell):
                continue
            i = next(by_id[id(s.watcher)] for s in scripts if selected_from(sel, s.watcher))
            if sel.was_stopped:
                stops[i] += 1
                env.ev("stopped", i)
                exc = sel.exception
                reason = exc.__cause__ if exc is not None else None
                env.require(
                    reason is not None if failures[i] is None else reason is failures[i], "cause",
                    f"the cause is {reason!r}, the watcher failed with {failures[i]!r}",
                )
                continue
            env.require(sel.exception is None, "unexpected-error", lambda: f"{sel.exception!r}")
            env.require(not stops[i], "revived", "delivered after the stop")
            scripts[i].got(sel.message)
            if rng.random() < 0.3:
                await env.pause()
    env.check()
    env.require(stops == [1] * len(stops), "select-stops", f"select() reported the stops {stops} times")
    for script, failure in zip(scripts, failures):
        env.require(not script.left(), "lost", lambda: f"never delivered: {script.left()}")  # noqa: B023
        await _stopped_for_good(env, script, failure)
    env.cov["select_stops"] += len(stops)
    env.nontrivial = True


async def c23_cancel(env: Env) -> None:
    """Cancelling waits, at every moment, does not stop the watcher."""
    rng = env.rng
    script = Script(env, lossy=rng.random() < 0.5, some=True)
    watcher = script.watcher
    bell = Event(name="bell")

    async def wait(how: str) -> None:
        if how == "ready":
            await watcher.ready()
        elif how == "receive":
            script.got(await watcher.receive())
        elif how == "iterate":
            async for msg in watcher:
                script.got(msg)
        else:
            async for sel in select(watcher, bell):
                if selected_from(sel, watcher):
                    env.require(sel.exception is None, "unexpected-error", lambda: f"{sel.exception!r}")
                    script.got(sel.message)
                elif selected_from(sel, bell) and rng.random() < 0.7:
                    env.cov["left_select"] += 1
                    return

    for _ in range(rng.randint(1, 8)):
        how = rng.choice(("ready", "receive", "iterate", "select"))
        task = env.spawn(wait(how), "wait")
        for _ in range(rng.choice((0, 0, 1, 2))):
            await env.pause()
            if rng.random() < 0.6:
                script.batch(must=not script.os.lossy)
        if rng.random() < 0.6:
            await env.pause()
        else:
            await env.yields(rng.choice((0, 1, 2)))
        if how == "select" and rng.random() < 0.6:
            bell.set()
            await env.yields(rng.choice((0, 1, 2, 4)))
        done = task.done()
        env.ev("cancel", how, done)
        task.cancel()
        env.cov["cancelled_waits"] += not done
        waited = rng.random() < 0.6
        if waited:
            await asyncio.wait([task], timeout=60)
            env.require(task.done(), "cancel-lost", "a cancelled wait goes on")
        env.check()
        if rng.random() < 0.6:
            # Used again, at once: something that happens from now on is delivered.
            again = env.spawn(_drain(env, script), "again")
            await env.settle()
            env.require(not again.done(), "false-stop", "the watcher does not wait any more after a cancelled wait")
            script.batch(must=True)
            await env.settle()
            env.check()
            env.require(not script.left(), "forgotten", lambda: f"not delivered: {script.left()}")
            env.cov["reused"] += 1
            again.cancel()
            if rng.random() < 0.5:
                await asyncio.wait([again])
    await env.settle()
    env.check()
    last = env.spawn(_drain(env, script), "last")
    await env.settle()
    script.batch(must=True)
    await env.settle()
    env.check()
    env.require(not script.left(), "forgotten", lambda: f"not delivered: {script.left()}")
    script.os.end()
    await asyncio.wait([last], timeout=60)
    env.check()
    env.require(last.done(), "stop-lost", "the consumer was not stopped")
    await _stopped_for_good(env, script, None)
    env.nontrivial = True


async def _drain(env: Env, script: Script) -> None:
    async for msg in script.watcher:
        script.got(msg)
    env.require(script.os.ended, "false-stop", "the file watcher was stopped")


async def c23_freed(env: Env) -> None:
    """A watcher that nobody references stops watching."""
    rng = env.rng
    script = Script(env, lossy=rng.random() < 0.5, some=True)
    fake = script.os
    await _use(env, script)
    script.judge_paths()
    ref = weakref.ref(script.watcher)
    env.ev("del")
    env.cov["watching_when_freed"] += fake.still_watching()
    env.cov["undelivered_when_freed"] += bool(script.open and any(k for _, k in script.open))
    del script.watcher
    fake.failure = None  # its traceback has references
    await asyncio.sleep(0.01)
    gc.collect()
    await env.settle()
    gc.collect()
    await env.settle()
    env.require(ref() is None, "not-freed", "the file watcher is still referenced")
    env.require(
        not fake.still_watching(), "still-watching", "the files are still watched, but the watcher is gone"
    )
    env.cov["freed"] += 1
    env.nontrivial = True


async def _use(env: Env, script: Script) -> None:
    """Some use; leaves no reference behind."""
    rng = env.rng
    for _ in range(rng.choice((0, 1, 1, 2, 5))):
        how = rng.choice(("receive", "timeout", "ready", "select", "end"))
        env.cov[f"freed_after_{how}"] += 1
        if how == "end":
            if rng.random() < 0.7:
                continue
            fake = script.os
            fake.end(_failure(rng))
            env.require(await script.watcher.ready() in (True, False), "ready", "ready() is not a truth value")
            return
        if how in ("receive", "ready"):
            script.batch()
            if not script.left():
                continue
            async with asyncio.timeout(60):
                if how == "receive":
                    task = asyncio.ensure_future(script.watcher.receive())
                    await asyncio.sleep(0)
                    if script.os.lossy:
                        script.batch()
                    script.open = [(False, k) for _, k in script.open] if script.os.lossy else script.open
                    if not script.left() and script.os.lossy:
                        task.cancel()
                        await asyncio.wait([task])
                        continue
                    script.got(await task)
                    del task
                elif not script.os.lossy:
                    await script.watcher.ready()
        elif how == "timeout":
            try:
                async with asyncio.timeout(0.003):
                    while True:
                        script.open = [(False, k) for _, k in script.open]
                        script.got(await script.watcher.receive())
            except TimeoutError:
                pass
        else:
            bell = Event(name="bell")
            bell.set()
            async for sel in select(script.watcher, bell):
                if selected_from(sel, bell) or not selected_from(sel, script.watcher):
                    break
                script.open = [(False, k) for _, k in script.open]
                script.got(sel.message)
            del sel


# -- the real thing -----------------------------------------------------------------------------


class RealDir:
    """A scratch directory, and what was done in it."""

    def __init__(self, env: Env) -> None:
        self.env = env
        self.root = pathlib.Path(tempfile.mkdtemp(prefix="mon-files-"))
        self.n = 0
        self.wanted: set[Key] = set()
        self.touched: set[str] = set()
        self.old: list[pathlib.Path] = []
        self.dirs: list[pathlib.Path] = []

    def add_dir(self) -> pathlib.Path:
        path = self.root / f"d{len(self.dirs)}"
        path.mkdir()
        if self.env.rng.random() < 0.3:
            # Seen through a link.
            link = self.root / f"link{len(self.dirs)}"
            link.symlink_to(path)
            path = link
        self.dirs.append(path)
        for i in range(8):
            old = path / self.name(f"old{i}")
            old.write_text("x")
            self.old.append(old)
        if self.env.rng.random() < 0.3:
            (path / "sub").mkdir()
        return path

    def name(self, plain: str) -> str:
        if self.env.rng.random() < 0.6:
            return plain
        odd = self.env.rng.choice([n for n in ODD_NAMES if "/" not in n and n.count("{}") == 1])
        return odd.format(plain)

    def op(self) -> None:
        """One change; each file changes only once, so the report cannot be ambiguous."""
        rng = self.env.rng
        self.n += 1
        kind = rng.choice(("create", "modify", "delete"))
        live = [p for p in self.old if str(p) not in self.touched]
        if kind == "create" or not live:
            where = rng.choice(self.dirs)
            if (where / "sub").exists() and rng.random() < 0.5:
                where = where / "sub"
            path = where / self.name(f"new{self.n}")
            key = (EventType.CREATE.value, str(path))
            self.touched.add(str(path))
            if rng.random() < 0.2:
                path.mkdir()
            else:
                path.write_text("created")
        elif kind == "modify":
            path = rng.choice(live)
            key = (EventType.MODIFY.value, str(path))
            self.touched.add(str(path))
            with open(path, "a", encoding="utf-8") as file:
                file.write("more")
        else:
            path = rng.choice(live)
            key = (EventType.DELETE.value, str(path))
            self.touched.add(str(path))
            path.unlink()
        self.env.ev("op", kind, path.name)
        self.env.cov["real_ops"] += 1
        self.wanted.add(key)

    def close(self) -> None:
        assert str(self.root).startswith(tempfile.gettempdir() + "/mon-files-")
        shutil.rmtree(self.root, ignore_errors=True)


async def _until(cond: Callable[[], bool], what: str | Callable[[], str], limit: float = 20.0) -> None:
    loop = asyncio.get_running_loop()
    end = loop.time() + limit
    while not cond():
        if loop.time() > end:
            raise Violation("timeout", f"{what if isinstance(what, str) else what()} (waited {limit:.0f} s)")
        await asyncio.sleep(0.01)


def _judge_real(watch: RealWatch, values: set[Any], got: list[Key], done: bool) -> None:
    """Exactly what the operating system reported, as far as selected."""
    reported = collections.Counter((change, path) for change, path in watch.seen if change in values)
    have = collections.Counter(got)
    extra = have - reported
    if extra:
        raise Violation("duplicate-or-phantom", f"delivered but not reported by the operating system: {dict(extra)}")
    missing = reported - have
    if done and missing:
        raise Violation("lost", f"reported by the operating system but never delivered: {dict(missing)}")


async def real_changes(env: Env) -> None:
    """Real files."""
    rng = env.rng
    box = RealDir(env)
    watch = RealWatch.current = RealWatch()
    try:
        paths: list[Any] = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            paths.append(box.add_dir())
        if rng.random() < 0.2:
            # Single files.
            paths = [p for p in box.old if p.parent in box.dirs][:3]
            box.old = list(paths)
            box.dirs = []
        paths = [str(p) if rng.random() < 0.5 else p for p in paths]
        types, given = _types(env, True)
        values = {t.value for t in types}
        env.ev("real", len(paths), [t.name for t in types])
        watcher = _build(env, paths, types, given)
        got: list[Key] = []
        state = {"waits": False, "stop": False}
        cancels = rng.random() < 0.4

        async def consume() -> None:
            while not state["stop"]:
                if cancels and rng.random() < 0.4:
                    # A wait that is cancelled.
                    state["waits"] = False
                    try:
                        async with asyncio.timeout(rng.choice((0, 0.01, 0.08))):
                            got.append(_key(await watcher.receive()))
                    except TimeoutError:
                        env.cov["real_cancels"] += 1
                style = rng.choice(("receive", "iterate", "ready"))
                try:
                    if style == "receive":
                        state["waits"] = True
                        got.append(_key(await watcher.receive()))
                    elif style == "iterate":
                        state["waits"] = True
                        async for msg in watcher:
                            got.append(_key(msg))
                            break
                    else:
                        state["waits"] = True
                        await watcher.ready()
                        await watcher.ready()
                        got.append(_key(watcher.consume()))
                except ReceiverStoppedError as exc:
                    raise Violation("false-stop", f"the watcher stopped: {exc.__cause__!r}") from exc
                if cancels:
                    state["waits"] = False
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.choice((0, 0.01, 0.1)))

        runner = env.spawn(consume(), "consumer")
        await _until(lambda: watch.opened > watch.closed or runner.done(), "watching did not begin")
        env.check()
        for _ in range(rng.randint(2, 8)):
            if cancels:
                # Only what happens while somebody waits for sure has to be reported.
                await _until(
                    lambda: runner.done() or (state["waits"] and watch.opened == watch.closed + 1),
                    "nobody watches the files, but a receive() is pending",
                )
            if not box.dirs and all(str(p) in box.touched for p in box.old):
                break
            env.check()
            if not box.dirs:
                live = [p for p in box.old if str(p) not in box.touched]
                path = rng.choice(live)
                box.touched.add(str(path))
                with open(path, "a", encoding="utf-8") as file:
                    file.write("more")
                env.cov["real_ops"] += 1
                box.wanted.add((EventType.MODIFY.value, str(path)))
            else:
                box.op()
            await asyncio.sleep(rng.choice((0, 0, 0.005, 0.06, 0.15)))
            if cancels:
                await _until(
                    lambda: runner.done() or {w for w in box.wanted if w[0] in values} <= set(got),
                    "changes made while a receive() was pending were not delivered",
                )
        want = {w for w in box.wanted if w[0] in values}
        await _until(
            lambda: runner.done() or want <= set(got),
            lambda: f"not delivered: {sorted(map(str, want - set(got)))}, reported: {sorted(map(str, watch.seen))}",
        )
        env.check()
        env.require(not runner.done(), "false-stop", "the consumer has ended")
        await asyncio.sleep(0.12)
        await _until(
            lambda: not (collections.Counter(w for w in watch.seen if w[0] in values) - collections.Counter(got)),
            "changes reported by the operating system were not delivered",
        )
        state["stop"] = True
        runner.cancel()
        await asyncio.wait([runner], timeout=40)
        env.require(runner.done(), "cancel-lost", "a cancelled receive() goes on")
        env.check()
        _judge_real(watch, values, got, True)
        allowed = box.touched | {str(p.parent) for p in box.old} | {str(pathlib.Path(t).parent) for t in box.touched}
        for key in got:
            env.require(key[0] in values, "unselected", f"{key} was delivered")
            env.require(key[1] in allowed, "phantom", f"{key} was delivered, but nothing happened there")
        env.cov["real_delivered"] += len(got)
        env.cov["real_runs"] += 1
        env.nontrivial = bool(got)
    finally:
        RealWatch.current = None
        box.close()


async def real_life(env: Env) -> None:
    """Real watchers: missing paths, cancellation, re-use, and the end."""
    rng = env.rng
    box = RealDir(env)
    watch = RealWatch.current = RealWatch()
    try:
        where = box.add_dir()
        types, given = list(ALL_TYPES), set(ALL_TYPES)
        if rng.random() < 0.25:
            # A path that does not exist.
            watcher = _build(env, [box.root / "missing"] + ([where] if rng.random() < 0.3 else []), types, given)
            env.cov["real_missing"] += 1
            async with asyncio.timeout(40):
                if rng.random() < 0.5:
                    stops = 0
                    async for sel in select(watcher):
                        assert selected_from(sel, watcher)
                        stops += sel.was_stopped
                        env.require(
                            sel.exception is not None and isinstance(sel.exception.__cause__, FileNotFoundError),
                            "cause", f"{sel.exception!r}",
                        )
                    env.require(stops == 1, "select-stops", f"select() reported the stop {stops} times")
                env.require(await watcher.ready() is False, "ready", "ready() is not False for a missing path")
                try:
                    await watcher.receive()
                except ReceiverStoppedError as exc:
                    env.require(isinstance(exc.__cause__, FileNotFoundError), "cause", f"{exc.__cause__!r}")
                else:
                    raise Violation("revived", "received from a missing path")
            (box.root / "missing").mkdir()
            env.require(await watcher.ready() is False, "revived", "not stopped for good")
            env.nontrivial = True
            return
        watcher = _build(env, [where], types, given)
        for _ in range(rng.randint(1, 3)):
            await _leave(env, watcher)
            # Used again at once.
            task = asyncio.ensure_future(watcher.receive())
            await _until(
                lambda: task.done() or (watch.opened == watch.closed + 1 and watch.threads > 0),  # noqa: B023
                "nobody watches the files, but a receive() is pending",
            )
            await asyncio.sleep(0.06)
            if task.done():
                _expect(task)
            path = where / f"again{rng.randrange(10**9)}"
            path.write_text("x")
            seen = set()
            end = asyncio.get_running_loop().time() + 40
            while (EventType.CREATE.value, str(path)) not in seen:
                done, _ = await asyncio.wait([task], timeout=end - asyncio.get_running_loop().time())
                env.require(bool(done), "forgotten", f"the creation of {path.name} was not delivered")
                seen.add(_expect(task))
                task = asyncio.ensure_future(watcher.receive())
            env.cov["real_reused"] += 1
            task.cancel()
            if rng.random() < 0.5:
                await asyncio.wait([task], timeout=40)
        await asyncio.wait([task], timeout=40)
        if rng.random() < 0.5:
            # Goes away while it watches (it waits for the next change nowhere).
            task = asyncio.ensure_future(watcher.receive())
            await _until(lambda: watch.opened > watch.closed or task.done(), "watching did not begin")
            (where / "last").write_text("x")
            await asyncio.wait([task], timeout=40)
            _expect(task)
            env.cov["real_freed_watching"] += 1
        del task
        ref = weakref.ref(watcher)
        del watcher
        gc.collect()
        await asyncio.sleep(0)
        gc.collect()
        env.require(ref() is None, "not-freed", "the file watcher is still referenced")
        await _until(
            lambda: watch.opened == watch.closed and watch.threads == 0,
            "the files are still watched, but the watcher is gone",
        )
        env.cov["real_freed"] += 1
        env.nontrivial = True
    finally:
        RealWatch.current = None
        box.close()


def _expect(task: asyncio.Task[Any]) -> Key:
    exc = None if task.cancelled() else task.exception()
    if exc is not None:
        raise Violation("false-stop", f"receive() raised {exc!r} because of {exc.__cause__!r}") from exc
    return _key(task.result())


async def _leave(env: Env, watcher: FileWatcher) -> None:
    """A wait that is left in some way."""
    rng = env.rng
    how = rng.choice(("timeout", "cancel", "select", "ready"))
    env.cov[f"real_left_{how}"] += 1
    delay = rng.choice((0, 0.001, 0.03, 0.1))
    if how == "timeout":
        try:
            async with asyncio.timeout(delay):
                while True:
                    await watcher.receive()
        except TimeoutError:
            pass
    elif how == "select":
        bell = Event(name="bell")
        asyncio.get_running_loop().call_later(delay, bell.set)
        async for sel in select(watcher, bell):
            env.require(not sel.was_stopped, "false-stop", f"{sel.exception!r}")
            if selected_from(sel, bell) or not selected_from(sel, watcher):
                break
    else:
        task = asyncio.ensure_future(watcher.receive() if how == "cancel" else watcher.ready())
        await asyncio.sleep(delay)
        task.cancel()
        if rng.random() < 0.5:
            await asyncio.wait([task], timeout=40)


async def long_files(env: Env) -> None:
    """Hundreds of batches, many of them with nothing that is watched."""
    rng = env.rng
    script = Script(env, lossy=False)
    rx = Rx(env, script.watcher, "root", lambda _rx, msg: script.got(msg), None)
    runner = env.spawn(rx.run(rng.choice((Rx.PLAIN, Rx.ALL)), 100_000), "consumer")
    for _, length in streaks(env, rng.choice((300, 1000)), 1):
        ahead = rng.choice((1, 1, 10))
        for k in range(length):
            script.batch()
            env.cov["long_batches"] += 1
            if k % ahead == 0:
                await env.yields(rng.choice((1, 2, 8)))
        await asyncio.sleep(0.1)
        await env.settle()
    script.os.end()
    for bell in rx.bells:
        bell.set()
    await asyncio.wait([runner], timeout=60)
    env.check()
    env.require(runner.done() and rx.stopped, "stop-lost", "the consumer was not stopped")
    env.require(not script.left(), "lost", lambda: f"never delivered: {script.left()}")
    env.cov["long_runs"] += 1
    env.nontrivial = True


_ASSUME = [
    "the library gets the changes from watchfiles.awatch",
    "changes made before the first wait, or between a cancelled wait and the next one, may be missed",
    "real runs: Linux inotify, files in a scratch directory, each changed once",
]
CHECKS = {
    "C22": Check(
        "C22",
        "one case = one seeded execution of a FileWatcher (any set of types, paths, styles of consumption, "
        "cancellations) on a scripted watcher that forgets nothing or forgets what happens while nobody "
        "watches, or (some cases) on real files; what is delivered is compared with what the watcher reported; "
        "non-trivial: at least two changes were delivered",
        [("script", 3, c22_script), ("busy", 2, c22_busy), ("several", 0.7, c22_several), ("long", 0.02, long_files), ("real", 1, real_changes)], 20000, 200000,
        {"delivered": 100000, "changes_unselected": 50000, "busy_batches": 2000, "cancelled_waits": 5000,
         "rest_waiting": 30000, "made_without_loop": 1000, "several_watchers": 800, "real_runs": 20, "real_delivered": 50,
         "long_batches": 10000},
        _ASSUME, frozenset({"real"}), 0.004,
    ),
    "C23": Check(
        "C23",
        "one case = one seeded execution in which the scripted watcher ends or fails at some moment, waits are "
        "cancelled and select() loops left at any moment, or the FileWatcher is dropped in some state; some "
        "cases with real files; non-trivial: always",
        [("ends", 3, c23_ends), ("select", 1, c23_select), ("cancel", 3, c23_cancel), ("freed", 1, c23_freed),
         ("real", 1, real_life)], 20000, 200000,
        {"delivered": 20000, "failed": 2000, "ended": 500, "fails_at_once": 500, "after_stop_calls": 20000,
         "late_changes": 1000, "select_stops": 1000, "cancelled_waits": 5000, "left_select": 500,
         "reused": 5000, "freed": 500, "watching_when_freed": 200, "real_missing": 5, "real_freed": 10,
         "real_freed_watching": 3, "real_reused": 20},
        _ASSUME, frozenset({"real"}), 0.004,
    ),
}
