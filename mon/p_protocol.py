"""C09-C11: the receiver protocol, stopping and cancellation, for all kinds of receivers."""

from __future__ import annotations

import asyncio
from datetime import timedelta
from typing import Any

from frequenz.channels import Error, ReceiverStoppedError, select, selected_from

from .core import Env, Violation
from .drive import Rx
from .p_long import long_cancels, long_ready, long_stopped
from .run import Check
from .tree import LeafError, TimerLeaf, Tree, Wrap


class _Result:
    """The outcome of a call made in a task."""

    def __init__(self) -> None:
        self.done = False
        self.value: Any = None
        self.exc: BaseException | None = None


def _call(env: Env, make: Any) -> tuple[_Result, asyncio.Task[Any]]:
    res = _Result()

    async def go() -> None:
        try:
            res.value = await make()
        except Exception as exc:  # pylint: disable=broad-except
            res.exc = exc
        res.done = True

    return res, env.spawn(go(), "call")


async def _disturb(env: Env, tree: Tree, p_stop: float = 0.05) -> None:
    rng = env.rng
    r = rng.random()
    if r < 0.5:
        tree.emit()
        if rng.random() < 0.7:
            await env.yields(rng.choice((1, 2, 3)))
    elif r < 0.5 + p_stop:
        alive = [x for x in tree.leaves if not x.stopped]
        if alive:
            rng.choice(alive).stop()
    elif r < 0.75:
        await env.yields(rng.choice((1, 2, 3)))
    elif r < 0.9:
        await asyncio.sleep(rng.choice((1, 1, 2, 5)) / 1000)


def _take(env: Env, tree: Tree, make: Any) -> str:
    """Call something that hands out a message and judge what it does."""
    try:
        msg = make()
    except ReceiverStoppedError:
        return "stopped"
    except LeafError as exc:
        tree.deliver_error(exc)
        return "error"
    tree.deliver(msg)
    return "message"


async def _consume(env: Env, tree: Tree) -> str:
    """Consume after a successful ready(), in one of the three ways."""
    how = env.rng.choice(("consume", "consume", "receive", "anext"))
    env.ev(how)
    if how == "consume":
        return _take(env, tree, tree.recv.consume)
    recv = tree.recv
    res, task = _call(env, recv.receive if how == "receive" else lambda: anext(recv))
    # Time stands still meanwhile.
    for _ in range(5):
        await env.yields(1)
        if res.done:
            break
    env.require(res.done, "promise-broken", f"{how}() waits although ready() returned True")
    await asyncio.wait([task])
    if isinstance(res.exc, StopAsyncIteration):
        return "stopped"
    if isinstance(res.exc, (ReceiverStoppedError, LeafError)) or res.exc is None:
        def again() -> Any:
            if res.exc is not None:
                raise res.exc
            return res.value
        return _take(env, tree, again)
    raise Violation("unexpected-error", f"{how}() raised {res.exc!r}") from res.exc


async def c09_steps(env: Env) -> None:
    rng = env.rng
    tree = Tree(env, rng.choice((0, 1, 2, 2, 3)))
    promise: bool | None = None
    for _ in range(rng.randint(5, 40)):
        await _disturb(env, tree)
        if promise is None:
            env.ev("ready?")
            res, task = _call(env, tree.recv.ready)
            if rng.random() < 0.3:
                await env.yields(rng.choice((0, 1, 2, 3)))
                if not task.done():
                    task.cancel()
                    env.cov["cancelled_ready"] += 1
                await asyncio.wait([task])
                if not res.done:
                    continue
            else:
                for _ in range(rng.randint(0, 4)):
                    await env.settle()
                    if res.done:
                        break
                    env.cov["pending_judged"] += 1
                    env.require(
                        tree.must() == 0, "held-back",
                        lambda: f"ready() of {tree.shape} waits although {tree.lost()} are available",
                    )
                    env.require(
                        not (tree.stopped() and tree.may() == 0), "stop-not-reported",
                        lambda: f"ready() of {tree.shape} waits although everything is stopped",
                    )
                    await _disturb(env, tree)
                if not res.done:
                    task.cancel()
                    env.cov["cancelled_ready"] += 1
                    await asyncio.wait([task])
                    if not res.done:
                        continue
            if res.exc is not None:
                raise Violation("ready-raised", f"ready() of {tree.shape} raised {res.exc!r}") from res.exc
            env.require(isinstance(res.value, bool), "not-a-bool", lambda: f"ready() of {tree.shape} returned {res.value!r}")
            promise = bool(res.value)
            env.ev("ready!", promise)
            env.cov["ready_true" if promise else "ready_false"] += 1
            _judge(env, tree, promise)
        else:
            for _ in range(rng.choice((0, 0, 1, 1, 2, 3))):
                if rng.random() < 0.5:
                    await _disturb(env, tree)
                res, task = _call(env, tree.recv.ready)
                for _ in range(5):
                    await env.yields(1)
                    if res.done:
                        break
                env.cov["ready_repeated"] += 1
                if not res.done:
                    raise Violation(
                        "ready-not-stable",
                        f"ready() of {tree.shape} had finished with {promise}, now it waits",
                    )
                if res.exc is not None:
                    raise Violation("ready-raised", f"repeated ready() raised {res.exc!r}")
                env.require(
                    bool(res.value) == promise, "ready-not-stable",
                    f"ready() of {tree.shape} returned {promise}, then {res.value!r}",
                )
            got = await _consume(env, tree)
            if promise:
                env.require(
                    got != "stopped", "promise-broken",
                    f"ready() of {tree.shape} returned True, but there was nothing to consume",
                )
                env.cov["promises_kept"] += 1
                promise = None
            else:
                env.require(
                    got == "stopped", "false-stop",
                    f"ready() of {tree.shape} returned False, but consuming gave a {got}",
                )
                env.cov["stops_kept"] += 1
    # Everything that was emitted comes out, then the receiver is stopped.
    tree.stop_all()
    for _ in range(10_000):
        res, task = _call(env, tree.recv.ready)
        await env.settle()
        if not res.done:
            raise Violation("stop-not-reported", f"ready() of {tree.shape} waits after all stopped")
        if res.exc is not None:
            raise Violation("ready-raised", f"ready() of {tree.shape} raised {res.exc!r}") from res.exc
        _judge(env, tree, bool(res.value))
        got = _take(env, tree, tree.recv.consume)
        env.require(
            (got == "stopped") == (not res.value), "promise-broken",
            f"ready() returned {res.value}, then: {got}",
        )
        if not res.value:
            break
    env.require(tree.must() == 0, "lost", lambda: f"never delivered: {tree.lost()}")
    env.nontrivial = env.cov["promises_kept"] >= 1 and env.cov["delivered"] >= 1


def _judge(env: Env, tree: Tree, value: bool) -> None:
    if value:
        env.require(
            tree.may() > 0, "ready-without-message",
            lambda: f"ready() of {tree.shape} returned True although nothing can be consumed",
        )
    else:
        env.require(
            tree.stopped() and tree.must() == 0, "false-stop",
            lambda: f"ready() of {tree.shape} returned False, but running: "
            f"{[x.name for x in tree.leaves if not x.stopped]}, undelivered: {tree.lost()}",
        )


async def c09_watchers(env: Env) -> None:
    """Several tasks wait for ready() of the same receiver."""
    rng = env.rng
    tree = Tree(env, rng.choice((0, 0, 1, 2)))
    calls: list[tuple[_Result, asyncio.Task[Any]]] = []
    for _ in range(rng.randint(2, 12)):
        for _ in range(rng.choice((0, 1, 2, 3))):
            calls.append(_call(env, tree.recv.ready))
            if rng.random() < 0.3:
                await env.yields(rng.choice((1, 2)))
        live = [t for _, t in calls if not t.done()]
        if live and rng.random() < 0.4:
            for task in rng.sample(live, rng.randint(1, min(2, len(live)))):
                task.cancel()
                env.cov["cancelled_ready"] += 1
        await _disturb(env, tree)
        await env.settle()
        value: bool | None = None
        for res, _ in calls:
            if res.done:
                env.require(res.exc is None, "ready-raised", lambda: f"ready() raised {res.exc!r}")  # noqa: B023
                if value is None:
                    value = bool(res.value)
                    _judge(env, tree, value)
                env.require(bool(res.value) == value, "ready-differs", "concurrent ready() calls disagree")
        pending = [t for res, t in calls if not t.done() and not res.done]
        env.cov["watchers_judged"] += len(calls)
        if pending:
            env.cov["watchers_pending"] += 1
            env.require(
                value is None, "ready-not-stable",
                lambda: f"ready() of {tree.shape} finished with {value} in one task, waits in another",  # noqa: B023
            )
            env.require(tree.must() == 0, "held-back", lambda: f"ready() of {tree.shape} waits: {tree.lost()}")
            env.require(
                not (tree.stopped() and tree.may() == 0), "stop-not-reported",
                lambda: f"ready() of {tree.shape} waits although everything is stopped",
            )
        if value is not None:
            got = await _consume(env, tree)
            env.require((got == "stopped") == (not value), "promise-broken", f"ready(): {value}, then: {got}")
            env.cov["promises_kept"] += value
        calls = [c for c in calls if not c[1].done()]
    env.nontrivial = env.cov["watchers_judged"] > 3


async def c09_merge_stop(env: Env) -> None:
    """A merged receiver is stopped, possibly while it has messages."""
    rng = env.rng
    tree = Tree(env, rng.choice((1, 1, 2)), top="merge")
    merger = tree.recv
    if rng.random() < 0.3:
        inner = tree.recv
        tree.recv = rng.choice((inner.map, lambda f: Wrap(inner)))(lambda m: m)
    steps = rng.randint(1, 25)
    promise = False
    for _ in range(steps):
        await _disturb(env, tree, 0.02)
        if rng.random() < 0.3:
            continue
        res, task = _call(env, tree.recv.ready)
        await env.yields(rng.choice((1, 2, 3)))
        if not res.done:
            task.cancel()
            await asyncio.wait([task])
        if not res.done:
            continue
        env.require(res.exc is None, "ready-raised", lambda: f"ready() raised {res.exc!r}")
        promise = bool(res.value)
        if rng.random() < 0.9:
            got = await _consume(env, tree)
            env.require(
                (got == "stopped") == (not promise), "promise-broken", f"ready(): {promise}, then: {got}"
            )
            promise = False
    pending, task = _call(env, tree.recv.ready) if rng.random() < 0.4 else (None, None)
    if pending is not None:
        await env.yields(rng.choice((0, 1, 2, 3)))
    env.ev("merger.stop")
    await merger.stop()  # type: ignore[attr-defined]
    env.cov["merge_stops"] += 1
    if pending is not None:
        await env.settle()
        env.require(pending.done, "stop-not-reported", lambda: f"ready() of {tree.shape} waits after stop()")
        env.require(pending.exc is None, "ready-raised", lambda: f"ready() raised {pending.exc!r}")
        if pending.value:
            promise = True
    for _ in range(10_000):
        if rng.random() < 0.3:
            tree.emit()
            await env.yields(2)
        env.ev("ready?")
        values = []
        for _ in range(rng.choice((1, 1, 2))):
            res, task = _call(env, tree.recv.ready)
            for _ in range(5):
                await env.yields(1)
                if res.done:
                    break
            env.require(res.done, "stop-not-reported", lambda: f"ready() of {tree.shape} waits after stop()")
            env.require(res.exc is None, "ready-raised", lambda: f"ready() raised {res.exc!r}")
            values.append(bool(res.value))
        env.require(len(set(values)) == 1, "ready-not-stable", f"{values}")
        env.require(
            values[0] or not promise, "promise-broken",
            lambda: f"ready() of {tree.shape} was True before stop() and is False after it",
        )
        got = _take(env, tree, tree.recv.consume)
        env.require(
            (got == "stopped") == (not values[0]), "promise-broken",
            lambda: f"ready() of the stopped {tree.shape} returned {values[0]}, then: {got}",
        )
        promise = False
        if not values[0]:
            break
        env.cov["fetched_after_stop"] += 1
    else:
        raise Violation("endless", "a stopped merge() delivers messages for ever")
    env.nontrivial = True


# -- C10 --------------------------------------------------------------------------------------


def _allowed(env: Env, exc: BaseException) -> None:
    env.require(
        isinstance(exc, Error), "internal-error",
        lambda: f"{type(exc).__name__} is not a frequenz.channels.Error: {exc!r}",
    )


async def _after_stop(env: Env, recv: Any, what: str) -> None:
    """One use of a receiver that has stopped and was drained."""
    how = env.rng.choice(("receive", "receive", "anext", "iterate", "ready", "ready_consume", "select"))
    env.ev("after-stop", how)
    items: list[Any] = []

    async def use() -> Any:
        if how == "receive":
            return await recv.receive()
        if how == "anext":
            return await anext(recv)
        if how == "iterate":
            async for item in recv:
                items.append(item)
            return None
        if how == "ready":
            return await recv.ready()
        if how == "ready_consume":
            env.require(not await recv.ready(), "revived", f"ready() of the stopped {what} is True")
            return recv.consume()
        n = 0
        async for sel in select(recv):
            env.require(selected_from(sel, recv), "revived", "wrong receiver selected")
            n += 1
            env.require(
                sel.was_stopped, "revived", f"select() got {sel!r:.200} from the stopped {what}"
            )
        env.require(n == 1, "select-stop", f"select() reported the stop of {what} {n} times")
        return None

    res, _task = _call(env, use)
    await env.settle()
    env.cov["after_stop"] += 1
    env.require(res.done, "blocked-after-stop", f"{how} on the stopped {what} waits")
    exc = res.exc
    if isinstance(exc, Violation):
        raise exc
    if how == "iterate":
        env.require(
            exc is None and not items, "iteration-after-stop",
            lambda: f"async for on the stopped {what}: {items!r:.100} {exc!r}",
        )
    elif how == "ready":
        env.require(
            exc is None and not res.value, "ready-after-stop",
            lambda: f"ready() of the stopped {what}: {res.value!r} {exc!r}",
        )
    elif how == "anext":
        env.require(
            isinstance(exc, StopAsyncIteration), "anext-after-stop",
            lambda: f"anext() on the stopped {what}: {exc!r} {res.value!r:.100}",
        )
    elif how in ("receive", "ready_consume"):
        env.require(
            isinstance(exc, ReceiverStoppedError), "receive-after-stop",
            lambda: f"{how} on the stopped {what}: {exc!r} {res.value!r:.100}",
        )
        if how == "receive":
            assert isinstance(exc, ReceiverStoppedError)
            env.cov["identity_checks"] += 1
            env.require(
                exc.receiver is recv, "identity",
                lambda: f"ReceiverStoppedError of {what} names {exc.receiver!r:.100}",
            )
            str(exc), repr(exc)  # must be printable
    elif exc is not None:
        _allowed(env, exc)


async def c10_stop(env: Env) -> None:
    rng = env.rng
    tree = Tree(env, rng.choice((0, 1, 2, 2, 3)))
    strict = True

    def failed(_rx: Rx, exc: Exception) -> None:
        if isinstance(exc, LeafError):
            tree.deliver_error(exc)
        else:
            raise Violation(
                "internal-error", f"{tree.shape} raised {type(exc).__name__}: {exc!r}"
            ) from exc

    def got(_rx: Rx, msg: Any) -> None:
        if strict:
            tree.deliver(msg)

    rx = Rx(env, tree.recv, "root", got, failed)
    styles = rng.choice((Rx.PLAIN, Rx.ALL, ("receive",), ("ready", "select")))
    runner = env.spawn(rx.run(styles, 10_000), "consumer")
    for _ in range(rng.randint(0, 15)):
        await _disturb(env, tree)
    if tree.mergers and rng.random() < 0.25 and not tree.shape.startswith("map"):
        # The merged receiver itself is stopped.
        env.ev("merger-stop")
        env.cov["merger_stops"] += 1
        strict = False
        await asyncio.wait_for(tree.mergers[-1].stop(), 1)
        tree.ended_by_merger = True
    else:
        alive = [x for x in tree.leaves if not x.stopped]
        rng.shuffle(alive)
        for leaf in alive:
            leaf.stop()
            if rng.random() < 0.5:
                await env.yields(rng.choice((1, 2, 4)))
    await asyncio.wait([runner], timeout=30)
    env.check()
    if not runner.done():
        for bell in rx.bells:
            bell.set()
        await env.settle()
        env.require(
            not rx.waiting, "blocked-after-stop",
            f"a consumer of {tree.shape} is still waiting after everything stopped",
        )
        runner.cancel()
        await asyncio.wait([runner])
    if not rx.stopped:
        await asyncio.wait_for(rx.drain(), 30)
    what = tree.shape + (" (after Merger.stop())" if tree.ended_by_merger else "")
    for _ in range(rng.randint(2, 8)):
        await _after_stop(env, tree.recv, what)
        if rng.random() < 0.3:
            await asyncio.sleep(rng.choice((1, 10, 1000)) / 1000)
        if rng.random() < 0.1 and tree.ended_by_merger:
            tree.emit()
    timer = tree.leaves[0]
    if len(tree.leaves) == 1 and isinstance(timer, TimerLeaf) and not tree.mergers:
        # The documented exception: a reset Timer works again.
        timer.timer.reset()
        res, _ = _call(env, tree.recv.receive)
        await asyncio.sleep(timer.ms / 1000 + 0.01)
        env.cov["timer_restarts"] += 1
        env.require(
            res.done and res.exc is None, "timer-restart", lambda: f"a reset Timer: {res.exc!r}"
        )
        timer.timer.stop()
        await asyncio.sleep(0)
        # A tick may be pending; receive() consumed the one that was.
        for _ in range(2):
            await _after_stop(env, tree.recv, what)
    env.nontrivial = env.cov["after_stop"] >= 2


# -- C11 --------------------------------------------------------------------------------------


async def c11_cancel(env: Env) -> None:
    rng = env.rng
    tree = Tree(env, rng.choice((0, 0, 1, 2, 3)))

    def failed(_rx: Rx, exc: Exception) -> None:
        if isinstance(exc, LeafError):
            tree.deliver_error(exc)
        else:
            raise Violation(
                "failed", f"after {env.cov['cancelled_waits']} cancelled waits {tree.shape} raised {exc!r}"
            ) from exc

    def got(_rx: Rx, msg: Any) -> None:
        tree.deliver(msg)

    rx = Rx(env, tree.recv, "root", got, failed)
    styles = rng.choice((("cancelled",), ("cancelled", "timed", "select"), Rx.ALL, Rx.ALL))
    rounds = rng.randint(1, 4)
    for _ in range(rounds):
        ops = rng.randint(1, 12)
        runner = env.spawn(rx.run(styles, ops), "consumer")
        for _ in range(rng.randint(1, 12)):
            r = rng.random()
            if r < 0.6:
                # Something happens, and a waiter is cancelled at nearly the same moment.
                live = [t for t in env.cancellable if not t.done()]
                if rng.random() < 0.8:
                    tree.emit()
                await env.yields(rng.choice((0, 0, 1, 1, 2, 3)))
                rng.shuffle(live)
                for task in live[: rng.choice((0, 1, 1, 2))]:
                    if not task.done():
                        env.ev("racer-cancels")
                        env.cov["cancelled_waits"] += 1
                        rx.left_behind()
                        task.cancel()
            elif r < 0.65 and len(tree.leaves) > 1:
                alive = [x for x in tree.leaves if not x.stopped]
                if len(alive) > 1:
                    rng.choice(alive).stop()
            else:
                await _disturb(env, tree, 0.0)
            if rng.random() < 0.2:
                await _rest(env, tree, rx)
        for bell in rx.bells:
            bell.set()
        await _rest(env, tree, rx)
        if not runner.done():
            runner.cancel()
            env.cov["cancelled_waits"] += 1
            await asyncio.wait([runner])
        if rx.stopped:
            break
    env.require(
        not rx.stopped or tree.stopped(), "stopped-by-cancellation",
        lambda: f"{tree.shape} reported being stopped, but "
        f"{[x.name for x in tree.leaves if not x.stopped]} are running",
    )
    # Later receives behave as if the cancelled ones had not been made.
    for _ in range(rng.randint(0, 3)):
        tree.emit()
        await env.yields(rng.choice((0, 1)))
    tree.stop_all()
    drain = env.spawn(rx.drain(), "drain")
    await env.settle()
    await asyncio.wait([drain], timeout=60)
    env.check()
    env.require(
        drain.done() and rx.stopped, "stuck",
        lambda: f"draining {tree.shape} got stuck; undelivered: {tree.lost()}",
    )
    env.require(tree.must() == 0, "lost", lambda: f"never delivered: {tree.lost()}")
    env.require(not rx.after_stop, "revived", "a message was delivered after the stop")
    env.nontrivial = env.cov["cancelled_waits"] + env.cov["timeouts"] >= 1 and env.cov["delivered"] >= 1


async def _rest(env: Env, tree: Tree, rx: Rx) -> None:
    await env.settle()
    env.cov["rest_judged"] += 1
    env.require(
        not rx.stopped or tree.stopped(), "stopped-by-cancellation",
        lambda: f"{tree.shape} reported being stopped, but "
        f"{[x.name for x in tree.leaves if not x.stopped]} are running",
    )
    if rx.waiting or (rx.loose and not rx.held and not rx.in_body):
        env.cov["rest_waiting"] += 1
        env.require(
            tree.must() == 0, "forgotten",
            lambda: f"a consumer of {tree.shape} waits although it should have {tree.lost()}",
        )


_RULE = (
    "one case = one seeded execution with one receiver: Anycast, Broadcast, Event, Timer, FileWatcher "
    "(scripted OS) or user-defined, or up to depth 3 of map() and merge() over them; sources emit "
    "messages, errors and stops at random moments; non-trivial: "
)
_ASSUME = ["one consumer per receiver (waits overlap only while a cancelled one is unwinding)",
           "watchfiles is replaced by a scripted stand-in for FileWatcher leaves"]
CHECKS = {
    "C09": Check(
        "C09", _RULE + "a promise of ready() was kept and a message was delivered",
        [("steps", 5, c09_steps), ("merge-stop", 1, c09_merge_stop), ("watchers", 1, c09_watchers), ("long", 0.02, long_ready)], 18000, 400000,
        {"ready_true": 20000, "ready_false": 4000, "ready_repeated": 20000, "promises_kept": 20000,
         "pending_judged": 10000, "delivered_timer": 2000, "delivered_file": 2000,
         "delivered_event": 2000, "errors_delivered": 1000, "merge_stops": 800,
         "long_ready": 5000}, _ASSUME,
    ),
    "C10": Check(
        "C10", _RULE + "a stopped receiver was used at least twice",
        [("stop", 1, c10_stop), ("long", 0.003, long_stopped)], 16000, 400000,
        {"after_stop": 30000, "identity_checks": 6000, "merger_stops": 500, "timer_restarts": 100,
         "long_stopped": 30000},
        _ASSUME,
    ),
    "C11": Check(
        "C11", _RULE + "a wait was cancelled or timed out and a message was delivered",
        [("cancel", 1, c11_cancel), ("long", 0.004, long_cancels)], 16000, 400000,
        {"cancelled_waits": 20000, "overlaps": 5000, "rest_waiting": 5000, "delivered_timer": 1500,
         "delivered_file": 2000, "delivered_event": 1500, "errors_delivered": 500,
         "long_cancelled": 15000}, _ASSUME,
    ),
}
_ = timedelta
