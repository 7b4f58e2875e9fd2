"""C13 and C14: merging receivers."""

from __future__ import annotations

import asyncio
import contextlib
import collections
import gc
from typing import Any

from frequenz.channels import Broadcast, Receiver, ReceiverStoppedError, merge, select, selected_from

from .core import Env, Violation, no_loop
from .drive import Rx
from .p_long import long_merge
from .p_scale import wide_merge
from .run import Check
from .tree import LEAVES, Leaf, LeafError, Script, ScriptLeaf, Tagged, Tree

_FLAT = ("broadcast", "anycast", "event", "user", "twin")


def _rx(env: Env, tree: Tree) -> Rx:
    def failed(_rx: Rx, exc: Exception) -> None:
        if isinstance(exc, LeafError):
            tree.deliver_error(exc)
        else:
            raise Violation("unexpected-error", f"{tree.shape} raised {exc!r}") from exc

    return Rx(env, tree.recv, "root", lambda _r, msg: tree.deliver(msg) and None, failed)


def _judge(env: Env, tree: Tree, rx: Rx) -> None:
    """Judge the state at a moment of rest."""
    env.cov["rest_judged"] += 1
    if rx.stopped:
        env.require(
            tree.stopped() and tree.must() == 0, "stopped-early",
            lambda: f"{tree.shape} stopped, but running: "
            f"{[x.name for x in tree.leaves if not x.stopped]}, undelivered: {tree.lost()}",
        )
        return
    if rx.waiting or (rx.loose and not rx.held and not rx.in_body):
        env.cov["rest_waiting"] += 1
        env.require(
            tree.must() == 0, "held-back",
            lambda: f"the consumer of {tree.shape} waits although there is {tree.lost()}",
        )
        env.require(
            not (tree.stopped() and tree.may() == 0), "stop-lost",
            lambda: f"the consumer of {tree.shape} waits although all sources have stopped",
        )


async def c13_flow(env: Env) -> None:
    rng = env.rng
    widths = rng.choice(((1, 2, 2, 3, 4), (1, 2, 3), (5, 8, 12)))
    if rng.random() < 0.01:
        widths = (40, 120)
        env.cov["crowds"] += 1
    depth = 1 if widths[0] >= 5 else rng.choice((1, 1, 2, 3))
    kinds = rng.choice((tuple(LEAVES), _FLAT, ("user", "twin"), ("broadcast",)))
    tree = Tree(env, depth, kinds, errors=rng.random() < 0.3, top="merge", widths=widths)
    # Things may have happened before the first wait (and before the tasks run).
    for _ in range(rng.choice((0, 0, 2, 5))):
        tree.emit()
    if rng.random() < 0.1:
        rng.choice(tree.leaves).stop()
    rx = _rx(env, tree)
    styles = rng.choice((("iterate",), Rx.PLAIN, Rx.PLAIN, Rx.ALL))
    runner = env.spawn(rx.run(styles, 100_000), "consumer")
    for _ in range(rng.randint(3, 40)):
        r = rng.random()
        if r < 0.55:
            for _ in range(rng.choice((1, 1, 2, 6))):
                tree.emit()
        elif r < 0.62:
            alive = [x for x in tree.leaves if not x.stopped]
            if alive:
                rng.choice(alive).stop()
                env.cov["source_stops"] += 1
        elif r < 0.75:
            if rng.random() < 0.7:
                await asyncio.sleep(0.006)
            await env.settle()
            _judge(env, tree, rx)
        else:
            await env.pause()
    # The sources stop one by one; those that are left go on.
    alive = [x for x in tree.leaves if not x.stopped]
    rng.shuffle(alive)
    for leaf in alive:
        if rng.random() < 0.5:
            for _ in range(rng.choice((1, 2, 4))):
                if leaf.can_emit():
                    leaf.emit()
        if rng.random() < 0.4:
            await env.settle()
            _judge(env, tree, rx)
        leaf.stop()
        env.cov["source_stops"] += 1
        if rng.random() < 0.5:
            await env.pause()
    await asyncio.sleep(1)
    for bell in rx.bells:
        bell.set()
    await asyncio.wait([runner], timeout=60)
    env.check()
    env.require(
        runner.done() and rx.stopped, "stop-lost",
        lambda: f"{tree.shape} does not stop; undelivered {tree.lost()}",
    )
    _judge(env, tree, rx)
    env.require(not rx.after_stop, "revived", "a message was delivered after the stop")
    env.nontrivial = env.cov["delivered"] >= 2


# -- C14 --------------------------------------------------------------------------------------


class Endless(Script):
    """Always has a message (until it is stopped)."""

    def __init__(self, num: int, yields: int) -> None:
        super().__init__()
        self.num = num
        self.yields = yields
        self.count = 0
        self.ok = False

    async def ready(self) -> bool:
        for _ in range(self.yields):
            await asyncio.sleep(0)
        self.ok = not self.stopped
        return self.ok

    def consume(self) -> Any:
        if self.stopped:
            raise ReceiverStoppedError(self)
        self.count += 1
        return (self.num, self.count)


async def c14_fair(env: Env) -> None:
    """Several sources are always ready."""
    rng = env.rng
    n = rng.choice((2, 2, 3, 4, 6, 10))
    sources: list[Receiver[Any]] = []
    total = 60 * n
    kind = rng.choice(("endless", "broadcast", "mixed"))
    from frequenz.channels import Broadcast  # pylint: disable=import-outside-toplevel

    for i in range(n):
        if kind == "endless" or (kind == "mixed" and rng.random() < 0.5):
            sources.append(Endless(i, 0))
        else:
            chan: Broadcast[Any] = Broadcast(name=f"b{i}")
            recv = chan.new_receiver(limit=total + 10)
            tx = chan.new_sender()
            for k in range(total + 5):
                await tx.send((i, k + 1))
            sources.append(recv)
            env.keep.append((chan, tx))
    if rng.random() < 0.3:
        silent: Broadcast[Any] = Broadcast(name="silent")
        sources.append(silent.new_receiver())
        env.keep.append(silent)
    recv = merge(*sources)
    if rng.random() < 0.3:
        recv = merge(recv)  # type: ignore[assignment]
    last = [0] * n
    seen = [0] * n
    bound = 10 * n + 20
    how = rng.choice(("receive", "iterate", "ready", "select"))
    pos = 0

    def got(msg: Any) -> None:
        nonlocal pos
        i, k = msg
        pos += 1
        env.require(k == seen[i] + 1, "order", f"source {i}: {k} after {seen[i]}")
        seen[i] = k
        last[i] = pos
        for j in range(n):
            gap = pos - last[j]
            env.cov["max_gap"] = max(env.cov["max_gap"], gap)
            env.require(
                gap <= bound, "starved",
                lambda j=j, gap=gap: f"source {j} of {n} ({kind}) got nothing in {gap} deliveries",  # type: ignore[misc]
            )

    async def run() -> None:
        while pos < 40 * n:
            if how == "receive":
                got(await recv.receive())
            elif how == "ready":
                await recv.ready()
                got(recv.consume())
            elif how == "iterate":
                async for msg in recv:
                    got(msg)
                    if pos % 7 == 0:
                        break
            else:
                async for sel in select(recv):
                    assert selected_from(sel, recv)
                    got(sel.message)
                    if pos % 7 == 0:
                        break
            if rng.random() < 0.3:
                await env.pause()

    await run()
    env.cov["fair_runs"] += 1
    env.cov["fair_deliveries"] += pos
    env.cov["max_gap"] = 0  # (the bound was checked; sums of maxima mean nothing)
    for src in sources:
        if isinstance(src, Endless):
            src.stopped = True
    if hasattr(recv, "stop"):
        await recv.stop()
    env.nontrivial = True


async def c14_errors(env: Env) -> None:
    """Errors at one source do not affect the others."""
    rng = env.rng
    n = rng.choice((1, 2, 3, 5))
    leaves: list[Leaf] = []
    parts: list[Receiver[Any]] = []
    raised: collections.Counter[tuple[str, Any]] = collections.Counter()
    extra: list[tuple[Leaf, Any]] = []

    class Failing(Script):
        """A receiver whose ready() or consume() raises now and then."""

        leaf: Leaf

        async def ready(self) -> bool:
            ok = await super().ready()
            if ok and rng.random() < 0.2:
                env.cov["ready_errors"] += 1
                err = LeafError(self.leaf, ("ready", len(extra)))
                extra.append((self.leaf, err.key))
                raise err
            return ok

    for i in range(n):
        leaf: Leaf
        if rng.random() < 0.4:
            leaf = ScriptLeaf(env, f"f{i}")
            leaf.script = Failing()
            leaf.script.leaf = leaf
            leaf.recv = leaf.script
        else:
            leaf = LEAVES[rng.choice(_FLAT)](env, f"s{i}")
        leaf.prefetched = True
        leaves.append(leaf)
        part = leaf.recv
        if rng.random() < 0.7 or leaf.kind == "event":
            def func(msg: Any, leaf: Leaf = leaf) -> Any:
                if leaf.kind != "event" and rng.random() < 0.25:
                    raise LeafError(leaf, leaf.key_of(msg))
                return (leaf, msg)
            part = part.map(func)
        parts.append(part)
    recv = merge(*parts)

    def got(_rx: Rx, msg: Any) -> None:
        if isinstance(msg, tuple) and len(msg) == 2 and isinstance(msg[0], Leaf):
            msg[0].deliver(msg[1])
            return
        for leaf in leaves:
            if leaf.kind != "event" and leaf.knows(msg):  # type: ignore[attr-defined]
                leaf.deliver(msg)
                return
        raise Violation("phantom", f"{msg!r:.80}")

    def failed(_rx: Rx, exc: Exception) -> None:
        if not isinstance(exc, LeafError):
            raise Violation("unexpected-error", f"raised {exc!r}") from exc
        env.cov["errors_delivered"] += 1
        raised[(exc.leaf.name, exc.key)] += 1
        env.require(
            raised[(exc.leaf.name, exc.key)] == 1, "error-twice", f"{exc} was raised twice"
        )
        if not (isinstance(exc.key, tuple) and exc.key[0] == "ready"):
            exc.leaf.deliver_key(exc.key)

    rx = Rx(env, recv, "root", got, failed)
    runner = env.spawn(rx.run(rng.choice((Rx.PLAIN, Rx.ALL)), 100_000), "consumer")

    def judge() -> None:
        env.cov["rest_judged"] += 1
        env.require(not rx.stopped or all(x.stopped for x in leaves), "stopped-early", "stopped by an error")
        if rx.waiting or (rx.loose and not rx.held and not rx.in_body):
            env.require(
                sum(x.must() for x in leaves) == 0, "held-back",
                lambda: f"waits; undelivered {[(x.name, x.emitted[x.n_delivered:]) for x in leaves]}",
            )

    for _ in range(rng.randint(5, 40)):
        able = [x for x in leaves if x.can_emit()]
        r = rng.random()
        if r < 0.6 and able:
            rng.choice(able).emit()
        elif r < 0.63 and len(able) > 1:
            rng.choice(able).stop()
        elif r < 0.8:
            await env.settle()
            judge()
        else:
            await env.pause()
    for leaf in leaves:
        if not leaf.stopped:
            leaf.stop()
    await asyncio.sleep(1)
    for bell in rx.bells:
        bell.set()
    await asyncio.wait([runner], timeout=60)
    env.check()
    env.require(runner.done() and rx.stopped, "stop-lost", "the merged receiver does not stop")
    for leaf in leaves:
        env.require(leaf.must() == 0, "lost", lambda: f"{leaf.name}: {leaf.emitted[leaf.n_delivered:]}")
    for leaf, key in extra:
        env.require(
            raised[(leaf.name, key)] == 1, "error-lost", f"the error {key} of {leaf.name}.ready() was not raised"
        )
    env.nontrivial = env.cov["errors_delivered"] >= 1


def _foreign(env: Env, before: set[Any]) -> list[str]:
    """Tasks that were neither made by the workload nor there before."""
    mine = set(map(id, env.tasks)) | set(map(id, before))
    return [
        repr(t)[:160] for t in asyncio.all_tasks()
        if id(t) not in mine and not t.done() and t is not asyncio.current_task()
    ]


async def c14_stop(env: Env) -> None:
    """stop() at any moment, from anywhere."""
    rng = env.rng
    await asyncio.sleep(0)
    before = asyncio.all_tasks()
    tree = Tree(env, 1, _FLAT, errors=False, top="merge", widths=(1, 2, 3, 5))
    merger = tree.mergers[0]
    recv: Receiver[Any] = merger
    top_map = rng.random() < 0.3
    if top_map:
        recv = merger.map(lambda msg: msg)
    n = len(tree.leaves)
    got: list[Any] = []
    state = {"stopping": False, "stopped": False, "after": 0, "emitted": 0}
    how = rng.choice(("receive", "anext", "iterate", "ready", "select", "none"))
    inside = rng.random() < 0.3
    result: dict[str, Any] = {}

    def note(msg: Any) -> None:
        tree.deliver(msg)
        got.append(msg)
        if state["stopped"]:
            state["after"] += 1

    async def consumer() -> None:
        try:
            while True:
                if inside and state["stopping"] is False and len(got) >= 2:
                    await do_stop()
                try:
                    if how == "receive":
                        msg = await recv.receive()
                    elif how == "anext":
                        msg = await anext(recv)
                    elif how == "iterate":
                        async for msg in recv:
                            note(msg)
                            if rng.random() < 0.3:
                                await env.pause()
                            if inside and not state["stopping"] and len(got) >= 2:
                                await do_stop()
                        result["end"] = "stop"
                        return
                    elif how == "ready":
                        if not await recv.ready():
                            result["end"] = "stop"
                            return
                        if rng.random() < 0.3:
                            await env.pause()
                        msg = recv.consume()
                    else:
                        async for sel in select(recv):
                            assert selected_from(sel, recv)
                            if sel.was_stopped:
                                result["end"] = "stop"
                                return
                            note(sel.message)
                            if inside and not state["stopping"] and len(got) >= 2:
                                await do_stop()
                        return
                except (ReceiverStoppedError, StopAsyncIteration):
                    result["end"] = "stop"
                    return
                except LeafError as exc:
                    tree.deliver_error(exc)
                    continue
                note(msg)
                if rng.random() < 0.4:
                    await env.pause()
        except asyncio.CancelledError:
            result["end"] = "cancelled"
            raise

    async def do_stop() -> None:
        state["stopping"] = True
        env.ev("stop()")
        env.cov["stops"] += 1
        await asyncio.wait_for(merger.stop(), 5)
        env.ev("stopped")
        if len(tree.mergers) == 1 and how != "select":
            # It has waited for its tasks.
            left = _foreign(env, before)
            env.require(not left, "task-leak", lambda: f"{len(left)} tasks are left when stop() returns: {left[:2]}")
            env.cov["stop_task_checks"] += 1
        state["stopped"] = True
        state["emitted"] = sum(len(x.emitted) for x in tree.leaves)

    async def late_stop(k: int) -> None:
        await env.yields(k)
        with contextlib.suppress(asyncio.CancelledError):
            await do_stop()

    runner = env.spawn(consumer(), "consumer") if how != "none" else None
    for _ in range(rng.randint(0, 15)):
        if rng.random() < 0.6:
            tree.emit()
        else:
            await env.pause()
    if not state["stopping"]:
        if rng.random() < 0.5:
            await env.settle()
            if runner is not None and not runner.done():
                env.cov["stopped_while_waiting"] += 1
        if rng.random() < 0.3:
            tree.emit()
            await env.yields(rng.choice((0, 1, 2)))
        if not state["stopping"]:
            crowd = [env.spawn(late_stop(k), f"stopper{k}") for k in range(rng.choice((0, 0, 1, 2)))]
            if crowd:
                env.cov["crowded_stops"] += 1
                await env.yields(rng.choice((1, 1, 2, 3)))
                if rng.random() < 0.4:
                    # Whoever gives up does not spoil it for the others.
                    crowd[0].cancel()
                    await env.yields(rng.choice((0, 0, 1)))
            await do_stop()
    # Nothing that comes from now on may be delivered.
    while not state["stopped"]:
        await asyncio.sleep(0.001)
    limits = {x.name: len(x.emitted) for x in tree.leaves if x.kind != "event"}
    for _ in range(rng.choice((0, 2))):
        tree.emit()
        await env.pause()
    if runner is not None:
        await asyncio.wait([runner], timeout=5)
        env.check()
        env.require(
            runner.done(), "stop-lost", f"the consumer ({how}) still waits after stop()"
        )
        env.require(
            result.get("end") == "stop", "not-an-ordinary-stop",
            f"the consumer ({how}) ended with {result.get('end', runner)}",
        )
    # Drain what was fetched; then it is stopped for good, in every way.
    for _ in range(100):
        active = None
        try:
            if rng.random() < 0.5:
                active = await asyncio.wait_for(recv.ready(), 5)
                note(recv.consume())
                env.require(active, "revived", "ready() was False, but consume() delivered")
            else:
                note(await asyncio.wait_for(recv.receive(), 5))
        except ReceiverStoppedError:
            env.require(not active, "stopped-early", "ready() was True, but consume() says stopped")
            break
        except LeafError as exc:
            tree.deliver_error(exc)
    else:
        raise Violation("stop-lost", "messages go on after stop()")
    env.cov["delivered_after_stop"] += state["after"]
    env.require(
        state["after"] <= n, "more-than-fetched",
        f"{state['after']} messages of {n} receivers were delivered after stop()",
    )
    for leaf in tree.leaves:
        if leaf.name in limits:
            env.require(
                leaf.n_delivered <= limits[leaf.name], "fetched-after-stop",
                f"{leaf.name} delivered something that was sent after stop()",
            )
    if rng.random() < 0.3:
        await asyncio.wait_for(merger.stop(), 5)
    env.require(not await asyncio.wait_for(recv.ready(), 5), "revived", "ready() is True after stop()")
    async for msg in recv:
        raise Violation("revived", f"{msg!r:.80}")
    await env.settle()
    left = _foreign(env, before)
    env.require(not left, "task-leak", lambda: f"{len(left)} tasks are left after stop(): {left[:2]}")
    env.cov["task_checks"] += 1
    if rng.random() < 0.5:
        # The sources go on without the merged receiver.
        await _direct(env, tree)
    env.nontrivial = True


async def _direct(env: Env, tree: Tree) -> None:
    """Read the rest from the merged receivers themselves."""
    for leaf in tree.leaves:
        if not leaf.can_emit() or leaf.kind == "event":
            continue
        leaf.emit()
        await env.settle()
        for _ in range(1000):
            try:
                msg = await asyncio.wait_for(leaf.recv.receive(), 5)
                key = leaf.key_of(msg.inner if isinstance(msg, Tagged) else msg)
            except LeafError as exc:
                key = exc.key
            # What the merger had fetched is gone with it; the rest comes in order.
            env.require(
                key in leaf.emitted[leaf.n_delivered:], "order",
                f"{leaf.name} delivered {key} again, after {leaf.emitted[:leaf.n_delivered][-3:]}",
            )
            leaf.n_delivered = leaf.emitted.index(key) + 1
            if not leaf.must():
                break
        env.cov["sources_reused"] += 1


async def c14_abandon(env: Env) -> None:
    """A merged receiver that nobody references any more, or that is exhausted."""
    rng = env.rng
    await asyncio.sleep(0)
    before = asyncio.all_tasks()
    exhaust = rng.random() < 0.3
    kinds = _FLAT
    leaves = [LEAVES[rng.choice(kinds)](env, f"l{i}") for i in range(rng.choice((1, 2, 3, 6)))]

    async def use() -> None:
        recv: Any = merge(*[x.recv for x in leaves])
        if rng.random() < 0.3:
            recv = merge(recv)
        if rng.random() < 0.3:
            recv = recv.map(lambda msg: msg)
        for _ in range(rng.choice((0, 0, 1, 4, 8))):
            r = rng.random()
            if r < 0.5:
                rng.choice(leaves).emit()
            elif r < 0.8:
                try:
                    async with asyncio.timeout(0.001):
                        await (recv.receive() if rng.random() < 0.7 else recv.ready())
                except (TimeoutError, LeafError):
                    pass
            elif r < 0.9:
                async for sel in select(recv, asyncio_bell := _bell()):
                    if selected_from(sel, recv) or selected_from(sel, asyncio_bell):
                        break
            else:
                await env.pause()
        if exhaust:
            for leaf in leaves:
                leaf.stop()
            while True:
                try:
                    await asyncio.wait_for(recv.receive(), 5)
                except ReceiverStoppedError:
                    break
                except LeafError:
                    pass
            env.cov["exhausted"] += 1
            await env.settle()
            left = _foreign(env, before)
            env.require(not left, "task-leak", lambda: f"left after the stop: {left[:2]}")
        env.cov["abandoned"] += 1

    await use()
    for _ in range(3):
        # (One round per level of nesting.)
        gc.collect()
        await asyncio.sleep(0.01)
        # What the loop's exception handler was told must not keep anything alive.
        env.loop.contexts.clear()
    left = _foreign(env, before)
    env.require(
        not left, "task-leak",
        lambda: f"{len(left)} tasks are left by an abandoned merged receiver: {left[:2]}",
    )
    env.cov["task_checks"] += 1
    env.nontrivial = True


def _bell() -> Any:
    from frequenz.channels.event import Event  # pylint: disable=import-outside-toplevel

    bell = Event()
    bell.set()
    return bell


async def c14_afterlife(env: Env) -> None:
    """Merged receivers that outlive their event loop."""
    rng = env.rng
    n = rng.choice((1, 2, 5))
    how = rng.choice(("unused", "waited", "fetched", "mapped", "exhausted"))
    tidy = rng.random() < 0.5
    env.ev("afterlife", n, how, tidy)

    def other_life() -> Any:
        loop = asyncio.SelectorEventLoop()
        loop.set_exception_handler(lambda _loop, _context: None)

        async def use() -> Any:
            chans = [Broadcast[Any](name=str(i)) for i in range(n)]
            merged: Any = merge(*[chan.new_receiver() for chan in chans])
            if how == "waited":
                task = asyncio.create_task(merged.receive())
                await asyncio.sleep(0)
                await asyncio.sleep(0)
                task.cancel()
                await asyncio.wait([task])
            elif how == "fetched":
                for chan in chans:
                    await chan.new_sender().send(1)
                await merged.ready()
            elif how == "mapped":
                merged = merged.map(str)
            elif how == "exhausted":
                for chan in chans:
                    await chan.close()
                async for _ in merged:
                    pass
            return merged

        merged = loop.run_until_complete(use())
        if tidy:
            for task in asyncio.all_tasks(loop):
                task.cancel()
            loop.run_until_complete(asyncio.sleep(0))
        loop.close()
        return merged

    with no_loop():
        merged = other_life()
        env.require(str(merged) != "", "text", "no text")
        # An exception of its finalizer is noticed by the runner.
        del merged
        gc.collect()
    env.cov["afterlives"] += 1
    env.nontrivial = True


async def c14_empty(env: Env) -> None:
    try:
        merge()
    except ValueError:
        env.cov["empty_rejected"] += 1
    else:
        raise Violation("empty-merge", "merge() without receivers was accepted")
    env.nontrivial = True


_ASSUME = ["each receiver is merged once and used by nobody else meanwhile",
           "watchfiles is replaced by a scripted stand-in for FileWatcher leaves"]
CHECKS = {
    "C13": Check(
        "C13",
        "one case = one seeded execution of merge() over 1-12 receivers of all kinds (nested up to depth 3, "
        "mapped, equal and false ones) with sources that emit, stay silent and stop at random moments; "
        "non-trivial: at least two messages were delivered",
        [("flow", 1, c13_flow), ("wide", 0.002, wide_merge), ("long", 0.004, long_merge)], 12000, 300000,
        {"delivered": 150000, "rest_judged": 30000, "rest_waiting": 8000, "source_stops": 20000,
         "delivered_timer": 1500, "delivered_file": 5000, "delivered_event": 5000, "delivered_twin": 5000,
         "wide_stops": 3000, "long_deliveries": 15000},
        _ASSUME,
    ),
    "C14": Check(
        "C14",
        "one case = one seeded execution: always-ready sources (fairness), failing sources (error locality), "
        "stop() from inside or outside at any moment, or an abandoned or exhausted merged receiver (tasks "
        "are counted); non-trivial: the judged situation occurred",
        [("fair", 2, c14_fair), ("errors", 4, c14_errors), ("stop", 5, c14_stop),
         ("abandon", 3, c14_abandon), ("empty", 0.05, c14_empty), ("afterlife", 0.2, c14_afterlife)], 10000, 250000,
        {"fair_runs": 1000, "errors_delivered": 10000, "ready_errors": 1000, "stops": 2500,
         "stopped_while_waiting": 600, "crowded_stops": 500, "task_checks": 3000, "exhausted": 400,
         "empty_rejected": 5, "sources_reused": 500, "afterlives": 100,
         "stop_task_checks": 2000}, _ASSUME,
    ),
}
