"""Long lives: one object goes through thousands of operations, most of them of the same sort.

The usual cases are short (tens of operations on each object), so that many of them can be run.
What only goes wrong after hundreds of messages without a consumption, or after a thousand turns,
is looked for here.
"""

from __future__ import annotations

import asyncio
import collections
from typing import Any

from frequenz.channels import Broadcast, Receiver, ReceiverStoppedError, select, selected_from

from .core import Env, Messages, Violation
from .tree import LEAVES, Leaf, LeafError, Tree

_LONG = (300, 700, 1500, 3000)
# Timers would need the clock to go on.
STEADY = tuple(k for k in LEAVES if k != "timer")


def streaks(env: Env, total: int, n: int) -> list[tuple[int, int]]:
    """Split a number of turns into streaks of one of n sorts each."""
    rng = env.rng
    out: list[tuple[int, int]] = []
    while total > 0:
        length = min(total, rng.choice((1, 3, 20, 120, 300, 700, 1200, 3000)))
        out.append((rng.randrange(n), length))
        total -= length
    return out


def _take(tree: Tree, call: Any) -> None:
    """Account for one consumption."""
    try:
        tree.deliver(call())
    except LeafError as exc:
        tree.deliver_error(exc)


# -- channels -----------------------------------------------------------------------------------


async def long_lengths(env: Env) -> None:
    """Like long_broadcast(), and the documented lengths are looked at."""
    await long_broadcast(env, True)


async def long_broadcast(env: Env, lengths: bool = False) -> None:
    """Receivers which consume nothing for a very long time, next to ones which always do."""
    rng = env.rng
    resend = rng.random() < 0.3
    chan: Broadcast[Any] = Broadcast(name="long", resend_latest=resend)
    txs = [chan.new_sender() for _ in range(rng.choice((1, 2)))]
    msgs = Messages(env, 0.1)
    recvs: list[tuple[Receiver[Any], collections.deque[Any], int]] = []
    latest: list[Any] = []

    def join() -> None:
        limit = rng.choice((1, 2, 7, 50, 200, 1000))
        queue: collections.deque[Any] = collections.deque(latest if resend else (), maxlen=limit)
        recvs.append((chan.new_receiver(limit=limit), queue, limit))
        env.ev("join", limit)

    async def take(i: int) -> None:
        recv, queue, limit = recvs[i]
        got = await recv.receive()
        want = queue.popleft()
        env.cov["long_deliveries"] += 1
        if got is not want:
            raise Violation("lost-or-reordered", f"receiver {i} (limit {limit}) delivered {msgs.key(got)}, not {msgs.key(want)}")

    def judge() -> None:
        for i, (recv, queue, limit) in enumerate(recvs if lengths else ()):
            env.require(
                len(recv) == len(queue), "length",  # type: ignore[arg-type]
                lambda: f"receiver {i} (limit {limit}) has {len(recv)} messages, not {len(queue)}",
            )

    for _ in range(rng.choice((1, 2, 4))):
        join()
    for how, length in streaks(env, rng.choice(_LONG), 3):
        # Who consumes during this streak: nobody, somebody, everybody.
        busy = [[], rng.sample(range(len(recvs)), rng.randint(1, len(recvs))), list(range(len(recvs)))][how]
        env.cov["long_idle_sends"] += length * (len(busy) < len(recvs))
        env.ev("streak", length, busy)
        for k in range(length):
            msg, _ = msgs.new()
            await rng.choice(txs).send(msg)
            latest[:] = [msg]
            for _, queue, _ in recvs:
                env.cov["long_overflows"] += len(queue) == queue.maxlen
                queue.append(msg)
            if k % 16 == 0:
                await asyncio.sleep(0)
            for i in busy:
                if recvs[i][1]:
                    await take(i)
        judge()
        if rng.random() < 0.3:
            join()
        if rng.random() < 0.5:
            i = rng.randrange(len(recvs))
            for _ in range(rng.choice((1, 10, 1000))):
                if recvs[i][1]:
                    await take(i)
    judge()
    await chan.close()
    for i, (recv, queue, _) in enumerate(recvs):
        while queue:
            await take(i)
        try:
            got = await asyncio.wait_for(recv.receive(), 1)
            raise Violation("phantom", f"receiver {i} delivered {msgs.key(got)} after the close")
        except ReceiverStoppedError:
            pass
    env.cov["long_runs"] += 1
    env.nontrivial = True


# -- trees --------------------------------------------------------------------------------------


async def flow(env: Env, tree: Tree, one: Any) -> None:
    """One source at a time is busy, for hundreds of messages; the others are quiet meanwhile."""
    rng = env.rng
    for which, length in streaks(env, rng.choice(_LONG[:3]), len(tree.leaves)):
        leaf: Leaf = tree.leaves[which]
        ahead = rng.choice((1, 1, 2, 20))
        env.ev("streak", leaf.name, length, ahead)
        for k in range(length):
            leaf.emit()
            if k % ahead == 0:
                while tree.must():
                    await one()
                    env.cov["long_deliveries"] += 1
        while tree.must():
            await one()
            env.cov["long_deliveries"] += 1
    env.cov["long_runs"] += 1
    env.nontrivial = True


async def _get(env: Env, tree: Tree) -> None:
    """Receive one message; it must come (soon)."""
    task = asyncio.ensure_future(tree.recv.receive())
    await asyncio.wait([task], timeout=5)
    if not task.done():
        task.cancel()
        raise Violation("held-back", f"{tree.shape}: a consumer waits although there is {tree.lost()}")
    env.cov["long_receives"] += 1
    _take(tree, task.result)


async def long_merge(env: Env) -> None:
    rng = env.rng
    tree = Tree(env, rng.choice((1, 1, 2)), rng.choice((STEADY, ("broadcast",), ("user", "twin"))), top="merge", widths=(2, 3, 4))
    await flow(env, tree, lambda: _get(env, tree))
    tree.stop_all()
    await _ended(env, tree)


async def _ended(env: Env, tree: Tree) -> None:
    """All sources have stopped and everything was delivered: so has the receiver, and for good."""
    await env.settle()
    while tree.must():
        await _get(env, tree)
    extra = tree.may()  # sets of an Event that a merge has fetched already
    n = env.rng.choice((2, 2, 1500))
    while n:
        task = asyncio.ensure_future(tree.recv.receive())
        await asyncio.wait([task], timeout=5)
        env.require(task.done(), "stop-lost", lambda: f"{tree.shape} does not stop; undelivered {tree.lost()}")
        try:
            msg = task.result()
            if extra < 1:
                raise Violation("revived", f"{tree.shape} delivered {msg!r:.80} after its end")
            tree.deliver(msg)
            extra -= 1
        except ReceiverStoppedError as exc:
            extra = 0
            n -= 1
            env.cov["long_stopped"] += 1
            env.require(exc.receiver is tree.recv, "identity", "the stop names another receiver")


async def long_stopped(env: Env) -> None:
    """A stopped receiver stays stopped, however often it is asked."""
    rng = env.rng
    tree = Tree(env, rng.choice((0, 1, 2)), STEADY)
    for _ in range(rng.choice((0, 3))):
        tree.emit()
        await env.pause()
    tree.stop_all()
    for _ in range(tree.may() + 1000):
        try:
            await asyncio.wait_for(tree.recv.receive(), 5)
        except ReceiverStoppedError:
            break
        except LeafError:
            pass
    for k in range(2000):
        how = rng.choice(("ready", "consume", "receive", "anext", "for", "select"))
        env.cov["long_stopped"] += 1
        try:
            if how == "ready":
                env.require(await tree.recv.ready() is False, "revived", f"ready() is true after {k} turns")
                continue
            if how == "consume":
                if await tree.recv.ready():
                    raise Violation("revived", f"ready() is true after {k} turns")
                msg = tree.recv.consume()
            elif how == "receive":
                msg = await tree.recv.receive()
            elif how == "anext":
                msg = await anext(tree.recv)
            elif how == "select":
                n = 0
                async for sel in select(tree.recv):
                    selected_from(sel, tree.recv)
                    n += 1
                    env.require(sel.was_stopped and n == 1, "revived", f"select() after {k} turns: {sel!r:.80}")
                continue
            else:
                async for msg in tree.recv:
                    break
                else:
                    continue
            raise Violation("revived", f"{tree.shape} delivered {msg!r:.80} after {k} turns")
        except (ReceiverStoppedError, StopAsyncIteration):
            env.require(how not in ("ready", "for"), "stop-raised", f"{how} raised after the stop")
    env.cov["long_runs"] += 1
    env.nontrivial = True


async def long_ready(env: Env) -> None:
    """ready() is asked thousands of times before anything is consumed."""
    rng = env.rng
    tree = Tree(env, rng.choice((0, 1, 2)), STEADY)
    for leaf in tree.leaves:
        for _ in range(rng.choice((1, 3))):
            leaf.emit()
    await env.yields(2)
    for k in range(rng.choice((300, 1500))):
        if not tree.must():
            break
        task = asyncio.ensure_future(tree.recv.ready())
        await asyncio.wait([task], timeout=5)
        env.require(task.done(), "held-back", lambda: f"ready() of {tree.shape} waits after {k} turns; there is {tree.lost()}")
        env.require(task.result() is True, "false-stop", f"ready() of {tree.shape} is false after {k} turns")
        env.cov["long_ready"] += 1
    while tree.must():
        await _get(env, tree)
    tree.stop_all()
    await _ended(env, tree)
    env.cov["long_runs"] += 1
    env.nontrivial = True


async def long_cancels(env: Env) -> None:
    """Thousands of waits are cancelled, most of them while nothing happens."""
    rng = env.rng
    tree = Tree(env, rng.choice((0, 0, 1, 2)), STEADY)
    p_emit = rng.choice((0.0, 0.01, 0.3))
    for _ in range(rng.choice((300, 1200))):
        if rng.random() < p_emit:
            tree.emit()
        how = rng.choice(("receive", "receive", "ready", "timeout"))
        if how == "timeout":
            try:
                tree.deliver(await asyncio.wait_for(tree.recv.receive(), 0.001))
            except LeafError as exc:
                tree.deliver_error(exc)
            except TimeoutError:
                pass
        else:
            task = asyncio.ensure_future(tree.recv.ready() if how == "ready" else tree.recv.receive())
            await env.yields(rng.choice((0, 1, 1, 2, 5)))
            task.cancel()
            await asyncio.wait([task])
            if not task.cancelled() and how == "receive":
                _take(tree, task.result)
            elif not task.cancelled():
                env.require(task.result() is True, "false-stop", "ready() is false")
        env.cov["long_cancelled"] += 1
    for _ in range(4):
        await env.settle()
        while tree.must():
            await _get(env, tree)
        tree.emit()
    tree.stop_all()
    await _ended(env, tree)
    env.cov["long_runs"] += 1
    env.nontrivial = True


# -- select() -----------------------------------------------------------------------------------


async def long_select(env: Env) -> None:
    """One loop (or thousands of them, each left at once) with sources that are quiet for very long."""
    rng = env.rng
    trees = [Tree(env, rng.choice((0, 0, 1)), STEADY, prefix=f"{i}.") for i in range(rng.choice((2, 3, 4)))]
    recvs = [tree.recv for tree in trees]
    turns = [rng.choice((1, 2, 50, 10_000))]
    plan = streaks(env, rng.choice((300, 1000)), len(trees))
    stopped: set[int] = set()

    def took(sel: Any) -> None:
        hits = [i for i, tree in enumerate(trees) if selected_from(sel, tree.recv)]
        env.require(len(hits) == 1, "attribution", f"selected_from() is true for {hits}")
        tree = trees[hits[0]]
        env.cov["long_selected"] += 1
        if sel.was_stopped:
            env.require(tree.stopped() and not tree.must(), "false-stop", f"{tree.shape} was reported as stopped")
            stopped.add(hits[0])
        elif sel.exception is not None:
            tree.deliver_error(sel.exception)
        else:
            tree.deliver(sel.message)

    async def consume() -> None:
        while True:
            n = 0
            async for sel in select(*recvs):
                took(sel)
                n += 1
                if n >= turns[0]:
                    break
            else:
                return
            env.cov["long_sessions"] += 1

    runner = env.spawn(consume(), "consumer")
    for which, length in plan:
        tree = trees[which]
        env.ev("streak", tree.shape, length)
        ahead = rng.choice((1, 1, 5))
        for k in range(length):
            tree.emit()
            if k % ahead == 0:
                await env.yields(rng.choice((1, 3)))
        await env.settle()
        rest = [t.lost() for t in trees if t.must()]
        env.require(not rest, "held-back", lambda: f"the consumer waits although there is {rest}")
    turns[0] = 10_000
    for tree in trees:
        tree.stop_all()
        await env.yields(3)
    await asyncio.wait([runner], timeout=60)
    env.check()
    env.require(runner.done() and len(stopped) == len(trees), "stuck", "the iteration does not end")
    env.cov["long_runs"] += 1
    env.nontrivial = True
