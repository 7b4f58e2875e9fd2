"""Objects that are only alive through each other: endpoints whose channel is gone, receivers inside receivers."""

from __future__ import annotations

import asyncio
import gc
from typing import Any

from frequenz.channels import Anycast, Broadcast, Receiver, Sender, merge, select, selected_from

from .core import Env, Violation


class _Lives:
    """Senders and receivers of a channel that nobody else refers to."""

    def __init__(self, env: Env, cls: Any) -> None:
        rng = env.rng
        self.env = env
        self.limit = rng.choice((1, 1, 2, 5, 50))
        self.n_tx = rng.choice((1, 1, 2, 4))
        self.n_rx = rng.choice((0, 1, 1, 2, 3))
        self.sent: list[tuple[int, int]] = []
        self.got: dict[int, list[tuple[int, int]]] = {}
        self.waiting: set[int] = set()
        self.styles = [rng.choice(("plain", "map", "merge", "select", "receive", "nested")) for _ in range(self.n_rx)]
        self.turns = [rng.choice((1, 3, 10, 10_000, 10_000)) for _ in range(self.n_rx)]
        env.ev("lives", cls.__name__, self.limit, self.n_tx, tuple(self.styles), tuple(self.turns))
        chan = cls(name="c", limit=self.limit) if cls is Anycast else cls(name="c")
        txs = [chan.new_sender() for _ in range(self.n_tx)]
        self.tasks = [
            # Nothing but the coroutine refers to the receiver.
            env.spawn(self.consume(i, self.wrap(chan.new_receiver(), i)), f"consumer{i}") for i in range(self.n_rx)
        ]
        self.senders = [env.spawn(self.send(i, txs.pop()), f"sender{i}") for i in range(self.n_tx)]

    def wrap(self, recv: Receiver[Any], i: int) -> Receiver[Any]:
        self.got[i] = []
        if self.styles[i] == "map":
            return recv.map(lambda x: x)
        if self.styles[i] == "merge":
            return merge(recv)
        if self.styles[i] == "nested":
            return merge(recv.map(lambda x: [x])).map(lambda x: x[0])
        return recv

    async def send(self, i: int, tx: Sender[Any]) -> None:
        env = self.env
        await asyncio.sleep(0)
        for k in range(env.rng.randint(1, 12)):
            await env.pause()
            self.sent.append((i, k))
            await tx.send((i, k))
            env.cov["orphan_sends"] += 1

    def take(self, i: int, msg: Any) -> None:
        if msg not in self.sent:
            raise Violation("phantom", f"{msg!r} was not sent")
        self.got[i].append(msg)
        self.env.ev("got", i, *msg)
        self.waiting.discard(i)
        self.env.cov["orphan_deliveries"] += 1

    async def consume(self, i: int, recv: Receiver[Any]) -> None:
        env = self.env
        if self.styles[i] == "select":
            self.waiting.add(i)
            async for sel in select(recv):
                selected_from(sel, recv)
                self.take(i, sel.message)
                if len(self.got[i]) >= self.turns[i]:
                    break
                await env.pause()
                self.waiting.add(i)
            return
        if self.styles[i] == "receive":
            while len(self.got[i]) < self.turns[i]:
                self.waiting.add(i)
                self.take(i, await recv.receive())
                await env.pause()
            return
        self.waiting.add(i)
        async for msg in recv:
            self.take(i, msg)
            if len(self.got[i]) >= self.turns[i]:
                break
            await env.pause()
            self.waiting.add(i)

    async def play(self) -> None:
        env = self.env
        for _ in range(env.rng.randint(2, 6)):
            if env.rng.random() < 0.5:
                gc.collect()
                env.cov["orphan_gc"] += 1
            await env.pause()
        await asyncio.sleep(1)
        await env.settle()
        gc.collect()
        await asyncio.sleep(1)
        await env.settle()
        env.check()


async def anycast_lives(env: Env) -> None:
    lives = _Lives(env, Anycast)
    await lives.play()
    got = [msg for part in lives.got.values() for msg in part]
    if len(set(got)) != len(got):
        raise Violation("duplicate", f"{got}")
    rest = [msg for msg in lives.sent if msg not in got]
    blocked = sum(1 for t in lives.senders if not t.done())
    prefetch = sum(1 for s in lives.styles if s in ("merge", "nested"))
    if lives.waiting and rest and not prefetch:
        raise Violation("lost", f"{rest} were sent and {sorted(lives.waiting)} wait for messages; received: {lives.got}")
    if len(rest) > lives.limit + blocked + 3 * prefetch:
        raise Violation("lost", f"{rest} are neither received nor in the buffer ({lives.limit}); received: {lives.got}")
    if blocked and len(rest) - blocked < lives.limit and not prefetch:
        raise Violation("blocked", f"{blocked} senders wait, although {len(rest) - blocked} of {lives.limit} places are taken")
    env.nontrivial = bool(got)
    env.cov["orphan_runs"] += 1


async def broadcast_lives(env: Env) -> None:
    lives = _Lives(env, Broadcast)
    await lives.play()
    for task in lives.senders:
        if not task.done():
            raise Violation("blocked", "the sender of a broadcast channel waits")
    for i, got in lives.got.items():
        want = min(lives.turns[i], len(lives.sent))
        for k in range(lives.n_tx):
            mine = [msg for msg in got if msg[0] == k]
            if mine != [msg for msg in lives.sent if msg[0] == k][: len(mine)]:
                raise Violation("order", f"receiver {i} ({lives.styles[i]}) got {got}, sent were {lives.sent}")
        if len(got) != want:
            raise Violation("lost", f"receiver {i} ({lives.styles[i]}) got {got}, sent were {lives.sent}")
    env.nontrivial = any(lives.got.values())
    env.cov["orphan_runs"] += 1
