"""Workloads of unusual size: hundreds of receivers, waits that go on over a thousand wake-ups."""

from __future__ import annotations

import asyncio
from datetime import timedelta
from typing import Any

from frequenz.channels import (
    Anycast,
    Broadcast,
    Receiver,
    ReceiverStoppedError,
    SenderError,
    merge,
    select,
    selected_from,
)
from frequenz.channels.event import Event
from frequenz.channels.timer import SkipMissedAndDrift, SkipMissedAndResync, Timer, TriggerAllMissed

from .core import Env

# More than the interpreter's recursion limit.
MANY = 1150


class _Wide:
    """Many channels that send a bit, one after the other or all at once, and then are closed."""

    def __init__(self, env: Env) -> None:
        rng = env.rng
        self.env = env
        self.n = rng.choice((30, 100, 300, MANY))
        self.chans: list[Any] = [
            Broadcast(name=str(i)) if rng.random() < 0.7 else Anycast(name=str(i)) for i in range(self.n)
        ]
        self.recvs: list[Receiver[Any]] = [chan.new_receiver() for chan in self.chans]
        self.sent: list[list[tuple[int, int]]] = [[] for _ in self.chans]
        self.got: list[list[tuple[int, int]]] = [[] for _ in self.chans]
        self.burst = rng.random() < 0.3
        self.p_msg = rng.choice((0.0, 0.05, 0.5))
        env.ev("wide", self.n, self.burst, self.p_msg)

    async def play(self) -> None:
        env = self.env
        order = list(range(self.n))
        env.rng.shuffle(order)
        for k, i in enumerate(order):
            while env.rng.random() < self.p_msg and len(self.sent[i]) < 5:
                msg = (i, len(self.sent[i]))
                self.sent[i].append(msg)
                await self.chans[i].new_sender().send(msg)
                env.cov["sent_wide"] += 1
            await self.chans[i].close()
            if not self.burst:
                if k % 100 == 0:
                    await env.settle()
                else:
                    await env.yields(4)
        env.cov["wide_stops"] += self.n

    def take(self, msg: Any) -> None:
        env = self.env
        i = msg[0]
        env.require(
            len(self.got[i]) < len(self.sent[i]) and msg == self.sent[i][len(self.got[i])], "wide-order",
            lambda: f"receiver {i} of {self.n} delivered {msg} after {self.got[i]}; sent were {self.sent[i]}",
        )
        self.got[i].append(msg)

    async def judge(self, runner: asyncio.Task[Any]) -> None:
        env = self.env
        await asyncio.wait([runner], timeout=1000)
        env.check()
        env.require(runner.done(), "wide-stuck", f"all of {self.n} receivers have stopped, but the end does not come")
        env.require(
            self.got == self.sent, "wide-lost",
            lambda: f"{sum(map(len, self.sent))} messages of {self.n} receivers, {sum(map(len, self.got))} delivered",
        )
        env.nontrivial = True


async def wide_merge(env: Env) -> None:
    wide = _Wide(env)
    merged = merge(*wide.recvs)

    async def consume() -> None:
        async for msg in merged:
            wide.take(msg)
            if env.rng.random() < 0.05:
                await env.pause()

    runner = env.spawn(consume(), "consumer")
    await env.settle()
    await wide.play()
    await wide.judge(runner)


async def wide_select(env: Env) -> None:
    wide = _Wide(env)
    stopped: set[int] = set()

    async def consume() -> None:
        async for sel in select(*wide.recvs):
            if not sel.was_stopped:
                i = sel.message[0]
                wide.take(sel.message)
            else:
                # Who it was is known from the error.
                stop = sel.exception
                assert isinstance(stop, ReceiverStoppedError)
                i = next((k for k, recv in enumerate(wide.recvs) if recv is stop.receiver), -1)
                env.require(i >= 0 and i not in stopped, "wide-stop", f"{stop!r} of {stop.receiver}")
                stopped.add(i)
            env.require(selected_from(sel, wide.recvs[i]), "attribution", f"not attributed to receiver {i}")
            env.require(
                not selected_from(sel, wide.recvs[i - 1]), "attribution", f"attributed to receiver {i - 1} too"
            )

    runner = env.spawn(consume(), "consumer")
    await env.settle()
    await wide.play()
    await wide.judge(runner)
    env.require(len(stopped) == wide.n, "wide-stop", lambda: f"{len(stopped)} of {wide.n} stops were reported")


async def contended_send(env: Env) -> None:
    """A blocked sender (receiver) is woken again and again, but somebody else was faster."""
    rng = env.rng
    limit = rng.choice((1, 1, 2, 10))
    n = rng.choice((50, MANY))
    env.ev("contended", limit, n, env.seed)
    chan: Anycast[Any] = Anycast(name="c", limit=limit)
    recv, sender = chan.new_receiver(), chan.new_sender()
    got: list[int] = []
    sent = 0
    for _ in range(limit):
        await sender.send(sent)
        sent += 1
    patient = env.spawn(chan.new_sender().send("patient"), "patient")
    await env.settle()
    env.require(not patient.done(), "over-capacity", "send() did not wait although the buffer was full")
    for _ in range(n):
        got.append(await recv.receive())
        if patient.done():
            break
        # Without the loop running in between.
        try:
            async with asyncio.timeout(1):
                await sender.send(sent)
            sent += 1
        except TimeoutError:
            # The place was already taken, which is also fine.
            env.cov["contention_failed"] += 1
        await env.yields(2)
        env.check()
        env.cov["contended"] += 1
    await env.settle()
    while not patient.done():
        got.append(await recv.receive())
        await env.settle()
    env.check()
    env.require(patient.exception() is None, "patient", lambda: f"{patient.exception()!r}")
    await chan.close()
    rest = [msg async for msg in recv]
    everything = [msg for msg in got + rest if msg != "patient"]
    env.require(everything == list(range(sent)), "order", lambda: f"{len(everything)} of {sent} messages")
    env.require((got + rest).count("patient") == 1, "patient", "the message of the blocked sender was not delivered once")
    # The same for receivers.
    chan = Anycast(name="c", limit=limit)
    sender, fast = chan.new_sender(), chan.new_receiver()
    waiting = env.spawn(chan.new_receiver().receive(), "patient")
    await env.settle()
    for k in range(n):
        await sender.send(k)
        try:
            async with asyncio.timeout(1):
                msg = await fast.receive()
            env.require(msg == k, "order", f"{msg} instead of {k}")
        except TimeoutError:
            env.cov["contention_failed"] += 1
        await env.yields(2)
        env.check()
        if waiting.done():
            break
    if not waiting.done():
        await sender.send("last")
    await env.settle()
    env.check()
    env.require(waiting.done(), "receiver-forgotten", "the receiver still waits")
    try:
        await chan.close()
        await sender.send(0)
    except SenderError:
        env.cov["contended_runs"] += 1
    env.nontrivial = True


async def restless_timer(env: Env) -> None:
    """A consumer waits for a timer that is reset more than a thousand times."""
    rng = env.rng
    policy = rng.choice((TriggerAllMissed, SkipMissedAndDrift, SkipMissedAndResync))()
    interval = rng.choice((1000, 20_000, 1_000_000))
    timer = Timer(timedelta(microseconds=interval), policy, auto_start=rng.random() < 0.5)
    n = rng.choice((50, MANY))
    runner = env.spawn(timer.receive(), "consumer")
    step = rng.choice((0.0, interval / 3e6))
    stops = rng.random() < 0.3
    env.ev("restless", type(policy).__name__, interval, n, step, stops, env.seed)
    await env.settle()
    due = env.loop.us() + interval
    for _ in range(n):
        if step:
            await asyncio.sleep(step)
        await env.settle()
        if runner.done():
            # The loop was late.
            break
        if stops:
            timer.stop()
        timer.reset()
        due = env.loop.us() + interval
        await env.yields(3)
        env.check()
        env.require(
            not runner.done(), "early", f"the tick due at {due} us was delivered at {env.loop.us()} us: {runner!r}"
        )
        env.cov["resets_in_one_wait"] += 1
    await asyncio.wait([runner], timeout=interval * 10 / 1e6 + 100)
    env.check()
    env.require(runner.done(), "late", "the tick after many resets does not come")
    env.require(
        env.loop.us() >= due - 10, "early", f"the tick due at {due} us was delivered at {env.loop.us()} us"
    )
    env.nontrivial = True


async def restless_event(env: Env) -> None:
    """An event is set, consumed and waited for more than a thousand times, by several waits at once."""
    rng = env.rng
    event = Event()
    n = rng.choice((50, MANY))
    env.ev("restless", n, env.seed)
    count = 0

    async def consume() -> None:
        nonlocal count
        async for _ in event:
            count += 1

    runner = env.spawn(consume(), "consumer")
    for _ in range(n):
        for _ in range(rng.choice((1, 1, 2))):
            event.set()
        await env.settle()
        env.check()
        env.cov["set_in_one_run"] += 1
    env.require(count == n, "lost", f"{count} receives completed after {n} sets")
    event.stop()
    await asyncio.wait([runner], timeout=10)
    env.check()
    env.require(runner.done() and count == n, "stop-lost", "the consumer of the stopped event waits")
    env.nontrivial = True
