"""A second channel (and Event) of the same name living next to the one under test.

Whatever the library keeps outside of the objects themselves, per name or per class, shows up here or
there as a message, a latest value, an overflow or a close of the wrong channel.
"""

from __future__ import annotations

import asyncio
import collections
from typing import Any

from frequenz.channels import Anycast, Broadcast, ChannelClosedError, ReceiverStoppedError, SenderError
from frequenz.channels.event import Event

from .core import Env

P_DECOY = 0.25


def maybe_decoy(env: Env, name: str, limit: int) -> None:
    """Start a decoy in some of the cases."""
    if env.rng.random() < P_DECOY:
        env.spawn(_decoy(env, name, limit), "decoy")


async def _decoy(env: Env, name: str, limit: int) -> None:
    rng = env.rng
    env.cov["decoys"] += 1
    if rng.random() < 0.15:
        await _event(env, name)
        return
    latest = rng.random() < 0.3
    if rng.random() < 0.5:
        chan: Any = Anycast(name=name, limit=limit)
        recv: Any = chan.new_receiver()
    else:
        chan = Broadcast(name=name, resend_latest=latest)
        recv = chan.new_receiver(limit=limit)
    sender = chan.new_sender()
    pending: collections.deque[Any] = collections.deque()
    last: Any = None

    async def take() -> None:
        want = pending.popleft()
        got = await asyncio.wait_for(recv.receive(), 30)
        env.require(got is want, "cross-talk", lambda: f"the other channel delivered {got!r} instead of {want!r}")
        env.cov["decoy_deliveries"] += 1

    for _ in range(rng.choice((2, 10, 30))):
        await env.pause()
        env.require(not chan.is_closed, "cross-talk", "the other channel is closed")
        r = rng.random()
        if r < 0.5 and len(pending) < limit:
            last = ["decoy"]
            pending.append(last)
            await asyncio.wait_for(sender.send(last), 30)
        elif r < 0.8 and pending:
            await take()
        elif r < 0.85 and isinstance(chan, Broadcast):
            late = chan.new_receiver(limit=1000)
            fut = asyncio.ensure_future(late.ready())
            await env.settle()
            want = latest and last is not None
            env.require(
                fut.done() == want, "cross-talk",
                lambda: f"a new receiver of the other channel is ready: {fut.done()}, expected {want}",
            )
            if want:
                got = late.consume()
                env.require(got is last, "cross-talk", lambda: f"the latest message of the other channel is {got!r}")
            else:
                fut.cancel()
                await asyncio.wait([fut])
            del late, fut
        elif not pending and r > 0.9:
            fut = asyncio.ensure_future(recv.ready())
            await env.settle()
            env.require(not fut.done(), "cross-talk", "the empty other channel has something to deliver")
            fut.cancel()
            await asyncio.wait([fut])
    if rng.random() < 0.5:
        return
    await chan.close()
    while pending:
        await take()
    try:
        got = await recv.receive()
        env.require(False, "cross-talk", lambda: f"the closed other channel delivered {got!r}")
    except ReceiverStoppedError as exc:
        cause = exc.__cause__
        env.require(
            exc.receiver is recv and isinstance(cause, ChannelClosedError) and cause.channel is chan, "cross-talk",
            "the other channel was stopped by something else",
        )
    try:
        await sender.send(["too late"])
        env.require(False, "cross-talk", "the closed other channel accepts a message")
    except SenderError as exc:
        env.require(exc.sender is sender, "cross-talk", "SenderError of another sender")


async def _event(env: Env, name: str) -> None:
    rng = env.rng
    event = Event(name=name)
    for _ in range(rng.choice((2, 10))):
        fut = asyncio.ensure_future(event.ready())
        await env.pause()
        await env.settle()
        env.require(not fut.done() and not event.is_stopped, "cross-talk", "the other Event was set")
        event.set()
        env.require(await asyncio.wait_for(fut, 30), "cross-talk", "the other Event was stopped")
        event.consume()
        env.cov["decoy_deliveries"] += 1
    event.stop()
