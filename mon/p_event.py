"""C18: Event."""

from __future__ import annotations

import asyncio
from typing import Any

from frequenz.channels import Receiver, merge
from frequenz.channels.event import Event

from .core import Env, Violation
from .drive import Rx
from .p_scale import restless_event
from .run import Check


class Model:
    """What the event should be."""

    def __init__(self, env: Env, event: Event) -> None:
        self.env = env
        self.event = event
        self.set = False
        self.stopped = False
        self.consumed = 0
        self.sets = 0
        self.hidden = 0  # consumptions done by a merge() that are not delivered yet

    def truth(self, where: str) -> None:
        env = self.env
        env.cov["truth_checks"] += 1
        env.require(
            self.event.is_set is self.set, "is-set", f"is_set is {self.event.is_set}, not {self.set} ({where})"
        )
        env.require(
            self.event.is_stopped is self.stopped, "is-stopped",
            f"is_stopped is {self.event.is_stopped}, not {self.stopped} ({where})",
        )

    def do_set(self) -> None:
        if self.stopped:
            return
        self.env.ev("set")
        self.env.cov["sets"] += 1
        if self.set:
            self.env.cov["coalesced"] += 1
        self.event.set()
        self.set = True
        self.sets += 1
        self.truth("set()")

    def do_stop(self) -> None:
        self.env.ev("stop")
        if self.set and not self.stopped:
            self.env.cov["stopped_while_set"] += 1
        self.event.stop()
        self.stopped = True
        self.truth("stop()")

    def got(self, msg: Any) -> None:
        self.env.ev("got")
        self.env.require(msg is None, "message", f"the event delivered {msg!r:.80}")
        self.env.require(self.set, "phantom", "a receive() completed, but the event was not set")
        self.set = False
        self.consumed += 1
        self.env.cov["got"] += 1
        self.truth("after a receive")


async def c18_machine(env: Env) -> None:
    rng = env.rng
    event = Event(name=rng.choice((None, "", "bell")))
    model = Model(env, event)
    model.truth("new")
    mapped = rng.random() < 0.2
    recv: Receiver[Any] = event.map(lambda msg: msg) if mapped else event

    def failed(_rx: Rx, exc: Exception) -> None:
        raise Violation("unexpected-error", f"the event raised {exc!r}") from exc

    rx = Rx(env, recv, "root", lambda _r, msg: model.got(msg), failed)
    waiters: list[asyncio.Task[Any]] = []

    async def waiter() -> None:
        """Somebody else who only waits with ready()."""
        consumed = model.consumed
        ok = await event.ready()
        env.ev("ready", ok)
        env.cov["ready_waiters"] += 1
        if model.consumed == consumed:
            env.require(
                model.set or model.stopped, "ready-unset", "ready() finished, but the event is neither set nor stopped"
            )
            env.require(
                bool(ok) == model.set, "ready-value",
                f"ready() returned {ok}; set: {model.set}, stopped: {model.stopped}",
            )
        elif not ok:
            env.require(model.stopped and not model.set, "false-stop", "ready() returned False")

    styles = rng.choice((Rx.PLAIN, Rx.ALL, Rx.ALL, ("cancelled", "receive"), ("ready",)))
    runner = env.spawn(rx.run(styles, 10_000), "consumer")
    for _ in range(rng.randint(5, 50)):
        r = rng.random()
        if r < 0.45:
            for _ in range(rng.choice((1, 1, 2, 5))):
                model.do_set()
            await env.yields(rng.choice((0, 0, 1, 2, 3)))
        elif r < 0.47:
            model.do_stop()
        elif r < 0.6:
            waiters.append(env.spawn(waiter(), "waiter"))
        elif r < 0.64 and waiters:
            rng.choice(waiters).cancel()
        elif r < 0.7 and env.cancellable:
            live = [t for t in env.cancellable if not t.done()]
            if live:
                rx.left_behind()
                env.cov["cancelled_waits"] += 1
                rng.choice(live).cancel()
        elif r < 0.85:
            if rng.random() < 0.5:
                await asyncio.sleep(0.006)
            await env.settle()
            _judge(env, model, rx, waiters)
        else:
            await env.pause()
    if rng.random() < 0.5:
        model.do_set()
    model.do_stop()
    if rng.random() < 0.3:
        model.do_stop()
    for bell in rx.bells:
        bell.set()
    await asyncio.wait([runner], timeout=30)
    env.check()
    await env.settle()
    _judge(env, model, rx, waiters)
    env.require(runner.done() and rx.stopped, "stop-lost", "the consumer was not stopped")
    env.require(not model.set, "lost", "the event was set before it was stopped, but never delivered")
    env.require(not rx.after_stop, "revived", "delivered after the stop")
    for _ in range(2):
        env.require(await event.ready() is False, "revived", "ready() is not False after the stop")
    async for msg in recv:
        raise Violation("revived", f"{msg!r}")
    model.truth("end")
    env.nontrivial = env.cov["got"] >= 1


def _judge(env: Env, model: Model, rx: Rx, waiters: list[asyncio.Task[Any]]) -> None:
    env.cov["rest_judged"] += 1
    model.truth("at rest")
    pending = [t for t in waiters if not t.done()]
    if model.set or model.stopped:
        env.require(
            not pending, "waiter-forgotten",
            lambda: f"{len(pending)} ready() calls wait; set: {model.set}, stopped: {model.stopped}",
        )
        if rx.waiting or (rx.loose and not rx.held and not rx.in_body):
            raise Violation(
                "consumer-forgotten", f"the consumer waits; set: {model.set}, stopped: {model.stopped}"
            )
    else:
        env.cov["unset_rests"] += 1
    env.require(not rx.stopped or model.stopped, "false-stop", "the event was reported as stopped")


async def c18_merged(env: Env) -> None:
    """Several events, merged: one delivery for each time it was set and seen."""
    rng = env.rng
    events = [Event(name=f"e{i}") for i in range(rng.choice((1, 2, 4)))]
    sets = [0] * len(events)
    seen = [0] * len(events)
    merged = merge(*[e.map(lambda _m, i=i: i) for i, e in enumerate(events)])  # type: ignore[misc]

    def got(_rx: Rx, i: Any) -> None:
        env.ev("got", i)
        seen[i] += 1
        env.cov["got"] += 1
        env.require(seen[i] <= sets[i], "phantom", f"e{i}: set {sets[i]} times, delivered {seen[i]} times")

    rx = Rx(env, merged, "root", got)
    runner = env.spawn(rx.run(Rx.PLAIN, 10_000), "consumer")
    for _ in range(rng.randint(5, 30)):
        i = rng.randrange(len(events))
        events[i].set()
        sets[i] += 1
        env.ev("set", i)
        if rng.random() < 0.6:
            # Everybody had the time to see it: the next set() counts again.
            await asyncio.sleep(0.1)
            await env.settle()
            env.require(not events[i].is_set, "stuck", f"e{i} is still set, but everybody waits")
            if rx.waiting:
                env.cov["rest_judged"] += 1
        elif rng.random() < 0.5:
            await env.pause()
    for e in events:
        e.stop()
    await asyncio.wait([runner], timeout=30)
    env.check()
    env.require(runner.done() and rx.stopped, "stop-lost", "the consumer was not stopped")
    for i, n in enumerate(sets):
        env.require(not n or seen[i] >= 1, "lost", f"e{i} was set {n} times but never delivered")
    env.nontrivial = env.cov["got"] >= 1


CHECKS = {
    "C18": Check(
        "C18",
        "one case = one seeded history of set(), stop(), waits in every style (cancelled, timed out, select(), "
        "several ready() waiters), compared with a two-flag model after every operation and at moments of "
        "rest; non-trivial: an event was received",
        [("machine", 5, c18_machine), ("merged", 1, c18_merged), ("restless", 0.01, restless_event)], 20000, 500000,
        {"got": 80000, "sets": 100000, "coalesced": 30000, "stopped_while_set": 2000, "ready_waiters": 20000,
         "rest_judged": 60000, "unset_rests": 10000, "cancelled_waits": 10000, "truth_checks": 200000, "set_in_one_run": 5000},
        ["set() is not called after stop()", "one consumer; other tasks only wait with ready()"],
    ),
}
