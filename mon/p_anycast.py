"""C01-C04: Anycast channels."""

from __future__ import annotations

import asyncio
import collections
import gc
from dataclasses import dataclass
from typing import Any

from frequenz.channels import (
    Anycast,
    ChannelClosedError,
    ReceiverStoppedError,
    SenderError,
)

from .core import NAMES, Env, Messages, Violation, no_loop, tangle
from .decoy import maybe_decoy
from .drive import Rx, kill
from .p_lives import anycast_lives
from .p_scale import contended_send
from .run import Check


@dataclass
class Send:
    """One call of send()."""

    key: str
    sender: int
    call: int
    outcome: str = "pending"
    ret: int = 0
    exc: BaseException | None = None


@dataclass
class Got:
    """One delivery."""

    key: str
    rx: Rx
    at: int
    claim: int


class World:
    """A channel with its users and the recorded history."""

    def __init__(self, env: Env, limit: int, n_tx: int, n_rx: int, p_const: float = 0.15) -> None:
        self.env = env
        self.limit = limit
        name = env.rng.choice(NAMES)
        with no_loop(env.rng.random() < 0.1):
            self.chan: Anycast[Any] = (
                Anycast(name=name) if limit == 10 else Anycast(name=name, limit=limit)
            )
            self.tx = [self.chan.new_sender() for _ in range(n_tx)]
        env.require(self.chan.name == name, "name", f"the name is {self.chan.name!r}, not {name!r}")
        self.msgs = Messages(env, p_const)
        self.sends: list[Send] = []
        self.gots: list[Got] = []
        self.watch_capacity = False
        self.rxs: list[Rx] = []
        self.mapped: set[int] = set()
        self.send_tasks: list[asyncio.Task[Any]] = []
        self.close_at = 0
        for i in range(n_rx):
            recv = self.chan.new_receiver()
            if env.rng.random() < 0.15:
                recv = recv.map(lambda m: m)
                self.mapped.add(i)
            self.rxs.append(Rx(env, recv, f"r{i}", self.on_msg))
        maybe_decoy(env, name, limit)

    def on_msg(self, rx: Rx, msg: Any) -> None:
        key = self.msgs.key(msg)
        at = self.env.ev("got", rx.name, key)
        self.gots.append(Got(key, rx, at, rx.claim_start or at))
        self.env.cov["delivered"] += 1

    async def send(self, i: int) -> None:
        msg, key = self.msgs.new()
        rec = Send(key, i, self.env.ev("send", i, key))
        self.sends.append(rec)
        iters = self.env.loop.iters
        try:
            await self.tx[i].send(msg)
        except SenderError as exc:
            rec.outcome, rec.exc = "refused", exc
            rec.ret = self.env.ev("refused", i, key)
            return
        except asyncio.CancelledError:
            rec.outcome = "cancelled"
            rec.ret = self.env.ev("withdrawn", i, key)
            self.env.cov["cancelled_sends"] += 1
            raise
        rec.outcome = "ok"
        rec.ret = self.env.ev("sent", i, key)
        self.env.cov["accepted"] += 1
        if self.env.loop.iters != iters:
            self.env.cov["blocked_sends"] += 1
        if self.watch_capacity:
            self.check_capacity()

    # -- counts -------------------------------------------------------------------------------

    def in_flight(self) -> int:
        return sum(s.outcome == "ok" for s in self.sends) - len(self.gots)

    def claimed_max(self) -> int:
        return sum(bool(r.held or r.maybe or r.loose or r.waiting) for r in self.rxs)

    def check_capacity(self) -> None:
        n = self.in_flight() - self.claimed_max()
        self.env.cov["capacity_checks"] += 1
        self.env.require(
            n <= self.limit, "over-capacity",
            lambda: f"{n} accepted messages are unclaimed, but the limit is {self.limit}",
        )

    # -- actors -------------------------------------------------------------------------------

    async def sender(self, i: int, n: int, fancy: bool) -> None:
        env = self.env
        for _ in range(n):
            if env.rng.random() < 0.5:
                await env.pause()
            r = env.rng.random() if fancy else 1.0
            if r < 0.15:
                try:
                    await asyncio.wait_for(self.send(i), env.rng.choice((0, 1, 2, 3)) / 1000)
                except TimeoutError:
                    pass
            elif r < 0.40:
                task = env.spawn(self.send(i), "send")
                env.cancellable.append(task)
                self.send_tasks.append(task)
                await env.pause()
                if env.rng.random() < 0.4:
                    await asyncio.sleep(0.002)
                if env.rng.random() < 0.6:
                    task.cancel()
                await asyncio.wait([task])
            else:
                await self.send(i)

    async def racer(self, n: int) -> None:
        """Makes wake-ups and cancellations coincide."""
        env = self.env
        for _ in range(n):
            await env.pause()
            await env.pause()
            live = [t for t in env.cancellable if not t.done()]
            r = env.rng.random()
            env.cov["races"] += 1
            if r < 0.6:
                for _ in range(env.rng.choice((1, 1, 2))):
                    task = env.spawn(self.send(env.rng.randrange(len(self.tx))), "send")
                    env.cancellable.append(task)
                    self.send_tasks.append(task)
                await env.yields(env.rng.choice((0, 1, 1, 1, 2)))
            elif self.rxs:
                rx = env.rng.choice(self.rxs)
                if not rx.waiting and not rx.loose and not rx.in_select:
                    rx.sub("receive")
                    await env.yields(env.rng.choice((0, 1, 1, 1, 2)))
            env.rng.shuffle(live)
            for task in live[: env.rng.choice((1, 1, 2, 3))]:
                task.cancel()

    async def finish(self) -> None:
        """Everybody drains what is left."""
        env = self.env
        for rx in self.rxs:
            rx.quit = True
            for bell in rx.bells:
                bell.set()
        await env.yields(env.rng.choice((0, 1, 2, 5)))
        for task in env.tasks:
            if task.get_name() in ("consumer", "sub", "select", "racer"):
                task.cancel()
        if env.rng.random() < 0.3:
            kill(env)
        await env.idle()
        for rx in self.rxs:
            env.spawn(rx.drain(), "drain")
        await env.idle()
        kill(env)
        await env.idle()


def _world(env: Env, p_const: float = 0.15) -> World:
    rng = env.rng
    if rng.random() < 0.01:
        env.cov["crowds"] += 1
        return World(env, rng.choice((1, 3, 20, 64)), rng.randint(5, 24), rng.randint(1, 24), p_const)
    return World(
        env, rng.choice((1, 1, 1, 2, 2, 3, 5, 10)), rng.randint(1, 4), rng.randint(1, 4), p_const
    )


def _traffic(w: World, fancy: bool, styles: tuple[str, ...], racers: bool) -> None:
    env, rng = w.env, w.env.rng
    scale = 2 if env.tier == "thorough" and rng.random() < 0.3 else 1
    for i in range(len(w.tx)):
        env.spawn(w.sender(i, rng.randint(1, 8 * scale), fancy), "sender")
    for rx in w.rxs:
        env.spawn(rx.run(styles, rng.randint(1, 10 * scale)), "consumer")
    if racers:
        env.spawn(w.racer(rng.randint(1, 5 * scale)), "racer")


def _styles(rng: Any) -> tuple[str, ...]:
    r = rng.random()
    if r < 0.25:
        return Rx.PLAIN
    if r < 0.5:
        return tuple(rng.sample(list(Rx.STYLES), rng.randint(1, 3)))
    return Rx.ALL


# -- C01 --------------------------------------------------------------------------------------


def judge_exactly_once(w: World) -> None:
    """Accepted messages = delivered messages."""
    sent = collections.Counter(s.key for s in w.sends if s.outcome == "ok")
    got = collections.Counter(g.key for g in w.gots)
    w.env.cov["conservation_checks"] += 1
    for key in got:
        if got[key] > sent[key]:
            what = [s.outcome for s in w.sends if s.key == key]
            raise Violation(
                "phantom-or-duplicate",
                f"message {key} was accepted {sent[key]} times but delivered {got[key]} times "
                f"(send outcomes: {what}; receivers: {[g.rx.name for g in w.gots if g.key == key]})",
            )
    lost = sent - got
    if lost:
        raise Violation("lost", f"accepted but never delivered: {dict(lost)}")


async def c01_mix(env: Env) -> None:
    w = _world(env)
    _traffic(w, env.rng.random() < 0.7, _styles(env.rng), env.rng.random() < 0.6)
    if env.rng.random() < 0.2:
        async def closer() -> None:
            await asyncio.sleep(env.rng.choice((1, 2, 4, 8)) / 1000)
            env.ev("close")
            await w.chan.close()
        env.spawn(closer(), "closer")
    await env.idle()
    await w.finish()
    judge_exactly_once(w)
    env.nontrivial = len(w.gots) >= 3


async def c01_select_leave(env: Env) -> None:
    """Messages that arrive while a select loop is being left."""
    rng = env.rng
    w = World(env, rng.choice((1, 2, 3, 10)), 1, rng.choice((1, 1, 2)))
    users: dict[str, asyncio.Task[Any]] = {}
    for _ in range(rng.randint(2, 6)):
        for rx in w.rxs:
            if rx.name not in users or users[rx.name].done():
                how = rx.receive() if rng.random() < 0.25 else rx.selecting()
                users[rx.name] = env.spawn(how, "consumer")
        await env.yields(rng.choice((0, 1, 2, 3, 4)))
        for rx in w.rxs:
            for bell in rx.bells:
                if rng.random() < 0.8:
                    bell.set()
        await env.yields(rng.choice((0, 1, 2, 3, 4)))
        if rng.random() < 0.9:
            env.spawn(w.send(0), "send")
        await env.yields(rng.choice((0, 1, 2, 3, 4)))
        if rng.random() < 0.5:
            env.spawn(w.send(0), "send")
            await env.yields(rng.choice((0, 1, 2)))
    await w.finish()
    judge_exactly_once(w)
    env.nontrivial = len(w.gots) >= 2


async def long_run(env: Env) -> None:
    """A long history with large buffers; the order is exact with a single receiver."""
    rng = env.rng
    limit = rng.choice((1, 5, 63, 64, 65, 255, 256, 257, 1000, 5000))
    n_rx = rng.choice((1, 1, 2, 5))
    name = rng.choice(NAMES)
    chan: Anycast[Any] = Anycast(name=name, limit=limit)
    env.require(chan.limit == limit, "limit", f"limit is {chan.limit}, not {limit}")
    total = rng.choice((300, 1100, 1100, 2500))
    got: list[tuple[int, int]] = []
    started = [0] * 3
    n_tx = rng.randint(1, 3)
    done = [0] * 3

    async def sender(i: int) -> None:
        tx = chan.new_sender()
        for k in range(total // n_tx):
            started[i] += 1
            try:
                await tx.send((i, k))
            except SenderError:
                env.require(chan.is_closed, "refused", "send() was refused by an open channel")
                return
            done[i] += 1
            free = sum(done) - len(got) - n_rx
            env.require(free <= limit, "over-capacity", lambda: f"{free} messages, limit {limit}")
            if rng.random() < 0.05:
                await env.pause()

    async def receiver() -> None:
        rx = chan.new_receiver()
        while True:
            try:
                if rng.random() < 0.2:
                    await rx.ready()
                    msg = rx.consume()
                else:
                    msg = await rx.receive()
            except ReceiverStoppedError:
                return
            got.append(msg)
            if rng.random() < 0.05:
                await env.pause()

    for i in range(n_tx):
        env.spawn(sender(i), "sender")
    if rng.random() < 0.5:
        await env.idle()
        env.require(
            sum(done) == min(limit, total // n_tx * n_tx), "fill", lambda: f"{sum(done)} accepted, limit {limit}"
        )
        env.require(
            sum(started) - sum(done) == min(n_tx, sum(started) - sum(done)), "fill", "too many are blocked"
        )
    if rng.random() < 0.2:
        await chan.close()
    for _ in range(n_rx):
        env.spawn(receiver(), "receiver")
    await env.idle()
    await chan.close()
    await env.idle()
    env.require(len(got) == len(set(got)), "duplicate", "a message was delivered twice")
    env.require(len(got) == sum(done), "lost", lambda: f"{sum(done)} accepted, {len(got)} delivered")
    for i in range(n_tx):
        mine = [k for j, k in got if j == i]
        env.require(sorted(mine) == list(range(done[i])), "lost", f"of sender {i}: {len(mine)} of {done[i]}")
        if n_rx == 1:
            env.require(mine == list(range(done[i])), "overtaken", "messages of one sender overtook each other")
            env.cov["ordered_pairs"] += len(mine)
    env.cov["long_runs"] += 1
    env.nontrivial = len(got) > 100


# -- C02 --------------------------------------------------------------------------------------


def judge_fifo(w: World) -> None:
    """No message overtakes one that was accepted before it was sent."""
    sends = {s.key: s for s in w.sends if s.outcome == "ok"}
    gots = [g for g in w.gots if g.key in sends]
    pairs = 0
    for b in gots:
        sb = sends[b.key]
        for a in gots:
            if sends[a.key].ret < sb.call:
                pairs += 1
                if a.claim > b.at:
                    raise Violation(
                        "overtaken",
                        f"send({a.key}) returned before send({b.key}) was called, but {b.key} was "
                        f"handed out to {b.rx.name} (event {b.at}) before the wait that got {a.key} "
                        f"at {a.rx.name} began (event {a.claim})",
                    )
    w.env.cov["ordered_pairs"] += pairs
    w.env.nontrivial = pairs >= 3


async def c02_mix(env: Env) -> None:
    w = _world(env, 0.0)
    _traffic(w, env.rng.random() < 0.6, _styles(env.rng), env.rng.random() < 0.4)
    await env.idle()
    await w.finish()
    judge_fifo(w)


async def c02_one(env: Env) -> None:
    """One or two receivers, many blocked senders, small buffers."""
    rng = env.rng
    w = World(env, rng.choice((1, 2, 3, 4)), rng.randint(1, 5), rng.choice((1, 1, 2)), 0.0)
    for i in range(len(w.tx)):
        env.spawn(w.sender(i, rng.randint(2, 8), rng.random() < 0.3), "sender")
    await env.settle()
    for rx in w.rxs:
        env.spawn(rx.run(Rx.PLAIN if rng.random() < 0.6 else Rx.ALL, 100), "consumer")
    await env.idle()
    await w.finish()
    judge_fifo(w)


# -- C03 --------------------------------------------------------------------------------------


def judge_rest(w: World) -> None:
    """At rest on an open channel nobody waits without a reason."""
    env = w.env
    flying = w.in_flight()
    certain = sum(bool(r.held and not r.waiting and not r.loose) for r in w.rxs)
    possible = sum(bool((r.held or r.maybe) and not r.waiting) for r in w.rxs)
    blocked_tx = [s for s in w.sends if s.outcome == "pending"]
    blocked_rx = [r for r in w.rxs if r.waiting or r.loose]
    env.cov["rest_judged"] += 1
    env.cov["rest_with_blocked_senders"] += bool(blocked_tx)
    env.cov["rest_with_blocked_receivers"] += bool(blocked_rx)
    env.ev("rest", flying, certain, possible, len(blocked_tx), len(blocked_rx))
    env.require(
        flying - possible <= w.limit, "over-capacity",
        lambda: f"{flying - possible} or more unclaimed messages, limit {w.limit}",
    )
    env.require(
        not blocked_tx or flying - certain >= w.limit, "sender-forgotten",
        lambda: f"at rest {len(blocked_tx)} sender(s) wait although at most {flying - certain} of "
        f"{w.limit} places are taken",
    )
    env.require(
        not blocked_rx or flying - possible <= 0, "receiver-forgotten",
        lambda: f"at rest {[r.name for r in blocked_rx]} wait although at least {flying - possible} "
        "message(s) are available",
    )


async def c03_mix(env: Env) -> None:
    w = _world(env)
    w.watch_capacity = True
    for _ in range(env.rng.randint(1, 3)):
        _traffic(w, env.rng.random() < 0.7, _styles(env.rng), env.rng.random() < 0.7)
        await env.idle()
        judge_rest(w)
        if env.rng.random() < 0.5:
            kill(env)
            await env.idle()
        if any(r.waiting or r.loose for r in w.rxs):
            break
    env.nontrivial = len(w.gots) >= 2


async def c03_bursts(env: Env) -> None:
    """Bursts of operations and cancellations in a few loop iterations, then rest."""
    rng = env.rng
    w = World(env, rng.choice((1, 1, 2, 3)), 2, rng.randint(2, 5))
    w.watch_capacity = True
    tasks: list[asyncio.Task[Any]] = []
    for _ in range(rng.randint(3, 10)):
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            tasks = [t for t in tasks if not t.done()]
            idle = [x for x in w.rxs if not x.loose and not x.waiting]
            if r < 0.32:
                tasks.append(env.spawn(w.send(rng.randrange(2)), "send"))
            elif r < 0.42:
                # The message arrives and a waiter goes away in the same step.
                await _now(w.send(rng.randrange(2)), tasks, env)
            elif r < 0.70 and idle:
                rx = rng.choice(idle)
                tasks.append(rx.sub(rng.choice(("receive", "receive", "ready"))))
            elif tasks:
                task = rng.choice(tasks)
                for x in w.rxs:
                    if task in x.subs:
                        x.left_behind()
                task.cancel()
                env.ev("cancel")
                env.cov["cancelled_waits"] += 1
            if rng.random() < 0.4:
                await env.yields(rng.choice((1, 1, 2, 3)))
        await env.settle()
        judge_rest(w)
    env.nontrivial = len(w.gots) >= 1 and env.cov["cancelled_waits"] >= 1


async def _now(coro: Any, tasks: list[Any], env: Env) -> None:
    """Run a coroutine in this very step; leave the rest to a task if it suspends."""
    task = env.spawn(coro, "send")
    tasks.append(task)
    await env.yields(1)


async def c03_fill(env: Env) -> None:
    """Fill the buffer without receivers; then every receive lets exactly one sender go on."""
    rng = env.rng
    limit = rng.choice((1, 2, 3, 5, 10, 17))
    w = World(env, limit, rng.randint(1, 3), 1)
    env.require(w.chan.limit == limit, "limit", f"limit is {w.chan.limit}, not {limit}")
    total = limit + rng.randint(0, 6)
    for n in range(total):
        env.spawn(w.send(rng.randrange(len(w.tx))), "send")
        if rng.random() < 0.5:
            await env.settle()
            ok = sum(s.outcome == "ok" for s in w.sends)
            env.require(
                ok == min(n + 1, limit), "fill",
                lambda: f"{ok} of {n + 1} sends returned, limit {limit}",  # noqa: B023
            )
    await env.settle()
    rx = w.rxs[0]
    for taken in range(1, total + 1):
        env.spawn(rx.receive() if rng.random() < 0.5 else rx.ready_consume(), "take")
        await env.idle()
        ok = sum(s.outcome == "ok" for s in w.sends)
        env.require(
            len(w.gots) == taken, "receiver-forgotten",
            lambda: f"receive() number {taken} waits; {ok} accepted",  # noqa: B023
        )
        want = min(total, limit + taken)
        env.cov["fill_steps"] += 1
        env.require(
            ok == want, "sender-forgotten" if ok < want else "over-capacity",
            lambda: f"after {taken} receives {ok} sends returned, not {want}",  # noqa: B023
        )
    env.spawn(rx.receive(), "take")
    await env.idle()
    env.require(rx.waiting == 1, "empty-receive", "receive() returned from an empty channel")
    env.nontrivial = True


# -- C04 --------------------------------------------------------------------------------------


def check_sender_error(w: World, s: Send) -> None:
    exc = s.exc
    w.env.require(
        isinstance(exc, SenderError) and exc.sender is w.tx[s.sender], "sender-attribute",
        lambda: f"wrong sender in {exc!r}",
    )
    cause = exc.__cause__ if exc else None
    w.env.require(
        isinstance(cause, ChannelClosedError) and cause.channel is w.chan, "sender-cause",
        lambda: f"wrong cause of {exc!r}: {cause!r}",
    )


async def c04_close(env: Env) -> None:
    rng = env.rng
    w = _world(env)
    env.require(not w.chan.is_closed, "is_closed", "a new channel is closed")
    _traffic(w, rng.random() < 0.5, _styles(rng), rng.random() < 0.3)
    closes = rng.choice((1, 1, 2))

    async def closer() -> None:
        for _ in range(rng.randint(0, 4)):
            await env.pause()
        w.close_at = w.close_at or env.ev("close")
        await w.chan.close()
        env.ev("closed")

    if rng.random() < 0.5:
        await env.idle()
        blocked = sum(s.outcome == "pending" for s in w.sends)
        env.cov["closed_with_blocked_senders"] += bool(blocked)
        env.cov["closed_with_blocked_receivers"] += any(r.waiting for r in w.rxs)
    for _ in range(closes):
        env.spawn(closer(), "closer")
    await env.idle()
    env.require(w.chan.is_closed, "is_closed", "is_closed is False after close()")

    # Sends that were called or still waiting at the close are refused.
    for i in range(len(w.tx)):
        env.spawn(w.send(i), "late-send")
    await env.idle()
    for s in w.sends:
        if s.outcome == "pending":
            raise Violation("sender-blocked", f"send({s.key}) is still waiting after close()")
        if s.outcome == "ok" and s.ret > w.close_at:
            raise Violation(
                "send-after-close", f"send({s.key}) returned normally after close() was called"
            )
        if s.outcome == "refused":
            env.require(s.ret > w.close_at, "refused-early", f"send({s.key}) refused before close()")
            check_sender_error(w, s)
            env.cov["refused"] += 1
            env.cov["refused_while_blocked"] += s.call < w.close_at
    for rx in w.rxs:
        if rx.waiting:
            raise Violation("receiver-blocked", f"{rx.name} is still waiting after close()")
    kill(env)
    await env.idle()

    # Accepted messages are drained, then everybody is stopped.
    for rx in w.rxs:
        rx.quit = True
        env.spawn(rx.drain(), "drain")
    await env.idle()
    for i, rx in enumerate(w.rxs):
        env.require(rx.stopped, "not-stopped", f"{rx.name} is not stopped after draining")
        for _ in range(rng.randint(1, 3)):
            rx.stop_exc = None
            style = rng.choice((rx.receive, rx.anext, rx.iterate, rx.ready_consume))
            task = env.spawn(style(), "again")
            await env.idle()
            env.require(task.done(), "receiver-blocked", f"{rx.name} waits after it had stopped")
            env.cov["stopped_receives"] += 1
            exc = rx.stop_exc
            if exc is not None and i not in w.mapped:
                env.require(
                    exc.receiver is rx.recv, "receiver-attribute", lambda: f"wrong in {exc!r}"
                )
                cause = exc.__cause__
                env.require(
                    isinstance(cause, ChannelClosedError) and cause.channel is w.chan,
                    "receiver-cause", lambda: f"wrong cause of {exc!r}: {cause!r}",
                )
        env.require(
            not rx.after_stop, "revived",
            lambda: f"{rx.name} delivered {rx.after_stop!r} after it had stopped",  # noqa: B023
        )
    refused = {s.key for s in w.sends if s.outcome == "refused"}
    refused -= {s.key for s in w.sends if s.outcome == "ok"}
    for g in w.gots:
        env.require(
            g.key not in refused, "refused-delivered", lambda: f"{g.key} was refused"  # noqa: B023
        )
    n_ok = sum(s.outcome == "ok" for s in w.sends)
    env.require(
        len(w.gots) == n_ok, "not-drained",
        lambda: f"{n_ok} messages were accepted before the close, {len(w.gots)} delivered",
    )
    # A receiver created after the close is stopped, too.
    late = Rx(env, w.chan.new_receiver(), "late", w.on_msg)
    env.spawn(late.receive(), "late")
    await env.idle()
    env.require(late.stopped, "late-receiver", "a receiver made after close() is not stopped")
    assert isinstance(late.stop_exc, ReceiverStoppedError)
    env.nontrivial = env.cov["refused"] > 0 and n_ok > 0


async def forgotten(env: Env) -> None:
    """Receivers and senders come and go; some are forgotten with a message that ready() had claimed."""
    rng = env.rng
    limit = rng.choice((1, 1, 2, 3, 10))
    chan: Anycast[int] = Anycast(name=rng.choice(NAMES), limit=limit)
    recvs: list[Any] = [chan.new_receiver() for _ in range(rng.randint(1, 3))]
    claimed: dict[int, int] = {}  # by receiver, what it must deliver next
    order: list[int] = []  # accepted and not claimed
    unsure: set[int] = set()  # claimed by receivers that are gone
    got: list[int] = []
    sends: list[asyncio.Task[Any]] = []
    n = 0

    async def send(num: int) -> None:
        await chan.new_sender().send(num)
        order.append(num)
        env.ev("sent", num)

    def take(recv: Any, msg: int) -> None:
        env.ev("got", msg)
        env.cov["forgotten_deliveries"] += 1
        env.require(msg not in got, "duplicate", f"{msg} was delivered twice")
        got.append(msg)
        if msg in unsure:
            return
        want = claimed.pop(id(recv)) if id(recv) in claimed else order.pop(0) if order else None
        env.require(msg == want, "lost-or-reordered", f"{msg} was delivered instead of {want}; {order} are to come")

    for _ in range(rng.randint(5, 30)):
        r = rng.random()
        if r < 0.4:
            n += 1
            env.ev("send", n)
            sends.append(env.spawn(send(n), "send"))
        elif r < 0.65 and recvs:
            recv = rng.choice(recvs)
            if id(recv) in claimed or order:
                take(recv, await asyncio.wait_for(recv.receive(), 5))
        elif r < 0.75 and recvs:
            recv = rng.choice(recvs)
            if id(recv) not in claimed and order and not unsure:
                await asyncio.wait_for(recv.ready(), 5)
                claimed[id(recv)] = order.pop(0)
                env.ev("claim", claimed[id(recv)])
        elif r < 0.9 and recvs:
            recv = recvs.pop(rng.randrange(len(recvs)))
            how = rng.random()
            if id(recv) not in claimed and not order and not unsure and how < 0.4:
                task = asyncio.ensure_future(recv.receive())
                await env.yields(rng.choice((0, 1, 2)))
                task.cancel()
                await asyncio.wait([task])
                del task
            env.cov["forgotten"] += 1
            if id(recv) in claimed:
                env.cov["forgotten_claims"] += 1
                unsure.add(claimed.pop(id(recv)))
            if rng.random() < 0.4:
                tangle(env, recv)
            env.ev("forget", sorted(unsure))
            del recv
            if rng.random() < 0.5:
                gc.collect()
        elif r < 0.95:
            recvs.append(chan.new_receiver())
        else:
            await env.pause()
        recv = None
        await env.settle()
        accepted = sum(t.done() for t in sends)
        env.require(
            accepted <= limit + len(got) + len(claimed) + len(unsure), "over-capacity",
            f"{accepted} accepted, {len(got)} delivered, {len(claimed)} claimed, {len(unsure)} forgotten, limit {limit}",
        )
        env.require(
            len(sends) == accepted or len(order) + len(unsure) >= limit, "sender-stuck",
            f"a sender waits although there is room: {order} of {limit}",
        )
    gc.collect()
    await env.settle()
    for recv in recvs:
        if id(recv) in claimed:
            take(recv, await asyncio.wait_for(recv.receive(), 5))
    last = chan.new_receiver()
    await env.settle()
    while True:
        await env.settle()
        if not order:
            break
        try:
            take(last, await asyncio.wait_for(last.receive(), 5))
        except TimeoutError as exc:
            raise Violation("lost", f"{order} were accepted but never delivered; {sorted(unsure)} were forgotten") from exc
    env.require(all(t.done() for t in sends), "sender-stuck", "a sender still waits at the end")
    env.nontrivial = env.cov["forgotten_deliveries"] >= 2


_RULE = (
    "one case = one seeded execution of the real channel on the virtual-clock loop: 1-5 senders, "
    "1-5 receivers, limit 1-17, random mixtures of all consumption styles, timeouts, cancellations, "
    "select loops left in all ways; non-trivial: "
)
_ASSUME = ["one event loop; a receiver is used by one logical consumer at a time (waits overlap only "
           "while a cancelled one is unwinding)"]
CHECKS = {
    "C01": Check(
        "C01", _RULE + "at least 3 (2 for select_leave) deliveries were accounted for",
        [("mix", 3, c01_mix), ("select_leave", 1, c01_select_leave), ("long", 0.02, long_run),
         ("lives", 0.3, anycast_lives), ("forgotten", 0.4, forgotten)], 20000, 500000,
        {"conservation_checks": 19000, "delivered": 60000, "cancelled_waits": 3000, "blocked_sends": 15000,
         "overlaps": 1500, "orphan_deliveries": 3000, "forgotten": 3000, "forgotten_claims": 200},
        _ASSUME,
    ),
    "C02": Check(
        "C02", _RULE + "at least 3 pairs of messages ordered by their sends were compared",
        [("mix", 1, c02_mix), ("one", 1, c02_one), ("forgotten", 0.1, forgotten), ("long", 0.01, long_run)], 20000, 500000,
        {"ordered_pairs": 500000, "blocked_sends": 30000, "cancelled_waits": 3000}, _ASSUME,
    ),
    "C03": Check(
        "C03", _RULE + "a wait was cancelled and a message delivered (bursts), 2 deliveries (mix), or "
        "the buffer was filled and emptied step by step (fill)",
        [("mix", 2, c03_mix), ("bursts", 3, c03_bursts), ("fill", 1, c03_fill), ("forgotten", 0.4, forgotten), ("long", 0.03, long_run),
         ("contended", 0.01, contended_send)], 20000, 500000,
        {"rest_judged": 20000, "rest_with_blocked_senders": 7000, "rest_with_blocked_receivers": 3000,
         "cancelled_waits": 12000, "fill_steps": 8000, "contended_runs": 10, "forgotten": 2000, "forgotten_claims": 150}, _ASSUME,
    ),
    "C04": Check(
        "C04", _RULE + "a send was refused and messages were drained after the close",
        [("close", 1, c04_close)], 20000, 500000,
        {"refused": 30000, "refused_while_blocked": 2500, "stopped_receives": 25000}, _ASSUME,
    ),
}
