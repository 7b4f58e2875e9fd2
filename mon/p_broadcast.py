"""C05-C08: Broadcast channels."""

from __future__ import annotations

import asyncio
import collections
import contextlib
import gc
import logging
import weakref
from typing import Any

from frequenz.channels import (
    Broadcast,
    ChannelClosedError,
    Receiver,
    ReceiverStoppedError,
    SenderError,
    select,
    selected_from,
)
from frequenz.channels.event import Event

from .core import NAMES, Env, Messages, Violation, no_loop, tangle
from .decoy import maybe_decoy
from .drive import Rx, kill
from .p_lives import broadcast_lives
from .p_long import long_broadcast, long_lengths
from .run import Check

MAX_SEND_ITERS = 3


class _Capture(logging.Handler):
    def __init__(self) -> None:
        super().__init__(logging.WARNING)
        self.records: list[logging.LogRecord] = []

    def emit(self, record: logging.LogRecord) -> None:
        record.getMessage()  # it must be possible to write it
        self.records.append(record)


class BRx(Rx):
    """A receiver of a Broadcast channel with the model of its buffer."""

    raw: Receiver[Any]
    limit: int
    model: "collections.deque[str]"
    born: int  # position in the log of sent messages
    dropped: int = 0
    matched: int = -1  # position of the last delivered message in the log of sent messages
    n_model: int = 0
    mapped: bool = False
    label: str | None = None
    task: "asyncio.Task[Any] | None" = None


class World:
    """A channel, its users and the model."""

    def __init__(self, env: Env, mode: str, n_tx: int, resend: bool = False, p_const: float = 0.15) -> None:
        self.env = env
        self.mode = mode
        name = env.rng.choice(NAMES)
        with no_loop(env.rng.random() < 0.1):
            self.chan: Broadcast[Any] = (
                Broadcast(name=name, resend_latest=resend)
                if resend or env.rng.random() < 0.5
                else Broadcast(name=name)
            )
        env.require(self.chan.name == name, "name", f"the name is {self.chan.name!r}, not {name!r}")
        self.msgs = Messages(env, p_const)
        self.tx = [self.chan.new_sender() for _ in range(n_tx)]
        self.rxs: list[BRx] = []
        self.sent: list[str] = []
        self.closed = False
        self.latest: str | None = None
        self.n_rx = 0
        self.drops = 0
        self.capture = _Capture()
        self.ghosts: list[weakref.ref[Any]] = []  # deleted, but maybe still referenced by a task
        maybe_decoy(env, name, env.rng.choice((1, 3, 50)))

    # -- receivers ----------------------------------------------------------------------------

    def new_rx(self, limit: int | None = None, mapped: bool | None = None) -> BRx:
        env = self.env
        if limit is None:
            limit = env.rng.choice((1, 1, 2, 3, 5, 20, 50))
        kwargs: dict[str, Any] = {} if limit == 50 else {"limit": limit}
        if env.rng.random() < 0.3:
            kwargs["name"] = f"name{self.n_rx}"
            if env.rng.random() < 0.3:
                kwargs["name"] = env.rng.choice((None, *NAMES))
        with no_loop(env.rng.random() < 0.1):
            raw = self.chan.new_receiver(**kwargs)
        if mapped is None:
            mapped = env.rng.random() < 0.15
        rx = BRx(env, raw.map(lambda m: m) if mapped else raw, f"r{self.n_rx}", self.on_msg)
        self.n_rx += 1
        rx.raw, rx.limit, rx.mapped, rx.label = raw, limit, mapped, kwargs.get("name")
        rx.model = collections.deque()
        rx.born = len(self.sent)
        if not self.closed and self.chan.resend_latest and self.latest is not None:
            rx.model.append(self.latest)
            rx.n_model = 1
            rx.born -= 1
        rx.matched = rx.born - 1
        env.ev("new", rx.name, limit, len(rx.model))
        self.rxs.append(rx)
        env.cov["receivers"] += 1
        self.check_len(rx)
        return rx

    def check_len(self, rx: BRx) -> None:
        if self.mode in ("C06", "C07"):
            self.env.cov["len_checks"] += 1
            got = len(rx.raw)  # type: ignore[arg-type]
            self.env.require(
                got == len(rx.model), "len",
                lambda: f"len({rx.name}) is {got}, the model has {list(rx.model)}",
            )

    def on_msg(self, rx: Rx, msg: Any) -> None:
        assert isinstance(rx, BRx)
        env = self.env
        key = self.msgs.key(msg)
        env.ev("got", rx.name, key)
        env.cov["delivered"] += 1
        if self.mode in ("C06", "C07", "C08"):
            want = rx.model.popleft() if rx.model else None
            if want != key:
                raise Violation(
                    "wrong-message",
                    f"{rx.name} (limit {rx.limit}) delivered {key}, expected {want}, "
                    f"then {list(rx.model)}",
                )
            self.check_len(rx)
            return
        # C05: a subsequence of the common order, with as many gaps as there were overflows.
        if rx.model:
            rx.model.popleft()
        pos = rx.matched + 1
        while pos < len(self.sent) and self.sent[pos] != key:
            pos += 1
        if pos >= len(self.sent):
            seen = key in self.sent[rx.born :]
            raise Violation(
                "order-or-duplicate" if seen else "phantom",
                f"{rx.name} delivered {key} after message number {rx.matched} of "
                f"{self.sent[rx.born:]} (sent since it exists)",
            )
        env.cov["order_checks"] += 1
        rx.matched = pos

    # -- operations ---------------------------------------------------------------------------

    async def send(self, i: int) -> None:
        env = self.env
        msg, key = self.msgs.new()
        env.ev("send", i, key)
        iters = env.loop.iters
        closed = self.closed
        before = len(self.capture.records)
        drops = 0
        full: list[str] = []
        self.ghosts = [g for g in self.ghosts if g() is not None]
        ghosts = len(self.ghosts)
        if not closed:
            self.latest = key
            self.sent.append(key)
            for rx in self.rxs:
                if len(rx.model) == rx.limit:
                    rx.model.popleft()
                    rx.dropped += 1
                    drops += 1
                    if rx.label is not None:
                        full.append(rx.label)
                rx.model.append(key)
                rx.n_model += 1
        self.drops += drops
        try:
            await self.tx[i].send(msg)
        except SenderError as exc:
            if not closed:
                raise Violation("send-refused", f"send() on an open channel raised {exc!r}") from exc
            env.ev("refused", i, key)
            env.cov["refused"] += 1
            if self.mode == "C08":
                cause = exc.__cause__
                env.require(exc.sender is self.tx[i], "sender-attribute", f"wrong sender in {exc!r}")
                env.require(
                    isinstance(cause, ChannelClosedError) and cause.channel is self.chan,
                    "sender-cause", lambda: f"wrong cause of {exc!r}: {cause!r}",
                )
            return
        env.ev("sent", i, key)
        env.cov["sends"] += 1
        if self.mode == "C08":
            env.require(not closed, "send-after-close", "send() returned normally after close()")
        if self.mode == "C06":
            took = env.loop.iters - iters
            env.require(
                took <= MAX_SEND_ITERS, "send-waited", lambda: f"send() took {took} loop iterations"
            )
            n = len(self.capture.records) - before
            if took == 0:
                env.cov["overflows"] += drops
                env.cov["log_checks"] += 1
                env.require(
                    drops <= n <= drops + ghosts, "warning",
                    lambda: f"{drops} messages were dropped, {n} warnings were logged",
                )
                texts = [r.getMessage() for r in self.capture.records[before:]]
                for label in full:
                    self.env.cov["named_warnings"] += 1
                    env.require(
                        any(label in t or repr(label)[1:-1] in t for t in texts), "warning",
                        lambda: f"no warning names the receiver {label!r:.40}: {texts}",  # noqa: B023
                    )
            for rx in self.rxs:
                self.check_len(rx)

    def delete(self, rx: BRx) -> None:
        """Forget a receiver, even if somebody waits for it."""
        self.env.ev("delete", rx.name)
        self.env.cov["deleted"] += 1
        self.rxs.remove(rx)
        self.ghosts.append(weakref.ref(rx.raw))
        if self.env.rng.random() < 0.3:
            tangle(self.env, rx.raw, rx.recv)
        for task in [*rx.subs, rx.task]:
            if task is not None:
                task.cancel()

    # -- actors -------------------------------------------------------------------------------

    async def sender(self, i: int, n: int) -> None:
        rng = self.env.rng
        for _ in range(n):
            if rng.random() < 0.6:
                await self.env.pause()
            for _ in range(rng.choice((1, 1, 1, 2, 4))):
                await self.send(i)

    def consume(self, rx: BRx, styles: tuple[str, ...], ops: int) -> None:
        rx.task = self.env.spawn(rx.run(styles, ops), "consumer")

    async def churn(self, n: int, styles: tuple[str, ...]) -> None:
        """Creates and deletes receivers in the middle of the traffic."""
        rng = self.env.rng
        for _ in range(n):
            await self.env.pause()
            if rng.random() < 0.5 and len(self.rxs) > 1:
                self.delete(rng.choice(self.rxs))
            else:
                rx = self.new_rx()
                if rng.random() < 0.7:
                    self.consume(rx, styles, rng.randint(1, 10))

    async def racer(self, n: int) -> None:
        """A message (or the close) coincides with cancellations."""
        rng = self.env.rng
        for _ in range(n):
            await self.env.pause()
            await self.env.pause()
            live = [t for t in self.env.cancellable if not t.done()]
            if rng.random() < 0.8:
                await self.send(rng.randrange(len(self.tx)))
            await self.env.yields(rng.choice((0, 0, 1, 1, 2)))
            rng.shuffle(live)
            for task in live[: rng.choice((1, 2))]:
                task.cancel()

    def judge_stuck(self) -> None:
        for rx in self.rxs:
            if (rx.waiting or rx.loose) and rx.model:
                raise Violation(
                    "receiver-forgotten",
                    f"at rest {rx.name} is waiting although it should have {list(rx.model)}",
                )

    async def finish(self) -> None:
        """Stop the consumers, then drain."""
        env = self.env
        for rx in self.rxs:
            rx.quit = True
            for bell in rx.bells:
                bell.set()
        await env.yields(env.rng.choice((0, 1, 2, 5)))
        kill(env)
        await env.idle()
        for rx in self.rxs:
            env.spawn(rx.drain(), "drain")
        await env.idle()
        self.judge_stuck()
        for rx in self.rxs:
            if self.mode == "C05":
                env.cov["totals"] += 1
                env.require(
                    rx.n_got + rx.dropped == rx.n_model, "lost",
                    lambda: f"{rx.name}: {rx.n_model} sent since it exists, {rx.n_got} delivered, "  # noqa
                    f"{rx.dropped} overflows",  # noqa: B023
                )
            elif rx.model:
                raise Violation("lost", f"{rx.name} never delivered {list(rx.model)}")
        kill(env)
        await env.idle()


def _styles(rng: Any) -> tuple[str, ...]:
    r = rng.random()
    if r < 0.3:
        return Rx.PLAIN
    if r < 0.5:
        return tuple(rng.sample(list(Rx.STYLES), rng.randint(1, 3)))
    return Rx.ALL


async def c05_mix(env: Env) -> None:
    rng = env.rng
    w = World(env, "C05", rng.randint(1, 4))
    styles = _styles(rng)
    crowd = rng.random() < 0.01
    env.cov["crowds"] += crowd
    for _ in range(rng.randint(20, 70) if crowd else rng.randint(1, 4)):
        rx = w.new_rx()
        if rng.random() < 0.85:
            w.consume(rx, styles, rng.randint(1, 20))
    for i in range(len(w.tx)):
        env.spawn(w.sender(i, rng.randint(1, 10)), "sender")
    if rng.random() < 0.6:
        env.spawn(w.churn(rng.randint(1, 5), styles), "churn")
    if rng.random() < 0.6:
        env.spawn(w.racer(rng.randint(1, 6)), "racer")
    await env.idle()
    w.judge_stuck()
    await w.finish()
    env.nontrivial = env.cov["order_checks"] >= 3


async def c05_churn(env: Env) -> None:
    """Receivers come and go between and during the sends of a single driver."""
    rng = env.rng
    w = World(env, "C05", 2)
    for _ in range(rng.randint(10, 40)):
        r = rng.random()
        if r < 0.4:
            await w.send(rng.randrange(2))
        elif r < 0.6:
            w.new_rx(rng.choice((2, 10, 50)))
        elif r < 0.75 and w.rxs:
            w.delete(rng.choice(w.rxs))
            if rng.random() < 0.3:
                gc.collect()
        elif w.rxs:
            rx = rng.choice(w.rxs)
            if not rx.waiting and not rx.loose:
                if rng.random() < 0.7:
                    rx.task = env.spawn(rx.STYLES[rng.choice(Rx.PLAIN)](rx), "consumer")
                else:
                    rx.sub()
                if rng.random() < 0.7:
                    await env.yields(rng.choice((1, 1, 3)))
        if rng.random() < 0.2:
            await env.yields(1)
    await env.idle()
    w.judge_stuck()
    await w.finish()
    env.nontrivial = env.cov["order_checks"] >= 3


async def storm(env: Env, mode: str) -> None:
    """Waits are cancelled and begun again in the step in which a message or the close arrives."""
    rng = env.rng
    w = World(env, mode, 2)
    for _ in range(rng.choice((1, 1, 2, 3))):
        w.new_rx()
    if rng.random() < 0.3:
        w.new_rx()
        w.delete(w.rxs[-1])
    watching: list[tuple[BRx, asyncio.Task[Any]]] = []  # tasks that only wait for ready()

    def judge_watchers() -> None:
        for rx, task in watching:
            env.cov["ready_watchers"] += 1
            if task.done():
                env.require(
                    task.cancelled() or bool(task.result()) or w.closed, "ready",
                    lambda: f"{rx.name}.ready() returned {task.result()!r}",  # noqa: B023
                )
            else:
                env.require(
                    not w.closed and (not rx.model or rx not in w.rxs), "receiver-forgotten",
                    lambda: f"at rest {rx.name}.ready() waits, there are {list(rx.model)}",  # noqa: B023
                )

    for _ in range(rng.randint(1, 5)):
        for rx in w.rxs:
            if not rx.loose and rng.random() < 0.9:
                rx.sub("receive")
            if rng.random() < 0.4:
                for _ in range(rng.choice((1, 1, 2, 4))):
                    watching.append((rx, env.spawn(rx.recv.ready(), "watch")))
        await env.yields(rng.choice((1, 2, 3)))
        for _ in range(rng.choice((1, 1, 2, 3))):
            for rx in w.rxs:
                live = [t for t in rx.subs if not t.done()]
                if live and rng.random() < 0.7:
                    rx.left_behind()
                    live[-1].cancel()
                    env.cov["cancelled_waits"] += 1
                    if rng.random() < 0.85:
                        rx.sub(rng.choice(("receive", "receive", "ready")))
                        env.cov["restarted_waits"] += 1
            await env.yields(rng.choice((0, 0, 1, 1, 2)))
        if mode == "C08" and rng.random() < 0.4:
            w.closed = True
            env.ev("close")
            env.cov["closed_in_storm"] += 1
            await w.chan.close()
            break
        for _ in range(rng.choice((1, 1, 1, 2))):
            await w.send(rng.randrange(2))
        await env.settle()
        w.judge_stuck()
        judge_watchers()
    await env.idle()
    judge_watchers()
    if w.closed:
        for rx in w.rxs:
            env.require(not rx.loose, "receiver-blocked", f"{rx.name} is still waiting after close()")
        await w.send(0)
    w.judge_stuck()
    await w.finish()
    env.nontrivial = env.cov["restarted_waits"] >= 1 and env.cov["delivered"] >= 1


async def c05_storm(env: Env) -> None:
    await storm(env, "C05")


async def c08_storm(env: Env) -> None:
    await storm(env, "C08")


async def c06_steps(env: Env) -> None:
    """Exact model of all buffers, checked after every operation."""
    rng = env.rng
    w = World(env, "C06", rng.randint(1, 3))
    logger = logging.getLogger("frequenz.channels")
    level = rng.choice((logging.WARNING, logging.DEBUG))
    logger.setLevel(level)
    logger.propagate = False
    logger.addHandler(w.capture)
    try:
        limits: tuple[int, ...] = (1, 2, 3, 4, 50) if rng.random() < 0.9 else (50,)
        long = rng.random() < 0.004
        if long:
            limits = rng.choice(((255, 256, 257), (63, 64, 65, 100), (1000,), (127, 128, 500)))
        for _ in range(rng.randint(1, 4)):
            w.new_rx(rng.choice(limits))
        top = 90 if any(rx.limit == 50 for rx in w.rxs) and rng.random() < 0.3 else 40
        if long:
            top = 3000
            env.cov["long_runs"] += 1
        for _ in range(rng.randint(5, top)):
            r = rng.random()
            if r < 0.55:
                await w.send(rng.randrange(len(w.tx)))
            elif r < 0.60 and len(w.rxs) > 1:
                w.delete(rng.choice(w.rxs))
            elif r < 0.65:
                w.new_rx(rng.choice(limits))
            elif r < 0.95 and w.rxs:
                rx = rng.choice(w.rxs)
                free = not rx.waiting and not rx.loose and (rx.task is None or rx.task.done())
                if rx.model and free:
                    if rng.random() < 0.3:
                        ok = await asyncio.wait_for(rx.recv.ready(), 1)
                        env.require(ok is True, "ready", f"{rx.name}.ready() is {ok!r} with messages")
                        env.cov["ready_without_consume"] += 1
                        for _ in range(rng.choice((0, 1, 3))):
                            await w.send(rng.randrange(len(w.tx)))
                        rx.got(rx.recv.consume())
                    else:
                        await asyncio.wait_for(rx.receive(), 1)
                elif free:
                    rx.task = env.spawn(rx.receive(), "waiter")
                    await env.yields(rng.choice((0, 1, 2)))
            else:
                await env.settle()
                w.judge_stuck()
        await env.idle()
        w.judge_stuck()
        await w.finish()
        for rec in w.capture.records:
            env.require(
                rec.name.startswith("frequenz.channels") and rec.levelno == logging.WARNING,
                "warning", f"unexpected log record {rec.name} {rec.levelname}",
            )
    finally:
        logger.removeHandler(w.capture)
        logger.setLevel(logging.NOTSET)
        logger.propagate = True
    env.nontrivial = w.drops >= 1 and env.cov["delivered"] >= 1


async def c06_mix(env: Env) -> None:
    """Slow, idle, waiting and dying receivers under concurrent senders."""
    rng = env.rng
    w = World(env, "C06", rng.randint(1, 4))
    logger = logging.getLogger("frequenz.channels")
    logger.setLevel(logging.WARNING)
    logger.propagate = False
    logger.addHandler(w.capture)
    try:
        styles = _styles(rng)
        for _ in range(rng.randint(1, 4)):
            rx = w.new_rx(rng.choice((1, 2, 3)))
            if rng.random() < 0.7:
                w.consume(rx, styles, rng.randint(1, 10))
        for i in range(len(w.tx)):
            env.spawn(w.sender(i, rng.randint(3, 12)), "sender")
        if rng.random() < 0.5:
            env.spawn(w.churn(rng.randint(1, 5), styles), "churn")
        if rng.random() < 0.4:
            env.spawn(w.racer(rng.randint(1, 6)), "racer")
        await env.idle()
        w.judge_stuck()
        env.require(
            not any(t.get_name() == "sender" and not t.done() for t in env.tasks),
            "send-waited", "at rest a sender is still waiting in send()",
        )
        await w.finish()
    finally:
        logger.removeHandler(w.capture)
        logger.setLevel(logging.NOTSET)
        logger.propagate = True
    env.nontrivial = w.drops >= 1 and env.cov["delivered"] >= 1


async def c06_zero(env: Env) -> None:
    """Receivers that can hold nothing (limit 0) are no reason to fail, nor for others to miss anything."""
    rng = env.rng
    chan: Broadcast[Any] = Broadcast(name=rng.choice(NAMES), resend_latest=rng.random() < 0.5)
    tx = chan.new_sender()
    msgs = Messages(env, 0.1)
    zeros: list[Any] = [chan.new_receiver(limit=0)]
    others: list[tuple[Any, collections.deque[str]]] = []
    for limit in rng.sample((1, 2, 3, 50), rng.randint(0, 3)):
        others.append((chan.new_receiver(limit=limit), collections.deque(maxlen=limit)))
    waiter = env.spawn(_until_stopped(zeros[0]), "waiter") if rng.random() < 0.5 else None
    for _ in range(rng.randint(2, 12)):
        r = rng.random()
        if r < 0.6:
            msg, key = msgs.new()
            iters = env.loop.iters
            env.ev("send", key)
            await tx.send(msg)
            env.require(iters == env.loop.iters, "send-waited", "send() waited")
            for _, model in others:
                model.append(key)
            env.cov["sends_to_nothing"] += 1
        elif r < 0.75 and others:
            rx, model = rng.choice(others)
            if model:
                got, want = msgs.key(await asyncio.wait_for(rx.receive(), 1)), model.popleft()
                env.require(got == want, "wrong-message", f"{got} instead of {want}")
        elif r < 0.85:
            zeros.append(chan.new_receiver(limit=0, name=rng.choice((None, "", "zero"))))
        else:
            await env.yields(1)
        for rx in zeros:
            env.require(len(rx) == 0, "len", f"a receiver with limit 0 holds {len(rx)} messages")
        for rx, model in others:
            env.require(len(rx) == len(model), "len", f"{len(rx)} messages instead of {len(model)}")
    await chan.close()
    for rx in zeros:
        if waiter is None or rx is not zeros[0]:
            await asyncio.wait_for(_until_stopped(rx), 1)
    for rx, model in others:
        for want in model:
            got = msgs.key(await asyncio.wait_for(rx.receive(), 1))
            env.require(got == want, "wrong-message", f"{got} instead of {want}")
    if waiter is not None:
        await asyncio.wait([waiter], timeout=1)
        env.require(waiter.done(), "forgotten", "a receiver with limit 0 still waits after close()")
    env.nontrivial = True


async def _until_stopped(rx: Receiver[Any]) -> None:
    try:
        while True:
            await rx.receive()
    except ReceiverStoppedError as exc:
        if exc.receiver is not rx:
            raise Violation("receiver-attribute", f"{exc.receiver!r}") from exc


async def c07_steps(env: Env) -> None:
    """Histories of sends, creations, toggles and close."""
    rng = env.rng
    w = World(env, "C07", 2, resend=rng.random() < 0.7, p_const=0.4)
    if not w.chan.resend_latest and rng.random() < 0.5:
        w.chan.resend_latest = True
    for _ in range(rng.randint(5, 40)):
        r = rng.random()
        if r < 0.4:
            await w.send(rng.randrange(2))
        elif r < 0.65:
            had = {x.name: list(x.model) for x in w.rxs}
            rx = w.new_rx(rng.choice((1, 2, 5, 50)))
            env.cov["created_with_latest"] += bool(rx.model)
            env.cov["created_with_none"] += list(rx.model) == ["const0"]
            env.cov["created_empty"] += not rx.model
            for x in w.rxs:
                env.require(had.get(x.name, list(x.model)) == list(x.model), "harness", "model")
                w.check_len(x)
            if rng.random() < 0.3:
                rx.task = env.spawn(rx.run(_styles(rng), rng.randint(1, 4)), "consumer")
        elif r < 0.75:
            w.chan.resend_latest = not w.chan.resend_latest
            env.ev("toggle", w.chan.resend_latest)
        elif r < 0.95 and w.rxs:
            rx = rng.choice(w.rxs)
            free = not rx.waiting and not rx.loose and (rx.task is None or rx.task.done())
            if rx.model and free:
                await asyncio.wait_for(rx.STYLES[rng.choice(("receive", "ready", "anext"))](rx), 1)
            elif free and rng.random() < 0.5:
                rx.task = env.spawn(rx.receive(), "waiter")
            else:
                w.delete(rx)
        elif rng.random() < 0.4 and not w.closed:
            env.ev("close")
            w.closed = True
            await w.chan.close()
            env.cov["closed"] += 1
        else:
            await env.yields(rng.choice((1, 2, 4)))
    await env.idle()
    w.judge_stuck()
    await w.finish()
    env.nontrivial = env.cov["created_with_latest"] + env.cov["created_empty"] >= 2


async def c08_close(env: Env) -> None:
    """close() in the middle of the traffic."""
    rng = env.rng
    w = World(env, "C08", rng.randint(1, 3), resend=rng.random() < 0.3)
    env.require(not w.chan.is_closed, "is_closed", "a new channel is closed")
    styles = _styles(rng)
    for _ in range(rng.randint(1, 4)):
        rx = w.new_rx()
        if rng.random() < 0.8:
            w.consume(rx, styles, 1000)
    for i in range(len(w.tx)):
        env.spawn(w.sender(i, rng.randint(1, 6)), "sender")
    if rng.random() < 0.4:
        env.spawn(w.churn(rng.randint(1, 4), styles), "churn")
    if rng.random() < 0.5:
        env.spawn(w.racer(rng.randint(1, 4)), "racer")

    async def closer() -> None:
        for _ in range(rng.randint(0, 5)):
            await env.pause()
        env.cov["closed_with_waiters"] += any(r.waiting for r in w.rxs)
        env.cov["closed_with_buffered"] += any(bool(r.model) for r in w.rxs)
        env.ev("close")
        w.closed = True
        await w.chan.close()
        env.ev("closed")

    if rng.random() < 0.4:
        await env.idle()
    for _ in range(rng.choice((1, 1, 2))):
        env.spawn(closer(), "closer")
    await env.idle()
    env.require(w.chan.is_closed, "is_closed", "is_closed is False after close()")
    for rx in w.rxs:
        env.require(
            not rx.waiting, "receiver-blocked", f"{rx.name} is still waiting after close()"
        )
    for i in range(len(w.tx)):
        await asyncio.wait_for(w.send(i), 1)
    await w.finish()
    if rng.random() < 0.5:
        w.new_rx(3)
    for rx in w.rxs:
        for _ in range(rng.randint(1, 3)):
            rx.stop_exc = None
            task = env.spawn(rng.choice((rx.receive, rx.anext, rx.iterate, rx.ready_consume))(), "x")
            await env.idle()
            env.require(
                task.done() and rx.stopped, "not-stopped",
                f"{rx.name} is not stopped after close() and draining",
            )
            env.cov["stopped_receives"] += 1
            exc = rx.stop_exc
            if exc is not None and not rx.mapped:
                cause = exc.__cause__
                env.require(exc.receiver is rx.raw, "receiver-attribute", f"wrong in {exc!r}")
                env.require(
                    isinstance(cause, ChannelClosedError) and cause.channel is w.chan,
                    "receiver-cause", lambda: f"wrong cause of {exc!r}: {cause!r}",
                )
        env.require(not rx.after_stop, "revived", f"{rx.name} delivered {rx.after_stop!r} after stop")
    env.nontrivial = env.cov["refused"] > 0 and env.cov["delivered"] > 0


async def _left_select(env: Env, recv: Any, n_held: int) -> None:
    """A select() loop that is left at once."""
    bell = Event(name="bell")
    bell.set()
    mine = recv if env.rng.random() < 0.5 else recv.map(str)
    async with contextlib.aclosing(select(mine, bell)) as agen:  # type: ignore[type-var]
        async for sel in agen:
            if selected_from(sel, bell) or selected_from(sel, mine):
                break
    env.cov["deleted_after_select"] += 1
    _ = n_held


class _Cargo:
    """A message whose life can be observed."""


async def c08_release(env: Env) -> None:
    """Receivers the program forgets are released with everything they hold."""
    rng = env.rng
    chan: Broadcast[Any] = Broadcast(name="chan")
    sender = chan.new_sender()
    keeper = chan.new_receiver(limit=1000)

    def make() -> Any:
        kwargs: dict[str, Any] = {}
        if rng.random() < 0.7:
            kwargs["limit"] = rng.choice((1, 3, 50))
        if rng.random() < 0.4:
            kwargs["name"] = rng.choice((None, "", "a", "a", "b"))  # names need not be unique
        recv = chan.new_receiver(**kwargs)
        if rng.random() < 0.2:
            # Somebody used it in another way, too.
            recv.map(str)
            str(recv)
            repr(recv)
        return recv

    alive: list[Any] = [make() for _ in range(rng.randint(1, 4))]
    expected = 0
    closed = False
    refs: list[weakref.ref[Any]] = []
    gone: list[weakref.ref[Any]] = []
    for _ in range(rng.randint(5, 25)):
        r = rng.random()
        if r < 0.45 and not closed:
            cargo = _Cargo()
            refs.append(weakref.ref(cargo))
            await sender.send(cargo)
            del cargo
            expected += 1
        elif r < 0.6:
            alive.append(make())
        elif r < 0.8 and alive:
            i = rng.randrange(len(alive))
            n_held = len(alive[i])
            ref = weakref.ref(alive[i])
            how = rng.random()
            if how < 0.15:
                await _left_select(env, alive[i], n_held)
            elif how < 0.35 and not n_held:
                # Somebody was waiting for it and was cancelled.
                task = asyncio.ensure_future(alive[i].receive())
                await env.yields(rng.choice((0, 1, 2)))
                task.cancel()
                await asyncio.wait([task])
                if not task.cancelled():
                    task.exception()
                env.cov["deleted_after_wait"] += 1
                del task
            elif how < 0.5 and n_held:
                await alive[i].ready()
            tangled = rng.random() < 0.3
            if tangled:
                tangle(env, alive[i])
            del alive[i]
            env.ev("delete", n_held)
            env.cov["deleted"] += 1
            env.cov["deleted_with_messages"] += bool(n_held)
            if tangled and rng.random() < 0.7:
                gone.append(ref)
                continue
            gc.collect()
            env.require(ref() is None, "receiver-leak", "a forgotten receiver is still alive")
        elif r < 0.9 and alive:
            recv = rng.choice(alive)
            if len(recv):
                await recv.receive()
            del recv
        elif r < 0.95 and not closed:
            await chan.close()
            closed = True
        else:
            await env.yields(1)
    got = 0
    while len(keeper):  # type: ignore[arg-type]
        await keeper.receive()
        got += 1
    env.require(got == expected, "disturbed", f"the remaining receiver got {got} of {expected}")
    gc.collect()
    env.require(all(ref() is None for ref in gone), "receiver-leak", "a forgotten receiver is still alive")
    # Only the receivers that are still there (and maybe the channel) hold on to messages.
    bound = sum(len(recv) for recv in alive) + 1
    alive_refs = sum(r() is not None for r in refs)
    env.cov["message_liveness_checks"] += 1
    env.require(
        alive_refs <= bound, "message-leak", f"{alive_refs} messages are alive, at most {bound} expected"
    )
    for recv in alive:
        while len(recv):
            await recv.receive()
    if not closed:
        await chan.close()
    alive.clear()
    try:
        await asyncio.wait_for(keeper.receive(), 1)
        raise Violation("not-stopped", "the remaining receiver is not stopped after close()")
    except ReceiverStoppedError:
        pass
    env.nontrivial = env.cov["deleted"] > 0


_RULE = (
    "one case = one seeded execution of the real channel on the virtual-clock loop: 1-4 senders, "
    "receivers with limits 1-50 coming and going, random mixtures of all consumption styles, "
    "timeouts, cancellations, select loops left in all ways; non-trivial: "
)
_ASSUME = ["one event loop; a receiver is used by one logical consumer at a time (waits overlap only "
           "while a cancelled one is unwinding)"]
CHECKS = {
    "C05": Check(
        "C05", _RULE + "the position of at least 3 deliveries in the common order was checked",
        [("mix", 2, c05_mix), ("churn", 1, c05_churn), ("storm", 1, c05_storm), ("lives", 0.2, broadcast_lives),
         ("long", 0.02, long_broadcast)], 18000, 400000,
        {"order_checks": 60000, "deleted": 4000, "cancelled_waits": 3000, "totals": 15000,
         "restarted_waits": 4000, "ready_watchers": 2000, "orphan_deliveries": 3000,
         "long_deliveries": 20000, "long_overflows": 20000}, _ASSUME,
    ),
    "C06": Check(
        "C06", _RULE + "a message was dropped and a message was delivered",
        [("steps", 2, c06_steps), ("mix", 1, c06_mix), ("zero", 0.1, c06_zero), ("long", 0.015, long_lengths)], 16000, 400000,
        {"len_checks": 200000, "overflows": 40000, "log_checks": 60000, "deleted": 3000,
         "ready_without_consume": 3000, "named_warnings": 3000, "sends_to_nothing": 500, "long_overflows": 15000}, _ASSUME,
    ),
    "C07": Check(
        "C07", _RULE + "at least 2 receivers were created after the start",
        [("steps", 1, c07_steps)], 16000, 400000,
        {"created_with_latest": 10000, "created_with_none": 300, "created_empty": 10000, "closed": 800},
        _ASSUME,
    ),
    "C08": Check(
        "C08", _RULE + "a send was refused and messages were delivered (close), or a receiver with its "
        "messages was forgotten (release)",
        [("close", 3, c08_close), ("release", 1, c08_release), ("storm", 1, c08_storm)], 14000, 300000,
        {"refused": 8000, "stopped_receives": 8000, "closed_with_waiters": 400, "deleted": 2400,
         "deleted_with_messages": 1200, "closed_with_buffered": 400, "closed_in_storm": 300}, _ASSUME,
    ),
}
