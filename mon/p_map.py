"""C12: map() applies its function exactly once to each consumed message, in order."""

from __future__ import annotations

import asyncio
import functools
from collections.abc import Callable
from typing import Any

from frequenz.channels import Error, Receiver, ReceiverError, ReceiverStoppedError, SelectError, SenderError, merge

from .core import Env, Messages, Violation
from .drive import Rx
from .p_long import STEADY, flow
from .p_protocol import _disturb
from .run import Check
from .tree import LEAVES, Leaf, LeafError, Tree


class MapError(Error):
    """Raised by a mapping function; an error of the library's own family."""


class FalsyError(ValueError):
    """An exception which is false, like one which is also an (empty) container."""

    def __len__(self) -> int:
        return 0


_ERRORS: tuple[Callable[[str], Exception], ...] = (
    ValueError, KeyError, MapError, FalsyError, AssertionError, RuntimeError, LookupError, TimeoutError, OSError,
    lambda text: ExceptionGroup(text, [ValueError(text)]), lambda text: ReceiverError(text, None),  # type: ignore[arg-type]
    Error, SelectError, lambda text: SenderError(text, None), asyncio.QueueEmpty,  # type: ignore[arg-type]
)


class Func:
    """An instrumented mapping function; the shape of the callable varies."""

    def __init__(self, env: Env, name: str, log: list["Call"], p_error: float) -> None:
        self.env = env
        self.name = name
        self.log = log
        self.p_error = p_error
        self.msgs = Messages(env, 0.1)
        self.side: Callable[[], None] | None = None
        self.on_arg: Callable[[Any], Any] | None = None

    def __bool__(self) -> bool:
        return False

    def __len__(self) -> int:
        return 0

    def apply(self, msg: Any) -> Any:
        call = Call(self, msg)
        self.log.append(call)
        self.env.cov["f_calls"] += 1
        self.env.ev("f", self.name)
        if self.on_arg is not None and len(self.log) == 1:
            self.on_arg(msg)
        if self.side is not None and self.env.rng.random() < 0.1:
            self.env.cov["f_side_effects"] += 1
            self.side()
        r = self.env.rng.random()
        if r < self.p_error:
            self.env.cov["f_errors"] += 1
            call.error = self.env.rng.choice(_ERRORS)(f"{self.name}/{len(self.log)}")
            raise call.error
        if r < self.p_error + 0.1 and self.msgs.p_const > 0:
            call.out = msg
        else:
            call.out, _ = self.msgs.new()
        return call.out

    def __call__(self, msg: Any) -> Any:
        return self.apply(msg)

    def shape(self) -> Callable[[Any], Any]:
        """The callable to give to map()."""
        what = self.env.rng.choice(("object", "method", "lambda", "partial", "function"))
        if what == "object":
            return self
        if what == "method":
            return self.apply
        if what == "lambda":
            return lambda msg: self.apply(msg)  # pylint: disable=unnecessary-lambda
        if what == "partial":
            return functools.partial(Func.apply, self)

        def function(msg: Any, _extra: int = 0, **_kw: Any) -> Any:
            return self.apply(msg)

        return function


class Call:
    """One call of a mapping function."""

    def __init__(self, func: Func, arg: Any) -> None:
        self.func = func
        self.arg = arg
        self.out: Any = None
        self.error: Exception | None = None


class View:
    """A chain of maps over a receiver."""

    def __init__(self, env: Env, base: Receiver[Any], name: str, log: list[Call], depth: int) -> None:
        self.env = env
        self.funcs = [
            Func(env, f"{name}.{i}", log, env.rng.choice((0.0, 0.0, 0.1, 0.3))) for i in range(depth)
        ]
        if depth > 1 and env.rng.random() < 0.25:
            # One and the same function, several times.
            env.cov["same_function"] += 1
            self.funcs = self.funcs[:1] * depth
        self.log = log
        self.recv = base
        shapes = {func.name: func.shape() for func in self.funcs}
        for func in self.funcs:
            self.recv = self.recv.map(shapes[func.name])

    def settle_call(self, out: Any, exc: BaseException | None) -> tuple[bool, Any]:
        """Check the calls of one consumption; returns (whether a base message was used, it)."""
        calls = list(self.log)
        self.log.clear()
        env = self.env
        if not calls and exc is not None:
            return False, None
        names = [c.func.name for c in calls]
        want = [f.name for f in self.funcs]
        if exc is not None and calls[-1].error is not None:
            want = want[: len(calls)]
        env.require(
            names == want, "calls",
            f"consuming one message called {names}, expected {want}",
        )
        for before, after in zip(calls, calls[1:]):
            env.require(before.error is None, "swallowed", "a function ran after an earlier one raised")
            env.require(
                before.out is after.arg, "argument",
                f"{after.func.name} was not called with the result of {before.func.name}",
            )
        if calls:
            last = calls[-1]
            if exc is not None:
                env.require(
                    last.error is exc, "error-identity", f"raised {exc!r}, f raised {last.error!r}"
                )
            else:
                env.require(last.error is None, "swallowed", "an error of a function was swallowed")
                env.require(last.out is out, "result", "received something else than f(m)")
            return True, calls[0].arg
        return True, out


async def c12_chain(env: Env) -> None:
    rng = env.rng
    tree = Tree(env, rng.choice((0, 0, 0, 1, 2)))
    log: list[Call] = []
    views = [
        View(env, tree.recv, f"v{i}", log, rng.choice((1, 1, 2, 3)))
        for i in range(rng.choice((1, 1, 1, 2)))
    ]
    if rng.random() < 0.2:
        # A second map over an existing one, and the unmapped receiver itself.
        views.append(View(env, tree.recv, "raw", log, 0))
    state = {"view": views[0]}

    def got(_rx: Rx, msg: Any) -> None:
        view = state["view"]
        _, base = view.settle_call(msg, None)
        env.cov["mapped"] += 1
        if not view.funcs:
            tree.deliver(base)

    def failed(_rx: Rx, exc: Exception) -> None:
        view = state["view"]
        used, _ = view.settle_call(None, exc)
        if used:
            env.cov["error_messages"] += 1
        else:
            env.require(
                isinstance(exc, LeafError), "unexpected-error", lambda: f"raised {exc!r} without calling f"
            )
            tree.deliver_error(exc)

    def rest(what: str) -> None:
        env.require(not log, "early-call", lambda: f"{what}, but called: {[c.func.name for c in log]}")

    for view in views:
        if view.funcs:
            # The message is consumed when it is given to the first function.
            view.funcs[0].on_arg = tree.deliver
        for func in view.funcs:
            func.side = rng.choice((None, None, tree.emit))
    rx = Rx(env, tree.recv, "root", got, failed)
    busy = {"on": True}

    async def consume() -> None:
        while not rx.stopped and not rx.quit:
            state["view"] = rng.choice(views)
            rx.recv = state["view"].recv
            await rx.run(rng.choice((Rx.PLAIN, Rx.ALL)), rng.randint(1, 4))
            # Waits that were left behind must not touch a message of the next view.
            for sub in rx.subs:
                if not sub.done():
                    await asyncio.wait([sub])
            rx.subs.clear()
        busy["on"] = False

    runner = env.spawn(consume(), "consumer")
    for _ in range(rng.randint(3, 30)):
        await _disturb(env, tree)
        if rng.random() < 0.3:
            await env.settle()
            env.cov["rest_judged"] += 1
            rest("nothing was consumed")
    tree.stop_all()
    await asyncio.sleep(1)
    for bell in rx.bells:
        bell.set()
    await asyncio.wait([runner], timeout=60)
    env.check()
    env.require(
        runner.done() and rx.stopped, "stop-lost",
        lambda: f"the stop of {tree.shape} did not pass through map(); undelivered {tree.lost()}",
    )
    rest("stopped")
    env.require(tree.must() == 0, "lost", lambda: f"never delivered: {tree.lost()}")
    for view in views:
        try:
            msg = await asyncio.wait_for(view.recv.receive(), 5)
            raise Violation("revived", f"received {msg!r:.80} after the stop")
        except ReceiverStoppedError as exc:
            env.require(exc.receiver is view.recv, "identity", "the stop names another receiver")
        rest("stopped")
    env.nontrivial = env.cov["mapped"] >= 1


async def long_map(env: Env) -> None:
    """A chain of functions is used thousands of times; some fail hundreds of times in a row."""
    rng = env.rng
    tree = Tree(env, rng.choice((0, 0, 1)), STEADY)
    log: list[Any] = []
    view = View(env, tree.recv, "v", log, rng.choice((1, 2, 3)))
    view.funcs[0].on_arg = tree.deliver
    usual = [func.p_error for func in view.funcs]

    async def one() -> None:
        if rng.random() < 0.01:
            for func, p_error in zip(view.funcs, usual):
                func.p_error = rng.choice((p_error, 0.0, 1.0))
        task = asyncio.ensure_future(view.recv.receive())
        await asyncio.wait([task], timeout=5)
        env.require(task.done(), "held-back", lambda: f"a consumer waits although there is {tree.lost()}")
        exc = task.exception()
        if exc is None:
            view.settle_call(task.result(), None)
            env.cov["long_mapped"] += 1
        else:
            used, _ = view.settle_call(None, exc)
            if not used:
                tree.deliver_error(exc)

    await flow(env, tree, one)


async def c12_merged(env: Env) -> None:
    """Functions below a merge(): once per message, each result delivered once."""
    rng = env.rng
    kinds = ("broadcast", "anycast", "user", "file", "event")
    leaves: list[Leaf] = []
    logs: list[list[Call]] = []
    parts: list[Receiver[Any]] = []
    owners: list[View] = []
    for i in range(rng.choice((1, 2, 3, 4))):
        kind = rng.choice(kinds)
        leaf = LEAVES[kind](env, f"{kind[0]}{i}")
        leaf.prefetched = True
        log: list[Call] = []
        view = View(env, leaf.recv, f"f{i}", log, 1)
        leaves.append(leaf)
        logs.append(log)
        owners.append(view)
        parts.append(view.recv)
    top: list[Call] = []
    outer = View(env, merge(*parts), "top", top, rng.choice((0, 1, 2)))
    # The k-th call of a leaf's function must be delivered as its k-th result.
    nth = [0] * len(leaves)

    errors: dict[str, list[Any]] = {leaf.name: [] for leaf in leaves}

    def account(obj: Any, exc: BaseException | None) -> None:
        # Results may be the same object (constants), so any leaf whose next result it is will do.
        for i, log_ in enumerate(logs):
            if nth[i] < len(log_):
                call = log_[nth[i]]
                if (call.error is exc) if exc is not None else (call.error is None and call.out is obj):
                    nth[i] += 1
                    env.cov["mapped"] += 1
                    return
        raise Violation(
            "result", f"{exc or obj!r:.100} is not the next result of any function; calls "
            f"{[len(x) for x in logs]}, delivered {nth}"
        )

    def got(_rx: Rx, msg: Any) -> None:
        _, base = outer.settle_call(msg, None)
        account(base, None)

    def failed(_rx: Rx, exc: Exception) -> None:
        used, base = outer.settle_call(None, exc)
        if used:
            account(base, None)
        elif isinstance(exc, LeafError):
            # Of the leaf itself: no function was called.
            errors[exc.leaf.name].append(exc.key)
        else:
            account(None, exc)

    for view in owners:
        # Constants could be mistaken for each other.
        view.funcs[0].msgs.p_const = 0.0
    rx = Rx(env, outer.recv, "root", got, failed)
    runner = env.spawn(rx.run(rng.choice((Rx.PLAIN, Rx.ALL)), 10_000), "consumer")
    for _ in range(rng.randint(3, 30)):
        r = rng.random()
        able = [x for x in leaves if x.can_emit()]
        if r < 0.7 and able:
            rng.choice(able).emit()
        elif r < 0.75 and able:
            rng.choice(able).stop()
        await env.pause()
    for leaf in leaves:
        if not leaf.stopped:
            leaf.stop()
    await asyncio.sleep(1)
    for bell in rx.bells:
        bell.set()
    await asyncio.wait([runner], timeout=60)
    env.check()
    env.require(runner.done() and rx.stopped, "stop-lost", "the merged receiver does not stop")
    for i, leaf in enumerate(leaves):
        env.require(
            nth[i] == len(logs[i]), "lost-result",
            f"{leaf.name}: {len(logs[i])} calls but {nth[i]} results were delivered",
        )
        if leaf.kind != "event":
            # Every emitted message was an argument once (or is an error of the leaf), in order.
            mine = errors[leaf.name]
            args = [call.arg for call in logs[i]]
            if leaf.kind == "user":
                keys = [leaf.key_of(arg) for arg in args]
                for key in leaf.emitted:
                    first = mine if mine and mine[0] == key else keys
                    env.require(
                        bool(first) and first.pop(0) == key, "calls",
                        f"{leaf.name}: {key} was not delivered in its turn, exactly once",
                    )
                env.require(not keys and not mine, "calls", f"{leaf.name}: too many calls {keys} {mine}")
            else:
                for arg in args:
                    leaf.deliver(arg)
                env.require(leaf.must() == 0, "lost", f"{leaf.name}: f never saw all of {leaf.emitted}")
    env.nontrivial = env.cov["mapped"] >= 1


CHECKS = {
    "C12": Check(
        "C12",
        "one case = one seeded execution of 1-3 chains of 1-3 instrumented mapping functions (returning any "
        "object, raising, sending messages) over a receiver of any kind or below a merge(); each "
        "consumption's calls are compared with the chain; non-trivial: a mapped message was received",
        [("chain", 3, c12_chain), ("merged", 1, c12_merged), ("long", 0.02, long_map)], 12000, 300000,
        {"mapped": 60000, "f_calls": 90000, "f_errors": 6000, "error_messages": 3000,
         "rest_judged": 10000, "cancelled_waits": 3000, "f_side_effects": 2000,
         "same_function": 600, "long_mapped": 3000},
        ["mapping functions do not raise StopAsyncIteration, ReceiverStoppedError or CancelledError, "
         "which have a meaning of their own in the receiver protocol"],
    ),
}
