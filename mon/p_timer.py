"""C19-C21: Timer."""

from __future__ import annotations

import asyncio
from collections.abc import Callable
from datetime import timedelta
from typing import Any

from frequenz.channels import Receiver, ReceiverStoppedError, merge
from frequenz.channels.timer import (
    MissedTickPolicy,
    SkipMissedAndDrift,
    SkipMissedAndResync,
    Timer,
    TriggerAllMissed,
)

from .core import Env, Violation
from .drive import Rx
from .p_long import streaks
from .p_scale import restless_timer
from .run import Check

TOL = 2  # microseconds, for the rounding of the loop's float clock


def us(delta: timedelta) -> int:
    """Exact microseconds of a timedelta."""
    return (delta.days * 86400 + delta.seconds) * 1_000_000 + delta.microseconds


def td(micros: int) -> timedelta:
    return timedelta(microseconds=micros)


def next_tick(kind: str, tol: int, s: int, n: int, interval: int) -> int:
    """The documented policies."""
    if kind == "all":
        return s + interval
    if kind == "resync":
        # The first multiple of the interval after s that is later than n.
        return s + ((n - s) // interval + 1) * interval
    assert kind == "drift"
    return n + interval if n - s > tol else s + interval


class Custom(MissedTickPolicy):
    """A user-defined policy that records what it is asked."""

    def __init__(self, choose: Callable[[int, int, int], int]) -> None:
        self.choose = choose
        self.calls: list[tuple[int, int, int, int]] = []

    def calculate_next_tick_time(self, *, interval: int, scheduled_tick_time: int, now: int) -> int:
        result = self.choose(interval, scheduled_tick_time, now)
        self.calls.append((interval, scheduled_tick_time, now, result))
        return result


class Spy(Receiver[timedelta]):
    """Watches a timer; the model is compared with it at every call."""

    def __init__(self, env: Env, timer: Timer, interval: int, kind: str, tol: int,
                 custom: Custom | None, exact: Callable[[], None] | None = None) -> None:
        self.env = env
        self.timer = timer
        self.interval = interval
        self.kind = kind
        self.tol = tol
        self.custom = custom
        self.s: int | None = None  # when the next tick is due, in the timer's own time line
        self.running = False
        self.dead = False  # stopped explicitly
        self.pending = False
        self.n_obs = 0
        self.busy_at = 0
        self.finished = False  # ready() finished, nothing consumed yet
        self.discarded = False  # ready() finished, then reset()
        self.in_ready = 0
        self.slack = TOL  # how far our idea of s may be from the timer's
        self.resets = 0
        self.exact = exact
        self.after_stop = 0
        self.triggers = 0

    # -- the model ----------------------------------------------------------------------------

    def start(self, delay: int) -> None:
        self.running = True
        self.dead = False
        self.s = self.env.loop.us() + delay + self.interval
        self.slack = TOL
        if self.finished:
            self.discarded = True
        self.finished = False
        self.pending = False
        self.after_stop = 0
        if self.custom is not None:
            self.custom.calls.clear()

    def truth(self, where: str) -> None:
        self.env.cov["truth_checks"] += 1
        self.env.require(
            self.timer.is_running is self.running, "is-running",
            f"is_running is {self.timer.is_running} {where}, expected {self.running}",
        )

    def reset(self, delay: int | None) -> None:
        self.env.ev("reset", delay)
        self.env.cov["resets"] += 1
        if self.in_ready:
            self.env.cov["resets_while_waiting"] += 1
        if self.dead:
            self.env.cov["resets_of_stopped"] += 1
        if delay is None:
            self.timer.reset()
        else:
            self.timer.reset(start_delay=td(delay))
        self.start(delay or 0)
        self.truth("after reset()")

    def stop(self) -> None:
        self.env.ev("stop")
        self.env.cov["stops"] += 1
        if self.in_ready:
            self.env.cov["stops_while_waiting"] += 1
        if self.pending:
            self.env.cov["stops_with_pending"] += 1
        self.timer.stop()
        self.running = False
        self.dead = True
        self.truth("after stop()")

    # -- the receiver -------------------------------------------------------------------------

    async def ready(self) -> bool:
        env = self.env
        loop = env.loop
        if not self.running and not self.dead:
            self.start(0)
        begin = loop.n_rests
        resets = self.resets
        self.in_ready += 1
        try:
            ok = await self.timer.ready()
        finally:
            self.in_ready -= 1
        now = loop.us()
        self.truth("after ready()")
        self.finished = True
        self.discarded = False
        if not ok:
            env.require(
                self.dead and not self.pending, "false-stop",
                f"ready() returned False; running: {self.running}, pending: {self.pending}",
            )
            return ok
        if self.pending:
            env.cov["still_ready"] += 1
            return ok
        env.require(self.running, "tick-after-stop", "a tick triggered after stop()")
        assert self.s is not None
        env.ev("tick", now, self.s)
        env.require(
            now >= self.s - self.slack, "early",
            f"the tick scheduled for {self.s} us was delivered at {now} us ({self.s - now} us early)",
        )
        last_rest = round(loop.last_rest * 1e6)
        env.require(
            loop.n_rests == begin or resets != self.resets or last_rest <= self.s + self.slack, "late",
            f"the tick scheduled for {self.s} us was not delivered at {last_rest} us, when the loop ran, "
            f"but at {now} us",
        )
        if loop.n_rests > begin:
            env.cov["awaited_ticks"] += 1
        self.pending = True
        self.triggers += 1
        self.n_obs = now
        self.busy_at = round(sum(b - a for a, b in loop.busy_log[-3:] if b * 1e6 > now - 100) * 1e6)
        return ok

    def consume(self) -> timedelta:
        env = self.env
        self.finished = False
        try:
            drift = self.timer.consume()
        except ReceiverStoppedError:
            env.require(
                self.dead and not self.pending, "false-stop",
                f"ReceiverStoppedError; running: {self.running}, pending: {self.pending}",
            )
            raise
        except AssertionError:
            if self.discarded:
                # A ready() finished before the reset(), and is consumed after it.
                env.cov["select_reset_races"] += 1
                env.finding(
                    "select-reset-race",
                    "select() consumed a Timer that was reset() after its ready() had finished: AssertionError",
                )
                self.discarded = False
            raise
        env.require(isinstance(drift, timedelta), "type", f"received {drift!r}")
        d = us(drift)
        env.require(
            self.pending, "discarded-tick" if self.discarded else "phantom",
            f"a tick (drift {d} us) was delivered although none was pending; reset: {self.discarded}",
        )
        self.pending = False
        assert self.s is not None
        env.cov["ticks"] += 1
        env.require(d >= 0, "negative-drift", f"drift {d} us")
        if self.dead:
            self.after_stop += 1
            env.cov["ticks_after_stop"] += 1
            env.require(self.after_stop <= 1, "tick-after-stop", "two ticks after stop()")
        n = self.s + d
        off = n - self.n_obs
        env.require(
            -self.slack - self.busy_at <= off <= self.slack, "drift",
            f"the tick scheduled for {self.s} us triggered at {self.n_obs} us; its drift is {d} us, "
            f"should be {self.n_obs - self.s} us",
        )
        if d > self.interval:
            env.cov["missed_ticks"] += 1
        if d and d % self.interval == 0:
            env.cov["exact_multiples"] += 1
        if self.custom is not None:
            self._custom(n, d)
        else:
            self.s = next_tick(self.kind, self.tol, self.s, n, self.interval)
        return drift

    def _custom(self, n: int, d: int) -> None:
        env = self.env
        assert self.custom is not None and self.s is not None
        env.cov["custom_ticks"] += 1
        calls = self.custom.calls
        env.require(
            len(calls) == 1, "policy-calls", f"the policy was asked {len(calls)} times about one tick"
        )
        interval, scheduled, now, result = calls.pop()
        env.require(
            interval == self.interval, "policy-interval", f"the policy was told {interval}, not {self.interval}"
        )
        env.require(
            abs(scheduled - self.s) <= self.slack, "policy-scheduled",
            f"the policy was told {scheduled} as the scheduled time, not {self.s}",
        )
        env.require(
            now - scheduled == d, "policy-now",
            f"the policy was told now={now}, scheduled={scheduled}, but the drift was {d}",
        )
        # From here on the timer's own idea of time is known.
        self.s = result


def _interval(env: Env) -> int:
    rng = env.rng
    return rng.choice((
        1, 2, 3, 10, 999, 1000, 1001, 2000, 3000, 5000, 7777, 10_000, 33_333, 100_000, 1_000_000, 1_500_000,
        60_000_000, 86_400_000_000, 30 * 86_400_000_000, rng.randint(1, 20_000), rng.randint(1, 10_000_000),
    ))


def _policy(env: Env, interval: int, custom: float) -> tuple[MissedTickPolicy, str, int, Custom | None]:
    rng = env.rng
    if rng.random() < custom:
        how = rng.randrange(6)

        def choose(i: int, s: int, n: int) -> int:
            if how == 0:
                return s + 2 * i
            if how == 1:
                return n + 7
            if how == 2:
                return s + i
            if how == 3:
                return n  # at once
            if how == 4:
                return s + i + (n - s) // 2
            return s + i - 3  # a little bit too early each time

        pol = Custom(choose)
        return pol, "custom", 0, pol
    if env.policies and rng.random() < 0.4:
        # One policy for several timers.
        env.cov["shared_policies"] += 1
        return rng.choice(env.policies)  # type: ignore[no-any-return]
    found = _builtin(env, interval)
    env.policies.append(found)
    return found


def _builtin(env: Env, interval: int) -> tuple[MissedTickPolicy, str, int, Custom | None]:
    rng = env.rng
    kind = rng.choice(("all", "resync", "drift"))
    if kind == "all":
        return TriggerAllMissed(), kind, 0, None
    if kind == "resync":
        return SkipMissedAndResync(), kind, 0, None
    tol = rng.choice((0, 0, 1, interval // 10, interval // 2, interval, 3 * interval, 1000))
    if tol == 0 and rng.random() < 0.5:
        return SkipMissedAndDrift(), kind, 0, None
    return SkipMissedAndDrift(delay_tolerance=td(tol)), kind, tol, None


def _make(env: Env, custom: float, auto: bool = True) -> Spy:
    rng = env.rng
    interval = _interval(env)
    policy, kind, tol, pol = _policy(env, interval, custom)
    kwargs: dict[str, Any] = {}
    delay = 0
    if auto and rng.random() < 0.3:
        delay = rng.choice((1, 1000, interval, interval // 2, 10 * interval, rng.randint(0, 100_000)))
        kwargs["start_delay"] = td(delay)
    if not auto:
        kwargs["auto_start"] = False
    elif rng.random() < 0.2:
        kwargs["auto_start"] = True
    if rng.random() < 0.2:
        kwargs["loop"] = env.loop
    env.ev("timer", interval, kind, tol, delay, auto)
    timer = Timer(td(interval), policy, **kwargs)
    spy = Spy(env, timer, interval, kind, tol, pol)
    if auto:
        spy.start(delay)
    spy.truth("when new")
    env.require(timer.interval == td(interval), "interval", f"{timer.interval}")
    env.require(timer.missed_tick_policy is policy, "policy", "missed_tick_policy")
    env.require(timer.loop is env.loop, "loop", "loop")
    return spy


def _nap(env: Env, spy: Spy) -> float:
    """A time related to the interval, in seconds."""
    i = spy.interval
    part = env.rng.choice((
        0, 0, i // 10, i // 3, i // 2, i - 1, i, i, i + 1, i + i // 5, 2 * i, 2 * i + i // 2, 3 * i,
        7 * i + 1, env.rng.randint(0, 4 * i),
    ))
    return part / 1e6


async def _stalls(env: Env, spy: Spy, turns: int) -> None:
    """Something that blocks the loop now and then."""
    for _ in range(turns):
        await asyncio.sleep(_nap(env, spy))
        await env.yields(env.rng.choice((0, 0, 1, 2)))
        stall = _nap(env, spy)
        env.ev("busy", round(stall * 1e6))
        env.cov["stalls"] += 1
        env.loop.busy(stall)


async def _consumer(env: Env, spy: Spy, turns: int) -> None:
    """Consumes ticks in the documented ways; the spy is the judge."""
    rng = env.rng
    recv: Receiver[timedelta] = spy
    if rng.random() < 0.2:
        recv = recv.map(lambda d: d)
    how = rng.choice(("receive", "iterate", "ready", "mixed", "select", "timeout"))
    env.cov[f"how_{how}"] += 1
    style = how
    if how == "select":
        from frequenz.channels import select, selected_from  # pylint: disable=import-outside-toplevel

        async for sel in select(recv):
            assert selected_from(sel, recv)
            if sel.exception is not None and not sel.was_stopped:
                if not isinstance(sel.exception, AssertionError):
                    raise sel.exception
            turns -= 1
            if turns <= 0:
                return
            if rng.random() < 0.5:
                await asyncio.sleep(_nap(env, spy))
        return
    while turns > 0:
        turns -= 1
        if how == "mixed":
            style = rng.choice(("receive", "iterate", "ready", "timeout"))
        try:
            if style == "receive":
                await recv.receive()
            elif style == "iterate":
                async for _ in recv:
                    turns -= 1
                    if turns <= 0 or rng.random() < 0.2:
                        break
                    if rng.random() < 0.4:
                        await asyncio.sleep(_nap(env, spy))
            elif style == "timeout":
                async with asyncio.timeout(_nap(env, spy)):
                    await recv.receive()
            else:
                await recv.ready()
                while rng.random() < 0.4:
                    await asyncio.sleep(_nap(env, spy))
                    await recv.ready()
                recv.consume()
        except TimeoutError:
            env.cov["timeouts"] += 1
        except ReceiverStoppedError:
            if spy.running:
                # It was reset meanwhile.
                continue
            return
        if rng.random() < 0.5:
            await asyncio.sleep(_nap(env, spy))
        if rng.random() < 0.1:
            env.loop.busy(_nap(env, spy))


async def _finish(env: Env, spy: Spy, runner: asyncio.Task[Any]) -> None:
    limit = spy.interval * 300 / 1e6 + 100
    await asyncio.wait([runner], timeout=limit)
    env.check()
    if not runner.done() and spy.in_ready:
        await env.settle()
        env.check()
        assert spy.s is not None
        env.require(
            not (spy.running and env.loop.us() > spy.s + spy.slack), "late",
            f"the tick scheduled for {spy.s} us is not delivered at {env.loop.us()} us",
        )
        env.require(not spy.dead, "stop-lost", "a consumer of the stopped timer waits")
    if not runner.done():
        runner.cancel()
        await asyncio.wait([runner])
        env.check()


async def c19_ticks(env: Env) -> None:
    rng = env.rng
    if rng.random() < 0.15:
        # The resolution of the clock.
        env.loop.early = rng.choice((1e-6, 0.0005, 0.001, 0.0156))
    spy = _make(env, 0.1)
    runner = env.spawn(_consumer(env, spy, rng.randint(5, 40)), "consumer")
    stall = None
    if rng.random() < 0.5:
        stall = env.spawn(_stalls(env, spy, rng.randint(1, 10)), "stalls")
    await _finish(env, spy, runner)
    if stall is not None and not stall.done():
        stall.cancel()
    env.cov["early_wakes"] += env.loop.n_early
    env.nontrivial = env.cov["ticks"] >= 3


async def c19_several(env: Env) -> None:
    """Timers below merge() and next to each other."""
    rng = env.rng
    spies = [_make(env, 0.1) for _ in range(rng.choice((2, 3, 5)))]
    base = max(s.interval for s in spies)
    for spy in spies:
        # Comparable intervals, or one would fire millions of times.
        env.require(spy.interval >= 1, "interval", "")
    spies = [s for s in spies if s.interval * 1000 >= base]
    for spy in spies:
        spy.reset(rng.choice((None, 0, 1, base)))
    merged = merge(*spies)

    async def consume() -> None:
        for _ in range(rng.randint(5, 60)):
            await merged.receive()
            if rng.random() < 0.3:
                await asyncio.sleep(_nap(env, rng.choice(spies)))

    runner = env.spawn(consume(), "consumer")
    await asyncio.wait([runner], timeout=base * 1000 / 1e6 + 1000)
    env.check()
    env.require(runner.done(), "stuck", "the merged timers do not tick")
    await merged.stop()
    for spy in spies:
        spy.stop()
    env.nontrivial = env.cov["ticks"] >= 3


async def c20_policies(env: Env) -> None:
    rng = env.rng
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        spy = _make(env, 0.3)
        before = env.cov["ticks"]
        runner = env.spawn(_consumer(env, spy, rng.randint(10, 80)), "consumer")
        stall = env.spawn(_stalls(env, spy, rng.randint(0, 20)), "stalls")
        await _finish(env, spy, runner)
        if not stall.done():
            stall.cancel()
        env.cov[f"ticks_{spy.kind}"] += env.cov["ticks"] - before
    env.nontrivial = env.cov["ticks"] >= 3


async def c20_pure(env: Env) -> None:
    """The policies as functions."""
    rng = env.rng
    resync, every = SkipMissedAndResync(), TriggerAllMissed()
    for _ in range(20):
        if rng.random() < 0.3:
            resync, every = SkipMissedAndResync(), TriggerAllMissed()
        interval = rng.choice((1, 2, rng.randint(1, 100), rng.randint(1, 10**7), rng.randint(1, 10**12)))
        s = rng.choice((0, rng.randint(0, 10**6), rng.randint(0, 10**13)))
        drift = rng.choice((
            0, 1, interval - 1, interval, interval + 1, 2 * interval - 1, 2 * interval, rng.randint(0, 10) * interval,
            rng.randint(0, 5 * interval), rng.randint(0, 10**9),
        ))
        if rng.random() < 0.1:
            drift = rng.choice((10**17 + 1, rng.randint(10**16, 10**18)))
        tol = rng.choice((0, 1, drift, drift + 1, max(0, drift - 1), interval, rng.randint(0, 10**7)))
        if rng.random() < 0.05:
            tol = us(timedelta.max)
        n = s + drift
        pol = SkipMissedAndDrift(delay_tolerance=td(tol))
        env.require(pol.delay_tolerance == td(tol), "tolerance", f"{pol.delay_tolerance} for {tol} us")
        for kind, policy in (("all", every), ("resync", resync), ("drift", pol)):
            got = policy.calculate_next_tick_time(interval=interval, scheduled_tick_time=s, now=n)
            want = next_tick(kind, tol, s, n, interval)
            env.require(
                got == want and isinstance(got, int), "policy",
                f"{kind}(tolerance {tol}): interval {interval}, scheduled {s}, now {n}: {got!r}, expected {want}",
            )
            env.cov["pure_calls"] += 1
        # The same policy about another tick (of another timer).
        more = n + rng.choice((0, 1, tol, tol + 1, rng.randint(0, 10**9)))
        got, want = pol.calculate_next_tick_time(interval=7, scheduled_tick_time=n, now=more), next_tick("drift", tol, n, more, 7)
        env.require(got == want, "policy", f"drift(tolerance {tol}): interval 7, scheduled {n}, now {more}: {got}, not {want}")
        try:
            SkipMissedAndDrift(delay_tolerance=td(-rng.choice((1, 10, 10**6, 10**12))))
        except ValueError:
            env.cov["rejected"] += 1
        else:
            raise Violation("negative-tolerance", "a negative delay_tolerance was accepted")
    env.ev("pure")
    env.nontrivial = True


async def c21_lifecycle(env: Env) -> None:
    rng = env.rng
    auto = rng.random() < 0.7
    spy = _make(env, 0.15, auto)
    stop_resets = rng.random() < 0.3

    def failed(_rx: Rx, exc: Exception) -> None:
        if isinstance(exc, AssertionError):
            # Listed as a finding by the spy, or not one.
            if env.findings and env.findings[-1][0] == "select-reset-race":
                return
        raise Violation("unexpected-error", f"the timer raised {exc!r}") from exc

    recv: Receiver[timedelta] = spy.map(lambda d: d) if rng.random() < 0.2 else spy
    rx = Rx(env, recv, "root", lambda _r, _m: None, failed)
    styles = rng.choice((Rx.PLAIN, Rx.PLAIN, Rx.ALL, ("receive",), ("iterate",), ("select",)))

    async def consume() -> None:
        """Goes on after stops: the timer may be reset."""
        for _ in range(60):
            await rx.run(styles, rng.randint(1, 5))
            if rx.stopped:
                env.cov["stops_seen"] += 1
                env.require(spy.dead or spy.resets or not spy.running, "false-stop", "stopped, but not by stop()")
                rx.stopped = False
                if rng.random() < 0.3:
                    spy.reset(None)
                await asyncio.sleep(rng.choice((1, 3)) / 1000)

    if not auto and rng.random() < 0.4:
        await asyncio.sleep(_nap(env, spy))
        spy.truth("before it was used")
        if rng.random() < 0.3:
            spy.stop()
            env.cov["stopped_before_start"] += 1
    runner = env.spawn(consume(), "consumer")
    for _ in range(rng.randint(3, 30)):
        # Some moment: often right around the time the tick is due.
        r = rng.random()
        if r < 0.4 and spy.s is not None and spy.running:
            delta = spy.s - env.loop.us() + rng.choice((-2, -1, 0, 0, 0, 1, 2, -spy.interval // 2))
            if delta > 0:
                await asyncio.sleep(delta / 1e6)
            await env.yields(rng.choice((0, 0, 1, 2, 3)))
        elif r < 0.6:
            await asyncio.sleep(_nap(env, spy))
        elif r < 0.8:
            await env.pause()
        r = rng.random()
        if r < 0.45:
            spy.resets += 1
            if stop_resets and rng.random() < 0.5:
                spy.stop()
                await env.yields(rng.choice((0, 0, 1, 2)))
            spy.reset(rng.choice((
                None, None, 0, 1, spy.interval // 2, spy.interval, 3 * spy.interval, rng.randint(0, 10_000),
            )))
            if rng.random() < 0.1:
                spy.reset(None)
        elif r < 0.55:
            spy.resets += 1
            spy.stop()
        elif r < 0.7:
            _invalid(env, spy)
        elif r < 0.8:
            env.loop.busy(_nap(env, spy))
        await _settled(env, spy, rx)
    for bell in rx.bells:
        bell.set()
    spy.stop()
    await _settled(env, spy, rx)
    rx.quit = True
    await asyncio.wait([runner], timeout=10)
    env.check()
    if not runner.done():
        runner.cancel()
        await asyncio.wait([runner])
    for sub in rx.subs:
        sub.cancel()
    await asyncio.sleep(0)
    await env.settle()
    if not spy.dead:
        # The consumer had reset it.
        spy.stop()
    # Stopped for good (until reset): at most one tick is left.
    left = 0
    for _ in range(4):
        ok = await asyncio.wait_for(spy.ready(), 5)
        if ok:
            spy.consume()
            left += 1
        else:
            try:
                await asyncio.wait_for(spy.receive(), 5)
            except ReceiverStoppedError:
                pass
            else:
                raise Violation("tick-after-stop", "received after ready() was False")
        await asyncio.sleep(_nap(env, spy))
    env.require(left <= 1, "tick-after-stop", f"{left} ticks after stop()")
    if rng.random() < 0.5:
        spy.reset(None)
        await asyncio.wait_for(spy.receive(), spy.interval * 3 / 1e6 + 1)
        env.cov["restarted"] += 1
    env.nontrivial = env.cov["ticks"] >= 1 and env.cov["resets"] + env.cov["stops"] >= 2


async def _settled(env: Env, spy: Spy, rx: Rx) -> None:
    """At rest nobody waits for a stopped timer or for a tick that is due."""
    if env.rng.random() < 0.5:
        return
    await env.settle()
    env.cov["rest_judged"] += 1
    spy.truth("at rest")
    if not spy.in_ready:
        return
    env.cov["rest_waiting"] += 1
    env.require(not spy.dead, "stop-lost", "a consumer waits for a stopped timer")
    env.require(not spy.pending, "forgotten", "a consumer waits although a tick is pending")
    assert spy.s is not None
    env.require(
        env.loop.us() <= spy.s + spy.slack, "late",
        f"a consumer waits at {env.loop.us()} us for the tick scheduled for {spy.s} us",
    )
    _ = rx


def _invalid(env: Env, spy: Spy) -> None:
    """Invalid arguments are rejected and change nothing."""
    rng = env.rng
    env.cov["invalid_calls"] += 1
    what = rng.randrange(4)
    bad = -rng.choice((1, 2, 1000, 10**7, 10**12))
    try:
        if what == 0:
            spy.timer.reset(start_delay=td(bad))
        elif what == 1:
            Timer(td(rng.choice((0, 0, bad))), TriggerAllMissed())
        elif what == 2:
            Timer(td(5), TriggerAllMissed(), start_delay=td(bad), auto_start=rng.random() < 0.7)
        else:
            Timer(td(5), TriggerAllMissed(), auto_start=False, start_delay=td(-bad))
    except ValueError:
        spy.truth("after a rejected call")
        return
    raise Violation("accepted", f"an invalid argument was accepted (kind {what}, {bad} us)")


async def c21_timeout(env: Env) -> None:
    """The documented use as a timeout: select() from a receiver and a timer that is reset."""
    from frequenz.channels import Broadcast, select, selected_from  # pylint: disable=import-outside-toplevel

    rng = env.rng
    spy = _make(env, 0.0)
    interval = spy.interval
    chan: Broadcast[Any] = Broadcast(name="data")
    data = chan.new_receiver()
    tx = chan.new_sender()
    got: list[int] = []
    n_msgs = rng.randint(2, 15)

    async def produce() -> None:
        for i in range(n_msgs):
            gap = rng.choice((interval // 2, interval, interval, interval - 1, 2 * interval + 1, 0))
            await asyncio.sleep(gap / 1e6)
            await env.yields(rng.choice((0, 0, 1, 2)))
            await tx.send(i)
        await asyncio.sleep(interval / 1e6)
        await chan.close()

    env.spawn(produce(), "producer")
    turns = 0
    async for sel in select(*([data, spy] if rng.random() < 0.5 else [spy, data])):
        turns += 1
        if selected_from(sel, data):
            if sel.was_stopped:
                break
            got.append(sel.message)
            spy.reset(None)
        elif selected_from(sel, spy):
            if sel.exception is not None:
                known = isinstance(sel.exception, AssertionError) and bool(env.findings)
                env.require(known, "unexpected-error", lambda: f"the timer raised {sel.exception!r}")
                continue
            env.cov["timeouts_fired"] += 1
            if rng.random() < 0.5:
                spy.reset(None)
        if turns > 3000:
            break
    env.require(got == list(range(len(got))), "order", f"{got}")
    env.nontrivial = turns >= 3


async def long_timer(env: Env) -> None:
    """Thousands of ticks of one timer; hundreds in a row on time, or all of them late."""
    rng = env.rng
    spy = _make(env, 0.1)
    # The virtual clock is good for some years.
    left = min(rng.choice((300, 1000, 2500)), 10**14 // spy.interval)
    while left > 0:
        how, naps = rng.choice(("on-time", "busy", "late")), rng.choice((5, 60, 300, 1100))
        env.ev("streak", how, naps)
        for _ in range(min(left, naps)):
            if how == "late":
                await asyncio.sleep(spy.interval * rng.choice((1, 1.5, 2, 3)) / 1e6)
            elif how == "busy":
                await asyncio.sleep(spy.interval * rng.random() / 1e6)
            await spy.receive()
            env.cov["long_ticks"] += 1
        left -= naps
    spy.stop()
    env.cov["long_runs"] += 1
    env.nontrivial = True


_ASSUME = ["the event loop's clock is virtual and does not run backwards",
           f"times are compared with a tolerance of {TOL} us (the loop's clock is a float)"]
CHECKS = {
    "C19": Check(
        "C19",
        "one case = one seeded execution with 1-5 timers of intervals between 1 us and 30 days, any start_delay, "
        "policy, clock offset and style of consumption, stalls that block the loop; each tick is compared with "
        "its schedule; non-trivial: at least three ticks",
        [("ticks", 4, c19_ticks), ("several", 1, c19_several), ("long", 0.03, long_timer)], 12000, 300000,
        {"ticks": 120000, "awaited_ticks": 40000, "stalls": 10000, "missed_ticks": 10000,
         "exact_multiples": 2000, "long_ticks": 30000}, _ASSUME,
    ),
    "C20": Check(
        "C20",
        "one case = one seeded execution of a timer with one of the policies or a user-defined one under random "
        "delays (each next tick must follow from the one before, over the whole sequence), or direct calls of "
        "the policies with 20 random arguments; non-trivial: at least three ticks",
        [("policies", 4, c20_policies), ("pure", 1, c20_pure), ("long", 0.03, long_timer)], 12000, 300000,
        {"ticks": 200000, "ticks_all": 40000, "ticks_resync": 40000, "ticks_drift": 40000, "custom_ticks": 40000,
         "missed_ticks": 30000, "exact_multiples": 5000, "pure_calls": 100000, "rejected": 30000,
         "stalls": 40000, "long_ticks": 30000}, _ASSUME,
    ),
    "C21": Check(
        "C21",
        "one case = one seeded history of reset(), stop(), invalid calls and waits of every style around the "
        "moments a tick is due, compared with a model of the schedule, or the documented timeout loop; "
        "non-trivial: a tick was received and at least two resets or stops",
        [("lifecycle", 5, c21_lifecycle), ("timeout", 1, c21_timeout), ("restless", 0.01, restless_timer)], 16000, 400000,
        {"ticks": 60000, "resets": 80000, "stops": 30000, "resets_while_waiting": 15000,
         "stops_while_waiting": 5000, "stops_with_pending": 500, "resets_of_stopped": 10000,
         "stopped_before_start": 200, "invalid_calls": 15000, "rest_waiting": 15000, "restarted": 3000,
         "timeouts_fired": 5000, "ticks_after_stop": 100, "resets_in_one_wait": 5000}, _ASSUME,
    ),
}
