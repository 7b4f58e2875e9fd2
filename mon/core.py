"""Case context, verdicts and coverage counters shared by all workloads."""

from __future__ import annotations

import asyncio
import collections
import contextlib
import hashlib
import random
import traceback
import weakref
from collections.abc import Callable, Coroutine, Iterator
from typing import Any

from .vloop import Livelock, VLoop

# No sane case comes anywhere near this.
MAX_EVENTS = 300_000

REPO_SRC = "/repo/src/"


class Violation(Exception):
    """The recorded execution breaks the property."""

    def __init__(self, key: str, msg: str) -> None:
        super().__init__(f"{key}: {msg}")
        self.key = key
        self.msg = msg


class Inconclusive(Exception):
    """The case could not be judged."""


def in_library(task: Any) -> bool:
    """Whether a task runs a coroutine of the library."""
    code = getattr(task.get_coro(), "cr_code", None)
    return code is not None and code.co_filename.startswith(REPO_SRC)


def in_repo(exc: BaseException) -> bool:
    """Whether an exception was raised by the library (or because it lacks a public attribute)."""
    if isinstance(exc, AttributeError) and not exc.name.startswith("_"):
        if type(exc.obj).__module__.startswith("frequenz.channels"):
            return True
    seen: set[int] = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame, _ in traceback.walk_tb(exc.__traceback__):
            if frame.f_code.co_filename.startswith(REPO_SRC):
                return True
        exc = exc.__cause__  # type: ignore[assignment]
    return False


def tangle(env: Env, *objs: Any) -> None:
    """Let some objects only be freed by the garbage collector, whenever that may be."""
    cycle: list[Any] = [*objs]
    cycle.append(cycle)
    env.cov["tangled"] += 1


NAMES = ("chan", "chan", "chan", "", "100%", "%s %d", "{0} {x}", "\u00fcn\u00ef\n\t\U0001f600", "x" * 300, "same")


@contextlib.contextmanager
def no_loop(yes: bool = True) -> Iterator[None]:
    """Run a step of the program as if no event loop was running (before asyncio.run())."""
    loop = asyncio._get_running_loop()
    if yes:
        asyncio._set_running_loop(None)
    try:
        yield
    finally:
        asyncio._set_running_loop(loop)


class Env:
    """Everything one case needs."""

    def __init__(self, seed: int, loop: VLoop, rng: random.Random, tier: str) -> None:
        self.seed = seed
        self.loop = loop
        self.rng = rng
        self.tier = tier
        self.log: list[tuple[Any, ...]] = []
        self.policies: list[Any] = []
        self.cov: collections.Counter[str] = collections.Counter()
        self.errors: list[BaseException] = []
        self.tasks: list[asyncio.Task[Any]] = []
        self.cancellable: list[asyncio.Task[Any]] = []
        self.nontrivial = False
        self.findings: list[tuple[str, str]] = []
        self.keep: list[Any] = []
        self.n_ev = 0

    # -- recording ----------------------------------------------------------------------------

    def ev(self, *what: Any) -> int:
        """Record an event; returns its position in the history."""
        self.n_ev += 1
        if self.n_ev > MAX_EVENTS:
            raise Livelock(f"more than {MAX_EVENTS} events in one case")
        self.log.append((self.n_ev, self.loop.iters, round(self.loop.vtime, 6), *what))
        return self.n_ev

    def digest(self) -> str:
        h = hashlib.blake2b(digest_size=8)
        for e in self.log:
            h.update(repr(e[3:]).encode())
        return h.hexdigest()

    def finding(self, key: str, msg: str) -> None:
        """Report something that is a violation unless the known-findings file lists its key."""
        self.findings.append((key, msg))

    # -- actors -------------------------------------------------------------------------------

    def spawn(self, coro: Coroutine[Any, Any, Any], name: str = "actor") -> asyncio.Task[Any]:
        async def guard() -> Any:
            try:
                return await coro
            except asyncio.CancelledError:
                raise
            except Exception as exc:  # pylint: disable=broad-except
                self.errors.append(exc)
                self.ev("ERROR", str(exc)[:200])
                return None

        task = self.loop.create_task(guard(), name=name)
        self.tasks.append(task)
        return task

    def check(self) -> None:
        """Raise the first problem an actor ran into."""
        if self.errors:
            raise self.errors[0]

    def require(self, cond: bool, key: str, msg: str | Callable[[], str]) -> None:
        if not cond:
            raise Violation(key, msg if isinstance(msg, str) else msg())

    async def yields(self, n: int) -> None:
        for _ in range(n):
            await asyncio.sleep(0)

    async def pause(self) -> None:
        """A random little delay: a few loop iterations or a bit of time on a coarse grid."""
        r = self.rng.random()
        if r < 0.30:
            return
        if r < 0.75:
            await self.yields(self.rng.choice((1, 1, 2, 3, 4, 6)))
        else:
            await asyncio.sleep(self.rng.choice((1, 1, 2, 3, 5)) / 1000)

    async def idle(self) -> None:
        await self.loop.idle()
        self.check()

    async def settle(self) -> None:
        await self.loop.settle()
        self.check()


# -- messages ---------------------------------------------------------------------------------


class Tok:
    """A message that must not be compared, tested or hashed by a channel."""

    __slots__ = ("k", "__weakref__")
    __hash__ = None  # type: ignore[assignment]

    def __init__(self, k: int) -> None:
        self.k = k

    def __eq__(self, other: object) -> bool:
        raise RuntimeError("a message was compared with ==")

    def __bool__(self) -> bool:
        raise RuntimeError("the truth value of a message was used")

    def __repr__(self) -> str:
        return f"Tok({self.k})"


class YesTok(Tok):
    """A message that is equal to everything and false."""

    __slots__ = ()
    __hash__ = None  # type: ignore[assignment]

    def __eq__(self, other: object) -> bool:
        return True

    def __ne__(self, other: object) -> bool:
        return False

    def __bool__(self) -> bool:
        return False

    def __len__(self) -> int:
        return 0


class ExcTok(Exception):
    """A message that happens to be an exception."""

    def __init__(self, k: int) -> None:
        super().__init__(k)
        self.k = k


class Solo:
    """A message that nobody but the library keeps alive."""

    __slots__ = ("k", "__weakref__")

    def __init__(self, k: int) -> None:
        self.k = k


CONSTANTS = (None, 0, "", False, (), 0.0)


class Messages:
    """Makes messages; identifies received objects again."""

    def __init__(self, env: Env, p_const: float = 0.15) -> None:
        self.env = env
        self.p_const = p_const
        self.by_id: dict[int, str] = {}
        self.solos: dict[int, weakref.ref[Solo]] = {}
        self.n = 0

    def new(self) -> tuple[Any, str]:
        """Return a message and its key; keys of constants start with 'const'."""
        rng = self.env.rng
        self.n += 1
        k = self.n
        obj: Any
        if rng.random() < self.p_const:
            i = rng.randrange(len(CONSTANTS))
            obj = CONSTANTS[i]
            key = f"const{i}"
        else:
            kind = rng.randrange(7)
            if kind == 6:
                solo = Solo(k)
                self.solos[k] = weakref.ref(solo)
                return solo, f"m{k}"
            if kind <= 1:
                obj = Tok(k)
            elif kind == 2:
                obj = YesTok(k)
            elif kind == 3:
                obj = ExcTok(k)
            elif kind == 4:
                obj = [k]
            else:
                obj = StopAsyncIteration(k)
            key = f"m{k}"
        if id(obj) not in self.by_id:
            self.by_id[id(obj)] = key
            self.env.keep.append(obj)
        return obj, self.by_id[id(obj)]

    def knows(self, obj: Any) -> bool:
        if type(obj) is Solo:  # pylint: disable=unidiomatic-typecheck
            return obj.k in self.solos and self.solos[obj.k]() is obj
        return id(obj) in self.by_id

    def key(self, obj: Any) -> str:
        if type(obj) is Solo and self.knows(obj):  # pylint: disable=unidiomatic-typecheck
            return f"m{obj.k}"
        got = self.by_id.get(id(obj))
        return got if got is not None else f"alien:{type(obj).__name__}:{obj!r:.60}"
