"""Runs the cases of a check, aggregates what the monitors saw, and reports.

    python -m mon.run check C01            # VERIF_SEED, VERIF_TIER from the environment
    python -m mon.run replay replays/x.json
    python -m mon.run case C01 17 [-v]     # one case, with its recorded history
"""

from __future__ import annotations

import asyncio
import collections
import contextlib
import gc
import importlib
import json
import logging
import os
import pathlib
import pickle
import random
import resource
import select as _os_select
import signal
import sys
import time
import traceback
import warnings
from dataclasses import dataclass, field
from typing import Any

from .fakefs import FakeOS  # before anything else of the library
from .core import REPO_SRC, Env, Inconclusive, Violation, in_library, in_repo
from .vloop import Deadlock, Livelock, RLoop, Spin, VLoop

ROOT = pathlib.Path(__file__).resolve().parent.parent
KNOWN = ROOT / "KNOWN_FINDINGS.txt"
WORKERS = max(1, min(8, os.cpu_count() or 1))
SPIN_CPU_S = 20.0
CASE_WALL_S = 120
MEMORY_BYTES = 2 << 30  # usual are less than 100 MB
HARD_WALL_S = 780.0
HARD_WALL_QUICK_S = 400.0


@dataclass
class Check:
    """What a property module registers."""

    pid: str
    rule: str
    workloads: list[tuple[str, int, Any]]
    quick: int
    thorough: int
    need: dict[str, int] = field(default_factory=dict)
    assumptions: list[str] = field(default_factory=list)
    real: frozenset[str] = frozenset()  # workloads that run in real time
    real_share: float = 0.0


@dataclass
class Outcome:
    """The result of one case."""

    index: int
    workload: str
    kind: str  # ok, violation, inconclusive, harness
    key: str = ""
    msg: str = ""
    digest: str = ""
    nontrivial: bool = False
    cov: dict[str, int] = field(default_factory=dict)
    log: list[Any] = field(default_factory=list)
    findings: list[tuple[str, str]] = field(default_factory=list)


def load(pid: str) -> Check:
    """Load the check of a property."""
    from . import checks  # pylint: disable=import-outside-toplevel

    mod = importlib.import_module(f"mon.{checks.MODULES[pid]}")
    found: Check = mod.CHECKS[pid]
    return found


SPUN: list[int] = []
UNRAISABLE: list[BaseException] = []


def _unraisable(args: Any) -> None:
    """A finalizer of the library must not fail."""
    exc = args.exc_value
    if exc is not None and in_repo(exc) and getattr(args.object, "__name__", "") == "__del__":
        UNRAISABLE.append(exc)


def _spin(_sig: int, _frame: Any) -> None:
    SPUN.append(1)
    raise Spin(f"one case used more than {SPIN_CPU_S:.0f} s of CPU time")


def _unusable(exc: BaseException) -> tuple[str, str]:
    """The workload could not go on: what the library gave it is not what the API promises.

    (The workloads use the public API only and never fail on a library that fulfils it.)
    """
    if isinstance(exc, (MemoryError, OSError)):
        return "harness", type(exc).__name__
    return "violation", f"unusable-{type(exc).__name__}"


def _wall(_sig: int, _frame: Any) -> None:
    raise Inconclusive(f"one case took more than {CASE_WALL_S} s")


class _Reader(logging.Handler):
    """Somebody reads the log."""

    def emit(self, record: logging.LogRecord) -> None:
        with contextlib.suppress(Exception):
            record.getMessage()


def _logging(rng: random.Random) -> int:
    """How much is logged must not matter."""
    level = rng.choice((QUIET, QUIET, QUIET, logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR))
    logging.getLogger("frequenz").setLevel(level)
    return level


def _collector(rng: random.Random, env: Env, p_line: float) -> Any:
    """A trace function that collects garbage before random lines of the library.

    Garbage may be collected at any allocation, so finalizers and weak references may act there.
    """

    def line(_frame: Any, event: str, _arg: Any) -> Any:
        if event == "line" and rng.random() < p_line:
            gc.collect()
            env.loop.n_collects += 1
            env.cov["collected_in_lines"] += 1
            if env.cov["collected_in_lines"] >= 300:
                sys.settrace(None)
        return line

    def call(frame: Any, _event: str, _arg: Any) -> Any:
        return line if frame.f_code.co_filename.startswith(REPO_SRC) else None

    return call


def _finish(loop: VLoop) -> None:
    """Cancel what is left and close the loop; its result does not matter."""
    loop.closing = True
    for _ in range(4):
        left = [t for t in asyncio.all_tasks(loop) if not t.done()]
        if not left:
            break
        for task in left:
            task.cancel()
        with contextlib.suppress(Exception):
            loop.max_iters = loop.iters + 3000
            loop.run_until_complete(_drain(left))
    with contextlib.suppress(Exception):
        loop.max_iters = loop.iters + 3000
        loop.run_until_complete(asyncio.wait_for(loop.shutdown_asyncgens(), 10))
    with contextlib.suppress(Exception):
        loop.close()


async def _drain(tasks: list[Any]) -> None:
    await asyncio.wait(tasks, timeout=10)


QUIET = logging.CRITICAL + 10

LATE = ("timeout", "forgotten", "cancel-lost")
"""What may also be the fault of the operating system, or of watchfiles, in a case with real files.

(watchfiles copies its set of changes and clears it in two steps, without a lock in between.)
"""


def run_case(check: Check, seed: int, tier: str, index: int, verbose: bool = False) -> Outcome:
    """Run one case and judge it."""
    out = _run_once(check, seed, tier, index, verbose)
    for _ in range(2):
        if out.workload in check.real and out.kind == "violation" and out.key in LATE:
            out = _run_once(check, seed, tier, index, verbose)
            out.cov["real_retries"] = 1
    return out


def _run_once(check: Check, seed: int, tier: str, index: int, verbose: bool = False) -> Outcome:
    rng = random.Random(f"{seed}/{check.pid}/{index}")
    names = [w[0] for w in check.workloads]
    # Every workload gets its share; the choice does not depend on the tier.
    name = rng.choices(names, [w[1] for w in check.workloads])[0]
    if check.real:
        real = rng.random() < check.real_share
        pick = [w for w in check.workloads if (w[0] in check.real) is real]
        name = rng.choices([w[0] for w in pick], [w[1] for w in pick])[0]
    func = next(w[2] for w in check.workloads if w[0] == name)
    start = rng.choice([0.0, 0.0, 1e-7, 0.3333333, 12.5, 1234.567891, 86400.000001, 5e6])
    late = rng.choice([0.0, 0.0, 0.0, 1e-4, 3e-3])
    loop: Any
    if name in check.real:
        loop = RLoop()
    else:
        loop = VLoop(seed=rng.getrandbits(32), start=start, late=late, eager=rng.random() < 0.12)
        if rng.random() < 0.03:
            loop.set_debug(True)
        if rng.random() < 0.05:
            loop.collect = rng.choice((0.02, 0.1, 0.3))
    env = Env(index, loop, rng, tier)
    env.cov["logged_cases"] += _logging(random.Random(f"logging/{seed}/{check.pid}/{index}")) != QUIET
    out = Outcome(index, name, "ok")
    FakeOS.registry.clear()
    gc.collect(2 if index % 400 < WORKERS else 1 if index % 50 < WORKERS else 0)
    gc.disable()
    SPUN.clear()
    UNRAISABLE.clear()
    old = signal.signal(signal.SIGPROF, _spin)
    old_alrm = signal.signal(signal.SIGALRM, _wall)
    signal.setitimer(signal.ITIMER_PROF, SPIN_CPU_S)
    signal.alarm(CASE_WALL_S)
    asyncio.set_event_loop(loop)
    gc_rng = random.Random(f"collect/{seed}/{check.pid}/{index}")
    try:
        async def main() -> None:
            await func(env)
            env.check()
            for ctx in loop.contexts:
                if str(ctx.get("message")).startswith("Task was destroyed") and in_library(ctx["task"]):
                    raise Violation("destroyed", f"a task of the library was abandoned while it was waiting: {ctx['task']!r}")

        if gc_rng.random() < 0.03 and name not in check.real and sys.gettrace() is None:
            sys.settrace(_collector(gc_rng, env, gc_rng.choice((0.005, 0.03, 0.3))))
        loop.run_until_complete(main())
    except Violation as exc:
        out.kind, out.key, out.msg = "violation", exc.key, exc.msg
    except Inconclusive as exc:
        out.kind, out.msg = "inconclusive", str(exc)
    except (Deadlock, Livelock, Spin) as exc:
        first = next((e for e in env.errors if isinstance(e, Violation)), None)
        if first is not None:
            out.kind, out.key, out.msg = "violation", first.key, first.msg
        elif env.errors and not in_repo(env.errors[0]):
            out.kind, out.key = _unusable(env.errors[0])
            out.msg = "".join(traceback.format_exception(env.errors[0]))
        else:
            out.kind, out.key, out.msg = "violation", type(exc).__name__.lower(), str(exc)
    except MemoryError as exc:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_BYTES + (1 << 30),) * 2)  # to be able to tell
        out.kind, out.key = "violation", "memory"
        out.msg = f"one case needs more than {MEMORY_BYTES >> 30} GiB of memory: {exc!r:.200}"
    except Exception as exc:  # pylint: disable=broad-except
        text = "".join(traceback.format_exception(exc))
        if in_repo(exc):
            out.kind, out.key = "violation", f"unexpected-{type(exc).__name__}"
            out.msg = f"the library raised {exc!r}\n{text}"
        else:
            (out.kind, out.key), out.msg = _unusable(exc), text
    finally:
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        if SPUN and out.kind != "violation":
            out.kind, out.key = "violation", "spin"
            out.msg = f"one case used more than {SPIN_CPU_S:.0f} s of CPU time"
        try:
            signal.setitimer(signal.ITIMER_PROF, SPIN_CPU_S)
            _finish(loop)
        except (Spin, Deadlock, Livelock, MemoryError):
            pass
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        signal.signal(signal.SIGALRM, old_alrm)
        asyncio.set_event_loop(None)
        gc.enable()
    if out.kind == "ok" and UNRAISABLE:
        out.kind, out.key = "violation", f"unraisable-{type(UNRAISABLE[0]).__name__}"
        out.msg = "".join(traceback.format_exception(UNRAISABLE[0]))
    UNRAISABLE.clear()
    out.cov = dict(env.cov)
    out.cov["events"] = env.n_ev
    out.cov["loop_iterations"] = loop.iters
    out.cov["forced_gc"] = loop.n_collects
    out.cov["rest_points"] = loop.n_settles + loop.n_idles
    out.nontrivial = env.nontrivial
    out.digest = f"{name}:{env.digest()}"
    out.findings = list(env.findings)
    if verbose or out.kind != "ok" or index < 3 or out.findings:
        out.log = [[_plain(x) for x in e] for e in env.log[-400:]]
    return out


def _plain(value: Any) -> Any:
    return value if isinstance(value, (int, float, str, bool, type(None))) else repr(value)[:200]


def known_keys(pid: str) -> dict[str, str]:
    """The listed findings of a property: key -> description."""
    found: dict[str, str] = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            words = line.split(" ", 3)
            if words[0] == "finding:" and words[1] == f"property={pid}":
                found[words[2].removeprefix("key=")] = words[3]
    return found


def _worker(check: Check, seed: int, tier: str, indices: list[int], fd: int, t_end: float) -> None:
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_BYTES, MEMORY_BYTES + (1 << 30)))
    gc.collect()
    gc.freeze()
    known = known_keys(check.pid)
    with os.fdopen(fd, "wb") as pipe:

        def put(obj: Any) -> None:
            blob = pickle.dumps(obj)
            pipe.write(len(blob).to_bytes(4, "big") + blob)
            pipe.flush()

        batch: list[Outcome] = []
        for index in indices:
            if time.monotonic() > t_end:
                put(("timeup", None))
                break
            out = run_case(check, seed, tier, index)
            batch.append(out)
            bad = out.kind in ("violation", "harness") or any(k not in known for k, _ in out.findings)
            if len(batch) >= 50 or bad:
                put(("batch", batch))
                batch = []
            if bad:
                break
        put(("batch", batch))


def run_check(pid: str) -> int:
    """Run a whole check; the return value is the exit code."""
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    check = load(pid)
    total = int(check.quick * (1.5 if check.real else 3)) if tier == "quick" else check.thorough
    if os.environ.get("MON_CASES"):
        total = int(os.environ["MON_CASES"])
    t0 = time.monotonic()
    t_end = t0 + (HARD_WALL_QUICK_S if tier == "quick" else HARD_WALL_S)
    workers = min(WORKERS, total)
    fds: dict[int, tuple[int, bytearray]] = {}
    pids: list[int] = []
    sys.stdout.flush()
    for k in range(workers):
        rfd, wfd = os.pipe()
        child = os.fork()
        if child == 0:
            code = 0
            try:
                os.close(rfd)
                for other in fds:
                    os.close(other)
                _worker(check, seed, tier, list(range(k, total, workers)), wfd, t_end)
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        fds[rfd] = (child, bytearray())
        pids.append(child)

    outs = 0
    cov: collections.Counter[str] = collections.Counter()
    per_workload: collections.Counter[str] = collections.Counter()
    digests: set[str] = set()
    n_nontrivial = n_inconclusive = 0
    bad: list[Outcome] = []
    harness: list[Outcome] = []
    known = known_keys(pid)
    seen_known: dict[str, tuple[int, str]] = {}
    samples: list[Any] = []
    inconclusive_msgs: collections.Counter[str] = collections.Counter()
    timeup = False
    stop = False
    while fds and not stop:
        ready, _, _ = _os_select.select(list(fds), [], [], 5.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            child, buf = fds[fd]
            if not chunk:
                os.close(fd)
                del fds[fd]
                continue
            buf += chunk
            while len(buf) >= 4 and len(buf) >= 4 + int.from_bytes(buf[:4], "big"):
                size = int.from_bytes(buf[:4], "big")
                kind, data = pickle.loads(bytes(buf[4 : 4 + size]))
                del buf[: 4 + size]
                if kind == "timeup":
                    timeup = True
                    continue
                for out in data:
                    outs += 1
                    cov.update(out.cov)
                    per_workload[out.workload] += 1
                    if out.kind == "inconclusive":
                        n_inconclusive += 1
                        inconclusive_msgs[out.msg[:80]] += 1
                    if out.nontrivial:
                        n_nontrivial += 1
                        digests.add(out.digest)
                    if out.index < 3 and out.log:
                        samples.append(
                            {"case": out.index, "workload": out.workload,
                             "seen": out.cov, "history_tail": out.log[-30:]}
                        )
                    for key, msg in out.findings:
                        if key in known:
                            seen_known.setdefault(key, (out.index, msg))
                        else:
                            out.kind, out.key, out.msg = "violation", key, msg
                    if out.kind == "violation":
                        bad.append(out)
                        stop = True
                    elif out.kind == "harness":
                        harness.append(out)
                        stop = True
    for child in pids:
        with contextlib.suppress(ProcessLookupError):
            if stop:
                os.kill(child, signal.SIGKILL)
    codes = []
    for child in pids:
        with contextlib.suppress(ChildProcessError):
            codes.append(os.waitpid(child, 0)[1])
    wall = time.monotonic() - t0

    missing = {k: (cov.get(k, 0), v) for k, v in check.need.items()
               if cov.get(k, 0) * check.quick < v * min(outs, check.quick)} if outs else {"cases": (0, 1)}
    coverage: dict[str, Any] = {
        "evaluations": outs,
        "distinct_nontrivial": len(digests),
        "nontrivial": n_nontrivial,
        "rule": check.rule,
        "workloads": dict(sorted(per_workload.items())),
        "observed": {k: cov[k] for k in sorted(cov)},
        "inconclusive_cases": n_inconclusive,
        "known_findings_seen": sorted(seen_known),
        "samples": samples[:3] or ["no sample kept"],
    }
    if timeup:
        coverage["stopped_early"] = "wall-clock limit; the remaining cases were not run"
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage, "assumptions": check.assumptions,
        "wall_s": round(wall, 2), "violations": len(bad),
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{pid}.json").write_text(json.dumps(evidence, indent=1) + "\n")

    for key, (index, msg) in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {key}: {known[key]} (case {index}: {msg.splitlines()[0][:160]})")
    if bad:
        (ROOT / "replays").mkdir(exist_ok=True)
        for out in bad:
            path = ROOT / "replays" / f"{pid}-{tier}-{seed}-{out.index}.json"
            path.write_text(json.dumps({
                "property": pid, "seed": seed, "tier": tier, "case": out.index,
                "workload": out.workload, "key": out.key, "what": out.msg, "history": out.log,
            }, indent=1) + "\n")
            print(f"{pid} case {out.index} ({out.workload}): {out.key}: {out.msg}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if harness:
        for out in harness:
            print(f"HARNESS ERROR {pid} case {out.index} ({out.workload}): {out.msg}", file=sys.stderr)
        return 2
    if any(codes):
        print(f"{pid}: a worker process died: {codes}", file=sys.stderr)
        return 2
    if n_inconclusive:
        print(f"{pid}: inconclusive cases: {dict(inconclusive_msgs)}")
    if missing:
        print(f"{pid}: INCONCLUSIVE, monitors were reached too rarely (seen, needed): {missing}", file=sys.stderr)
        return 2
    print(f"{pid} {tier} seed={seed}: held in {outs} cases ({len(digests)} distinct non-trivial), {wall:.1f} s")
    return 0


def _setup() -> None:
    logging.raiseExceptions = False
    logging.lastResort = None
    logging.getLogger("frequenz").setLevel(QUIET)
    logging.getLogger("frequenz").addHandler(_Reader())
    logging.getLogger("frequenz").propagate = False
    logging.getLogger("asyncio").setLevel(logging.CRITICAL + 10)
    warnings.simplefilter("ignore")
    sys.unraisablehook = _unraisable
    import frequenz.channels as lib  # pylint: disable=import-outside-toplevel

    assert lib.__file__ is not None and lib.__file__.startswith("/repo/src/"), lib.__file__


def main(argv: list[str]) -> int:
    """Entry point."""
    _setup()
    if argv[0] == "check":
        return run_check(argv[1])
    if argv[0] == "replay":
        data = json.loads(pathlib.Path(argv[1]).read_text())
        out = run_case(load(data["property"]), data["seed"], data["tier"], data["case"], True)
    else:
        out = run_case(
            load(argv[1]), int(os.environ.get("VERIF_SEED", "1")),
            os.environ.get("VERIF_TIER", "quick"), int(argv[2]), True,
        )
    for event in out.log:
        print(*event)
    print(out.workload, out.kind, out.key, out.msg, out.findings)
    print(out.cov)
    return 1 if out.kind == "violation" else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
