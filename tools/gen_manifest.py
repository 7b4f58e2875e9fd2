"""Writes MANIFEST.json from the registered checks."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
TECH = {
    "C01": "runtime monitoring: recorded send/receive histories of the real channel under stress, conservation (exactly-once) checker",
    "C02": "runtime monitoring: recorded histories, FIFO (queue order) checker over all ordered pairs of sends",
    "C03": "runtime monitoring: capacity and blocked-waiter invariants evaluated at every quiescent point of stressed executions",
    "C04": "runtime monitoring: outcome checker for sends and receives around close() injected at random points",
    "C05": "runtime monitoring: on-line comparison of every delivery with one reference queue per receiver",
    "C06": "runtime monitoring: on-line reference model of buffers, len() and captured log records",
    "C07": "runtime monitoring: on-line reference model of new receivers' content",
    "C08": "runtime monitoring: outcome checker around close(), weak-reference liveness monitor",
    "C09": "runtime monitoring: protocol automaton checked on-line on every receiver kind",
    "C10": "runtime monitoring: outcome and error-identity checker on every receiver kind",
    "C11": "runtime monitoring: cancellation injection with a per-source sequence checker on every receiver kind",
    "C12": "runtime monitoring: instrumented mapping functions, call/delivery correspondence checker",
    "C13": "runtime monitoring: per-source sequence checker and quiescence check on merged receivers",
    "C14": "runtime monitoring: bounded-overtaking, error-locality and task-leak monitors",
    "C15": "runtime monitoring: trace checker over the sequence of Selected objects with scripted receivers",
    "C16": "runtime monitoring: task-leak monitor and message conservation around every way of leaving select()",
    "C17": "runtime monitoring: scripted receivers with an on-line ready/consume protocol monitor",
    "C18": "runtime monitoring: on-line comparison with a reference state machine",
    "C19": "runtime monitoring on a virtual clock: trigger-time and drift monitor",
    "C20": "runtime monitoring on a virtual clock: tick schedule compared with a reference model",
    "C21": "runtime monitoring on a virtual clock: life-cycle operations compared with a reference model",
    "C22": "runtime monitoring: scripted and real (inotify) watchers, exactly-once checker against the watcher's own reports",
    "C23": "runtime monitoring: fault and cancellation injection into the watcher, outcome and thread-leak monitors",
    "C24": "runtime monitoring: object and task census (garbage collector, all_tasks) between blocks of repeated use, growth detector",
    "C25": "runtime monitoring: probes of all attributes and texts at random moments of modelled executions",
}
NOTE = ("Held on every execution observed (seeded, counted in the evidence file); executions that were not "
        "generated are not covered. Trusts CPython's asyncio, the virtual-clock selector and the oracle.")
EXTRA = {}
done = sys.argv[1:] or sorted(TECH)
props = [json.loads(l)["id"] for l in (ROOT / "properties.jsonl").read_text().splitlines()]
man = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [
        {
            "property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
            "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": "exploration",
            "level_note": EXTRA.get(p, NOTE),
        }
        for p in props if p in done
    ],
    "not_applicable": [
        {"property": p, "reason": "its check is not built yet"} for p in props if p not in done
    ],
}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
