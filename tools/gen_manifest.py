"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.props import PROPS
NOTE = ("Seeded sampling of programs, faults and schedules, not a proof: a clean run means no violation in the runs counted in the evidence. "
        "Trusts the reference model (sim/model.py), SQLite, joblib, pandas, CPython and the simulated disk's durability rules.")
TECH = dict(
    single="deterministic simulation: generated user program run in lockstep with a reference model, seeded fault injection (crash, power loss, I/O and SQL errors, interrupts)",
    multi="deterministic simulation: several simulated processes on one database under a seeded scheduler, with crash, stall and I/O fault injection, against a reference model",
    versioned="deterministic simulation: generated edit/sync/run/crash histories of a user module, with fault injection, against a reference model of versions",
    cf="deterministic simulation: computation frame programs run over simulated stores whose histories include crashes and faults, in lockstep with a set model of the recorded calls",
    relay="deterministic simulation: one program relayed between operating system processes with different hash seeds on one durable store, with crash and I/O fault injection, identities compared with the reference model throughout")
NA = {
    "C21": "A pure function of its input (content hashing): no schedule, clock, fault or history for a simulator to control.",
    "C22": "Pure graph helpers on in-memory dictionaries: no schedule, clock, fault or history for a simulator to control.",
    "C23": "Pure text rendering (DOT, diffs): no schedule, clock, fault or history for a simulator to control.",
}
checks = []
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python check.py --property %s --tier quick" % i,
                           thorough_cmd="/opt/venv/bin/python check.py --property %s --tier thorough" % i,
                           technique=TECH["cf" if i in ("C18", "C19") else PROPS[i]["kind"]], level="exploration", level_note=PROPS[i].get("note", NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check is registered for it at this commit; see DESIGN.md.")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python check.py --selftest", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks were needed: every seam is an existing one (module attributes of sqlite3, os, time, builtins; an SQLite VFS)", source_commits=[]),
         notes="check.py --replay FILE re-executes a recorded failure. known_findings.txt lists repaired and recorded defects.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
