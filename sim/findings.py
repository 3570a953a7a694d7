"""
Known findings: genuine defects that are recorded instead of repaired. Each has a dedicated deterministic scenario; a check
runs the scenarios of its property, and prints a KNOWN-FINDING line for each one that still fails. They suppress nothing else.
"""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))


def probe(prop, vfs, tmp, ask):
    path = os.path.join(os.path.dirname(HERE), "known_findings.txt")
    todo = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                f = dict(x.split("=", 1) for x in line[7:].split(" ", 2)[:2])
                if f["property"] == prop:
                    todo.append((f["id"], line[7:].split(" ", 2)[2]))
    if not todo:
        return []
    evs = ask(vfs, 0, tmp, dict(cmd="findings", ids=[t[0] for t in todo]), 300)
    res = [e for e in evs if e["ev"] == "findings"][-1]["res"]
    return ["KNOWN-FINDING: property=%s %s: %s" % (prop, i, text) for i, text in todo if res.get(i)]
