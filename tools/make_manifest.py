"""Writes MANIFEST.json from properties.jsonl (one check per property)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = {
    "C15": "runtime monitoring: purity/race monitors (argument digests, process-state watch, threads) over random workloads",
    "C20": "runtime monitoring: online model checker of parameter histories over random operation sequences",
    "C21": "runtime monitoring: online trace checker of evolution histories against Peters' equations",
    "C18": "runtime monitoring: state-digest monitors over random selections, copies and changes",
    "C19": "runtime monitoring: round-trip monitors over random states and files",
    "C22": "runtime monitoring: online oracle over tolerance histories",
    "C24": "runtime monitoring: artist read-back oracle and side-effect watch over random plots",
    "C25": "runtime monitoring: outcome oracle and model over random constructor calls and assignment histories",
    "C13": "runtime monitoring: metamorphic batch/layout monitors over random workloads",
    "C14": "runtime monitoring: metamorphic unit monitors over random workloads",
    "C26": "runtime monitoring: differential twin monitor (history-free reconstruction) and bystander digests over random operation histories",
    "C27": "runtime monitoring: event-log oracle over logger records, stdout and stderr of calls and of fresh interpreters (pipes, terminals)",
    "C28": "runtime monitoring: differential monitors between specialised and generic collections over random histories",
}
DEFAULT = "runtime monitoring: randomised and hostile workloads on the real code judged by independent reference oracles"
NOTE = ("Oracle judges every observed call of the real code under seeded random, boundary and hostile workloads; evidence file lists "
        "calls observed, judgements and distinct situations. Assumes the reference formulas in lib/ref.py (written from the papers) "
        "and numpy/scipy/astropy; covers only what was executed. ")
EXTRA = {
    "C05": "The tabulated LISA response (R.npy) is compared with a committed copy.",
    "C16": "Sources closer than 1e-4 (relative) to a class boundary or crossing a band edge during the observation are not judged.",
    "C12": "Eccentric tracks are judged to the integrator's accuracy (3e-5 in e).",
    "C21": "Eccentric states are judged up to 97 % of the merger time (integrator accuracy beyond).",
    "C22": "Uses tables g(n,e) computed by lib/overlay.py because the distributed tables are not in the repository.",
    "C02": "Uses tables g(n,e) computed by lib/overlay.py because the distributed tables are not in the repository.",
}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
man = {
    "version": 1,
    "setup_cmd": PY + " -c \"import sys; sys.path.insert(0, 'lib'); import overlay; overlay.ensure_tables(True)\"",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "{} check.py {} --tier quick".format(PY, p["id"]),
        "thorough_cmd": "{} check.py {} --tier thorough".format(PY, p["id"]),
        "evidence_file": "evidence/{}.json".format(p["id"]),
        "technique": TECH.get(p["id"], DEFAULT),
        "level": "exploration",
        "level_note": NOTE + EXTRA.get(p["id"], ""),
    } for p in props],
    "not_applicable": [],
    "notes": "No hooks in /repo: the monitors wrap the public functions and read public state. Everything imports /repo/src/legwork through a "
             "temporary overlay directory of symbolic links that adds the two g(n,e) tables missing from the repository.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
