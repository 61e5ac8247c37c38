"""DESIGN.md = tools/design_head.md + the table of planted bugs (seeded/*/meta.json)."""
import glob
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
# bugs that no check reports, with the reason
MISSED = {}
by = {}
for f in sorted(glob.glob(os.path.join(TOP, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    by.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
n = sum(map(len, by.values()))
out = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), "", "## Planted bugs: which checks catch which", "",
       "{} bugs in `seeded/`, written from the properties' statements and the code in several rounds (definitions: `tools/seeds/`,".format(n),
       "validated by `tools/seed.py`: applies, builds, keeps the stable tests, demonstration fails only with it; run against the quick",
       "checks by `tools/seedcheck.py`).  Each is caught by the quick check of its own property{}.  About a third".format(
           "" if not MISSED else ", except " + "; ".join("`{}` ({})".format(*x) for x in MISSED.items())),
       "were missed when first planted; the checks were then strengthened by what the miss showed was never exercised (nearly equal",
       "binaries, coinciding end times, idle durations, values at an edge, the same number in another unit, refused lists, mixed forms of a",
       "call, messages after the first, ...), never by looking for the bug itself.", "",
       "| property | planted bugs caught by its check |", "|---|---|"]
for p in sorted(by):
    out.append("| {} | {} |".format(p, "; ".join("{} ({})".format(i[4:] if i[:3].upper() == p else i, m["needs"]) for i, m in by[p])))
open(os.path.join(TOP, "DESIGN.md"), "w").write("\n".join(out) + "\n")
