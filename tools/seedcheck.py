"""Run the quick checks of the properties against the planted bugs, each in a scratch copy.

tools/seedcheck.py [--also C03,C11] [ids...]   prints which checks report a violation
(LEGWORK_REPO points the checks at the copy; the registered commands always run against /repo).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(bug, prop, seed="1", jobs="2"):
    top = tempfile.mkdtemp(prefix="sc-")
    try:
        repo = os.path.join(top, "repo")
        os.makedirs(repo)
        subprocess.run(["cp", "-a", "/repo/src", "/repo/docs", repo], check=True)
        if bug:
            r = subprocess.run(["patch", "-s", "-p1", "-i", os.path.join(VERIF, "seeded", bug, "patch.diff")],
                               cwd=repo, capture_output=True, text=True)
            if r.returncode:
                return "APPLY " + r.stdout + r.stderr
        ev = os.path.join(top, "evidence")
        os.makedirs(ev)
        env = dict(os.environ, LEGWORK_REPO=repo, VERIF_SEED=seed, VERIF_TIER="quick", VERIF_EVIDENCE=ev)
        try:
            r = subprocess.run(["/opt/venv/bin/python", "check.py", prop, "--jobs", jobs], cwd=VERIF, env=env,
                               capture_output=True, text=True, timeout=1500)
        except subprocess.TimeoutExpired:
            return "TIMEOUT"
        v = [ln for ln in r.stdout.splitlines() if ln.startswith("VIOLATION")]
        return ("CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "EXIT %d" % r.returncode,
                (r.stdout + r.stderr).strip()[-600:])
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    also = []
    if args and args[0] == "--also":
        also, args = args[1].split(","), args[2:]
    ids = sorted(b for b in os.listdir(os.path.join(VERIF, "seeded")) if not args or any(b.startswith(a) for a in args))
    jobs = []
    for b in ids:
        p = json.load(open(os.path.join(VERIF, "seeded", b, "meta.json")))["property"]
        for q in [p] + [x for x in also if x != p]:
            jobs.append((b, q))
    with ThreadPoolExecutor(int(os.environ.get("W", "4"))) as ex:
        for (b, q), res in zip(jobs, ex.map(lambda j: run(*j), jobs)):
            print(b, q, res[0] if isinstance(res, tuple) else res, flush=True)
            if isinstance(res, tuple) and res[0] != "CAUGHT":
                print("    " + res[1][-300:].replace("\n", "\n    "), flush=True)
