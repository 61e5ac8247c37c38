"""Write and validate planted bugs: tools/seed.py [ids...]  (definitions in tools/seeds/defs*.py)

For every definition: build patch.diff from the textual edits, check that it only removes original
lines of the repository, that it builds, that the stable tests still pass, and that the demonstration
passes on the unchanged tree and fails with the patch.  All of it in a scratch copy under /tmp.
"""
import difflib
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
REPO = "/repo"


def load():
    defs = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "defs*.py"))):
        for d in runpy.run_path(f)["BUGS"]:
            assert d["id"] not in defs, d["id"]
            defs[d["id"]] = d
    return defs


def base_lines(path):
    out = subprocess.run(["git", "-C", REPO, "blame", "-s", path], capture_output=True, text=True, check=True).stdout
    return [ln.startswith("^") for ln in out.splitlines()]


def make(d):
    """Write the directory; return None or a problem."""
    dst = os.path.join(SEEDED, d["id"])
    diff = ""
    for path in sorted({e[0] for e in d["edits"]}):
        old = open(os.path.join(REPO, path)).read()
        new = old
        for p, a, b, *nth in d["edits"]:
            if p != path:
                continue
            k = nth[0] if nth else 1
            cnt = new.count(a)
            if cnt < k or (not nth and cnt != 1):
                return "edit text found %d times in %s: %r" % (cnt, path, a[:60])
            pos = -1
            for _ in range(k):
                pos = new.index(a, pos + 1)
            new = new[:pos] + b + new[pos + len(a):]
        orig = base_lines(path)
        ol, nl = old.splitlines(True), new.splitlines(True)
        removed = [i for tag, i1, i2, _, _ in difflib.SequenceMatcher(None, ol, nl, autojunk=False).get_opcodes()
                   if tag in ("replace", "delete") for i in range(i1, i2)]
        if not removed or not all(orig[i] for i in removed):
            return "changes lines that are not original: %s" % [i + 1 for i in removed if not orig[i]]
        diff += "".join(difflib.unified_diff(ol, nl, "a/" + path, "b/" + path))
    os.makedirs(dst, exist_ok=True)
    with open(os.path.join(dst, "patch.diff"), "w") as f:
        f.write(diff)
    with open(os.path.join(dst, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(dst, "demo.sh"), 0o755)
    with open(os.path.join(dst, "demo.py"), "w") as f:
        f.write("from ov import *\n" + d["demo"].strip("\n") + "\nprint(\"ok\")\n")
    shutil.copy(os.path.join(HERE, "seeds", "ov.py"), os.path.join(dst, "ov.py"))
    with open(os.path.join(dst, "meta.json"), "w") as f:
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, f, indent=1)
        f.write("\n")
    return None


def validate(d):
    err = make(d)
    if err:
        return d["id"], "MAKE " + err
    dst = os.path.join(SEEDED, d["id"])
    top = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(top, "repo")
    try:
        subprocess.run(["cp", "-a", REPO, repo], check=True)
        demo = ["bash", os.path.join(dst, "demo.sh")]
        r = subprocess.run(demo, cwd=repo, capture_output=True, text=True, timeout=300)
        if r.returncode != 0:
            return d["id"], "DEMO fails on clean: " + (r.stdout + r.stderr)[-1500:]
        r = subprocess.run(["git", "apply", os.path.join(dst, "patch.diff")], cwd=repo, capture_output=True, text=True)
        if r.returncode != 0:
            return d["id"], "APPLY " + r.stderr
        r = subprocess.run(demo, cwd=repo, capture_output=True, text=True, timeout=300)
        if r.returncode == 0:
            return d["id"], "DEMO passes on patched"
        msg = (r.stdout + r.stderr).strip().splitlines()[-1][:150]
        env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src"), PYTHONHASHSEED="0", MPLBACKEND="Agg",
                   PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
        base = json.load(open("/opt/vp/BASELINE.json"))
        junit = os.path.join(top, "j.xml")
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
                        "--continue-on-collection-errors", "-p", "no:cov", "--randomly-seed=0",
                        "--randomly-dont-reorganize", "-o", "junit_family=xunit2", "--junitxml=" + junit,
                        "src/legwork/tests"], cwd=repo, env=env, capture_output=True, text=True)
        out = os.path.join(top, "o.json")
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + junit], capture_output=True)
        res = json.load(open(out))
        bad = compare(base, res)
        if bad:
            return d["id"], "TESTS " + str(bad[:4])
        return d["id"], "ok (%s)" % msg
    except subprocess.TimeoutExpired:
        return d["id"], "TIMEOUT"
    finally:
        shutil.rmtree(top, ignore_errors=True)


def names(x):
    """Test names that passed, whatever the layout of the file."""
    if isinstance(x, dict) and "passed" in x:
        return set(x["passed"])
    if isinstance(x, dict) and "stable" in x:
        return set(x["stable"])
    if isinstance(x, dict) and "tests" in x:
        return names(x["tests"])
    if isinstance(x, dict):
        return {k for k, v in x.items() if v in ("passed", "pass", True)}
    return set(x)


def compare(base, res):
    want = {n for n in names(base) if "docs/demos" not in n and ".ipynb" not in n}
    return sorted(want - names(res))


if __name__ == "__main__":
    defs = load()
    ids = sys.argv[1:] or sorted(defs)
    todo = [defs[i] for i in defs if any(i == a or i.startswith(a) for a in ids)]
    with ThreadPoolExecutor(6) as ex:
        for i, msg in ex.map(validate, todo):
            print(i, msg, flush=True)
