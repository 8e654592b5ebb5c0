"""Developer tool: make, confirm and try planted bugs. Not used by any check.

plant.py make FILE.py      FILE.py defines PLANTS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
plant.py confirm ID...     patch applies, demo 0 without / nonzero with it, stable tests pass with it
plant.py try ID...         the check of the property (or --check CXX) against a copy with the patch
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
HEAD = """#!/bin/bash
# run with cwd /repo; exit 0 when the behaviour is right
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def copy():
    d = tempfile.mkdtemp(prefix="plant-")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    return d, r


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for p in ns["PLANTS"]:
        d, r = copy()
        try:
            for f, old, new in p["edits"]:
                fp = os.path.join(r, "pylogics_modalities", f)
                s = open(fp, encoding="utf-8").read()
                if s.count(old) != 1:
                    print("SKIP %s: %d occurrences in %s of\n%s" % (p["id"], s.count(old), f, old))
                    break
                open(fp, "w", encoding="utf-8").write(s.replace(old, new))
            else:
                out = os.path.join(SEEDED, p["id"])
                os.makedirs(out, exist_ok=True)
                diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True, check=True).stdout
                open(os.path.join(out, "patch.diff"), "w").write(diff)
                open(os.path.join(out, "demo.sh"), "w").write(HEAD)
                os.chmod(os.path.join(out, "demo.sh"), 0o755)
                open(os.path.join(out, "demo.py"), "w").write(p["demo"].lstrip("\n"))
                json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
                print("made", p["id"])
        finally:
            shutil.rmtree(d)


def patched(pid):
    d, r = copy()
    subprocess.run(["git", "-C", r, "apply", os.path.join(SEEDED, pid, "patch.diff")], check=True)
    return d, r


def confirm(pid):
    demo = os.path.join(SEEDED, pid, "demo.sh")
    d, r = patched(pid)
    try:
        clean = subprocess.run(["bash", demo], cwd="/repo", capture_output=True, text=True, timeout=300)
        bad = subprocess.run(["bash", demo], cwd=r, capture_output=True, text=True, timeout=300)
        msg = []
        if clean.returncode != 0:
            msg.append("DEMO FAILS ON CLEAN: " + clean.stderr[-600:])
        if bad.returncode == 0:
            msg.append("DEMO PASSES WITH PATCH")
        if not msg:
            w = os.path.join(d, "w")
            os.mkdir(w)
            env = dict(os.environ, LC_ALL="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=w + "/pyc",
                       HYPOTHESIS_STORAGE_DIRECTORY=w + "/hyp", PYTHONPATH=r + ":/opt/vp/plugins")
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:randomly", "-p", "vp_hypothesis", "-W", "ignore::DeprecationWarning",
                                "--timeout=300", "--continue-on-collection-errors", "--basetemp=" + w + "/tmp", "--doctest-modules", "pylogics_modalities", "tests"],
                               cwd=r, env=env, capture_output=True, text=True)
            last = t.stdout.strip().splitlines()[-1]
            ok = "32 passed" in last and "2 failed" in last
            if not ok:
                msg.append("TESTS: " + "; ".join(x for x in t.stdout.splitlines() if x.startswith("FAILED"))[:400] + last)
        return "%s %s" % (pid, "confirmed (%s)" % bad.stderr.strip().splitlines()[-1:] if not msg else " ".join(msg))
    finally:
        shutil.rmtree(d)


def attempt(pid, check=None):
    prop = check or json.load(open(os.path.join(SEEDED, pid, "meta.json")))["property"]
    d, r = patched(pid)
    try:
        env = dict(os.environ, VMON_REPO=r)
        t = subprocess.run(["./check", prop, "--tier", "quick"], cwd=VERIF, env=env, capture_output=True, text=True)
        first = next((x for x in t.stdout.splitlines() if x.startswith("kinds")), t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:])
        head = next((x for x in t.stdout.splitlines() if " quick seed" in x), "")
        return "%-28s %s rc=%d %s | %s" % (pid, prop, t.returncode, first[:150], head[-20:])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        make(args[0])
    elif cmd == "confirm":
        with ThreadPoolExecutor(5) as ex:
            for x in ex.map(confirm, args or sorted(os.listdir(SEEDED))):
                print(x, flush=True)
    else:
        chk = None
        if args[:1] == ["--check"]:
            chk, args = args[1], args[2:]
        for pid in args or sorted(os.listdir(SEEDED)):
            print(attempt(pid, chk), flush=True)
