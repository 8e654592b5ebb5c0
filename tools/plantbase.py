"""Which planted bugs change a line of the original repository (65de8d7)?"""
import os
import re
import subprocess
import sys
BASE = "65de8d7"
SE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
added = {}


def own(path):
    if path not in added:
        d = subprocess.run(["git", "-C", "/repo", "diff", "-U0", BASE, "HEAD", "--", path], capture_output=True, text=True).stdout
        s = set()
        for m in re.finditer(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@", d):
            a, n = int(m[1]), int(m[2] or 1)
            s |= set(range(a, a + n))
        added[path] = s
    return added[path]


for pid in sorted(os.listdir(SE)):
    d = subprocess.run(["bash", "-c", "rm -rf /tmp/pb && cp -a /repo /tmp/pb && cd /tmp/pb && git apply %s/%s/patch.diff && git diff -U0; rm -rf /tmp/pb" % (SE, pid)], capture_output=True, text=True)
    ok, path = False, None
    if d.stderr:
        print(pid, d.stderr[:100])
    for line in d.stdout.splitlines():
        if line.startswith("--- a/"):
            path = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            at, n = int(m[1]), int(m[2] or 1)
            old = [x not in own(path) for x in (range(at, at + n) if n else (at, at + 1))]
            ok |= any(old) if n else all(old)
    if not ok:
        print("only own lines:", pid)
