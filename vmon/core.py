"""Runner: shards in fresh processes, event counters, violations, known findings, evidence.

Exit status of a check: 0 held on everything observed, 1 violation, 2 inconclusive or error.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMON_REPO", "/repo")
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")
MAX_VIOLATIONS = 6
WORKER_LIMIT_S = {"quick": 780, "thorough": 3300}


def tup(x):
    """Lists (from JSON) back into tuples."""
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def digest(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "backslashreplace"), digest_size=8).hexdigest()


def known_ids(prop):
    out = {}
    try:
        with open(KNOWN_FILE) as f:
            for line in f:
                if line.startswith("known: "):
                    fields = line[len("known: "):].strip().split(" ", 2)
                    if len(fields) == 3 and fields[0] == "property=" + prop and fields[1].startswith("id="):
                        out[fields[1][3:]] = fields[2]
    except FileNotFoundError:
        pass
    return out


class Stop(BaseException):
    """Ends the workload of a shard early; what was observed so far is still reported."""


class Ctx:
    def __init__(self, prop, module, tier, seed, shard, nshards):
        self.prop, self.module, self.tier, self.seed = prop, module, tier, seed
        self.shard, self.nshards = shard, nshards
        self.rng = random.Random("%s/%s/%s" % (seed, prop, shard))
        self.events, self.digests, self.samples = {}, set(), []
        self.evaluations = 0
        self.violations, self.known_seen = [], {}
        self.known_listed = known_ids(prop)
        self.scale = 1
        self.max_failures = 60
        self._case = (None, None)
        self._failed_kinds = {}

    # --- workload size
    def n(self, quick, thorough=None):
        """Number of cases of this shard, for totals over all shards."""
        total = quick if self.tier == "quick" else (thorough if thorough is not None else quick * 10)
        total = int(total * self.scale)
        base, rest = divmod(total, self.nshards)
        return base + (1 if self.shard < rest else 0)

    def mine(self, i):
        return i % self.nshards == self.shard

    # --- observation
    def ev(self, name, k=1):
        self.events[name] = self.events.get(name, 0) + k

    def peak(self, name, v):
        """An event whose largest value counts; the name must begin with "largest"."""
        self.events[name] = max(self.events.get(name, 0), v)

    def distinct(self, x):
        self.digests.add(digest(x))

    def sample(self, text):
        if len(self.samples) < 3 or (len(self.samples) < 40 and self.rng.random() < 0.02):
            self.samples.append(str(text)[:300])

    def run(self, _name, /, **case):
        """Run one case under its oracle; an exception that escapes it is a violation too."""
        self._case = (_name, case)
        self.evaluations += 1
        self.ev("cases:" + _name)
        try:
            return getattr(self.module, "case_" + _name)(self, **{k: tup(v) for k, v in case.items()})
        except Stop:
            raise
        except Exception as e:  # noqa: B902
            tb = traceback.extract_tb(e.__traceback__)
            where = next(("%s:%s" % (os.path.relpath(f.filename, REPO), f.name) for f in reversed(tb) if f.filename.startswith(REPO + "/")), "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno))
            self.fail("unexpected %s in %s" % (type(e).__name__, where), "%s: %s" % (type(e).__name__, str(e)[:400]))

    def fail(self, kind, message):
        n = self._failed_kinds[kind] = self._failed_kinds.get(kind, 0) + 1
        if n <= 2:
            name, case = self._case
            self.violations.append({"property": self.prop, "kind": kind, "message": str(message)[:2000], "check": name, "case": case,
                                    "seed": self.seed, "tier": self.tier, "shard": self.shard, "hashseed": os.environ.get("PYTHONHASHSEED"), "optimise": not __debug__})
        if len(self.violations) >= MAX_VIOLATIONS or sum(self._failed_kinds.values()) > self.max_failures:
            raise Stop()

    def known(self, fid, message):
        """A failure attributed to a listed known finding; unlisted ones are violations."""
        if fid in self.known_listed:
            self.known_seen[fid] = self.known_seen.get(fid, 0) + 1
            self.ev("known:" + fid)
        else:
            self.fail("finding " + fid, message)

    def check(self, cond, kind, message):
        if not cond:
            self.fail(kind, message() if callable(message) else message)
        return cond


class Lines:
    """Which source lines of the code under test ran (each reported once, then switched off)."""

    def __init__(self):
        self.hit = set()
        self.top = os.path.join(REPO, "pylogics_modalities") + os.sep
        m = sys.monitoring
        self.tool = m.COVERAGE_ID
        try:
            m.use_tool_id(self.tool, "vmon")
        except ValueError:
            return
        m.register_callback(self.tool, m.events.LINE, self._line)
        m.set_events(self.tool, m.events.LINE)

    def _line(self, code, line):
        if code.co_filename.startswith(self.top):
            self.hit.add((code.co_filename[len(self.top):], line))
        return sys.monitoring.DISABLE


def executable_lines(files):
    """Lines of function bodies in the given files of the code under test."""
    out = {}
    for f in files:
        path = os.path.join(REPO, "pylogics_modalities", f)
        try:
            with open(path) as fh:
                code = compile(fh.read(), path, "exec")
        except (OSError, SyntaxError):
            continue
        lines = set()
        stack = [c for c in code.co_consts if hasattr(c, "co_lines")]
        while stack:
            c = stack.pop()
            stack.extend(k for k in c.co_consts if hasattr(k, "co_lines"))
            if c.co_flags & 0x2:  # optimised: a function, not a class body
                lines |= {ln for _, _, ln in c.co_lines() if ln and ln != c.co_firstlineno}
        out[f] = lines
    return out


RECURSION_LIMIT = 8000  # how deep a formula may be nested before the interpreter gives up is nobody's promise


def worker(args):
    sys.setrecursionlimit(RECURSION_LIMIT)
    truncated = []

    def on_term(*_):
        truncated.append(True)
        raise Stop()
    signal.signal(signal.SIGTERM, on_term)
    lines = Lines()
    module = importlib.import_module("vmon.checks." + args.prop.lower())
    ctx = Ctx(args.prop, module, args.tier, args.seed, args.shard, args.nshards)
    ctx.scale = importlib.import_module("vmon.checks.meta").SCALE.get(args.prop, {}).get(args.tier, 1)
    try:
        if args.replay:
            with open(args.replay) as f:
                rec = json.load(f)
            ctx.run(rec["check"], **rec["case"])
        else:
            module.run_shard(ctx)
    except Stop:
        pass
    with open(args.out, "w") as f:
        json.dump({
            "events": ctx.events, "digests": sorted(ctx.digests), "samples": ctx.samples, "evaluations": ctx.evaluations,
            "violations": ctx.violations, "known": ctx.known_seen, "kinds": ctx._failed_kinds,
            "lines": sorted(lines.hit), "truncated": bool(truncated), "optimise": not __debug__, "hashseed": os.environ.get("PYTHONHASHSEED"),
        }, f)
    return 0


def python_exe():
    for p in (os.environ.get("VMON_PYTHON"), "/opt/venv/bin/python", sys.executable):
        if p and os.path.exists(p):
            return p
    return "python3"


def child_env(hashseed):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO + os.pathsep + VERIF, VMON_REPO=REPO,
               PYTHONPYCACHEPREFIX="/nonexistent-vmon-pycache", PYTHONUTF8="1", VMON_PYTHON=python_exe())
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--out")
    args = ap.parse_args()
    if args.worker:
        return worker(args)
    return orchestrate(args)


def orchestrate(args):
    t0 = time.time()
    # metadata is read without importing the code under test
    meta = importlib.import_module("vmon.checks.meta").META[args.prop]
    nshards = meta.get("shards", {}).get(args.tier, 8 if args.tier == "quick" else 24)
    jobs = [args.shard] if args.replay else list(range(nshards))
    replayed = {}
    if args.replay:
        with open(args.replay) as f:
            replayed = json.load(f)
    tmp = tempfile.mkdtemp(prefix="vmon-")
    running, results, problems = {}, {}, []
    limit = WORKER_LIMIT_S[args.tier]
    par = min(8, os.cpu_count() or 4)
    try:
        while jobs or running:
            while jobs and len(running) < par:
                i = jobs.pop(0)
                out = os.path.join(tmp, "%d.json" % i)
                optimise = replayed.get("optimise") if args.replay else args.tier == "thorough" and i % 8 == 7   # some processes run without assertions
                hs = replayed.get("hashseed") or (args.seed * 1009 + i * 7 + 1) % 4294967295
                cmd = [python_exe(), "-B"] + (["-O"] if optimise else []) + ["-m", "vmon.core", args.prop, "--worker", "--tier", args.tier, "--seed", str(args.seed),
                       "--shard", str(i), "--nshards", str(nshards), "--out", out]
                if args.replay:
                    cmd += ["--replay", args.replay]
                err = open(os.path.join(tmp, "%d.err" % i), "w+")
                running[i] = (subprocess.Popen(cmd, cwd=VERIF, env=child_env(hs), stdout=err, stderr=err), out, err)
            time.sleep(0.05)
            for i, (p, out, err) in list(running.items()):
                rc = p.poll()
                if rc is None and time.time() - t0 > limit:
                    p.terminate()
                    try:
                        rc = p.wait(20)
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.wait()
                        rc = "killed by the watchdog after %d s" % limit
                if rc is None:
                    continue
                del running[i]
                err.seek(0)
                text = err.read()[-3000:]
                err.close()
                if rc == 0 and os.path.exists(out):
                    with open(out) as f:
                        results[i] = json.load(f)
                    if results[i]["truncated"]:
                        problems.append("shard %d: stopped by the watchdog after %d s" % (i, limit))
                    if results[i]["violations"]:
                        jobs.clear()  # the verdict is settled
                else:
                    problems.append("shard %d: %s\n%s" % (i, rc, text))
    finally:
        for p, _, _ in running.values():
            p.kill()
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return report(args, meta, results, problems, time.time() - t0)


def report(args, meta, results, problems, wall):
    prop = args.prop
    events, digests, samples, known, kinds = {}, set(), [], {}, {}
    lines, evaluations, violations, seeds = set(), 0, [], []
    for i in sorted(results):
        r = results[i]
        for k, v in r["events"].items():
            events[k] = max(events.get(k, 0), v) if k.startswith("largest") else events.get(k, 0) + v
        digests.update(r["digests"])
        samples.extend(r["samples"][:2])
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        for k, v in r["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
        lines.update(tuple(x) for x in r["lines"])
        evaluations += r["evaluations"]
        violations.extend(r["violations"])
        seeds.append(r["hashseed"])
    missing = [] if args.replay else [e for e in meta["required"] if not events.get(e)]
    total = executable_lines(meta.get("files", []))
    cov = {f: "%d/%d" % (len([1 for g, n in lines if g == f and n in ls]), len(ls)) for f, ls in total.items()}
    evidence = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(digests), "rule": meta["rule"], "samples": samples[:12],
            "events_observed": dict(sorted(events.items())), "function_body_lines_executed": cov,
            "processes": len(results), "processes_without_assertions": sum(1 for i in results if results[i].get("optimise")), "hash_seeds": seeds[:32], "known_findings_seen": known,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    if not args.replay:
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    listed = known_ids(prop)
    for fid in sorted(known):
        print("KNOWN-FINDING: property=%s %s (%d times in this run)" % (prop, listed[fid], known[fid]))
    print("%s %s seed=%s: %d cases, %d distinct non-trivial, %d processes, %.1f s" % (prop, args.tier, args.seed, evaluations, len(digests), len(results), wall))
    print("events: " + ", ".join("%s=%d" % kv for kv in sorted(events.items())))
    if violations:
        seen, shown = set(), 0
        violations.sort(key=lambda v: len(json.dumps(v["case"])))
        for v in violations:
            if v["kind"] in seen or shown >= 5:
                continue
            seen.add(v["kind"])
            shown += 1
            path = args.replay or write_replay(prop, v)
            print("%s\n  case: %s" % (v["kind"] + ": " + v["message"], json.dumps(v["case"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("kinds: %s" % json.dumps(kinds))
        return 1
    if problems:
        print("ERROR: " + "\n".join(problems)[:6000])
        return 2
    if missing:
        print("INCONCLUSIVE: no event of %s was observed" % ", ".join(missing))
        return 2
    return 0


def write_replay(prop, v):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, digest((v["kind"], json.dumps(v["case"])))[:10]))
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    return path


if __name__ == "__main__":
    sys.exit(main())
