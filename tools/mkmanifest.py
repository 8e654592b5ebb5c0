"""Regenerates /verif/MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = {
    "C01": "runtime monitoring: truth-table oracle over observed evaluations and interpretation histories",
    "C02": "runtime monitoring: semantic oracle (all interpretations, finite traces) over every formula built",
    "C03": "runtime monitoring: reference recogniser as oracle over accepted and refused texts",
    "C04": "runtime monitoring: reference parser as oracle over parsed trees",
    "C05": "runtime monitoring: round-trip oracle over printed formulas",
    "C06": "runtime monitoring: structural-congruence oracle over observed ==, hash and container behaviour",
    "C07": "runtime monitoring: online model of the cache over histories of builds, looks and resets",
    "C08": "runtime monitoring: round-trip oracle over copies and pickles exchanged between interpreters",
    "C09": "runtime monitoring: sort oracle over observed constructions and refusals",
    "C10": "runtime monitoring: snapshot monitor of a live object pool after every operation, with tampering",
    "C11": "runtime monitoring: differential comparison of recorded answers under other histories and hash seeds",
    "C12": "runtime monitoring: controlled thread schedules (bytecode-level preemption) and stress, sequential-result oracle",
    "C13": "runtime monitoring: entailment oracle (truth tables) over accepted proofs",
    "C14": "runtime monitoring: entailment oracle (finite structures) over accepted proofs",
    "C15": "runtime monitoring: verdict monitor over derivations correct by construction",
    "C16": "runtime monitoring: scope oracle over verdicts of displaced proofs",
    "C17": "runtime monitoring: normal-form invariant over every formula observed",
    "C18": "runtime monitoring: reference symbol rule as oracle over accepted and refused names",
    "C19": "runtime monitoring: outcome monitor over unsupported calls",
    "C20": "runtime monitoring: trace-semantics oracle at every instant",
    "C21": "runtime monitoring: metamorphic monitor comparing verdicts on renamed, padded and truncated proofs",
    "C23": "runtime monitoring: online counter of executed steps against a polynomial bound",
    "C24": "runtime monitoring: fault injection at calls, returns and loops, state monitor and unfaulted results as oracle",
    "C25": "runtime monitoring: leak monitor (weak references, allocated blocks, cache size) over rounds of operations",
    "C26": "runtime monitoring: injectivity monitor over display forms of pools of confusable formulas",
    "C27": "runtime monitoring: record compared entry by entry with what was written",
    "C22": "runtime monitoring: read-back oracle over built first-order objects, and injectivity of observed display forms",
}
NOTE = {
    "C12": "Holds on every schedule and stress run explored, all in the real interpreter; preemption is exhaustive neither over places nor over pairs of operations. ",
    "C23": "Holds on the families explored; the bound is cubic with a margin of about ten over what the unchanged tree needs. ",
    "C24": "Holds at every point of interruption explored; these are the points where the interpreter looks for signals, not every instruction. ",
    "C14": "Holds on everything explored; unsoundness that shows only in structures outside the sample (e.g. infinite ones) is out of reach. ",
}


def main():
    from vmon.checks.meta import META
    checks = []
    for pid in sorted(TECH):
        checks.append({
            "property": pid,
            "quick_cmd": "./check %s --tier quick" % pid,
            "thorough_cmd": "./check %s --tier thorough" % pid,
            "technique": TECH[pid],
            "level": "exploration",
            "level_note": NOTE.get(pid, "Holds on everything explored; nothing is claimed beyond the executions counted in the evidence. ") + "Trusts: " + ("; ".join(META[pid]["assumptions"]) or "the oracle in vmon/") + ".",
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
                   "notes": "No hooks in /repo: the monitors observe public entry points and use the interpreter's own tracing. Pure Python, nothing to build."}, f, indent=1)
        f.write("\n")


main()
