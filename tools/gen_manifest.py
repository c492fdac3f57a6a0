#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tech = {
 "C01": "property-based testing of sequences of bumps, saves and restores; every answer compared bit for bit with the one before",
 "C02": "property-based testing of histories of bumps, restores and date moves: differential between prefetched and direct market data",
 "C03": "property-based testing: differential against a market rebuilt with the bumped input, and an independent valuation",
 "C04": "property-based testing: reports against central differences of prices on independently rebuilt markets; market and price compared bit for bit afterwards",
 "C05": "property-based testing: differential against a fresh pricer on the moved date with the interim fixings",
 "C06": "property-based testing: simulated paths against an independent diffusion of the same draws; exact averages; wide statistical bounds",
 "C07": "property-based testing of round trips through text, with behaviour compared before and after",
 "C08": "property-based testing of object graphs under each sharing policy against a model of what is shared",
 "C09": "fuzzing of text and structured mutation of valid documents; any panic, abort or partial object is a violation",
 "C10": "property-based testing of sequences of C calls against the native interface, with a model of handle ownership",
 "C28": "property-based testing of pairs of report trees against a model of the comparison",
 "C29": "property-based testing with recording, truncated and poisoned markets; every undeclared input must be irrelevant",
 "C30": "property-based testing of schedules: the same work on many threads compared bit for bit with one thread",
 "C11": "property-based testing against the Black formula with an independently built forward, variance and discount factor, and no-arbitrage relations",
 "C12": "property-based testing: differential against the weighted sum of the components priced, fixed and asked for dependencies one by one",
 "C13": "property-based testing against an independent model of the fixed outcome; metamorphic relations between fixing at once and in steps",
 "C22": "property-based testing with constructed targets; generated ambiguous or unbracketed inputs must be rejected",
 "C14": "property-based testing of sequences of insertions against a model map; four ways of building compared",
 "C15": "property-based testing against an independent cash-and-carry model",
 "C16": "property-based testing against an independent curve; chains and inverses of discount factors",
 "C17": "property-based testing against independent linear and spline formulas; generated unusable points must be rejected",
 "C18": "property-based testing against an independent model of surfaces in normalised strike; batch/single and whole/part relations",
 "C19": "property-based testing against an independent natural spline; generated unusable quotes must be rejected",
 "C20": "property-based testing of stacks of decorators against their composition in an independent model",
 "C21": "property-based testing against an independent Black formula; parity, bounds and monotonicity",
 "C23": "property-based testing with constructed roots and recorded evaluations; generated unbracketed inputs must be rejected",
 "C24": "property-based testing against an independent Gregorian calendar; generated invalid text must be rejected",
 "C25": "property-based testing against day-by-day counting and one-at-a-time stepping",
 "C26": "property-based testing against the conventions applied day by day",
 "C27": "property-based testing against day-by-day weighted time; optimality of steps by enumeration",
}
note = "Bounded random search with shrinking; what is generated, the oracle, the bounds and the number of cases are in DESIGN.md and in the evidence file."
checks = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not os.path.exists(os.path.join(here, "harness/src/bin/%s.rs" % p.lower())):
        continue
    checks.append({
        "property": p,
        "quick_cmd": "./check.sh %s" % p,
        "thorough_cmd": "./check.sh %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": tech.get(p, "property-based testing"),
        "level": "exploration",
        "level_note": note,
    })
hooks = []
try:
    out = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
    hooks = [l.split()[0] for l in out.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
except Exception:
    pass
manifest = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "hooks": {"guard": "cfg(quantmath_verif)", "enable": "RUSTFLAGS=--cfg quantmath_verif (set by check.sh)", "source_commits": hooks},
    "checks": checks,
    "not_applicable": [],
    "notes": "Run a check by hand: VERIF_SEED=1 VERIF_TIER=quick ./check.sh C24. Replay a failure: ./check.sh C24 --replay FILE. Known findings: known-findings.txt. Recorded cases: corpus/.",
}
json.dump(manifest, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
