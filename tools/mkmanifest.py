#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks that exist, and why the others do not."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
 "core": "property-based testing: generated inputs and command histories against an independent reference model or codec, with shrinking",
 "conc": "property-based testing: generated schedules of concurrent operations in virtual time (testing/synctest) and real time against a timed model, with shrinking",
 "sys": "property-based testing: generated client histories, faults and crash points against a real server process, judged by a reference model, with shrinking",
 "cli": "property-based testing: generated command lines and reply values through the real client and server, against an independent word splitter and renderer checks",
}
NOTE = {
 "core": "Sampled: no violation among the generated cases. Trusts the Go toolchain and the reference models and codec in harness/. Bounds on sizes and history lengths are in DESIGN.md.",
 "conc": "Sampled schedules: no violation among those generated. Trusts the Go runtime and testing/synctest and the models in harness/.",
 "sys": "Sampled histories and schedules of a real server process on loopback TCP: no violation among those generated. Trusts the kernel and the models in harness/; a reply later than a generous deadline counts as missing.",
 "cli": "Sampled lines, values and sessions: no violation among those generated. Trusts the kernel and the models in harness/.",
}
src = open(V + "/check.py").read()
pk = dict(re.findall(r'"(C\d\d)": T\(pkg="(\w+)"', src))
race = set(re.findall(r'"(C\d\d)": T\([^)]*race=True', src))
done = set()
for pkg in ("core", "conc", "sys", "cli"):
    d = V + "/harness/props/" + pkg
    for f in os.listdir(d):
        done |= set(re.findall(r"^func Test(C\d\d)\(", open(d + "/" + f).read(), re.M))
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in done:
        na.append({"property": i, "reason": "Its check is not built yet."})
        continue
    tech = TECH[pk[i]]
    if i == "C16": tech += "; linearizability checking of recorded histories (porcupine)"
    if i in race: tech += "; under the race detector"
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "technique": tech, "level": "exploration", "level_note": NOTE[pk[i]]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo. check.py builds the harness against /repo's working tree and runs it in shards; see DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
