#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
HPACK = "TLA+ (TLC): Hpack.tla model-checked on its own, then model-generated and randomized histories replayed in the real code and validated against the spec by TLC (HpackTrace)"
CONN = "TLA+ (TLC): connection state machine model-checked (ConnMC), its behaviours and randomized histories replayed in the real connection over a scripted transport, recorded traces validated against the spec by TLC (ConnTrace)"
WEB = "TLA+ (TLC): specification of routing/static files/log/statistics, generated cases replayed in the real code, recorded results validated by TLC"
SRV = "TLA+ (TLC): server event loop model-checked, its schedules replayed in the real server over a simulated kernel, recorded system-call traces validated by TLC"
IO = "TLA+ (TLC): state machine of the component, generated schedules replayed in the real code on real descriptors, recorded traces validated by TLC"
BUILT = {}
exec(open(V + "/tools/built.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in BUILT:
        tech, note = BUILT[i]
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile /repo's sources unmodified with harnesses of /verif."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
