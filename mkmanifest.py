#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the table of what is not claimed
import json
NA = {}
TECH = "bounded symbolic execution of the Go SSA form of the real code; every assertion decided by an SMT solver (z3, cvc5 as second), counterexamples replayed natively"
NOTE = {
 "C21": " Schedules are not enumerated: the solver shows that no execution within the bounds writes memory shared between calls, from which independence of every schedule follows; counterexamples are replayed under the race detector.",
 "C24": " The parser generated by ragel from the committed grammar source is compared with the committed one on the same symbolic input.",
}
BASE = ("Within the bounds listed in the evidence (input lengths, surroundings, modes, loop steps: exceeding one is reported, not cut off) the solver's unsat covers every value; outside them nothing is claimed. "
        "Trusted: the engine's meaning of Go SSA and its models of a few library functions (each listed in the evidence; reach points of every harness are replayed natively as a check), and the solver.")
checks, na = [], []
for l in open('properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({"property": i, "quick_cmd": "./check.sh " + i,
                   "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                   "technique": TECH, "level": "model_checking", "level_note": BASE + NOTE.get(i, "")})
json.dump({"version": 1,
           "setup_cmd": "cd engine && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off go build -o /dev/null .",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. check.sh builds the engine (/verif/engine), generates a module with the harnesses (/verif/harness, /verif/harness_tools) and the current source of /repo in a scratch folder, and decides the property."},
          open('MANIFEST.json', 'w'), indent=1)
