#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table below."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

SEQ = "bounded-exhaustive exploration of operation sequences on the real code against an executable reference model (explicit-state model checking)"
PROD = "exhaustive enumeration of a bounded input space on the real code against an independent reference (explicit-state)"
T = {
 # id: (technique, level, level_note)
 "C01": (SEQ, "model_checking", "Holds for every sequence of the alphabet (13 registrations, failures, reopenings) up to the stated depth; trusts the list model and the stand-in for the bcrypt kernel."),
 "C02": (SEQ, "model_checking", "Every operation x identity pair x reference at depth 1, confusable ones at depth 2, observing all data of three users."),
 "C03": (SEQ, "model_checking", "Every sequence of changes up to the depth with a menu of text variations, and the full product of set and tried texts; the bcrypt kernel is replaced by a hash of exactly its inputs, checked against the real one on a fixed set of traces."),
 "C04": (SEQ, "model_checking", "Every sequence up to the depth; every returned key text and 13 alterations of it looked up in every state."),
 "C05": (SEQ, "model_checking", "Every sequence up to the depth over three RSA and two OpenPGP keys in all encodings."),
 "C06": (SEQ, "model_checking", "Every sequence up to the depth over app tokens and security keys of two users."),
}
exec(open(os.path.join(here, "tools", "manifest_table.py")).read()) if os.path.exists(os.path.join(here, "tools", "manifest_table.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        tech, level, note = T[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "The check is not built yet."})
m = {"version": 1, "setup_cmd": "tools/build.sh plain && tools/build.sh race",
     "hooks": {"guard": "go build -overlay (no hooks in /repo)",
               "enable": "tools/build.sh compiles /repo's working tree against hooked copies of standard-library files (overlay/gen.py); /repo itself has no instrumentation."},
     "checks": checks, "not_applicable": na}
m["hooks"]["source_commits"] = []
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
