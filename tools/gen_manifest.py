#!/usr/bin/env python3
# Writes MANIFEST.json. CLAIMED lists the properties with a registered check.
import json, os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read())
checks = []
for c in CLAIMED:
    checks.append(dict(property=c["id"], quick_cmd="bash mc/check.sh " + c["id"],
        thorough_cmd="VERIF_TIER=thorough bash mc/check.sh " + c["id"],
        evidence_file="evidence/%s.json" % c["id"], technique=c["technique"], level=c.get("level", "model_checking"),
        level_note=c["note"]))
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
have = {c["id"] for c in CLAIMED}
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in have]
m = dict(version=1, setup_cmd="bash mc/build.sh rel && bash mc/build.sh race", checks=checks, not_applicable=na,
         notes="All checks explore the real implementation, compiled from /repo with its file-system calls and pthread primitives interposed at link time (mc/). No hooks in /repo are needed.")
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not claimed")
