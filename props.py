#!/usr/bin/env python3
"""The properties, and what decides each: writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
PROPS, NA = [], []
GUARD = "VERIF_HOOKS"
def prop(pid, title, statement, over, quant, why, files, mech, observe, technique, note, state=(), level="exploration", hook=False, thorough=True):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe,
                      technique=technique, note=note, state=state, level=level, hook=hook, thorough=thorough))
exec(open(f"{V}/proptable.py").read())

def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                             "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]], "observe_at": p["observe"], "hook_needed": p["hook"] or None}}
            if not d["anchors"]["state"]:
                del d["anchors"]["state"]
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 setup.py",
         "hooks": {"guard": GUARD, "enable": "no hooks are needed: the checks compile /repo/CEX as it is, natively, against native/shim", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"} for p in PROPS],
         "not_applicable": [{"property": a, "reason": b} for a, b in NA],
         "notes": "See DESIGN.md. properties.jsonl and this file are written by props.py from proptable.py."}
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
main()
