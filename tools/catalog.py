#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, state, mech, observe, hook, technique, note):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                               observe_at=observe, hook_needed=hook),
                  _t=technique, _n=note))


exec(open(os.path.join(V, "tools", "catalog_props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
commits = [l.split()[0] for l in hooks.splitlines() if " verif: " in l]
man = {
    "version": 1,
    "setup_cmd": "bash run/setup.sh",
    "hooks": {"guard": "cfg(tonbo_verif)",
              "enable": "tonbo-full/build.rs emits cargo:rustc-cfg=tonbo_verif; run/lib.py builds harness/ against it",
              "source_commits": commits},
    "checks": [dict(property=p["id"], quick_cmd="python3 run/check.py %s quick" % p["id"],
                    thorough_cmd="python3 run/check.py %s thorough" % p["id"],
                    technique=p["_t"], level="model_checking", level_note=p["_n"]) for p in P],
    "not_applicable": NOT_APPLICABLE,
    "notes": "TLA+ specifications in spec/, harness in harness/, known findings in known-findings.json.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties")
