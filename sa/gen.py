#!/usr/bin/env python3
"""derives properties.jsonl and MANIFEST.json from the registry (props.py, na.py)"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import na
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def anchors(files, mech, state, observe):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    return a


lines = []
checks = []
for pid in sorted(props.PROPS):
    p = props.PROPS[pid]
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
    lines.append({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                  "why_tests_cant": p["why"], "anchors": anchors(p["files"], p["mech"], p["state"], p["observe"])})
    cmd = "python3 sa/check.py --property %s --tier " % pid
    checks.append({"property": pid, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "evidence_file": "evidence/%s.json" % pid,
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
nas = []
for n in na.NA:
    lines.append({"id": n["id"], "title": n["title"], "statement": n["statement"], "quantifier": {"over": n["over"], "text": n["quant"]},
                  "why_tests_cant": n["why"], "anchors": anchors(n["files"], n["mech"], None, None)})
    nas.append({"property": n["id"], "reason": n["reason"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for l in lines:
        f.write(json.dumps(l) + "\n")
m = {"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": checks, "not_applicable": nas,
     "notes": "Static analysis only: every check compiles the current sources to LLVM IR (never run) and follows all paths of the flattened "
              "functions with a typestate client. level 'other': a sound-by-construction abstract interpretation up to the stated assumptions; "
              "coverage.explanation says what was analysed."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")


def section(pid, p):
    a = ["### %s %s" % (pid, p["title"]), "", p["statement"], "",
         "*Decided by:* %s. *Analysed:* %s" % (p["technique"].split("; ", 1)[-1], p["covers"]),
         "", "*Rule:* %s" % p["rule"], "",
         "*Obligations that must be present:* %s." % ", ".join(p["need"]) if p["need"] else "",
         "*Why tests cannot settle it:* %s." % p["why"].rstrip("."), "", "*Bounds:* %s" % p["note"]]
    if p["assumptions"]:
        a.append("*Assumes:* " + "; ".join(p["assumptions"]) + ".")
    return "\n".join(a) + "\n"


def doc(n):
    return open(os.path.join(V, "doc", n)).read()


d = [doc("head.md")]
d += [section(pid, props.PROPS[pid]) for pid in sorted(props.PROPS)]
d.append("## 4. Not applicable\n")
d += ["* **%s %s**: %s" % (n["id"], n["title"], n["reason"]) for n in na.NA]
d.append(doc("tail.md"))
d.append("| change | property | caught by | needs |\n|---|---|---|---|")
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    mp = os.path.join(V, "seeded", s, "meta.json")
    if os.path.exists(mp):
        mj = json.load(open(mp))
        d.append("| %s | %s | %s | %s |" % (s, mj["property"], mj.get("caught_by", mj["property"]), mj["needs"].replace("|", "/")))
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write("\n".join(d) + "\n")
