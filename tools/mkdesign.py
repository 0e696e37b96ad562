#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one section per property + planted bugs + fixes + notes."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
lv = json.load(open(H + "/levels.json"))
na = json.load(open(H + "/not_applicable.json"))
kf = json.load(open(H + "/known_findings.json"))
sec = {}
cur = None
for l in open(H + "/tools/design_props.md"):
    if l.startswith("## C"):
        cur = l[3:6]
        sec[cur] = ""
    elif cur:
        sec[cur] += l
out = [open(H + "/tools/design_head.md").read()]
out.append("## 5. The properties\n")
out.append("Oracle everywhere: the contract's specification side, written from the documented formula/behaviour, never from a call of the code under test.\nUnless said otherwise a proof has no bound: all sizes, options, inputs, draws. `ded_s`/`rac_s` are the time budgets (seconds) of the two parts of the quick check.\n")
for p in props:
    i = p["id"]
    if i not in lv:
        continue
    L = lv[i]
    out.append(f"### {i} {p['title']} — {'proved (contracts) + executable contracts' if L['level']=='proof' else 'bounded stand-in: ' + L['level'] if not L.get('note','').startswith('partly') else 'partly proved, rest bounded'} (ded_s {L['ded_s']}, rac_s {L['rac_s']})\n")
    out.append(sec.get(i, "").strip() + "\n")
    if L.get("note"):
        out.append("Level note: " + L["note"] + "\n")
out.append("## 6. Planted bugs (`seeded/`) and what catches them\n\nEvery one was written from the property's text, passes the stable tests, and has a demo; `tools/seedcheck.sh` runs the property's check on a scratch copy with the patch.\n\n| planted bug | property | needs | caught by |\n|---|---|---|---|")
cb = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    out.append(f"| {n} | {m['property']} | {m['needs']} | {cb.get(n, 'check ' + m['property'] + ' (failing input replayed on the real code)')} |")
out.append("\n## 7. Not applicable\n")
for i, r in na.items():
    if i not in lv:
        out.append(f"* {i}: {r}.")
out.append("\n## 8. Defects of SALib found and repaired\n\nEach is one `fix:` commit in /repo (also in `known_findings.json`); the checks pass on the repaired tree and report it again if it returns.\n")
for f in kf["fixed"]:
    out.append("* " + f.replace("fixed: property=", ""))
for f in kf["findings"]:
    out.append("* KNOWN FINDING (not repaired): " + str(f))
out.append(open(H + "/tools/design_tail.md").read())
open(H + "/DESIGN.md", "w").write("\n".join(out))
