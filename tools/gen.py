"""Writes properties.jsonl and MANIFEST.json from the META of the property modules and the not-applicable list."""
import os, sys, json, importlib, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "engine"))
import na

TESTS = ("The repository's stable tests do not compile or run this program at all; its integration tests sample a handful of scenarios.")
props, checks = [], []
for f in sorted(glob.glob(os.path.join(here, "engine", "props", "[a-z][0-9][0-9]*.py"))):
    pid = os.path.basename(f)[:-3].upper()
    m = importlib.import_module("props." + pid.lower())
    M = m.META
    over, text = M["q"]
    props.append({"id": pid, "title": M["title"], "statement": M["statement"], "quantifier": {"over": over, "text": text},
                  "why_tests_cant": M.get("why", "It quantifies over " + text[0].lower() + text[1:] + " " + TESTS),
                  "anchors": {"files": M["files"], "mechanism": [{"name": n, "where": w} for n, w in M["mechanism"]],
                              "observe_at": M.get("observe", []), "hook_needed": None}})
    checks.append({"property": pid, "quick_cmd": "python3 engine/check.py %s quick" % pid, "thorough_cmd": "python3 engine/check.py %s thorough" % pid,
                   "technique": M["technique"], "level": m.LEVEL,
                   "level_note": M.get("note", "Decided on rustc's MIR of the current tree; every obligation listed in the evidence must be discharged, lost anchors "
                                       "fail the check. Trusts the library models and the stub signatures of the git-only dependencies.")})
for p in na.PROPS:
    over, text = p["q"]
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": over, "text": text},
                  "why_tests_cant": p.get("why", "It quantifies over " + text[0].lower() + text[1:] + " " + TESTS),
                  "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "hook_needed": None}})
for p in props:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(here, "properties.jsonl"), "w") as o:
    for p in props:
        o.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "none", "enable": "no hooks: the checks analyse /repo's source as it is"},
           "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in na.PROPS]},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

# the per-property part of DESIGN.md
out = []
mods = {c["property"]: importlib.import_module("props." + c["property"].lower()) for c in checks}
seeds = {}
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
for pid, m in mods.items():
    out += ["### %s  %s (%s)" % (pid, m.META["title"], m.LEVEL), "", "* Technique: %s." % m.META["technique"], "* Rule: " + " ".join(m.RULE.split())]
    out += ["* Quantifier: %s" % m.META["q"][1]]
    if hasattr(m, "NOTES"):
        out += ["* Limits: " + " ".join(m.NOTES.split())]
    for i, s in seeds.get(pid, ()):
        out += ["* Planted `%s` (%s) - caught by %s." % (i, s["what_it_breaks"].rstrip("."), pid)]
    out += [""]
out += ["### Not applicable", ""] + ["* %s %s: %s" % (p["id"], p["title"], p["reason"]) for p in na.PROPS] + [""]
d = os.path.join(here, "DESIGN.md")
s = open(d).read()
B, E = "<!-- generated by tools/gen.py -->", "<!-- end -->"
if B in s:
    open(d, "w").write(s[:s.index(B) + len(B)] + "\n" + "\n".join(out) + s[s.index(E):])
print(len(checks), "checks,", len(na.PROPS), "not applicable")
