"""Single source of properties.jsonl, MANIFEST.json, lib/checks/index.json and DESIGN.md.

Run: python3 tools/props.py   (in /verif)
"""
import glob
import json
import os
import re
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, text, why, files, mech, observe, decide, module, over=("inputs",), cost="about 10 s",
      note="", technique="runtime monitoring: online oracle over generated executions of the real code"):
    PROPS.append(dict(
        id=id, title=title, statement=" ".join(statement.split()), over=list(over), text=" ".join(text.split()),
        why=" ".join(why.split()), files=files.split(), mech=mech, observe=observe, decide=" ".join(decide.split()),
        module=module, cost=cost, technique=technique, note=" ".join(note.split())))


def main():
    for path in sorted(glob.glob(os.path.join(ROOT, "tools", "catalogue", "*.py"))):
        exec(compile(open(path).read(), path, "exec"), {"P": P, "NA": NOT_APPLICABLE.append})
    PROPS.sort(key=lambda p: p["id"])
    assert len({p["id"] for p in PROPS}) == len(PROPS)
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        n = len(re.findall(r"[.!?](?=\s|$)", p["statement"]))
        assert n <= 3, (p["id"], n)
        for f in p["files"]:
            assert os.path.exists(os.path.join("/repo", f)), f
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    with open(os.path.join(ROOT, "lib", "checks", "index.json"), "w") as f:
        json.dump({p["id"]: p["module"] for p in PROPS}, f, indent=0)
        f.write("\n")
    manifest = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [{
            "property": p["id"], "quick_cmd": "./check %s" % p["id"],
            "thorough_cmd": "./check %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": "exploration",
            "level_note": (p["note"] + " " if p["note"] else "") +
            "Holds on every generated execution observed, not beyond them; trusts the check's own reference "
            "calculation and, where the code needs iris, the stand-in for iris in lib/stubs.",
        } for p in PROPS],
        "not_applicable": NOT_APPLICABLE,
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    # ------------------------------------------------------------ DESIGN.md
    out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip(), ""]
    out += ["## Properties and how each is decided", ""]
    for p in PROPS:
        out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
                "*Quantified over* %s." % p["text"].rstrip("."), "",
                "*Monitor (`lib/checks/%s.py`).* %s Cost: %s quick." % (p["module"], p["decide"], p["cost"]), "",
                "*Beyond the tests.* %s" % p["why"], ""]
    out += ["## Findings", ""]
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    for f in known:
        if f["status"] == "fixed":
            out.append("- fixed: property=%s %s %s" % (f["property"], f["commit"], f["what"]))
    out.append("")
    rest = [f for f in known if f["status"] == "known"]
    out.append("Recorded, not repaired:" if rest else "No defect is recorded without a repair.")
    out.append("")
    for f in rest:
        out += ["- property=%s (%s) %s %s" % (f["property"], f["id"], f["what"], f.get("why", "")), ""]
    out += ["## Seeded bugs and what catches them", ""]
    for path in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(path))
        out.append("- `%s` (%s): %s Needs: %s %s" % (
            os.path.basename(os.path.dirname(path)), m["property"], m["what_it_breaks"], m["needs"],
            m.get("caught", "")))
    out.append("")
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))
    print(len(PROPS), "properties")


if __name__ == "__main__":
    main()
