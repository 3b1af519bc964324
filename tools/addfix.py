"""addfix.py PROP COMMIT text -- record a repaired defect."""
import json, subprocess, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
h = subprocess.check_output(["git", "-C", __import__("os").environ.get("WREPO","/repo"), "rev-parse", "--short", sys.argv[2]], text=True).strip()
d["findings"].append({"id": "F%02d" % (len(d["findings"]) + 1), "property": sys.argv[1], "status": "fixed", "commit": h,
                      "scenario": "", "label": "", "what": sys.argv[3]})
json.dump(d, open(p, "w"), indent=1)
