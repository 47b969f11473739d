"""kf.py fixed PROP COMMIT WHAT | kf.py known PROP KEY WHAT"""
import json
import sys
p = "/verif/known_findings.json"
d = json.load(open(p))
if sys.argv[1] == "fixed":
    s = f"fixed: property={sys.argv[2]} {sys.argv[3]} {sys.argv[4]}"
    if s not in d["fixed"]:
        d["fixed"].append(s)
else:
    e = {"property": sys.argv[2], "key": sys.argv[3], "what": sys.argv[4]}
    if not any(x["property"] == e["property"] and x["key"] == e["key"] for x in d["findings"]):
        d["findings"].append(e)
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
