"""Source of MANIFEST.json: python3 tools/manifest.py rewrites it."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here + "/..")
sys.dont_write_bytecode = True
import vf, checks
NA = {}
props = [json.loads(l) for l in open(here + "/../properties.jsonl")]
ck, na = [], []
for q in props:
    i = q["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        ck.append(dict(property=i, quick_cmd=f"python3 vf.py {i}", thorough_cmd=f"python3 vf.py {i} --thorough", evidence_file=f"evidence/{i}.json",
                       technique=c.get("technique", "explicit-state model checking: exhaustive enumeration of a bounded operand/lane/configuration space, every model transition replayed on the real code"),
                       level="model_checking", level_note=c["bounds"][0] + " Thorough: " + c["bounds"][1] + " Assumes: " + "; ".join(c["assumptions"])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=ck, not_applicable=na), open(here + "/../MANIFEST.json", "w"), indent=1)
