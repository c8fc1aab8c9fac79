""" Regenerates properties.jsonl and MANIFEST.json from props.py. """
import json, os, re, sys
sys.path.insert(0, "/verif")
from props import P, NA

with open("/verif/properties.jsonl", "w", encoding="utf-8") as out:
    for p in P:
        files = sorted({f for _, w in p["mechanism"] for f in re.findall(r"[\w/*]+\.py", w)})
        line = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quantifier"]}, "why_tests_cant": p["why"],
                "anchors": {"files": ["dessia_common/" + f for f in files],
                            "mechanism": [{"name": n, "where": "dessia_common/" + w} for n, w in p["mechanism"]]}}
        out.write(json.dumps(line) + "\n")
    for i, title, statement, over, quant, why, files, _ in NA:
        out.write(json.dumps({"id": i, "title": title, "statement": statement,
                              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
                              "anchors": {"files": ["dessia_common/" + f for f in files], "mechanism": []}}) + "\n")
manifest = {"version": 1, "setup_cmd": "python3 -B -m compileall -q sa rules props.py check.py >/dev/null 2>&1; python3 --version",
            "checks": [], "not_applicable": [{"property": n[0], "reason": n[-1]} for n in NA],
            "notes": "Static analysis only: nothing of /repo is executed by a check. See DESIGN.md."}
for p in P:
    rules = f" and cross-function rules ({', '.join(p['rules'])})" if p["rules"] else ""
    if p["functions"]:
        tech = "abstract interpretation of the source to behaviour terms, compared with a reviewed specification model" + rules
    else:
        tech = "interprocedural effect analysis of the source"
    manifest["checks"].append({
        "property": p["id"], "quick_cmd": f"python3 -B check.py {p['id']}",
        "thorough_cmd": f"python3 -B check.py {p['id']} --thorough", "technique": tech, "level": "other",
        "level_note": "Decides from the source, for all inputs of the abstraction; what the analysis cannot settle is "
                      "listed as undecided in the evidence and neither claimed nor reported."})
with open("/verif/MANIFEST.json", "w", encoding="utf-8") as out:
    json.dump(manifest, out, indent=1)
    out.write("\n")
