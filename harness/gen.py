"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py."""
import json
import os
import props

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = [p for p in sorted(props.PROPS) if props.units(p, "quick")]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for pid in sorted(props.PROPS):
        p = props.PROPS[pid]
        f.write(json.dumps(dict(
            id=pid, title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mechanism"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="bin/setup",
         checks=[dict(property=p, quick_cmd=f"bin/check {p} --tier quick",
                      thorough_cmd=f"bin/check {p} --tier thorough",
                      technique=props.PROPS[p]["technique"], level=props.PROPS[p]["level"],
                      level_note=props.PROPS[p]["note"] + " " + " ".join(props.PROPS[p]["assumptions"]))
                 for p in claimed],
         not_applicable=[dict(property=p, reason="not built yet") for p in sorted(props.PROPS)
                         if p not in claimed])
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(claimed), "claimed", [x["property"] for x in m["not_applicable"]])
