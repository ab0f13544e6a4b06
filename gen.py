#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE, TECH
R = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for k in sorted(PROPS):
        p = PROPS[k]
        f.write(json.dumps(dict(id=k, title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="python3 /verif/run.py --build",
         checks=[dict(property=k, quick_cmd="python3 /verif/run.py %s quick" % k, thorough_cmd="python3 /verif/run.py %s thorough" % k,
                      technique=TECH, level=PROPS[k].get("level", "model_checking"),
                      level_note="bounded: " + PROPS[k]["bounds"]) for k in sorted(PROPS)],
         not_applicable=NOT_APPLICABLE)
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
