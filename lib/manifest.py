#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
from props import PROPS
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
doc = {
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "hooks": {"guard": "verif", "enable": "go build -tags verif (files.Hook is then called between the effects of the files database)", "source_commits": commits},
    "checks": [{
        "property": i, "quick_cmd": "./run.sh check %s" % i, "thorough_cmd": "./run.sh check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": PROPS[i]["technique"], "level": PROPS[i]["level"], "level_note": PROPS[i]["note"],
    } for i in ids if i in PROPS],
    "not_applicable": [{"property": i, "reason": "the technique applies; its monitor is not built yet"} for i in ids if i not in PROPS],
}
json.dump(doc, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
