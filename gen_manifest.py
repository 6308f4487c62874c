#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and the texts in manifest_text.py."""
import json
from props import PROPS
from manifest_text import TEXT, NOT_APPLICABLE
checks = []
for pid in sorted(PROPS):
    tech, note = TEXT[pid]
    checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid}",
                       thorough_cmd=f"python3 check.py {pid} --tier thorough",
                       technique=tech, level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="python3 check.py setup",
         hooks=dict(guard="none", enable="no hooks are needed: the harness uses the public API only", source_commits=[]),
         checks=checks, not_applicable=NOT_APPLICABLE,
         notes="TLA+ specification in spec/, conformance harness in harness/, driver check.py; see DESIGN.md")
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
