#!/usr/bin/env python3
"""developer tool: record the loops of every function under contract, as they
are in /repo now, into units/shapes.json (run it when invariants are rewritten)"""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from properties import PROPS  # noqa: E402
out = {}
for spec in sorted({u for p in PROPS.values() for u in p["units"]}):
    base, _, tags = spec.partition(":")
    d = tempfile.mkdtemp()
    subprocess.check_call([os.path.join(HERE, "build/vx/release/vx"), "/repo", os.path.join(HERE, "units", base + ".vspec") + ((":" + tags) if tags else ""), d + "/a.rs", d + "/a.json"], stdout=subprocess.DEVNULL)
    m = json.load(open(d + "/a.json"))
    out[spec] = {f["path"]: f["shape"] for f in m["functions"] if f["verify"] and f["shape"]}
    os.remove(d + "/a.rs"), os.remove(d + "/a.json"), os.rmdir(d)
json.dump(out, open(os.path.join(HERE, "units/shapes.json"), "w"), indent=1, sort_keys=True)
open(os.path.join(HERE, "units/shapes.json"), "a").write("\n")
