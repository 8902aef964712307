#!/usr/bin/env python3
"""seed.py ID PROPERTY file 'old' 'new' needs what  -- record a planted bug: apply a replacement to /repo, save the diff, undo."""
import json, os, subprocess, sys
sid, prop, f, old, new, needs, what = sys.argv[1:8]
p = "/repo/" + f
s = open(p).read()
assert s.count(old) == 1, "occurrences: %d" % s.count(old)
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", sid)
os.makedirs(d, exist_ok=True)
open(p, "w").write(s.replace(old, new))
try:
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
