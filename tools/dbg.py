#!/usr/bin/env python3
"""dbg.py PROP QUERY [timeout] [DEF=VAL ...]: run one query with changed definitions, for development"""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine, queries
pid, name, to = sys.argv[1], sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 30
for q in queries.PROPERTIES[pid]["queries"]:
    if q.name == name:
        break
else:
    sys.exit("no such query")
q.timeout = to
q.witness = False
for a in sys.argv[4:]:
    if a == "-k": continue
    k, v = a.split("=", 1)
    if k.startswith("scale."): q.scale[k[6:]] = v
    elif k == "unwind": q.unwind = int(v)
    elif k == "hunwind": q.hunwind = int(v)
    else: q.defs[k] = v
d = tempfile.mkdtemp(prefix="dbg")
r = engine.run_query(q, d, pid, "quick")
print(r.name, r.status, "obl %d/%d" % (r.n_ok, r.n_props), "ssa", r.steps, "cl", r.clauses, "wall %.1f" % r.wall, r.detail[:600])
print("\n".join(getattr(r, "raw_failures", [])[:10]))
if "-k" in sys.argv: print(d)
else: shutil.rmtree(d)
