#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only query]   decide one property
   check.py --replay <property> <query> <values>                re-run a recorded counterexample natively"""
import concurrent.futures as cf
import json, os, re, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from queries import PROPERTIES

BUDGET = 600           # no query is started after this many seconds
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def scratch():
    base = os.path.join(engine.VERIF, "work")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix="q", dir=base)


def known_findings(pid):
    """recorded findings of this property: label -> line (lines 'finding: property=<id> label=<label> <what fails>')"""
    out = {}
    p = os.path.join(engine.VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            g = re.match(r"finding: (property=%s label=(\S+) .*)" % pid, line.strip())
            if g:
                out[g.group(2)] = g.group(1)
    return out


def do_replay(pid, qname, values):
    spec = PROPERTIES[pid]
    q = [q for q in spec["queries"] if q.name == qname][0]
    work = scratch()
    try:
        src = os.path.join(work, "src")
        engine.prepare_sources(src, q.scale)
        exe, log = engine.build_native(q, work, src, engine.source_list(src, q), os.path.join(engine.HARNESS, q.harness))
        if exe is None:
            print(log)
            return 2
        vals = [int(x) for x in open(values).read().split()]
        c = engine.replay(exe, work, q, vals, hang=q.hang_is_violation)
        print("replay of %s/%s: %s" % (pid, qname, c or "not reproduced"))
        return 1 if c else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return do_replay(*args[1:4])
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--only":
            only = args[i + 1]; i += 2
        else:
            i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPERTIES[pid]
    queries = [q for q in spec["queries"] if tier in q.tiers and (only is None or only in q.name)]
    seen = {}
    for q in queries:                      # at least two witnesses per harness are replayed against the compiled code
        seen[q.harness] = seen.get(q.harness, 0) + 1
        if seen[q.harness] <= 2:
            q.witness = True
    t0 = time.time()
    work = scratch()
    found = []
    engine.DEADLINE[0] = t0 + BUDGET + 120

    def run_one(q):
        """queries not started yet are left out once violations are established or the time of the check is used up"""
        if len(found) >= 3 or time.time() - t0 > BUDGET:
            return engine.not_run(q, "left out: " + ("violations established" if found else "time of the check used up"))
        r = engine.run_query(q, work, pid, tier)
        if r.status == "violation":
            found.append(r.name)
        return r

    try:
        with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
            futs = [ex.submit(run_one, q) for q in queries]
            results = [f.result() for f in futs]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    recorded = known_findings(pid)
    for r in results:
        new = [l for l in r.known if l not in recorded]
        if new and r.status != "violation":
            r.status, r.detail = "violation", "unrecorded finding " + new[0]
            r.replay = os.path.join(engine.HARNESS, "vh_replay.c")
    viol = [r for r in results if r.status == "violation"]
    bad = [r for r in results if r.status not in ("ok", "violation", "skipped")]
    samples = [s for r in results for s in r.samples][:6]
    cov = {
        "states": sum(r.steps for r in results),
        "transitions": sum(r.clauses for r in results),
        "rule": "states = SSA steps of the symbolic executions encoded from /repo/src this run; transitions = SAT clauses of "
                "their encodings; traces_validated_against_impl = reachability witnesses found by the solver and replayed "
                "natively on the same sources with the same outcome",
        "traces_validated_against_impl": sum(r.replays_ok for r in results),
        "samples": samples,
        "queries": [{"name": r.name, "status": r.status, "obligations": r.n_props, "discharged": r.n_ok,
                     "reach_points": r.n_reach, "vccs": r.vccs, "sat_variables": r.vars, "sat_clauses": r.clauses,
                     "solver_s": round(r.solver_s, 3), "wall_s": round(r.wall, 2), "bounds": q.bounds,
                     "functions_encoded": list(q.functions), "functions_without_body": r.no_body,
                     "detail": r.detail[:600]} for q, r in zip(queries, results)],
        "obligations_total": sum(r.n_props for r in results),
        "obligations_discharged": sum(r.n_ok for r in results),
        "solver_seconds": round(sum(r.solver_s for r in results), 3),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(engine.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(engine.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for q, r in zip(queries, results):
        print("%-28s %-11s obligations %d/%d reach %d  ssa %d  clauses %d  solver %.1fs wall %.1fs" %
              (r.name, r.status, r.n_ok, r.n_props, r.n_reach, r.steps, r.clauses, r.solver_s, r.wall))
        if r.detail:
            print("    " + r.detail.strip().replace("\n", "\n    ")[:2500])
        if r.no_body:
            print("    no body: " + ", ".join(r.no_body))
    for label in sorted(set(l for r in results for l in r.known)):
        if label in recorded:
            print("KNOWN-FINDING: " + recorded[label])
    if viol:
        for r in viol:
            print("VIOLATION property=%s replay=%s" % (pid, r.replay))
        return 1
    if bad:
        print("CHECK-ERROR property=%s: %s" % (pid, "; ".join("%s %s" % (r.name, r.status) for r in bad)))
        return 2
    print("OK property=%s (%d queries, %d obligations discharged, %.1f s)" %
          (pid, len(results), sum(r.n_ok for r in results), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
