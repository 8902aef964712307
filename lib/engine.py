"""Solver engine: regenerates an encoding from the current /repo/src, asks CBMC for a verdict, replays every
counterexample natively against the same sources, and reports measured counts.

A Query is one CBMC run.  Its harness (harness/<file>.c) drives functions of the real sources; symbolic inputs
come from nd_*(), obligations are PROP(...) plus the memory-safety conditions of every dereference executed, the
code's own assert()s, and unwinding assertions; REACH(...) marks points which must be reachable (vacuity guard:
the solver must find an execution reaching every one of them)."""
import concurrent.futures as cf
import json, os, re, shlex, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARNESS = os.path.join(VERIF, "harness")
MEM_KB = int(os.environ.get("VERIF_MEM_KB", str(12 * 1024 * 1024)))   # address-space limit per solver process

# system calls / libc calls replaced by the harness environment, by renaming at preprocessing time
ENV_RENAMES = {
    "net": ["sendto", "recvfrom", "send", "recv", "socket", "setsockopt", "getsockopt", "connect", "accept", "bind", "listen"],
    "fd": ["read", "write", "pread", "pwrite", "close", "lseek", "fsync", "fdatasync", "fcntl", "ftruncate"],
    "epoll": ["epoll_ctl", "epoll_wait", "epoll_create1"],
    "timer": ["timerfd_gettime", "timerfd_settime", "timerfd_create", "clock_gettime", "clock_nanosleep", "nanosleep", "usleep", "time"],
    "proc": ["prctl", "syscall", "pthread_self", "pthread_create", "pthread_join", "pthread_setaffinity_np"],
    "exit": ["exit", "abort"],
    "rand": ["drand48_r", "srand48_r"],
    "math": ["log", "exp", "sqrt", "lrint", "fabs"],
    "str": ["sscanf", "strtol", "atoi", "atol", "gethostbyname", "inet_ntoa"],
    "stdio": ["perror", "printf", "fopen", "fgets", "fclose", "feof"],
}


# capacity macros of the sources: scaled values are bounds of every check (a query may override them)
DEFAULT_SCALE = {"BUF_SIZE": 96, "MAX_CONNS": 2, "MAX_REQS": 4, "MAX_THREADS": 2, "MAX_EVENTS": 1, "MAX_PKTS": 8, "MAX_RATES": 8}


class Query:
    def __init__(self, name, harness, env=(), scale=None, defs=None, unwind=8, unwindset=None, include_main=None,
                 sources=None, checks=("bounds", "pointer"), timeout=240, tiers=("quick", "thorough"), bounds="",
                 functions=(), hang_is_violation=True, flags=(), solver=None, object_bits=None, hang_s=10,
                 raw_renames=(), memops=False, leak=False, replay_cflags=(), hunwind=None, witness=True, optional=False, exclude=()):
        self.name, self.harness, self.env = name, harness, tuple(env)
        self.scale, self.defs = dict(DEFAULT_SCALE, **(scale or {})), dict(defs or {})
        self.witness, self.exclude = witness, tuple(exclude)   # exclude: files whose functions are all replaced by models
        self.optional = optional   # depends on a data representation; set aside (and said so) when the code uses another one
        self.unwind, self.unwindset = unwind, dict(unwindset or {})
        self.include_main, self.sources = include_main, sources
        self.checks, self.timeout, self.tiers = checks, timeout, tiers
        self.bounds, self.functions = bounds, tuple(functions)
        self.hang_is_violation, self.flags, self.solver = hang_is_violation, tuple(flags), solver
        self.object_bits, self.hang_s, self.raw_renames = object_bits, hang_s, tuple(raw_renames)
        self.memops, self.leak, self.replay_cflags = memops, leak, tuple(replay_cflags)
        self.hunwind = hunwind or unwind


def sh(cmd, timeout=None, env=None, cwd=None):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace"), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out.decode("utf8", "replace"), err.decode("utf8", "replace"), time.time() - t


def prepare_sources(dst, scale):
    """Copy the current /repo/src and scale the values of the named capacity macros (bounds of the check)."""
    os.makedirs(dst)
    for f in sorted(os.listdir(SRC)):
        p = os.path.join(SRC, f)
        if not os.path.isfile(p) or not f.endswith((".c", ".h")):
            continue
        text = open(p, encoding="utf8", errors="replace").read()
        for name, val in scale.items():
            text = re.sub(r"^([ \t]*#[ \t]*define[ \t]+%s[ \t]+)(?![ \t]*$).*$" % re.escape(name),
                          lambda m: m.group(1) + "(" + str(val) + ")", text, flags=re.M)
        with open(os.path.join(dst, f), "w", encoding="utf8") as o:
            o.write(text)


def source_list(src, q):
    if q.sources is not None:
        return [os.path.join(src, s) for s in q.sources if os.path.exists(os.path.join(src, s))]
    out = []
    for f in sorted(os.listdir(src)):
        if f.endswith(".c") and not f.startswith("test_") and f not in ("dw_node.c", "dw_client.c") + q.exclude:
            out.append(os.path.join(src, f))
    return out


def cpp_flags(src, q, native):
    fl = (["-I", os.path.join(HARNESS, "shim_math")] if "math" in q.env else []) + ([] if native else ["-I", os.path.join(HARNESS, "shim")]) + ["-I", src, "-I", HARNESS, "-D_GNU_SOURCE", "-Dmain=dw_main", "-w"]
    for g in q.env:
        fl += ["-D%s=vs_%s" % (n, n) for n in ENV_RENAMES[g]]
    fl += ["-D%s=vs_%s" % (n, n) for n in q.raw_renames]
    if q.memops:
        fl += ["-Dmemcpy=vs_memcpy", "-Dmemmove=vs_memmove", "-Dmemset=vs_memset"]
    for k, v in q.defs.items():
        fl.append("-D%s" % k if v is None else "-D%s=%s" % (k, v))
    for k, v in q.scale.items():
        fl.append("-DVH_%s=(%s)" % (k, v))
    if native:
        fl.append("-DREPLAY")
    return fl


CHECK_FLAGS = {"bounds": "--bounds-check", "pointer": "--pointer-check", "div": "--div-by-zero-check",
               "overflow": "--signed-overflow-check", "conv": "--conversion-check", "shift": "--undefined-shift-check",
               "float": "--float-overflow-check", "nan": "--nan-check"}


def parse_json_ui(text):
    try:
        return json.loads(text)
    except Exception:
        # truncated output (timeout): keep what parses
        return None


class QueryResult:
    pass


def run_query(q, work, prop_id, tier):
    """one verdict; a bound which turns out too small (unwinding assertion) is raised and the query asked again"""
    r = None
    for factor in (1, 2, 4):
        r = run_query_once(q, os.path.join(work, q.name + ("" if factor == 1 else "_x%d" % factor)), prop_id, factor)
        if r.status != "unwind":
            break
    if q.optional and (r.status == "vacuous" or r.status == "error" and r.detail.startswith("goto-cc failed")):
        r.status, r.detail = "skipped", "not applicable to the current representation: " + r.detail[-300:]
    return r


DEADLINE = [None]           # end of the time given to the whole check


def left(q):
    return q.timeout if DEADLINE[0] is None else max(5, min(q.timeout, DEADLINE[0] - time.time()))


def not_run(q, why):
    r = QueryResult()
    r.name, r.status, r.detail, r.failures, r.reach_missing = q.name, "error", "", [], []
    r.solver_s = 0.0
    r.steps = r.vccs = r.vars = r.clauses = 0
    r.n_props = r.n_ok = r.n_reach = 0
    r.known = []
    r.no_body, r.witnesses, r.replays_ok, r.samples = [], 0, 0, []
    r.wall = 0.0
    r.detail = why
    return r


def run_query_once(q, d, prop_id, factor):
    r = not_run(q, "")
    t0 = time.time()
    os.makedirs(d)
    src = os.path.join(d, "src")
    prepare_sources(src, q.scale)
    gb = os.path.join(d, "q.gb")
    srcs = source_list(src, q)
    harness = os.path.join(HARNESS, q.harness)
    rc, out, err, _ = sh(["goto-cc"] + cpp_flags(src, q, False) + [harness] + srcs + ["-o", gb], timeout=180)
    if rc != 0 or not os.path.exists(gb):
        r.detail = "goto-cc failed:\n" + (out + err)[-3000:]
        return r
    cmd = ["cbmc", gb, "--function", "vh_main", "--no-standard-checks", "--no-malloc-may-fail",
           "--unwinding-assertions", "--drop-unused-functions", "--verbosity", "8", "--unwind", str(q.unwind * factor), "--object-bits", str(q.object_bits or 9)]
    for c in q.checks:
        cmd.append(CHECK_FLAGS[c])
    us = loop_bounds(gb, q, factor)
    if us:
        cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in us.items())]
    cmd += list(q.flags)
    if q.solver:
        cmd += list(q.solver)
    t1 = time.time()
    results, why = cbmc_verdicts(cmd, left(q), r, os.path.join(d, "cbmc.log"))
    r.wall = time.time() - t1
    r.cmd = " ".join(cmd)
    if results is None:
        r.status, r.detail = why
        return r
    unwinding, reach = [], []
    for p in results:
        desc, st, name = p.get("description", ""), p.get("status"), p.get("property", "")
        if desc.startswith("REACH "):
            r.n_reach += 1
            if st == "FAILURE":
                reach.append(p)
            else:
                r.reach_missing.append(desc[6:])
            continue
        r.n_props += 1
        if st == "SUCCESS":
            r.n_ok += 1
        elif st == "FAILURE":
            if ".no-body." in name:
                r.no_body.append(name.split(".no-body.")[1])
            elif "unwinding assertion" in desc or ".unwind." in name or ".recursion" in name:
                unwinding.append(p)
            else:
                r.failures.append(p)
    if r.no_body:
        r.status, r.detail = "error", "functions called without a model: " + ", ".join(sorted(set(r.no_body)))
        return r
    known = [p for p in r.failures if p.get("description", "").startswith("KNOWN[")]
    r.failures = [p for p in r.failures if p not in known]
    r.raw_failures = [describe(p) for p in r.failures]
    r.unwinding = [describe(p) for p in unwinding]

    def traced(props):
        """second run, asking only for these properties, with counterexample traces"""
        c = list(cmd)
        for p in props:
            c += ["--property", p["property"]]
        by = {p["property"]: p for p in props}
        out = []
        for t in cbmc_traces(c, left(q), os.path.join(d, "trace.log")):
            if t["property"] in by:
                p = dict(by[t["property"]])
                p["values"], p["steps"] = t["values"], t["steps"]
                out.append(p)
        return out

    native = None
    confirmed = []
    # recorded findings: confirmed natively as well, reported separately from violations
    for p in (traced(known) if known else []):
        if native is None:
            native, log = build_native(q, d, src, srcs, harness)
            if native is None:
                r.detail = "native replay build failed:\n" + log
                return r
        label = p["description"][6:].split("]")[0]
        rc, out, err, _ = run_native(native, d, q, trace_values(p), q.hang_s, 0)
        if "REPLAY-KNOWN " + label in err:
            r.known.append(label)
        else:
            r.failures.append(p)
    # replay counterexamples against the real code
    cands = sorted(r.failures, key=lambda p: 0 if p.get("description", "").startswith("PROP") else 1)
    cands = traced(cands[:6]) if cands else []
    cands.sort(key=lambda p: 0 if p.get("description", "").startswith("PROP") else 1)
    for p in cands:
        if native is None:
            native, log = build_native(q, d, src, srcs, harness)
            if native is None:
                r.detail = "native replay build failed:\n" + log
                r.status = "error"
                return r
        vals = trace_values(p)
        c = replay(native, d, q, vals)
        if c:
            confirmed.append((p, vals, c))
            break
    if not confirmed and unwinding and q.hang_is_violation:
        if native is None:
            native, log = build_native(q, d, src, srcs, harness)
        for p in traced(unwinding[:3]):
            if native is None:
                break
            vals = trace_values(p)
            c = replay(native, d, q, vals, hang=True)
            if c:
                confirmed.append((p, vals, c))
                break
    if confirmed:
        r.status = "violation"
        p, vals, c = confirmed[0]
        r.replay = save_replay(prop_id, q, d, p, vals, c)
        r.detail = "%s [replayed natively: %s]" % (describe(p), c)
        return r
    if r.failures:
        r.status = "unconfirmed"
        r.detail = "solver counterexample not reproduced natively: " + "; ".join(r.raw_failures[:4])
        return r
    if unwinding:
        r.status, r.detail = "unwind", "unwinding bound too small: " + "; ".join(r.unwinding[:4])
        return r
    if r.reach_missing:
        r.status, r.detail = "vacuous", "unreachable witness points: " + ", ".join(r.reach_missing)
        return r
    # validate the encoding: replay a reachability witness natively
    r.witnesses = len(reach)
    for p in (traced(reach[-1:]) if reach and q.witness else []):
        exe, log = build_native(q, d, src, srcs, harness, sanitize=False)
        if exe is None:
            r.detail = "native witness build failed:\n" + log
            break
        vals = trace_values(p)
        ok, msg = witness(exe, d, q, vals)
        r.replays_ok += 1 if ok else 0
        if not ok:
            r.detail += "witness '%s' did not replay: %s\n" % (p["description"], msg)
        r.samples.append({"query": q.name, "witness": p["description"][6:], "drawn_values": vals[:40],
                          "replayed_natively": ok})
    r.status = "ok"
    return r


def loop_bounds(gb, q, factor=1):
    """Per-loop bounds: loops of the harness itself get q.hunwind; loops of library/repository functions named in
    q.unwindset (function name -> bound) get theirs if such a function exists; everything else gets q.unwind."""
    us = {}
    rc, out, err, _ = sh(["cbmc", gb, "--show-loops", "--json-ui"], timeout=60)
    for item in parse_json_ui(out) or []:
        for l in item.get("loops", []) if isinstance(item, dict) else []:
            loc = l.get("sourceLocation", {})
            f, fn = loc.get("file", ""), loc.get("function", "")
            if fn in q.unwindset:
                us[l["name"]] = q.unwindset[fn] * factor
            elif os.path.abspath(f).startswith(HARNESS):
                us[l["name"]] = q.hunwind * factor
    return us


RESULT = re.compile(r"^\[(.*?)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def cbmc_verdicts(cmd, timeout, r, logfile):
    """verdict run (plain text output, streamed through a filter: the unwinding log can be huge)"""
    t = time.time()
    shell = "ulimit -v %d; exec 2>&1; " % (MEM_KB) + " ".join(shlex.quote(c) for c in cmd) + \
            " | grep -a -v -E '^(Not unwinding|Unwinding) ' > " + shlex.quote(logfile) + "; exit ${PIPESTATUS[0]}"
    rc, _, _, wall = sh(["bash", "-c", shell], timeout=timeout)
    if rc is None:
        return None, ("timeout", "solver budget of %d s exhausted" % timeout)
    results, func, ffile, complete = [], "", "", False
    with open(logfile, errors="replace") as f:
        for line in f:
            line = line.rstrip("\n")
            g = RESULT.match(line)
            if g:
                results.append({"property": g.group(1), "description": g.group(3), "status": g.group(4),
                                "sourceLocation": {"line": g.group(2) or "?", "function": func, "file": ffile}})
                continue
            g = re.match(r"^(\S+) function (\S+)$", line)
            if g:
                ffile, func = g.groups()
                continue
            if line.startswith("VERIFICATION "):
                complete = True
            g = re.search(r"Runtime Solver: ([0-9.eE+-]+)s", line)
            if g:
                r.solver_s += float(g.group(1))
            g = re.search(r"size of program expression: (\d+) steps", line)
            if g:
                r.steps += int(g.group(1))
            g = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", line)
            if g:
                r.vccs += int(g.group(1))
            g = re.search(r"(\d+) variables, (\d+) clauses", line)
            if g:
                r.vars, r.clauses = max(r.vars, int(g.group(1))), max(r.clauses, int(g.group(2)))
    if not complete:
        tail = open(logfile, errors="replace").read()[-1500:]
        return None, ("error", "no verdict from cbmc (exit %s): %s" % (rc, tail))
    return results, None


def cbmc_traces(cmd, timeout, logfile):
    """traced run, only ever asked for a few properties: list of (property name, steps)"""
    i = cmd.index("--verbosity")
    c = cmd[:i] + cmd[i + 2:] + ["--verbosity", "4", "--trace"]
    shell = "ulimit -v %d; exec 2>&1; " % (MEM_KB) + " ".join(shlex.quote(x) for x in c) + " > " + shlex.quote(logfile)
    rc, _, _, wall = sh(["bash", "-c", shell], timeout=timeout)
    out, cur, loc = [], None, ""
    if rc is None or not os.path.exists(logfile):
        return out
    with open(logfile, errors="replace") as f:
        for line in f:
            line = line.rstrip("\n")
            g = re.match(r"^Trace for (\S+):$", line)
            if g:
                cur = {"property": g.group(1), "values": [], "steps": []}
                out.append(cur)
                continue
            if cur is None:
                continue
            g = re.match(r"^State \d+ file (\S+) function (\S+) line (\d+)", line)
            if g:
                loc = "%s:%s %s" % (os.path.basename(g.group(1)), g.group(3), g.group(2))
                continue
            if line.startswith("State "):
                loc = ""
                continue
            g = re.match(r"^  (\S.*?)=(.*?)( \([01? ]+\))?$", line)
            if g and loc:
                if g.group(1) == "__vh_last":
                    v = re.match(r"^(\d+)", g.group(2))
                    cur["values"].append(int(v.group(1)) if v else 0)
                if len(cur["steps"]) < 20000:
                    cur["steps"].append("%s  %s = %s" % (loc, g.group(1), g.group(2)))
    return out


def describe(p):
    loc = p.get("sourceLocation", {})
    return "%s (%s:%s %s)" % (p.get("description"), os.path.basename(loc.get("file", "?")), loc.get("line", "?"),
                              loc.get("function", ""))


def trace_values(p):
    return p["values"]


def build_native(q, d, src, srcs, harness, sanitize=True):
    exe = os.path.join(d, "native" if sanitize else "native_plain")
    san = ["-fsanitize=address,bounds,null,object-size", "-fno-sanitize-recover=bounds,null,object-size",
           "-fno-omit-frame-pointer"] if sanitize else []
    cmd = ["gcc", "-g", "-O0"] + san + cpp_flags(src, q, True) + list(q.replay_cflags) + [harness] + srcs
    obj = os.path.join(d, "vh_replay.o")
    rc, out, err, _ = sh(["gcc", "-g", "-c", os.path.join(HARNESS, "vh_replay.c"), "-o", obj], timeout=60)
    rc2, out2, err2, _ = sh(cmd + [obj, "-o", exe, "-lm", "-lpthread"], timeout=120)
    if rc != 0 or rc2 != 0:
        return None, (err + err2)[-2500:]
    return exe, ""


def run_native(exe, d, q, vals, timeout, perturb):
    vf = os.path.join(d, "values.txt")
    with open(vf, "w") as f:
        f.write("\n".join(str(v) for v in vals) + "\n")
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:max_malloc_fill_size=1048576:malloc_fill_byte=%d" % perturb
    return sh([exe, vf], timeout=timeout, env=env, cwd=d)


def replay(exe, d, q, vals, hang=False):
    for perturb in (0xbe, 0x00, 0xff, 0x01):
        rc, out, err, _ = run_native(exe, d, q, vals, q.hang_s, perturb)
        if rc is None:
            if hang or q.hang_is_violation:
                return "no termination within %d s" % q.hang_s
            continue
        if rc == 99:
            g = re.search(r"REPLAY-VIOLATION (.*)", err)
            return g.group(1) if g else "property violated"
        if rc == 77 or rc == 0:
            continue
        if rc == 98 or "AddressSanitizer" in err or "runtime error" in err:
            g = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", err)
            w = re.search(r"#\d+ 0x[0-9a-f]+ in ((?!__)\w+) [^\n]*/src/([\w.]+:\d+)", err)
            return (g.group(1) if g else "sanitizer error") + (" in %s %s" % (w.group(1), w.group(2)) if w else "")
        if rc < 0 or rc in (134, 139, 136):
            g = re.search(r"[^\n]*Assertion[^\n]*", err)
            return "process killed (status %s) %s" % (rc, g.group(0) if g else "")
    return None


def witness(exe, d, q, vals):
    rc, out, err, _ = run_native(exe, d, q, vals, q.hang_s, 0)
    return (rc == 0 and "REPLAY-OK" in err), ("exit %s %s" % (rc, err[-300:]))


def save_replay(prop_id, q, d, p, vals, confirmed):
    dst = os.path.join(VERIF, "replays", prop_id, q.name)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    with open(os.path.join(dst, "values.txt"), "w") as f:
        f.write("\n".join(str(v) for v in vals) + "\n")
    with open(os.path.join(dst, "violation.txt"), "w") as f:
        f.write("property %s, query %s\nsolver: %s\nnative replay: %s\n" % (prop_id, q.name, describe(p), confirmed))
        f.write("\n".join(p.get("steps", [])[-4000:]) + "\n")
    with open(os.path.join(dst, "replay.sh"), "w") as f:
        f.write("#!/bin/sh\n# rebuilds the native replay of this counterexample from /repo and runs it\n"
                "exec python3 %s --replay %s %s %s\n" % (os.path.join(VERIF, "lib", "check.py"), prop_id, q.name,
                                                      os.path.join(dst, "values.txt")))
    os.chmod(os.path.join(dst, "replay.sh"), 0o755)
    return os.path.join(dst, "replay.sh")
