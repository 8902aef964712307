"""The queries deciding each property."""
from engine import Query as Q

PROPERTIES = {}
NOT_APPLICABLE = {}
FS = ["--max-field-sensitivity-array-size", "512"]
CAD = ["--sat-solver", "cadical"]


NODE_ENV = ("net", "fd", "epoll", "timer", "proc", "exit", "str")
NODE_REN = ("perror", "printf", "fprintf", "sprintf", "snprintf", "open", "fallocate", "fstat", "posix_memalign", "pipe", "pipe2", "signalfd", "pthread_sigmask",
            "sigemptyset", "sigaddset", "getenv", "sysconf", "argp_parse", "addr_parse", "addr_proto_parse", "shutdown")


def N(name, harness, scale=None, **k):
    """a query running the node's own main() on the kernel model of nodeenv.h"""
    sc = {"BUF_SIZE": 80, "MAX_CONNS": 2, "MAX_REQS": 4, "MAX_THREADS": 1, "MAX_EVENTS": 1}
    sc.update(scale or {})
    us = {"strcpy": 20, "strcat": 20, "strlen": 20}
    us.update(k.pop("unwindset", {}))
    k.setdefault("unwind", 16)
    k.setdefault("hunwind", 200)
    k.setdefault("object_bits", 12)
    return Q(name, harness, env=NODE_ENV, raw_renames=NODE_REN + tuple(k.pop("renames", ())), exclude=("address_utils.c",), scale=sc, unwindset=us, flags=FS, **k)


def shapes(name, h, lens, parts, **k):
    out = []
    for n in lens:
        tot = 4 ** n
        c = parts.get(n, 1)
        for i in range(c):
            out.append(Q("%s%d_%d" % (name, n, i), h, defs={"VQ_N": n, "VQ_LO": tot * i // c, "VQ_HI": tot * (i + 1) // c},
                         unwind=n + 3, hunwind=max(tot // c + 2, 60), flags=FS, **k))
    return out


def words(maxlen, alpha, tail="", skips=True, kinds="csl"):
    """all well-nested command words up to maxlen letters (see harness/tmpl.h): forward groups closed by their reply, skips
    staying inside their own group and not covering another skip"""
    def skip(w, i, n):
        while n > 0 and i < len(w):
            d = 0
            while True:
                if w[i] == 'f' or (w[i] == 'm' and w[i + 1:i + 2] != 'm'):
                    d += 1
                if w[i] == 'r':
                    d -= 1
                i += 1
                if not (i < len(w) and (d > 0 or w[i - 1] == 'm')):
                    break
            n -= 1
        return i

    def ok(w):
        d, prev, depth = 0, "", []
        for c in w:
            if c == 'f' or (c == 'm' and prev != 'm'):
                d += 1
            if c == 'r':
                d -= 1
                if prev == '' or d < 0:
                    return False
            depth.append(d)
            prev = c
        if d != 0:
            return False
        for i, c in enumerate(w):
            if c in "123ABC":
                n = int(c) if c in "123" else ord(c) - 64
                j = i + 1
                for _ in range(n):
                    if j < len(w) and w[j] == 'r' and depth[j] < depth[i]:
                        return False          # would leave its own group
                    if j < len(w) and w[j] in "123ABC":
                        return False
                    if j >= len(w):
                        return False
                    j = skip(w, j, 1)
                if any(x in "123ABC" for x in w[i + 1:j]):
                    return False
        return True

    out, level, k = [], [""], 0
    for n in range(maxlen):
        nxt = []
        for w in level:
            for c in alpha:
                if c == 'c':
                    c = kinds[(len(w) + k) % len(kinds)]
                    k += 1
                nxt.append(w + c)
        level = nxt
        out += [w + tail for w in level if ok(w)]
    return sorted(set(out))


def split(ws, n):
    return [ws[i::n] for i in range(n)]


def wdef(ws):
    return ",".join('"%s"' % w for w in ws)


PROPERTIES["C02"] = dict(note="", queries=shapes("skip", "skip.c", (1, 2, 3, 4, 5), {4: 4, 5: 16}))

W1 = words(4, "cfmr12A", tail="r")
PROPERTIES["C01"] = dict(
    note="",
    queries=[Q("dump_%d" % i, "dump.c", env=("rand", "exit"), defs={"VQ_WORDS": wdef(ws), "VQ_VMAX": "0xffffffffu"}, unwind=10, hunwind=300, flags=FS)
             for i, ws in enumerate(split(W1, 16))])

W3 = [w for w in words(5, "cfmr", tail="r") if "f" in w or "m" in w]
C03_UNIT = [Q("copy_%d" % i, "fwdcopy.c", env=("exit",), defs={"VQ_WORDS": wdef(ws)}, unwind=10, hunwind=300, flags=FS)
            for i, ws in enumerate(split(W3, 16))]
PROPERTIES["C03"] = dict(
    note="",
    queries=C03_UNIT)

PROPERTIES["C04"] = dict(
    note="",
    queries=[Q("deque_cap%d" % c, "queue.c", defs={"VQ_CAP": c, "VQ_OPS": ops}, unwind=ops + 2, hunwind=ops + 2)
             for c, ops in ((1, 7), (2, 7), (3, 8), (4, 8))])

PQ = [(1, ["ip", "ii", "i0i", "ipip"]), (2, ["iipi", "iii", "ii0i", "ii1i"]), (3, ["iii0", "iii1", "iii2", "iiip"]), (4, ["iiii"])]
PROPERTIES["C05"] = dict(
    note="",
    queries=[Q("pq%d_%s" % (c, w), "pqueue.c", defs={"VQ_CAP": c, "VQ_WORDS": '"%s"' % w}, unwind=4, hunwind=12, flags=FS, witness=c < 4)
             for c, ws in PQ for w in ws] +
            [Q("pqstep_%d_%s" % (n, "ins_pop" if j < 0 else "rm%d" % j), "pqueue_ind.c", defs={"VQ_N": n, "VQ_J": j}, unwind=5, hunwind=12,
               flags=FS, optional=True, witness=False) for n in (0, 1, 3, 6, 7, 8) for j in range(-1, n)])

PROPERTIES["C06"] = dict(
    note="",
    queries=[Q("ts_%s" % n, "timespec.c", defs={"VQ_PART": i}, unwind=4, checks=("bounds", "pointer", "overflow"), sources=[], solver=CAD, timeout=600)
             for i, n in enumerate(("add", "sub", "sub_us", "arm", "remaining"))])


def req_words(cap, n):
    """operation words of exactly n letters (shorter ones are their prefixes)"""
    out = []
    def go(w, live, nxt):
        if len(w) == n:
            out.append(w)
            return
        go(w + "a", live + [nxt] if len(live) < cap else live, nxt + (len(live) < cap))
        for k in live:
            go(w + str(k), [x for x in live if x != k], nxt)
    go("", [], 0)
    return out


def req_queries(cap, ws, parts, start="", tag=""):
    return [Q("ids_%d_%d%s" % (cap, i, tag), "reqtab.c", scale={"MAX_REQS": cap}, defs=dict({"VQ_WORDS": wdef(w)}, **({"VQ_START": start} if start else {})),
              unwind=cap + 2, hunwind=100, flags=FS, optional=bool(start)) for i, w in enumerate(split(ws, parts))]


WRAP = "1, 2, INT_MAX - 3, INT_MAX - 1, INT_MAX, INT_MIN, -4, -2, -1"
PROPERTIES["C10"] = dict(
    note="",
    queries=req_queries(2, req_words(2, 6), 2) + req_queries(3, req_words(3, 6), 3) + req_queries(4, ["aaaa0aa", "aaaa2a", "aaaaa3a1a", "aa0a1a2a"], 2) +
    req_queries(2, req_words(2, 5), 4, WRAP, "_at") + req_queries(3, ["aaa0a", "aaa1a", "aaa21a", "aaa02a"], 2, "1, 2, 4", "_at") + req_queries(4, ["aaaa0a", "aaaa2a", "aaaaa", "aa0a1a"], 4, WRAP, "_at") +
    req_queries(1, req_words(1, 4), 1, "nd_int()", "_any") + req_queries(2, ["a0a", "aaa"], 2, "nd_int()", "_any"))


def slot_words(cap, n):
    out = []
    def go(w, live, nxt):
        if len(w) == n:
            out.append(w)
            return
        if len(live) < cap:
            for c in "TU":
                go(w + c, live + [nxt], nxt + 1)
        else:
            go(w + "T", live, nxt)
        for k in live:
            go(w + str(k), [x for x in live if x != k], nxt)
        if len(w) and not set(w) & set("xy") and len(live) < cap:
            for c in "xy":
                go(w + c, live, nxt)
    go("", [], 0)
    return out


PROPERTIES["C11"] = dict(
    note="",
    queries=[Q("slots_%d_%d" % (cap, i), "connslot.c", env=("net",), raw_renames=("calloc", "pthread_self", "fprintf"), scale={"MAX_CONNS": cap, "MAX_REQS": cap, "BUF_SIZE": 64},
               defs={"VQ_WORDS": wdef(w)}, unwind=cap + 2, hunwind=100, flags=FS, object_bits=10)
             for cap, ws, parts in ((1, slot_words(1, 3), 1), (2, slot_words(2, 4), 8)) for i, w in enumerate(split(ws, parts))])


def exec_events(ws, conns, style):
    """orders of the events of the given requests: arrivals first or one by one, storage completions in order or late"""
    nc = len(set(conns))
    acc = "a" * nc
    def ops(w):
        n = 0
        for c in w:
            if c == "r":
                break
            n += c in "sl"
        return n
    ev = acc
    if style == "serial":
        for i, w in enumerate(ws):
            ev += str(i) + "Sk" * ops(w)
        return ev
    for i in range(len(ws)):
        ev += str(i)
    left = [ops(w) for w in ws]
    while any(left):                       # all outstanding operations are done before any completion is seen
        n = sum(1 for x in left if x)
        ev += ("S" + "k" * n) if style == "batch" else "Sk" * n
        left = [max(0, x - 1) for x in left]
    return ev


def exec_q(ws, conns, style, us, rsz, udp=False):
    d = {"VQ_W": wdef(ws), "VQ_C": ",".join(map(str, conns)), "VQ_NREQ": len(ws), "VQ_EVENTS": '"%s"' % exec_events(ws, conns, style).replace("a" if udp else "@", ""),
         "VQ_US": us, "VQ_RSZ": rsz, "NEP": 8, "INMAX": 160}
    if udp:
        d.update({"VQ_UDP": 1, "VH_PROTO": "UDP", "VH_ARGS(p,st)": 'p(BIND_ADDR, "x", st)'})
    return N("exec%s_%s_%s_%s" % ("_udp" if udp else "", "-".join(ws), "".join(map(str, conns)), style), "node_exec.c", defs=d, scale={"BUF_SIZE": 160}, witness=False)


C14_Q = []
_pre = [""] + [a for a in "csl"] + [a + b for a in "csl" for b in "csl"]
for _i, _w in enumerate(_pre):
    C14_Q.append(exec_q([_w + "r" + ("", "c", "s", "lr")[_i % 4]], [0], "serial", "nd_range(0, 3000)", (16, 20, 41, 8)[_i % 4]))
for _a, _b in (("cr", "sr"), ("sr", "cr"), ("sr", "lr"), ("scr", "lr"), ("r", "slr"), ("lsr", "sr"), ("c", "sr"), ("s", "cr")):
    for _c in ([0, 0], [0, 1]):
        for _st in ("batch", "serial", "step"):
            C14_Q.append(exec_q([_a, _b], _c, _st, 1000, "16 + 4 * r"))
C14_Q += [exec_q([_w], [0], "serial", "nd_range(0, 2000)", 24, True) for _w in ("r", "cr", "sr", "lcr")]
C14_Q += [exec_q([_a, _b], [0, 0], _st, 1000, "16 + 4 * r", True) for _a, _b in (("cr", "sr"), ("sr", "lr"), ("lr", "r")) for _st in ("batch", "serial")]
PROPERTIES["C14"] = dict(note="", queries=C14_Q)


W_LEN = {"c": 8, "s": 28, "l": 20, "f": 28, "m": 28, "r": 12}


def w_len(w):
    return 16 + sum(W_LEN[c] for c in w)


def fwd_groups(w):
    """(branches, commands between the forwards and the end of the group) of the outer forward groups of a word"""
    out, i = [], 0
    while i < len(w):
        if w[i] in "fm":
            b = i
            while w[i] == "m" and w[i + 1] == "m":
                i += 1
            n, j, d = i - b + 1, i + 1, 1
            while d:
                if w[j] == "r":
                    d -= 1
                elif w[j] == "f" or (w[j] == "m" and w[j + 1] != "m"):
                    d += 1
                j += 1
            out.append((b, n, w[i + 1:j]))
            i = j
        else:
            i += 1
    return out


def fwd_q(name, ws, tgts, ev, conns=None, socks=None, **k):
    """requests with forwards, see harness/node_fwd.c"""
    conns = list(conns or range(len(ws)))
    d = {"VQ_W": wdef(ws), "VQ_TGT": wdef(tgts), "VQ_NREQ": len(ws), "VQ_C": ",".join(map(str, conns)), "VQ_EVENTS": '"%s"' % ev}
    extra = k.pop("defs", {})
    pkt = int(extra.get("VQ_PKT", 0))
    subs = [max(pkt, w_len(g[2])) for w in ws for g in fwd_groups(w)]
    tries = 1 + int(extra.get("VQ_RETRIES", 0))
    inmax = max([sum(w_len(w) for w, c in zip(ws, conns) if c == x) for x in set(conns)]) + 16 * ev.count("o")
    n = ev.count("a") + sum(g[1] for w in ws for g in fwd_groups(w)) if socks is None else socks
    d.update({"INMAX": max(inmax, 32), "OUTMAX": max(sum(subs) * tries, 16 * len(ws)), "NEP": 4, "NSOCK": n})
    d.update(extra)
    sc = {"BUF_SIZE": max(inmax, 32, pkt, max(subs + [0]) * 2), "MAX_CONNS": n}
    sc.update(k.pop("scale", {}))
    return N(name, "node_fwd.c", defs=d, scale=sc, witness=k.pop("witness", False), **k)



def fwd_name(ws, ev, extra=""):
    return "_".join(ws) + "_" + ev + extra


def F(ws, tgts, ev, sfx="", **k):
    ws, tgts = ws.split(), tgts.split()
    return fwd_q("_".join(ws) + "_" + ev + sfx, ws, tgts, ev, **k)


def perms3(n, m):
    return ["ABC"[:n], "CBA"[3 - n:], "BCA" if n == 3 else "BA"[:n]]


def c15_queries():
    qs = []
    for w, t, ev in (("frr", "A", "a0A"), ("cfrr", "A", "a0A"), ("fcrcr", "A", "a0A"), ("mrr", "A", "a0A"), ("frfrr", "AB", "a0AB"), ("frfrr", "AA", "a0AA"),
                     ("ffrrr", "AB", "a0A"), ("fmmrrr", "ABC", "a0A"), ("mfrrr", "AB", "a0A"), ("fsrlr", "A", "a0ASk"), ("sfrr", "A", "a0SkA"),                      ("frr", "A", "a0XA"), ("frfrr", "AB", "a0XAYB")):
        qs.append(F(w, t or "A", ev, defs={"VQ_CONNECT": 1 if "X" in ev else 0}))
    for n in (2, 3):
        for m in range(1, n + 1):
            for o in sorted(set(perms3(n, m))):
                qs.append(F("m" * n + "rr", "ABC"[:n], "a0" + o, "_k%d" % m, defs={"VQ_ACK": m}))
    # identifiers of no pending forward: never issued, of the slot in use in another round, negative
    for i, v in enumerate(("2", "VH_MAX_REQS", "0x7fffffff", "0x80000000u", "0xfffffffcu")):
        qs.append(F("frr", "A", "a0oA", "_o%d" % i, defs={"VQ_FOREIGN": v}))
    # a reply that comes after its forward group went on, while the request waits for another forward
    qs.append(F("mmrfrr", "ABC", "a0ABC", "_late", defs={"VQ_ACK": 1, "VQ_KNOWN": '"late-reply-next-forward"'}))
    qs.append(F("mmcrcr", "AB", "a0oAoB", "_k2", defs={"VQ_ACK": 2}))
    # after completion the identifier is no longer pending
    qs.append(F("frr frr", "A B", "aa0Ao1oB", "_stale", defs={"VQ_FOREIGN": "0"}))
    qs.append(F("mmrmmrr", "ABAB", "a0ABAB", "_k2", defs={"VQ_ACK": 2}))
    qs.append(F("mmrr", "AB", "a0YBXA", "_k1", defs={"VQ_ACK": 1, "VQ_CONNECT": 1}))
    qs.append(F("mmrr", "AB", "a0YBXA", "_k2", defs={"VQ_ACK": 2, "VQ_CONNECT": 1}))
    # two requests, on one connection or two, to the same or different targets, answered in either order
    for c, a in (([0, 0], "a"), ([0, 1], "aa")):
        for ev in ("01xg", "01gx"):
            qs.append(F("frr frr", "A A", a + ev, "_c%d" % c[1], conns=c))
        for ev in ("01AB", "01BA", "0A1B"):
            qs.append(F("frr fcrr", "A B", a + ev, "_c%d" % c[1], conns=c))
    qs.append(F("mmrr frr", "AB A", "aa01AxB", "_k2", defs={"VQ_ACK": 1}))
    return [q for q in qs if q]


def c16_queries():
    T = {"VQ_TO": 1000}
    qs = []
    for n in (0, 1, 2):
        for ev in sorted(set(["a0" + "T" * (n + 1), "a0" + "T" * n + "A", "a0A", "a0" + "tT" * (n + 1)])):
            qs.append(F("frr", "A", ev, "_n%d" % n, defs=dict(T, VQ_RETRIES=n, VQ_DT="nd_range(0, 63)")))
    for w, skip in (("frcr", 1), ("frcr", 2), ("frcr", 3), ("frfrr", 2), ("fcrsr", 2), ("cfrr", 1), ("ffrrr", 1), ("frmmrcr", 2)):
        qs.append(F(w, "ABC", "a0TT", "_s%d" % skip, defs=dict(T, VQ_RETRIES=1, VQ_SKIP=skip)))
    qs.append(F("frfrr", "AB", "a0TTB", "_n1", defs=dict(T, VQ_RETRIES=1)))
    qs.append(F("frfrr", "AB", "a0ATT", "_n1", defs=dict(T, VQ_RETRIES=1)))
    qs.append(F("frfrr", "AB", "a0TTTB", "_n1", defs=dict(T, VQ_RETRIES=1)))
    qs.append(F("frfrr", "AB", "a0ATB", "_n1", defs=dict(T, VQ_RETRIES=1)))
    for m, ev in ((2, "a0ATAB"), (2, "a0TAB"), (2, "a0ATT"), (2, "a0BTA"), (1, "a0TB"), (1, "a0TT"), (1, "a0A")):
        qs.append(F("mmrr", "AB", ev, "_k%d" % m, defs=dict(T, VQ_RETRIES=1, VQ_ACK=m), socks=5))
    # late answer after the forward was given up
    qs.append(F("frr", "A", "a0TA", "_late", defs=T))
    # refused at once, refused later, connection lost: same as a target that does not answer
    qs.append(F("frr", "A", "a0T", "_ref", defs=dict(T, VQ_CONNECT=2, VQ_LOST=1)))
    qs.append(F("frr", "A", "a0TT", "_ref", defs=dict(T, VQ_CONNECT=2, VQ_RETRIES=1, VQ_LOST=1), socks=3))
    qs.append(F("frr", "A", "a0UT", "_ref", defs=dict(T, VQ_CONNECT=1)))
    qs.append(F("frr", "A", "a0UTUT", "_ref", defs=dict(T, VQ_CONNECT=1, VQ_RETRIES=1), socks=3))
    qs.append(F("frr", "A", "a0UTXA", "_ref", defs=dict(T, VQ_CONNECT=1, VQ_RETRIES=1), socks=3))
    qs.append(F("frr", "A", "a0uTA", "_lost", defs=dict(T, VQ_RETRIES=1), socks=3))
    qs.append(F("frr", "A", "a0XTA", "_conn", defs=dict(T, VQ_CONNECT=1, VQ_RETRIES=1), socks=3))
    qs.append(F("frr", "A", "a0TXTT", "_conn", defs=dict(T, VQ_CONNECT=1, VQ_RETRIES=2), socks=3))
    # two requests
    qs.append(F("frr frcr", "A B", "aa01TTBT", "_n1", defs=dict(T, VQ_RETRIES=1, VQ_TO="(r ? 1500 : 1000)")))
    qs.append(F("frr frr", "A A", "a01TgT", "_n1", conns=[0, 0], defs=dict(T, VQ_RETRIES=1, VQ_TO="(r ? 1500 : 1000)")))
    return [q for q in qs if q]


def c18_queries():
    T = {"VQ_TO": 1000}
    qs = []
    # the client goes away with a forward pending, completions come later, another client is served
    for ev in ("aa0d1B", "aa01dAB", "aa01AdB", "aa0dA1B", "aa01BdA", "aad1B", "aa0A1dB"):
        qs.append(F("frr frr", "A B", ev, "_d", defs={"VQ_ANSWER_GONE": 1}))
    for ev in ("aa0d1T", "aa01dT", "aa01Td", "aa01dB"):
        qs.append(F("frr frr", "A B", ev, "_to", defs=T))
    qs.append(F("frr frr", "A A", "aa01dxg", "_same"))
    qs.append(F("frr frr", "A A", "aa01dgx", "_same"))
    # ... with a storage operation pending
    for ev in ("aa0d1Skk", "aa01dSkk", "aa0Sd1Skk", "aa0Sdk1Sk", "aa01Skdk", "aa01Sdkk"):
        qs.append(F("sr sr", "A A", ev, "_st", socks=2))
    qs.append(F("scr sr", "A A", "aa01Sdkk", "_st", socks=2))
    qs.append(F("slr sr", "A A", "aa0S1kdSkk"[:7] + "Skk", "_st2", socks=2))
    # several requests of the lost client, one waiting for storage, one for a forward
    qs.append(F("sr frr frr", "A A B", "aa012dSkAB", "_mix", conns=[0, 0, 1], socks=4))
    # a new connection takes the freed slot
    qs.append(F("frr cr", "A A", "a0da1A", "_reuse", conns=[0, 2], scale={"MAX_CONNS": 2}, socks=3))
    qs.append(F("frr frr", "A B", "a0da1AB", "_reuse", conns=[0, 2], socks=4))
    qs.append(F("sr sr", "A A", "a0da1Skk", "_reuse", scale={"MAX_CONNS": 1}, socks=2))
    qs.append(F("sr sr", "A A", "a0Sda1kSk", "_reuse", scale={"MAX_CONNS": 1}, socks=2))
    qs.append(F("sr cr", "A A", "a0Sda1k", "_reuse", scale={"MAX_CONNS": 1}, socks=2))
    # forward targets refused or lost
    for ev in ("aa0U1YB", "aa01UYB", "aa01YUB", "aa01YBU"):
        qs.append(F("frr frr", "A B", ev, "_ref", defs={"VQ_CONNECT": 1}))
    for ev in ("aa0u1B", "aa01uB", "aa01Bu", "aa01uBd"):
        qs.append(F("frr frr", "A B", ev, "_lost"))
    qs.append(F("frr cr", "A A", "aa01", "_refnow", defs={"VQ_CONNECT": 2, "VQ_LOST": 1}))
    qs.append(F("mmrr cr", "AB A", "aa0u1B", "_lost_k1", defs={"VQ_ACK": 1}))
    qs.append(F("frr frr", "A A", "aa0u1A", "_again", socks=4))
    return qs


def c07_queries():
    qs = []
    two = {"VQ_TO": "(r ? 60 : 100)", "VQ_DT": "nd_range(0, 39)"}
    qs.append(F("frr frr", "A B", "aa0t1tA", "_two", defs=two))
    qs.append(F("frr frr", "A B", "aa0t1tB", "_two", defs=two))
    for t0, t1 in ((60, 100), (100, 60)):
        d = {"VQ_TO": "(r ? %d : %d)" % (t1, t0), "VQ_DT": 17}
        for ev in ("aa01TT", "aa0t1TT", "aa0t1tTT", "aa01AT", "aa01BT", "aa0t1tAT", "aa0t1tBT", "aa01TA", "aa01TB"):
            qs.append(F("frr frr", "A B", ev, "_%d" % t0, defs=d))
    for ev in ("aa01dT", "aa01eT", "aa0t1dT", "aa0t1eT"):
        qs.append(F("frr frr", "A B", ev, "_gone", defs={"VQ_TO": "(r ? 60 : 100)", "VQ_DT": 17}))
    qs.append(F("frr frr frr", "A B C", "aa0t1t2TTT", "_three", conns=[0, 1, 1], defs={"VQ_TO": "(r == 0 ? 100 : r == 1 ? 400 : 200)", "VQ_DT": 17}, socks=5))
    qs.append(F("frr frr frr", "A B C", "aa0t1t2CTT", "_three", conns=[0, 1, 1], defs={"VQ_TO": "(r == 0 ? 100 : r == 1 ? 400 : 50)", "VQ_DT": 17}, socks=5))
    qs.append(F("frr", "A", "a0tTtT", "_retry", defs={"VQ_TO": 100, "VQ_RETRIES": 1, "VQ_DT": "nd_range(0, 63)"}))
    qs.append(F("frfrr", "AB", "a0tAtT", "_seq", defs={"VQ_TO": 100, "VQ_DT": "nd_range(0, 63)"}))
    qs.append(F("mmrr", "AB", "a0tAtB", "_multi", defs={"VQ_TO": 100, "VQ_ACK": 2, "VQ_DT": "nd_range(0, 39)"}))
    qs.append(F("mmrr", "AB", "a0tAtT", "_multi", defs={"VQ_TO": 100, "VQ_ACK": 2, "VQ_DT": "nd_range(0, 39)"}))
    # timeouts of a second and more
    qs.append(F("frr frr", "A B", "aa0t1TT", "_long", defs={"VQ_TO": "(r ? 2100000 : 999999)", "VQ_DT": 400000}))
    qs.append(F("frr frr", "A B", "aa0t1AT", "_long", defs={"VQ_TO": "(r ? 3100000 : 1900000)", "VQ_DT": 700000}))
    # expiry and answer reported together
    for ev in ("aa01bT", "aa01hT", "aa0t1bT", "aa0t1hT"):
        qs.append(F("frr frr", "A B", ev, "_batch", defs={"VQ_TO": "(r ? 100 : 60)", "VQ_DT": 17, "VH_BATCH": 2}, scale={"MAX_EVENTS": 2}))
    qs.append(F("frr", "A", "a0bx"[:3], "_batch", defs={"VQ_TO": 60, "VH_BATCH": 2}, scale={"MAX_EVENTS": 2}))
    qs.append(F("frr", "A", "a0h", "_batch", defs={"VQ_TO": 60, "VH_BATCH": 2, "VQ_RETRIES": 1}, scale={"MAX_EVENTS": 2}))
    return qs


def to_q(ev, us="nd_range(1, 63)", dt="nd_range(0, 15)", sfx="", **k):
    n = 1 + max(int(c) for c in ev if c.isdigit())
    return N("timer_" + ev + sfx, "timeouts.c", defs={"VQ_EVENTS": '"%s"' % ev, "VQ_US": us, "VQ_DT": dt, "VQ_N": n, "NEP": 4},
             scale={"BUF_SIZE": 16, "MAX_CONNS": 1, "MAX_REQS": 2 if n < 3 else 4}, optional=True, witness=False, solver=CAD, **k)


def c07_units():
    first = "(e == '0' ? 40 : nd_range(1, 63))"
    second = "(e == '0' ? nd_range(1, 63) : 40)"
    three = "(e == '0' ? 40 : e == '1' ? 70 : nd_range(1, 63))"
    return [to_q("0tA", us="nd_range(1, 0x3ffffff)", dt="nd_range(0, 999)"), to_q("01tA", us=first), to_q("0t1tA", us=first), to_q("0t1tB", us=first), to_q("0t1tTAB", us=first), to_q("0t1tTBA", us=first),
            to_q("0t1A", us=second, sfx="_s"), to_q("01t", us="999990 + nd_range(1, 63)"), to_q("012tA", us=three), to_q("012tB", us=three), to_q("012TAt", us=three),
            to_q("012tCTA", us=three)]


PROPERTIES["C07"] = dict(note="", queries=c07_queries() + c07_units())
PROPERTIES["C15"] = dict(note="", queries=c15_queries())
PROPERTIES["C16"] = dict(note="", queries=c16_queries())
PROPERTIES["C18"] = dict(note="", queries=c18_queries())


def c27_queries():
    T = {"VQ_TO": 1000}
    qs = []

    def S(ws, tgts, ev, sfx="", defs=None, **k):
        qs.append(F(ws, tgts, ev + "p", sfx, defs=dict(defs or {}, VQ_STATS=1), **k))
    for ev in ("", "a", "a0"):
        S("cr", "A", ev, socks=2)
    for ev in ("a0", "a0S", "a0Sk", "a0d", "a0Sd", "a0dSk"):
        S("sr", "A", ev, "_st", socks=2)
    for ev in ("a0", "a0A", "a0d", "a0dA", "a0u"):
        S("frr", "A", ev, socks=3)
    for ev in ("a0X", "a0XA", "a0U", "a0d", "a0dX", "a0XdA"):
        S("frr", "A", ev, "_conn", defs={"VQ_CONNECT": 1}, socks=3)
    S("frr", "A", "a0", "_ref", defs={"VQ_CONNECT": 2, "VQ_LOST": 1}, socks=3)
    for ev in ("a0", "a0T", "a0TT", "a0TA", "a0TTA", "a0Td", "a0uT", "a0uTA"):
        S("frr", "A", ev, "_to", defs=dict(T, VQ_RETRIES=1), socks=4)
    S("frr", "A", "a0UTU", "_to", defs=dict(T, VQ_RETRIES=1, VQ_CONNECT=1), socks=4)
    S("frr", "A", "a0T", "_drop", defs=dict(T, VQ_SKIP=0), socks=3)
    S("c", "A", "a0", "_noreply", socks=2)
    S("frcr", "A", "a0T", "_skip", defs=dict(T, VQ_SKIP=3), socks=3)
    for ev in ("a0A", "a0AB", "a0ABd", "a0B"):
        S("mmrr", "AB", ev, "_k1", defs={"VQ_ACK": 1}, socks=4)
    for ev in ("aa01", "aa01A", "aa01d", "aa01dB", "aa01AB", "aa01de", "aa01Ade"):
        S("frr frr", "A B", ev, "_two", socks=5)
    S("frr sr cr", "A A A", "aa012dSk", "_mix", conns=[0, 0, 1], socks=4)
    S("frr sr cr", "A A A", "aa012SkA", "_mix", conns=[0, 0, 1], socks=4)
    S("frr cr", "A A", "a0da1", "_reuse", conns=[0, 2], scale={"MAX_CONNS": 2}, socks=3)
    return qs


PROPERTIES["C27"] = dict(note="", queries=c27_queries())


def c28_queries():
    qs = []
    for m, name in enumerate(("child", "shared", "parent")):
        for n in (1, 2, 3):
            for k in ((1, 2) if m < 2 else (1, 2, 3, 5)):
                for close in (0, 1):
                    if close and (k < 2 or n == 1):
                        continue
                    d = {"VQ_MODE": m, "VQ_N": n, "VQ_K": k, "VQ_DEFAULT": 0}
                    if close:
                        d["VQ_CLOSE"] = 1
                    tot = k if m == 2 else k * n
                    qs.append(N("%s_%d_%d%s" % (name, n, k, "_close" if close else ""), "node_accept.c", defs=d, scale={"BUF_SIZE": 40, "MAX_CONNS": tot, "MAX_THREADS": n}, witness=False))
    qs.append(N("default_2_1", "node_accept.c", defs={"VQ_MODE": 0, "VQ_N": 2, "VQ_K": 1, "VQ_DEFAULT": 1}, scale={"BUF_SIZE": 40, "MAX_CONNS": 2, "MAX_THREADS": 2}, witness=False))
    return qs


PROPERTIES["C28"] = dict(note="", queries=c28_queries())


def st_q(ops, sfx="", buf=64, **k):
    n = len(ops)
    d = {"VQ_OPS": '"%s"' % ops, "NSOCK": 1, "INMAX": 56 * n, "OUTMAX": 16 * n, "NEP": 4}
    d.update(k.pop("defs", {}))
    return N("st_%s%s" % (ops, sfx), "node_store.c", defs=d, scale={"BUF_SIZE": max(buf, 56 * n), "MAX_CONNS": 1}, witness=False,
             unwindset={"store": 4, "load": 4, "safe_write": 2 + d.get("VQ_PARTIAL", 0), "safe_read": 4 + d.get("VQ_PARTIAL", 0)}, **k)


def c19_queries():
    D = {"VQ_ODIRECT": 1}
    qs = [st_q(o) for o in ("s", "S", "q", "Q", "sq", "qs", "qq", "sS", "Qq", "lq", "lS", "sqq", "qqq", "qsq", "sss")]
    qs += [st_q(o, "_d", defs=D) for o in ("s", "S", "q", "qq", "sq", "qqq")]
    qs += [st_q(o, "_p", defs={"VQ_PARTIAL": p}) for o, p in (("s", 3), ("Q", 2), ("qq", 2), ("sq", 2))]
    qs += [st_q("s", "_far", defs={"VQ_OFF": "nd_u64_range((uint64_t)1 << 31, (uint64_t)1 << 62)"}), st_q("sq", "_far", defs={"VQ_OFF": "nd_u64_range((uint64_t)1 << 31, (uint64_t)1 << 62)", "VQ_MAX": "((long)1 << 62)"}),
           st_q("s", "_far_d", defs=dict(D, VQ_OFF="nd_u64_range((uint64_t)1 << 31, (uint64_t)1 << 62)")), st_q("qq", "_tight", defs={"VQ_MAX": 100}), st_q("qqq", "_tight", defs={"VQ_MAX": 100, "VQ_LEN": "nd_range(0, 100)"}),
           st_q("S", "_p", defs={"VQ_PARTIAL": 2}), st_q("s", "_blk64", defs=dict(D, VH_BLK=64)), st_q("q", "_blk128", buf=128, defs=dict(D, VH_BLK=128))]
    return qs


def c20_queries():
    D = {"VQ_ODIRECT": 1}
    L = {"VQ_LEN": "nd_range(0, 100)"}
    qs = [st_q(o) for o in ("l", "k", "sl", "qk", "sk", "ll", "kk")]
    qs += [st_q(o, "_s", defs=L) for o in ("qkk", "slk", "qlk", "sqk", "qkq")]
    qs += [st_q(o, "_d", defs=dict(D)) for o in ("l", "k", "qk")]
    qs += [st_q(o, "_p", defs=dict(L, VQ_PARTIAL=p)) for o, p in (("l", 2), ("k", 2), ("qk", 1))]
    qs += [st_q(o, "_e%d" % n, defs={"VH_FSIZE": n, "VQ_LEN": "nd_range(0, %d)" % m}) for o, n, m in (("l", 0, 160), ("k", 0, 160), ("ll", 0, 160), ("l", 20, 60), ("k", 20, 60), ("l", 50, 160))]
    qs += [st_q("l", "_far", defs={"VQ_OFF": "nd_u64_range((uint64_t)1 << 31, (uint64_t)1 << 62)"})]
    return qs


PROPERTIES["C19"] = dict(note="", queries=c19_queries())
PROPERTIES["C20"] = dict(note="", queries=c20_queries())


def sy_q(ops, wk, sev, ev0, ev1="", sync=0, **k):
    n = 1 + max(int(c) for c in wk)
    m = max(sum(56 for c in wk if int(c) == w) for w in range(n))
    d = {"VQ_OPS": '"%s"' % ops, "VQ_WK": '"%s"' % wk, "VQ_SEV": '"%s"' % sev, "VQ_EV0": '"%s"' % ev0, "VQ_EV1": '"%s"' % ev1, "VQ_N": n, "VQ_SYNC": sync,
         "INMAX": m, "OUTMAX": 16 * len(ops)}
    return N("%s_%s_%s_%s%d" % (ops, wk, sev.replace(".", "x"), ev0 + ev1, sync), "node_sync.c", defs=d, scale={"BUF_SIZE": max(m, 32), "MAX_CONNS": n, "MAX_THREADS": n}, witness=False, **k)


def c21_queries():
    qs = []
    for ops in ("s", "S", "l"):
        qs.append(sy_q(ops, "0", "0", "a0Sk"))
    for ops in ("ss", "sl", "ls", "Sl", "lS", "SS"):
        qs.append(sy_q(ops, "00", "00", "a01Skk"))
        qs.append(sy_q(ops, "01", "01", "a0Wk", "a1Sk"))
        qs.append(sy_q(ops, "01", "10", "a0Wk", "a1Sk"))
    qs.append(sy_q("sls", "000", "000", "a012Skkk"))
    qs.append(sy_q("sSl", "000", "00.0", "a012SkkSk"))
    for ms in (7, 1500):
        qs.append(sy_q("S", "0", "0T", "a0Sk", sync=ms))
        qs.append(sy_q("S", "0", "0", "a0S", sync=ms))
        qs.append(sy_q("s", "0", "0", "a0Sk", sync=ms))
        qs.append(sy_q("l", "0", "0", "a0Sk", sync=ms))
    ms = 250
    for ops, sev, ev in (("Sl", "00", "a01Sk"), ("Sl", "00T", "a01Skk"), ("Ss", "00T", "a01Skk"), ("SS", "00T", "a01Skk"), ("SS", "0T0", "a01Sk"), ("SS", "0T0T", "a01Skk"), ("lS", "0T0T", "a01Skk"), ("sS", "00T", "a01Skk"),
                         ("S", "T0T", "a0Sk"), ("S", "T0", "a0S"), ("S", "0TT", "a0Sk"), ("SSl", "000T", "a012Skkk"), ("SlS", "000", "a012Sk"), ("SlS", "00T0", "a012Skk")):
        qs.append(sy_q(ops, "0" * len(ops), sev, ev, sync=ms))
    for ops, sev in (("SS", "01T"), ("SS", "10T"), ("Sl", "01T"), ("lS", "10T")):
        qs.append(sy_q(ops, "01", sev, "a0Wk", "a1Sk", sync=ms))
    qs.append(sy_q("Sl", "01", "01", "a0W", "a1Sk", sync=ms))
    qs.append(sy_q("SSS", "001", "001T", "a01Wkk", "a2Sk", sync=ms))
    return qs


PROPERTIES["C21"] = dict(note="", queries=c21_queries())


def rx_q(word, sz, sfx="", buf=64, **k):
    d = {"VQ_WORD": '"%s"' % word, "VQ_SZ": ",".join(map(str, sz)), "VQ_TOTAL": sum(sz)}
    d.update(k.pop("defs", {}))
    return Q("rx_%s_%s%s" % (word, "_".join(map(str, sz)), sfx), "conn_rx.c", env=("net",), raw_renames=("calloc", "pthread_self", "fprintf"), scale={"MAX_CONNS": 1, "MAX_REQS": 4, "BUF_SIZE": buf},
             unwind=k.pop("unwind", 8), hunwind=140, defs=d, flags=FS, object_bits=9, witness=False, **k)


def tx_q(word, sz, sfx="", buf=64, **k):
    d = {"VQ_WORD": '"%s"' % word, "VQ_SZ": ",".join(map(str, sz)), "VQ_TOTAL": sum(sz)}
    d.update(k.pop("defs", {}))
    return Q("tx_%s_%s%s" % (word, "_".join(map(str, sz)), sfx), "conn_tx.c", env=("net",), raw_renames=("calloc", "pthread_self", "fprintf"), scale={"MAX_CONNS": 1, "MAX_REQS": 4, "BUF_SIZE": buf},
             unwind=k.pop("unwind", 8), hunwind=140, defs=d, flags=FS, object_bits=9, witness=False, **k)


def cuts(a, b, c=1, d=None):
    return {"VQ_MIN0": a, "VQ_MAX0": b, "VQ_MIN1": c, "VQ_MAX1": c if d is None else d}


def c12_queries():
    out = []
    def spread(word, sz, step, nomore=None, lo=1, hi=None, **k):
        hi = hi or sum(sz)
        for a in range(lo, hi + 1, step):
            d = dict(cuts(a, min(a + step - 1, hi), nomore or sum(sz)))
            d.update(k.get("defs", {}))
            out.append(rx_q(word, sz, "_c%d%s" % (a, k.get("tag", "")), k.get("buf", 64), defs=d))
    spread("rR", [16, 16], 8)                                   # one cut anywhere
    spread("rbR", [12, 20], 11, defs={"VQ_NOREQ": '"01"', "VQ_ALL": 1})
    for c0 in (1, 7, 11, 12, 13, 19):                           # two cuts
        out.append(rx_q("rrR", [12, 16], "_cc%d" % c0, defs=cuts(c0, c0, 1, 9)))
    for word in ("rR012", "rR210", "rR102", "rR120", "rR201", "r0R12", "r0R21"):   # pending requests complete in every order
        spread(word, [16, 20, 12], 8, lo=9, hi=40)
    # more than the buffer holds: completed requests give their space back
    spread("rR0R1R23", [20, 20, 20, 20], 2, lo=3, hi=8, defs={"VQ_ALL": 1})
    spread("rR1R0R32", [20, 20, 20, 20], 2, lo=9, hi=12, defs={"VQ_ALL": 1})
    spread("rRRR", [24, 16, 28, 24, 12], 6, lo=18, hi=47, defs={"VQ_ALL": 1, "VQ_NOREQ": '"01234"'})
    spread("r0R2R13R", [24, 28, 12, 40], 5, lo=44, hi=63, defs={"VQ_ALL": 1})
    return out


def c13_queries():
    out = []
    for word, sz in (("mwW", [16]), ("mwwW", [20]), ("mmwW", [16, 12]), ("mwmW", [16, 12]), ("mmwwW", [16, 12]), ("mwmwW", [12, 16]), ("mmmW", [12, 16, 12]), ("mwmmW", [12, 12, 12]),
                     ("mWmW", [16, 20]), ("mmW", [24, 24])):
        out.append(tx_q(word, sz))
    # more than the buffer holds: what has been sent gives its room back
    out.append(tx_q("mWmWmW", [40, 40, 40], "_room", defs={"VQ_ROOM": 1}))
    out.append(tx_q("mWmWmWmW", [24, 40, 24, 32], "_room", defs={"VQ_ROOM": 1}))
    out.append(tx_q("mmwWmmW", [12, 12, 12, 12], "_more", buf=32))
    out.append(tx_q("mmm", [20, 12, 12], "_full", buf=32))
    out.append(tx_q("mwmmW", [20, 12, 12], "_more", buf=40))
    # messages queued before the connection is established
    for word, sz in (("mcW", [16]), ("mmcW", [16, 12]), ("mmcwW", [16, 12]), ("mcmwW", [12, 16])):
        out.append(tx_q(word, sz, "_conn", defs={"VQ_CONNECTING": 1}))
    return out


def io_q(base, sfx, recv=None, send=None):
    """a node query again, with every receive and send transferring only a part"""
    import copy
    q = copy.deepcopy(base)
    q.name += "_" + sfx
    if recv: q.defs["VH_RECV_CHUNK(s,n)"] = recv; q.defs["VH_LEVEL"] = 1
    if send: q.defs["VH_SEND_CHUNK(s,n)"] = send
    return q


def c12_node():
    out = []
    for n in (3, 11, 16):
        out.append(io_q(exec_q(["cr", "r"], [0, 0], "batch", 1000, "16 + 4 * r"), "recv%d" % n, recv="((n) > %d ? %d : (n))" % (n, n)))
        out.append(io_q(exec_q(["sr", "lr"], [0, 1], "batch", 1000, "16 + 4 * r"), "recv%d" % n, recv="((n) > %d ? %d : (n))" % (n + 2, n + 2)))
    return out


def c13_node():
    out = []
    for i, (ws, cs) in enumerate(((["cr", "r"], [0, 0]), (["sr", "lr"], [0, 1]), (["r", "sr"], [0, 0]))):
        for n in (3, 17):
            out.append(io_q(exec_q(ws, cs, "batch", 1000, "16 + 4 * r"), "send%d" % n, send="((n) > %d ? %d : (n))" % (n, n)))
            out.append(io_q(exec_q(ws, cs, "batch", 1000, "16 + 4 * r"), "block%d" % n, send="(k_sends %% 2 == %d ? -1 : (n) > %d ? %d : (n))" % (i & 1, n + 2, n + 2)))
    return out


PROPERTIES["C12"] = dict(note="", queries=c12_queries() + c12_node())
PROPERTIES["C13"] = dict(note="", queries=c13_queries() + c13_node())


def bad_q(name, w, ev="aagbg", **k):
    d = {"VQ_W": '"%s"' % w, "VQ_EVENTS": '"%s"' % ev, "VQ_ANN": "len", "VQ_OFF": 0, "VQ_ACK": 1, "VQ_PORT": "0x5000", "VQ_ANS_CMD": "EOM", "NSOCK": 4, "INMAX": 160, "OUTMAX": 120, "NEP": 8}
    d.update(k.pop("defs", {}))
    return N("bad_" + name, "node_bad.c", defs=d, scale={"BUF_SIZE": 96, "MAX_CONNS": 3}, witness=False, **k)


def c17_queries():
    out = []
    NA = {"VQ_ANS_LEN": 0}
    # wrong announced sizes
    for i, a in enumerate(("0", "4", "11", "12", "15", "16", "19", "len - 1", "len - 4", "len + 1", "96", "97", "0x7fffffff", "0x80000000u", "0xffffffffu", "0xfffffff4u")):
        out.append(bad_q("size%d" % i, "cre", "aagbgC" if i & 1 else "aagbg", defs=dict(NA, VQ_ANN=a)))
    # no end marker, no or unbalanced replies, codes that are no command, bytes after the end
    for w in ("", "c", "cr", "s", "l", "re", "ce", "p", "pe", "cpre", "xre", "cxe", "zre", "czre", "rrre", "crebbbbb", "bbb", "cb", "cbbb", "sbbb"):
        out.append(bad_q("w_" + w, w, "aagbgSkk" if "s" in w or "l" in w else "aagbg", defs=NA))
    # options cut short by the announced size
    for w, n in (("sre", 20), ("sre", 43), ("lre", 27), ("fre", 20), ("frre", 39), ("mre", 30), ("re", 20), ("fe", 44)):
        out.append(bad_q("opt_%s_%d" % (w, n), w, defs=dict(NA, VQ_ANN=str(n))))
    # forwards without a reply, nested, with impossible sizes, protocols and acknowledgement counts
    for w in ("f", "fe", "fre", "m", "me", "mre", "mmre", "ffre", "ffrre", "mfrre", "fmrre", "frfre", "fce", "ferre"):
        out.append(bad_q("f_" + w, w, "aagbgAg"[:6] if len(w) < 6 else "aagbg", defs=NA))
    for i, v in enumerate(("0", "1", "59", "96", "97", "0x80000000u", "0xffffffffu")):
        out.append(bad_q("pkt%d" % i, "frre", "aagbg", defs=dict(NA, VQ_PKT=v)))
        out.append(bad_q("rsz%d" % i, "cre", "aagbg", defs=dict(NA, VQ_RSZ=v)))
    for i, v in enumerate(("2", "0x80000000u", "0xffffffffu")):
        out.append(bad_q("proto%d" % i, "frre", "aagbg", defs=dict(NA, VH_FWD_PROTO=v)))
    # an end marker alone, which is what a forward target answers, with identifiers of nothing
    for i, v in enumerate(("0", "1", "3", "4", "5", "0x7fffffff", "0x80000000u", "0xffffffffu")):
        out.append(bad_q("ans%d" % i, "e" if i & 1 else "ee", "aagbg", defs=dict(NA, VQ_ID=v)))
        # a forward target answering wrongly
        out.append(bad_q("target%d" % i, "frre", "aagbAg", defs=dict(VQ_ANS_ID=v, VQ_ACK=(0, 1, 2, 255)[i % 4])))
    for i, (ann, cmd, n) in enumerate((("0", "EOM", 16), ("12", "EOM", 12), ("16", "COMPUTE", 16), ("16", "REPLY", 16), ("16", "9", 16), ("0xffffffffu", "EOM", 16), ("15", "EOM", 16), ("24", "EOM", 16), ("16", "EOM", 7))):
        out.append(bad_q("target_msg%d" % i, "frre", "aagbAg", defs=dict(VQ_ANS_ANN=ann, VQ_ANS_CMD=cmd, VQ_ANS_LEN=n)))
    U = dict(NA, VQ_UDP=1, VQ_GOODS=1, VH_PROTO="UDP")
    U["VH_ARGS(p,st)"] = 'p(BIND_ADDR, "x", st)'
    for i, (w, ann, n) in enumerate((("ce", "0", "len"), ("ce", "len + 1", "len"), ("ce", "len - 1", "len"), ("ce", "0xffffffffu", "len"), ("c", "len", "len"), ("xe", "len", "len"), ("ce", "len", "7"), ("ce", "len", "13"),
                                     ("cebbb", "len", "len"), ("ce", "len", "len - 1"), ("se", "30", "len"), ("ce", "24", "20"), ("rbbbbbb", "24", "13"))):
        out.append(bad_q("udp%d" % i, w, "bg", defs=dict(U, VQ_ANN=ann, VQ_CUT=n)))
    for i, v in enumerate(("0x80000000u", "7fffffff")):
        out.append(bad_q("code%d" % i, "czre", "aagbg", defs=dict(NA, VQ_CODE="0x" + v if i else v)))
    # storage operations the file refuses
    for w in ("sre", "lre", "scre"):
        out.append(bad_q("refused_" + w, w, "aagbSkg", defs=dict(NA, **{"VH_FILE_FAIL(op)": "1"})))
    return out


PROPERTIES["C17"] = dict(note="", queries=c17_queries())
PROPERTIES["C17"]["queries"] += [Q("valid_%s_%d_%d" % (f, a, r), "valid.c", env=("exit",), defs=dict({"VQ_LEN": a, "VQ_ROOM": r}, **({"VQ_FIRST": f} if f else {})), unwind=8, hunwind=70, flags=FS, optional=True, witness=False)
                                 for f, a, r in (("", 12, 64), ("", 16, 64), ("", 17, 64), ("", 20, 64), ("", 24, 64), ("", 28, 30), ("", 31, 64), ("", 36, 36),
                                                 ("FORWARD", 56, 64), ("FORWARD", 56, 27), ("MULTI_FORWARD", 56, 28), ("FORWARD", 60, 35), ("MULTI_FORWARD", 64, 40), ("STORE", 44, 64))]


NUM_REN = ("sscanf", "strtol", "strtod", "atof", "atoi", "atol", "strsep")


def spec_q(spec, fn="pd_parse", prob="FIXED", val="NAN", std="NAN", mn="NAN", mx="NAN", reject=False):
    n = "".join(c if c.isalnum() else "_" for c in spec)
    return Q("%s_%s%s" % (fn[3:], n, "_rej" if reject else ""), "spec.c", env=("math", "rand", "exit"), raw_renames=NUM_REN + ("fprintf", "sprintf"),
             defs={"VQ_SPEC": '"%s"' % spec, "VQ_FN": fn, "VQ_PROB": prob, "VQ_VAL": val, "VQ_STD": std, "VQ_MIN": mn, "VQ_MAX": mx, "VQ_REJECT": int(reject)},
             unwind=max(len(spec) + 3, 14), hunwind=max(len(spec) + 3, 14), witness=False)


def c09_queries():
    out = []
    K = {"": "", "k": " * 1000", "K": " * 1000", "m": " * 1000000", "M": " * 1000000", "g": " * 1000000000", "G": " * 1000000000"}
    T = {"s": " * 1000000", "ms": " * 1000", "us": "", "ns": " / 1000"}
    V = lambda d, u="": "dnum[%d]%s" % (d, u)
    for u, f in K.items():
        out.append(spec_q("5" + u, val=V(5, f)))
        out.append(spec_q("5" + u, "pd_parse_bytes", val=V(5, f)))
        for b in "bB":
            out.append(spec_q("5" + u + b, "pd_parse_bytes", val=V(5, f)))
    for u, f in list(T.items()) + [("", ""), ("k", " * 1000"), ("M", " * 1000000")]:
        out.append(spec_q("5" + u, "pd_parse_time", val=V(5, f)))
    for u in T:
        out.append(spec_q("5" + u, reject=True))
        out.append(spec_q("5" + u, "pd_parse_bytes", reject=True))
    out.append(spec_q("-5", val="-dnum[5]"))
    out.append(spec_q("12k", val="12000.0"))
    D = [("unif:min=1,max=2", dict(prob="UNIF", mn=V(1), mx=V(2))),
         ("unif:max=2k,min=1", dict(prob="UNIF", mn=V(1), mx=V(2, " * 1000"))),
         ("unif:min=-1,max=2M", dict(prob="UNIF", mn="-dnum[1]", mx=V(2, " * 1000000"))),
         ("exp:3", dict(prob="EXPON", val=V(3))), ("exp:avg=3k", dict(prob="EXPON", val=V(3, " * 1000"))),
         ("exp:3,min=1,max=2", dict(prob="EXPON", val=V(3), mn=V(1), mx=V(2))), ("exp:max=2,3", dict(prob="EXPON", val=V(3), mx=V(2))),
         ("norm:3,std=4", dict(prob="NORM", val=V(3), std=V(4))), ("norm:avg=3,std=4,min=1", dict(prob="NORM", val=V(3), std=V(4), mn=V(1))),
         ("norm:std=4k,max=2,min=1,avg=3", dict(prob="NORM", val=V(3), std=V(4, " * 1000"), mn=V(1), mx=V(2))),
         ("lognorm:3,std=4,max=2", dict(prob="LOGNORM", val=V(3), std=V(4), mx=V(2))),
         ("gamma:3,std=4", dict(prob="GAMMA", val=V(3), std=V(4))), ("gamma:k=12,scale=10", dict(prob="GAMMA", val="120.0", std="sq * 10.0")),
         ("gamma:scale=2,k=16,max=4", dict(prob="GAMMA", val="16.0 * dnum[2]", std="dnum[2] * 4.0", mx=V(4))),
         ("aseq:min=1,max=2", dict(prob="ARITH_SEQ", val=V(1), std="1.0", mn=V(1), mx=V(2))), ("aseq:min=1,max=2,step=3", dict(prob="ARITH_SEQ", val=V(1), std=V(3), mn=V(1), mx=V(2))),
         ("aseq:4,step=3,max=2", dict(prob="ARITH_SEQ", val=V(4), std=V(3), mx=V(2))), ("aseq:min=1,max=2,step=-12", dict(prob="ARITH_SEQ", val=V(2), std="-12.0", mn=V(1), mx=V(2))),
         ("gseq:min=1,max=2", dict(prob="GEO_SEQ", val=V(1), std="2.0", mn=V(1), mx=V(2))), ("gseq:min=1k,max=2k,step=12", dict(prob="GEO_SEQ", val=V(1, " * 1000"), std="12.0", mn=V(1, " * 1000"), mx=V(2, " * 1000")))]
    for sp, k in D:
        out.append(spec_q(sp, **k))
    for sp, k in (("unif:min=1ms,max=2s", dict(prob="UNIF", mn=V(1, " * 1000"), mx=V(2, " * 1000000"))), ("exp:3us,max=2ms", dict(prob="EXPON", val=V(3), mx=V(2, " * 1000"))),
                  ("norm:avg=3ms,std=4us", dict(prob="NORM", val=V(3, " * 1000"), std=V(4))), ("aseq:min=1s,max=2s,step=3ms", dict(prob="ARITH_SEQ", val=V(1, " * 1000000"), std=V(3, " * 1000"), mn=V(1, " * 1000000"), mx=V(2, " * 1000000")))):
        out.append(spec_q(sp, "pd_parse_time", **k))
    for sp, k in (("unif:min=1kb,max=2kb", dict(prob="UNIF", mn=V(1, " * 1000"), mx=V(2, " * 1000"))), ("norm:3kB,std=4b,max=2MB", dict(prob="NORM", val=V(3, " * 1000"), std=V(4), mx=V(2, " * 1000000")))):
        out.append(spec_q(sp, "pd_parse_bytes", **k))
    # a required field is missing, an unknown field or distribution, a time where no time is meant
    for sp in ("", "foo", "unif", "unif:min=1", "unif:max=2", "exp", "exp:min=1,max=2", "exp:3,std=4", "norm:3", "norm:std=4", "lognorm:3", "lognorm:std=4", "gamma:3", "gamma:k=1", "gamma:scale=2", "aseq:min=1",
               "aseq:step=3", "gseq:min=1", "unif:min=1,max=2,bar=3", "norm:3,std=4,foo", "unif:min=1s,max=2", "exp:3ms", "poisson:3", "unif:min=,max=2", "exp:step=3", "aseq:step=-12,max=2"):
        out.append(spec_q(sp, reject=True))
    return out


PROPERTIES["C09"] = dict(note="", queries=c09_queries())


def smp_q(name, spec, expect, n=3, assume="1", **k):
    d = {"VQ_SPEC": '"%s"' % spec, "VQ_EXPECT": expect, "VQ_N": n, "VQ_ASSUME": assume, "VQ_LINES": "", "VQ_K": 2}
    d.update(k.pop("defs", {}))
    return Q("smp_" + name.replace("-", "m"), "sample.c", env=("math", "rand", "exit"), raw_renames=NUM_REN + ("fprintf", "sprintf", "fopen", "fgets", "fclose")[:2 if "VQ_FILE" not in d else 5], defs=d,
             unwind=max(len(spec) + 3, 18), hunwind=max(len(spec) + 3, 30), witness=False, **k)


def c08_queries():
    out = []
    both, lo, hi = "v >= V(1) && v <= V(2)", "v >= V(1)", "v <= V(2)"
    for sp, e in (("5", "v == V(5)"), ("5k", "v == V(5) * 1000"), ("-5", "v == -V(5)")):
        out.append(smp_q("fixed_" + sp, sp, e))
    out.append(smp_q("unif", "unif:min=1,max=2", both, 1, "V(1) <= V(2)", defs={"VQ_NMIN": -250, "VQ_NMAX": 250}, solver=CAD))
    out.append(smp_q("unif_fine", "unif:min=10,max=40", "v >= 10 && v <= 40", 3, defs={"VQ_XBITS": 30}))
    out.append(smp_q("unif_two", "unif:max=2,min=1", both, 2, "V(1) <= V(2)", defs={"VQ_NMAX": 63}))
    for nm, d, n in (("exp", "exp:20", 2), ("norm", "norm:20,std=10", 32), ("lognorm", "lognorm:20,std=10", 32), ("gamma", "gamma:20,std=10", 4)):
        for sfx, b, e in (("min", ",min=1", lo), ("max", ",max=2", hi), ("both", ",min=1,max=2", both)):
            out.append(smp_q("%s_%s" % (nm, sfx), d + b, e, 1, "V(1) <= V(2)", defs={"VQ_DRAWS": n, "VQ_K": 4, "VQ_XBITS": 2, "VQ_FMAX": 4000 if nm == "exp" else 63, "VQ_NMAX": 1000 if nm == "exp" else 255}, solver=CAD))
    # sequences: start, start + step, ..., then the limit
    seq = lambda st: "v == (V(1) + i * %s <= V(2) ? V(1) + i * %s : V(2))" % (st, st)
    out.append(smp_q("aseq", "aseq:min=1,max=2", seq("1.0"), 4, "V(1) <= V(2)", defs={"VQ_NMAX": 60}, solver=CAD))
    out.append(smp_q("aseq_step", "aseq:min=1,max=2,step=15", seq("15.0"), 3, "V(1) <= V(2)", defs={"VQ_NMAX": 60}, solver=CAD))
    out.append(smp_q("aseq_sym", "aseq:min=1,max=2,step=3", seq("V(3)"), 3, "V(1) <= V(2) && V(3) > 0", defs={"VQ_NMAX": 15}, solver=CAD))
    out.append(smp_q("aseq_from", "aseq:4,step=15,max=2", "v == (V(4) + i * 15.0 <= V(2) ? V(4) + i * 15.0 : V(2))", 3, "V(4) <= V(2)", defs={"VQ_NMAX": 60}, solver=CAD))
    out.append(smp_q("aseq_down", "aseq:min=1,max=2,step=-15", "v == (V(2) - i * 15.0 >= V(1) ? V(2) - i * 15.0 : V(1))", 3, "V(1) <= V(2)", defs={"VQ_NMAX": 60}, solver=CAD))
    geo = lambda st: "v == (i == 0 ? V(1) : prev * %s <= V(2) ? prev * %s : V(2))" % (st, st)
    out.append(smp_q("gseq", "gseq:min=1,max=2", geo("2.0"), 4, "V(1) <= V(2) && V(1) > 0", solver=CAD))
    out.append(smp_q("gseq_step", "gseq:min=1,max=2,step=10", geo("10.0"), 3, "V(1) <= V(2) && V(1) > 0", solver=CAD))
    # files: in order, around and around
    def f(name, spec, lines, expect, n, assume="1", **k):
        d = {"VQ_FILE": 1, "VQ_LINES": "".join('"%s\\n",' % l for l in lines)}
        out.append(smp_q("file_" + name, spec, expect, n, assume, defs=d, **k))
    f("three", "file:x", ["1", "2", "3"], "v == V(1 + i % 3)", 7)
    f("one", "file:x", ["4"], "v == V(4)", 3)
    f("col", "file:x,col=11", [",,,,,,,,,,,1", "a,b,c,d,e,f,g,h,i,j,k,2,3"], "v == V(1 + i % 2)", 5)
    f("col0", "file:x", ["1,7", "2,8", "3,9"], "v == V(1 + i % 3)", 4)
    f("text", "file:x", ["time", "1", "#c", "2"], "v == V(1 + i % 2)", 5)
    f("unit", "file:x,unit=k", ["1", "2"], "v == V(1 + i % 2) * 1000", 4)
    f("min", "file:x,min=4", ["1", "2"], "v >= V(4) && (v == V(1) || v == V(2)) && (V(1) < V(4) || V(2) < V(4) || v == V(1 + i % 2))", 3, "V(1) >= V(4) || V(2) >= V(4)")
    f("many", "file:x", [str(10 + i) for i in range(18)], "v == 10 + i % 18", 20)
    return out


PROPERTIES["C08"] = dict(note="", queries=c08_queries())


def addr_q(text, proto="TCP", bad=False, p0="TCP", plain=False, **defs):
    n = "".join({":": "_", "/": "S", "?": "q", "-": "m"}.get(c, c) for c in text)
    return Q("addr_%s%s%s%s" % (n, "_" + p0 if p0 != "TCP" else "", "_bad" if bad else "", "".join("_" + k for k in defs)), "addr.c", env=("exit",),
             raw_renames=("gethostbyname", "inet_ntoa", "strtol", "atoi", "strchr", "strstr", "strtok_r", "fprintf"),
             defs=dict({"VQ_TEXT": '"%s"' % text, "VQ_PROTO": proto, "VQ_BAD": int(bad), "VQ_PROTO0": p0, "VQ_PLAIN": int(plain)}, **defs),
             unwind=36, hunwind=44, witness=False)


def c22_queries():
    out = []
    for pre, pr in (("", None), ("tcp:", "TCP"), ("udp:", "UDP"), ("tcp://", "TCP"), ("udp://", "UDP")):
        for p0 in ("TCP", "UDP"):
            for host in ("", "H", "HHH", "HHHHHHH"):
                for port in ("", ":9", ":9999", ":99999"):
                    if pre + host + port == "" or len(pre) == 4 and host == "" and port:      # two adjacent colons are refused
                        continue
                    if p0 == "UDP" and (len(host), len(port)) not in ((0, 5), (3, 0), (7, 6)):
                        continue
                    out.append(addr_q(pre + host + port, pr or p0, p0=p0, plain=(pre == "")))
    for pre in ("tcp", "udp"):
        out.append(addr_q(pre, pre.upper()))
        out.append(addr_q(pre, pre.upper(), p0="UDP"))
    for t in ("HHH:?", "HHH:9?", "HHH:?9", ":99?9", "udp:HH:?", "tcp://HH:99?", "tcp://:?", "HHH:-99", "HHH:999999", "::99", "H::99", "tcp::9", "udp::9999", "udp::?", "udp:tcp://:9999", ":9999://:tcp", "udp:HH://:99"):
        out.append(addr_q(t, bad=t != "HHH:999999", plain=True))
    out.append(addr_q("HHHH:99", bad=True, plain=True, VQ_UNKNOWN=1))
    return out


PROPERTIES["C22"] = dict(note="", queries=c22_queries())


def aff_q(text, toks, ncpu=None, maxn=9, steps=3, bad=False):
    n = "".join({",": "_", "-": "m", ":": "s"}.get(c, c) for c in text)
    return Q("aff_%s%s" % (n, "_%d" % ncpu if ncpu else ""), "aff.c", env=("exit",), raw_renames=NUM_REN + ("fprintf",),
             defs={"VQ_TEXT": '"%s"' % text, "VQ_TOK": ",".join("{%d,%d,%d}" % t for t in toks), "VQ_NTOK": len(toks), "VQ_MAXN": maxn, "VQ_STEPS": steps, "VQ_BAD": int(bad),
                   "VQ_NCPU": str(ncpu) if ncpu else "(int)nd_range(1, MAXC)"}, unwind=18, hunwind=20, witness=False)


def c23_queries():
    out = []
    n, r, s = (lambda a: ("%d" % a, (a, -1, -1))), (lambda a, b: ("%d-%d" % (a, b), (a, b, -1))), (lambda a, b, c: ("%d-%d:%d" % (a, b, c), (a, b, c)))
    for l in ([n(1)], [r(1, 2)], [s(1, 2, 3)], [n(1), n(2)], [n(1), r(2, 3)], [r(1, 2), n(3)], [s(1, 2, 3), r(4, 5)], [s(1, 2, 3), n(4)], [r(1, 2), s(3, 4, 5)], [s(1, 2, 3), s(4, 5, 6)],
              [n(1), n(2), n(3)], [s(1, 2, 3), n(4), r(5, 6)]):
        out.append(aff_q(",".join(t for t, _ in l), [k for _, k in l]))
    for t in ("x", "1,x", ""):
        q = aff_q(t or "", [], bad=True)
        q.name = "aff_bad_" + (n(0)[0] if not t else t.replace(",", "_"))
        out.append(q)
    for n in (1, 2, 3):
        for c, l in enumerate(("", "1,2", "auto")):
            out.append(N("pin_%d_%s" % (n, ("none", "list", "auto")[c]), "node_aff.c", defs={"VQ_N": n, "VQ_CORES": c, "VQ_LIST": '"%s"' % l}, scale={"BUF_SIZE": 40, "MAX_CONNS": 1, "MAX_THREADS": n},
                         renames=("sscanf", "strsep", "sched_getaffinity"), witness=False))
    return out


PROPERTIES["C23"] = dict(note="", queries=c23_queries())


CLI_ENV = ("net", "timer", "proc", "exit", "rand", "math")
CLI_REN = NUM_REN + ("close", "perror", "printf", "fprintf", "sprintf", "snprintf", "argp_parse", "argp_failure", "argp_state_help", "addr_parse", "addr_proto_parse", "shutdown", "signal", "srand",
                     "strerror", "inet_ntoa", "fopen", "feof", "fgets", "fclose", "strdup", "strspn")


def CL(name, harness, scale=None, **k):
    """a query running the client's own main() on the model of clientenv.h"""
    sc = {"BUF_SIZE": 256, "MAX_CONNS": 2, "MAX_REQS": 4, "MAX_THREADS": 1, "MAX_PKTS": 4}
    sc.update(scale or {})
    us = {"ts_add": 3, "ts_sub": 3, "strcpy": 32, "strcat": 32, "strlen": 32}
    us.update(k.pop("unwindset", {}))
    k.setdefault("unwind", 18)
    k.setdefault("hunwind", 340)
    k.setdefault("object_bits", 12)
    return Q(name, harness, env=CLI_ENV, raw_renames=CLI_REN + tuple(k.pop("renames", ())), exclude=("address_utils.c",), scale=sc, unwindset=us, flags=FS, **k)


def tmpl_len(w):
    sz = {"C": 8, "S": 28, "N": 28, "L": 20, "F": 28 + 12, "U": 28 + 12, "M": 56 + 12, "T": 84 + 12}
    return 12 + sum(sz.get(c, 0) for c in w) + (8 if not set(w) & set("CSNLFUMTsk") else 0) + 12 + 4


def tmpl_q(name, words, **k):
    return CL("tmpl_" + name, "cli_tmpl.c", scale={"BUF_SIZE": max(88, max(map(tmpl_len, words)))}, defs={"VQ_WORDS": ",".join('"%s"' % w for w in words)}, witness=False, **k)


def c24_queries():
    """every word of up to two options, longer ones around forwards and replies; memory checks for some of them"""
    import itertools
    A = "CSNLolFUMTRrnzBbsk"
    words = [""] + list(A) + ["".join(p) for p in itertools.product("CSNLoFUMTRBsk", "CSLlFMTRnBb")]
    w3 = ["".join(p) for p in itertools.product("FT", "CFRBb", "RBbF")] + ["CFR", "CMB", "RFB", "FRR", "MRB", "sFR", "sMB", "kFR", "kMC", "sCC", "kCL", "oSS", "SoS", "lLl", "oNS"]
    w4 = ["FMRR", "MFRB", "TCBR", "FFRR", "MFRn", "FCRC", "FRFR", "sFCR", "kMRC", "MBMR", "FFFR", "TFRB", "oSlL", "CSLF", "FSRL", "RCRC"]
    words += sorted(set(w3)) + w4
    words.sort(key=tmpl_len)
    out = [tmpl_q("w%02d" % i, words[i:i + 8], checks=()) for i in range(0, len(words), 8)]
    for w in ("", "NoSL", "FMRR", "TCBb", "kMCR", "sUrz"):
        out.append(tmpl_q("mem_" + (w or "none"), [w]))
    for i, ws in enumerate((["C", "oS"], ["FR", "MB"], ["lL", "N"], ["sC", "TRU"])):
        for m in (1, 2):
            q = tmpl_q("script%d_%d" % (m, i), ws, checks=(), unwindset={"strsep": 64, "strdup": 64, "strcmp": 64, "strspn": 64, "strlen": 64, "script_parse": 40})
            q.defs["VH_SCRIPT"], q.flags = m, ("--max-field-sensitivity-array-size", "1100")
            out.append(q)
    return out


PROPERTIES["C24"] = dict(note="", queries=c24_queries())
def run_q(name, np_, ns, replies, nt=1, size="60", want="60", defs=None, **k):
    d = {"VQ_NP": np_, "VQ_NS": ns, "VQ_NT": nt, "VQ_REPLIES": '"%s"' % replies, "VQ_SIZE": '"%s"' % size, "VQ_WANT": want}
    d.update(defs or {})
    k.setdefault("witness", False)
    k.setdefault("hunwind", 70)
    k.setdefault("solver", CAD)
    if np_ * nt * ns > 2:
        d.setdefault("VQ_SPAN", 3)
    return CL(name, "cli_run.c", scale={"BUF_SIZE": 128, "MAX_CONNS": max(nt, 1), "MAX_THREADS": nt, "MAX_PKTS": 6}, defs=d, **k)


NEED = "(inum[6] < 36 ? 36 : inum[6])"


def c25_queries():
    out = []
    for np_, ns, nt in ((1, 1, 1), (2, 1, 1), (3, 1, 1), (4, 1, 1), (2, 2, 1), (3, 2, 1), (3, 3, 1), (2, 1, 2), (2, 2, 2)):
        per = (np_ + ns - 1) // ns
        rep = "/".join("0123"[:per] for _ in range(ns))
        out.append(run_q("send_%d_%d_%d" % (np_, ns, nt), np_, ns, rep, nt=nt, **({} if (np_, ns, nt) == (2, 1, 1) else {"checks": ()})))
        if ns == nt == 1 and np_ < 3:
            out.append(run_q("spin_%d" % np_, np_, ns, rep, defs={"VQ_SPIN": 1, "VQ_SPAN": 3}, checks=()))
    out.append(run_q("size_2", 2, 1, "01", size="6", want=NEED, checks=()))
    out.append(run_q("size_2_2", 2, 2, "0/0", size="6", want=NEED, checks=()))
    out.append(run_q("udp_2", 2, 1, "01", defs={"VQ_UDP": 1}))
    out.append(run_q("udp_2_2", 2, 2, "0/0", defs={"VQ_UDP": 1}, checks=()))
    out.append(run_q("late_2", 2, 1, "01", defs={"VH_LATE": 1}, checks=()))
    out.append(run_q("late_3_2", 3, 2, "01/10", defs={"VH_LATE": 1}, checks=()))
    out.append(run_q("retry_2", 2, 1, "01", defs={"VQ_RETRIES": 1}, checks=()))
    out.append(run_q("retry_2_2", 2, 2, "0/0", defs={"VQ_RETRIES": 2}, checks=()))
    for t0 in (1, 999999, 1999980):
        out.append(run_q("start_%d" % t0, 3, 1, "012", defs={"VQ_T0": t0}, checks=()))
    return out


PROPERTIES["C25"] = dict(note="", queries=c25_queries())


def c26_queries():
    out = []
    for i, r in enumerate(("012", "021", "102", "120", "201", "210")):
        out.append(run_q("order_" + r, 3, 1, r, checks=()))
    for r in ("10", "01"):
        out.append(run_q("mem_order_" + r, 2, 1, r))
        for pc in (1, 7, 13):
            out.append(run_q("piece_%s_%d" % (r, pc), 2, 1, r, defs={"VQ_PIECE": pc}, checks=()))
    for r in ("a1", "0b", "ab", "1a", "b0", "E", "0E", "1E", "R", "0R", "1R", "aE", "bR", "x1", "0x"):
        out.append(run_q("bad_" + r, 2, 1, r, checks=()))
    for r in ("E/01", "0E/10", "R/10", "1R/01", "ab/10", "a1/b0", "10/10", "01/E", "b0/1R"):
        out.append(run_q("sess_" + r.replace("/", "_"), 4, 2, r, checks=()))
        if r in ("E/01", "1R/01", "10/10", "a1/b0"):
            out.append(run_q("pso_" + r.replace("/", "_"), 4, 2, r, defs={"VQ_PSO": 1}, checks=()))
    for r in ("10", "0b", "1E"):
        out.append(run_q("threads_" + r, 2, 1, r, nt=2, checks=()))
        if "E" not in r:
            out.append(run_q("udp_" + r, 2, 1, r, defs={"VQ_UDP": 1}, checks=()))
    for b in (0, 1):
        out.append(run_q("broken_%d" % b, 2, 1, "0E" if b else "E", defs={"VQ_BROKEN": b}, checks=()))
    return out


PROPERTIES["C26"] = dict(note="", queries=c26_queries())

NOTES = {
    "C01": "chosen templates up to 5 commands (list in the query table), every value and space; function level",
    "C02": "every type sequence up to 5 commands and every skip count; function level",
    "C03": "chosen command sequences up to 7, every value and announced size; function level",
    "C04": "capacities 1 to 4, every sequence of up to 8 operations",
    "C05": "operation words on capacities 1 to 4, and an inductive step from every valid heap of up to 8 elements",
    "C06": "full value ranges",
    "C07": "fixed event scripts with up to 3 requests; durations and elapsed times symbolic in part of the queries, fixed in the others",
    "C08": "up to 20 consecutive samples; random draws are multiples of 1/256 or coarser; log, exp and sqrt arbitrary",
    "C09": "specifications of fixed shape with arbitrary numbers",
    "C10": "tables of 1, 2 and 4 entries (3 only without wrap of the identifiers), fixed allocation words up to 6 operations, arbitrary start position and foreign identifier",
    "C11": "1 or 2 slots, fixed words up to 4 operations",
    "C12": "up to 5 messages in buffers up to 160 bytes; one or two cuts anywhere, the other pieces whole",
    "C13": "up to 4 messages in buffers up to 160 bytes; every accepted number of bytes within fixed send words",
    "C14": "fixed event scripts with up to 2 requests and one worker, values symbolic",
    "C15": "fixed event scripts, up to 3 targets and 2 requests; one recorded known finding",
    "C16": "fixed event scripts, up to 2 retries and 2 requests; fixed timeouts, symbolic delays",
    "C17": "chosen malformed messages with arbitrary option bytes and boundary sizes, up to the scaled buffer of 96 bytes",
    "C18": "fixed event scripts with a loss at each stage, up to 3 requests",
    "C19": "up to 3 operations on a file model, symbolic offsets and lengths",
    "C20": "up to 3 operations on a file model, symbolic offsets and lengths",
    "C21": "up to 3 requests from up to 2 workers, fixed event scripts",
    "C22": "addresses of each form with arbitrary characters, hosts up to 7 characters and ports up to 5 digits",
    "C23": "lists of up to 3 entries with arbitrary numbers on machines of up to 8 cores",
    "C24": "chosen option words (mostly up to 4 options) with arbitrary values; also through script files",
    "C25": "up to 4 packets, 3 sessions, 2 threads; delays up to 15 us and periods up to 31 us (3 and 7 us for the larger runs) from fixed starting times",
    "C26": "up to 3 outstanding requests or 2 sessions of 2; fixed reply scripts; delays and periods as for C25",
    "C27": "fixed event scripts with up to 3 requests",
    "C28": "1 to 3 workers, up to 5 connections, run one after the other",
}
for _p, _n in NOTES.items():
    PROPERTIES[_p]["note"] = _n
