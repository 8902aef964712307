/* Requests with forwards, driven through the node's main loop.
 *
 * Words: c compute, s store, l load, r reply, f forward, m branch of a multi-forward.  The k-th forward of request r goes to
 * target VQ_TGT[r][k] ('A'..), with the timeout/retries/skip given per request; the reply closing a forward group requires
 * VQ_ACK acknowledgements.
 * Events: a accept, digit = that request arrives, A..C = that target answers the last sub-request it got, X..Z = target A..C
 * finishes connecting, S/k storage thread / one completion seen, T = time passes until the node's timer expires, t = some time
 * passes, o = an answer with an arbitrary other identifier arrives from the client of request 0, p = statistics,
 * d/e = the client of request 0/1 disconnects, u..w = target A..C closes its connection, U..W = connecting to A..C fails.
 * x..z = target A..C answers its first sub-request, g/i/j = target A answers its 2nd/3rd/4th one, b = target A answers and the timer
 * expires, reported together, h = the same in the other order.
 * After every event what went out of the node is compared with a reference interpreter of the words. */
#ifndef NSOCK
#define NSOCK 5
#endif
#define VH_CONNECT(s) VQ_CONNECT
#ifndef VQ_CONNECT
#define VQ_CONNECT 0
#endif
#define VH_PRINTF
#include <stdarg.h>
#include "nodeenv.h"
#ifndef VQ_NREQ
#define VQ_NREQ 1
#endif
#ifndef VQ_FOREIGN
#define VQ_FOREIGN 0x7ffffff0u
#endif
#ifndef VQ_PKT
#define VQ_PKT 0
#endif
#ifndef VQ_TO
#define VQ_TO 0
#endif
#ifndef VQ_RETRIES
#define VQ_RETRIES 0
#endif
#ifndef VQ_SKIP
#define VQ_SKIP 1
#endif
#ifndef VQ_ACK
#define VQ_ACK 1
#endif
#ifndef VQ_DT
#define VQ_DT 1
#endif
#ifndef VQ_LOST
#define VQ_LOST 0                            /* connecting fails at once, nothing reaches a target */
#endif
#ifdef VQ_KNOWN
#define P(c, m) KNOWN_PROP(c, VQ_KNOWN, m)
#else
#define P(c, m) PROP(c, m)
#endif
#define NT 3
static const char *word[] = { VQ_W };
static const char *tgt[] = { VQ_TGT };
static const char *evs = VQ_EVENTS;
static uint32_t id[VQ_NREQ], foreign;
static long to[VQ_NREQ];
static int len[VQ_NREQ], off[VQ_NREQ][12], conn[VQ_NREQ];
/* reference state */
enum { IDLE, FWD, STORAGE_WAIT, DONE, GONE };
static int st[VQ_NREQ], pos[VQ_NREQ], need[VQ_NREQ], tries[VQ_NREQ], status[VQ_NREQ], armed[VQ_NREQ];
static long deadline[VQ_NREQ];
static int sent[NT];                         /* sub-requests each target must have got */
static int sent_r[NT][6], sent_i[NT][6];     /* request and forward position of each */
static int replies[NSOCK], rep_r[NSOCK][4], client_gone[NSOCK], accepted[NSOCK];
static int q_req[8], q_n, q_exec, q_ack;
static int nsub(int t);

static int group_end(int r, int i) {         /* index after the group starting at i */
    int d = 0;
    const char *w = word[r];
    if (w[i] == 'r') return i + 1;
    for (;; i++) {
        if (w[i] == 'f' || (w[i] == 'm' && w[i + 1] != 'm')) d++;
        else if (w[i] == 'r') d--;
        if (w[i] == 'm' && w[i + 1] == 'm') continue;
        if (d == 0) return i + 1;
    }
}
static int nth_fwd(int r, int i) { int n = 0; for (int k = 0; k < i; k++) n += (word[r][k] == 'f') | (word[r][k] == 'm'); return n; }
static void run(int r);
static void forward(int r) {
    int i = pos[r];
    for (;; i++) {
        int t = tgt[r][nth_fwd(r, i)] - 'A';
        sent_r[t][sent[t]] = r; sent_i[t][sent[t]] = i;
        if (!VQ_LOST) sent[t]++;
        if (!(word[r][i] == 'm' && word[r][i + 1] == 'm')) break;
    }
    st[r] = FWD;
    if (to[r]) { armed[r] = 1; deadline[r] = k_now + to[r]; }
}
static void run(int r) {
    for (;;) {
        char c = word[r][pos[r]];
        if (c == 'c') pos[r]++;
        else if (c == 'r') {
            int k = conn[r];
            if (!client_gone[k]) rep_r[k][replies[k]++] = r;
            st[r] = DONE;
            return;
        } else if (c == 's' || c == 'l') { st[r] = STORAGE_WAIT; q_req[q_n++] = r; pos[r]++; return; }
        else if (c == 0) { st[r] = DONE; return; }
        else { need[r] = VQ_ACK; tries[r] = VQ_RETRIES; forward(r); return; }
    }
}
static void answered(int r, int i) {         /* a reply to the sub-request of the forward at i */
    if (st[r] != FWD || i < pos[r] || i >= group_end(r, pos[r])) return;
    if (--need[r] == 0) { armed[r] = 0; pos[r] = group_end(r, pos[r]); run(r); }
}
static void expired(int r) {
    armed[r] = 0;
    if (tries[r] > 0) { tries[r]--; forward(r); }
    else if (VQ_SKIP > 0) {
        status[r] = 1;
        int i = pos[r];
        for (int k = 0; k < VQ_SKIP && word[r][i]; k++) i = group_end(r, i);
        pos[r] = i;
        run(r);
    } else st[r] = GONE;
}
static int live(int s) { return k_sock[s].open && !k_sock[s].connecting; }
static int sock_of(int t) {                  /* the open connection to target t, or -1 */
    int s = -1;
    for (int i = 0; i < NSOCK; i++) if (k_sock[i].open && k_sock[i].peer_port == 100 + t) s = i;
    return s;
}
static int req_sub_len(int r, int i) {       /* bytes of the sub-request of the forward (run) at i */
    int j = i;
    while (word[r][j] == 'm' && word[r][j + 1] == 'm') j++;
    int e = group_end(r, i);
    int n = 12 + (off[r][e] - off[r][j + 1]) + 4;
    return n < VQ_PKT ? VQ_PKT : n;
}
static int sub_id[NT];                       /* identifier in the last sub-request seen by each target */
static void compare(void) {
    for (int k = 0; k < NSOCK; k++) {
        int n = 0, client = 0;
        for (int r = 0; r < VQ_NREQ; r++) client |= (conn[r] == k);
        if (!client) continue;
        P(!accepted[k] | client_gone[k] | k_sock[k].open, "a client's connection stays open");
        for (int i = 0; i < replies[k]; i++) n += 16;
        P(client_gone[k] | (k_sock[k].out_len == n), "exactly the requests that are due have been answered");
    }
    for (int t = 0; t < NT; t++) {
        int n = 0, want = 0, id_of_last = -1;
        for (int s = 0; s < NSOCK; s++)
            if (k_sock[s].peer_port == 100 + t) n += k_sock[s].out_len;
        for (int x = 0; x < sent[t]; x++) want += req_sub_len(sent_r[t][x], sent_i[t][x]);
        int s = sock_of(t);
        if (s >= 0 && k_sock[s].connecting) continue;
        P(n == want, "exactly the sub-requests that are due have been sent to each target");
    }
#ifndef VQ_NO_TIMER
    int any = 0;
    long first = 0;
    for (int r = 0; r < VQ_NREQ; r++)
        if (armed[r]) {
            if (!any || deadline[r] < first) first = deadline[r];
            any = 1;
        }
    P(k_armed[0] == any, "the timer is armed exactly when a forward timeout is pending");
    P(!any | (k_deadline[0] == first) | ((first <= k_now) & (k_deadline[0] <= k_now + 1)), "the timer is armed for the earliest pending timeout");
#endif
}
static int stat_conns = -1, stat_reqs = -1;
static int ends(const char *f, int i, const char *w, int n) {
    if (i < n) return 0;
    for (int k = 0; k < n; k++) if (f[i - n + k] != w[k]) return 0;
    return 1;
}
static long lines_conns, lines_reqs;
int vs_printf(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    for (int i = 0; f[i]; i++) {
        if (f[i] != '%') continue;
        int b = i, l = 0;
        for (i++; f[i] != 'd' && f[i] != 's' && f[i] != 'u'; i++) if (f[i] == 'l') l = 1;
        if (f[i] == 's') { va_arg(ap, char *); continue; }
        long v = l ? va_arg(ap, long) : va_arg(ap, int);
        if (ends(f, b, "total-active-conns: ", 20)) stat_conns = v;
        else if (ends(f, b, "total-active-reqs: ", 19)) stat_reqs = v;
        else if (ends(f, b, "active-conns: ", 14)) lines_conns += v;
        else if (ends(f, b, "active-reqs: ", 13)) lines_reqs += v;
    }
    va_end(ap);
    return 0;
}
static void target_first(int t, int x) {     /* answers the x-th sub-request on its (only) connection */
    int s = sock_of(t), o = 0;
    P(s >= 0, "a connection stays open while an answer is awaited on it");
    if (s < 0) return;
    for (int y = 0; y < x; y++) o += req_sub_len(sent_r[t][y], sent_i[t][y]);
    b_answer(k_sock[s].in, k_sock[s].in_len, g_u32(k_sock[s].out, o), 16);
    arrive(s, 16);
    answered(sent_r[t][x], sent_i[t][x]);
}
static void target_answer(int t) {
    int s = sock_of(t);
    P(s >= 0, "a connection stays open while an answer is awaited on it");
    if (s < 0) return;
    int o = 0, r = sent_r[t][sent[t] - 1], i = sent_i[t][sent[t] - 1];
    o = k_sock[s].out_len - req_sub_len(r, i);
    uint32_t nid = g_u32(k_sock[s].out, o);
    b_answer(k_sock[s].in, k_sock[s].in_len, nid, 16);
    arrive(s, 16);
    answered(r, i);
}
static void vh_script(int w, int step) {
    compare();
    char e = evs[step];
    if (e == 0) { terminate(); return; }
    if (e == 'a') { accepted[k_nsock] = 1; accept_one(); }
    else if (e >= '0' && e <= '9') { int r = e - '0'; arrive(conn[r], len[r]); run(r); }
    else if (e >= 'A' && e <= 'C') target_answer(e - 'A');
    else if (e >= 'X' && e <= 'Z') {
        int s = sock_of(e - 'X');
        if (s >= 0) k_sock[s].connecting = 0;
    } else if (e >= 'U' && e <= 'W') {
        int t = e - 'U', s = sock_of(t), n = 0, want = 0;
        for (int i = 0; i < NSOCK; i++) if (k_sock[i].peer_port == 100 + t) n += k_sock[i].out_len;
        for (int x = 0; x < sent[t]; x++) want += req_sub_len(sent_r[t][x], sent_i[t][x]);
        while (want > n) { sent[t]--; want -= req_sub_len(sent_r[t][sent[t]], sent_i[t][sent[t]]); }   /* never sent */
        if (s >= 0) { k_sock[s].so_error = ECONNREFUSED; ready(SFD(s), EPOLLOUT | EPOLLERR | EPOLLHUP); }
    } else if (e >= 'u' && e <= 'w') {
        int t = e - 'u', s = sock_of(t);
        if (s >= 0) { k_sock[s].eof = 1; ready(SFD(s), EPOLLIN); }
    } else if (e == 'S') { storage_turn(); q_exec = q_n; compare(); }
    else if (e == 'k') {
        int fd = ack_ready(0), r = q_req[q_ack++];
        P(fd >= 0, "a finished storage operation is reported to the worker");
        if (fd >= 0) ready(fd, EPOLLIN);
        if (st[r] == STORAGE_WAIT) run(r);
    } else if (e == 'T') {
        int x = -1;
        for (int r = 0; r < VQ_NREQ; r++) if (armed[r] && (x < 0 || deadline[r] < deadline[x])) x = r;
        P(x >= 0, "harness: a timeout is pending");
        k_now = deadline[x];
        ready(FD_TIMER, EPOLLIN);
        expired(x);
    } else if (e == 't') {
        long dt = VQ_DT;
        for (int r = 0; r < VQ_NREQ; r++) ASSUME(!armed[r] | (k_now + dt < deadline[r]));
        k_now += dt;
    } else if (e == 'b' || e == 'h') {       /* the timer of request 0 expires and target A answers, reported together */
        int s = sock_of(0);
        k_now = deadline[0];
        if (e == 'h') { ready(FD_TIMER, EPOLLIN); expired(0); }
        target_answer(0);
        if (e == 'b') ready(FD_TIMER, EPOLLIN);
    } else if (e >= 'x' && e <= 'z') target_first(e - 'x', 0);
    else if (e == 'g' || e == 'i' || e == 'j') target_first(0, e == 'g' ? 1 : e - 'g');
    else if (e == 'o') {
        b_answer(k_sock[0].in, k_sock[0].in_len, foreign, 16);
        arrive(0, 16);
    } else if (e == 'd' || e == 'e') {
        int k = conn[e - 'd'];
        client_gone[k] = 1;
        for (int r = 0; r < VQ_NREQ; r++)
            if (conn[r] == k && st[r] != IDLE && st[r] != DONE) { st[r] = GONE; armed[r] = 0; }
        k_sock[k].eof = 1;
        ready(SFD(k), EPOLLIN);
    } else if (e == 'p') ready(FD_STAT, EPOLLIN);
#ifdef VQ_CUSTOM
    else VQ_CUSTOM(e);
#endif
}
void vh_main(void) {
    int at[NSOCK];
    for (int i = 0; i < NSOCK; i++) at[i] = 0;
    static const int c_of[] = { VQ_C };
    for (int r = 0; r < VQ_NREQ; r++) {
        int s = at[c_of[r]];
        conn[r] = c_of[r];
        id[r] = nd_u32();
        to[r] = VQ_TO;
        b_begin(k_sock[conn[r]].in, s, id[r]);
        int depth = 0;
        for (int i = 0; word[r][i]; i++) {
            char x = word[r][i];
            off[r][i] = b_pos - s;
            if (x == 'c') b_compute(1000);
            else if (x == 's') b_store(0, 8, 0);
            else if (x == 'l') b_load(0, 8);
            else if (x == 'r') { b_reply(16, depth > 0 ? VQ_ACK : 1); depth--; }
            else {
                if (!(x == 'm' && i > 0 && word[r][i - 1] == 'm')) depth++;
                b_fwd(x == 'f' ? FORWARD : MULTI_FORWARD, 100 + tgt[r][nth_fwd(r, i)] - 'A', VQ_PKT, to[r], VQ_RETRIES, VQ_SKIP);
            }
            off[r][i + 1] = b_pos - s;
        }
        b_eom();
        PROP(b_pos <= INMAX, "harness: input fits");
        len[r] = b_pos - s;
        b_end(s, len[r]);
        at[conn[r]] = b_pos;
    }
    foreign = VQ_FOREIGN;                    /* not the identifier of a pending forward of this scenario */
    node_run();
}
static void vh_final(void) {
    compare();
    for (int k = 0; k < NSOCK; k++)
        for (int i = 0; i < replies[k]; i++) {
            int r = rep_r[k][i], o = 16 * i;
            if (client_gone[k]) continue;
            P(g_u32(k_sock[k].out, o) == id[r], "a reply carries its request's identifier");
            P(g_u32(k_sock[k].out, o + 4) == 16, "a reply announces the requested size");
            P((k_sock[k].out[o + 8] != 0) == (status[r] != 0), "a reply reports an error exactly when a forward failed");
        }
    for (int t = 0; t < NT; t++) {           /* contents of the sub-requests */
        int x = 0;
        for (int s = 0; s < NSOCK; s++) {
            if (k_sock[s].peer_port != 100 + t) continue;
            for (int o = 0; o < k_sock[s].out_len && x < sent[t]; x++) {
                int r = sent_r[t][x], i = sent_i[t][x], j = i;
                while (word[r][j] == 'm' && word[r][j + 1] == 'm') j++;
                int n = req_sub_len(r, i), from = off[r][j + 1], m = off[r][group_end(r, i)] - from;
                unsigned diff = 0;
                P(g_u32(k_sock[s].out, o + 4) == (uint32_t)n, "a sub-request announces the configured size, and at least what its commands need");
                P(k_sock[s].out[o + 8] == 0, "a sub-request starts with success status");
                int base = 0;
                for (int y = 0; y < r; y++) if (conn[y] == conn[r]) base += len[y];
                for (int b = 0; b < m; b++) diff |= k_sock[s].out[o + 12 + b] ^ k_sock[conn[r]].in[base + from + b];
                P(diff == 0, "a sub-request carries exactly the commands up to the matching reply");
                P(g_u32(k_sock[s].out, o + 12 + m) == EOM, "a sub-request ends there");
                o += n;
            }
        }
    }
#ifdef VQ_STATS
    int conns = 0, reqs = 0;
    for (int s = 0; s < NSOCK; s++) conns += live(s);
    for (int r = 0; r < VQ_NREQ; r++) reqs += (st[r] == FWD) | (st[r] == STORAGE_WAIT);
    P(stat_conns == conns, "the reported number of connections is the number of established connections");
    P((lines_conns == conns) & (lines_reqs == reqs), "the per-worker figures add up to the totals");
    P(stat_reqs == reqs, "the reported number of requests is the number of requests in progress");
#endif
    REACH("end");
}
