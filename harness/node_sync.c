/* Acknowledgements of storage operations: several workers, periodic synchronisation.
 * VQ_OPS: one letter per request (s store, S store with synchronisation, l load), VQ_WK: its worker.
 * Events of a worker (VQ_EV0, VQ_EV1): a accept, digit = that request arrives, W = the other worker runs, S = a turn of the storage
 * thread, k = one acknowledgement is seen.  Events of the storage thread (VQ_SEV): digit = the next command of that worker is
 * there, T = its timer expires, . = end of the turn. */
#define NW VQ_N
#define NEP (VQ_N + 4)
#define NTIM (VQ_N + 4)
#define NSOCK VQ_N
#ifndef VQ_SYNC
#define VQ_SYNC 0
#endif
#define VH_ATOI(s) ((s)[0] == 't' ? VQ_N : (s)[0] == 'p' ? VQ_SYNC : 100000)
#define VH_ARGS(parse, st) do { parse(opt_key(argp, "num-threads"), "t", st); if (VQ_SYNC) parse(opt_key(argp, "sync"), "p", st); } while (0)
#define VH_FLOG(op, off, len) file_op(op, off, len)
#define VH_PIPE_HOOK(p, buf, len) pipe_write(p, len)
#define VH_STORAGE(step) storage_event()
#include <stdint.h>
#include <stddef.h>
#include <argp.h>
static void file_op(int op, uint64_t off, uint64_t len);
static void pipe_write(int p, uint64_t len);
static int storage_event(void);
#include "nodeenv.h"
#define NOPS (int)(sizeof(VQ_OPS) - 1)
static const char *ops = VQ_OPS, *wk = VQ_WK, *sev = VQ_SEV;
static const char *ev[2] = { VQ_EV0, VQ_EV1 };
static uint32_t id[NOPS];
static int rlen[NOPS], rlast[2] = { 0, 0 };
static int cmd_pipe[2] = { -1, -1 };         /* the pipe each worker writes its commands to */
static int fifo[2][NOPS], nfifo[2], done[2]; /* reference: commands issued by each worker, executed so far */
static int waiting[NOPS], exec_n[NOPS], bytes[NOPS];
static int acked[2], group[NOPS], ngroup;    /* acknowledgements due to each worker */
static int seen[2], order[2][NOPS];
static int spos, cur = -1, in_tick, flushed, acks[2], flushes;
static int reply_owner(int p) {              /* the worker that watches pipe p */
    for (int w = 0; w < NW; w++) if (k_regs[k_ep_of[w]][FD_PIPE + 2 * p].on) return w;
    return -1;
}
static void file_op(int op, uint64_t off, uint64_t len) {
    if (op == F_SYNC) { flushed = 1; flushes++; }
    else if (cur >= 0) { bytes[cur] += len; flushed = 0; }
}
static void pipe_write(int p, uint64_t n) {
    if (!k_in_storage) { cmd_pipe[k_thread] = p; return; }
    int w = reply_owner(p);
    PROP(w >= 0, "an acknowledgement goes to a pipe a worker watches");
    if (w < 0) return;
    acks[w]++;
    if (in_tick) PROP(flushed, "delayed acknowledgements follow the flush");
    else if (cur >= 0) {
        PROP(bytes[cur] == 8, "an acknowledgement follows the operation");
        PROP(w == wk[cur] - '0', "an acknowledgement goes to the worker that issued the operation");
        PROP((ops[cur] != 'S') | flushed, "a store that asked for it is flushed before it is acknowledged");
    }
}
static void storage_compare(void) {
    for (int w = 0; w < NW; w++) PROP(acks[w] == acked[w], "exactly the operations that are due have been acknowledged, each once");
}
static int storage_event(void) {
    if (spos > 0 && sev[spos - 1] == 'T') PROP(flushed, "the timer causes a flush");
    storage_compare();
    char e = sev[spos++];
    cur = -1; in_tick = 0;
    if (e == 'T') {
        int t = k_ntim - 1;
        PROP(k_armed[t], "the synchronisation timer is armed");
        PROP(k_deadline[t] == k_now + (long)VQ_SYNC * 1000, "the synchronisation timer has the configured period");
        k_now = k_deadline[t];
        in_tick = 1; flushed = 0;
        for (int r = 0; r < NOPS; r++) if (waiting[r]) { waiting[r] = 0; group[r] = ngroup; acked[wk[r] - '0']++; }
        ngroup++;
        return FD_TIMER + t;
    }
    if (e == '.' || e == 0) { if (e == 0) spos--; return FD_TERM; }
    int w = e - '0', r = fifo[w][done[w]++];
    cur = r; flushed = 0;
    if (ops[r] == 'S' && VQ_SYNC) waiting[r] = 1;
    else { group[r] = ngroup++; acked[w]++; }
    return FD_PIPE + 2 * cmd_pipe[w];
}
static void vh_script(int w, int step) {
    for (int x = 0; x < NW; x++) PROP(k_sock[x].out_len == 16 * seen[x], "a request is answered exactly when its operation is acknowledged");
    char e = ev[w][step];
    if (e == 0) terminate();
    else if (e == 'a') accept_one();
    else if (e == 'W') worker_turn(1 - w);
    else if (e == 'S') { storage_turn(); cur = -1; }
    else if (e == 'k') {
        int fd = ack_ready(k_cur_ep);
        PROP(fd >= 0, "an acknowledged operation is reported to its worker");
        if (fd >= 0) ready(fd, EPOLLIN);
        seen[w]++;
    } else { int r = e - '0'; arrive(w, rlen[r]); fifo[w][nfifo[w]++] = r; }
}
void vh_main(void) {
    int at[2] = { 0, 0 };
    for (int r = 0; r < NOPS; r++) {
        int w = wk[r] - '0', s = at[w];
        id[r] = nd_u32();
        for (int q = 0; q < r; q++) ASSUME(id[r] != id[q]);
        b_begin(k_sock[w].in, s, id[r]);
        if (ops[r] == 'l') b_load(0, 8); else b_store(0, 8, ops[r] == 'S');
        b_reply(16, 1); b_eom();
        rlen[r] = b_pos - s;
        b_end(s, rlen[r]);
        at[w] = b_pos;
    }
    node_run();
}
static void vh_final(void) {
    for (int w = 0; w < NW; w++) {
        PROP(k_sock[w].out_len == 16 * seen[w], "a request is answered exactly when its operation is acknowledged");
        for (int r = 0; r < NOPS; r++) {
            if (wk[r] - '0' != w || waiting[r] || seen[w] < acked[w]) continue;
            int n = 0, lo = 0, hi = 0, p = -1;
            for (int i = 0; i < seen[w]; i++) if (g_u32(k_sock[w].out, 16 * i) == id[r]) { n++; p = i; }
            PROP(n == 1, "each request is answered once, by its own worker");
            for (int q = 0; q < NOPS; q++) if (wk[q] == wk[r] && !waiting[q]) { lo += group[q] < group[r]; hi += group[q] <= group[r]; }
            PROP((p >= lo) & (p < hi), "acknowledgements come in the order of the effects");
        }
    }
    REACH("end");
}
