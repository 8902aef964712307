/* Store and load commands, executed by the node's storage thread on a modelled file.
 * VQ_OPS: one letter per request: s store, S store with synchronisation, l load at a given offset; q, Q, k the same at the
 * sequential offset.  Each request is  <op> reply.  All requests arrive, the storage thread runs, the worker sees the completions. */
#ifndef VQ_ODIRECT
#define VQ_ODIRECT 0
#endif
#ifndef VQ_OFF
#define VQ_OFF nd_u64_range(0, (uint64_t)1 << 40)
#endif
#ifndef VQ_LEN
#define VQ_LEN nd_range(0, 160)
#endif
#ifndef VQ_MAX
#define VQ_MAX 400
#endif
#ifndef VQ_PARTIAL
#define VQ_PARTIAL 0
#endif
static int k_partials;
#define VH_FILE_CHUNK(op, len) vh_chunk(len)
#define VH_ATOI(s) VQ_MAX
#define VH_ARGS(parse, st) do { parse(opt_key(argp, "max-storage-size"), "1", st); if (VQ_ODIRECT) parse(opt_key(argp, "odirect"), "", st); } while (0)
#define VH_FLOG(op, off, len) file_op(op, off, len)
#define VH_PIPE_HOOK(p, buf, len) pipe_write(p, len)
#include <stdint.h>
#include <stddef.h>
#include <argp.h>
static uint64_t vh_chunk(uint64_t len);
static void file_op(int op, uint64_t off, uint64_t len);
static void pipe_write(int p, uint64_t len);
#include "nodeenv.h"
#define NOPS (sizeof(VQ_OPS) - 1)
static const char *ops = VQ_OPS;
static uint32_t id[NOPS];
static uint64_t off[NOPS], len[NOPS], start[NOPS], total[NOPS];
static struct { int started, bad, wrote, read, synced, acks; uint64_t first, next, total, ack_total, fsize; int ack_sync; } acc[NOPS + 1];
static int is_store(char c) { return c == 's' || c == 'S' || c == 'q' || c == 'Q'; }
static int is_seq(char c) { return c == 'q' || c == 'Q' || c == 'k'; }
static int is_sync(char c) { return c == 'S' || c == 'Q'; }
static uint64_t nd_u64_range(uint64_t a, uint64_t b) { uint64_t x = nd_u64(); ASSUME(x >= a && x <= b); return x; }
static uint64_t vh_chunk(uint64_t n) {
    if (k_partials < VQ_PARTIAL && n > 1) {
        k_partials++;
        uint64_t c = nd_u64();
        ASSUME(c >= 1 && c <= n);
        return c;
    }
    return n;
}
static int cur(void) { int x = k_sstep - 1; return x >= 0 && x < (int)NOPS ? x : (int)NOPS; }
static void file_op(int op, uint64_t o, uint64_t n) {
    int x = cur();
    if (op == F_SYNC) { acc[x].synced = 1; return; }
    if (op == F_WRITE) { acc[x].wrote = 1; acc[x].synced = 0; }
    else { acc[x].read = 1; acc[x].fsize = k_fsize; if (n == 0) return; }
    int wrap = (op == F_READ) & (o == 0) & (acc[x].next >= k_fsize);
    acc[x].bad |= acc[x].started & (o != acc[x].next) & !wrap;
    acc[x].first = acc[x].started ? acc[x].first : o;
    acc[x].started = 1;
    acc[x].next = o + n;
    acc[x].total += n;
}
static void pipe_write(int p, uint64_t n) {
    if (!k_in_storage) return;
    int x = cur();
    acc[x].acks++;
    acc[x].ack_total = acc[x].total;
    acc[x].ack_sync = acc[x].synced;
}
static uint64_t round_up(uint64_t n) { return VQ_ODIRECT ? (n + VH_BLK - 1) & ~(uint64_t)(VH_BLK - 1) : n; }
static void vh_script(int w, int step) {
    if (step == 0) accept_one();
    else if (step <= (int)NOPS) arrive(0, is_store(ops[step - 1]) ? 56 : 48);
    else if (step == (int)NOPS + 1) {
        storage_turn();
        uint64_t pos = 0, eof = 0;
        for (int i = 0; i < (int)NOPS; i++) {
            uint64_t n = round_up(len[i]), o = round_up(off[i]);
            if (is_seq(ops[i])) {
                if (is_store(ops[i])) start[i] = pos + n > VQ_MAX ? 0 : pos;
                else start[i] = pos + n > eof ? 0 : pos;
            } else start[i] = o;
            total[i] = n;
            PROP(!acc[i].bad, "a storage operation accesses one contiguous range");
            if (is_store(ops[i])) {
                PROP(acc[i].read == 0, "a store does not read");
                PROP(acc[i].total == n, "a store writes exactly the requested number of bytes");
                PROP((n == 0) | (acc[i].first == start[i]), "a store starts at the right place");
                PROP(!is_sync(ops[i]) | acc[i].ack_sync, "a store that asked for it is flushed before it is acknowledged");
            } else {
                PROP(acc[i].wrote == 0, "a load does not write");
                PROP((n == 0) | acc[i].read, "a load reads");
                PROP((acc[i].fsize == 0) | (acc[i].total == n), "a load reads exactly the requested number of bytes");
                PROP((n == 0) | (acc[i].fsize == 0) | (acc[i].first == (start[i] < acc[i].fsize ? start[i] : 0)), "a load starts at the right place");
            }
            PROP(acc[i].acks == 1, "each storage operation is acknowledged once");
            PROP(acc[i].ack_total == acc[i].total, "a storage operation is acknowledged after its effect");
            if (i + 1 < (int)NOPS && !is_store(ops[i]))   /* where the position is after a load that wrapped is not specified */
                ASSUME((n == 0) | (start[i] + n <= acc[i].fsize));
            pos = start[i] + n;
            if (is_store(ops[i]) && pos > eof) eof = pos > VQ_MAX ? VQ_MAX : pos;
        }
        int fd = ack_ready(0);
        PROP(fd >= 0, "a finished storage operation is reported to the worker");
        if (fd >= 0) ready(fd, EPOLLIN);
    } else if (step <= 2 * (int)NOPS) {
        int fd = ack_ready(0);
        PROP(fd >= 0, "a finished storage operation is reported to the worker");
        if (fd >= 0) ready(fd, EPOLLIN);
    } else terminate();
}
void vh_main(void) {
    int s = 0;
    for (int i = 0; i < (int)NOPS; i++) {
        id[i] = nd_u32();
        off[i] = is_seq(ops[i]) ? (uint64_t)-1 : VQ_OFF;
        len[i] = VQ_LEN;
        b_begin(k_sock[0].in, s, id[i]);
        if (is_store(ops[i])) b_store(off[i], len[i], is_sync(ops[i])); else b_load(off[i], len[i]);
        b_reply(16, 1);
        b_eom();
        b_end(s, b_pos - s);
        s = b_pos;
    }
    node_run();
}
static void vh_final(void) {
    PROP(k_sock[0].out_len == 16 * (int)NOPS, "each request is answered once");
    for (int i = 0; i < (int)NOPS; i++)
        PROP(g_u32(k_sock[0].out, 16 * i) == id[i], "completions reach the requests they belong to");
    REACH("end");
}
