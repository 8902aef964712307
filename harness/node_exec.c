/* C14: requests described by command words (c compute, s store, l load, r reply) on one or two connections; the events are a
 * concrete order (a accept, digit = that request arrives, S = the storage thread runs, k = the worker is told of one storage
 * completion); identifiers, sizes and times are arbitrary.  After every event the observable effects (replies, file
 * operations, CPU time spent) are those of a reference interpreter of the words. */
#include "nodeenv.h"
#ifndef VQ_NREQ
#define VQ_NREQ 1
#endif
static const char *word[] = { VQ_W };
static const int on_conn[] = { VQ_C };
static const char *evs = VQ_EVENTS;
static uint32_t id[VQ_NREQ], us[VQ_NREQ], rsz[VQ_NREQ];
static uint16_t port[VQ_NREQ];
static int len[VQ_NREQ], pos[VQ_NREQ], replied[VQ_NREQ];
static int q_req[16], q_kind[16], q_exec, q_ack, q_n;         /* storage operations in order */
static long cpu_min;
static int out_exp[2], order[2][4], nrep[2];
static void run(int r) {
    for (;;) {
        char c = word[r][pos[r]];
        if (c == 0) return;
        pos[r]++;
        if (c == 'c') cpu_min += us[r];
        else if (c == 'r') {
            pos[r] = 0; while (word[r][pos[r]]) pos[r]++;     /* the rest is not executed */
            replied[r] = 1;
            order[on_conn[r]][nrep[on_conn[r]]++] = r;
            out_exp[on_conn[r]] += rsz[r];
            return;
        } else { q_req[q_n] = r; q_kind[q_n] = c; q_n++; return; }
    }
}
static int fops;
static void compare(void) {
    for (int c = 0; c < 2 && c < NSOCK; c++)
        PROP(k_sock[c].out_len == out_exp[c], "each request is answered once, as soon as its commands are done");
    PROP(k_nfop == q_exec, "each store and load is performed once, when its turn has come");
    for (int i = 0; i < q_exec && i < NFOP; i++)
        PROP(k_fop[i].op == (q_kind[i] == 's' ? F_WRITE : F_READ), "storage operations are performed in order");
    PROP(k_cpu >= cpu_min, "the node is busy for the whole compute time");
}
static void vh_script(int w, int step) {
    compare();
    char e = evs[step];
    if (e == 0) { terminate(); return; }
    if (e == 'a') accept_one();
    else if (e == 'S') { storage_turn(); q_exec = q_n; compare(); }
    else if (e == 'k') {
        int fd = ack_ready(0);
        PROP(fd >= 0, "a finished storage operation is reported to the worker");
        if (fd >= 0) ready(fd, EPOLLIN);
        run(q_req[q_ack++]);
    } else {
        int r = e - '0', c = on_conn[r];
#ifdef VQ_UDP
        k_sock[c].dlen[k_sock[c].ndg++] = len[r];
        k_sock[c].src_port = port[r];
#endif
        arrive(c, len[r]);
        run(r);
    }
}
void vh_main(void) {
    int at[2] = { 0, 0 };
    for (int r = 0; r < VQ_NREQ; r++) {
        int c = on_conn[r], s = at[c];
        id[r] = nd_u32(); port[r] = nd_u16();
        us[r] = VQ_US; rsz[r] = VQ_RSZ < 16 ? 16 : VQ_RSZ;
        b_begin(k_sock[c].in, s, id[r]);
        for (int i = 0; word[r][i]; i++) {
            char x = word[r][i];
            if (x == 'c') b_compute(us[r]);
            else if (x == 's') b_store(0, 8, 0);
            else if (x == 'l') b_load(0, 8);
            else b_reply(VQ_RSZ, 1);
        }
        b_eom();
        len[r] = b_pos - s;
        b_end(s, len[r]);
        at[c] = b_pos;
    }
    node_run();
}
static void vh_final(void) {
    compare();
    for (int c = 0; c < 2; c++) {
        int o = 0;
        for (int i = 0; i < nrep[c]; i++) {
            int r = order[c][i];
            PROP(g_u32(k_sock[c].out, o) == id[r], "a reply carries its request's identifier");
            PROP(g_u32(k_sock[c].out, o + 4) == rsz[r], "a reply announces the requested size");
            PROP(k_sock[c].out[o + 8] == 0, "a reply reports success");
            PROP(g_u32(k_sock[c].out, o + 12) == EOM, "a reply carries no commands");
#ifdef VQ_UDP
            if (i == nrep[c] - 1) PROP(k_sock[c].peer_port == port[r], "a reply goes to the address its request came from");
#endif
            o += rsz[r];
        }
    }
    for (int r = 0; r < VQ_NREQ; r++) {
        int wants = 0;
        for (int i = 0; word[r][i]; i++) wants |= word[r][i] == 'r';
        PROP(replied[r] == wants, "harness: the events complete every request");
    }
    REACH("end");
}
