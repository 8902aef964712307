/* Several workers in each accept mode: who watches the listening sockets, who serves which connection.
 * Workers run one after the other; VQ_K connections are accepted (by each worker that may accept), then each worker gets the
 * requests of its connections. */
#define NW VQ_N
#define NEP (VQ_N + 1)
#define NTOT (VQ_MODE == 2 ? VQ_K : VQ_K * VQ_N)
#define NSOCK NTOT
#define INMAX 40
#define OUTMAX 16
#define VH_ATOI(s) ((s)[0] - '0')
static char nt_arg[2] = { '0' + VQ_N, 0 };
#define VH_ARGS(parse, st) do { \
    static char *modes[3] = { "child", "shared", "parent" }; \
    parse(opt_key(argp, "num-threads"), nt_arg, st); \
    if (!VQ_DEFAULT) parse(opt_key(argp, "accept-mode"), modes[VQ_MODE], st); } while (0)
#include <string.h>
#include <argp.h>
#include "nodeenv.h"
static uint32_t id[NTOT];
static int owner[NTOT];
static int mine(int w, int x) {              /* x-th connection of worker w */
    int n = 0;
    for (int i = 0; i < NTOT; i++) if (owner[i] == w && n++ == x) return i;
    return -1;
}
static int acceptor(int w) { return VQ_MODE != 2 || w == 0; }
static void vh_script(int w, int step) {
    int lfd = -1, nl = 0, first = acceptor(w) ? VQ_K : 0;
    for (int j = 0; j < NW; j++) if (k_regs[k_cur_ep][FD_LISTEN + j].on) { lfd = FD_LISTEN + j; nl++; }
    PROP(nl == (acceptor(w) ? 1 : 0), "a worker watches a listening socket exactly when it accepts connections in this mode");
    if (nl) {
        PROP(k_listening[lfd - FD_LISTEN] && k_listen_bound[lfd - FD_LISTEN] == NODE_PORT, "the watched socket listens on the configured address");
        if (VQ_MODE == 1) PROP(k_nlis == 1, "there is one listening socket in shared mode");
    }
    if (step < first) {
        k_pending_accept++;
        if (lfd >= 0) ready(lfd, EPOLLIN);
#ifdef VQ_CLOSE
    } else if (step == first && mine(w, 0) >= 0) {   /* one client leaves: the others are not affected */
        k_sock[mine(w, 0)].eof = 1;
        ready(SFD(mine(w, 0)), EPOLLIN);
#endif
    } else {
        int i = mine(w, step - first);
        if (i < 0) terminate();
        else arrive(i, 36);
    }
}
void vh_main(void) {
    for (int i = 0; i < NTOT; i++) {
        owner[i] = VQ_MODE == 2 ? i % VQ_N : i / VQ_K;
        id[i] = nd_u32();
        b_begin(k_sock[i].in, 0, id[i]);
        b_compute(1000); b_reply(16, 1); b_eom();
        b_end(0, 36);
    }
    node_run();
}
static void vh_final(void) {
    int eps[NW];
    PROP(k_nsock == NTOT, "every pending connection has been accepted");
    for (int a = 0; a < NW; a++)
        for (int b = 0; b < a; b++) PROP(k_ep_of[a] != k_ep_of[b], "workers wait on different sets");
    for (int i = 0; i < NTOT; i++) {
        int n = 0, w = -1, gone = 0;
#ifdef VQ_CLOSE
        gone = mine(owner[i], 0) == i;
#endif
        for (int x = 0; x < NW; x++) if (k_regs[k_ep_of[x]][SFD(i)].on) { n++; w = x; }
        if (gone) { PROP(n == 0 && !k_sock[i].open, "a connection that ended is released"); continue; }
        PROP(n == 1, "a connection is watched by exactly one worker");
        PROP(w == owner[i], "a connection is watched by the worker the accept mode designates");
        PROP(k_sock[i].out_len == 16, "the connection's worker answers its request");
        PROP(g_u32(k_sock[i].out, 0) == id[i], "the answer has the identifier of the request");
    }
    REACH("end");
}
