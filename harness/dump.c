/* C01: encoding a request template.  Templates are concrete command words (tmpl.h); all sampled values, options and the
 * announced space are arbitrary. */
#include "vh.h"
#include "message.h"
#include "ccmd.h"
#include "tmpl.h"
#define NMAX 6
#define BUFSZ (sizeof(message_t) + NMAX * 28 + 4 + 8)
static unsigned char ub[BUFSZ] __attribute__((aligned(8)));
static uint32_t v1[NMAX], v2[NMAX];
static fwd_opts_t fo[NMAX];
static uint8_t sync_[NMAX], nack[NMAX];
static double draw;
int vs_drand48_r(struct drand48_data *b, double *x) { *x = draw; return 0; }
int vs_srand48_r(long s, struct drand48_data *b) { return 0; }
void vs_exit(int c) { PROP(0, "encoding a valid template does not end the program"); vh_done(); }
void vs_abort(void) { PROP(0, "encoding a valid template does not abort"); vh_done(); }
#ifdef VQ_P1
#define DRAWN_P 1.0
#define DRAWN_X 0.99951171875
#else
#define DRAWN_P 0.5
#define DRAWN_X 0.5
#endif
static void one(const char *w) {
    ccmd_t *q;
    ccmd_init(&q);
    draw = DRAWN_X;
    for (int i = 0; w[i]; i++) {
        int t = w_type(w[i]);
        pd_spec_t p = pd_build_fixed(v1[i]);
        if (t == PSKIP) p.val = w[i] <= '9' ? DRAWN_P : 0.25;
        ccmd_node_t *n = ccmd_add(q, t, &p);
        n->pd_val2 = pd_build_fixed(v2[i]);
        if (t == PSKIP) n->n_skip = w[i] <= '9' ? w[i] - '0' : w[i] - 'A' + 1;
        if (t == STORE) n->store.wait_sync = sync_[i];
        if (t == REPLY) n->resp.n_ack = nack[i];
        if (t == FORWARD || t == MULTI_FORWARD) n->fwd = fo[i];
    }
    int need = sizeof(message_t) + 4;
    for (int i = 0; w[i]; )
        if (w_type(w[i]) == PSKIP) i = w[i] <= '9' ? w_skip(w, i + 1, w[i] - '0') : i + 1;
        else need += w_size(w_type(w[i++]));
    uint32_t space = nd_range(0, need + 4);
    for (int i = 0; i < need + 8; i++) ub[i] = 0xa5;
    message_t *m = (message_t *)ub;
    m->req_id = 7;
    m->req_size = space;
    int rv = ccmd_dump(q, m);
    int ok = rv > 0;
    PROP(ok == (space >= need), "encoding succeeds exactly when header, commands and end marker fit");
    for (int i = sizeof(message_t); i < need + 8; i++)
        PROP((i < (int)space) | (ub[i] == 0xa5), "nothing is written beyond the announced space");
    if (!ok) { ccmd_destroy(&q); return; }
    int o = sizeof(message_t);
    for (int i = 0; w[i]; ) {
        int t = w_type(w[i]);
        if (t == PSKIP) {
            i = w[i] <= '9' ? w_skip(w, i + 1, w[i] - '0') : i + 1;
            continue;
        }
        command_t *c = (command_t *)(ub + o);
        PROP(c->cmd == t, "commands are written in template order");
        if (t == COMPUTE)
            PROP(cmd_get_opts(comp_opts_t, c)->comp_time_us == v1[i], "compute carries its sampled time");
        else if (t == STORE)
            PROP((cmd_get_opts(store_opts_t, c)->store_nbytes == v1[i]) & (cmd_get_opts(store_opts_t, c)->offset == v2[i])
                 & (cmd_get_opts(store_opts_t, c)->wait_sync == sync_[i]), "store carries its size, offset and sync flag");
        else if (t == LOAD)
            PROP((cmd_get_opts(load_opts_t, c)->load_nbytes == v1[i]) & (cmd_get_opts(load_opts_t, c)->offset == v2[i]),
                 "load carries its size and offset");
        else if (t == REPLY)
            PROP((cmd_get_opts(reply_opts_t, c)->resp_size == v1[i]) & (cmd_get_opts(reply_opts_t, c)->n_ack == nack[i]),
                 "reply carries its size and acknowledgement count");
        else {
            fwd_opts_t *f = cmd_get_opts(fwd_opts_t, c);
            PROP((f->pkt_size == v1[i]) & (f->fwd_host == fo[i].fwd_host) & (f->fwd_port == fo[i].fwd_port)
                 & (f->timeout == fo[i].timeout) & (f->retries == fo[i].retries) & (f->on_fail_skip == fo[i].on_fail_skip)
                 & (f->proto == fo[i].proto), "forward carries its options and sampled packet size");
        }
        o += w_size(t);
        i++;
    }
    PROP(((command_t *)(ub + o))->cmd == EOM, "the commands are followed by an end marker");
    ccmd_destroy(&q);
}
void vh_main(void) {
    static const char *words[] = { VQ_WORDS };
    for (int i = 0; i < NMAX; i++) {
        v1[i] = nd_range(0, VQ_VMAX); v2[i] = nd_range(0, VQ_VMAX);
        sync_[i] = nd_u8(); nack[i] = nd_u8();
        fo[i].fwd_host = nd_u32(); fo[i].fwd_port = nd_u16(); fo[i].timeout = nd_u32(); fo[i].retries = nd_u8();
        fo[i].on_fail_skip = nd_u8(); fo[i].proto = nd_bool() ? TCP : UDP; fo[i].pkt_size = nd_u32();
    }
    for (int i = 0; i < sizeof(words) / sizeof(words[0]); i++)
        one(words[i]);
    REACH("end");
}
