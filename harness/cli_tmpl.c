/* C24: command line options and the request built from them.  A word lists the options:
 *   C computation, S store, N store without sync, L load, o/l store/load offset (for the following ones), F forward,
 *   U forward over UDP, M forward to two targets, T to three with timeout and retries, R reply with size, r reply with
 *   neither, n/B/b reply with nack 1 / size and nack 2 / size and nack 9 (more than there are targets), z nack 0,
 *   s skip one, k skip two with probability.
 * All values are arbitrary: numbers and targets by name.  Every word of VQ_WORDS is followed from the same start. */
#include "clientenv.h"
static const char *words[] = { VQ_WORDS };
#define NWORDS ((int)(sizeof(words) / sizeof(words[0])))
static const char *w;
static char text[8][24];
static double draw[4];
static int ndraw, edraw;
int vs_drand48_r(struct drand48_data *b, double *x) { PROP(ndraw < 4, "one draw for each skip"); *x = draw[ndraw++ & 3]; return 0; }
int vs_srand48_r(long s, struct drand48_data *b) { return 0; }
double vs_log(double x) { return 0; }
double vs_exp(double x) { return 0; }
double vs_sqrt(double x) { return 0; }
double vs_fabs(double x) { return x < 0 ? -x : x; }
long vs_lrint(double x) { return 0; }
/* digit d names the number of the i-th option, target letters follow the position */
static void put(char *t, const char *a, int i) {
    int k = 0;
    for (; a[k]; k++) t[k] = a[k] == '#' ? '4' + i : a[k] == '@' ? 'a' + 3 * i : a[k] == '$' ? 'b' + 3 * i : a[k] == '&' ? 'c' + 3 * i : a[k] == '!' ? 'A' + 3 * i : a[k];
    t[k] = 0;
}
static void vh_args(void) {
    static char ps[] = "20";
    opt("send-pkt-size", ps);
    for (int i = 0; w[i]; i++) {
        char *t = text[i];
        switch (w[i]) {
        case 'C': put(t, "#", i); opt("comp-time", t); break;
        case 'S': put(t, "#", i); opt("store-data", t); break;
        case 'N': put(t, "#,nosync", i); opt("store-data", t); break;
        case 'L': put(t, "#", i); opt("load-data", t); break;
        case 'o': put(t, "#", i); opt("store-offset", t); break;
        case 'l': put(t, "#", i); opt("load-offset", t); break;
        case 'F': put(t, "@", i); opt("forward", t); break;
        case 'U': put(t, "!", i); opt("forward", t); break;
        case 'M': put(t, "@,$", i); opt("forward", t); break;
        case 'T': put(t, "@,timeout=#,$,&,retry=0", i); opt("forward", t); break;
        case 'R': put(t, "#", i); opt("reply", t); break;
        case 'r': put(t, "", i); opt("reply", t); break;
        case 'n': put(t, "nack=01", i); opt("reply", t); break;
        case 'z': put(t, "nack=00", i); opt("reply", t); break;
        case 'B': put(t, "#,nack=02", i); opt("reply", t); break;
        case 'b': put(t, "nack=09,#", i); opt("reply", t); break;
        case 's': put(t, "01", i); opt("skip", t); break;
        case 'k': put(t, "02,prob=#", i); opt("skip", t); break;
        }
    }
}
/* the request as described */
typedef struct { int cmd, opt, tgt, to, udp, sync, nack, n, prob; long val, off; } exp_t;
static exp_t e[24];
static int ne;
static int pos;
static const unsigned char *out;
static void one(int c) {
    exp_t *x = &e[c];
    PROP(o_u32(out + pos) == (uint32_t)x->cmd, "the commands are those described, in the order given");
    switch (x->cmd) {
    case COMPUTE: PROP(o_u32(out + pos + 4) == (uint32_t)x->val, "the computation time is the one given"); pos += 8; break;
    case STORE:
        PROP(o_u64(out + pos + 4) == (uint64_t)x->off, "the offset of a store is the last one given before");
        PROP(o_u64(out + pos + 12) == (uint64_t)x->val, "the size of a store is the one given");
        PROP(out[pos + 20] == x->sync, "a store waits unless told not to");
        pos += 28; break;
    case LOAD:
        PROP(o_u64(out + pos + 4) == (uint64_t)x->off, "the offset of a load is the last one given before");
        PROP(o_u64(out + pos + 12) == (uint64_t)x->val, "the size of a load is the one given");
        pos += 20; break;
    case FORWARD: case MULTI_FORWARD:
        PROP(o_u32(out + pos + 4) == 512, "the size of forwarded requests is the default one");
        PROP(o_u32(out + pos + 8) == k_host[x->tgt], "the host of a forward is the one given");
        PROP((out[pos + 12] | out[pos + 13] << 8) == k_port[x->tgt], "the port of a forward is the one given");
        PROP(o_u32(out + pos + 16) == (uint32_t)x->val, "the timeout of a forward is the one given");
        PROP(out[pos + 20] == (uint8_t)x->n, "the retries of a forward are those given");
        PROP(out[pos + 21] == 1, "a failed forward skips its own group");
        PROP(o_u32(out + pos + 24) == (uint32_t)(x->udp ? UDP : TCP), "the protocol of a forward is the one given");
        pos += 28; break;
    case REPLY:
        PROP(o_u32(out + pos + 4) == (uint32_t)x->val, "the size of a reply is the one given or the default one");
        PROP(out[pos + 8] == x->nack, "the number of acknowledgements is the one given or that of the targets");
        pos += 12; break;
    }
}
static void ref(void) {
    int stk[8], sn = 0;              /* open forwards: number of targets */
    exp_t fin = { .cmd = REPLY, .val = 512, .nack = 1 }, open[8];
    long so = -1, lo = -1;
    open[0] = fin; sn = 1;
    ne = 0;
    for (int i = 0; w[i]; i++) {
        exp_t *x = &e[ne];
        long v = inum[4 + i];
        int tg = 3 * i, nt = 1, nack = 0, size = 0;
        x->tgt = tg; x->val = v; x->udp = 0; x->sync = 1; x->n = 0;
        switch (w[i]) {
        case 'C': x->cmd = COMPUTE; ne++; break;
        case 'S': x->cmd = STORE; x->off = so; ne++; break;
        case 'N': x->cmd = STORE; x->off = so; x->sync = 0; ne++; break;
        case 'L': x->cmd = LOAD; x->off = lo; ne++; break;
        case 'o': so = v; break;
        case 'l': lo = v; break;
        case 'F': case 'U': case 'M': case 'T':
            nt = w[i] == 'T' ? 3 : w[i] == 'M' ? 2 : 1;
            for (int k = 0; k < nt; k++) {
                exp_t *f = &e[ne++];
                f->cmd = nt > 1 ? MULTI_FORWARD : FORWARD;
                f->tgt = tg + k; f->udp = w[i] == 'U'; f->val = w[i] == 'T' ? v : 0; f->n = w[i] == 'T' ? inum[0] : 0;
            }
            open[sn] = fin; open[sn].nack = nt; sn++;
            break;
        case 'R': size = 1; nack = 1; goto rep;
        case 'r': nack = 1; goto rep;
        case 'n': nack = 1; goto rep;
        case 'z': nack = 1; goto rep;
        case 'B': nack = 2; size = 1; goto rep;
        case 'b': nack = 9; size = 1; goto rep;
        rep:
            if (size) open[sn - 1].val = v;
            if (nack < open[sn - 1].nack) open[sn - 1].nack = nack;
            if (sn > 1) { e[ne++] = open[sn - 1]; sn--; }
            break;
        case 's': x->cmd = PSKIP; x->n = 1; x->prob = 0; ne++; break;
        case 'k': x->cmd = PSKIP; x->n = 2; x->prob = 4 + i; ne++; break;
        }
    }
    if (ne == 0) { e[0].cmd = COMPUTE; e[0].val = 1000; ne = 1; }
    while (sn > 0) e[ne++] = open[--sn];
}
/* the commands after skipping n: a forward with everything up to its reply counts as one */
static int past(int c, int n) {
    while (n-- > 0 && c < ne) {
        int depth = 0;
        do {
            if (e[c].cmd == FORWARD) depth++;
            else if (e[c].cmd == MULTI_FORWARD) { depth++; while (e[c + 1].cmd == MULTI_FORWARD) c++; }
            else if (e[c].cmd == REPLY) depth--;
            c++;
        } while (c < ne && depth > 0);
    }
    return c;
}
static void from(int c) {
    while (c < ne && e[c].cmd != PSKIP) one(c++);
    if (c < ne) {
        int skip = draw[edraw++] <= (e[c].prob ? dnum[e[c].prob] : 1.0);
        if (skip) from(past(c + 1, e[c].n));
        else from(c + 1);
        return;
    }
    PROP(o_u32(out + pos) == EOM, "the request ends after its final reply");
    PROP(o_u32(out + 4) == (uint32_t)(pos + 4 < 20 ? 20 : pos + 4), "the request is as long as its commands, at least as given");
}
static void vh_sent(int s, const unsigned char *b, size_t n) {
    ref();
    out = b;
    pos = 12;
    from(0);
    REACH("a request was sent");
    vh_done();
    for (;;) ;
}
static void vh_receive(int s) {}
static void vh_sleep(long us) {}
static void vh_report(long *v) {}
static void vh_final(void) { PROP(0, "a request is sent"); }
static int choice;
static void pick(int k) {
    if (choice == k || k >= NWORDS - 1) {
        w = words[k];
        for (int i = 0; w[i]; i++) if (w[i] == 'k') dnum[4 + i] = inum[4 + i] / 256.0;
        client_run();
    }
    else pick(k + 1);
}
void vh_main(void) {
    for (int i = 0; i < 10; i++) {
        inum[i] = nd_range(16, VH_BUF_SIZE < 200 ? VH_BUF_SIZE : 200);
        dnum[i] = (double)inum[i];
    }
    for (int i = 0; i < 26; i++) { k_host[i] = nd_u32(); k_port[i] = nd_u16(); }
    for (int i = 0; i < 4; i++) draw[i] = nd_range(0, 7) / 8.0;
    choice = nd_range(0, NWORDS - 1);
    pick(0);
}
