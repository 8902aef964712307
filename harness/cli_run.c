/* C25, C26: the client sends its requests and reports the response times.
 *   VQ_NP, VQ_NS, VQ_NT   packets, sessions, threads given on the command line; VQ_PSO: report after each session
 *   VQ_SIZE               size of the requests as given (symbolic number 6 by default), VQ_SPIN wait spinning
 *   VQ_REPLIES            what each session receives, sessions separated by '/': digit k = reply to its k-th request,
 *                         letter a.. = failed reply to its 0th, 1st.. request, x = reply to a request of nobody,
 *                         E = end of the connection, R = connection reset; after that: end of the connection
 *   VQ_PIECE              largest number of bytes received at once
 * The clock, the period and the time each operation takes are arbitrary. */
#define PER ((VQ_NP + VQ_NS - 1) / VQ_NS)
#define TOT (PER * VQ_NS)
#define VH_THREADS VQ_NT
#ifndef VQ_PIECE
#define VQ_PIECE INMAX
#endif
#ifndef VQ_SPIN
#define VQ_SPIN 0
#endif
#ifndef VQ_PSO
#define VQ_PSO 0
#endif
#ifndef VQ_UDP
#define VQ_UDP 0
#endif
#ifndef VQ_PERIOD
#define VQ_PERIOD "5"
#endif
#ifndef VQ_PERIOD_US
#define VQ_PERIOD_US inum[5]
#endif
#ifndef VQ_BROKEN
#define VQ_BROKEN 99         /* the request whose sending fails (in each session) */
#endif
#ifndef VQ_RETRIES
#define VQ_RETRIES 0         /* connection attempts that fail first */
#endif
#define NSESS (VQ_NS * VQ_NT)
#define NCONN (NSESS + VQ_RETRIES)
#define VH_SEND(s, n) ((n) == VQ_BROKEN ? EPIPE : 0)
#define VH_CONNECT(n) ((n) < VQ_RETRIES ? ECONNREFUSED : 0)
#define INMAX 20
#define VH_CHUNK(s, len) ((len) < VQ_PIECE ? (len) : VQ_PIECE)
#ifndef VQ_SPAN
#define VQ_SPAN 15           /* largest time an operation takes; periods are up to twice that */
#endif
#if VQ_SPIN
static void spin(void);
#define VH_CLOCK() spin()
#endif
#include "clientenv.h"
#if VQ_SPIN
/* a spinning sender reads the clock again and again: time passes between the readings */
static int nread = 9;         /* not before the first request (one session) */
static void spin(void) {
    if (!k_in_sender) return;
    nread++;
    if (nread == 1) k_now += nd_range(0, VQ_SPAN);
    if (nread == 2) k_now += nd_range(0, 4 * VQ_SPAN);
    if (nread == 3) k_now += 2 * PER * (2 * VQ_SPAN + 1);
}
#endif
static long t0, sent_at[NSESS][PER], recv_at[NSESS][PER], begin[NSESS];
static int nsent[NSESS], ok[NSESS][PER], lost[NSESS], reported[VQ_NT][TOT];
static const char *replies = VQ_REPLIES;
static const char *cur[NSESS];
static int started[NSESS], ndeadline;
double vs_log(double x) { return 0; }
double vs_exp(double x) { return 0; }
double vs_sqrt(double x) { return 0; }
double vs_fabs(double x) { return x < 0 ? -x : x; }
long vs_lrint(double x) { return 0; }
int vs_drand48_r(struct drand48_data *b, double *x) { *x = 0; return 0; }
int vs_srand48_r(long s, struct drand48_data *b) { return 0; }
static char np[] = { '0', '0' + VQ_NP, 0 }, ns[] = { '0', '0' + VQ_NS, 0 }, nt[] = { '0', '0' + VQ_NT, 0 }, retry[] = { '0', '1' + VQ_RETRIES, 0 };
static void vh_args(void) {
    static char per[] = VQ_PERIOD, size[] = VQ_SIZE, u[] = "A";
    opt("num-pkts", np);
    opt("num-sessions", ns);
    opt("num-threads", nt);
    opt("period", per);
    opt("send-pkt-size", size);
    if (VQ_RETRIES) opt("retry-num", retry);
    if (VQ_SPIN) opt("wait-spin", NULL);
    if (VQ_PSO) opt("per-session-output", NULL);
    if (VQ_UDP) opt("to", u);
}
#ifndef VQ_T0
#define VQ_T0 999990         /* time the client starts at: a second ends soon */
#endif
static void pass(void) { k_now += nd_range(0, VQ_SPAN); }
#define THR(s) ((s) / VQ_NS)
#define SESS(s) ((s) % VQ_NS)
static int conn_no(int s) { return s - VQ_RETRIES; }          /* failed attempts use a socket each */
static void vh_sent(int sk, const unsigned char *b, size_t n) {
    int s = conn_no(sk), i = nsent[s];
    PROP(i < PER, "a session sends no more requests than configured");
    if (i >= PER) { vh_done(); for (;;) ; }
    for (int o = 0; o < NSESS; o++)
        if (o < s) PROP(THR(o) != THR(s) || !k_open[o + VQ_RETRIES], "a session starts after the previous one ended");
    if (i == 0) begin[s] = k_now;
    nsent[s]++;
    sent_at[s][i] = k_now;
    PROP(o_u32(b) == (uint32_t)(SESS(s) * PER + i), "requests are numbered consecutively");
    PROP(o_u32(b + 4) == (uint32_t)(VQ_WANT), "a request announces the configured size, or what its commands need");
    PROP(n == o_u32(b + 4), "a request is as long as announced");
    PROP(k_dgram[sk] == VQ_UDP, "the configured protocol is used");
    PROP(k_now >= begin[s] + i * (long)(VQ_PERIOD_US), "requests are sent no sooner than the period tells");
    pass();                                                  /* sending may take long */
#if VQ_SPIN
    nread = 0;
#endif
}
static void vh_sleep(long us) { if (us > k_now) k_now = us; pass(); }
static void vh_receive(int sk) {
    int s = conn_no(sk);
    pass();
    if (!started[s]) {
        int k = 0;
        const char *r = replies;
        while (k < SESS(s)) { if (*r == '/') k++; r++; }
        cur[s] = r;
        started[s] = 1;
    }
    char c = *cur[s];
    if (c == 'R') { k_in_len[sk] = k_in_pos[sk] = 0; return; }
    if (c == 0 || c == '/' || c == 'E') { k_eof[sk] = 1; return; }
    cur[s]++;
    int fail = c >= 'a' && c < 'x', k = c == 'x' ? 1000 : fail ? c - 'a' : c - '0';
    uint32_t id = SESS(s) * PER + k;
    unsigned char *b = k_in[sk];
    b[0] = id; b[1] = id >> 8; b[2] = id >> 16; b[3] = id >> 24;
    b[4] = 20; b[5] = b[6] = b[7] = 0;
    b[8] = fail ? nd_range(1, 255) : 0;
    for (int i = 9; i < 20; i++) b[i] = i == 12 ? EOM : 0;
    k_in_pos[sk] = 0; k_in_len[sk] = 20;
    if (c == 'x') lost[s] = 1;                                /* counts as one of the replies of the session */
    else if (!fail) { ok[s][k] = 1; recv_at[s][k] = k_now; }
}
static void vh_report(long *v) {
    int th = v[3], id = v[2], s, i;
    PROP(th >= 0 && th < VQ_NT, "a response time is reported for its thread");
    PROP(id >= 0 && id < TOT, "a response time is reported for a request");
    if (th < 0 || th >= VQ_NT || id < 0 || id >= TOT) { vh_done(); for (;;) ; }
    PROP(v[4] == id / PER, "a response time is reported for its session");
    PROP(!reported[th][id], "each request is reported once");
    reported[th][id] = 1;
    s = th * VQ_NS + id / PER;
    i = id % PER;
    if (i >= VQ_BROKEN) return;
    PROP(v[0] == sent_at[s][i] - t0, "the time of sending is reported");
    if (!ok[s][i]) PROP(v[1] == 0, "no time is reported for a request without a successful reply");
    else PROP(v[1] == recv_at[s][i] - sent_at[s][i] || (lost[s] && v[1] == 0), "the reported time is that between the request and its reply");
}
static void vh_final(void) {
    for (int s = 0; s < NSESS; s++) {
        PROP(nsent[s] == (VQ_BROKEN < PER ? VQ_BROKEN : PER), "each session sends the configured number of requests");
        PROP(!k_open[s + VQ_RETRIES], "no session is left open");
    }
    for (int t = 0; t < VQ_NT; t++)
        for (int i = 0; i < TOT; i++) PROP(reported[t][i] || (VQ_PSO && i % PER >= VQ_BROKEN), "each request is reported");
    REACH("end");
}
void vh_main(void) {
    for (int i = 0; i < 10; i++) {
        inum[i] = i == 6 ? nd_range(20, 60) : nd_range(0, 2 * VQ_SPAN + 1);
        dnum[i] = (double)inum[i];
    }
    k_now = t0 = VQ_T0;
    client_run();
}
