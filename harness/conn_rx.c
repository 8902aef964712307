/* Receiving: a stream of VQ_SZ messages arrives in pieces of arbitrary sizes.  Word: r = a receive (any number of bytes, then every
 * complete message is taken), R = a receive of all that is there, b = a receive that would block, digit k = the pending request of
 * message k completes.  Messages named in VQ_NOREQ complete at once. */
#include "vh.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include "connection.h"
#define HDR ((int)sizeof(message_t))
static const int sz[] = { VQ_SZ };
#define NM (int)(sizeof(sz) / sizeof(sz[0]))
#ifndef VQ_NOREQ
#define VQ_NOREQ ""
#endif
static unsigned char stream[VQ_TOTAL];
static int cut[3], ncut, spos, send_all, block, start[NM], next, jw;
static uint32_t id[NM];
static req_info_t *req[NM];
void *vs_calloc(size_t n, size_t s) { unsigned char *p = malloc(n * s); for (size_t i = 0; i < n * s; i++) p[i] = 0; return p; }
ssize_t vs_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) {
    PROP(n > 0, "there is room to receive: the space of completed requests is available again");
    PROP(n <= BUF_SIZE, "no more is received than the buffer holds");
    if (block) { errno = EAGAIN; return -1; }
    int left = VQ_TOTAL - spos, max = n < (size_t)left ? (int)n : left, k = send_all || ncut >= 3 ? max : cut[ncut++];
    if (k > max) k = max;
    for (int i = 0; i < k; i++) ((unsigned char *)b)[i] = stream[spos + i];
    spos += k;
    return k;
}
ssize_t vs_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { return n; }
pthread_t vs_pthread_self(void) { return 7; }
int vs_fprintf(FILE *o, const char *f, ...) { return 0; }
static void same(message_t *m, int d) {
    PROP((m->req_id == id[d]) & (m->req_size == (uint32_t)sz[d]), "a message is the one sent");
    int j = jw < sz[d] ? jw : 8;
    PROP(((unsigned char *)m)[j] == stream[start[d] + j], "a message is intact");
}
static void deliver(conn_info_t *c) {
    for (int x = 0; x <= NM; x++) {
        message_t *m = conn_next_message(c);
        int complete = next < NM && spos >= start[next < NM ? next : 0] + sz[next < NM ? next : 0];
        PROP((m != NULL) == complete, "a message is delivered when it is complete, once");
        if (m == NULL || !complete) break;
        for (int d = 0; d < NM; d++)           /* next as a constant */
            if (d == next) {
                same(m, d);
                req_info_t *r = conn_req_add(c);
                if (r == NULL) { PROP(0, "harness: enough requests"); return; }
                r->message_ptr = (unsigned char *)m;
                r->curr_cmd = message_first_cmd(m);
                int now = 0;
                for (const char *p = VQ_NOREQ; *p; p++) now |= (*p - '0' == d);
                if (now) conn_req_remove(c, r);
                else req[d] = r;
                next++;
                break;
            }
    }
}
static void run(void) {
    const char *w = VQ_WORD;
    int at = 0;
    for (int d = 0; d < NM; d++) {
        start[d] = at;
        id[d] = stream[at] | stream[at + 1] << 8 | stream[at + 2] << 16 | (uint32_t)stream[at + 3] << 24;
        stream[at + 4] = sz[d]; stream[at + 5] = stream[at + 6] = stream[at + 7] = 0;
        at += sz[d];
    }
    conn_init();
    req_init();
    struct sockaddr_in a = { .sin_family = AF_INET };
    int cid = conn_alloc(5, a, TCP);
    conn_info_t *c = conn_get_by_id(cid);
    c->status = READY;
    for (int s = 0; w[s]; s++) {
        block = w[s] == 'b'; send_all = w[s] == 'R';
        if (w[s] == 'r' || w[s] == 'R' || w[s] == 'b') {
            if (spos == VQ_TOTAL) block = 1;
            PROP(conn_recv(c) == 1, "receiving goes on");
            deliver(c);
        } else {
            int d = w[s] - '0';
            if (req[d] != NULL) {
                conn_req_remove(c, req[d]);
                req[d] = NULL;
                deliver(c);
            }
        }
        for (int d = 0; d < NM; d++)
            if (req[d] != NULL) {
                same(req_get_message(req[d]), d);
                PROP((unsigned char *)req[d]->curr_cmd == (unsigned char *)req_get_message(req[d]) + HDR, "a pending request keeps its position");
            }
    }
    PROP(c->status == READY, "the connection stays open");
#ifdef VQ_ALL
    PROP(spos == VQ_TOTAL && next == NM, "all messages are delivered");
#endif
}
/* the sizes of the first two pieces are arbitrary; every choice is followed from the same initial state */
static int c0, c1;
static void pick1(int k) { if (c1 == k || k >= VQ_MAX1) { cut[1] = k; run(); } else pick1(k + 1); }
static void pick0(int k) { if (c0 == k || k >= VQ_MAX0) { cut[0] = k; pick1(VQ_MIN1); } else pick0(k + 1); }
void vh_main(void) {
    jw = nd_range(8, HDR + 12);
    for (int i = 0; i < VQ_TOTAL; i++) stream[i] = nd_u8();
    cut[2] = VQ_TOTAL;
    c0 = nd_range(VQ_MIN0, VQ_MAX0);
    c1 = nd_range(VQ_MIN1, VQ_MAX1);
    pick0(VQ_MIN0);
    REACH("end");
}
