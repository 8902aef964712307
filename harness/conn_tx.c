/* Sending: messages of the sizes VQ_SZ are queued and sent; every send accepts any number of bytes or would block.
 * Word: m = queue the next message, w = the socket is writable, W = it is writable until all is sent, c = the connection is
 * established (with VQ_CONNECTING it is not at the beginning). */
#include "vh.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include "connection.h"
#define HDR ((int)sizeof(message_t))
static const int sz[] = { VQ_SZ };
#define NM (int)(sizeof(sz) / sizeof(sz[0]))
#ifndef VQ_CONNECTING
#define VQ_CONNECTING 0
#endif
static unsigned char stream[VQ_TOTAL];
static int tpos, queued, jw, hits, all, up = !VQ_CONNECTING;
void *vs_calloc(size_t n, size_t s) { unsigned char *p = malloc(n * s); for (size_t i = 0; i < n * s; i++) p[i] = 0; return p; }
ssize_t vs_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { errno = EAGAIN; return -1; }
ssize_t vs_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) {
    PROP(up, "nothing is sent before the connection is established");
    PROP(n > 0, "something is sent");
    PROP((int)n == queued - tpos, "all that is queued is offered");
    int k = all ? (int)n : nd_range(0, VQ_TOTAL);
    ASSUME(k <= (int)n);
    if (k == 0) { errno = EAGAIN; return -1; }
    if (jw >= tpos && jw < tpos + k) {
        hits++;
        PROP(((const unsigned char *)b)[jw - tpos] == stream[jw], "every byte is transmitted intact and in order");
    }
    tpos += k;
    return k;
}
pthread_t vs_pthread_self(void) { return 7; }
int vs_fprintf(FILE *o, const char *f, ...) { return 0; }
void vh_main(void) {
    const char *w = VQ_WORD;
    int at = 0, next = 0;
    jw = nd_range(0, VQ_TOTAL - 1);
    for (int i = 0; i < VQ_TOTAL; i++) stream[i] = nd_u8();
    conn_init();
    req_init();
    struct sockaddr_in a = { .sin_family = AF_INET };
    int cid = conn_alloc(5, a, TCP);
    conn_info_t *c = conn_get_by_id(cid);
    c->status = VQ_CONNECTING ? CONNECTING : READY;
    for (int s = 0; w[s]; s++) {
        if (w[s] == 'm') {
            message_t *m = conn_send_message(c);
            int room = m->req_size;
            PROP((room >= 0) & (room <= BUF_SIZE), "the room to queue a message is within the buffer");
#ifdef VQ_ROOM
            PROP(room >= sz[next], "the room of what has been sent is available again");
#else
            ASSUME(room >= sz[next]);
#endif
            stream[at + 4] = sz[next]; stream[at + 5] = stream[at + 6] = stream[at + 7] = 0;
            m->req_size = sz[next];
            for (int i = 0; i < sz[next]; i++) if (i < 4 || i >= 8) ((unsigned char *)m)[i] = stream[at + i];
            at += sz[next]; queued += sz[next]; next++;
            PROP(conn_start_send(c, a) >= 0, "queueing does not fail");
        } else if (w[s] == 'c') { up = 1; c->status = READY; if (c->curr_send_size > 0) PROP(conn_send(c) >= 0, "sending does not fail"); }
        else if (w[s] == 'w') { if (c->curr_send_size > 0) PROP(conn_send(c) >= 0, "a send that would block is not a failure"); }
        else { all = 1; if (c->curr_send_size > 0) PROP(conn_send(c) >= 0, "sending does not fail"); all = 0; }
        PROP((int)c->curr_send_size == queued - tpos, "what is not sent yet stays queued");
        PROP((c->status == READY) | (!up & (c->status == CONNECTING)), "partial and blocked sends do not close the connection");
    }
    if (queued == tpos) PROP(hits == (jw < queued), "every queued byte is transmitted exactly once");
    REACH("end");
}
