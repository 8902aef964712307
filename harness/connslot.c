/* C11: connection slots.  Words: T/U = allocate for a TCP/UDP connection, x/y = allocate while the first/second memory
 * allocation fails, digit k = free the k-th allocated.  Sockets, targets and the looked-up keys are arbitrary. */
#include "vh.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include "connection.h"
#define N 8
#define HDR ((int)sizeof(message_t))
static int slot[N], sock[N], live[N];
static proto_t proto[N];
static struct sockaddr_in tgt[N];
static int fail_at = -1, ncalloc;
static unsigned char rx[HDR + 8];
static int rx_len;
static unsigned char tx[64];
static int tx_len, tx_block, tx_calls;
void *vs_calloc(size_t n, size_t s) {
    if (ncalloc++ == fail_at) return NULL;
    unsigned char *p = malloc(n * s);
    for (size_t i = 0; i < n * s; i++) p[i] = 0;
    return p;
}
ssize_t vs_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) {
    PROP(n >= (size_t)rx_len, "the receive buffer has room");
    for (int i = 0; i < rx_len; i++) ((unsigned char *)b)[i] = rx[i];
    return rx_len;
}
ssize_t vs_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) {
    tx_calls++;
    if (tx_block) { errno = EAGAIN; return -1; }
    tx_len = n;
    for (int i = 0; i < HDR + 4; i++) tx[i] = i < (int)n ? ((const unsigned char *)b)[i] : 0;
    return n;
}
pthread_t vs_pthread_self(void) { return 7; }
int vs_fprintf(FILE *o, const char *f, ...) { return 0; }
static void set32(unsigned char *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static uint32_t get32(unsigned char *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
/* what a user of the slot does with it; dirty: leaves a partial message, an unsent message and a request behind */
static void use(int id, int s) {
    conn_info_t *c = conn_get_by_id(id);
    uint32_t rid = nd_u32();
    PROP(conn_next_message(c) == NULL, "a fresh slot has no received message");
    PROP(c->req_list == NULL, "a fresh slot has no pending request");
    c->status = READY;
    for (int i = 0; i < HDR + 8; i++) rx[i] = 0;
    set32(rx, rid); set32(rx + 4, HDR + 4);
    rx_len = HDR + 4 + 3;                                    /* one message and a piece of the next */
    PROP(conn_recv(c) == 1, "a fresh slot receives");
    message_t *m = conn_next_message(c);
    PROP(m != NULL, "the received message is delivered");
    if (m == NULL) return;
    PROP((m->req_id == rid) & (m->req_size == HDR + 4), "the received message is the one sent, not left-over bytes");
    req_info_t *r = conn_req_add(c);
    PROP(r != NULL, "requests of former users of the slots are released");
    r->message_ptr = (unsigned char *)m;
    r->curr_cmd = message_first_cmd(m);
    PROP(r->conn_id == id, "a request belongs to its connection");
    PROP(r->next == NULL, "a fresh slot has no pending request");
    tx_block = 0; tx_calls = 0;
    message_t *o = conn_send_message(c);
    set32((unsigned char *)o, rid); set32((unsigned char *)o + 4, HDR + 4);
    int rv = conn_start_send(c, c->target);
    PROP((rv == HDR + 4) & (tx_calls == 1) & (tx_len == HDR + 4), "a fresh slot sends what is queued and nothing else");
    PROP((get32(tx) == rid) & (get32(tx + 4) == HDR + 4), "a fresh slot sends the queued message");
    tx_block = 1;
    o = conn_send_message(c);
    set32((unsigned char *)o, rid); set32((unsigned char *)o + 4, HDR + 4);
    conn_start_send(c, c->target);                           /* left unsent */
}
static void one(const char *w) {
    int n = 0, nlive = 0;
    conn_init();
    req_init();
    for (int s = 0; w[s]; s++) {
        if (w[s] <= '9') {
            int k = w[s] - '0';
            conn_free(slot[k]);
            live[k] = 0; nlive--;
        } else {
            struct sockaddr_in a = { .sin_family = AF_INET };
            a.sin_addr.s_addr = nd_u32(); a.sin_port = nd_u16();
            int fd = nd_range(3, 1000);
            for (int k = 0; k < n; k++) ASSUME(!live[k] | (sock[k] != fd));
            proto_t p = w[s] == 'U' ? UDP : TCP;
            ncalloc = 0; fail_at = w[s] == 'x' ? 0 : w[s] == 'y' ? 1 : -1;
            int id = conn_alloc(fd, a, p);
            if (w[s] == 'x' || w[s] == 'y') {
                PROP(id == -1, "no slot without memory for it");
                continue;
            }
            if (nlive == MAX_CONNS) { PROP(id == -1, "no more connections than slots"); continue; }
            PROP((id >= 0) & (id < MAX_CONNS), "a free slot is allocated");
            if (!(id >= 0 && id < MAX_CONNS)) continue;
            for (int k = 0; k < n; k++) PROP(!live[k] | (slot[k] != id), "a slot is used by one connection only");
            use(id, s);
            slot[n] = id; sock[n] = fd; proto[n] = p; tgt[n] = a; live[n] = 1;
            n++; nlive++;
        }
        /* lookups of arbitrary keys */
        int fd = nd_range(0, 1000), want = -1;
        for (int k = 0; k < n; k++) if (live[k] & (sock[k] == fd)) want = slot[k];
        PROP(conn_find_sock(fd) == want, "lookup by socket finds the open connection with that socket, or nothing");
        struct sockaddr_in a = { .sin_family = AF_INET };
        a.sin_addr.s_addr = nd_u32(); a.sin_port = nd_u16();
        int id = conn_find_existing(a, TCP), some = 0, ok = id == -1;
        for (int k = 0; k < n; k++) {
            int match = live[k] & (proto[k] == TCP) & (tgt[k].sin_addr.s_addr == a.sin_addr.s_addr) & (tgt[k].sin_port == a.sin_port);
            some |= match;
            ok |= match & (slot[k] == id);
        }
        PROP(ok & ((id != -1) == some), "lookup by target finds an open connection to that target, or nothing");
        id = conn_find_existing(a, UDP); some = 0; ok = id == -1;
        for (int k = 0; k < n; k++) {
            int match = live[k] & (proto[k] == UDP);
            some |= match;
            ok |= match & (slot[k] == id);
        }
        PROP(ok & ((id != -1) == some), "lookup for a datagram target finds an open datagram socket, or nothing");
        if (nlive == MAX_CONNS) {                             /* a full table never hands out a used slot */
            fail_at = -1; ncalloc = 0;
            PROP(conn_alloc(5, a, TCP) == -1, "no more connections than slots");
        }
    }
}
void vh_main(void) {
    static const char *words[] = { VQ_WORDS };
    for (int i = 0; i < sizeof(words) / sizeof(words[0]); i++)
        one(words[i]);
    REACH("end");
}
