/* Kernel model for dw_node: the node program runs from its main(), against sockets, epoll, timerfd, pipes, signalfd, clocks
 * and a storage file modelled here.  A harness supplies
 *     void vh_script(int w, int step)  - what the kernel reports on the step-th epoll_wait() of worker w, by calling
 *                                        ready(fd, events) (once per reported event) or terminate();
 *     void vh_final(void)              - obligations at the end of the scenario.
 * Nothing here depends on how the node is organised internally: only the system calls it makes are seen.  Only what the
 * node registered with epoll_ctl() is ever reported, descriptors that were closed are an error, time passes only where the
 * script lets it pass (and, for the CPU clock, whenever it is read). */
#ifndef NODEENV_H
#define NODEENV_H
#include "vh.h"
#include "dw_node.c"

#ifndef NW
#define NW 1               /* workers */
#endif
#ifndef NSOCK
#define NSOCK 3
#endif
#ifndef INMAX
#define INMAX 80
#endif
#ifndef OUTMAX
#define OUTMAX 80
#endif
#ifndef NPIECE
#define NPIECE 6
#endif
#ifndef NEP
#define NEP (NW + 3)       /* one per worker, one per turn of the storage thread */
#endif
#ifndef NFOP
#define NFOP 8
#endif
#define NTIM (NW + 1)
#define NPIPE (2 * NW)

enum { FD_LISTEN = 3, FD_EPOLL = FD_LISTEN + NW, FD_TIMER = FD_EPOLL + NEP, FD_STAT = FD_TIMER + NTIM, FD_TERM, FD_PIPE,
       FD_STORAGE = FD_PIPE + 2 * NPIPE, FD_SOCK0 };
#define NFD (FD_SOCK0 + NSOCK)

typedef struct { int on; uint32_t events; uint64_t data; } k_reg_t;
typedef struct {
    int open, dgram;
    int connecting;              /* asynchronous connect in progress */
    int so_error, eof, reset;    /* pending error, orderly shutdown by the peer, connection reset */
    int in_len, in_pos;          /* in[in_pos..in_len) has arrived and was not received yet */
    int out_len;
    int calls;                   /* number of sends accepted */
    int peer_port, peer_host;    /* where connect() / the last sendto() went */
    int src_port;                /* sender of the next datagram */
    int dlen[4], ndg, dpos;      /* lengths of arrived datagrams */
    unsigned char in[INMAX];     /* bytes the peer sends */
    unsigned char out[OUTMAX];   /* bytes the node sends */
} k_sock_t;

static k_reg_t  k_regs[NEP][NFD];
static int k_nep, k_nlis, k_ntim, k_npipe;
static k_sock_t k_sock[NSOCK];
static int k_nsock;              /* sockets created so far */
static int k_pending_accept;     /* connections waiting */
static int k_sends, k_recvs;     /* calls so far */
static int k_running;            /* initialisation is over */
static int k_steps[NW], k_term;
#ifndef VH_BATCH
#define VH_BATCH 1
#endif
static int k_nev, k_ev_fd[VH_BATCH]; static uint32_t k_ev_mask[VH_BATCH];
static long k_now;               /* time, microseconds */
static long k_cpu;               /* CPU clock, microseconds */
static int  k_armed[NTIM];       /* timers */
static long k_deadline[NTIM], k_period[NTIM];
static struct timespec k_set[NTIM]; static long k_set_at[NTIM];
static int  k_timer_sets;
static int k_thread;             /* running thread: 0 main / only worker, i worker i */
static int k_in_storage, k_sstep;
static void *(*k_sfun)(void *); static void *k_sarg;
static void *(*k_wfun[NW])(void *); static void *k_warg[NW]; static int k_nthr;
/* pipes: a sequence of written pieces; k_plen/k_ppos count the bytes written/read */
static unsigned char *k_piece[NPIPE][NPIECE]; static int k_plen_of[NPIPE][NPIECE], k_pw[NPIPE], k_pr[NPIPE], k_poff[NPIPE];
static int k_plen[NPIPE], k_ppos[NPIPE];
/* storage file: operations performed on it */
enum { F_WRITE = 1, F_READ, F_SYNC };
typedef struct { int op; uint64_t off; uint64_t len; } k_fop_t;
static k_fop_t k_fop[NFOP]; static int k_nfop;
static uint64_t k_fpos, k_fsize;
static int k_accepts, k_stat_conns, k_stat_reqs, k_stat_lines;
static int k_listen_bound[NW], k_listening[NW];

/* ---- policy supplied by the harness ---- */
static void vh_script(int w, int step);
static void vh_final(void);
#ifndef VH_RECV_CHUNK
#define VH_RECV_CHUNK(s, avail) (avail)          /* how many of the available bytes one receive returns */
#endif
#ifndef VH_SEND_CHUNK
#define VH_SEND_CHUNK(s, len) (len)              /* how many bytes one send accepts; -1 would block, -2 peer closed, -3 reset */
#endif
#ifndef VH_CONNECT
#define VH_CONNECT(s) 0                          /* 0 connected, 1 in progress, 2 refused at once */
#endif
#ifndef VH_TIME_STEP_US
#define VH_TIME_STEP_US 1000                     /* CPU clock advance per reading */
#endif
#ifndef VH_STORAGE
#define VH_STORAGE(step) storage_default()       /* next event of the storage thread: a descriptor */
#endif
#ifndef VH_STORAGE_JOIN
#define VH_STORAGE_JOIN 0                        /* 1: the storage thread runs after the workers */
#endif
#ifndef VH_FILE_CHUNK
#define VH_FILE_CHUNK(op, len) (len)             /* how many bytes one read/write of the file transfers */
#endif
#ifndef VH_FILE_FAIL
#define VH_FILE_FAIL(op) 0                       /* 1: a read/write of the file fails */
#endif

static void ready(int fd, uint32_t mask) { if (k_nev < VH_BATCH) { k_ev_fd[k_nev] = fd; k_ev_mask[k_nev] = mask; k_nev++; } }
static void terminate(void) { k_term = 1; }
#define SOCK(fd) k_sock[(fd) - FD_SOCK0]
#define SFD(i)   (FD_SOCK0 + (i))
#define IS_SOCK(fd) ((fd) >= FD_SOCK0 && (fd) < NFD)
/* n more bytes of in[] arrive */
static void arrive(int s, int n) { k_sock[s].in_len += n; ready(SFD(s), EPOLLIN); }
static int k_cur_ep, k_ep_of[NW];            /* epoll instance of the running worker, of each worker */
static void accept_one(void) {
    k_pending_accept++;
    for (int j = 0; j < NW; j++)
        if (k_regs[k_cur_ep][FD_LISTEN + j].on) { ready(FD_LISTEN + j, EPOLLIN); return; }
}
static int storage_default(void) {
    for (int i = 0; i < NPIPE; i += 1)
        if (k_plen[i] > k_ppos[i] && k_regs[k_nep - 1][FD_PIPE + 2 * i].on) return FD_PIPE + 2 * i;
    return FD_TERM;
}
/* the storage thread runs until it has nothing left to do */
static void storage_turn(void) {
    if (k_sfun == NULL) return;
    int t = k_thread;
    k_in_storage = 1; k_thread = 100;
    k_sfun(k_sarg);
    k_in_storage = 0; k_thread = t; k_nev = 0;
}
/* another worker runs its whole script while this one waits */
static int k_nested;
static void worker_turn(int w) {
    if (k_wfun[w] == NULL) return;
    int t = k_thread, ep = k_cur_ep;
    void *(*f)(void *) = k_wfun[w];
    k_wfun[w] = NULL;
    k_nested++; k_thread = w;
    f(k_warg[w]);
    k_nested--; k_thread = t; k_cur_ep = ep; k_nev = 0;
}
/* the descriptor of a pipe with data this worker watches, or -1 */
static int ack_ready(int ep) {
    for (int i = 0; i < NPIPE; i++)
        if (k_plen[i] > k_ppos[i] && k_regs[ep][FD_PIPE + 2 * i].on) return FD_PIPE + 2 * i;
    return -1;
}

static long its_us(const struct itimerspec *t) { return t->it_value.tv_sec * 1000000 + t->it_value.tv_nsec / 1000; }
static void us_its(long us, struct itimerspec *t) { t->it_value.tv_sec = us / 1000000; t->it_value.tv_nsec = us % 1000000 * 1000; }

/* ---- system calls ---- */
int vs_epoll_create1(int fl) { PROP(k_nep < NEP, "harness: enough epoll instances"); return FD_EPOLL + k_nep++; }
int vs_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    PROP(ep >= FD_EPOLL && ep < FD_EPOLL + NEP, "epoll_ctl() on an epoll instance");
    if (!(fd >= 0 && fd < NFD)) { errno = EBADF; return -1; }
    if (IS_SOCK(fd) && !SOCK(fd).open) { errno = EBADF; return -1; }
    k_reg_t *k_reg = k_regs[ep - FD_EPOLL];
    if (op == EPOLL_CTL_DEL) {
        if (!k_reg[fd].on) { errno = ENOENT; return -1; }
        k_reg[fd].on = 0;
        return 0;
    }
    if (op == EPOLL_CTL_ADD && k_reg[fd].on) { errno = EEXIST; return -1; }
    if (op == EPOLL_CTL_MOD && !k_reg[fd].on) { errno = ENOENT; return -1; }
    k_reg[fd].on = 1;
    k_reg[fd].events = ev->events;
    k_reg[fd].data = ev->data.u64;
    return 0;
}
#ifndef VH_WRITABLE
#define VH_WRITABLE(s) 1
#endif
int vs_epoll_wait(int ep, struct epoll_event *evs, int max, int to) {
    k_reg_t *k_reg = k_regs[ep - FD_EPOLL];
    k_running = 1;
    k_nev = 0;
    if (!k_in_storage) { k_cur_ep = ep - FD_EPOLL; k_ep_of[k_thread] = k_cur_ep; }
    if (k_in_storage) { ready(VH_STORAGE(k_sstep), EPOLLIN); k_sstep++; }
    else if (!k_term) {
        int w = k_thread, s = -1;
        /* a socket that can be written and is watched for that is reported before anything else happens */
        for (int i = NSOCK - 1; i >= 0; i--)
            if ((k_reg[SFD(i)].on) && (k_reg[SFD(i)].events & EPOLLOUT) && k_sock[i].open && !k_sock[i].connecting && VH_WRITABLE(i)) s = i;
        int r = -1;
#ifdef VH_LEVEL          /* so is a socket with bytes that have arrived and were not received yet */
        for (int i = NSOCK - 1; i >= 0; i--)
            if (k_reg[SFD(i)].on && (k_reg[SFD(i)].events & EPOLLIN) && k_sock[i].open && !k_sock[i].dgram && k_sock[i].in_pos < k_sock[i].in_len) r = i;
#endif
        if (s >= 0) ready(SFD(s), EPOLLOUT);
        else if (r >= 0) ready(SFD(r), EPOLLIN);
        else vh_script(w, k_steps[w]++);
    }
    if (!k_in_storage && k_term) {          /* end of the scenario for this worker */
        int last = !k_nested;
        for (int i = 0; i < NW; i++) if (k_wfun[i]) last = 0;
        if (last && !VH_STORAGE_JOIN) { vh_final(); vh_done(); }   /* shutting down is not part of the scenario */
        k_nev = 0;
        ready(FD_TERM, EPOLLIN);
        if (!last) k_term = 0;
    }
    int n = 0;
    for (int i = 0; i < VH_BATCH; i++) {
        if (i >= k_nev) break;
        int fd = k_ev_fd[i];
        uint32_t m = k_ev_mask[i];
        if (fd < 0 || !k_reg[fd].on || n >= max) continue;
        if ((k_reg[fd].events & (EPOLLIN | EPOLLOUT)) == 0) continue;   /* one-shot registration already fired */
        m &= (k_reg[fd].events | EPOLLERR | EPOLLHUP);
        if (m == 0) continue;
        evs[n].events = m;
        evs[n].data.u64 = k_reg[fd].data;
        if (k_reg[fd].events & EPOLLONESHOT) k_reg[fd].events = 0;
        n++;
    }
    return n;
}
int vs_socket(int dom, int type, int proto) {
    if (!k_running && type == SOCK_STREAM) { PROP(k_nlis < NW, "harness: enough listening sockets"); return FD_LISTEN + k_nlis++; }
    PROP(k_nsock < NSOCK, "harness: enough sockets");
    int i = k_nsock++;
    k_sock[i].open = 1;
    k_sock[i].dgram = (type == SOCK_DGRAM);
    return SFD(i);
}
#ifndef VH_ACCEPT_FAIL
#define VH_ACCEPT_FAIL 0
#endif
int vs_accept(int fd, struct sockaddr *a, socklen_t *l) {
    PROP(fd >= FD_LISTEN && fd < FD_LISTEN + k_nlis, "connections are accepted on a listening socket");
    if (k_pending_accept <= 0 || VH_ACCEPT_FAIL) { errno = k_pending_accept <= 0 ? EAGAIN : EMFILE; return -1; }
    k_pending_accept--;
    PROP(k_nsock < NSOCK, "harness: enough sockets");
    int i = k_nsock++;
    k_sock[i].open = 1;
    k_accepts++;
    struct sockaddr_in *p = (struct sockaddr_in *)a;
    p->sin_family = AF_INET; p->sin_addr.s_addr = 0x0100007f; p->sin_port = 1000 + i;
    return SFD(i);
}
int vs_connect(int fd, const struct sockaddr *a, socklen_t l) {
    PROP(IS_SOCK(fd) && SOCK(fd).open, "connect() on an open socket");
    k_sock_t *s = &SOCK(fd);
    s->peer_port = ((const struct sockaddr_in *)a)->sin_port;
    s->peer_host = ((const struct sockaddr_in *)a)->sin_addr.s_addr;
    int r = VH_CONNECT(fd - FD_SOCK0);
    if (r == 0) return 0;
    if (r == 2) { errno = ECONNREFUSED; return -1; }
    s->connecting = 1;
    errno = EINPROGRESS;
    return -1;
}
int vs_bind(int fd, const struct sockaddr *a, socklen_t l) {
    if (fd >= FD_LISTEN && fd < FD_LISTEN + NW)
        k_listen_bound[fd - FD_LISTEN] = ((const struct sockaddr_in *)a)->sin_port;
    return 0;
}
int vs_listen(int fd, int n) { if (fd >= FD_LISTEN && fd < FD_LISTEN + NW) k_listening[fd - FD_LISTEN] = 1; return 0; }
int vs_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return 0; }
int vs_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { *(int *)v = SOCK(fd).so_error; SOCK(fd).so_error = 0; return 0; }
int vs_fcntl(int fd, int cmd, ...) { return 0; }
int vs_close(int fd) {
    if (IS_SOCK(fd)) {
        PROP(SOCK(fd).open, "a socket is closed only once");
        SOCK(fd).open = 0;
        for (int e = 0; e < NEP; e++) k_regs[e][fd].on = 0;
    }
    return 0;
}
int vs_shutdown(int fd, int how) { return 0; }
ssize_t vs_recvfrom(int fd, void *buf, size_t len, int fl, struct sockaddr *a, socklen_t *al) {
    PROP(IS_SOCK(fd) && SOCK(fd).open, "receive on an open socket");
    k_sock_t *s = &SOCK(fd);
    if (s->reset) { errno = ECONNRESET; return -1; }
    int avail = s->in_len - s->in_pos;
    if (s->dgram) {
        if (s->dpos >= s->ndg) { errno = EAGAIN; return -1; }
        avail = s->dlen[s->dpos++];
        int n = avail > (long)len ? (int)len : avail;       /* the rest of a datagram is lost */
        for (int i = 0; i < n; i++)
            ((unsigned char *)buf)[i] = s->in[s->in_pos + i];
        s->in_pos += avail;
        if (a) { ((struct sockaddr_in *)a)->sin_family = AF_INET; ((struct sockaddr_in *)a)->sin_addr.s_addr = 0x0100007f;
                 ((struct sockaddr_in *)a)->sin_port = s->src_port; }
        return n;
    }
    if (avail == 0) {
        if (s->eof || len == 0) return 0;
        errno = EAGAIN;
        return -1;
    }
    k_recvs++;
    int n = VH_RECV_CHUNK(fd - FD_SOCK0, avail);
    if (n > (long)len) n = len;
    for (int i = 0; i < n; i++)
        ((unsigned char *)buf)[i] = s->in[s->in_pos + i];
    s->in_pos += n;
    return n;
}
ssize_t vs_recv(int fd, void *buf, size_t len, int fl) { return vs_recvfrom(fd, buf, len, fl, NULL, NULL); }
ssize_t vs_sendto(int fd, const void *buf, size_t len, int fl, const struct sockaddr *a, socklen_t al) {
    PROP(IS_SOCK(fd) && SOCK(fd).open, "send on an open socket");
    k_sock_t *s = &SOCK(fd);
    PROP(!s->connecting, "nothing is sent before the connection is established");
    k_sends++;
    int n = VH_SEND_CHUNK(fd - FD_SOCK0, (int)len);
    if (n == -1) { errno = EAGAIN; return -1; }
    if (n == -2) { errno = EPIPE; return -1; }
    if (n == -3) { errno = ECONNRESET; return -1; }
    PROP(s->out_len + n <= OUTMAX, "no more output than expected");
    if (s->out_len + n > OUTMAX) return n;
    if (s->dgram && a) { s->peer_port = ((const struct sockaddr_in *)a)->sin_port; s->peer_host = ((const struct sockaddr_in *)a)->sin_addr.s_addr; }
    for (int i = 0; i < n; i++)
        s->out[s->out_len + i] = ((const unsigned char *)buf)[i];
    s->out_len += n;
    s->calls++;
    return n;
}
ssize_t vs_send(int fd, const void *buf, size_t len, int fl) { return vs_sendto(fd, buf, len, fl, NULL, 0); }
/* the buffer handed to the kernel is really there */
#ifdef REPLAY
#define CAN_READ(b, n) do { if ((n) > 0) { volatile unsigned char x = ((const unsigned char *)(b))[0]; x = ((const unsigned char *)(b))[(n) - 1]; } } while (0)
#define CAN_WRITE(b, n) do { if ((n) > 0) { ((volatile unsigned char *)(b))[0] = 1; ((volatile unsigned char *)(b))[(n) - 1] = 2; } } while (0)
#else
#define CAN_READ(b, n) PROP((n) == 0 || __CPROVER_r_ok(b, n), "the buffer of a write is valid memory")
#define CAN_WRITE(b, n) PROP((n) == 0 || __CPROVER_w_ok(b, n), "the buffer of a read is valid memory")
#endif
static void k_flog(int op, uint64_t off, uint64_t len) {
#ifdef VH_FLOG
    VH_FLOG(op, off, len);
    return;
#endif
    PROP(k_nfop < NFOP, "no more file operations than expected");
    if (k_nfop < NFOP) { k_fop[k_nfop].op = op; k_fop[k_nfop].off = off; k_fop[k_nfop].len = len; k_nfop++; }
}
ssize_t vs_write(int fd, const void *buf, size_t len) {
    if (fd == FD_STORAGE) {
        if (VH_FILE_FAIL(F_WRITE)) { errno = EFBIG; return -1; }
        uint64_t n = VH_FILE_CHUNK(F_WRITE, len);
        CAN_READ(buf, len);
        k_flog(F_WRITE, k_fpos, n);
        k_fpos += n;
        if (k_fpos > k_fsize) k_fsize = k_fpos;
        return n;
    }
    PROP(fd > FD_PIPE && fd < FD_PIPE + 2 * NPIPE && ((fd - FD_PIPE) & 1) == 1, "write() on the write end of a pipe");
    int p = (fd - FD_PIPE) / 2;
    PROP(k_pw[p] < NPIECE, "no more data in a pipe than expected");
    if (k_pw[p] >= NPIECE) return len;
#ifdef VH_PIPE_HOOK
    VH_PIPE_HOOK(p, buf, len);
#endif
    k_piece[p][k_pw[p]] = malloc(len);
    memcpy(k_piece[p][k_pw[p]], buf, len);
    k_plen_of[p][k_pw[p]] = len;
    k_pw[p]++;
    k_plen[p] += len;
    return len;
}
ssize_t vs_read(int fd, void *buf, size_t len) {
    if (fd >= FD_TIMER && fd < FD_TIMER + NTIM) {
        int t = fd - FD_TIMER;
        if (!k_armed[t] || k_deadline[t] > k_now) { errno = EAGAIN; return -1; }
        if (k_period[t]) { k_deadline[t] = k_now + k_period[t]; k_set_at[t] = k_now; }
        else k_armed[t] = 0;
        for (int i = 0; i < 8; i++) ((unsigned char *)buf)[i] = i == 0;
        return 8;
    }
    if (fd >= FD_PIPE && fd < FD_PIPE + 2 * NPIPE) {
        int p = (fd - FD_PIPE) / 2, n = k_plen[p] - k_ppos[p];
        PROP(n > 0, "read() from a pipe does not block for ever");
        if (n <= 0) vh_done();
        if (n > (int)len) n = len;
        k_ppos[p] += n;
        if (k_poff[p] == 0 && n == k_plen_of[p][k_pr[p]]) { memcpy(buf, k_piece[p][k_pr[p]], n); k_pr[p]++; return n; }
        for (int i = 0; i < n; i++) {
            ((unsigned char *)buf)[i] = k_piece[p][k_pr[p]][k_poff[p]];
            if (++k_poff[p] == k_plen_of[p][k_pr[p]]) { k_pr[p]++; k_poff[p] = 0; }
        }
        return n;
    }
    if (fd == FD_STORAGE) {
        if (VH_FILE_FAIL(F_READ)) { errno = EIO; return -1; }
        uint64_t left = k_fpos < k_fsize ? k_fsize - k_fpos : 0, n = VH_FILE_CHUNK(F_READ, len);
        if (n > left) n = left;
        CAN_WRITE(buf, len);
        k_flog(F_READ, k_fpos, n);
        k_fpos += n;
        return n;
    }
    return len;      /* signalfd */
}
ssize_t vs_pread(int fd, void *b, size_t n, off_t o) { k_flog(F_READ, o, n); return n; }
ssize_t vs_pwrite(int fd, const void *b, size_t n, off_t o) { k_flog(F_WRITE, o, n); return n; }
off_t vs_lseek(int fd, off_t o, int w) {
    if (w == SEEK_SET) { if (o < 0) { errno = EINVAL; return -1; } k_fpos = o; }
    else if (w == SEEK_CUR) k_fpos += o;
    else k_fpos = k_fsize + o;
    return k_fpos;
}
int vs_fsync(int fd) { k_flog(F_SYNC, 0, 0); return 0; }
int vs_fdatasync(int fd) { k_flog(F_SYNC, 0, 0); return 0; }
int vs_ftruncate(int fd, off_t n) { k_fsize = n; return 0; }
int vs_timerfd_create(int c, int f) { PROP(k_ntim < NTIM, "harness: enough timers"); return FD_TIMER + k_ntim++; }
int vs_timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o) {
    PROP(fd >= FD_TIMER && fd < FD_TIMER + NTIM, "timerfd_settime() on a timer");
    PROP(n->it_value.tv_nsec >= 0 && n->it_value.tv_nsec < 1000000000 && n->it_value.tv_sec >= 0, "the timer is set to a valid time");
    int t = fd - FD_TIMER;
    k_armed[t] = (n->it_value.tv_sec != 0) | (n->it_value.tv_nsec != 0);
    k_deadline[t] = k_now + its_us(n);
    k_period[t] = n->it_interval.tv_sec * 1000000 + n->it_interval.tv_nsec / 1000;
    k_set[t] = n->it_value;
    k_set_at[t] = k_now;
    k_timer_sets++;
    return 0;
}
int vs_timerfd_gettime(int fd, struct itimerspec *o) {
    int t = fd - FD_TIMER;
    o->it_interval.tv_sec = o->it_interval.tv_nsec = 0;
    if (!k_armed[t] || k_deadline[t] <= k_now) { o->it_value.tv_sec = o->it_value.tv_nsec = 0; return 0; }
    long dt = k_now - k_set_at[t], sec = k_set[t].tv_sec, ns = k_set[t].tv_nsec;
#ifdef VH_LONG_TIMES
    sec -= dt / 1000000; dt %= 1000000;
#else
    ASSUME(dt < 1000000);
#endif
    ns -= dt * 1000;
    if (ns < 0) { ns += 1000000000; sec--; }
    o->it_value.tv_sec = sec; o->it_value.tv_nsec = ns;
    return 0;
}
int vs_clock_gettime(clockid_t c, struct timespec *t) {
    if (c == CLOCK_THREAD_CPUTIME_ID || c == CLOCK_PROCESS_CPUTIME_ID) {
        k_cpu += VH_TIME_STEP_US;
        t->tv_sec = k_cpu / 1000000; t->tv_nsec = (k_cpu % 1000000) * 1000;
    } else { t->tv_sec = k_now / 1000000; t->tv_nsec = (k_now % 1000000) * 1000; }
    return 0;
}
int vs_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { return 0; }
int vs_nanosleep(const struct timespec *a, struct timespec *b) { return 0; }
int vs_usleep(useconds_t u) { return 0; }
time_t vs_time(time_t *t) { return 1; }
int vs_prctl(int o, ...) { return 0; }
long vs_syscall(long n, ...) { return 0; }
pthread_t vs_pthread_self(void) { return 1 + k_thread; }
int vs_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) {
    /* threads run one after the other: the first one created is the storage thread, which gets its turns when the script says so */
    if (k_sfun == NULL) { k_sfun = f; k_sarg = p; *t = 100; return 0; }
    PROP(k_nthr < NW, "harness: enough threads");
    k_wfun[k_nthr] = f; k_warg[k_nthr] = p; *t = k_nthr;
    k_nthr++;
    return 0;
}
static void k_run_workers(void) {
    for (int i = 0; i < NW; i++)
        if (k_wfun[i]) { k_thread = i; void *(*f)(void *) = k_wfun[i]; k_wfun[i] = NULL; f(k_warg[i]); }
}
int vs_pthread_join(pthread_t t, void **r) {
    if (t != 100) k_run_workers();
    else { storage_turn(); vh_final(); vh_done(); }
    return 0;
}
static int k_pin[NW + 1], k_npin[NW + 1];     /* the core each worker, and the storage thread, is pinned to */
int vs_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *m) {
    int w = k_in_storage ? NW : k_thread;
    k_npin[w]++;
    for (int i = 0; i < 8; i++) if (CPU_ISSET(i, m)) k_pin[w] = k_pin[w] ? -1 : i + 1;
    return 0;
}
void vs_exit(int c) {
    PROP(0, "the node process does not exit while serving requests");
    vh_done();
}
void vs_abort(void) {
    PROP(0, "the node process does not abort while serving requests");
    vh_done();
}
void vs_perror(const char *s) {}
#ifndef VH_PRINTF
int vs_printf(const char *f, ...) { return 0; }
#endif
int vs_sprintf(char *b, const char *f, ...) { b[0] = 0; return 0; }
int vs_snprintf(char *b, size_t n, const char *f, ...) { b[0] = 0; return 0; }
int vs_fprintf(FILE *o, const char *f, ...) { return 0; }
int vs_open(const char *p, int fl, ...) { return FD_STORAGE; }
#ifndef VH_FSIZE
#define VH_FSIZE l
#endif
int vs_fallocate(int fd, int m, off_t o, off_t l) { k_fsize = VH_FSIZE; return 0; }
#ifndef VH_BLK
#define VH_BLK 16
#endif
int vs_fstat(int fd, struct stat *s) { s->st_blksize = VH_BLK; return 0; }
int vs_posix_memalign(void **p, size_t a, size_t n) { *p = malloc(n); return 0; }
int vs_pipe(int *p) {
    PROP(k_npipe < NPIPE, "harness: enough pipes");
    p[0] = FD_PIPE + 2 * k_npipe; p[1] = p[0] + 1;
    k_npipe++;
    return 0;
}
int vs_pipe2(int *p, int fl) { return vs_pipe(p); }
/* signal sets: which of the two signals of interest they contain */
int vs_sigemptyset(sigset_t *s) { *(unsigned long *)s = 0; return 0; }
int vs_sigaddset(sigset_t *s, int n) { *(unsigned long *)s |= 1ul << n; return 0; }
int vs_signalfd(int fd, const sigset_t *m, int f) { return (*(const unsigned long *)m >> SIGUSR1) & 1 ? FD_STAT : FD_TERM; }
int vs_pthread_sigmask(int h, const sigset_t *s, sigset_t *o) { return 0; }
char *vs_getenv(const char *n) { return "/h"; }
#ifndef VH_NPROC
#define VH_NPROC 4
#endif
long vs_sysconf(int n) { return VH_NPROC; }
#ifndef VH_ARGS
#define VH_ARGS(parse, st)
#endif
#ifndef VH_ATOI
#define VH_ATOI(s) 0
#endif
/* the key of a command line option, by its name */
static int opt_key(const struct argp *a, const char *name) {
    for (int i = 0; i < 64 && (a->options[i].name || a->options[i].key || a->options[i].doc); i++)
        if (a->options[i].name) {
            int k = 0;
            while (name[k] && a->options[i].name[k] == name[k]) k++;
            if (name[k] == a->options[i].name[k]) {
                while ((a->options[i].flags & OPTION_ALIAS) && i > 0) i--;
                return a->options[i].key;
            }
        }
    PROP(0, "harness: option exists");
    return 0;
}
error_t vs_argp_parse(const struct argp *argp, int argc, char **argv, unsigned fl, int *idx, void *input) {
    struct argp_state st = { .input = input };
    VH_ARGS(argp->parser, &st);
    return 0;
}
#ifndef VH_PROTO
#define VH_PROTO TCP
#endif
#define NODE_PORT 7777
void vs_addr_parse(char *s, struct sockaddr_in *a) { a->sin_family = AF_INET; a->sin_addr.s_addr = 0; a->sin_port = NODE_PORT; }
void vs_addr_proto_parse(char *a, char *n, proto_t *p) { *p = VH_PROTO; }
char *vs_inet_ntoa(struct in_addr a) { return "x"; }
struct hostent *vs_gethostbyname(const char *n) { return NULL; }
int vs_atoi(const char *s) { return VH_ATOI(s); }
long vs_atol(const char *s) { return VH_ATOI(s); }
long vs_strtol(const char *s, char **e, int b) { return VH_ATOI(s); }
#ifndef VH_SSCANF
int vs_sscanf(const char *s, const char *f, ...) { return 0; }
#endif

static void node_run(void) {
    for (int e = 0; e < NEP; e++)
        for (int i = 0; i < NFD; i++) k_regs[e][i].on = 0;
    for (int i = 0; i < NSOCK; i++) {
        k_sock_t *s = &k_sock[i];
        s->open = s->dgram = s->connecting = s->so_error = s->eof = s->reset = 0;
        s->in_pos = s->in_len = s->out_len = s->calls = s->ndg = s->dpos = 0;
    }
    for (int i = 0; i < NPIPE; i++) k_plen[i] = k_ppos[i] = k_pw[i] = k_pr[i] = k_poff[i] = 0;
    for (int i = 0; i < NTIM; i++) k_armed[i] = 0;
    for (int i = 0; i < NW; i++) { k_steps[i] = 0; k_wfun[i] = NULL; k_listening[i] = 0; }
    k_running = k_term = k_nep = k_npipe = k_nlis = k_ntim = k_nsock = k_timer_sets = k_nfop = k_nthr = k_thread = k_sstep = k_accepts = 0;
    k_sfun = NULL;
    k_fpos = 0;
    k_pending_accept = 0;
    k_now = 1000; k_cpu = 0;
    char *argv[2] = { "dw_node", NULL };
    dw_main(1, argv);
}

/* ---- building and reading wire messages ---- */
static int b_pos;
static unsigned char *b_buf;
static void b_u32(uint32_t v) {
    b_buf[b_pos] = v; b_buf[b_pos + 1] = v >> 8; b_buf[b_pos + 2] = v >> 16; b_buf[b_pos + 3] = v >> 24;
    b_pos += 4;
}
static void b_u64(uint64_t v) { b_u32((uint32_t)v); b_u32((uint32_t)(v >> 32)); }
static void b_begin(unsigned char *buf, int pos, uint32_t id) {
    b_buf = buf; b_pos = pos;
    b_u32(id); b_u32(0); b_u32(0);
}
static void b_end(int start, uint32_t size) {
    int p = b_pos; b_pos = start + 4; b_u32(size); b_pos = p;
}
static void b_compute(uint32_t us) { b_u32(COMPUTE); b_u32(us); }
static void b_reply(uint32_t size, uint8_t nack) { b_u32(REPLY); b_u32(size); b_u32(nack); }
static void b_store(uint64_t off, uint64_t n, uint8_t sync) {
    b_u32(STORE);
    int p = b_pos;
    store_opts_t o;
    for (int i = 0; i < sizeof(o); i++) b_buf[p + i] = 0;
    b_pos = p + offsetof(store_opts_t, offset); b_u64(off);
    b_pos = p + offsetof(store_opts_t, store_nbytes); b_u64(n);
    b_buf[p + offsetof(store_opts_t, wait_sync)] = sync;
    b_pos = p + sizeof(o);
}
static void b_load(uint64_t off, uint64_t n) {
    b_u32(LOAD);
    int p = b_pos;
    b_pos = p + offsetof(load_opts_t, offset); b_u64(off);
    b_pos = p + offsetof(load_opts_t, load_nbytes); b_u64(n);
    b_pos = p + sizeof(load_opts_t);
}
static void b_eom(void) { b_u32(EOM); }
#ifndef VH_FWD_PROTO
#define VH_FWD_PROTO TCP
#endif
static void b_fwd(int type, uint16_t port, uint32_t pkt, uint32_t timeout, uint8_t retries, uint8_t skip) {
    b_u32(type);
    int p = b_pos;
    for (int i = 0; i < sizeof(fwd_opts_t); i++) b_buf[p + i] = 0;
    b_pos = p + offsetof(fwd_opts_t, pkt_size); b_u32(pkt);
    b_pos = p + offsetof(fwd_opts_t, fwd_host); b_u32(0x0100007f);
    b_buf[p + offsetof(fwd_opts_t, fwd_port)] = port; b_buf[p + offsetof(fwd_opts_t, fwd_port) + 1] = port >> 8;
    b_pos = p + offsetof(fwd_opts_t, timeout); b_u32(timeout);
    b_buf[p + offsetof(fwd_opts_t, retries)] = retries;
    b_buf[p + offsetof(fwd_opts_t, on_fail_skip)] = skip;
    b_pos = p + offsetof(fwd_opts_t, proto); b_u32(VH_FWD_PROTO);
    b_pos = p + sizeof(fwd_opts_t);
}
static uint32_t g_u32(const unsigned char *b, int p) {
    return b[p] | (b[p + 1] << 8) | (b[p + 2] << 16) | ((uint32_t)b[p + 3] << 24);
}
/* a message with no commands: what a forward target answers */
static int b_answer(unsigned char *buf, int pos, uint32_t id, uint32_t size) {
    b_begin(buf, pos, id); b_eom(); b_end(pos, size);
    for (int i = pos + 16; i < pos + (int)size; i++) buf[i] = 0;
    return pos + size;
}
#endif
