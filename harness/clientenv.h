/* Environment of dw_client: the client program runs from its main(), against sockets, clocks and threads modelled here.
 * A harness supplies
 *     void vh_sent(int s, const unsigned char *b, size_t n)  - n bytes were sent on the s-th connection
 *     void vh_receive(int s) - the client waits for data of the s-th connection: put bytes to k_in[s], set k_in_len[s] or k_eof[s]
 *     void vh_report(long v[5])  - a response time line was printed
 *     void vh_final(void)    - the client returned
 * Time passes only where the harness lets it pass (k_now, in microseconds).  The sender thread runs when it is created
 * (VH_LATE: when the receiver first waits for data). */
#ifndef CLIENTENV_H
#define CLIENTENV_H
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include "num.h"
#include "dw_client.c"
#ifndef NCONN
#define NCONN 2
#endif
#ifndef INMAX
#define INMAX 64
#endif
#ifndef VH_LATE
#define VH_LATE 0
#endif
#ifndef VH_CONNECT
#define VH_CONNECT(n) 0             /* 0 ok, else the errno of the n-th connect() */
#endif
#ifndef VH_SEND
#define VH_SEND(s, n) 0             /* 0 ok, else the errno of the n-th send on connection s */
#endif
#ifndef VH_CHUNK
#define VH_CHUNK(s, len) (len)      /* how many of the available bytes one receive returns */
#endif
#ifndef VH_THREADS
#define VH_THREADS 1
#endif
#define FD0 3
static void vh_sent(int s, const unsigned char *b, size_t n), vh_receive(int s), vh_report(long *v), vh_final(void), vh_sleep(long us);
static long k_now = 1000;
static int k_nconn, k_nconnect, k_open[NCONN], k_dgram[NCONN], k_down[NCONN], k_eof[NCONN];
static unsigned char k_in[NCONN][INMAX];
static int k_in_len[NCONN], k_in_pos[NCONN], k_sends[NCONN];
static int k_in_thread, k_in_sender;
static void *(*k_sender)(void *);
static void *k_sarg;
static void *(*k_recvf[2])(void *);
static void *k_recva[2];
static int k_nrecv;
static struct sockaddr_in k_peer[NCONN];

int vs_socket(int d, int t, int p) {
    PROP(k_nconn < NCONN, "no more connections than sessions are opened");
    if (k_nconn >= NCONN) { vh_done(); for (;;) ; }
    k_dgram[k_nconn] = (t & 0xf) == SOCK_DGRAM;
    k_open[k_nconn] = 1;
    return FD0 + k_nconn++;
}
#define CONN(fd) ((fd) - FD0)
#define OPEN_PROP(fd) PROP((fd) >= FD0 && (fd) < FD0 + k_nconn && k_open[CONN(fd)], "only open sockets are used")
int vs_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return 0; }
int vs_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { return 0; }
int vs_bind(int fd, const struct sockaddr *a, socklen_t n) { OPEN_PROP(fd); return 0; }
int vs_listen(int fd, int n) { return 0; }
int vs_accept(int fd, struct sockaddr *a, socklen_t *n) { return -1; }
int vs_connect(int fd, const struct sockaddr *a, socklen_t n) {
    OPEN_PROP(fd);
    k_peer[CONN(fd)] = *(const struct sockaddr_in *)a;
    int e = VH_CONNECT(k_nconnect);
    k_nconnect++;
    k_now += 1;
    if (e) { errno = e; return -1; }
    return 0;
}
ssize_t vs_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) {
    OPEN_PROP(fd);
    int s = CONN(fd);
    int e = VH_SEND(s, k_sends[s]);
    if (e) { errno = e; return -1; }
    k_sends[s]++;
    vh_sent(s, b, n);
    return n;
}
ssize_t vs_send(int fd, const void *b, size_t n, int f) { return vs_sendto(fd, b, n, f, NULL, 0); }
static void k_run_sender(void) {
    if (k_sender == NULL) return;
    void *(*f)(void *) = k_sender;
    k_sender = NULL;
    k_in_sender = 1;
    f(k_sarg);
    k_in_sender = 0;
}
ssize_t vs_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) {
    OPEN_PROP(fd);
    int s = CONN(fd);
    k_run_sender();
    if (k_in_pos[s] == k_in_len[s]) vh_receive(s);
    int av = k_in_len[s] - k_in_pos[s];
    if (av == 0 && !k_eof[s]) { errno = ECONNRESET; return -1; }
    int c = VH_CHUNK(s, av);
    PROP((size_t)c <= n, "there is room to receive");
    for (int i = 0; i < c; i++) ((unsigned char *)b)[i] = k_in[s][k_in_pos[s] + i];
    k_in_pos[s] += c;
    return c;
}
ssize_t vs_recv(int fd, void *b, size_t n, int f) { return vs_recvfrom(fd, b, n, f, NULL, NULL); }
int vs_shutdown(int fd, int how) { OPEN_PROP(fd); k_down[CONN(fd)] = 1; return 0; }
int vs_close(int fd) { OPEN_PROP(fd); k_open[CONN(fd)] = 0; return 0; }
int vs_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) {
    if (VH_THREADS > 1 && !k_in_thread) {         /* a thread of the configured number, else the sender of a session */
        PROP(k_nrecv < 2, "no more threads than configured are started");
        if (k_nrecv >= 2) return -1;
        k_recvf[k_nrecv] = f; k_recva[k_nrecv] = p; *t = 100 + k_nrecv++;
        return 0;
    }
    PROP(k_sender == NULL, "one sender at a time");
    k_sender = f; k_sarg = p; *t = 200;
    if (!VH_LATE) k_run_sender();
    return 0;
}
int vs_pthread_join(pthread_t t, void **r) {
    if (t >= 200) { k_run_sender(); return 0; }
    k_in_thread = 1;
    k_recvf[t - 100](k_recva[t - 100]);
    k_in_thread = 0;
    return 0;
}
pthread_t vs_pthread_self(void) { return 1; }
int vs_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *m) { return 0; }
int vs_prctl(int o, ...) { return 0; }
long vs_syscall(long n, ...) { return 0; }
/* up to 4 seconds, so that no division is needed */
#ifndef VH_CLOCK
#define VH_CLOCK()                  /* what happens before the clock is read */
#endif
int vs_clock_gettime(clockid_t c, struct timespec *t) {
    VH_CLOCK();
    ASSUME(k_now >= 0 && k_now < 4000000);
    t->tv_sec = k_now >= 3000000 ? 3 : k_now >= 2000000 ? 2 : k_now >= 1000000 ? 1 : 0;
    t->tv_nsec = (k_now - t->tv_sec * 1000000) * 1000;
    return 0;
}
int vs_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
    PROP(t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "a well formed deadline");
    vh_sleep(t->tv_sec * 1000000 + t->tv_nsec / 1000 + (fl & TIMER_ABSTIME ? 0 : k_now));
    return 0;
}
int vs_nanosleep(const struct timespec *t, struct timespec *r) { return 0; }
int vs_usleep(useconds_t u) { k_now += u; return 0; }
time_t vs_time(time_t *t) { return 1; }
int vs_timerfd_create(int c, int f) { return -1; }
int vs_timerfd_settime(int fd, int f, const struct itimerspec *n, struct itimerspec *o) { return -1; }
int vs_timerfd_gettime(int fd, struct itimerspec *n) { return -1; }
#ifndef VH_EXIT
#define VH_EXIT 0                   /* 1: the client has to give up */
#endif
void vs_exit(int c) {
    PROP(VH_EXIT, "the client does not give up");
#if VH_EXIT
    vh_final();
#endif
    vh_done();
    for (;;) ;
}
void vs_abort(void) { PROP(0, "the client does not abort"); vh_done(); for (;;) ; }
void vs_argp_failure(const struct argp_state *s, int st, int e, const char *f, ...) { vs_exit(1); }
void vs_argp_state_help(const struct argp_state *s, FILE *o, unsigned f) {}
void vs_perror(const char *s) {}
int vs_fprintf(FILE *o, const char *f, ...) { return 0; }
int vs_sprintf(char *b, const char *f, ...) { b[0] = 0; return 0; }
int vs_snprintf(char *b, size_t n, const char *f, ...) { b[0] = 0; return 0; }
char *vs_strerror(int e) { return "error"; }
char *vs_inet_ntoa(struct in_addr a) { return "x"; }
typedef void (*k_sig_t)(int);
k_sig_t vs_signal(int n, k_sig_t h) { return NULL; }
void vs_srand(unsigned s) {}
int vs_printf(const char *f, ...) {
    if (f[0] != 't' || f[1] != ':') return 0;
    long v[5];
    int n = 0;
    va_list ap;
    va_start(ap, f);
    for (int i = 0; f[i]; i++)
        if (f[i] == '%' && n < 5) {
            if (f[i + 1] == 'l') v[n++] = va_arg(ap, long);
            else v[n++] = va_arg(ap, int);
        }
    va_end(ap);
    PROP(n == 5, "a complete line is printed");
    vh_report(v);
    return 0;
}
/* targets are named by letters: the host and port of each are arbitrary; upper case: UDP */
static uint32_t k_host[26];
static uint16_t k_port[26];
void vs_addr_proto_parse(char *a, char *n, proto_t *p) {
    int up = a[0] >= 'A' && a[0] <= 'Z';
    *p = up ? UDP : TCP;
    n[0] = up ? a[0] - 'A' + 'a' : a[0];
    n[1] = 0;
}
void vs_addr_parse(char *s, struct sockaddr_in *a) {
    a->sin_family = AF_INET;
    a->sin_addr.s_addr = s[0] >= 'a' && s[0] <= 'z' ? k_host[s[0] - 'a'] : 0;
    a->sin_port = s[0] >= 'a' && s[0] <= 'z' ? k_port[s[0] - 'a'] : 0;
}
static const struct argp *k_argp;
static struct argp_state k_st;
/* the key of a command line option, by its name */
static int opt_key(const struct argp *a, const char *name) {
    for (int i = 0; i < 64 && (a->options[i].name || a->options[i].key || a->options[i].doc); i++)
        if (a->options[i].name) {
            int k = 0;
            while (name[k] && a->options[i].name[k] == name[k]) k++;
            if (name[k] == a->options[i].name[k]) {
                while ((a->options[i].flags & OPTION_ALIAS) && i > 0) i--;
                return a->options[i].key;
            }
        }
    PROP(0, "harness: option exists");
    return 0;
}
/* the same options in a script file: one per line, with comments and blank lines in between */
static char k_line[10][56];
static int k_nline, k_rline, k_script;
FILE *vs_fopen(const char *n, const char *m) { static int f; return (FILE *)&f; }
int vs_feof(FILE *f) { return k_rline >= k_nline; }
int vs_fclose(FILE *f) { return 0; }
char *vs_fgets(char *b, int n, FILE *f) {
    if (k_rline >= k_nline) return NULL;
    int i = 0;
    for (; k_line[k_rline][i]; i++) b[i] = k_line[k_rline][i];
    b[i] = 0;
    k_rline++;
    return b;
}
char *vs_strdup(const char *s) {
    static char pool[24][32];
    static int n;
    PROP(n < 24, "harness: enough room for the words of a script");
    char *d = pool[n++];
    int i = 0;
    for (; s[i]; i++) d[i] = s[i];
    d[i] = 0;
    return d;
}
size_t vs_strspn(const char *s, const char *a) {
    size_t i = 0;
    for (; s[i]; i++) { int k = 0; while (a[k] && a[k] != s[i]) k++; if (!a[k]) break; }
    return i;
}
static void k_put(const char *t, int *p) { for (int i = 0; t[i]; i++) k_line[k_nline][(*p)++] = t[i]; }
static void opt(const char *name, char *arg) {
    if (k_script) {
        int p = 0, k = opt_key(k_argp, name);
        char c[2] = { k < 128 ? (char)k : 0, 0 };
        if (k_nline & 1) k_put("# comment\n", &p), k_nline++, p = 0;
        if (c[0] && k_script == 2) { k_put("-", &p); k_put(c, &p); } else { k_put(k_script == 2 ? "--" : "  ", &p); k_put(name, &p); }
        if (arg) { k_put(" ", &p); k_put(arg, &p); }
        k_put("\n", &p);
        k_nline++;
    } else k_argp->parser(opt_key(k_argp, name), arg, &k_st);
}
static void vh_args(void);
error_t vs_argp_parse(const struct argp *argp, int argc, char **argv, unsigned fl, int *idx, void *input) {
    k_argp = argp;
    k_st.input = input;
    argp->parser(ARGP_KEY_INIT, NULL, &k_st);
#ifdef VH_SCRIPT
    k_script = VH_SCRIPT;
#endif
    vh_args();
    if (k_script) { static char fn[] = "f"; argp->parser(opt_key(argp, "script-filename"), fn, &k_st); }
    argp->parser(ARGP_KEY_END, NULL, &k_st);
    return 0;
}
static void client_run(void) {
    char *argv[2] = { "dw_client", NULL };
    dw_main(1, argv);
    vh_final();
    vh_done();
}
static uint32_t o_u32(const unsigned char *b) { return b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24; }
static uint64_t o_u64(const unsigned char *b) { return o_u32(b) | (uint64_t)o_u32(b + 4) << 32; }
#endif
