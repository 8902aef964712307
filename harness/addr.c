/* C22: an address text.  In VQ_TEXT, H stands for an arbitrary host character, 9 for an arbitrary digit, ? for an arbitrary
 * character that is no digit, sign or blank; everything else is literal.  VQ_BAD: the text must be rejected. */
#include "vh.h"
#include <netdb.h>
#include <stdio.h>
#include <string.h>
#include <arpa/inet.h>
#include "address_utils.h"
static char host[40];
static int lookups;
static unsigned char ip[4];
static char *addrs[2] = { (char *)ip, 0 };
static struct hostent he;
struct hostent *vs_gethostbyname(const char *n) {
    int i = 0;
    for (; n[i] && i < 39; i++) host[i] = n[i];
    host[i] = 0;
    lookups++;
    he.h_addrtype = AF_INET; he.h_length = 4; he.h_addr_list = addrs;
#ifdef VQ_UNKNOWN
    return NULL;
#endif
    return &he;
}
char *vs_inet_ntoa(struct in_addr a) { static char b[4] = "ip"; return b; }
long vs_strtol(const char *s, char **e, int b) {
    int neg = s[0] == '-', i = (s[0] == '-' || s[0] == '+'), n = 0;
    long v = 0;
    for (; s[i] >= '0' && s[i] <= '9'; i++, n++) v = v * 10 + (s[i] - '0');
    if (e) *e = (char *)(n ? s + i : s);
    return neg ? -v : v;
}
int vs_atoi(const char *s) { return vs_strtol(s, NULL, 10); }
char *vs_strchr(const char *s, int c) { for (; ; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *vs_strstr(const char *s, const char *n) {
    for (; ; s++) {
        int i = 0;
        while (n[i] && s[i] == n[i]) i++;
        if (!n[i]) return (char *)s;
        if (!*s) return NULL;
    }
}
char *vs_strtok_r(char *s, const char *del, char **sp) {
    if (s == NULL) s = *sp;
    while (*s && vs_strchr(del, *s)) s++;
    if (!*s) { *sp = s; return NULL; }
    char *t = s;
    while (*s && !vs_strchr(del, *s)) s++;
    if (*s) *s++ = 0;
    *sp = s;
    return t;
}
int vs_fprintf(FILE *f, const char *m, ...) { return 0; }
static int bad;
void vs_exit(int c) {
    PROP(bad, "an address of a documented form is accepted");
#if VQ_BAD
    REACH("rejected");
#endif
    vh_done();
    for (;;) ;
}
static int eq(const char *a, const char *b, int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
void vh_main(void) {
    static char t[] = VQ_TEXT, arg[sizeof(t) + 1], h[sizeof(t) + 1], hp[MAX_HOSTPORT_STRLEN] = DEFAULT_ADDR ":" DEFAULT_PORT, before[MAX_HOSTPORT_STRLEN];
    struct sockaddr_in a;
    proto_t proto = VQ_PROTO0;
    int hl = 0, pd = 0;
    long port = 0;
    for (int i = 0; i < 4; i++) ip[i] = nd_u8();
    for (int i = 0; t[i]; i++) {
        unsigned char c = t[i];
        if (c == 'H') {
            c = nd_u8();
            ASSUME((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.');
            h[hl++] = c;
        } else if (c == '9') {
            c = '0' + nd_range(0, 9);
            port = port * 10 + (c - '0');
            pd++;
        } else if (c == '?') {
            c = nd_u8();
            ASSUME(c > ' ' && c != '/' && c != '+' && c != '-' && !(c >= '0' && c <= '9'));
        }
        arg[i] = c;
    }
    /* a host named as a protocol is the protocol */
    ASSUME(!(hl == 3 && VQ_PLAIN && (eq(h, "udp", 3) || eq(h, "tcp", 3))));
    ASSUME(!VQ_BAD || pd == 0 || port > 0);                   /* -0 is 0 */
    bad = VQ_BAD || port > 65535;
    addr_proto_parse(arg, hp, &proto);
    memcpy(before, hp, sizeof(hp));
    memset(&a, 0x5a, sizeof(a));
    addr_parse(hp, &a);
    PROP(!bad, "a wrong address is rejected");
#if !VQ_BAD
    PROP(proto == VQ_PROTO, "the protocol is the one spelled");
    PROP(lookups == 1, "the host is looked up");
    if (hl == 0) PROP(eq(host, DEFAULT_ADDR, sizeof(DEFAULT_ADDR)), "an omitted host is the default one");
    else PROP(eq(host, h, hl) && host[hl] == 0, "the host is the one spelled");
    unsigned char *pp = (unsigned char *)&a.sin_port, *ap = (unsigned char *)&a.sin_addr;
    if (pd == 0) port = 7891;
    PROP((pp[0] << 8 | pp[1]) == port, "the port is the one spelled");
    PROP(a.sin_family == AF_INET && eq((char *)ap, (char *)ip, 4), "the address is the one of the host");
    PROP(eq(hp, before, sizeof(hp)), "the text is left unchanged");
    REACH("parsed");
#endif
}
