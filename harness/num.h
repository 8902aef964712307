/* Text with numbers: in the strings of a scenario a single digit d stands for an arbitrary number (dnum[d], inum[d]), longer
 * digit strings for themselves.  The conversion routines of libc are replaced accordingly, everything else of the parsing is
 * the real code. */
#ifndef NUM_H
#define NUM_H
#include <stdarg.h>
#include <string.h>
static double dnum[10];
static long inum[10];
static int n_len(const char *s) {           /* length of the number at s, 0 if there is none */
    int i = (s[0] == '-' || s[0] == '+');
    if (s[i] < '0' || s[i] > '9') return 0;
    while (s[i] >= '0' && s[i] <= '9') i++;
    return i;
}
static long n_int(const char *s) {
    int neg = s[0] == '-', i = (s[0] == '-' || s[0] == '+');
    long v = 0;
    if (s[i + 1] < '0' || s[i + 1] > '9') v = inum[s[i] - '0'];
    else for (; s[i] >= '0' && s[i] <= '9'; i++) v = v * 10 + (s[i] - '0');
    return neg ? -v : v;
}
static double n_dbl(const char *s) {
    int neg = s[0] == '-', i = (s[0] == '-' || s[0] == '+');
    double v;
    if (s[i + 1] < '0' || s[i + 1] > '9') v = dnum[s[i] - '0'];
    else { long k = 0; for (; s[i] >= '0' && s[i] <= '9'; i++) k = k * 10 + (s[i] - '0'); v = k; }
    return neg ? -v : v;
}
int vs_sscanf(const char *s, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int n = 0;
    while (*f) {
        if (*f == '%') {
            int l = n_len(s);
            if (l == 0) { va_end(ap); return n == 0 && *s == 0 ? -1 : n; }
            if (f[1] == 'l' && f[2] == 'f') { *va_arg(ap, double *) = n_dbl(s); f += 3; }
            else if (f[1] == 'l') { *va_arg(ap, long *) = n_int(s); f += 3; }
            else { *va_arg(ap, int *) = n_int(s); f += 2; }
            s += l;
            n++;
        } else {
            if (*f != *s) { va_end(ap); return n == 0 && *s == 0 ? -1 : n; }
            f++; s++;
        }
    }
    va_end(ap);
    return n;
}
long vs_strtol(const char *s, char **e, int b) { int l = n_len(s); if (e) *e = (char *)s + l; return l ? n_int(s) : 0; }
double vs_strtod(const char *s, char **e) { int l = n_len(s); if (e) *e = (char *)s + l; return l ? n_dbl(s) : 0; }
double vs_atof(const char *s) { return n_len(s) ? n_dbl(s) : 0; }
int vs_atoi(const char *s) { return n_len(s) ? (int)n_int(s) : 0; }
long vs_atol(const char *s) { return n_len(s) ? n_int(s) : 0; }
char *vs_strsep(char **sp, const char *del) {
    char *s = *sp;
    if (s == NULL) return NULL;
    for (char *p = s; ; p++) {
        if (*p == 0) { *sp = NULL; return s; }
        for (const char *d = del; *d; d++)
            if (*d == *p) { *p = 0; *sp = p + 1; return s; }
    }
}
#endif
