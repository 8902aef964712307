/* C08: consecutive samples of a distribution given by its specification; random draws and transcendental functions are
 * arbitrary, at most VQ_DRAWS draws are needed. */
#include "vh.h"
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include "distrib.h"
#include "num.h"
#ifndef VQ_DRAWS
#define VQ_DRAWS 3
#endif
#ifndef VQ_NMIN
#define VQ_NMIN 0
#endif
#ifndef VQ_NMAX
#define VQ_NMAX 1000
#endif
#ifndef VQ_XBITS
#define VQ_XBITS 8
#endif
#ifndef VQ_FMAX
#define VQ_FMAX 4000
#endif
static int draws;
double vs_sqrt(double x) { return 2.0; }
double vs_exp(double x) { return (double)nd_irange(0, VQ_FMAX); }
double vs_log(double x) { return -(double)nd_irange(0, VQ_FMAX); }
long vs_lrint(double x) { return VQ_K; }
double vs_fabs(double x) { return x < 0 ? -x : x; }
int vs_drand48_r(struct drand48_data *b, double *x) {
    ASSUME(draws < VQ_DRAWS);
    draws++;
    *x = (double)nd_range(0, (1 << VQ_XBITS) - 1) / (1 << VQ_XBITS);
    return 0;
}
int vs_srand48_r(long s, struct drand48_data *b) { return 0; }
int vs_fprintf(FILE *f, const char *m, ...) { return 0; }
int vs_sprintf(char *s, const char *m, ...) { return 0; }
void vs_exit(int c) { PROP(0, "a right specification is accepted"); vh_done(); for (;;) ; }
/* the file of a file: distribution */
static const char *lines[] = { VQ_LINES "" };
static int line;
#ifdef VQ_FILE
FILE *vs_fopen(const char *n, const char *m) { static int f; PROP(n[0] == 'x' && n[1] == 0, "the named file is read"); return (FILE *)&f; }
char *vs_fgets(char *s, int n, FILE *f) {
    if (lines[line][0] == 0) return NULL;
    int i = 0;
    for (; lines[line][i]; i++) s[i] = lines[line][i];
    s[i] = 0;
    line++;
    return s;
}
int vs_fclose(FILE *f) { return 0; }
#endif
#define V(i) dnum[i]
void vh_main(void) {
    static char s[] = VQ_SPEC;
    pd_spec_t p;
    for (int i = 0; i < 10; i++) { inum[i] = nd_irange(VQ_NMIN, VQ_NMAX); dnum[i] = (double)inum[i]; }
    ASSUME(VQ_ASSUME);
    pd_parse(&p, s);
    double prev = 0;
    for (int i = 0; i < VQ_N; i++) {
        double v = pd_sample(&p);
        PROP(VQ_EXPECT, "a sample is the one specified");
        prev = v;
    }
    REACH("end");
}
