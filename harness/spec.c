/* C09: a value or distribution specification is parsed into the quantities it spells */
#include "vh.h"
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include "distrib.h"
#include "num.h"
static double sq, ex_arg[3], ex[3];
static int nex;
double vs_sqrt(double x) { return x == 16.0 ? 4.0 : sq; }
double vs_exp(double x) { int i = nex++; ex_arg[i] = x; return ex[i]; }
double vs_log(double x) { return 0; }
long vs_lrint(double x) { return 0; }
double vs_fabs(double x) { return x < 0 ? -x : x; }
int vs_drand48_r(struct drand48_data *b, double *x) { *x = 0.5; return 0; }
int vs_srand48_r(long s, struct drand48_data *b) { return 0; }
int vs_fprintf(FILE *f, const char *m, ...) { return 0; }
int vs_sprintf(char *s, const char *m, ...) { return 0; }
void vs_exit(int c) {
    PROP(VQ_REJECT, "a right specification is accepted");
#if VQ_REJECT
    REACH("rejected");
#endif
    vh_done();
    for (;;) ;
}
static int same(double a, double b) { return (isnan(a) && isnan(b)) || a == b; }
void vh_main(void) {
    static char s[] = VQ_SPEC;
    pd_spec_t p;
    for (int i = 0; i < 10; i++) { inum[i] = nd_irange(0, 1000); dnum[i] = (double)inum[i]; }
    sq = dnum[0];
    for (int i = 0; i < 3; i++) ex[i] = (double)nd_irange(1, 1000);
    int rv = VQ_FN(&p, s);
    PROP(!VQ_REJECT || rv == 0, "a wrong specification is rejected");
#if !VQ_REJECT
    PROP(rv == 1, "a right specification is accepted");
    PROP(p.prob == VQ_PROB, "the named distribution is set");
    PROP(same(p.val, VQ_VAL), "the value is the one spelled");
    PROP(same(p.std, VQ_STD), "the standard deviation or step is the one spelled");
    PROP(same(p.min, VQ_MIN), "the minimum is the one spelled");
    PROP(same(p.max, VQ_MAX), "the maximum is the one spelled");
    REACH("accepted");
#endif
}
