/* C23: a core list and the assignment of threads to the listed cores; every number of VQ_TEXT and the machine size are arbitrary */
#include "vh.h"
#include <sched.h>
#include <stdio.h>
#include "thread_affinity.h"
#include "num.h"
#define MAXC 8
static int bad;
int vs_fprintf(FILE *f, const char *m, ...) { return 0; }
void vs_exit(int c) {
    PROP(bad, "a list of existing cores is accepted");
#if VQ_BAD
    REACH("rejected");
#endif
    vh_done();
    for (;;) ;
}
static int tok[][3] = { VQ_TOK };            /* from, to, step: numbers by their name, -1 if absent */
void vh_main(void) {
    static char s[] = VQ_TEXT;
    static cpu_set_t m;
    int ncpu = VQ_NCPU, want[MAXC], first = -1;
    for (int i = 0; i < MAXC; i++) want[i] = 0;
    for (int i = 0; i < 10; i++) inum[i] = nd_range(0, VQ_MAXN);
    for (int i = 0; i < MAXC; i++) if (nd_bool()) CPU_SET(i, &m);             /* whatever was there before */
    for (int t = 0; t < VQ_NTOK; t++) {
        int a = inum[tok[t][0]], b = tok[t][1] < 0 ? a : inum[tok[t][1]], st = tok[t][2] < 0 ? 1 : inum[tok[t][2]];
        if (a > b) { int x = a; a = b; b = x; }
        if (b >= ncpu || st <= 0) { bad = 1; break; }
        for (int i = 0; i < MAXC; i++) if (i >= a && i <= b && (i - a) % st == 0) want[i] = 1;
    }
#if VQ_BAD
    bad = 1;
#endif
    aff_list_parse(s, &m, ncpu);
    PROP(!bad, "a list with a wrong core or step is rejected");
#if !VQ_BAD
    for (int i = 0; i < MAXC; i++) PROP(!!CPU_ISSET(i, &m) == want[i], "exactly the listed cores are selected");
    int it = aff_it_init(&m, ncpu);
    for (int i = MAXC - 1; i >= 0; i--) if (want[i]) first = i;
    PROP(it == first, "threads are assigned from the lowest core");
    for (int k = 0; k < VQ_STEPS; k++) {
        int next = first;
        for (int i = MAXC - 1; i >= 0; i--) if (want[i] && i > it) next = i;
        aff_it_next(&it, &m, ncpu);
        PROP(it == next, "threads are assigned to the cores in increasing order, wrapping around");
        it = next;
    }
    REACH("selected");
#endif
}
