/* C23 at node level: which core each worker and the storage thread is pinned to.  The core numbers of VQ_LIST are arbitrary. */
#define NW VQ_N
#define NEP (VQ_N + 1)
#define NSOCK 1
#define INMAX 40
#define OUTMAX 16
#define VH_SSCANF
#define VH_ATOI(s) ((s)[0] - '0')
static char nt_arg[2] = { '0' + VQ_N, 0 };
static char list[] = VQ_LIST;
#define VH_ARGS(parse, st) do { \
    parse(opt_key(argp, "num-threads"), nt_arg, st); \
    if (VQ_CORES) parse(opt_key(argp, "thread-affinity"), list, st); } while (0)
#include <string.h>
#include <argp.h>
#define vs_atoi num_atoi
#define vs_atol num_atol
#define vs_strtol num_strtol
#include "num.h"
#undef vs_atoi
#undef vs_atol
#undef vs_strtol
#include "nodeenv.h"
static int want[8], auto_mask;
int vs_sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
    for (int i = 0; i < VH_NPROC; i++) if ((auto_mask >> i) & 1) CPU_SET(i, m);
    return 0;
}
static void vh_script(int w, int step) { if (w == 0 && step == 0) storage_turn(); terminate(); }
void vh_main(void) {
    for (int i = 0; i < 10; i++) inum[i] = nd_range(0, VH_NPROC - 1);
    auto_mask = nd_range(1, (1 << VH_NPROC) - 1);
    for (int i = 0; i < 8; i++) {
        want[i] = 0;
        if (VQ_CORES == 1) want[i] = inum[1] == i || inum[2] == i;
        if (VQ_CORES == 2) want[i] = (auto_mask >> i) & 1;
    }
    node_run();
}
static void vh_final(void) {
    int prev = -1;
    for (int t = 0; t <= NW; t++) {                         /* the workers, then the storage thread */
        if (!VQ_CORES) { PROP(k_npin[t] == 0, "no thread is pinned unless asked for"); continue; }
        int next = -1;
        for (int i = 7; i >= 0; i--) if (want[i]) next = i;
        for (int i = 7; i >= 0; i--) if (want[i] && i > prev) next = i > prev ? i : next;
        PROP(k_npin[t] == 1, "every thread is pinned");
        PROP(k_pin[t] == next + 1, "threads are pinned to the selected cores in increasing order, wrapping around");
        prev = next;
    }
    REACH("pinned");
}
