/* Harness support: one source, two readings.
 *   - under CBMC (goto-cc): nd_*() are unconstrained symbolic values, ASSUME/PROP/REACH are solver obligations;
 *   - natively (-DREPLAY, gcc -fsanitize=...): nd_*() read the solver's values back in order, and a violated
 *     PROP ends the process with status 99.
 * Every harness drives the real sources of /repo/src; only the environment (system calls) is replaced.
 */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stddef.h>

/* libc entry points the harness itself must reach under their real names are declared here by hand,
 * because -Dname=vs_name renames them for the whole translation unit. */

#ifndef REPLAY

extern uint64_t nondet_vh_u64(void);
uint64_t __vh_last;              /* every symbolic value drawn appears in the trace as an assignment here */
static inline uint64_t nd_u64(void) { uint64_t v = nondet_vh_u64(); __vh_last = v; return v; }
#define ASSUME(c)     __CPROVER_assume(c)
#define PROP(c, msg)  __CPROVER_assert((c), "PROP " msg)
#define KNOWN_PROP(c, label, msg)  __CPROVER_assert((c), "KNOWN[" label "] " msg)   /* a recorded finding */
#define REACH(msg)    __CPROVER_assert(0, "REACH " msg)

static inline void vh_done(void) { __CPROVER_assume(0); }   /* end of this execution */

#else /* REPLAY */

uint64_t vh_next(void);
void vh_fail(const char *msg, const char *file, int line);
void vh_done(void);
void vh_diverged(const char *msg, const char *file, int line);
static inline uint64_t nd_u64(void) { return vh_next(); }
#define ASSUME(c)     do { if (!(c)) vh_diverged(#c, __FILE__, __LINE__); } while (0)
#define PROP(c, msg)  do { if (!(c)) vh_fail("PROP " msg, __FILE__, __LINE__); } while (0)
#define KNOWN_PROP(c, label, msg)  do { if (!(c)) vh_known(label); } while (0)
void vh_known(const char *label);
#define REACH(msg)    ((void)0)

#endif

static inline uint8_t  nd_u8(void)  { return (uint8_t)nd_u64(); }
static inline uint16_t nd_u16(void) { return (uint16_t)nd_u64(); }
static inline uint32_t nd_u32(void) { return (uint32_t)nd_u64(); }
static inline int      nd_int(void) { return (int)(uint32_t)nd_u64(); }
static inline int      nd_bool(void){ return (int)(nd_u64() & 1); }
/* arbitrary value in lo..hi */
static inline uint32_t nd_range(uint32_t lo, uint32_t hi) {
    uint32_t v = nd_u32(); ASSUME((v >= lo) & (v <= hi)); return v;
}
static inline int nd_irange(int lo, int hi) {
    int v = nd_int(); ASSUME((v >= lo) & (v <= hi)); return v;
}

/* arbitrary value in lo..hi, as a chain of decisions: with path-wise symbolic execution every path sees a constant */
static inline int nd_choose(int lo, int hi) {
    int v = nd_irange(lo, hi);
    for (int i = lo; i < hi; i++)
        if (v == i) return i;
    return hi;
}

void vh_main(void);   /* the harness */

#endif
