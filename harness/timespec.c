/* C06: time arithmetic on normalised values */
#include "vh.h"
#include <stdlib.h>
#include "timespec.h"
#define NS 1000000000LL
static struct timespec any(void) {
    struct timespec t;
    uint64_t s = nd_u64();
    ASSUME((s >> 33) == 0);
    t.tv_sec = s;
    t.tv_nsec = nd_range(0, 999999999);
    return t;
}
void vh_main(void) {
    struct timespec a = any(), b = any();
#if VQ_PART == 0
    struct timespec c = ts_add(a, b);
    PROP((c.tv_nsec >= 0) & (c.tv_nsec < NS), "sum is normalised");
    int64_t carry = c.tv_sec - a.tv_sec - b.tv_sec;
    PROP((carry == 0) | (carry == 1), "sum carries at most one second");
    PROP(c.tv_nsec + (carry ? NS : 0) == (int64_t)a.tv_nsec + b.tv_nsec, "sum is exact");
    if (carry) REACH("carry");
#elif VQ_PART == 1
    struct timespec d = ts_sub(a, b);
    PROP((d.tv_nsec >= 0) & (d.tv_nsec < NS), "difference is normalised");
    int64_t borrow = a.tv_sec - b.tv_sec - d.tv_sec;
    PROP((borrow == 0) | (borrow == 1), "difference borrows at most one second");
    PROP(d.tv_nsec - (borrow ? NS : 0) == (int64_t)a.tv_nsec - b.tv_nsec, "difference is exact");
    int lt = (a.tv_sec < b.tv_sec) | ((a.tv_sec == b.tv_sec) & (a.tv_nsec < b.tv_nsec));
    int eq = (a.tv_sec == b.tv_sec) & (a.tv_nsec == b.tv_nsec);
    /* equal instants: either answer of the "less or equal" test is an order */
    if (!eq) PROP(!!ts_leq(a, b) == lt, "ordering agrees with the order of the instants");
    if (lt) REACH("earlier");
    if (borrow) REACH("borrow");
#elif VQ_PART == 2
    /* a = b + (ds seconds, u microseconds, w nanoseconds): every pair of normalised values has this form */
    uint32_t u = nd_range(0, 999999), w = nd_range(0, 999), n = u * 1000u + w + (uint32_t)b.tv_nsec;
    int carry = n >= NS;
    a.tv_nsec = carry ? n - NS : n;
    long want = ((long)a.tv_sec - (long)b.tv_sec - carry) * 1000000 + (long)u;
    long us = ts_sub_us(a, b);
    PROP(us == want, "difference in microseconds is the exact difference rounded down");
    if (us < 0) REACH("negative difference");
#else
    uint32_t s = nd_range(0, 2147), u = nd_range(0, 999999);
    ASSUME((s < 2147) | (u <= 483647));
    int m = s * 1000000 + u;                     /* every non-negative 31-bit count */
#if VQ_PART == 3
    struct itimerspec it = us_to_its(m);
    PROP((it.it_value.tv_nsec >= 0) & (it.it_value.tv_nsec < NS), "timer setting is normalised");
    PROP((it.it_value.tv_sec == s) & (it.it_value.tv_nsec == u * 1000), "timer setting is the given duration");
    PROP((it.it_interval.tv_sec == 0) & (it.it_interval.tv_nsec == 0), "timer setting is one-shot");
#else
    struct itimerspec t = { 0 };
    t.it_value.tv_sec = s; t.it_value.tv_nsec = u * 1000;
    PROP(its_to_us(t) == m, "a timer setting converts to its duration");
#endif
    REACH("end");
#endif
}
