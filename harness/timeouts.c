/* The timeouts of a worker, added and removed in any order with any durations while time passes: the timer is armed exactly when a
 * timeout is pending, and for the earliest one.
 * Events: 0..3 = the timeout of that request starts, A..D = it is removed, t = time passes (less than the earliest pending one),
 * T = time passes until the earliest one and that one is removed. */
#define NSOCK 1
#define INMAX 16
#define OUTMAX 16
#include "nodeenv.h"
static const char *evs = VQ_EVENTS;
static int rid[4], on[4];
static long dl[4];
static void timers_ok(void) {
    int any = 0;
    long first = 0;
    for (int i = 0; i < 4; i++) if (on[i]) { if (!any || dl[i] < first) first = dl[i]; any = 1; }
    PROP(k_armed[0] == any, "the timer is armed exactly when a timeout is pending");
    PROP(!any | (k_deadline[0] == first), "the timer is armed for the earliest pending timeout");
}
static void vh_script(int w, int step) {
    conn_worker_info_t *infos = &conn_worker_infos[0];
    for (int i = 0; i < VQ_N; i++) {
        req_info_t *r = req_alloc();
        rid[i] = r->req_id;
    }
    for (int k = 0; evs[k]; k++) {
        char e = evs[k];
        if (e >= '0' && e <= '3') {
            int i = e - '0';
            long us = VQ_US;
            insert_timeout(infos, rid[i], infos->epollfd, us);
            on[i] = 1; dl[i] = k_now + us;
        } else if (e >= 'A' && e <= 'D') {
            int i = e - 'A';
            remove_timeout(infos, rid[i], infos->epollfd);
            on[i] = 0;
        } else if (e == 't') {
            long dt = VQ_DT;
            for (int i = 0; i < 4; i++) ASSUME(!on[i] | (k_now + dt < dl[i]));
            k_now += dt;
        } else if (e == 'T') {
            int x = evs[++k] - 'A';
            for (int i = 0; i < 4; i++) ASSUME(!on[i] | (dl[x] <= dl[i]));
            /* the node drops the timeout at the head of its queue, which must be this one unless two are due */
            for (int i = 0; i < 4; i++) ASSUME(!on[i] | (i == x) | (dl[x] < dl[i]));
            k_now = dl[x];
            PROP(k_deadline[0] == dl[x], "the timer expires when the earliest timeout is due");
            remove_timeout(infos, rid[x], infos->epollfd);
            on[x] = 0;
        }
        timers_ok();
    }
    REACH("end");
    vh_done();
}
void vh_main(void) { node_run(); }
static void vh_final(void) {}
