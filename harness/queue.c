/* Bounded double-ended queue against an explicit reference sequence. */
#include "vh.h"
#include "queue.h"

#ifndef VQ_OPS
#define VQ_OPS 8
#endif
#ifndef VQ_CAP
#define VQ_CAP 4
#endif

void vh_main(void) {
    int cap = VQ_CAP;
    queue_t *q = queue_alloc(cap);
    PROP(queue_capacity(q) == cap && queue_size(q) == 0, "fresh queue is empty with the requested capacity");
    int rk[VQ_CAP]; uint64_t rd[VQ_CAP];
    int n = 0, wrapped = 0, refused = 0, total = 0;
    for (int i = 0; i < VQ_OPS; i++) {
        int op = nd_irange(0, 3);
        if (op == 0) {
            int k = nd_int();
            data_t d = { .value = nd_u64() };
            node_t *p = queue_enqueue(q, k, d);
            if (n == cap) {
                PROP(p == NULL, "enqueue on a full queue is refused");
                refused = 1;
            } else {
                PROP(p != NULL && p->key == k && p->data.value == d.value, "enqueue returns the new element");
                rk[n] = k; rd[n] = d.value; n++; total++;
                if (total > cap) wrapped = 1;
            }
        } else if (op == 1) {
            queue_dequeue_head(q);
            if (n > 0) {
                for (int j = 0; j + 1 < VQ_CAP; j++)
                    if (j + 1 < n) { rk[j] = rk[j + 1]; rd[j] = rd[j + 1]; }
                n--;
            }
        } else if (op == 2) {
            queue_dequeue_tail(q);
            if (n > 0) n--;
        } else {
            queue_drop(q);
            n = 0;
        }
        PROP(queue_size(q) == n && queue_capacity(q) == cap, "size equals the number of elements held");
        node_t *h = queue_head(q), *t = queue_tail(q);
        PROP((h == NULL) == (n == 0) && (t == NULL) == (n == 0), "head and tail exist exactly when the queue is non-empty");
        if (n > 0) {
            PROP(queue_node_key(h) == rk[0] && queue_node_data(h).value == rd[0], "head is the oldest element still queued");
            PROP(queue_node_key(t) == rk[n - 1] && queue_node_data(t).value == rd[n - 1], "tail is the newest element still queued");
        }
    }
    if (wrapped && n == cap) REACH("wrapped queue with several elements");
    if (refused) REACH("refused enqueue");
    queue_free(q);
}
