/* C05, inductive step: from every valid heap of VQ_N elements (arbitrary keys and data in heap order), one insert, one pop
 * or one removal through any handle gives a valid heap holding exactly the expected elements.  Together with the empty
 * heap this covers histories of any length whose size stays within the bound.  The step is stated on the representation
 * (binary heap of slot numbers); probe() checks on a concrete run that this is the representation the code uses - if it
 * is not, the query is set aside and only the sequence queries decide. */
#include "vh.h"
#include "priority_queue.h"
#define CAP 8
static pqueue_t *q;
static int k0[CAP];
static uint64_t d0[CAP];
static int live[CAP];

static int repr_ok(void) {
    pqueue_t *p = pqueue_alloc(4);
    data_t d = { .value = 7 };
    node_t *a = pqueue_insert(p, 1, d), *b = pqueue_insert(p, 2, d), *c = pqueue_insert(p, 3, d);
    int ok = p->size == 3 && p->capacity == 4;
    ok = ok && p->heap[0] == a - p->nodes && p->heap[1] == b - p->nodes && p->heap[2] == c - p->nodes;
    ok = ok && a->heap_id == 0 && b->heap_id == 1 && c->heap_id == 2;
    ok = ok && p->stack[0] != p->heap[0] && p->stack[0] != p->heap[1] && p->stack[0] != p->heap[2];
    return ok;
}
static void build(int n) {
    q = pqueue_alloc(CAP);
    for (int i = 0; i < CAP; i++) {
        q->nodes[i].heap_id = i;
        q->nodes[i].key = k0[i];
        q->nodes[i].data.value = d0[i];
        q->heap[i] = i;
        live[i] = i < n;
        q->stack[i] = n + i < CAP ? n + i : nd_u8() % CAP;
    }
    q->size = n;
}
/* handle i (0..) is slot i; an inserted element is expected in slot ins */
static void valid(int n) {
    PROP(pqueue_size(q) == n && pqueue_capacity(q) == CAP, "size equals the number of elements held");
    int cnt = 0;
    for (int i = 0; i < CAP; i++)
        if (live[i]) {
            cnt++;
            PROP((q->nodes[i].key == k0[i]) & (q->nodes[i].data.value == d0[i]), "an element keeps its key and data until removed");
            PROP((q->nodes[i].heap_id < (uint32_t)n) && q->heap[q->nodes[i].heap_id] == i, "a handle stays valid until its element leaves");
            if (n > 0)
                PROP(pqueue_node_key(pqueue_top(q)) <= k0[i], "top has the smallest key");
        }
    PROP(cnt == n, "size equals the number of elements held");
    for (int i = 1; i < CAP; i++)
        if (i < n)
            PROP(q->nodes[q->heap[i]].key >= q->nodes[q->heap[(i - 1) / 2]].key, "elements stay ordered so that later pops yield the minimum");
    for (int i = 0; i < CAP - n; i++)
        PROP((q->stack[i] < CAP) && !live[q->stack[i]], "free slots are free");
}
void vh_main(void) {
    ASSUME(repr_ok());
    for (int i = 0; i < CAP; i++) { k0[i] = nd_int(); d0[i] = nd_u64(); }
    for (int i = 1; i < VQ_N; i++) ASSUME(k0[i] >= k0[(i - 1) / 2]);
    if (VQ_J >= 0) {
        build(VQ_N);
        pqueue_remove(q, &q->nodes[VQ_J]);
        live[VQ_J] = 0;
        valid(VQ_N - 1);
    } else if (VQ_N < CAP) {
        build(VQ_N);
        data_t d = { .value = d0[VQ_N == 0 ? 0 : VQ_N] };
        int slot = q->stack[CAP - VQ_N - 1];
        d.value = d0[slot];
        node_t *h = pqueue_insert(q, k0[slot], d);
        PROP(h == &q->nodes[slot], "insert returns the element's handle");
        live[slot] = 1;
        valid(VQ_N + 1);
    } else {
        build(VQ_N);
        data_t d = { .value = 1 };
        PROP(pqueue_insert(q, nd_int(), d) == NULL, "insert into a full queue is refused");
        valid(VQ_N);
    }
    if (VQ_J < 0 && VQ_N > 0) {
        build(VQ_N);
        pqueue_pop(q);
        live[0] = 0;
        valid(VQ_N - 1);
    }
    REACH("end");
}
