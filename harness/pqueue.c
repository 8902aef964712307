/* C05: priority queue with handles.  Operation sequences are concrete words (i = insert, p = pop, 0..9 = remove through
 * the handle of the n-th insertion, if it is still queued), keys and data are arbitrary.  Each word is followed by a
 * complete drain.  The reference is the explicit set of live (handle, key, data). */
#include "vh.h"
#include "priority_queue.h"
#define MAXI 8
#ifndef VQ_DRAIN
#define VQ_DRAIN 100
#endif
static pqueue_t *q;
static node_t *h[MAXI];
static int hk[MAXI], used[MAXI], n, ni;
static uint64_t hd[MAXI];

static void ins(void) {
    int k = nd_int();
#ifdef VQ_ORDERED
    /* insertions in heap order: every heap of this size is reached this way, without any element having to move */
    if (ni > 0) ASSUME(k >= hk[(ni - 1) / 2]);
#endif
    data_t d = { .value = nd_u64() };
    node_t *p = pqueue_insert(q, k, d);
    if (n == VQ_CAP) {
        PROP(p == NULL, "insert into a full queue is refused");
        return;
    }
    PROP(p != NULL, "insert into a non-full queue succeeds");
    for (int j = 0; j < ni; j++)
        PROP(!used[j] | (h[j] != p), "a fresh handle differs from every live handle");
    used[ni] = 1; h[ni] = p; hk[ni] = k; hd[ni] = d.value; ni++; n++;
}
static void look(void) {
    PROP(pqueue_size(q) == n && pqueue_capacity(q) == VQ_CAP, "size equals the number of elements held");
    PROP((pqueue_top(q) == NULL) == (n == 0), "top exists exactly when the queue is non-empty");
}
static void pop(void) {
    node_t *t = pqueue_top(q);
    int k = pqueue_node_key(t), found = 0;
    uint64_t d = pqueue_node_data(t).value;
    for (int j = 0; j < ni; j++) {
        int me = used[j] & (h[j] == t);
        PROP(!me | ((k == hk[j]) & (d == hd[j])), "an element keeps its key and data until removed");
        PROP(!used[j] | (k <= hk[j]), "top has the smallest key");
        found += me;
        if (me) used[j] = 0;
    }
    PROP(found == 1, "top is one of the live elements");
    pqueue_pop(q);
    n--;
}
static void word(const char *w) {
    q = pqueue_alloc(VQ_CAP);
    n = ni = 0;
    for (int i = 0; i < MAXI; i++) used[i] = 0;
    look();
    for (; *w; w++) {
        if (*w == 'i') ins();
        else if (*w == 'p') pop();
        else if (used[*w - '0']) {
            pqueue_remove(q, h[*w - '0']);
            used[*w - '0'] = 0; n--;
        } else
            continue;
        look();
    }
    for (int i = 0; i < VQ_DRAIN && n > 0; i++) { pop(); look(); }
    pqueue_free(q);
}
void vh_main(void) {
    static const char *words[] = { VQ_WORDS };
    for (int i = 0; i < sizeof(words) / sizeof(words[0]); i++)
        word(words[i]);
    REACH("drained");
}
