/* C10: request identifiers.  Operation words are concrete (a = allocate, digit k = release the k-th allocated); the start
 * position of the table and an identifier from the network are arbitrary. */
#include "vh.h"
#include "request.h"
#include <limits.h>
static req_info_t *r[10];
static int id[10], live[10];
static void one(const char *w, int start) {
    int n = 0, nlive = 0;
    req_init();
#ifdef VQ_START
    last_reqs = start;
#endif
    int probe = nd_int();
    PROP(req_get_by_id(probe) == NULL, "no identifier is valid before it is issued");
    for (int s = 0; w[s]; s++) {
        if (w[s] == 'a') {
            req_info_t *p = req_alloc();
            PROP((p != NULL) == (nlive < MAX_REQS), "a request is refused only when the table is full");
            if (nlive == MAX_REQS || p == NULL) continue;
            for (int k = 0; k < n; k++) {
                PROP(!live[k] | (r[k] != p), "two live requests never share storage");
                PROP(id[k] != p->req_id, "an issued identifier is not issued again");
            }
            PROP((p >= reqs) & (p < reqs + MAX_REQS), "requests live inside the table");
            PROP(p->req_id != -1, "issued identifiers are distinct from the unused mark");
            r[n] = p; id[n] = p->req_id; live[n] = 1;
            n++; nlive++;
        } else {
            int k = w[s] - '0';
            req_free(r[k]);
            live[k] = 0; nlive--;
        }
        req_info_t *want = NULL;
        for (int k = 0; k < n; k++) {
            if (live[k]) {
                PROP(req_get_by_id(id[k]) == r[k], "an issued identifier finds its own request while it is live");
                PROP(r[k]->req_id == id[k], "a live request keeps its identifier");
                if (id[k] == probe) want = r[k];
            } else
                PROP(req_get_by_id(id[k]) == NULL, "a released identifier finds nothing");
        }
        PROP(req_get_by_id(probe) == want, "an arbitrary identifier selects only the live request it was issued for");
    }
}
void vh_main(void) {
    static const char *words[] = { VQ_WORDS };
#ifdef VQ_START
    int starts[] = { VQ_START };
#endif
    for (int i = 0; i < sizeof(words) / sizeof(words[0]); i++)
#ifdef VQ_START
        for (int k = 0; k < sizeof(starts) / sizeof(starts[0]); k++) one(words[i], starts[k]);
#else
        one(words[i], 0);
#endif
    REACH("end");
}
