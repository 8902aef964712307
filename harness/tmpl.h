/* Command words: c = compute, s = store, l = load, f = forward, m = branch of a multi-forward, r = reply,
 * 1..3 = probabilistic skip of that many groups, drawn; A..C = the same, not drawn. */
#ifndef TMPL_H
#define TMPL_H
#include "message.h"
static int w_type(char c) {
    switch (c) {
    case 'c': return COMPUTE;
    case 's': return STORE;
    case 'l': return LOAD;
    case 'f': return FORWARD;
    case 'm': return MULTI_FORWARD;
    case 'r': return REPLY;
    }
    return PSKIP;
}
static int w_size(int t) {   /* wire sizes of the documented structures */
    switch (t) {
    case COMPUTE: return 4 + sizeof(comp_opts_t);
    case STORE: return 4 + sizeof(store_opts_t);
    case LOAD: return 4 + sizeof(load_opts_t);
    case FORWARD: case MULTI_FORWARD: return 4 + sizeof(fwd_opts_t);
    case REPLY: return 4 + sizeof(reply_opts_t);
    case EOM: return 4;
    }
    return 0;
}
/* index after n groups from i (reference) */
static int w_skip(const char *w, int i, int n) {
    for (; n > 0 && w[i]; n--) {
        int d = 0;
        do {
            if (w[i] == 'f' || (w[i] == 'm' && w[i + 1] != 'm')) d++;
            if (w[i] == 'r') d--;
            i++;
        } while (w[i] && (d > 0 || w[i - 1] == 'm'));
    }
    return i;
}
#endif
