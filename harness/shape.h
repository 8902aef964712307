/* Enumeration of command-sequence shapes.  Shapes are concrete (one symbolic execution each), everything inside the
 * commands - option bytes - is symbolic.  A shape is a word over P (plain), F (forward), M (multi-forward branch),
 * R (reply) in which every forward group is closed by its reply; depth starts at 0 and the word may close the
 * request itself (final R). */
#ifndef SHAPE_H
#define SHAPE_H
#include "message.h"
enum { SP, SF, SM, SR };
static int sh_type[12], sh_len;
static const int sh_plain[3] = { COMPUTE, STORE, LOAD };

/* the idx-th word of length len over 4 letters as command types, or 0 if it is not well nested */
static int sh_decode(int len, int idx, int variant) {
    int d = 0, prev = -1;
    sh_len = len;
    for (int i = 0; i < len; i++) {
        int l = idx & 3;
        idx >>= 2;
        if (d < 0) return 0;                       /* nothing after the reply that ends the request */
        if (l == SF || (l == SM && prev != SM)) d++;
        if (l == SR) d--;
        if (d < -1) return 0;
        if (l == SR && d == -1 && i != len - 1) return 0;
        sh_type[i] = l == SP ? sh_plain[(i + variant) % 3] : l == SF ? FORWARD : l == SM ? MULTI_FORWARD : REPLY;
        prev = l;
    }
    return d <= 0;
}
static int sh_size(int t) {   /* wire sizes of the documented structures */
    switch (t) {
    case COMPUTE: return 4 + sizeof(comp_opts_t);
    case STORE: return 4 + sizeof(store_opts_t);
    case LOAD: return 4 + sizeof(load_opts_t);
    case FORWARD: case MULTI_FORWARD: return 4 + sizeof(fwd_opts_t);
    case REPLY: return 4 + sizeof(reply_opts_t);
    }
    return 4;
}
/* index after n groups from i (reference) */
static int sh_skip(int i, int n) {
    while (n > 0 && i < sh_len) {
        int d = 0, more;
        do {
            int t = sh_type[i], run = 0;
            if (t == FORWARD) d++;
            if (t == MULTI_FORWARD) { if (i + 1 < sh_len && sh_type[i + 1] == MULTI_FORWARD) run = 1; else d++; }
            if (t == REPLY) d--;
            i++;
            more = run || d > 0;
        } while (more && i < sh_len);
        n--;
    }
    return i;
}
#endif
