/* C03: extracting the request for a forward target from a received request */
#include "vh.h"
#include "message.h"
#include "tmpl.h"
#define NMAX 7
#define SRC (sizeof(message_t) + NMAX * 28 + 4)
static unsigned char sb[SRC] __attribute__((aligned(8)));
#define SM ((message_t *)sb)
static unsigned char db[SRC + 8] __attribute__((aligned(8)));
#define DM ((message_t *)db)
static unsigned char pool[NMAX][28];
void vs_exit(int c) { PROP(0, "a well-formed request does not end the program"); vh_done(); }
static int off[NMAX + 1];
static void put32(unsigned char *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static void copy(int from, int len, int reply, uint32_t avail, int need, uint32_t size, uint32_t id) {
    int8_t st = nd_u8();
    put32(sb, id); put32(sb + 4, size);
    SM->status = st;
    for (int k = 0; k < need + 8; k++) db[k] = 0x5a;
    DM->req_size = avail;
    command_t *r = message_copy_tail(SM, DM, (command_t *)(sb + from));
    PROP((r != NULL) == (avail >= need), "the copy is refused exactly when it does not fit");
    unsigned diff = 0;
    for (int k = sizeof(message_t); k < need + 8; k++)
        diff |= (k >= avail) & (db[k] != 0x5a);
    PROP(diff == 0, "nothing is written beyond the announced space");
    PROP((SM->req_id == id) & (SM->req_size == size) & (SM->status == st), "the original header is not modified");
    if (avail >= need) {
        PROP(DM->req_id == id, "the copy keeps the identifier");
        PROP(DM->status == 0, "the copy has success status");
        PROP((DM->req_size >= need) & (DM->req_size <= avail), "the announced size covers the commands and fits");
        PROP((unsigned char *)r == sb + reply, "the matching reply is found");
        for (int k = 0; k < len; k++)
            diff |= db[sizeof(message_t) + k] ^ sb[from + k];
        PROP(diff == 0, "the commands are copied unchanged");
        PROP(((command_t *)(db + sizeof(message_t) + len))->cmd == EOM, "the copy is followed by an end marker");
    }
}
static void one(const char *w) {
    int o = sizeof(message_t), n = 0;
    for (; w[n]; n++) {
        int t = w_type(w[n]);
        off[n] = o;
        put32(sb + o, t);
        for (int k = 4; k < w_size(t); k++) sb[o + k] = pool[n][k];
        o += w_size(t);
    }
    put32(sb + o, EOM);
    int total = o + 4;
    uint32_t id = nd_u32(), size = nd_u32();
    ASSUME((size >= (uint32_t)total) & (size < 0x7fffffffu));
    for (int i = 0; i < n; i++) {
        if (w[i] != 'f' && w[i] != 'm') continue;
        if (w[i] == 'm' && w[i + 1] == 'm') continue;
        int j = i + 1, depth = 1;            /* reference: matching reply */
        for (;; j++) {
            if (w[j] == 'f' || (w[j] == 'm' && w[j + 1] != 'm')) depth++;
            if (w[j] == 'r' && --depth == 0) break;
        }
        int len = off[j] + w_size(REPLY) - off[i + 1], need = sizeof(message_t) + len + 4;
        copy(off[i + 1], len, off[j], nd_range(0, need - 1), need, size, id);
        copy(off[i + 1], len, off[j], need + nd_range(0, 4), need, size, id);
    }
    unsigned diff = 0;
    for (int x = 0; x < n; x++) {
        PROP(((command_t *)(sb + off[x]))->cmd == w_type(w[x]), "the original commands are not modified");
        for (int k = 4; k < w_size(w_type(w[x])); k++)
            diff |= sb[off[x] + k] ^ pool[x][k];
    }
    PROP(diff == 0, "the original options are not modified");
}
void vh_main(void) {
    static const char *words[] = { VQ_WORDS };
    for (int i = 0; i < NMAX; i++)
        for (int k = 4; k < 28; k++) pool[i][k] = nd_u8();
    for (int i = 0; i < sizeof(words) / sizeof(words[0]); i++)
        one(words[i]);
    REACH("end");
}
