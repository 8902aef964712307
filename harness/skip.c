/* C02: skipping over commands, in an encoded message and in a template, against a reference on the type sequence */
#include "vh.h"
#include "message.h"
#include "ccmd.h"
#include "shape.h"
static unsigned char buf[sizeof(message_t) + 8 * 28 + 4], pool[28];
static int off[12];
static ccmd_node_t node[12];
static void put32(unsigned char *p, int v) { p[0] = v; p[1] = p[2] = p[3] = 0; }
static void one(void) {
    int o = sizeof(message_t);
    for (int i = 0; i < sh_len; i++) {
        off[i] = o;
        put32(buf + o, sh_type[i]);
        for (int k = 4; k < sh_size(sh_type[i]); k++) buf[o + k] = pool[k];
        o += sh_size(sh_type[i]);
        node[i].cmd = sh_type[i];
        node[i].next = i + 1 < sh_len ? &node[i + 1] : NULL;
    }
    off[sh_len] = o;
    put32(buf + o, EOM);
    message_t *m = (message_t *)buf;
    m->req_size = o + 4;
    for (int from = 0; from < sh_len; from++)
        for (int n = 0; n <= sh_len - from + 1; n++) {
            if (from > 0 && sh_type[from] == MULTI_FORWARD && sh_type[from - 1] == MULTI_FORWARD) continue;
            int want = sh_skip(from, n);
            command_t *r = message_skip_cmds(m, (command_t *)(buf + off[from]), n);
            PROP((unsigned char *)r == buf + off[want], "skipping in an encoded request lands on the right command");
            ccmd_node_t *c = ccmd_skip(&node[from], n);
            PROP(c == (want < sh_len ? &node[want] : NULL), "skipping in a template lands on the right command");
        }
}
void vh_main(void) {
    int shapes = 0;
    for (int i = 0; i < 28; i++) pool[i] = nd_u8();
    for (int idx = VQ_LO; idx < VQ_HI; idx++)
        if (sh_decode(VQ_N, idx, idx)) { one(); shapes++; }
    REACH("end");
}
