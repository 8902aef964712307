/* C17, wire messages of arbitrary bytes: whatever passes validation is safe to walk, copy and skip over.
 * VQ_LEN is the size of the message, VQ_ROOM the room for its copy. */
#include "vh.h"
#include <stdlib.h>
#include "message.h"
static unsigned char src[64];
static void body(int len, int dst) {
    unsigned char *b = malloc(len), *o = malloc(dst < 12 ? 12 : dst);
    for (int i = 0; i < len; i++) b[i] = src[i];
    message_t *m = (message_t *)b, *d = (message_t *)o;
    m->req_size = len;
    if (message_is_valid(m)) {
        uint32_t s = message_cmds_size(m);
        PROP((s <= (uint32_t)len) & (s >= 16), "a valid message holds its commands");
        int k = nd_range(1, 3);
        command_t *c = message_first_cmd(m);
        if (c->cmd == FORWARD || c->cmd == MULTI_FORWARD) {
            d->req_size = dst;
            command_t *r = message_copy_tail(m, d, cmd_next(c));
            if (r != NULL) {
                uint32_t t = message_cmds_size(d);
                PROP(t <= (uint32_t)dst, "the copy fits");
                PROP((unsigned char *)r >= b && (unsigned char *)r + sizeof(command_t) + sizeof(reply_opts_t) <= b + len, "the reply of a forward lies within the message");
            }
        }
        c = message_skip_cmds(m, c, k);
        PROP((unsigned char *)c >= b && (unsigned char *)c + sizeof(command_t) <= b + len, "skipping commands stays within the message");
    }
}
/* every sequence of command codes that fits, each followed separately; all other bytes are arbitrary */
static int sel[VQ_LEN / 4];
static void put(int at, uint32_t v) { src[at] = v; src[at + 1] = v >> 8; src[at + 2] = v >> 16; src[at + 3] = v >> 24; }
static const int size_of[] = { 8, 28, 20, 0, 28, 28, 12, 0, 0 };
static void grow(int at, int code, int depth) {
    if (at + 4 > VQ_LEN) body(VQ_LEN, VQ_ROOM);
    else if (code == 9) { put(at, 0xffffffffu); body(VQ_LEN, VQ_ROOM); }
    else if (sel[depth] == code) {
        put(at, code);
        if (size_of[code] == 0) body(VQ_LEN, VQ_ROOM);
        else grow(at + size_of[code], 0, depth + 1);
    } else grow(at, code + 1, depth);
}
void vh_main(void) {
    for (int i = 0; i < VQ_LEN; i++) src[i] = nd_u8();
    for (int i = 0; i < VQ_LEN / 4; i++) sel[i] = nd_range(0, 9);
#ifdef VQ_FIRST
    put(12, VQ_FIRST);
    grow(12 + size_of[VQ_FIRST], 0, 1);
#else
    grow(12, 0, 0);
#endif
    REACH("end");
}
