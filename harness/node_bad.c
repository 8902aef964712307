/* C17: connection 0 sends bytes that no well-behaved peer sends, connection 1 an ordinary request before and after.
 * VQ_W describes the bytes after the message header: c s l f m r commands, e end marker, p/x/z codes that are no command, b a
 * symbolic byte; VQ_ANN is the announced size (len: the size it should have), VQ_CUT how many bytes really arrive, and the
 * rest of the connection's script is VQ_EVENTS: b = the bytes arrive, g = the ordinary request, S/k = storage, T = time passes,
 * C = the offending peer closes, A = a forward target answers with VQ_ANS bytes of a wrong message, X connects. */
#include "nodeenv.h"
static const char *w = VQ_W, *evs = VQ_EVENTS;
#ifndef VQ_GOODS
#define VQ_GOODS 2
#endif
#ifndef VQ_ID
#define VQ_ID nd_u32()
#endif
#ifndef VQ_CODE
#define VQ_CODE 0xffffffffu
#endif
#ifndef VQ_CUT
#define VQ_CUT len
#endif
#ifndef VQ_PKT
#define VQ_PKT 48
#endif
#ifndef VQ_RSZ
#define VQ_RSZ 24
#endif
#ifndef VQ_TO
#define VQ_TO 0
#endif
#ifndef VQ_NB
#define VQ_NB 8
#endif
#ifndef VQ_ANS_ANN
#define VQ_ANS_ANN 16
#endif
#ifndef VQ_ANS_ID
#define VQ_ANS_ID 0
#endif
#ifndef VQ_ANS_LEN
#define VQ_ANS_LEN 16
#endif
static int cut, good, len1, expect;
static uint32_t gid;
#ifdef VQ_UDP
#define G 0      /* datagrams of one socket: a bad one, then a good one */
#else
#define G 1
#endif
#define FWD 2
#ifdef VQ_UDP
#define DGRAM(n) (k_sock[0].dlen[k_sock[0].ndg++] = (n), k_sock[0].src_port = 77)
#else
#define DGRAM(n)
#endif
static void served(void) {
    PROP(k_sock[G].open, "the other connection stays open");
    PROP(k_sock[G].out_len == expect, "the other connection is served");
}
static void vh_script(int wk, int step) {
    if (step >= 2 * G) served();
    char e = evs[step];
    if (e == 0) { terminate(); return; }
    if (e == 'a') accept_one();
    else if (e == 'b') { DGRAM(cut); if (cut > 0) arrive(0, cut); }
    else if (e == 'g') { DGRAM(len1); arrive(G, len1); good++; expect += 20; }
    else if (e == 'S') storage_turn();
    else if (e == 'k') { int fd = ack_ready(0); if (fd >= 0) ready(fd, EPOLLIN); }
    else if (e == 'T') { k_now += 2000000; for (int t = 0; t < NTIM; t++) if (k_armed[t] && k_deadline[t] <= k_now) { ready(FD_TIMER + t, EPOLLIN); break; } }
    else if (e == 'C') { k_sock[0].eof = 1; ready(SFD(0), EPOLLIN); }
    else if (e == 'X') { k_sock[FWD].connecting = 0; ready(SFD(FWD), EPOLLOUT); }
    else if (e == 'A') { if (k_sock[FWD].open) arrive(FWD, VQ_ANS_LEN); }
}
void vh_main(void) {
    int len;
    b_begin(k_sock[0].in, 0, VQ_ID);
    for (int i = 0; w[i]; i++) {
        if (w[i] == 'c') b_compute(nd_range(0, 3000));
        else if (w[i] == 's') b_store(VQ_OFF, VQ_NB, nd_u8());
        else if (w[i] == 'l') b_load(VQ_OFF, VQ_NB);
        else if (w[i] == 'r') b_reply(VQ_RSZ, VQ_ACK);
        else if (w[i] == 'e') b_eom();
        else if (w[i] == 'p') b_u32(PSKIP);
        else if (w[i] == 'x') b_u32(8);
        else if (w[i] == 'z') b_u32(VQ_CODE);
        else if (w[i] == 'b') b_buf[b_pos++] = nd_u8();
        else b_fwd(w[i] == 'f' ? FORWARD : MULTI_FORWARD, VQ_PORT, VQ_PKT, VQ_TO, 1, 1);
    }
    len = b_pos;
    b_end(0, VQ_ANN);
    k_sock[0].in[8] = nd_u8();
    cut = VQ_CUT;
    /* twice the same request */
    gid = nd_u32();
    int p = G == 0 ? cut : 0;
    for (int i = 0; i < VQ_GOODS; i++) {
        int s = p;
        b_begin(k_sock[G].in, s, gid); b_compute(100); b_reply(20, 1); b_eom();
        len1 = b_pos - s;
        b_end(s, len1);
        p = b_pos;
    }
    if (VQ_ANS_LEN > 0) {
        b_begin(k_sock[FWD].in, 0, VQ_ANS_ID);
        b_u32(VQ_ANS_CMD);
        b_end(0, VQ_ANS_ANN);
        k_sock[FWD].in[8] = nd_u8();
    }
    node_run();
}
static void vh_final(void) {
    served();
    for (int i = 0; i < 2; i++)
        if (i < good) {
            PROP(g_u32(k_sock[G].out, 20 * i) == gid, "its replies carry its identifier");
            PROP(g_u32(k_sock[G].out, 20 * i + 4) == 20, "its replies have the requested size");
        }
    REACH("end");
}
