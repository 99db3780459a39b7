#pragma once
// Attesting an input box: the application and a specification of the protocol, in lock step.
#include "stream.h"
#define A_MAXD 32768u
static struct {
    int phase;               // 0 no operation, 1 script, 2 tokens, 3 registers, 4 complete
    uint8_t sess;
    uint8_t txid[32], id[32];
    uint16_t index;
    uint64_t value;
    uint32_t height, tree_left, regs_left, token;
    uint8_t tok_n, tok_left;
    uint8_t ids[20][32];
    uint64_t amt[20];
    uint8_t n;               // tokens received
} A;
#ifndef AVMAX
#define AVMAX 128
#endif
#ifndef FREE_IDS
#define FREE_IDS 20          // ids after this many have a fixed first byte
#endif
static uint64_t a_value(void) {
    uint64_t v = in_u64();
    if (AVMAX > 1) ASSUME(v < AVMAX);
    if (AVMAX == 1) ASSUME((v < 128) | (v >= 1ull << 63));
    return v;
}
static uint8_t a_frames(void) { return A.n == 0 ? 1 : (uint8_t) ((A.n + 3) / 4); }

static bool a_expect(uint64_t ok, unsigned props) {
    if (m_resp.count == 1 && m_resp.sw != SW_OK) {
        CK(P(6) | props, !ok, "a part of a box that is in order is accepted");
        CK(P(3), (m_resp.len == 0) & !h_busy(), "an error carries no data and ends the operation");
        A.phase = 0;
        return false;
    }
    CK(P(3), (m_resp.count == 1) | h_prompt(), "every part is answered");
    CK(P(6) | props, ok, "a part of a box that is out of order, in excess, incomplete or over a limit is refused");
    return true;
}
// Initialisation: prompt unless the token is the connected one; ends approved (or denied).
static bool a_init(uint32_t tree, uint8_t toks, uint32_t regs, bool with_token) {
    uint32_t connected = app_connected_app_id();
    memcpy(A.txid, d_any(32), 32);
    A.index = in_u16();
#ifdef SIMPLE
    ASSUME(A.index < 128);
#endif
    A.value = a_value();
    A.height = in_u32();
    if (AVMAX > 1) ASSUME(A.height < AVMAX);
    if (AVMAX == 1) ASSUME((A.height < 128) | (A.height >= 1u << 31));
    A.token = with_token ? in_u32() : 0;
    d_u16(A.index);
    d_u64(A.value);
    d_u32(tree);
    d_u32(A.height);
    d_u8(toks);
    d_u32(regs);
    if (with_token) d_u32(A.token);
    bool ok = (tree <= A_MAXD) & (regs <= A_MAXD) & (toks <= 20);
    h_send(CMD_ATTEST_INPUT_BOX, 0x01, with_token ? 2 : 1);
    A.phase = 0;
    if (!a_expect(ok, 0)) return false;
    uint64_t known = (A.token != 0) & (A.token == connected);
    CK(P(25) | P(6), h_prompt() == !known, "the user is asked unless the request carries the connected application's token");
    if (h_prompt()) {
        bool approve = in_bool();
        h_answer_token(approve, A.token);
        if (!approve) {
            CK(P(25) | P(3), h_error() & (m_resp.sw == SW_DENY) & (m_resp.len == 0), "a denial ends the operation");
            REACH("attestation denied");
            return false;
        }
    }
    CK(P(6), h_ok() & (m_resp.len == 1) & !h_busy(), "the session number is returned");
    A.sess = m_resp.b0;
    A.tree_left = tree;
    A.tok_n = A.tok_left = toks;
    A.n = 0;
    A.regs_left = regs;
    A.phase = 1;
    e_total = 0;
    e_byte = 0;
    e_vlq(A.value);
    return true;
}
static bool a_send(uint8_t sub, uint64_t ok, unsigned props) {
    h_send(CMD_ATTEST_INPUT_BOX, sub, A.sess);
    return a_expect(ok, props);
}
static bool a_ack(void) {
    CK(P(6), h_ok() & (m_resp.len == 0), "an accepted part is acknowledged");
    return true;
}
static bool a_complete(uint32_t finals) {
    e_put(A.txid, 32);
    e_vlq(A.index);
    memcpy(A.id, m_hash.out, 32);
    A.phase = 4;
    if (STREAM) {
        CK(P(6), m_hash.finals == finals + 1 && m_hash.total == e_total, "the box identifier is the hash of the box");
        CK(P(6), m_watch >= e_total || m_hash.watched == e_byte, "the box identifier is the hash of the box");
    }
    CK(P(6), h_ok() & (m_resp.len == 1) & (m_resp.b0 == a_frames()), "the number of frames is returned");
    REACH("attested");
    return true;
}
static bool a_after_tokens(uint32_t finals) {
    if (A.regs_left == 0) {
        e_u8(0);
        return a_complete(finals);
    }
    A.phase = 3;
    return a_ack();
}
static bool a_tree(uint8_t n) {
    uint8_t copy[255];
    memcpy(copy, d_any(n), n);
    bool ok = (A.phase == 1) & ((n == A.tree_left) | ((n < A.tree_left) & (n == 255)));
    uint32_t finals = m_hash.finals;
    if (!a_send(0x02, ok, 0)) return false;
    e_put(copy, n);
    A.tree_left -= n;
    if (A.tree_left > 0) return a_ack();
    e_vlq(A.height);
    e_u8(A.tok_n);
    if (A.tok_left == 0) return a_after_tokens(finals);
    A.phase = 2;
    return a_ack();
}
// k tokens and cut extra bytes
static bool a_tokens(uint8_t k, uint8_t cut) {
    uint8_t *p = h_data;
    static uint8_t copy[6 * 40];
    for (uint8_t i = 0; i < k; i++) {
        uint8_t *id = d_any(32);
        if (A.n + i >= FREE_IDS) id[0] = A.n + i;
        d_u64(a_value());
    }
    memcpy(copy, p, 40 * k);
    d_any(cut);
    uint64_t ok = (A.phase == 2) & (k <= A.tok_left) & (cut == 0);
    uint32_t finals = m_hash.finals;
    // distinct
    uint64_t dup = 0;
    for (uint8_t i = 0; i < k; i++) {
        for (uint8_t j = 0; j < i; j++) dup |= h_eq(copy + 40 * i, copy + 40 * j, 32);
        for (uint8_t j = 0; j < A.n; j++) dup |= h_eq(copy + 40 * i, A.ids[j], 32);
    }
    if (!a_send(0x03, ok & !dup, 0)) return false;
    for (uint8_t i = 0; i < k; i++) {
        memcpy(A.ids[A.n], copy + 40 * i, 32);
        A.amt[A.n] = h_be64(copy + 40 * i + 32);
        e_put(A.ids[A.n], 32);
        e_vlq(A.amt[A.n]);
        A.n++;
    }
    A.tok_left -= k;
    if (A.tok_left == 0) return a_after_tokens(finals);
    return a_ack();
}
static bool a_registers(uint8_t n) {
    uint8_t copy[255];
    memcpy(copy, d_any(n), n);
    bool ok = (A.phase == 3) & (n <= A.regs_left);
    uint32_t finals = m_hash.finals;
    if (!a_send(0x04, ok, 0)) return false;
    e_put(copy, n);
    A.regs_left -= n;
    if (A.regs_left == 0) return a_complete(finals);
    return a_ack();
}
// frame request; extra bytes after the index (255: no data at all)
static bool a_frame(uint8_t extra) {
    uint8_t index = in_u8();
    uint64_t has = extra != 255;
    if (has) {
        d_u8(index);
        d_any(extra);
    }
    m_hmac_watch = in_u8();
    m_resp_watch = in_u8();
    uint32_t macs = m_hmac.calls;
    bool ok = (A.phase == 4) & has & (extra == 0) & (index < a_frames());
    if (!a_send(0x05, ok, 0)) return false;
    index = (uint8_t) v_concrete(index);
    uint8_t f[43 + 160 + 16], k = A.n - 4 * index > 4 ? 4 : A.n - 4 * index;
    memcpy(f, A.id, 32);
    f[32] = a_frames();
    f[33] = index;
    h_put64(f + 34, A.value);
    f[42] = k;
    for (uint8_t i = 0; i < k; i++) {
        memcpy(f + 43 + 40 * i, A.ids[4 * index + i], 32);
        h_put64(f + 43 + 40 * i + 32, A.amt[4 * index + i]);
    }
    uint8_t n = 43 + 40 * k;
    memcpy(f + n, m_hmac.out, 16);
    CK(P(6), h_ok() & (m_resp.len == n + 16), "a frame holds id, counts, value, its tokens and the authentication code");
    CK(P(6), m_resp_watch >= n + 16 || m_resp.watched == v_pick(f, n + 16, m_resp_watch, 0), "a frame describes the box that was hashed");
    CK(P(6), m_hmac.calls == macs + 1 && m_hmac.key == app_session_key() && m_hmac.key_len == 16 && m_hmac.len == n, "the authentication code covers the frame under the session key");
    CK(P(6), m_hmac_watch >= n || m_hmac.watched == v_pick(f, n, m_hmac_watch, 0), "the authentication code covers the frame under the session key");
    REACH("frame");
    return true;
}
// ---- after the end of an operation
static void a_dead(void) {
    uint8_t sub = in_u8(), sess = in_u8(), n = in_u8();
    ASSUME((sub >= 2) & (sess != 0) & (n <= 80));
    in_bytes(h_data, 80);
    d_n = n;
    uint32_t macs = m_hmac.calls, finals = m_hash.finals;
    h_send(CMD_ATTEST_INPUT_BOX, sub, sess);
    CK(P(3) | P(6), h_error() & !h_busy() & (m_resp.len == 0), "nothing is accepted after the end of the operation");
    CK(P(3) | P(6), (m_hmac.calls == macs) & (m_hash.finals == finals), "nothing is computed after the end of the operation");
    REACH("over");
}
