#pragma once
// Public key and address requests for a well-formed path, in lock step with their specification.
#include "proto.h"
// Walks the prompt of a request: a heading, the path, the address (if shown), the token (if unknown), approve, reject.
static void r_check_prompt(const uint32_t *path, uint8_t n, const uint8_t *addr, uint32_t token) {
    const char *title;
    m_ui_goto(0);
    // there may be a heading
    if (!t_at_screen() && m_ui_kind() == 0) m_ui_right();
    ASSERT(t_at_screen(), "the path is shown");
    uint8_t *text = t_text(&title);
    uint64_t same = (m_fmt_path.len == n) & ((const char *) text == m_fmt_path.out) & (text[0] == '#');
    for (int i = 0; i < 10; i++) same &= (i >= n) | (m_fmt_path.path[i] == path[i]);
    ASSERT(same, "the path shown is the requested one");
    m_ui_right();
    if (addr != NULL) {
        ASSERT(t_at_screen(), "the address is shown");
        text = t_text(&title);
        ASSERT((m_fmt_b58.len == 38) & h_eq(m_fmt_b58.in, addr, 38) & ((const char *) text == m_fmt_b58.out), "the address shown is the derived one");
        ASSERT(t_marks(text, m_fmt_b58.n, "", 0), "the whole address is shown");
        m_ui_right();
    }
    if (token != 0) {
        ASSERT(h_shows_token(token), "the application is shown");
        m_ui_right();
    } else if (m_ui_kind() == 0) m_ui_right();
    ASSERT(m_ui_kind() == 1, "approval is offered last");
    m_ui_right();
    ASSERT(m_ui_kind() == 2, "rejection is offered last");
    m_ui_right();
    ASSERT(G_ux.flow_stack[0].index == 0 && h_busy(), "the prompt stays until it is answered");
}
static bool r_prompt(uint32_t token, uint32_t connected, bool always) {
    uint64_t known = (token != 0) & (token == connected) & !always;
    CK(P(25) | P(4) | P(5), h_prompt() == !known, "the user is asked unless the request carries the connected application's token");
    if (!h_prompt()) return true;
    bool approve = in_bool();
    h_answer_token(approve, token);
    if (!approve) {
        CK(P(25) | P(4) | P(5), h_error() & (m_resp.sw == SW_DENY) & (m_resp.len == 0), "a denial returns nothing");
        REACH("denied");
        return false;
    }
    return true;
}
static bool r_epk(bool with_token) {
    uint32_t connected = app_connected_app_id(), token = with_token ? in_u32() : 0;
    h_path_len = 3;
    h_path[0] = 0x8000002C;
    h_path[1] = 0x800001AD;
    h_path[2] = in_u32() | 0x80000000u;
    d_path();
    if (with_token) d_u32(token);
    m_resp_watch = in_u8();
    h_send(CMD_GET_EXTENDED_PUBLIC_KEY, with_token ? 2 : 1, 0);
    uint8_t want = v_select(m_resp_watch == 0, 2 + (m_pair.W[64] & 1), v_select(m_resp_watch < 33, v_pick(m_pair.W, 33, m_resp_watch, 0), v_pick(m_derive.chain, 32, m_resp_watch - 33, 0)));
    if (!r_prompt(token, connected, false)) return false;
    CK(P(4), h_ok() & (m_resp.len == 65), "the key and chain code are returned");
    CK(P(4), (m_resp_watch >= 65) | (m_resp.watched == want), "the key and chain code are returned");
    REACH("answered");
    return true;
}
static bool r_address(bool display, bool with_token) {
    uint32_t connected = app_connected_app_id(), token = with_token ? in_u32() : 0;
    uint8_t net = in_bool() ? 0x10 : 0x00;
    d_u8(net);
    h_good_path(5);
    d_path();
    if (with_token) d_u32(token);
    m_resp_watch = in_u8();
    h_send(CMD_DERIVE_ADDRESS, display ? 2 : 1, with_token ? 2 : 1);
    uint8_t raw[38];
    raw[0] = 1 + net;
    raw[1] = 2 + (m_pair.W[64] & 1);
    memcpy(raw + 2, m_pair.W + 1, 32);
    CK(P(5), m_b2b.len == 34 && h_eq(m_b2b.data, raw, 34), "the checksum covers the address");
    memcpy(raw + 34, m_b2b.out, 4);
    if (!r_prompt(token, connected, display)) return false;
    if (display) CK(P(5), h_ok() & (m_resp.len == 0), "showing an address returns nothing");
    else CK(P(5), h_ok() & (m_resp.len == 38) & ((m_resp_watch >= 38) | (m_resp.watched == v_pick(raw, 38, m_resp_watch, 0))), "the address is returned");
    REACH("answered");
    return true;
}
// A signing request; approved: ends with the session number.
static bool r_sign(bool with_token) {
    uint32_t connected = app_connected_app_id(), token = with_token ? in_u32() : 0;
    d_u8(in_bool() ? 0x10 : 0x00);
    h_good_path(5);
    d_path();
    if (with_token) d_u32(token);
    h_send(CMD_SIGN_TRANSACTION, 0x01, with_token ? 2 : 1);
    if (!h_prompt()) {
        CK(P(25), h_error(), "signing needs approval");
        return false;
    }
    bool approve = in_bool();
    h_answer_token(approve, token);
    if (!approve) {
        CK(P(25), h_error() & (m_resp.sw == SW_DENY) & (m_resp.len == 0), "a denial returns nothing");
        REACH("denied");
        return false;
    }
    REACH("answered");
    return true;
}
