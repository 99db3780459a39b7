#pragma once
// Building blocks for command sequences.
#include "common.h"
#ifndef PROP
#define PROP 0
#endif
// An assertion of the properties in the set p.  The check of another property explores only executions in which it holds.
#define P(n) (1u << (n))
// After a disturbance (see INJECT) everything is asserted: a disturbance must not change what follows.
static bool h_injected;
#define CK(p, c, msg)                                    \
    do {                                                 \
        if (((p) & P(PROP)) || h_injected) ASSERT(c, msg); \
        else ASSUME(c);                                  \
    } while (0)

static uint8_t d_n;  // length of the data being built in h_data
static void d_u8(uint8_t v) { h_data[d_n++] = v; }
static void d_u16(uint16_t v) {
    h_data[d_n++] = (uint8_t) (v >> 8);
    h_data[d_n++] = (uint8_t) v;
}
static void d_u32(uint32_t v) {
    h_put32(h_data + d_n, v);
    d_n += 4;
}
static void d_u64(uint64_t v) {
    h_put64(h_data + d_n, v);
    d_n += 8;
}
static void d_bytes(const uint8_t *p, uint8_t n) {
    memcpy(h_data + d_n, p, n);
    d_n += n;
}
static uint8_t *d_any(uint8_t n) {
    uint8_t *p = h_data + d_n;
    in_bytes(p, n);
    d_n += n;
    return p;
}
static bool h_busy_(void) { return app_is_ui_busy(); }
// A disturbance at point INJECT (points are counted: before every command and before every decision of the user)
#ifdef INJECT
static void inject(bool prompt);
static uint32_t h_points;
static void h_point(bool prompt) {
    h_points++;
    if (h_points != INJECT) return;
    static uint8_t saved[255];
    uint8_t allow = m_allow, n = d_n;
    uint32_t rw = m_resp_watch, hw = m_hmac_watch;
    m_allow = M_ANY;
    d_n = 0;
    memcpy(saved, h_data, 255);
    inject(prompt);
    memcpy(h_data, saved, 255);
    d_n = n;
    m_allow = allow;
    m_resp_watch = rw;
    m_hmac_watch = hw;
    h_injected = true;
    REACH("disturbed");
}
#else
static void h_point(bool prompt) {}
#endif
// An SDK failure during a command or the handling of a decision (FAULTY)
#ifdef FAULTY
static uint32_t h_faults;
static void h_faults_on(void) {
    m_fault_hash = m_fault_derive = m_fault_ecc = m_fault_fmt = true;
    m_fault_budget = FAULTY;
}
static void h_after_faults(bool starts) {
    if (m_faults == h_faults) return;
    if (starts && h_busy_()) {
        // the preparation of the nonce starts over; from here on everything has to be as if nothing had happened
        h_faults = m_faults;
        h_injected = true;
        REACH("retried");
        return;
    }
    ASSERT((m_resp.count == 1) & (m_resp.sw != SW_OK) & (m_resp.len == 0) & !h_busy_(), "a failure of the system is answered with an error and no data");
    ASSERT(m_ui_find(1) < 0, "a failure of the system offers nothing to approve");
    REACH("failed");
    m_fault_budget = 0;
    uint8_t ins = in_bool() ? 0x20 : 0x21, p1 = in_u8(), p2 = in_u8(), lc = in_u8();
    ASSUME((p1 != 1) & (lc <= 70));
    in_bytes(h_data, 70);
    uint32_t macs = m_hmac.calls, muls = m_multm.calls;
    h_apdu(0xE0, ins, p1, p2, lc);
    ASSERT((m_resp.count == 1) & (m_resp.sw != SW_OK) & (m_resp.len == 0) & !h_busy_(), "an operation in which the system failed has ended");
    ASSERT((macs == m_hmac.calls) & (muls == m_multm.calls), "an operation in which the system failed has ended");
    h_end();
}
#else
static void h_after_faults(bool starts) {}
#endif
static void h_send(uint8_t ins, uint8_t p1, uint8_t p2) {
    h_point(false);
    uint32_t connected = app_connected_app_id();
    h_apdu(0xE0, ins, p1, p2, d_n);
    d_n = 0;
    h_after_faults(ins == 0x21 && p1 == 1);
    CK(P(25), app_connected_app_id() == connected, "a command does not change the connected application by itself");
    CK(P(2), ((m_resp.count == 1) & !h_busy_()) | ((m_resp.count == 0) & h_busy_()), "a command is answered once, at once or after the user's decision");
}
// the length of the next piece of what remains: any, but empty at most once
static uint8_t h_piece(uint32_t left) {
    static bool empty;
    uint8_t n = in_u8();
    ASSUME((n <= left) & ((n > 0) | !empty));
    n = (uint8_t) v_concrete(n);
    if (n == 0) empty = true;
    return n;
}
static bool h_ok(void) { return (m_resp.count == 1) & (m_resp.sw == SW_OK); }
static bool h_error(void) { return (m_resp.count == 1) & (m_resp.sw != SW_OK); }
static bool h_prompt(void) { return (m_resp.count == 0) & h_busy(); }
static bool h_eq(const uint8_t *a, const uint8_t *b, unsigned n) {
    uint64_t r = 1;
    for (unsigned i = 0; i < n; i++) r &= a[i] == b[i];
    return r;
}
// The user answers the prompt being shown.
static void h_decide(bool approve) {
    int i = m_ui_find(approve ? 1 : 2);
    ASSERT(i >= 0, "a prompt offers approve and reject");
    ASSUME(i >= 0);
    h_point(true);
    m_ui_goto(i);
    m_resp.count = 0;
    m_ui_both();
    h_after_faults(false);
    CK(P(2), (m_resp.count == 1) & !h_busy_(), "a decision is answered once, and the device is no longer busy");
}
// a prompt that belongs to no application
static void h_answer(bool approve) {
    uint32_t connected = app_connected_app_id();
    h_decide(approve);
    CK(P(25), app_connected_app_id() == connected, "only the approval of a request that may carry a token changes the connected application");
}
static bool h_shows_token(uint32_t token) {
    ux_flow_state_t *f = &G_ux.flow_stack[0];
    bool r = false;
    for (int i = 0; i < 9; i++) {
        if (i >= f->length || f->steps[i]->init != ux_layout_bn_init) continue;
        const ux_layout_bn_params_t *p = f->steps[i]->params;
        char shown[16];
        app_snprintf(shown, sizeof(shown), "0x%08x", token);
        if (p->line2[0] == '0' && p->line2[1] == 'x') r |= h_eq((const uint8_t *) p->line2, (const uint8_t *) shown, 11);
    }
    return r;
}
// the prompt of a request that carried this token (0: none)
static void h_answer_token(bool approve, uint32_t token) {
    uint32_t connected = app_connected_app_id();
    if (token != 0 && token != connected) CK(P(25), h_shows_token(token), "the prompt shows an application token that is not the connected one");
    h_decide(approve);
    CK(P(25), app_connected_app_id() == (approve ? token : connected), "the application of an approved request becomes the connected one");
}
// ---- screens
static uint8_t *t_text(const char **title) {
    const ux_layout_bnnn_paging_params_t *p = ((const ux_flow_step_t *) m_ui_step())->params;
    *title = p->title;
    return (uint8_t *) p->text;
}
#define T_TITLE(lit) (memcmp(title, lit, sizeof(lit)) == 0)
// a text of n unknown characters, then the suffix, and nothing else
static bool t_marks(const uint8_t *text, uint8_t n, const char *suffix, unsigned suffix_len) {
    uint64_t r = 1;
    for (unsigned i = 0; i < 60; i++) {
        uint8_t want = (uint8_t) v_select(i < n, '#', v_pick(suffix, suffix_len, i - n, 0));
        r &= (i > n + suffix_len) | (text[i] == want);
    }
    return r;
}
static bool t_at_screen(void) {
    return ((const ux_flow_step_t *) m_ui_step())->init == ux_layout_bnnn_paging_init;
}
// A well-formed address path m/44'/429'/a'/0|1/i
static uint32_t h_path[12];
static uint8_t h_path_len;
static void d_path(void) {
    d_u8(h_path_len);
    for (uint8_t i = 0; i < h_path_len; i++) d_u32(h_path[i]);
}
static void h_good_path(uint8_t len) {
    h_path_len = len;
    h_path[0] = 0x8000002C;
    h_path[1] = 0x800001AD;
    h_path[2] = in_u32() | 0x80000000u;
    h_path[3] = in_bool();
    for (int i = 4; i < 10; i++) h_path[i] = i < len ? in_u32() & 0x7FFFFFFFu : 0;
}
// Any path of this length
static void h_any_path(uint8_t len) {
    h_path_len = len;
    for (int i = 0; i < 12; i++) h_path[i] = i < len ? in_u32() : 0;
}
