#include "proto.h"
// Two runs of one operation with the same inputs but different private keys, nonces and session keys: everything that leaves the
// device, and everything shown, is the same in both.  The SDK's one-way functions give the same results in both runs (they hide
// their arguments), so any difference is secret material that got out without passing through one of them.
#ifndef FAULTS
#define FAULTS 1
#endif
#define LOGN 220
static uint64_t l_log[2][LOGN];
static uint32_t l_n[2];
static int l_run;
static uint8_t l_pos;
static void l_put(uint64_t v) {
    ASSERT(l_n[l_run] < LOGN, "model capacity: observations of one run");
    l_log[l_run][l_n[l_run]++] = v;
}
static uint8_t l_char(const char *s, uint8_t size) { return v_pick(s, size, l_pos, 0); }
static void l_formats(void) {
    l_put(m_fmt_printf.value);
    l_put(m_fmt_u64.value);
    l_put(m_fmt_fp.value);
    l_put(v_pick(m_fmt_b58.in, 64, l_pos, 0));
    l_put(v_pick(m_fmt_path.path, 40, l_pos, 0));
}
static void l_screens(void) {
    ux_flow_state_t *f = &G_ux.flow_stack[0];
    m_ui_goto(0);
    uint16_t first = f->index;
    for (int i = 0; i < 12; i++) {
        const ux_flow_step_t *s = m_ui_step();
        l_put(f->index);
        if (s->init == ux_layout_bnnn_paging_init) {
            const ux_layout_bnnn_paging_params_t *p = s->params;
            l_put(p->title[0]);
            l_put(l_char(p->text, 70));
        } else if (s->init == ux_layout_bn_init) {
            const ux_layout_bn_params_t *p = s->params;
            l_put(v_pick(p->line2, 10, l_pos, 0));
        }
        l_formats();
        if (m_ui_kind() == 2) break;
        m_ui_right();
    }
}
static void l_out(void) {
    l_put(m_resp.count);
    l_put(m_resp.sw);
    l_put(m_resp.len);
    l_put(m_resp.len > 0 ? m_resp.b0 : 0);
    l_put(v_select(m_resp_watch < m_resp.len, m_resp.watched, 0));
    l_put(h_busy());
    l_put(app_current_command());
    if (h_busy()) l_screens();
}
static bool part(uint8_t ins, uint8_t p1, uint8_t p2) {
    uint8_t n = d_n;
    d_n = 0;
    h_apdu(0xE0, ins, p1, p2, n);
    l_out();
    return h_ok() | h_prompt();
}
static bool decision(void) {
    if (!h_busy()) return h_ok();
    bool approve = in_bool();
    m_ui_goto(m_ui_find(approve ? 1 : 2));
    m_resp.count = 0;
    m_ui_both();
    l_out();
    return h_ok();
}
#define STEP(x)           \
    do {                  \
        if (!(x)) return; \
    } while (0)
static void operation(void) {
    app_init();
    ui_menu_main();
    m_ui_settle();
    app_set_connected_app_id(in_u32());
    m_resp_watch = in_u8();
    l_pos = in_u8();
    m_fault_hash = m_fault_ecc = m_fault_derive = true;
    m_fault_budget = FAULTS;
    d_n = 0;
#if OP == 0
    uint8_t p1 = in_u8(), p2 = in_u8(), lc = in_u8();
    ASSUME(lc <= 49);
    in_bytes(h_data, 49);
    d_n = lc;
    STEP(part(CMD_GET_EXTENDED_PUBLIC_KEY, p1, p2));
    STEP(decision());
#elif OP == 1
    uint8_t p1 = in_u8(), p2 = in_u8(), lc = in_u8();
    ASSUME(lc <= 50);
    in_bytes(h_data, 50);
    d_n = lc;
    STEP(part(CMD_DERIVE_ADDRESS, p1, p2));
    STEP(decision());
#elif OP == 2
    uint8_t *p = d_any(59);
    memset(p + 42, 0, 4);
    p[45] = 3;
    p[50] = 1;
    memset(p + 32, 0, 9);
    memset(p + 46, 0, 3);
    ASSUME((p[41] < 128) & (p[49] < 128));
    memset(p + 51, 0, 4);
    STEP(part(CMD_ATTEST_INPUT_BOX, 1, 2));
    STEP(decision());
    uint8_t sess = m_resp.b0;
    d_any(3);
    STEP(part(CMD_ATTEST_INPUT_BOX, 2, sess));
    p = d_any(40);
    memset(p + 32, 0, 7);
    STEP(part(CMD_ATTEST_INPUT_BOX, 3, sess));
    d_u8(in_u8());
    STEP(part(CMD_ATTEST_INPUT_BOX, 5, sess));
#else
    h_good_path(5);
    d_u8(in_bool() ? 0x10 : 0);
    d_path();
    d_u32(in_u32());
    STEP(part(CMD_SIGN_TRANSACTION, 1, 2));
    STEP(decision());
    uint8_t sess = m_resp.b0;
    d_u16(1);
    d_u16(0);
    d_u8(0);
    d_u16(2);
    STEP(part(CMD_SIGN_TRANSACTION, 0x10, sess));
    uint8_t *f = d_any(43 + 16 + 4);
    f[32] = 1;
    f[33] = 0;
    f[42] = 0;
    memset(f + 59, 0, 4);
    STEP(part(CMD_SIGN_TRANSACTION, 0x12, sess));
    d_u64(in_u8() & 127);
    d_u32(3);
    d_u32(in_u8() & 127);
    d_u8(0);
    d_u32(0);
    STEP(part(CMD_SIGN_TRANSACTION, 0x15, sess));
    d_any(3);
    STEP(part(CMD_SIGN_TRANSACTION, 0x16, sess));
    STEP(decision());
    d_u64(in_u8() & 127);
    d_u32(0);
    d_u32(in_u8() & 127);
    d_u8(0);
    d_u32(0);
    STEP(part(CMD_SIGN_TRANSACTION, 0x15, sess));
    h_good_path(5);
    d_path();
    STEP(part(CMD_SIGN_TRANSACTION, 0x18, sess));
    STEP(decision());
    STEP(part(CMD_SIGN_TRANSACTION, 0x20, sess));
    STEP(decision());
#endif
    REACH("whole operation");
}
void harness(void) {
    tape_begin(1);
    l_run = 0;
    operation();
    memset(&m_fmt_b58, 0, sizeof(m_fmt_b58));
    memset(&m_fmt_path, 0, sizeof(m_fmt_path));
    memset(&m_fmt_printf, 0, sizeof(m_fmt_printf));
    memset(&m_fmt_u64, 0, sizeof(m_fmt_u64));
    memset(&m_fmt_fp, 0, sizeof(m_fmt_fp));
    memset(&m_resp, 0, sizeof(m_resp));
    tape_begin(2);
    l_run = 1;
    operation();
    ASSERT(tape_used_up(), "the application asks for the same inputs whatever the secrets are");
    ASSERT(l_n[0] == l_n[1], "nothing that leaves the device depends on its secrets");
    uint64_t same = 1;
    for (uint32_t i = 0; i < l_n[0]; i++) same &= l_log[0][i] == l_log[1][i];
    ASSERT(same, "nothing that leaves the device depends on its secrets");
    REACH("compared");
}
