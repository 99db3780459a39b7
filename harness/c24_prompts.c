#include "requests.h"
#include "attest.h"
// The prompts of the requests: any path, any token, texts of any length; forwards, then backwards.
static void back(void) {
    // from the last screen to the first, each as it was
    const void *seen[8];
    uint8_t n = (uint8_t) G_ux.flow_stack[0].length;
    m_ui_goto(0);
    for (uint8_t i = 0; i < n; i++) {
        seen[i] = m_ui_step();
        m_ui_right();
    }
    for (uint8_t i = n; i > 0; i--) {
        m_ui_left();
        ASSERT(m_ui_step() == seen[i - 1] && h_busy() && m_resp.count == 0, "every screen is visited in both directions");
    }
    const char *title;
    if (t_at_screen()) {
        uint64_t end = 0;
        uint8_t *text = t_text(&title);
        for (int i = 0; i < 70; i++) end |= text[i] == 0;
        ASSERT(end, "texts are terminated");
    }
    ASSERT(m_fmt_printf.need <= m_fmt_printf.size, "texts are not cut");
    REACH("seen");
}
void harness(void) {
    h_boot();
    m_text_full = true;
    uint32_t connected = app_connected_app_id();
    bool with_token = in_bool();
    uint32_t token = with_token ? in_u32() : 0;
    uint8_t len = in_u8();
    ASSUME(len >= 5 && len <= 10);
    len = (uint8_t) v_concrete(len);
#if KIND == 0
    // public key: m/44'/429'/a'
    h_good_path(3);
    d_path();
    if (with_token) d_u32(token);
    h_send(CMD_GET_EXTENDED_PUBLIC_KEY, with_token ? 2 : 1, 0);
    if (!h_prompt()) return;
    r_check_prompt(h_path, 3, NULL, token);
#elif KIND == 1 || KIND == 2
    d_u8(in_bool() ? 0x10 : 0x00);
    h_good_path(len);
    d_path();
    if (with_token) d_u32(token);
    h_send(CMD_DERIVE_ADDRESS, KIND, with_token ? 2 : 1);
    if (!h_prompt()) return;
    uint8_t raw[38];
    raw[0] = 1 + h_data[0];
    raw[1] = 2 + (m_pair.W[64] & 1);
    memcpy(raw + 2, m_pair.W + 1, 32);
    memcpy(raw + 34, m_b2b.out, 4);
    r_check_prompt(h_path, len, KIND == 2 ? raw : NULL, token);
#elif KIND == 3
    d_u8(in_bool() ? 0x10 : 0x00);
    h_good_path(len);
    d_path();
    if (with_token) d_u32(token);
    h_send(CMD_SIGN_TRANSACTION, 1, with_token ? 2 : 1);
    if (!h_prompt()) return;
    r_check_prompt(h_path, len, NULL, token == connected ? 0 : token);
#else
    d_any(55);
    if (with_token) d_u32(token);
    h_send(CMD_ATTEST_INPUT_BOX, 1, with_token ? 2 : 1);
    if (!h_prompt()) return;
    m_ui_goto(0);
    ASSERT(!t_at_screen() && m_ui_kind() == 0, "a prompt starts with its heading");
    m_ui_right();
    if (token != 0) {
        ASSERT(m_ui_kind() == 0 && h_shows_token(token), "the application is shown");
        m_ui_right();
    } else if (m_ui_kind() == 0) m_ui_right();
    ASSERT(m_ui_kind() == 1, "approval is offered last");
    m_ui_right();
    ASSERT(m_ui_kind() == 2, "rejection is offered last");
#endif
    back();
}
