#include "requests.h"
// SIGN TRANSACTION, initialisation: any parameters and data, then one user decision.
void harness(void) {
    h_boot();
    uint32_t connected = app_connected_app_id();
    uint8_t p2 = in_u8(), lc = in_u8();
    ASSUME(lc <= 51 && p2 != 0);
    in_bytes(h_data, 51);
    h_apdu(CLA, CMD_SIGN_TRANSACTION, 1, p2, lc);
    bool has_token = p2 == 2, ok = p2 == 1 || p2 == 2;
    uint8_t net = h_data[0], n = h_data[1];
    bool parsed = lc >= 2 && n >= 1 && n <= 10 && lc == 2 + 4 * n + (has_token ? 4 : 0);
    uint32_t path[10];
    for (int i = 0; i < 10; i++) path[i] = h_be32(h_data + 2 + 4 * i);
    bool good = ok && parsed && n >= 5 && path[0] == 0x8000002C && path[1] == 0x800001AD && path[2] >= 0x80000000u && path[3] <= 1 &&
                (net == 0x00 || net == 0x10);
    for (int i = 4; i < 10; i++) {
        if (i < n && path[i] >= 0x80000000u) good = false;
    }
    uint32_t token = has_token && parsed ? h_be32(h_data + 2 + 4 * n) : 0;
    if (!good) {
        ASSERT(m_resp.count == 1 && m_resp.sw != SW_OK && m_resp.len == 0 && !h_busy(), "an invalid signing request is refused");
        ASSERT(m_derive.calls == 0, "no key is derived for a refused request");
        REACH("refused");
        return;
    }
    if (!m_valid_scalar(m_derive.key)) {
        // does not happen for real keys
        ASSERT(!h_ok(), "signing starts with the user's approval only");
        REACH("unusable key");
        return;
    }
    ASSERT(h_prompt(), "signing starts with the user's approval only");
    r_check_prompt(path, n, NULL, token == connected ? 0 : token);
    bool same = m_derive.calls == 1 && m_derive.path_len == n;
    for (int i = 0; i < 10; i++) same = same && (i >= n || m_derive.path[i] == path[i]);
    ASSERT(same, "the key of the requested path is used");
    bool approve = in_bool(), at_path = in_bool();
    if (approve && at_path) {
        // the button on the path screen
        m_ui_goto(0);
        m_resp.count = 0;
        m_ui_both();
        if (h_busy()) {
            ASSERT(m_resp.count == 0, "a prompt that stays is not answered");
            REACH("path screen");
            h_answer_token(true, token);
        }
    } else h_answer_token(approve, token);
    ASSERT(m_resp.count == 1 && !h_busy(), "a decision is answered once");
    if (!approve) {
        ASSERT(m_resp.sw == SW_DENY && m_resp.len == 0 && app_connected_app_id() == connected, "a denial ends the operation");
        REACH("denied");
        return;
    }
    ASSERT(h_ok() && m_resp.len == 1 && m_resp.b0 != 0, "the session number is returned");
    ASSERT(app_connected_app_id() == token, "the approved application becomes the connected one");
    REACH("started");
}
