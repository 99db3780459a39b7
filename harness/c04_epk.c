#include "requests.h"
// GET EXTENDED PUBLIC KEY: one APDU with any parameters and data, then one user decision.
void harness(void) {
    h_boot();
    uint32_t connected = app_connected_app_id();
    uint8_t p1 = in_u8(), p2 = in_u8(), lc = in_u8();
    ASSUME(lc <= 50);
    in_bytes(h_data, 50);
    m_resp_watch = in_u8();
    h_apdu(CLA, CMD_GET_EXTENDED_PUBLIC_KEY, p1, p2, lc);

    // specification of acceptance
    bool has_token = p1 == 2;
    bool ok = (p1 == 1 || p1 == 2) && p2 == 0;
    uint8_t n = h_data[0];
    bool parsed = lc >= 1 && n >= 1 && n <= 10 && lc == 1 + 4 * n + (has_token ? 4 : 0);
    bool path_ok = parsed && n >= 3 && h_be32(h_data + 1) == 0x8000002C && h_be32(h_data + 5) == 0x800001AD;
    for (int i = 2; i < 10; i++) {
        if (i < n && !(h_data[1 + 4 * i] & 0x80)) path_ok = false;
    }
    uint32_t token = has_token && parsed ? h_be32(h_data + 1 + 4 * n) : 0;
    if (!ok || !path_ok) {
        ASSERT(m_resp.count == 1 && m_resp.sw != SW_OK && m_resp.len == 0, "a rejected request is answered with an error");
        ASSERT(m_derive.calls == 0, "no key is derived for a rejected request");
        REACH("rejected");
        return;
    }
    ASSERT(m_derive.calls == 1 && m_derive.path_len == n, "the key of the requested path is derived");
    for (int i = 0; i < 10; i++) {
        if (i < n) ASSERT(m_derive.path[i] == h_be32(h_data + 1 + 4 * i), "the key of the requested path is derived");
    }
    if (!(token != 0 && token == connected)) {
        ASSERT(m_resp.count == 0 && h_busy(), "an unknown application waits for the user");
        uint32_t path[10];
        for (int i = 0; i < 10; i++) path[i] = h_be32(h_data + 1 + 4 * i);
        r_check_prompt(path, n, NULL, token);
        int a = m_ui_find(1), r = m_ui_find(2);
        ASSERT(a >= 0 && r >= 0, "the prompt offers approve and reject");
        bool approve = in_bool();
        m_ui_goto(approve ? a : r);
        m_ui_both();
        ASSERT(m_resp.count == 1, "one response");
        if (!approve) {
            ASSERT(m_resp.sw == SW_DENY && m_resp.len == 0, "rejecting exports nothing");
            REACH("denied");
            return;
        }
    }
    ASSERT(m_resp.count == 1 && m_resp.sw == SW_OK && m_resp.len == 65, "public key and chain code are returned");
    uint8_t w = m_resp_watch;
    uint8_t want = w == 0 ? (m_pair.W[64] & 1 ? 3 : 2) : w < 33 ? m_pair.W[w] : w < 65 ? m_derive.chain[w - 33] : 0;
    ASSERT(w >= 65 || m_resp.watched == want, "the response is compressed public key || chain code");
    REACH("exported");
}
