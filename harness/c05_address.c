#include "requests.h"
// DERIVE ADDRESS: one APDU with any parameters and data, then one user decision.
void harness(void) {
    h_boot();
    uint32_t connected = app_connected_app_id();
    uint8_t p1 = in_u8(), p2 = in_u8(), lc = in_u8();
    ASSUME(lc <= 51);
    in_bytes(h_data, 51);
    m_resp_watch = in_u8();
    m_text_full = true;
    h_apdu(CLA, CMD_DERIVE_ADDRESS, p1, p2, lc);

    // specification of acceptance
    bool display = p1 == 2, has_token = p2 == 2;
    bool ok = (p1 == 1 || p1 == 2) && (p2 == 1 || p2 == 2);
    uint8_t net = h_data[0], n = h_data[1];
    bool parsed = lc >= 2 && n >= 1 && n <= 10 && lc == 2 + 4 * n + (has_token ? 4 : 0);
    uint32_t path[10];
    for (int i = 0; i < 10; i++) path[i] = h_be32(h_data + 2 + 4 * i);
    bool path_ok = parsed && n >= 5 && path[0] == 0x8000002C && path[1] == 0x800001AD && path[2] >= 0x80000000u && path[3] <= 1;
    for (int i = 4; i < 10; i++) {
        if (i < n && path[i] >= 0x80000000u) path_ok = false;
    }
    uint32_t token = has_token && parsed ? h_be32(h_data + 2 + 4 * n) : 0;
    if (!ok || !path_ok || net > 252) {
        ASSERT(m_resp.count == 1 && m_resp.sw != SW_OK && m_resp.len == 0, "a rejected request is answered with an error");
        ASSERT(ok && path_ok || m_derive.calls == 0, "no key is derived for a rejected request");
        ASSERT(!h_busy(), "a rejected request leaves no prompt");
        REACH("rejected");
        return;
    }
    ASSERT(m_derive.calls == 1 && m_derive.path_len == n, "the key of the requested path is derived");
    for (int i = 0; i < 10; i++) {
        if (i < n) ASSERT(m_derive.path[i] == path[i], "the key of the requested path is derived");
    }
    uint8_t raw[38];
    raw[0] = 1 + net;
    raw[1] = 2 + (m_pair.W[64] & 1);
    memcpy(raw + 2, m_pair.W + 1, 32);
    ASSERT(m_b2b.len == 34 && h_eq(m_b2b.data, raw, 34), "the checksum covers the address");
    memcpy(raw + 34, m_b2b.out, 4);
    if (display || !(token != 0 && token == connected)) {
        ASSERT(m_resp.count == 0 && h_busy(), "an address is shown or returned with approval only");
        r_check_prompt(path, n, display ? raw : NULL, token);
        bool approve = in_bool();
        h_answer_token(approve, token);
        ASSERT(m_resp.count == 1 && !h_busy(), "one response");
        if (!approve) {
            ASSERT(m_resp.sw == SW_DENY && m_resp.len == 0, "rejecting returns nothing");
            REACH("denied");
            return;
        }
    }
    if (display) {
        ASSERT(h_ok() && m_resp.len == 0, "showing an address returns nothing");
        REACH("shown");
        return;
    }
    ASSERT(h_ok() && m_resp.len == 38, "the address is returned");
    ASSERT(m_resp_watch >= 38 || m_resp.watched == v_pick(raw, 38, m_resp_watch, 0), "the address is the one of the derived key");
    REACH("returned");
}
