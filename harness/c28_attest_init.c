#include "requests.h"
// ATTEST INPUT BOX, initialisation: any parameters and data, then one user decision, then one part.
void harness(void) {
    h_boot();
    uint32_t connected = app_connected_app_id();
    uint8_t p2 = in_u8(), lc = in_u8();
    ASSUME((lc <= 62) & (p2 != 0));
    in_bytes(h_data, 62);
    uint8_t copy[62];
    memcpy(copy, h_data, 62);
    h_apdu(CLA, CMD_ATTEST_INPUT_BOX, 1, p2, lc);
    bool has_token = p2 == 2;
    uint32_t tree = h_be32(copy + 42), toks = copy[50], regs = h_be32(copy + 51);
    bool good = (p2 == 1 || p2 == 2) && lc == (has_token ? 59 : 55) && tree <= 32768 && toks <= 20 && regs <= 32768;
    uint32_t token = has_token ? h_be32(copy + 55) : 0;
    if (!good) {
        ASSERT(m_resp.count == 1 && m_resp.sw != SW_OK && m_resp.len == 0 && !h_busy(), "an attestation request that is not well-formed is refused");
        REACH("refused");
    } else {
        bool known = token != 0 && token == connected;
        ASSERT(h_prompt() == !known, "an attestation starts with the user's approval, or for the connected application");
        if (!known) {
            // the heading, the application (if there is one), approve, reject
            m_ui_goto(0);
            if (token != 0) ASSERT(h_shows_token(token), "the prompt shows the application");
            bool moved = in_bool();
            if (moved) {
                m_ui_right();
                ASSERT(h_prompt(), "the prompt stays until it is answered");
            }
            bool approve = in_bool();
            h_answer_token(approve, token);
            ASSERT(m_resp.count == 1 && !h_busy(), "a decision is answered once");
            if (!approve) {
                ASSERT(m_resp.sw == SW_DENY && m_resp.len == 0 && app_connected_app_id() == connected, "a denial starts nothing");
                REACH("denied");
                good = false;
            } else ASSERT(app_connected_app_id() == token, "the approved application becomes the connected one");
        } else ASSERT(app_connected_app_id() == connected, "the connected application stays");
    }
    uint8_t sess = good ? m_resp.b0 : in_u8();
    if (good) ASSERT(h_ok() && m_resp.len == 1 && sess != 0, "the session number is returned");
    else ASSERT(m_hmac.calls == 0 && m_hash.finals == 0, "a refused request computes nothing");
    // a part follows: an empty script chunk
    ASSUME(sess != 0);
    uint8_t sub = good ? 2 : 2 + in_u8() % 4;
    h_apdu(CLA, CMD_ATTEST_INPUT_BOX, sub, sess, 0);
    bool takes = good && tree == 0;
    ASSERT(h_ok() == takes && !h_busy(), "only a started attestation takes parts");
    if (!takes) {
        ASSERT(h_error() && m_resp.len == 0, "only a started attestation takes parts");
        REACH("no part");
        return;
    }
    ASSERT(m_resp.len == (toks == 0 && regs == 0), "a complete box is answered with the number of frames");
    REACH("started");
}
