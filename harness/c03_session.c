#include "scenario.h"
// Foreign continuations (other operation, other session, unknown part) at any point of any operation.
static uint32_t l_macs, l_derived, l_finals, l_mul, l_pairs;
static void log_calls(void) {
    l_macs = m_hmac.calls;
    l_derived = m_derive.calls;
    l_finals = m_hash.finals;
    l_mul = m_multm.calls;
    l_pairs = m_pair.calls;
}
static bool no_calls(void) {
    return (l_macs == m_hmac.calls) & (l_derived == m_derive.calls) & (l_finals == m_hash.finals) & (l_mul == m_multm.calls) & (l_pairs == m_pair.calls);
}
// the operation in progress: 0 none
static uint8_t current(void) {
#if SC == 4
    return h_points > 2 && A.phase != 0 ? 0x20 : 0;
#elif SC == 5
    return h_points > 2 && S.phase < 6 ? 0x21 : 0;
#else
    return 0;
#endif
}
static void any_continuation(uint8_t cur, uint8_t sess) {
    uint8_t ins = in_bool() ? 0x20 : 0x21, p1 = in_u8(), p2 = in_u8(), lc = in_u8();
    ASSUME((p1 != 0) & (p1 != 1) & (p2 != 0) & (lc <= 70));
    in_bytes(h_data, 70);
    if (ins == cur && cur == 0x20) ASSUME((p2 != sess) | (p1 > 5));
    if (ins == cur && cur == 0x21) ASSUME((p2 != sess) | ((p1 != 0x20) & ((p1 < 0x10) | (p1 > 0x1A))));
    log_calls();
    h_apdu(0xE0, ins, p1, p2, lc);
    ASSERT((m_resp.count == 1) & (m_resp.sw != SW_OK) & (m_resp.len == 0), "a continuation outside its operation and session is refused");
    ASSERT(!h_busy() & no_calls(), "a refused continuation shows and computes nothing");
}
static void end(void) {
    any_continuation(0, 0);
#ifdef TWICE
    any_continuation(0, 0);
#endif
    REACH("over");
    h_end();
}
#ifdef INJECT
static void inject(bool prompt) {
    if (prompt) return;
    uint8_t cur = current(), sess = cur == 0x20 ? A.sess : s_sess;
    uint8_t p1, p2, ins;
#ifdef OTHER
    // another operation is started, then the first one is continued
    uint8_t what = in_u8();
    ASSUME(what < 4);
    what = (uint8_t) v_concrete(what);
    h_injected = true;
    if (what == 0) r_epk(false);
    else if (what == 1) r_address(in_bool(), false);
    else if (what == 2 && cur != 0x20) a_init(0, 0, 0, false);
    else {
        // a refused initialisation of the same or another operation
        d_any(6);
        h_send(cur == 0x20 || in_bool() ? 0x20 : 0x21, 0x01, 1);
        ASSERT(h_error(), "an incomplete initialisation is refused");
    }
    REACH("replaced");
    ins = cur;
    p1 = in_u8();
    p2 = sess;
    ASSUME(p1 > 1);
    in_bytes(h_data, 70);
    uint8_t lc = in_u8();
    ASSUME(lc <= 70);
    log_calls();
    h_apdu(0xE0, ins, p1, p2, lc);
    ASSERT((m_resp.count == 1) & (m_resp.sw != SW_OK) & (m_resp.len == 0), "an operation that was replaced cannot be continued");
    ASSERT(!h_busy() & no_calls(), "an operation that was replaced cannot be continued");
#else
    any_continuation(cur, sess);
    REACH("refused");
#endif
    end();
}
void harness(void) { scenario(); }
#else
// a denied signing request
void harness(void) {
    h_boot();
    h_good_path(5);
    d_u8(in_bool() ? 0x10 : 0);
    d_path();
    m_allow = M_PROMPT;
    h_send(CMD_SIGN_TRANSACTION, 0x01, 1);
    m_allow = M_ANY;
    h_answer(false);
    CK(P(3), h_error() & (m_resp.sw == SW_DENY) & (m_resp.len == 0), "a denial ends the operation");
    REACH("refused");
    end();
}
#endif
