#include "proto.h"
// A signing operation, an export and an address request with SDK failures at any points: no secret survives the operation,
// and while it lasts secrets are held in the operation's own state only.
static bool after(bool over) {
    ASSERT(m_secrets_live_outside(&G_app_context, sizeof(G_app_context)) == 0, "between commands no secret is held outside the operation");
    if (m_resp.count == 1 && m_resp.sw != SW_OK) {
        ASSERT(m_secrets_live() == 0, "an error or a denial leaves no secret");
        REACH("ended");
        return false;
    }
    if (over) ASSERT(m_secrets_live() == 0, "a finished operation leaves no secret");
    return true;
}
#define STEP(over)                \
    do {                          \
        if (!after(over)) return; \
    } while (0)
void harness(void) {
    h_boot();
    m_secrets_on = true;
    m_fault_hash = in_bool();
    m_fault_ecc = in_bool();
    m_fault_derive = in_bool();
    m_fault_fmt = in_bool();
    m_fault_budget = FAULTS;
    h_good_path(5);
#if OP == 0
    d_u8(0);
    d_path();
    h_send(CMD_SIGN_TRANSACTION, 1, 1);
    STEP(false);
    h_answer_token(in_bool(), 0);
    STEP(false);
    uint8_t sess = m_resp.b0;
    ASSERT(m_secrets_held(), "the nonce waits in the operation's state");
    d_u16(1);
    d_u16(0);
    d_u8(0);
    d_u16(1);
    h_send(CMD_SIGN_TRANSACTION, 0x10, sess);
    STEP(false);
    uint8_t *f = d_any(43 + 16 + 4);
    f[32] = 1;
    f[33] = 0;
    f[42] = 0;
    memset(f + 59, 0, 4);
    h_send(CMD_SIGN_TRANSACTION, 0x12, sess);
    STEP(false);
    d_u64(in_u8());
    d_u32(3);
    d_u32(in_u8());
    d_u8(0);
    d_u32(0);
    h_send(CMD_SIGN_TRANSACTION, 0x15, sess);
    STEP(false);
    d_any(3);
    h_send(CMD_SIGN_TRANSACTION, 0x16, sess);
    STEP(false);
    h_answer(in_bool());
    STEP(false);
    h_send(CMD_SIGN_TRANSACTION, 0x20, sess);
    STEP(false);
    h_answer(in_bool());
    STEP(true);
    ASSERT(m_resp.len == 56, "the transaction is signed");
    REACH("signed");
#elif OP == 1
    h_path[3] |= 0x80000000u;
    h_path_len = 4;
    d_path();
    h_send(CMD_GET_EXTENDED_PUBLIC_KEY, 1, 0);
    STEP(true);
    h_answer_token(in_bool(), 0);
    STEP(true);
    REACH("exported");
#elif OP == 2
    d_u8(0);
    d_path();
    h_send(CMD_DERIVE_ADDRESS, in_bool() ? 1 : 2, 1);
    STEP(true);
    h_answer_token(in_bool(), 0);
    STEP(true);
    REACH("derived");
#else
    // another command ends the operation: its secret is erased
    d_u8(0);
    d_path();
    h_send(CMD_SIGN_TRANSACTION, 1, 1);
    STEP(false);
    h_answer_token(true, 0);
    STEP(false);
    uint8_t k = in_u8(), n = in_u8();
    ASSUME((k < 3) & (n <= 30));
    d_any(30);
    d_n = n;
    h_send(k == 0 ? CMD_GET_EXTENDED_PUBLIC_KEY : k == 1 ? CMD_DERIVE_ADDRESS : CMD_ATTEST_INPUT_BOX, 1, k > 0);
    ASSERT(m_secrets_live() == 0, "another command leaves no secret of the operation it ends");
    REACH("replaced");
#endif
}
