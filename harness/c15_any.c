#include "scenario.h"
// Any command with any data at any point of any operation, with a failing primitive, and the user's decision if asked:
// no secret is held outside an operation in progress.
static void held(void) {
    ASSERT(m_secrets_live_outside(&G_app_context, sizeof(G_app_context)) == 0, "between commands no secret is held outside the operation");
    if (app_current_command() != CMD_SIGN_TRANSACTION) ASSERT(m_secrets_live() == 0, "after the end of an operation nothing secret is left");
}
static void inject(bool prompt) {
    uint8_t ins = in_u8(), p1 = in_u8(), p2 = in_u8(), lc = in_u8();
    ASSUME(lc <= 70);
    in_bytes(h_data, 70);
    held();
    m_fault_hash = m_fault_derive = m_fault_fmt = true;
    m_fault_budget = FAULTS;
    h_apdu(0xE0, ins, p1, p2, lc);
    held();
    if (h_busy()) {
        REACH("asked");
        bool approve = in_bool();
        int k = m_ui_find(approve ? 1 : 2);
        ASSERT(k >= 0, "a prompt offers approve and reject");
        m_ui_goto(k);
        m_ui_both();
        held();
    }
    REACH("any command");
    h_end();
}
void harness(void) {
    m_secrets_on = true;
    scenario();
}
