#include "scenario.h"
// The start of the application, and its session key during one operation with one arbitrary command in between.
static uint64_t key_same(void) { return h_eq(app_session_key(), m_keys.out, 16); }
static void inject(bool prompt) {
    uint8_t ins = in_u8(), p1 = in_u8(), p2 = in_u8(), lc = in_u8();
    ASSUME(lc <= 70);
    in_bytes(h_data, 70);
#ifndef RELIABLE
    m_fault_hash = m_fault_derive = m_fault_fmt = true;
    m_fault_budget = 1;
#endif
    h_apdu(0xE0, ins, p1, p2, lc);
    ASSERT(key_same() & (m_keys.calls == 1), "the session key stays as it is");
    if (h_busy()) {
        bool approve = in_bool();
        int k = m_ui_find(approve ? 1 : 2);
        m_ui_goto(k);
        m_ui_both();
        ASSERT(key_same() & (m_keys.calls == 1), "the session key stays as it is");
    }
    REACH("any command");
    h_end();
}
static void start(void) {
    // whatever was in memory before
    in_bytes(&G_app_context, sizeof(G_app_context) < 1024 ? sizeof(G_app_context) : 1024);
    app_set_connected_app_id(in_u32());
    app_set_ui_busy(in_bool());
    m_keys.calls = 0;
    app_init();
    ASSERT((m_keys.calls == 1) & (m_keys.len == 16), "every start draws a session key of 16 random bytes");
    ASSERT(h_eq(app_session_key(), m_keys.out, 16), "every start draws a session key of 16 random bytes");
    ASSERT((app_connected_app_id() == 0) & !app_is_ui_busy() & (app_current_command() == CMD_NONE), "after the start no application is connected and no operation is in progress");
    // nothing can be continued
    uint8_t ins = in_bool() ? 0x20 : 0x21, p1 = in_u8(), p2 = in_u8(), lc = in_u8();
    ASSUME((p1 != 1) & (lc <= 70));
    in_bytes(h_data, 70);
    ui_menu_main();
    m_ui_settle();
    h_apdu(0xE0, ins, p1, p2, lc);
    ASSERT((m_resp.count == 1) & (m_resp.sw != SW_OK) & (m_resp.len == 0) & !h_busy(), "after the start nothing can be continued");
    ASSERT(key_same() & (m_keys.calls == 1), "the session key stays as it is");
    REACH("started");
}
void harness(void) {
#ifdef START
    start();
#else
    scenario();
#endif
}
