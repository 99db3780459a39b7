#include "scenario.h"
// One or two data commands with any valid header and any data while a prompt is shown, at any of its first screens.
#ifndef COMMANDS
#define COMMANDS 1
#endif
static void disturb(void) {
    static const uint8_t inss[4] = {0x10, 0x11, 0x20, 0x21};
    uint8_t k = in_u8(), p1 = in_u8(), p2 = in_u8(), lc = in_u8();
    ASSUME((k < 4) & (lc <= 250));
    uint8_t ins = inss[v_concrete(k)];
    if (ins == 0x10) ASSUME((p1 >= 1) & (p1 <= 2) & (p2 == 0));
    else if (ins == 0x11) ASSUME((p1 >= 1) & (p1 <= 2) & (p2 >= 1) & (p2 <= 2));
    else ASSUME((p1 != 0) & (p2 != 0));
    in_bytes(h_data, 64);
    ux_state_t ux = G_ux;
    uint32_t connected = app_connected_app_id(), macs = m_hmac.calls, derived = m_derive.calls, finals = m_hash.finals, flows = m_ui_flow_inits;
    static uint8_t text[70];
    const uint8_t *shown = NULL;
    if (t_at_screen()) {
        const char *title;
        shown = t_text(&title);
        memcpy(text, shown, 10);
    }
    h_apdu(0xE0, ins, p1, p2, lc);
    ASSERT((m_resp.count == 1) & (m_resp.sw == 0xB000) & (m_resp.len == 0), "a data command is refused as busy while a prompt is shown");
    ASSERT(h_busy() & (memcmp(&ux, &G_ux, sizeof(ux)) == 0) & (flows == m_ui_flow_inits), "the prompt stays");
    if (shown != NULL) ASSERT(h_eq(shown, text, 10), "the screen stays");
    ASSERT((app_connected_app_id() == connected) & (m_hmac.calls == macs) & (m_derive.calls == derived) & (m_hash.finals == finals), "a refused command computes nothing");
    REACH("refused as busy");
}
static void inject(bool prompt) {
    if (!prompt) return;
    unsigned short at = G_ux.flow_stack[0].index;
    m_ui_goto(0);
    uint8_t moves = in_u8();
    ASSUME(moves <= 4);
    moves = (uint8_t) v_concrete(moves);
    for (uint8_t i = 0; i < moves; i++) m_ui_right();
    for (int i = 0; i < COMMANDS; i++) disturb();
    for (uint8_t i = 0; i < moves; i++) m_ui_left();
    ASSERT(G_ux.flow_stack[0].index == 0, "moving back leads to the first screen");
    m_ui_goto(at);
}
void harness(void) { scenario(); }
