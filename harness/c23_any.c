#include "scenario.h"
// Any command with any data, at any point of any operation, under any one failure of the SDK; then any moves and decision
// if the user is asked.  Every memory access and every arithmetic operation on the way is checked by the engine.
#ifndef CMDS
#define CMDS 1
#endif
#ifndef LC
#define LC 255
#endif
#ifndef MOVES
#define MOVES 2
#endif
static void moves(void) {
    m_resp.count = 0;
    for (int i = 0; i < MOVES; i++) {
        if (in_bool()) m_ui_right();
        else m_ui_left();
        if (!h_busy()) {
            ASSERT((m_resp.count == 1) & (m_resp.sw != SW_OK), "a screen that cannot be shown ends the operation with an error");
            REACH("screen failed");
            return;
        }
        ASSERT(m_resp.count == 0, "looking at a prompt answers nothing");
    }
    bool approve = in_bool();
    int k = m_ui_find(approve ? 1 : 2);
    ASSERT(k >= 0, "a prompt offers approve and reject");
    m_ui_goto(k);
    m_resp.count = 0;
    m_ui_both();
    ASSERT((m_resp.count == 1) & !h_busy(), "a decision is answered");
    REACH("decided");
}
static void inject(bool prompt) {
    m_fault_hash = m_fault_derive = m_fault_fmt = true;
    m_fault_budget = 1;
    for (int i = 0; i < CMDS; i++) {
        uint8_t ins = in_u8(), p1 = in_u8(), p2 = in_u8(), lc = in_u8();
        ASSUME(lc <= LC);
#ifdef INS
        ASSUME(ins == INS);
#endif
#ifdef CONT
        ASSUME((ins >= 0x20) & (p1 != 1));   // no new operation
#endif
        in_bytes(h_data, 255);
        m_fault_ecc = v_concrete(ins != 0x21);   // signing under failures of the curve: C14, C15
        bool busy = h_busy();
        // lists of tokens with amounts: every step of the loop multiplies the executions
        bool list = ((ins == 0x20) & (p1 == 3)) | ((ins == 0x21) & ((p1 == 0x19) | (p1 == 0x12)));
        ASSUME(!list | (lc <= 100));
        h_apdu(0xE0, ins, p1, p2, lc);
        if (busy) {
            ASSERT(h_busy() & (m_resp.count == 1), "the prompt stays");
        } else {
            ASSERT((m_resp.count == 1) ^ h_busy(), "a command is answered, or the user is asked");
            ASSERT(m_resp.count <= 1, "a command is answered once");
        }
        ASSERT(m_resp.len <= 255, "the response fits the transport buffer");
        if (h_busy()) {
            REACH("asked");
            if (i + 1 == CMDS) moves();
        }
        REACH("any");
    }
    h_end();
}
void harness(void) { scenario(); }
