#include "attest.h"
// Any operations from phase AT of an attestation.
#ifndef OPS
#define OPS 2
#endif
#define STEP(x)           \
    do {                  \
        if (!(x)) return; \
    } while (0)
static bool any_op(void) {
    uint8_t op = in_u8();
    ASSUME(op < 17);
    switch ((uint8_t) v_concrete(op)) {
        case 0: return a_tree(0);
        case 1: return a_tree(3);
        case 2: return a_tree(255);
        case 3: return a_tokens(0, 0);
        case 4: return a_tokens(1, 0);
        case 5: return a_tokens(1, 7);
        case 6: return a_tokens(1, 32);
        case 7: return a_tokens(2, 0);
        case 8: return a_registers(0);
        case 9: return a_registers(1);
        case 10: return a_registers(4);
        case 11: return a_frame(0);
        case 12: return a_frame(1);
        case 13: return a_frame(255);
        case 14: return a_init(in_u32(), in_u8(), in_u32(), false);
        case 15:
            // initialisation data of a wrong length
            d_any(in_bool() ? 54 : 56);
            h_send(CMD_ATTEST_INPUT_BOX, 0x01, 1);
            return a_expect(0, 0);
        default:
            d_any(in_bool() ? 58 : 60);
            h_send(CMD_ATTEST_INPUT_BOX, 0x01, 2);
            return a_expect(0, 0);
    }
}
void harness(void) {
    h_boot();
    m_watch = in_u32();
    uint32_t tree = in_u32(), regs = in_u32();
    uint8_t toks = in_u8();
    if (AT >= 1) {
        if (AT >= 2) ASSUME(tree == 0);
        if (AT == 2) ASSUME(toks > 0);
        if (AT == 3) ASSUME((toks == 0) & (regs > 0));
        if (AT == 4) ASSUME((toks == 0) & (regs == 0));
        if (AT == 5) ASSUME((toks == 1) & (regs == 0));
        STEP(a_init(tree, toks, regs, false));
        if (AT >= 2) STEP(a_tree(0));
        if (AT == 5) STEP(a_tokens(1, 0));
    }
    REACH("prefix done");
    for (int i = 0; i < OPS; i++) {
        if (!any_op()) {
            if (A.phase == 0) a_dead();
            return;
        }
        REACH("accepted");
    }
    REACH("all accepted");
}
