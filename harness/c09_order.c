#include "tx.h"
// Any operations after a prefix that leads into phase AT of a transaction.
#ifndef AT
#define AT 0
#endif
#ifndef OPS
#define OPS 2
#endif
#define STEP(x)           \
    do {                  \
        if (!(x)) return; \
    } while (0)
// one operation of any kind; returns whether it was accepted
static bool any_op(void) {
    uint8_t op = in_u8();
    ASSUME(op < 31);
    switch ((uint8_t) v_concrete(op)) {
        case 0: {
            uint16_t a = in_u16(), b = in_u16();
            uint8_t t = in_u8();
            uint16_t o = in_u16();
            return t_start(a, b, t, o);
        }
        case 1: return t_tokens(0);
        case 2: return t_tokens(31);
        case 3: return t_tokens(32);
        case 4: return t_tokens(64);
        case 5: return t_frame(0, in_u8(), in_u8(), false, false, 0);
        case 6: return t_frame(0, in_u8(), in_u8(), true, true, in_u32());
        case 7: return t_extension(0);
        case 8: return t_extension(1);
        case 9: return t_extension(3);
        case 10: return t_data_inputs(0);
        case 11: return t_data_inputs(32);
        case 12: return t_data_inputs(64);
        case 13: return t_data_inputs(33);
        case 14: return t_output(in_u32(), in_u8(), in_u32());
        case 15: return t_tree(0, 0);
        case 16: return t_tree(2, 0);
        case 17: return t_tree(36, 3);
        case 18: return t_tree(255, 0);
        case 19: return t_fee(0);
        case 20: return t_fee(1);
        case 21: h_any_path(5); return t_change();
        case 22: return t_out_tokens(0, 0);
        case 23: return t_out_tokens(1, 0);
        case 24: return t_out_tokens(1, 3);
        case 25: return t_out_tokens(2, 0);
        case 26: return t_registers(0);
        case 27: return t_registers(1);
        case 28: return t_registers(4);
        case 29: return t_confirm();
        default: return t_short(in_u8());
    }
}
void harness(void) {
    t_begin(5);
    // counts stay symbolic: what follows is in order up to the phase
    uint16_t in = in_u16(), din = in_u16(), out = in_u16();
    uint8_t tok = in_u8();
    if (AT >= 1) {
        if (AT >= 2) ASSUME(tok == (AT == 2));
        if (AT == 4 || AT == 6 || AT == 7) ASSUME(in == 1);
        if (AT == 4) ASSUME(din >= 1);
        STEP(t_start(in, din, tok, out));
    }
    if (AT == 2) STEP(t_tokens(32));
    if (AT == 3) {
        uint8_t fc = in_u8();
        STEP(t_frame(0, fc, 0, false, true, in_u32()));
    }
    if (AT >= 4) {
        if (AT == 5) ASSUME(in >= 2);
        STEP(t_frame(0, 1, 0, false, true, 0));
    }
    if (AT == 4 && din == 0) return;
    if (AT >= 6) {
        ASSUME(din == 0);
        uint8_t ot = in_u8();
        uint32_t tree = in_u32(), regs = in_u32();
        if (AT == 7) STEP(t_output(tree, ot, regs));
        if (AT == 8) {
            ASSUME(in == 1);
            STEP(t_output(tree, ot, regs));
            STEP(t_fee(0));
        }
    }
    REACH("prefix done");
    for (int i = 0; i < OPS; i++) {
        if (!any_op()) {
            if (S.phase == 6) t_dead();
            return;
        }
        REACH("accepted");
    }
    REACH("all accepted");
}
