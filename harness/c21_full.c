#include "ser.h"
// A transaction: brought to a phase by operations in order, then OPS operations, each any one with any data.
#ifndef OPS
#define OPS 3
#endif
#ifndef AT
#define AT 0
#endif
static ergo_tx_serializer_full_context_t c;
static token_table_t table;
static cx_blake2b_t h;
enum { F_TOK, F_IN, F_DIN, F_OUT, F_FIN, F_FAILED };
static struct {
    int ph;
    uint16_t ins, dins, outs;   // what is left
    uint8_t distinct, room;
    si_t in;
    sb_t box;
} f;
enum { O_TOKENS, O_INPUT, O_IN_TOKENS, O_EXT, O_DIN, O_BOX, O_TREE, O_FEE, O_CHANGE, O_BOX_TOKENS, O_REGS, O_IN_CB, O_BOX_CB };
static int f_inputs(void) {
    f.ph = F_IN;
    f.in.ph = I_DONE;
    return S_OK;
}
static int f_outputs(void) {
    f.ph = F_OUT;
    f.box.ph = B_DONE;
    return S_OK;
}
static int f_init(void) {
    bool ok = (f.ins > 0) & (f.outs > 0) & (f.distinct <= 20);
    f.room = f.distinct;
    f.ph = !ok ? F_FAILED : f.distinct > 0 ? F_TOK : F_IN;
    f.in.ph = I_DONE;
    return ok ? S_OK : S_ERR;
}
static int f_input(int r) {
    if (r == S_ERR) f.ph = F_FAILED;
    else if (f.in.ph == I_DONE && --f.ins == 0) {
        if (f.dins == 0) f_outputs();
        else f.ph = F_DIN;
    }
    return r;
}
static int f_box(int r) {
    if (r == S_ERR) f.ph = F_FAILED;
    else if (f.box.ph == B_DONE && --f.outs == 0) f.ph = F_FIN;
    return r;
}
// one operation on both sides; false when it failed
static bool s_id_given;
static uint8_t id[32];
static bool f_op(int op, uint8_t len, uint8_t u8, uint32_t u32a, uint32_t u32b) {
    int e = S_ERR, ph = f.ph;
    uint8_t r = 0, key[65];
    uint64_t value = 0;
    uint32_t height = 0;
    if (op == O_INPUT || op == O_IN_TOKENS) {
        if (!s_id_given) in_bytes(id, 32);
        if (ph == F_IN && op == O_IN_TOKENS && s_id_given) memcpy(id, f.in.id, 32);
    }
    if (op == O_CHANGE) in_bytes(key, 65);
    if (op == O_BOX) {
        value = in_u64();
        height = in_u32();
        ASSUME(value < 128 && height < 128);
    }
    s_before();
    static const uint8_t of[] = {F_TOK, F_IN, F_IN, F_IN, F_DIN, F_OUT, F_OUT, F_OUT, F_OUT, F_OUT, F_OUT, F_IN, F_OUT};
    if (of[op] != ph) f.ph = F_FAILED;
    else switch (op) {
        case O_TOKENS:
            if (len % 32 != 0 || len / 32 > f.room) f.ph = F_FAILED;
            else {
                f.room -= len / 32;
                e = f.room == 0 ? f_inputs() : S_MORE;
            }
            break;
        case O_INPUT:
            if (f.in.ph != I_DONE) f.ph = F_FAILED;
            else if ((e = si_init(&f.in, id, u8, u32a)) == S_ERR) f.ph = F_FAILED;
            break;
        case O_IN_TOKENS: e = f_input(si_tokens(&f.in, id, u8, len)); break;
        case O_EXT: e = f_input(si_ext(&f.in, len)); break;
        case O_DIN:
            if (len % 32 != 0 || len / 32 > f.dins) f.ph = F_FAILED;
            else {
                f.dins -= len / 32;
                e = f.dins == 0 ? f_outputs() : S_MORE;
            }
            break;
        case O_BOX:
            if (f.box.ph != B_DONE) f.ph = F_FAILED;
            else if ((e = sb_init(&f.box, value, u32a, u8, u32b)) == S_ERR) f.ph = F_FAILED;
            break;
        case O_IN_CB:
            f.in.cb = true;
            e = S_OK;
            break;
        case O_BOX_CB:
            f.box.cb = true;
            e = S_OK;
            break;
        default: e = f_box(sb_op(&f.box, op - O_TREE, len, 12, f.distinct));
    }
    switch (op) {
        case O_TOKENS: r = ergo_tx_serializer_full_add_tokens(&c, &s_buf); break;
        case O_INPUT: r = ergo_tx_serializer_full_add_input(&c, id, u8, u32a); break;
        case O_IN_TOKENS: r = ergo_tx_serializer_full_add_input_tokens(&c, id, u8, &s_buf); break;
        case O_EXT: r = ergo_tx_serializer_full_add_input_context_extension(&c, &s_buf); break;
        case O_DIN: r = ergo_tx_serializer_full_add_data_inputs(&c, &s_buf); break;
        case O_BOX: r = ergo_tx_serializer_full_add_box(&c, value, u32a, height, u8, u32b); break;
        case O_TREE: r = ergo_tx_serializer_full_add_box_ergo_tree(&c, &s_buf); break;
        case O_FEE: r = ergo_tx_serializer_full_add_box_miners_fee_tree(&c, u8 & 1); break;
        case O_CHANGE: r = ergo_tx_serializer_full_add_box_change_tree(&c, key); break;
        case O_BOX_TOKENS: r = ergo_tx_serializer_full_add_box_tokens(&c, &s_buf); break;
        case O_REGS: r = ergo_tx_serializer_full_add_box_registers(&c, &s_buf); break;
        case O_IN_CB: r = ergo_tx_serializer_full_set_input_callback(&c, s_on_input_token, &s_types); break;
        case O_BOX_CB: r = ergo_tx_serializer_full_set_box_callbacks(&c, s_on_type, s_on_token, s_on_end, &s_types); break;
    }
    bool ok = s_after(r, e);
    if (!ok) f.ph = F_FAILED;
    ASSERT(ergo_tx_serializer_full_is_finished(&c) == (f.ph == F_FIN), "finished exactly when complete");
    if (s_types > 0) ASSERT((int) s_type == f.box.type && s_value == f.box.value, "type and value are reported");
    return ok;
}
static void step(int op, uint8_t len, uint8_t u8, uint32_t u32a, uint32_t u32b) {
    s_chunk(255);
    s_buf.size = len;
    if (op == O_BOX_TOKENS) memset(s_mem, 0, sizeof(s_mem));   // one length of the encoded values
    s_id_given = op == O_IN_TOKENS;
    bool ok = f_op(op, len, u8, u32a, u32b);
    s_id_given = false;
    ASSUME(ok);
}
void harness(void) {
    ASSUME(blake2b_256_init(&h));
    f.ins = in_u16();
    f.dins = in_u16();
    f.outs = in_u16();
    f.distinct = in_u8();
#if AT == 0
    m_fault_hash = true;
    m_fault_budget = 1;
#else
    // a small transaction
    ASSUME(f.ins == (AT >= 5 && AT < 6 ? 2 : 1 + (AT < 5)) && f.dins == 2 && f.outs == 2 && f.distinct == (AT == 1 ? 3 : 2));
#endif
    s_before();
    uint16_t ins = f.ins, dins = f.dins, outs = f.outs;
    int e = f_init();
    bool ok = s_after(ergo_tx_serializer_full_init(&c, ins, dins, outs, f.distinct, &h, &table), e);
    if (!ok) f.ph = F_FAILED;
    ASSERT(!ergo_tx_serializer_full_is_finished(&c), "finished exactly when complete");
#if AT > 0
    ASSUME(ok);
    step(O_TOKENS, 32, 0, 0, 0);
#endif
#if AT > 1
    step(O_TOKENS, 32, 0, 0, 0);                                          // AT 2: tokens are complete
#endif
#if AT > 2
    step(O_INPUT, 0, AT == 4 ? 1 : 2, AT == 4 ? 300 : 0, 0);
    step(O_IN_CB, 0, 0, 0, 0);
    step(O_IN_TOKENS, 40, 0, 0, 0);                                       // AT 3: second frame; 4: extension
#endif
#if AT > 4
    step(O_IN_TOKENS, 0, 1, 0, 0);                                        // AT 5: second input
#endif
#if AT > 5
    step(O_DIN, 32, 0, 0, 0);                                             // AT 6: half of the data inputs
#endif
#if AT > 6
    step(O_DIN, 32, 0, 0, 0);                                             // AT 7: outputs
#endif
#if AT > 7
    step(O_BOX, 0, 2, 300, 300);
    step(O_BOX_CB, 0, 0, 0, 0);
    step(O_TREE, 255, 0, 0, 0);                                           // AT 8: script
#endif
#if AT > 8
    step(O_TREE, 45, 0, 0, 0);
    step(O_BOX_TOKENS, 12, 0, 0, 0);                                      // AT 9: tokens
#endif
#if AT > 9
    step(O_BOX_TOKENS, 12, 0, 0, 0);
    step(O_REGS, 255, 0, 0, 0);                                           // AT 10: registers
#endif
#if AT > 10
    step(O_REGS, 45, 0, 0, 0);                                            // AT 11: second output
#endif
#if AT > 11
    step(O_BOX, 0, 0, 0, 0);
    step(O_FEE, 0, 0, 0, 0);                                              // AT 12: finished
    ASSERT(f.ph == F_FIN, "complete");
#endif
    REACH("phase");
    m_fault_hash = true;
    m_fault_budget = 1;
    for (int i = 0; i < OPS; i++) {
        if (f.ph == F_FAILED) REACH("after an error");
        uint8_t op = in_u8(), u8 = in_u8();
        uint32_t u32a = in_u32(), u32b = in_u32();
        ASSUME(op <= O_BOX_CB);
        v_concrete(op);
        // a script cut short by a fee or change is refused by the signing command, not here
        ASSUME(!((op == O_FEE || op == O_CHANGE) && f.ph == F_OUT && f.box.ph == B_TREE && f.box.started));
        s_chunk(op == O_IN_TOKENS ? 50 : op == O_BOX_TOKENS ? 40 : op == O_TOKENS || op == O_DIN ? 70 : 255);
        f_op(op, s_buf.size, u8, u32a, u32b);
    }
    ASSERT(m_hash.misuse == 0, "nothing is added to a finished hash");
}
