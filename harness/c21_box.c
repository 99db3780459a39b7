#include "ser.h"
// A box: its start with any sizes, then OPS operations, each any one with any data.
#ifndef OPS
#define OPS 3
#endif
#ifndef EACH
#define EACH 40   // 12: tokens are positions in a table
#endif
static ergo_tx_serializer_box_context_t c;
static token_table_t table;
static ergo_tx_serializer_table_context_t tc;
void harness(void) {
    static cx_blake2b_t h;
    static sb_t b;
    ASSUME(blake2b_256_init(&h));
    m_fault_hash = true;
    m_fault_budget = 1;
    uint64_t value = in_u64();
    uint32_t tree = in_u32(), height = in_u32(), regs = in_u32();
    uint8_t tok = in_u8();
#ifdef SMALL
    ASSUME(value < 128 && height < 128);   // one length of their encodings
#endif
#if EACH == 12
    in_bytes(table.tokens, sizeof(table.tokens));
    tc.distinct_tokens_count = table.count = in_u8();
    tc.tokens_table = &table;
    ASSUME(table.count <= 20);
#endif
    s_before();
    int e = sb_init(&b, value, tree, tok, regs);
    bool ok = s_after(ergo_tx_serializer_box_init(&c, value, tree, height, tok, regs, &h), e);
#ifndef NOCB
    if (ok) {
        ergo_tx_serializer_box_set_callbacks(&c, s_on_type, s_on_token, s_on_end, &s_types);
        b.cb = true;
    }
#endif
    for (int i = 0; i < OPS; i++) {
        if (!ok) b.ph = B_FAILED;
        if (b.ph == B_FAILED) REACH("after an error");
        uint8_t op = in_u8();
        ASSUME(op <= OB_ID);
        v_concrete(op);
        // a script cut short by a fee or change is refused by the signing command, not here
        ASSUME(!((op == OB_FEE || op == OB_CHANGE) && b.ph == B_TREE && b.started));
        s_chunk(op == OB_TOKENS ? 4 * EACH / 3 : 255);
        uint8_t len = s_buf.size, r, key[65], id[32];
        in_bytes(key, 65);
        in_bytes(id, 32);
        uint16_t index = in_u16();
        s_before();
        e = sb_op(&b, op, len, EACH, table.count);
        switch (op) {
            case OB_TREE: r = ergo_tx_serializer_box_add_tree(&c, &s_buf); break;
            case OB_FEE: r = ergo_tx_serializer_box_add_miners_fee_tree(&c, index & 1); break;
            case OB_CHANGE: r = ergo_tx_serializer_box_add_change_tree(&c, key); break;
            case OB_TOKENS: r = ergo_tx_serializer_box_add_tokens(&c, &s_buf, EACH == 12 ? &tc : NULL); break;
            case OB_REGS: r = ergo_tx_serializer_box_add_registers(&c, &s_buf); break;
            default: {
                uint32_t finals = m_hash.finals;
                uint8_t out[32];
                r = ergo_tx_serializer_box_id_hash(&c, id, index, out);
                ASSERT((m_hash.finals != finals) == (r == 0x7F), "an identifier comes out of a complete box only");
            }
        }
        ok = s_after(r, e);
        if (s_types > 0) ASSERT((int) s_type == b.type && s_value == b.value, "type and value are reported");
        bool done = ok && b.ph == B_DONE;
        ASSERT(ergo_tx_serializer_box_is_finished(&c) == done, "finished exactly when complete");
        if (done) REACH("complete");
    }
    ASSERT(m_hash.misuse == 0, "nothing is added to a finished hash");
}
