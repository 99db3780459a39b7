#include "ser.h"
// An input: its start with any counts, then OPS operations, each any one with any data.
#ifndef OPS
#define OPS 4
#endif
static ergo_tx_serializer_input_context_t c;
void harness(void) {
    static cx_blake2b_t h;
    static si_t s;
    static token_table_t table;
    ASSUME(blake2b_256_init(&h));
    m_fault_hash = true;
    m_fault_budget = 1;
    uint8_t id[32], other[32], frames = in_u8();
    uint32_t ext = in_u32();
    in_bytes(id, 32);
    s_before();
    int e = si_init(&s, id, frames, ext);
    bool ok = s_after(ergo_tx_serializer_input_init(&c, id, frames, ext, &table, &h), e);
    if (ok) {
        ergo_tx_serializer_input_set_callback(&c, s_on_input_token, &s_types);
        s.cb = true;
    }
    for (int i = 0; i < OPS; i++) {
        if (!ok) s.ph = I_FAILED;
        if (s.ph == I_FAILED) REACH("after an error");
        uint8_t r;
        s_before();
        if (in_bool()) {
            s_chunk(90);
            in_bytes(other, 32);
            uint8_t index = in_u8();
            e = si_tokens(&s, other, index, s_buf.size);
            r = ergo_tx_serializer_input_add_tokens(&c, other, index, &s_buf);
        } else {
            s_chunk(255);
            e = si_ext(&s, s_buf.size);
            r = ergo_tx_serializer_input_add_context_extension(&c, &s_buf);
        }
        ok = s_after(r, e);
        bool done = ok && s.ph == I_DONE;
        ASSERT(ergo_tx_serializer_input_is_finished(&c) == done, "finished exactly when complete");
        if (done) REACH("complete");
    }
    ASSERT(m_hash.misuse == 0, "nothing is added to a finished hash");
}
