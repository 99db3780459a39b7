#include "common.h"
#include "ergo/tx_ser_table.h"
// Token tables: one step from an arbitrary valid table.
static uint8_t at(const token_table_t *t, unsigned i, unsigned j) { return v_pick(t->tokens, sizeof(t->tokens), 32 * i + j, 0); }
void harness(void) {
    static token_table_t t, old;
    in_bytes(t.tokens, sizeof(t.tokens));
    t.count = in_u8();
    ASSUME(t.count <= 20);
    old = t;
    uint8_t id[32];
    in_bytes(id, 32);
    uint8_t i = in_u8(), j = in_u8();
    ASSUME(i < 20 && j < 32);
#if OP == 0
    uint8_t r = token_table_add_token(&t, id);
    ASSERT((r == 0xFF) == (old.count == 20), "a token is refused exactly when the table is full");
    ASSERT(r == 0xFF ? t.count == 20 : r == old.count && t.count == old.count + 1, "a token goes to the end");
    ASSERT(at(&t, i, j) == (i == r ? v_pick(id, 32, j, 0) : at(&old, i, j)), "the other entries stay");
    if (r == 0xFF) REACH("full");
    else REACH("added");
#elif OP == 1
    uint64_t first = 0xFF;   // the first entry that is equal
    for (int e = 19; e >= 0; e--) {
        bool eq = e < t.count;
        for (unsigned k = 0; k < 32; k++) eq = eq & (t.tokens[e][k] == id[k]);
        first = v_select(eq, e, first);
    }
    uint8_t r = token_table_find_token_index(&t, id);
    ASSERT(r == first, "a token is found exactly when it is in the table, at its first position");
    if (r == 0xFF) REACH("not found");
    else REACH("found");
#elif OP == 2
    ergo_tx_serializer_table_context_t c;
    uint8_t n = in_u8();
    ergo_tx_serializer_table_result_e r = ergo_tx_serializer_table_init(&c, n, &t);
    ASSERT((r == ERGO_TX_SERIALIZER_TABLE_RES_OK) == (old.count == 0 && n <= 20), "a table holds at most 20 distinct tokens and starts empty");
    ASSERT(t.count == old.count, "initialisation adds nothing");
    if (r == ERGO_TX_SERIALIZER_TABLE_RES_OK) {
        ASSERT(ergo_tx_serializer_table_is_finished(&c) == (n == 0), "finished only when all distinct tokens are there");
        REACH("init");
    } else {
        ASSERT(r == ERGO_TX_SERIALIZER_TABLE_RES_ERR_TOO_MANY_TOKENS, "too many tokens");
        REACH("too many");
    }
#elif OP == 3
    // add from a chunk of up to 3 ids and a bit
    ergo_tx_serializer_table_context_t c;
    c.tokens_table = &t;
    c.distinct_tokens_count = in_u8();
    ASSUME(c.distinct_tokens_count <= 20 && t.count <= c.distinct_tokens_count);
    v_concrete(t.count);
    uint8_t mem[100];
    in_bytes(mem, 100);
    uint8_t len = in_u8(), off = in_u8();
    ASSUME(len <= 100 && off <= 2 && off <= len);
    buffer_t b = {mem, len, off};
    ergo_tx_serializer_table_result_e r = ergo_tx_serializer_table_add(&c, &b);
    unsigned k = (len - off) / 32;
    bool exact = (len - off) % 32 == 0;
    unsigned room = c.distinct_tokens_count - old.count;
    bool fits = exact && k <= room;
    ASSERT(t.count <= 20, "the table never overflows");
    if (fits) {
        ASSERT(t.count == old.count + k && b.offset == len, "every token of the chunk is added");
        ASSERT(r == (k == room ? ERGO_TX_SERIALIZER_TABLE_RES_OK : ERGO_TX_SERIALIZER_TABLE_RES_MORE_DATA), "complete when all distinct tokens are there");
        v_concrete(i);
        bool fresh = i >= old.count && i < t.count;
        ASSERT(at(&t, i, j) == (fresh ? v_pick(mem, 100, off + 32u * (i - old.count) + j, 0) : at(&old, i, j)), "in the order given");
        REACH("added");
    } else {
        ASSERT(r == ERGO_TX_SERIALIZER_TABLE_RES_ERR_BAD_TOKEN_ID || r == ERGO_TX_SERIALIZER_TABLE_RES_ERR_TOO_MANY_TOKENS, "a truncated id or too many ids are errors");
        ASSERT(r == (k >= room ? ERGO_TX_SERIALIZER_TABLE_RES_ERR_TOO_MANY_TOKENS : ERGO_TX_SERIALIZER_TABLE_RES_ERR_BAD_TOKEN_ID), "a truncated id or too many ids are errors");
        REACH("refused");
    }
#else
    ergo_tx_serializer_table_context_t c;
    c.tokens_table = &t;
    c.distinct_tokens_count = in_u8();
    ASSUME(c.distinct_tokens_count <= 20);
    v_concrete(c.distinct_tokens_count);
    m_watch = in_u32();
    m_fault_hash = in_bool();
    static cx_blake2b_t h;
    bool faults = m_fault_hash;
    m_fault_hash = false;
    cx_blake2b_init_no_throw(&h, 256);
    m_fault_hash = faults;
    ergo_tx_serializer_table_result_e r = ergo_tx_serializer_table_hash(&c, &h);
    if (r != ERGO_TX_SERIALIZER_TABLE_RES_OK) {
        ASSERT(faults && r == ERGO_TX_SERIALIZER_TABLE_RES_ERR_HASHER, "only a hasher failure stops it");
        REACH("hasher failed");
        return;
    }
    uint8_t out[32];
    m_fault_hash = false;
    cx_hash_no_throw((cx_hash_t *) &h, CX_LAST, NULL, 0, out, 32);
    ASSERT(m_hash.total == 1u + 32u * c.distinct_tokens_count, "the count and the ids of the distinct tokens are hashed");
    if (m_watch < m_hash.total) {
        ASSERT(m_hash.watched == (m_watch == 0 ? c.distinct_tokens_count : v_pick(t.tokens, sizeof(t.tokens), m_watch - 1, 0)),
               "the count and the ids of the distinct tokens are hashed");
        REACH("hashed");
    }
#endif
}
