#pragma once
// The serializers in lock-step with their specification, operation by operation.
#include "common.h"
#include "ergo/tx_ser_full.h"
enum { S_ERR, S_OK, S_MORE };
static uint8_t s_mem[256];   // the data given to the operations
static buffer_t s_buf;
static uint8_t s_code;
static bool s_cb_failed;                   // a callback refused
static uint32_t s_types, s_tokens, s_ends;  // calls of the callbacks in this operation
static uint32_t s_type;
static uint64_t s_value;
static uint32_t s_budget;

static void s_chunk(uint8_t max) {
    in_bytes(s_mem, sizeof(s_mem));
    uint8_t len = in_u8();
    ASSUME(len <= max);
    s_buf.ptr = s_mem;
    s_buf.size = len;
    s_buf.offset = 0;
}
// what a callback returns: fine, or any error
static uint8_t s_answer(void) {
    if (!in_bool()) return 0x7F;
    s_cb_failed = true;
    s_code = in_u8();
    ASSUME(s_code >= 1 && s_code <= 0x0A);
    return s_code;
}
static ergo_tx_serializer_box_result_e s_on_type(ergo_tx_serializer_box_type_e t, uint64_t v, void *c) {
    ASSERT(c == &s_types, "the callback gets its own context");
    s_types++;
    s_type = t;
    s_value = v;
    return s_answer();
}
static ergo_tx_serializer_box_result_e s_on_token(ergo_tx_serializer_box_type_e t, const uint8_t *id, uint64_t v, void *c) {
    (void) id, (void) v;
    ASSERT(c == &s_types, "the callback gets its own context");
    ASSERT(t == s_type, "the type of the box is kept");
    s_tokens++;
    return s_answer();
}
static ergo_tx_serializer_box_result_e s_on_end(ergo_tx_serializer_box_type_e t, void *c) {
    ASSERT(c == &s_types, "the callback gets its own context");
    ASSERT(t == s_type, "the type of the box is kept");
    s_ends++;
    return s_answer();
}
static ergo_tx_serializer_input_result_e s_on_input_token(const uint8_t *box, const uint8_t *id, uint64_t v, void *c) {
    (void) box, (void) id, (void) v;
    ASSERT(c == &s_types, "the callback gets its own context");
    s_tokens++;
    return s_answer();
}

// ---- a box
enum { B_TREE, B_TOK, B_REG, B_DONE, B_HASHED, B_FAILED };
typedef struct {
    int ph;
    uint32_t tree, regs;   // what is left
    uint8_t tok;
    bool started;          // some of the script is there
    uint64_t value;
    bool cb;               // callbacks are set
    int type;
} sb_t;
enum { OB_TREE, OB_FEE, OB_CHANGE, OB_TOKENS, OB_REGS, OB_ID };
// expected callbacks of the next operation
static bool e_type, e_end;
static uint32_t e_tokens;
static int sb_rest(sb_t *b, bool scripted) {
    if (scripted) e_type = b->cb;
    if (scripted && b->tok > 0) {
        b->ph = B_TOK;
        return S_OK;
    }
    if (b->regs > 0) {
        b->ph = B_REG;
        return S_OK;
    }
    b->ph = B_DONE;
    e_end = b->cb;
    return S_OK;
}
static int sb_init(sb_t *b, uint64_t value, uint32_t tree, uint8_t tok, uint32_t regs) {
    bool ok = (tree <= 32768) & (tok <= 20) & (regs <= 32768);
    b->ph = ok ? B_TREE : B_FAILED;
    b->tree = tree;
    b->tok = tok;
    b->regs = regs;
    b->value = value;
    b->started = false;
    b->cb = false;
    b->type = ERGO_TX_SERIALIZER_BOX_TYPE_TREE;
    return ok ? S_OK : S_ERR;
}
// each: 40 (ids) or 12 (positions in a table of n ids)
static int sb_op(sb_t *b, int op, uint8_t len, uint32_t each, uint32_t n) {
    int ph = b->ph;
    b->ph = B_FAILED;
    switch (op) {
        case OB_TREE:
            if (ph != B_TREE || len > b->tree || (len < b->tree && len < 255)) return S_ERR;
            b->tree -= len;
            b->started = true;
            if (b->tree == 0) return sb_rest(b, true);
            b->ph = ph;
            return S_MORE;
        case OB_FEE:
        case OB_CHANGE:
            if (ph != B_TREE) return S_ERR;
            b->type = op == OB_FEE ? ERGO_TX_SERIALIZER_BOX_TYPE_FEE : ERGO_TX_SERIALIZER_BOX_TYPE_CHANGE;
            return sb_rest(b, true);
        case OB_TOKENS: {
            if (ph != B_TOK) return S_ERR;
            uint32_t k = len / each;
            bool bad = (len % each != 0) | (k > b->tok);
            if (each == 12)
                for (uint32_t e = 0; e < 255 / 12; e++) bad = bad | ((e < k) & (h_be32(s_mem + 12 * e) >= n));
            if (bad) return S_ERR;
            e_tokens = b->cb ? k : 0;
            b->tok -= k;
            if (b->tok == 0) return sb_rest(b, false);
            b->ph = ph;
            return S_MORE;
        }
        case OB_REGS:
            if (ph != B_REG || len > b->regs) return S_ERR;
            b->regs -= len;
            if (b->regs == 0) return sb_rest(b, false);
            b->ph = ph;
            return S_MORE;
        default:
            if (ph != B_DONE) return S_ERR;
            b->ph = B_HASHED;
            return S_OK;
    }
}
// ---- an input
enum { I_FRAMES, I_EXT, I_DONE, I_FAILED };
typedef struct {
    int ph;
    uint8_t id[32];
    uint8_t frames, seen;
    uint32_t ext;
    bool cb;
} si_t;
static int si_init(si_t *s, const uint8_t *id, uint8_t frames, uint32_t ext) {
    bool ok = (ext != 1) & (ext <= 32768);
    memcpy(s->id, id, 32);
    s->frames = frames;
    s->seen = 0;
    s->ext = ext;
    s->cb = false;
    s->ph = ok ? I_FRAMES : I_FAILED;
    return ok ? S_OK : S_ERR;
}
static int si_tokens(si_t *s, const uint8_t *id, uint8_t index, uint8_t len) {
    int ph = s->ph;
    s->ph = I_FAILED;
    bool same = true;
    for (int i = 0; i < 32; i++) same = same & (id[i] == s->id[i]);
    if (ph != I_FRAMES || !same || index >= s->frames || index != s->seen || len % 40 != 0) return S_ERR;
    e_tokens = s->cb ? len / 40 : 0;
    s->seen++;
    s->ph = s->seen < s->frames ? I_FRAMES : s->ext > 0 ? I_EXT : I_DONE;
    return s->ph == I_FRAMES ? S_MORE : S_OK;
}
static int si_ext(si_t *s, uint8_t len) {
    int ph = s->ph;
    s->ph = I_FAILED;
    if (ph != I_EXT || len > s->ext) return S_ERR;
    s->ext -= len;
    s->ph = s->ext == 0 ? I_DONE : I_EXT;
    return s->ext == 0 ? S_OK : S_MORE;
}
// ---- before and after every operation
static void s_before(void) {
    s_cb_failed = false;
    s_types = s_tokens = s_ends = 0;
    e_type = e_end = false;
    e_tokens = 0;
    s_budget = m_fault_budget;
}
// Compare the outcome.  Returns false when the operation failed.
static bool s_after(uint8_t r, int expected) {
    bool err = r != 0x7F && r != 0x7E;
    if (expected == S_ERR) {
        ASSERT(err, "what is out of order, in excess or incomplete, or comes after an error, is an error");
        ASSERT(s_ends == 0, "nothing is completed with an error");
        REACH("refused");
        return false;
    }
    if (s_cb_failed || m_fault_budget != s_budget) {
        ASSERT(err, "a failure is reported");
        ASSERT(s_ends <= (e_end && s_cb_failed), "nothing is completed with an error");
        REACH("failed");
        return false;
    }
    ASSERT(r == (expected == S_OK ? 0x7F : 0x7E), "what is in order is accepted");
    ASSERT(s_types == e_type && s_ends == e_end && s_tokens == e_tokens, "each event is reported once, and nothing else");
    REACH("accepted");
    return true;
}
