#include "common.h"
#include "common/gve.h"
// Variable-length integers: encoders and decoders of every width.
#ifndef T
#define T 64
#endif
// canonical VLQ length of v
static unsigned vlq_len(uint64_t v) {
    uint64_t n = 1;
    for (int k = 1; k < 10; k++) n = v_select((v >> (7 * k)) != 0, k + 1, n);
    return (unsigned) n;
}
static uint8_t vlq_byte(uint64_t v, unsigned len, unsigned i) {
    uint8_t b = (uint8_t) ((v >> (7 * i)) & 0x7F);
    return (uint8_t) v_select(i + 1 < len, b | 0x80, b);
}
static uint64_t zz(int64_t v) { return v < 0 ? 2 * (uint64_t) -(v + 1) + 1 : 2 * (uint64_t) v; }

#if T == 8 && !defined(SIGNED)
typedef uint8_t val_t;
#define PUT gve_put_u8
#define GET gve_get_u8
#elif T == 8
typedef int8_t val_t;
#define PUT gve_put_i8
#define GET gve_get_i8
#elif T == 16 && !defined(SIGNED)
typedef uint16_t val_t;
#define PUT gve_put_u16
#define GET gve_get_u16
#elif T == 16
typedef int16_t val_t;
#define PUT gve_put_i16
#define GET gve_get_i16
#elif T == 32 && !defined(SIGNED)
typedef uint32_t val_t;
#define PUT gve_put_u32
#define GET gve_get_u32
#elif T == 32
typedef int32_t val_t;
#define PUT gve_put_i32
#define GET gve_get_i32
#elif !defined(SIGNED)
typedef uint64_t val_t;
#define PUT gve_put_u64
#define GET gve_get_u64
#else
typedef int64_t val_t;
#define PUT gve_put_i64
#define GET gve_get_i64
#endif

void harness(void) {
    uint8_t mem[16], old[16];
    in_bytes(mem, 16);
    memcpy(old, mem, 16);
    uint8_t pos = in_u8(), cap = in_u8();
    ASSUME(cap <= 16 && pos <= cap);
    rw_buffer_t b;
    rw_buffer_init(&b, mem, cap, pos);
#ifdef ENCODE
    // encode, then decode what was written
    val_t v = (val_t) in_u64();
    gve_result_e r = PUT(&b, v);
    uint8_t at = in_u8();
    ASSUME(at < 16);
    if (r != GVE_OK) {
        ASSERT(rw_buffer_write_position(&b) == pos, "a failed write leaves the buffer as it was");
        ASSERT(v_pick(mem, 16, at, 0) == v_pick(old, 16, at, 0), "a failed write leaves the buffer as it was");
        ASSERT(cap - pos < 10, "a write fails only when there is no space for it");
        REACH("no space");
        return;
    }
    size_t end = rw_buffer_write_position(&b);
    ASSERT(end > pos && end <= cap, "the encoding stays in the buffer");
    ASSERT(at >= pos && at < end || v_pick(mem, 16, at, 0) == v_pick(old, 16, at, 0), "only the encoding is written");
#if T == 8
    ASSERT(end - pos == 1 && v_pick(mem, 16, pos, 0) == (uint8_t) v, "a byte is written as it is");
#else
#ifdef SIGNED
    // sign-extended for 32-bit numbers, like the reference implementation (Int widened to Long)
    uint64_t e = T == 32 ? (uint64_t) (int64_t) (int32_t) (uint32_t) zz(v) : zz(v);
#else
    uint64_t e = (uint64_t) v;
#endif
    unsigned n = vlq_len(e);
    ASSERT(end - pos == n, "the encoding is the shortest one");
    uint8_t i = in_u8();
    ASSUME(i < 10 && i < n);
    ASSERT(v_pick(mem, 16, pos + i, 0) == vlq_byte(e, n, i), "7 bits per byte, least significant group first");
#endif
    buffer_t rd = {mem, end, pos};
    val_t back;
    r = GET(&rd, &back);
    ASSERT(r == GVE_OK && back == v, "decoding an encoded number gives the number back");
    ASSERT(rd.offset == end, "decoding consumes exactly the encoding");
    REACH("round trip");
#else
    // decode arbitrary bytes
    buffer_t rd = {mem, cap, pos};
    val_t v;
    gve_result_e r = GET(&rd, &v);
    ASSERT(rd.offset >= pos && rd.offset <= cap, "decoding stays in the buffer");
#if T == 8
    ASSERT((r == GVE_OK) == (pos < cap), "a byte is read when there is one");
    ASSERT(r != GVE_OK || (rd.offset == pos + 1 && (uint8_t) v == v_pick(mem, 16, pos, 0)), "a byte is read as it is");
    if (r == GVE_OK) REACH("decoded");
#else
    // specification
    unsigned n = 0;  // length, 0 while not terminated
    uint64_t e = 0, big = 0;
    for (unsigned i = 0; i < 10; i++) {
        uint8_t x = v_pick(mem, 16, pos + i, 0);
        bool live = (n == 0) & (pos + i < cap);
        e = v_select(live, e | ((uint64_t) (x & 0x7F) << (7 * i)), e);
        if (i == 9) big = live & (x > 1);
        n = (unsigned) v_select(live & !(x & 0x80), i + 1, n);
    }
    bool complete = n != 0;
#ifdef SIGNED
    int64_t s = (int64_t) (e >> 1) ^ -(int64_t) (e & 1);
    if (T == 32) s = (int32_t) (((uint32_t) e >> 1) ^ -((uint32_t) e & 1));
    bool fits = T == 64 || (T == 32 ? (e <= UINT32_MAX) | (e >= 0xFFFFFFFF80000000ull) : s >= INT16_MIN && s <= INT16_MAX);
    if (T == 16) fits = fits && (e <= UINT32_MAX || e >= 0xFFFFFFFF80000000ull);
#else
    uint64_t s = e;
    bool fits = T == 64 || e <= (T == 32 ? UINT32_MAX : UINT16_MAX);
#endif
    if (r == GVE_OK) {
        ASSERT(complete, "an encoding that does not end is rejected");
        ASSERT(!big, "an encoding that does not fit the type is rejected");
        ASSERT(fits, "an encoding that does not fit the type is rejected");
        ASSERT(rd.offset == pos + n, "decoding consumes exactly the encoding");
        ASSERT(v == (val_t) s, "the decoded value is the encoded one");
        REACH("decoded");
    } else {
        ASSERT(!complete | big | !fits, "a number that fits is accepted");
        REACH("rejected");
    }
#endif
#endif
}
