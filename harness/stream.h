#pragma once
#include "proto.h"
// ---- expected stream (one watched position)
#ifdef STREAMED
#define STREAM 1
#else
#define STREAM (PROP == 6 || PROP == 8 || PROP == 11)
#endif
static uint64_t e_total;
static uint8_t e_byte;
static void e_put(const uint8_t *p, uint64_t n) {
    if (!STREAM) return;
    e_byte = v_pick(p, n, (uint64_t) m_watch - e_total, e_byte);
    e_total += n;
}
static void e_u8(uint8_t v) { e_put(&v, 1); }
static void e_vlq(uint64_t v) {
    if (!STREAM) return;
    uint64_t n = 0;
    uint8_t b[10];
    for (int i = 0; i < 10; i++) {
        uint64_t r = i == 0 ? v : v >> (7 * i);
        uint64_t more = v >> (7 * i) > 127;
        if (i == 9) more = 0;
        b[i] = (uint8_t) ((r & 0x7f) | (more << 7));
        n += i == 0 ? 1 : r != 0;
    }
    n = v_concrete(n);   // decided by the path
    for (int i = 0; i < 10; i++) {
        e_byte = (uint8_t) v_select((i < n) & ((uint64_t) m_watch == e_total + i), b[i], e_byte);
    }
    e_total += n;
}
