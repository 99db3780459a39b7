#include "common.h"
#include "common/rwbuffer.h"
// One arbitrary operation on an arbitrary valid buffer: inductive over any history of operations.
#define N 24
static bool le;
static uint64_t word(const uint8_t *p, unsigned n) {
    uint64_t v = 0;
    for (unsigned i = 0; i < n; i++) v |= (uint64_t) p[i] << (8 * (le ? i : n - 1 - i));
    return v;
}
void harness(void) {
    uint8_t mem[N], old[N];
    in_bytes(mem, N);
    memcpy(old, mem, N);
    uint8_t cap = in_u8(), wr = in_u8(), rd = in_u8();
    ASSUME(cap <= N && wr <= cap && rd <= wr);
    v_concrete(0);
    // the storage of the buffer is exactly cap bytes: anything past it belongs to somebody else
    rw_buffer_t b = {{mem, wr, rd}, cap};
    size_t n = in_u64();   // any length or offset
    uint64_t val = in_u64();
    uint8_t at = in_u8();
    ASSUME(at < N);
    le = in_bool();
    endianness_t en = le ? LE : BE;
    size_t nrd = rd, nwr = wr;           // expected positions
    uint64_t lo = 0, hi = 0;             // expected written range [lo, hi) of the storage
    uint8_t wbyte = 0;                   // expected byte at `at` if inside it
    bool ok = true, want = true;
#if OP == 0
    want = n <= cap && n >= rd;
    ok = rw_buffer_seek_write_set(&b, n);
    nwr = n;
#elif OP == 1
    want = n <= (size_t) (cap - wr);
    ok = rw_buffer_seek_write_cur(&b, n);
    nwr = wr + n;
#elif OP == 2
    want = n <= cap && cap - n >= rd;
    ok = rw_buffer_seek_write_end(&b, n);
    nwr = cap - n;
#elif OP == 3
    want = n <= wr;
    ok = rw_buffer_seek_read_set(&b, n);
    nrd = n;
#elif OP == 4
    want = n <= (size_t) (wr - rd);
    ok = rw_buffer_seek_read_cur(&b, n);
    nrd = rd + n;
#elif OP == 5
    want = n <= wr;
    ok = rw_buffer_seek_read_end(&b, n);
    nrd = wr - n;
#elif OP >= 6 && OP <= 9
    // write integers
    const unsigned k = 1u << (OP - 6);
    want = cap - wr >= k;
    ok = OP == 6 ? rw_buffer_write_u8(&b, (uint8_t) val) : OP == 7 ? rw_buffer_write_u16(&b, (uint16_t) val, en)
       : OP == 8 ? rw_buffer_write_u32(&b, (uint32_t) val, en) : rw_buffer_write_u64(&b, val, en);
    nwr = wr + k;
    lo = wr;
    hi = nwr;
    unsigned i = (uint8_t) (at - wr);
    wbyte = (uint8_t) (val >> (8 * ((le ? i : k - 1 - i) & 7)));
#elif OP == 10
    uint8_t src[N + 8];
    in_bytes(src, N + 8);
    ASSUME(n <= N + 8);
    want = n <= (size_t) (cap - wr);
    ok = rw_buffer_write_bytes(&b, src, n);
    nwr = wr + n;
    lo = wr;
    hi = nwr;
    wbyte = v_pick(src, N + 8, (uint8_t) (at - wr), 0);
#elif OP >= 11 && OP <= 14
    const unsigned k = 1u << (OP - 11);
    want = wr - rd >= (int) k;
    uint8_t a = 0;
    uint16_t c = 0;
    uint32_t d = 0;
    uint64_t e = 0;
    ok = OP == 11 ? rw_buffer_read_u8(&b, &a) : OP == 12 ? rw_buffer_read_u16(&b, &c, en)
       : OP == 13 ? rw_buffer_read_u32(&b, &d, en) : rw_buffer_read_u64(&b, &e, en);
    uint64_t got = OP == 11 ? a : OP == 12 ? c : OP == 13 ? d : e;
    nrd = rd + k;
    uint8_t x[8];
    for (unsigned i = 0; i < 8; i++) x[i] = v_pick(old, N, rd + i, 0);
    ASSERT(!ok || got == word(x, k), "a number is read from the next bytes in the given byte order");
#elif OP == 15 || OP == 16
    uint8_t dst[N + 8];
    in_bytes(dst, N + 8);
    ASSUME(n <= N + 8);
    uint8_t j = in_u8();
    ASSUME(j < N + 8);
    uint8_t before = v_pick(dst, N + 8, j, 0);
    want = n <= (size_t) (wr - rd);
    ok = OP == 15 ? rw_buffer_read_bytes(&b, dst, n) : rw_buffer_copy_bytes(&b, dst, n);
    if (OP == 15) nrd = rd + n;
    ASSERT(v_pick(dst, N + 8, j, 0) == v_select(ok & (j < n), v_pick(old, N, (uint8_t) (rd + j), 0), before),
           "exactly the requested bytes are copied");
#elif OP == 17
    rw_buffer_shift_data(&b);
    nrd = 0;
    nwr = wr - rd;
    lo = 0;
    hi = rd == 0 ? 0 : nwr;
    wbyte = v_pick(old, N, at + rd, 0);
    // bytes after the data may hold anything inside the storage
#elif OP == 18
    rw_buffer_empty(&b);
    nrd = nwr = 0;
#elif OP == 19
    // queries
    ASSERT(rw_buffer_data_len(&b) == (size_t) (wr - rd) && rw_buffer_empty_space_len(&b) == (size_t) (cap - wr),
           "data and free space are accounted for");
    ASSERT(rw_buffer_can_read(&b, n) == (n <= (size_t) (wr - rd)) && rw_buffer_can_write(&b, n) == (n <= (size_t) (cap - wr)),
           "data and free space are accounted for");
    ASSERT(rw_buffer_read_ptr(&b) == mem + rd && rw_buffer_write_ptr(&b) == mem + wr, "positions point into the storage");
#elif OP == 20
    // BIP32 path of n elements
    uint32_t path[10];
    uint32_t first = in_u32();
    for (int i = 0; i < 10; i++) path[i] = first;
    ASSUME(n <= 12);
    v_concrete(n);
    want = n >= 1 && n <= 10 && 4 * n <= (size_t) (wr - rd);
    le = false;
    ok = rw_buffer_read_bip32_path(&b, path, n);
    nrd = rd + 4 * n;
    for (unsigned i = 0; i < 6; i++) {
        uint8_t x[4];
        for (unsigned j = 0; j < 4; j++) x[j] = v_pick(old, N, rd + 4 * i + j, 0);
        ASSERT(!ok || i >= n || path[i] == (uint32_t) word(x, 4), "path elements are read big endian");
    }
    if (!want) nrd = b.read.offset;  // elements read before running out of data stay consumed
    else nrd = rd + 4 * n;
#endif
    ASSERT(ok == want, "an operation succeeds exactly when it fits");
    if (!want) {
        nwr = wr;
        if (OP != 20) nrd = rd;
        hi = lo;
        REACH("refused");
    } else {
        REACH("done");
    }
    ASSERT(b.read.ptr == mem && b.size == cap, "the storage stays the same");
    ASSERT(b.read.size == nwr && b.read.offset == nrd, "positions move by exactly what was read or written");
    ASSERT(b.read.offset <= b.read.size && b.read.size <= b.size, "read position <= write position <= size");
    uint8_t now = v_pick(mem, N, at, 0);
    ASSERT(now == v_select((at >= lo) & (at < hi), wbyte, v_pick(old, N, at, 0)), "only the bytes written change");
}
