#include "common.h"
#include "common/safeint.h"
// Checked arithmetic on amounts: all four operations, all operands.
void harness(void) {
    uint64_t l = in_u64(), r = in_u64(), keep = in_u64();
    bool ok, fits;
    uint64_t out = keep, want;
#if OP == 0
    ok = checked_add_u64(l, r, &out);
    fits = l + r >= l;
    want = l + r;
#elif OP == 1
    ok = checked_sub_u64(l, r, &out);
    fits = l >= r;
    want = l - r;
#elif OP == 2
    ok = checked_add_i64((int64_t) l, r, (int64_t *) &out);
    // l + r <= INT64_MAX, in unsigned arithmetic that does not wrap
    fits = (int64_t) l >= 0 ? r <= (uint64_t) INT64_MAX - l : r <= (uint64_t) INT64_MAX + (0 - l);
    want = l + r;
#else
    ok = checked_sub_i64((int64_t) l, r, (int64_t *) &out);
    // l - r >= INT64_MIN
    fits = r <= l + 0x8000000000000000ull;
    want = l - r;
#endif
    ASSERT(ok == fits, "an operation succeeds exactly when its mathematical result fits");
    ASSERT(out == (fits ? want : keep), "the result is exact, and left alone on overflow");
    if (ok) REACH("fits");
    else REACH("overflow");
}
