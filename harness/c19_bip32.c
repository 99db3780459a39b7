#include "common.h"
#include "common/bip32_ext.h"
// Derivation path rules: all paths of up to 10 elements.
#define HARD(x) (((x) >> 31) != 0)
void harness(void) {
    uint32_t p[10], q[10];
    uint8_t n = in_u8(), m = in_u8();
    ASSUME(n <= 10 && m <= 10);
    for (int i = 0; i < 10; i++) p[i] = in_u32();
#if OP < 6
    uint32_t type = in_u32(), coin = in_u32();
    bool r = bip32_path_validate(p, n, type, coin, (bip32_path_validation_type_e) OP);
    bool head = (n > 2) & (p[0] == type) & (p[1] == coin);
    bool hard = true, soft = true;
    for (int i = 2; i < 10; i++) hard = hard & ((i >= n) | HARD(p[i]));
    for (int i = 4; i < 10; i++) soft = soft & ((i >= n) | !HARD(p[i]));
    bool addr = HARD(p[2]) & ((p[3] == 0) | (p[3] == 1)) & soft;
    bool want[] = {head, head & hard, head & (n == 3) & HARD(p[2]), head & hard, head & (n == 5) & addr, head & (n >= 5) & addr};
    ASSERT(r == want[OP], "a path is accepted exactly when it has the required shape");
    if (r) REACH("accepted");
    else REACH("refused");
#else
    for (int i = 0; i < 10; i++) q[i] = in_u32();
    uint64_t same = 1, acc = 1;
    for (int i = 0; i < 10; i++) same &= (i >= n) | (p[i] == q[i]);
    for (int i = 0; i < 3; i++) acc &= p[i] == q[i];
    if (OP == 6) {
        bool r = bip32_path_is_equal(p, n, q, m);
        ASSERT(r == ((n == m) & same), "paths are equal when all their elements are");
        if (r) REACH("equal");
    } else {
        bool r = bip32_path_same_account(p, n, q, m);
        ASSERT(r == ((n >= 3) & (m >= 3) & acc), "the account is the first three elements");
        if (r) REACH("same account");
    }
#endif
}
