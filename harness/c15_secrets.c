#include "common.h"
#include "ergo/schnorr.h"
#include "helpers/crypto.h"
// No copy of a secret outlives the functions that handle it, on any outcome (including failures of the SDK).
void harness(void) {
    static uint8_t secret[32], key[32], pub[65], chain[32], sig[56];
    uint32_t path[10];
    for (int i = 0; i < 10; i++) path[i] = in_u32();
    uint8_t n = in_u8();
    ASSUME(n >= 3 && n <= 10);
    m_secrets_on = true;
    m_fault_hash = in_bool();
    m_fault_ecc = in_bool();
    m_fault_derive = in_bool();
    m_fault_budget = OP == 2 ? 1 : 3;
#if OP == 0
    uint16_t r = crypto_generate_private_key(path, n, secret);
    ASSERT(m_secrets_live() == 0, "no intermediate copy of the private key survives");
    if (r == 0) ASSERT(memcmp(secret, m_derive.key, 32) == 0, "the derived key is delivered");
#elif OP == 1
    uint16_t r = crypto_generate_public_key(path, n, pub, in_bool() ? chain : NULL);
    ASSERT(m_secrets_live() == 0, "no intermediate copy of the private key survives");
#elif OP == 2
    cx_blake2b_t h;
    in_bytes(secret, 32);
    m_rng_max_bad = 1;
    bool ok = ergo_secp256k1_schnorr_p2pk_sign_init(&h, key, secret);
    uint16_t r = !ok;
    ASSERT(m_secrets_live_outside2(secret, 32, key, 32) == 0, "only the caller's secret and nonce remain");
#else
    cx_blake2b_t h;
    cx_blake2b_init_no_throw(&h, 256);
    in_bytes(secret, 32);
    in_bytes(key, 32);
    bool ok = ergo_secp256k1_schnorr_p2pk_sign_finish(sig, &h, secret, key);
    uint16_t r = !ok;
    ASSERT(m_secrets_live_outside2(secret, 32, key, 32) == 0, "no value from which the secret can be computed remains");
#endif
    if (r == 0) REACH("success");
    else REACH("failure");
}
