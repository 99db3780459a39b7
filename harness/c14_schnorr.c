#include "common.h"
#include "ergo/schnorr.h"
#include "helpers/crypto.h"
// Schnorr proof of a secret over an arbitrary message: commitment, hashed stream, response.
static const uint8_t G[64] = {
    0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07,
    0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98,
    0x48, 0x3a, 0xda, 0x77, 0x26, 0xa3, 0xc4, 0x65, 0x5d, 0xa4, 0xfb, 0xfc, 0x0e, 0x11, 0x08, 0xa8,
    0xfd, 0x17, 0xb4, 0x48, 0xa6, 0x85, 0x54, 0x19, 0x9c, 0x47, 0xd0, 0x8f, 0xfb, 0x10, 0xd4, 0xb8};
static const uint8_t N[32] = {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe,
                              0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41};
static const uint8_t PRE[7] = {0x01, 0x00, 0x27, 0x10, 0x01, 0x08, 0xcd}, SUF[4] = {0x73, 0x00, 0x00, 0x21};
static bool eq(const uint8_t *a, const uint8_t *b, unsigned n) {
    uint64_t r = 1;
    for (unsigned i = 0; i < n; i++) r &= a[i] == b[i];
    return r;
}
static bool is_G(const uint8_t *p) { return (p[0] == 4) & eq(p + 1, G, 64); }

void harness(void) {
    uint8_t secret[32], key[32], sig[56], msg[6];
    in_bytes(secret, 32);
    in_bytes(key, 32);
    in_bytes(msg, 6);
    cx_blake2b_t h;
    memset(&h, 0, sizeof(h));
    m_watch = in_u32();
    m_rng_max_bad = 2;
#ifdef FAULTS
    m_fault_hash = in_bool();
    m_fault_ecc = in_bool();
    m_fault_budget = 1;
    m_rng_max_bad = 1;
#endif
    bool faults = m_fault_hash | m_fault_ecc;
    bool r = ergo_secp256k1_schnorr_p2pk_sign_init(&h, key, secret);
    if (!r) {
        ASSERT(!m_valid_scalar(secret) | faults, "a valid secret can be used");
        REACH("refused");
        return;
    }
    ASSERT(m_valid_scalar(secret), "a secret outside 1..n-1 is refused");
    ASSERT(m_rng.calls >= 1 && eq(m_rng.out, key, 32), "the nonce is fresh randomness");
    ASSERT(m_valid_scalar(key), "the nonce is in 1..n-1");
    ASSERT(m_scalar_calls >= 2, "two public points");
    ASSUME(!eq(key, secret, 32));   // not the secret by chance
    const m_scalar_log_t *w = m_scalar_with(key), *pk = m_scalar_with(secret);
    ASSERT(is_G(w->P) & eq(w->k, key, 32), "the commitment is nonce * G");
    ASSERT(is_G(pk->P) & eq(pk->k, secret, 32), "the public key is secret * G");
    uint8_t head[77];
    memcpy(head, PRE, 7);
    head[7] = 2 + (pk->out[64] & 1);
    memcpy(head + 8, pk->out + 1, 32);
    memcpy(head + 40, SUF, 4);
    head[44] = 2 + (w->out[64] & 1);
    memcpy(head + 45, w->out + 1, 32);
    uint8_t n = in_u8();
    ASSUME(n <= 6);
    bool hf = m_fault_hash;
    m_fault_hash = false;
    ASSUME(cx_hash_no_throw((cx_hash_t *) &h, 0, msg, n, NULL, 0) == CX_OK);
    m_fault_hash = hf;

    r = ergo_secp256k1_schnorr_p2pk_sign_finish(sig, &h, secret, key);
    uint8_t c[32] = {0};
    memcpy(c + 8, m_hash.out, 24);
    if (!r) {
        ASSERT(faults | cx_math_is_zero(c, 32), "a signature fails only for a zero challenge");
        REACH("failed");
        return;
    }
    ASSERT(m_hash.finals == 1 && m_hash.total == 77u + n && m_hash.misuse == 0, "the challenge commits to key, commitment and message");
    ASSERT(m_watch >= m_hash.total || m_hash.watched == (m_watch < 77 ? v_pick(head, 77, m_watch, 0) : v_pick(msg, 6, m_watch - 77, 0)),
           "the challenge commits to key, commitment and message");
    ASSERT(!cx_math_is_zero(c, 32), "the challenge is not zero");
    ASSERT(m_multm.calls == 1 && m_addm.calls == 1, "response = challenge * secret + nonce mod n");
    bool ab = eq(m_multm.a, c, 32) & eq(m_multm.b, secret, 32), ba = eq(m_multm.b, c, 32) & eq(m_multm.a, secret, 32);
    ASSERT((ab | ba) & eq(m_multm.m, N, 32), "response = challenge * secret + nonce mod n");
    bool kb = eq(m_addm.a, key, 32) & eq(m_addm.b, m_multm.out, 32), bk = eq(m_addm.b, key, 32) & eq(m_addm.a, m_multm.out, 32);
    ASSERT((kb | bk) & eq(m_addm.m, N, 32), "response = challenge * secret + nonce mod n");
    ASSERT(eq(sig, m_hash.out, 24), "the signature is challenge, response");
    ASSERT(eq(sig + 24, m_addm.out, 32), "the signature is challenge, response");
    REACH("signed");
    if (m_rng.calls > 1) REACH("signed after a retry");
}
