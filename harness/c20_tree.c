#include "common.h"
#include "ergo/ergo_tree.h"
#include "ergo/address.h"
// ErgoTree generation and parsing, address construction.
static const uint8_t p2pk_prefix[3] = {0x00, 0x08, 0xcd};
static const uint8_t p2sh_prefix[17] = {0x00, 0xea, 0x02, 0xd1, 0x93, 0xb4, 0xcb, 0xe4, 0xe3, 0x01, 0x0e, 0x04, 0x00, 0x04, 0x30, 0x0e, 0x18};
static const uint8_t p2sh_suffix[3] = {0xd4, 0x08, 0x01};
static const char fee_hex[] =
    "1005040004000e36100204a00b08cd0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
    "ea02d192a39a8cc7a701730073011001020402d19683030193a38cc7b2a57300000193c2b2a57301007473027303830108cdeeac93b1a57304";
static uint8_t hexd(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
void harness(void) {
    uint8_t pub[65], tree[44], out[64], keep[64];
    in_bytes(pub, 65);
    in_bytes(tree, 44);
    in_bytes(out, 64);
    memcpy(keep, out, 64);
    uint8_t at = in_u8();
    ASSUME(at < 64);
    uint8_t compressed0 = 2 + (pub[64] & 1);
    uint8_t net = in_u8();
    m_fault_hash = in_bool();
#if OP == 0
    ergo_tree_generate_p2pk(pub, out);
    uint8_t want = at < 3 ? v_pick(p2pk_prefix, 3, at, 0) : at == 3 ? compressed0 : at < 36 ? v_pick(pub, 65, at - 2u - 1u, 0) : v_pick(keep, 64, at, 0);
    // byte 4.. are the x coordinate pub[1..33)
    if (at >= 4 && at < 36) want = v_pick(pub, 65, at - 3u, 0);
    ASSERT(v_pick(out, 64, at, 0) == want, "the tree is 00 08 cd and the compressed public key");
    uint8_t key[33];
    ASSERT(ergo_tree_parse_p2pk(out, key), "a generated tree is recognised");
    ASSERT(key[0] == compressed0 && memcmp(key + 1, pub + 1, 32) == 0, "and gives the key back");
    REACH("generated");
#elif OP == 1
    bool r = ergo_tree_parse_p2pk(tree, out);
    bool want = (tree[0] == 0) & (tree[1] == 8) & (tree[2] == 0xcd) & ((tree[3] == 2) | (tree[3] == 3));
    ASSERT(r == want, "a pay-to-public-key tree is recognised exactly");
    ASSERT(!r || v_pick(out, 64, at, 0) == (at < 33 ? v_pick(tree, 44, at + 3u, 0) : v_pick(keep, 64, at, 0)), "the key is the one in the tree");
    if (r) REACH("recognised");
    else REACH("other");
#elif OP == 2
    bool r = ergo_tree_parse_p2sh(tree, out);
    bool want = true;
    for (int i = 0; i < 17; i++) want = want & (tree[i] == p2sh_prefix[i]);
    for (int i = 0; i < 3; i++) want = want & (tree[41 + i] == p2sh_suffix[i]);
    ASSERT(r == want, "a pay-to-script-hash tree is recognised exactly");
    ASSERT(!r || v_pick(out, 64, at, 0) == (at < 24 ? v_pick(tree, 44, at + 17u, 0) : v_pick(keep, 64, at, 0)), "the hash is the one in the tree");
    if (r) REACH("recognised");
    else REACH("other");
#elif OP == 3
    const uint8_t *t;
    size_t n;
    ergo_tree_miners_fee_tree(in_bool(), &t, &n);
    ASSERT(n == 105, "the miners fee contract");
    uint64_t same = 1;
    for (int i = 0; i < 105; i++) same &= t[i] == (hexd(fee_hex[2 * i]) << 4 | hexd(fee_hex[2 * i + 1]));
    ASSERT(same, "the miners fee contract");
    REACH("fee tree");
#else
    // addresses: prefix byte, body, first 4 bytes of the hash of both
    bool r;
    unsigned body = OP == 6 ? 24 : 33;
    if (OP == 4) r = ergo_address_from_pubkey(net, pub, out);
    else if (OP == 5) r = ergo_address_from_compressed_pubkey(net, pub, out);
    else r = ergo_address_from_script_hash(net, pub, out);
    ASSERT(!r || net <= 252, "a network with no room for the address type is refused");
    ASSERT(r || net > 252 || m_fault_hash, "an address is made for every other network");
    if (!r) {
        REACH("refused");
        return;
    }
    ASSERT(m_b2b.calls == 1 && m_b2b.len == body + 1, "the checksum covers type, network and body");
    uint8_t first = (uint8_t) ((OP == 6 ? 2 : 1) + net);
    uint8_t x = OP == 4 ? (at == 1 ? compressed0 : v_pick(pub, 65, at - 1u, 0)) : v_pick(pub, 65, at - 1u, 0);
    if (at == 0) x = first;
    uint8_t want = at <= body ? x : at <= body + 4 ? v_pick(m_b2b.out, 32, at - body - 1u, 0) : v_pick(keep, 64, at, 0);
    ASSERT(v_pick(out, 64, at, 0) == want, "address = type + network, body, checksum");
    ASSERT(at > body || v_pick(m_b2b.data, 64, at, 0) == x, "the checksum covers type, network and body");
    REACH("made");
#endif
}
