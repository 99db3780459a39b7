// A small concrete stand-in for the device SDK: hashes are a plain mixing function, screens can be walked.
#include "os.h"
#include "cx.h"
#include "io.h"
#include "parser.h"
#include "ux.h"
#include "glyphs.h"
#include "format.h"
#include "base58.h"
#include "bip32.h"
#include <stdlib.h>
#include "dsdk.h"
uint8_t G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
ux_state_t G_ux;
const bagl_icon_details_t C_app_logo = {1}, C_icon_back = {2}, C_icon_certificate = {3}, C_icon_crossmark = {4},
                          C_icon_dashboard_x = {5}, C_icon_eye = {6}, C_icon_processing = {7}, C_icon_validate_14 = {8}, C_icon_warning = {9};
uint8_t d_stream[1 << 20];
uint32_t d_stream_len;
uint8_t d_resp[512];
uint32_t d_resp_len, d_resp_count, d_derives, d_signs, d_exits;
uint16_t d_sw;
uint32_t d_path[16], d_path_len;
int d_rng_left = -1;
int d_fail_hash, d_fail_mult, d_fail_pair, d_fail_derive, d_fail_addm;
uint8_t d_rng_next[8][32];
int d_rng_set;

void d_mix(const uint8_t *in, size_t n, uint8_t tag, uint8_t out[32]) {
    for (int l = 0; l < 4; l++) {
        uint64_t h = 1469598103934665603ull ^ ((uint64_t) (tag * 4 + l) * 0x9E3779B97F4A7C15ull);
        for (size_t i = 0; i < n; i++) h = ((h ^ in[i]) * 1099511628211ull) ^ (h >> 29);
        h ^= h >> 31;
        h *= 0xBF58476D1CE4E5B9ull;
        h ^= h >> 27;
        for (int i = 0; i < 8; i++) out[8 * l + i] = (uint8_t) (h >> (8 * i));
    }
}
static int failing(int *n) { return *n > 0 && --*n == 0; }   // fail the n-th call
void os_sched_exit(int code) { (void) code; d_exits++; }
struct d_wipe d_wipes[1024];
int d_wipe_count, d_fail_keyinit;
void *d_raw_key;
void model_bzero(void *p, size_t n) {
    if (d_wipe_count < 1024) { d_wipes[d_wipe_count].p = p; d_wipes[d_wipe_count++].n = n; }
    volatile uint8_t *q = p;
    while (n--) *q++ = 0;
}
// was all of [p, p + n) wiped in one of the calls since number `from`?
int d_wiped(int from, const void *p, size_t n) {
    for (int i = from; i < d_wipe_count; i++)
        if ((char *) d_wipes[i].p <= (char *) p && (char *) p + n <= (char *) d_wipes[i].p + d_wipes[i].n) return 1;
    return 0;
}
int memset_s(void *p, size_t max, int c, size_t n) { (void) max; volatile uint8_t *q = p; while (n--) *q++ = (uint8_t) c; return 0; }
cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *h, size_t bits) {
    if (bits != 256 || failing(&d_fail_hash)) return CX_INVALID_PARAMETER;
    h->n = 0;
    h->bytes = malloc(1 << 20);
    return CX_OK;
}
cx_err_t cx_hash_no_throw(cx_hash_t *hh, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out, size_t out_len) {
    cx_blake2b_t *h = (cx_blake2b_t *) hh;
    if (failing(&d_fail_hash)) return CX_INTERNAL_ERROR;
    if (len > 0) memcpy(h->bytes + h->n, in, len);
    h->n += (uint32_t) len;
    if (mode & CX_LAST) {
        uint8_t d[32];
        d_mix(h->bytes, h->n, 1, d);
        memcpy(out, d, out_len < 32 ? out_len : 32);
        memcpy(d_stream, h->bytes, h->n);
        d_stream_len = h->n;
    }
    return CX_OK;
}
cx_err_t cx_blake2b_256_hash(const uint8_t *in, size_t n, uint8_t *out) {
    if (failing(&d_fail_hash)) return CX_INTERNAL_ERROR; d_mix(in, n, 1, out); return CX_OK; }
size_t cx_hmac_sha256(const uint8_t *key, size_t kl, const uint8_t *in, size_t len, uint8_t *mac, size_t ml) {
    uint8_t b[1024], d[32];
    memcpy(b, key, kl);
    memcpy(b + kl, in, len);
    d_mix(b, kl + len, 2, d);
    if (ml > 32) ml = 32;
    memcpy(mac, d, ml);
    return ml;
}
static uint8_t rng_ctr[8];
void cx_rng(uint8_t *buf, size_t len) {
    if (len == 32 && d_rng_set > 0) {
        memcpy(buf, d_rng_next[0], 32);
        memmove(d_rng_next[0], d_rng_next[1], 7 * 32);
        d_rng_set--;
        return;
    }
    while (len > 0) {
        uint8_t d[32];
        size_t k = len < 32 ? len : 32;
        rng_ctr[0]++;
        d_mix(rng_ctr, 8, 3, d);
        memcpy(buf, d, k);
        buf += k;
        len -= k;
    }
}
void cx_rng_no_throw(uint8_t *buf, size_t len) { cx_rng(buf, len); }
uint8_t d_u8s[8];
int d_u8s_set;
uint8_t cx_rng_u8(void) {
    static uint8_t c = 40;
    if (d_u8s_set > 0) {
        uint8_t r = d_u8s[0];
        memmove(d_u8s, d_u8s + 1, 7);
        d_u8s_set--;
        return r;
    }
    return ++c == 0 ? ++c : c;
}
void d_key_of(const uint32_t *path, size_t n, uint8_t key[32], uint8_t chain[32]) {
    d_mix((const uint8_t *) path, 4 * n, 4, key);
    if (chain) d_mix((const uint8_t *) path, 4 * n, 5, chain);
}
cx_err_t os_derive_bip32_no_throw(cx_curve_t c, const unsigned int *path, size_t n, unsigned char raw[static 64], unsigned char *chain) {
    (void) c;
    d_derives++;
    d_path_len = (uint32_t) n;
    memcpy(d_path, path, 4 * n);
    memset(raw, 0, 64);
    d_key_of(path, n, raw, chain);
    d_raw_key = raw;
    return failing(&d_fail_derive) ? CX_INTERNAL_ERROR : CX_OK;
}
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *raw, size_t len, cx_ecfp_256_private_key_t *k) {
    k->curve = curve;
    k->d_len = len;
    memcpy(k->d, raw, 32);
    return failing(&d_fail_keyinit) ? CX_INTERNAL_ERROR : CX_OK;
}
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pub, cx_ecfp_256_private_key_t *priv, bool keep) {
    (void) keep;
    if (failing(&d_fail_pair)) return CX_INTERNAL_ERROR;
    pub->W[0] = 4;
    d_mix(priv->d, 32, 6, pub->W + 1);
    d_mix(priv->d, 32, 7, pub->W + 33);
    pub->W_len = 65;
    pub->curve = curve;
    return CX_OK;
}
bool cx_math_is_zero(const uint8_t *a, size_t n) {
    for (size_t i = 0; i < n; i++) if (a[i]) return false;
    return true;
}
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t n, int *diff) { *diff = memcmp(a, b, n); return CX_OK; }
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *P, const uint8_t *k, size_t n) {
    (void) curve;
    (void) n;
    if (failing(&d_fail_mult)) return CX_INTERNAL_ERROR;
    // as generate_pair for the generator
    P[0] = 4;
    d_mix(k, 32, 6, P + 1);
    d_mix(k, 32, 7, P + 33);
    return CX_OK;
}
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    uint8_t t[96];
    memcpy(t, a, 32); memcpy(t + 32, b, 32); memcpy(t + 64, m, 32);
    d_mix(t, 96, 8, r);
    (void) len;
    d_signs++;
    return CX_OK;
}
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    uint8_t t[96];
    memcpy(t, a, 32); memcpy(t + 32, b, 32); memcpy(t + 64, m, 32);
    d_mix(t, 96, 9, r);
    (void) len;
    return failing(&d_fail_addm) ? CX_INTERNAL_ERROR : CX_OK;
}
void io_init(void) {}
int (*d_recv)(void);
int io_recv_command(void) { return d_recv ? d_recv() : -1; }
int io_send_sw(uint16_t sw) { d_sw = sw; d_resp_len = 0; d_resp_count++; return 0; }
int io_send_response_buffer(const buffer_t *b, uint16_t sw) {
    d_sw = sw;
    d_resp_len = (uint32_t) (b->size - b->offset);
    memcpy(d_resp, b->ptr + b->offset, d_resp_len);
    d_resp_count++;
    return 0;
}
bool apdu_parser(command_t *cmd, uint8_t *buf, size_t n) {
    if (n < 4 || (n > 4 && n - 5 != buf[4])) return false;
    cmd->cla = buf[0]; cmd->ins = buf[1]; cmd->p1 = buf[2]; cmd->p2 = buf[3];
    cmd->lc = n > 4 ? buf[4] : 0;
    cmd->data = n > 5 ? buf + 5 : NULL;
    return true;
}
bool format_u64(char *out, size_t len, uint64_t v) {
    char t[24];
    int k = sprintf(t, "%llu", (unsigned long long) v);
    if ((size_t) k + 1 > len) return false;
    memcpy(out, t, k + 1);
    return true;
}
bool format_fpu64(char *dst, size_t len, const uint64_t value, uint8_t dec) {
    char t[24], z[48] = {0};
    if (!format_u64(t, sizeof t, value)) return false;
    size_t n = strlen(t), o = 0;
    if (n <= dec) {
        if (len <= (size_t) dec + 2) return false;
        z[o++] = '0'; z[o++] = '.';
        for (size_t i = 0; i < dec - n; i++) z[o++] = '0';
        memcpy(z + o, t, n);
    } else {
        if (len <= n + 2) return false;
        memcpy(z, t, n - dec);
        z[n - dec] = '.';
        memcpy(z + n - dec + 1, t + n - dec, dec);
    }
    strcpy(dst, z);
    return true;
}
int format_hex(const uint8_t *in, size_t n, char *out, size_t len) {
    if (len < 2 * n + 1) { if (len) out[0] = 0; return -1; }
    for (size_t i = 0; i < n; i++) sprintf(out + 2 * i, "%02X", in[i]);
    return (int) (2 * n + 1);
}
int base58_encode(const uint8_t *in, size_t n, char *out, size_t len) {
    static const char A[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    uint8_t d[200] = {0};
    size_t dl = 0, z = 0;
    while (z < n && in[z] == 0) z++;
    for (size_t i = z; i < n; i++) {
        unsigned c = in[i];
        for (size_t j = 0; j < dl; j++) { c += 256u * d[j]; d[j] = (uint8_t) (c % 58); c /= 58; }
        while (c) { d[dl++] = (uint8_t) (c % 58); c /= 58; }
    }
    if (z + dl > len) return -1;
    memset(out, '1', z);
    for (size_t i = 0; i < dl; i++) out[z + i] = A[d[dl - 1 - i]];
    return (int) (z + dl);
}
// lib_ux flow engine
static int pending;
static int is_layout(const ux_flow_step_t *s) {
    return s->init == ux_layout_pn_init || s->init == ux_layout_pnn_init || s->init == ux_layout_pb_init ||
           s->init == ux_layout_bn_init || s->init == ux_layout_bnnn_paging_init;
}
void ux_layout_pn_init(unsigned int s) { (void) s; }
void ux_layout_pnn_init(unsigned int s) { (void) s; }
void ux_layout_pb_init(unsigned int s) { (void) s; }
void ux_layout_bn_init(unsigned int s) { (void) s; }
void ux_layout_bnnn_paging_init(unsigned int s) { (void) s; }
void ux_flow_init(unsigned int slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *const start) {
    (void) slot; (void) start;
    ux_flow_state_t *f = &G_ux.flow_stack[0];
    f->index = f->prev_index = 0;
    f->steps = steps;
    for (f->length = 0; steps[f->length] != FLOW_END_STEP && steps[f->length] != FLOW_LOOP; f->length++) {}
    pending = 1;
}
void ux_flow_next(void) {
    ux_flow_state_t *f = &G_ux.flow_stack[0];
    f->prev_index = f->index;
    f->index = f->index + 1 == f->length ? 0 : f->index + 1;
    pending = 1;
}
void ux_flow_prev(void) {
    ux_flow_state_t *f = &G_ux.flow_stack[0];
    f->prev_index = f->index;
    f->index = f->index == 0 ? f->length - 1 : f->index - 1;
    pending = 1;
}
void ux_flow_relayout(void) { pending = 1; }
unsigned int ux_stack_push(void) { G_ux.stack_count++; return 0; }
const ux_flow_step_t *d_step(void) { return G_ux.flow_stack[0].steps[G_ux.flow_stack[0].index]; }
void d_settle(void) {
    for (int i = 0; i < 10 && pending; i++) {
        pending = 0;
        if (!is_layout(d_step())) d_step()->init(0);
    }
}
bool bip32_path_format(const uint32_t *path, size_t n, char *out, size_t len) {
    char t[160] = "";
    if (n == 0 || n > MAX_BIP32_PATH) return false;
    for (size_t i = 0; i < n; i++) sprintf(t + strlen(t), "%s%u%s", i ? "/" : "", path[i] & 0x7fffffffu, path[i] >> 31 ? "'" : "");
    if (strlen(t) + 1 > len) return false;
    strcpy(out, t);
    return true;
}
