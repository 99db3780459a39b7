// Model of the Ledger SDK / OS primitives the application calls.  Shared by the symbolic runs and by the
// native replays.  Every value the environment may choose (digests, keys, randomness, MACs, user actions,
// formatting lengths, failures) is a symbolic input.
#include "os.h"
#include "cx.h"
#include "io.h"
#include "parser.h"
#include "ux.h"
#include "glyphs.h"
#include "format.h"
#include "base58.h"
#include "ledger_assert.h"
#include "bip32.h"
#include <stdarg.h>

#define R_OK(p, n) v_check_r(p, n)
#define W_OK(p, n) v_check_w(p, n)

// ------------------------------------------------------------------ state
uint32_t m_watch = 0xFFFFFFFFu;
m_hash_log_t m_hash;
m_oneshot_log_t m_b2b;
m_hmac_log_t m_hmac;
uint32_t m_hmac_watch = 0xFFFFFFFFu;
m_derive_log_t m_derive;
m_pair_log_t m_pair;
bool m_fault_hash, m_fault_derive, m_fault_ecc, m_fault_fmt;
m_resp_log_t m_resp;
uint32_t m_resp_watch = 0xFFFFFFFFu;
m_secret_t m_secret[M_SECRETS];
bool m_secrets_on;
m_fmt_num_t m_fmt_fp, m_fmt_u64, m_fmt_printf;
m_fmt_b58_t m_fmt_b58;
m_fmt_path_t m_fmt_path;
uint32_t m_ui_flow_inits;
uint32_t m_exits;

uint8_t G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
ux_state_t G_ux;
const bagl_icon_details_t C_app_logo = {1}, C_icon_back = {2}, C_icon_certificate = {3}, C_icon_crossmark = {4},
                          C_icon_dashboard_x = {5}, C_icon_eye = {6}, C_icon_processing = {7},
                          C_icon_validate_14 = {8}, C_icon_warning = {9};

uint32_t m_fault_budget = 0xFFFFFFFFu, m_faults;
static bool m_fail(bool enabled) {
    if (!enabled || m_fault_budget == 0 || !in_bool()) return false;
    m_fault_budget--;
    m_faults++;
    return true;
}

void model_ledger_assert_failed(void) {
    ASSERT(false, "LEDGER_ASSERT holds");
    ASSUME(false);
}
void os_sched_exit(int code) {
    (void) code;
    m_exits++;
}

// ------------------------------------------------------------------ secrets
static bool m_inside(const uint8_t *p, size_t n, const uint8_t *obj, size_t len) {
    uintptr_t a = (uintptr_t) p, b = (uintptr_t) obj;
    return a >= b && a + n <= b + len;
}
// Two views of the secrets: where the SDK wrote or was given one, until erased there (m_secret; the only view of a native
// run), and where their bytes are (v_secret_scan; the view that decides).
static uint32_t m_secret_next;
static void m_mark_secret(const uint8_t *p, size_t n) {
    if (!m_secrets_on) return;
    v_secret(p, n);
    for (unsigned i = 0; i < M_SECRETS; i++) {
        if (m_secret[i].live && m_inside(p, n, m_secret[i].p, m_secret[i].n)) return;
    }
    m_secret_t *s = &m_secret[m_secret_next++ % M_SECRETS];
    s->p = p;
    s->n = n;
    s->live = true;
    memcpy(s->copy, p, 32);
}
static void m_forget(const void *p, size_t n) {
    if (!m_secrets_on) return;
    for (unsigned i = 0; i < M_SECRETS; i++) {
        if (m_secret[i].live && m_inside(m_secret[i].p, m_secret[i].n, p, n)) m_secret[i].live = false;
    }
}
void model_bzero(void *p, size_t n) {
    W_OK(p, n);
    memset(p, 0, n);
    m_forget(p, n);
}
void *model_memset(void *p, int c, size_t n) {
    memset(p, c, n);
    m_forget(p, n);
    return p;
}
static uint32_t m_tracked(const void *a, size_t an, const void *b, size_t bn) {
    uint32_t c = 0;
    for (unsigned i = 0; i < M_SECRETS; i++) {
        if (!m_secret[i].live) continue;
        if (a != NULL && m_inside(m_secret[i].p, m_secret[i].n, a, an)) continue;
        if (b != NULL && m_inside(m_secret[i].p, m_secret[i].n, b, bn)) continue;
        c++;
    }
    return c;
}
bool m_secrets_held(void) { return v_secret_scan(NULL, 0, NULL, 0) != 0; }
uint32_t m_secrets_live_outside2(const void *a, size_t an, const void *b, size_t bn) {
    if (v_secret_scan(a, an, b, bn) == 0) return 0;
    uint32_t c = m_tracked(a, an, b, bn);
    if (c == 0) {
        // copies of the application's own: give the secrets values a native run can recognise in its memory
        for (unsigned i = 0; i < M_SECRETS && i < m_secret_next; i++) {
            for (unsigned k = 0; k < 12; k++) ASSUME(m_secret[i].copy[12 + k] == (uint8_t) (0xA7 * (k + 1) ^ 0x3C));
        }
        c = 1;
    }
    return c;
}
uint32_t m_secrets_live_outside(const void *obj, size_t n) { return m_secrets_live_outside2(obj, n, NULL, 0); }
uint32_t m_secrets_live(void) { return m_secrets_live_outside2(NULL, 0, NULL, 0); }

// ------------------------------------------------------------------ hashing
#define HASH_MAGIC 0xB2B00256u
cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *hash, size_t out_len_bits) {
    W_OK(hash, sizeof(*hash));
    if (m_fail(m_fault_hash)) return CX_INTERNAL_ERROR;
    if (out_len_bits != 256) return CX_INVALID_PARAMETER;
    hash->header.md_type = HASH_MAGIC;
    hash->total = 0;
    hash->watched = 0;
    return CX_OK;
}
cx_err_t cx_hash_no_throw(cx_hash_t *h, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out, size_t out_len) {
    cx_blake2b_t *hash = (cx_blake2b_t *) h;
    W_OK(hash, sizeof(*hash));
    R_OK(in, len);
    if (m_fail(m_fault_hash)) return CX_INTERNAL_ERROR;
    if (hash->header.md_type != HASH_MAGIC) {
        m_hash.misuse++;
        return CX_INVALID_PARAMETER;
    }
    hash->watched = v_pick(in, len, (uint64_t) m_watch - hash->total, hash->watched);
    hash->total += (uint32_t) len;
    if (mode & CX_LAST) {
        W_OK(out, out_len);
        if (out_len < CX_BLAKE2B_256_SIZE) return CX_INVALID_PARAMETER;
        in_bytes(out, CX_BLAKE2B_256_SIZE);
        m_hash.finals++;
        m_hash.total = hash->total;
        m_hash.watched = hash->watched;
        m_hash.ctx = hash;
        memcpy(m_hash.out, out, CX_BLAKE2B_256_SIZE);
        hash->header.md_type = 0;
    }
    return CX_OK;
}
cx_err_t cx_blake2b_256_hash(const uint8_t *in, size_t in_len, uint8_t *out) {
    R_OK(in, in_len);
    W_OK(out, CX_BLAKE2B_256_SIZE);
    if (m_fail(m_fault_hash)) return CX_INTERNAL_ERROR;
    m_b2b.calls++;
    m_b2b.len = (uint32_t) in_len;
    for (size_t i = 0; i < in_len && i < sizeof(m_b2b.data); i++) m_b2b.data[i] = in[i];
    in_bytes(out, CX_BLAKE2B_256_SIZE);
    memcpy(m_b2b.out, out, CX_BLAKE2B_256_SIZE);
    return CX_OK;
}
size_t cx_hmac_sha256(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, uint8_t *mac, size_t mac_len) {
    R_OK(key, key_len);
    R_OK(in, len);
    W_OK(mac, mac_len);
    m_hmac.calls++;
    m_hmac.key = key;
    m_hmac.key_len = key_len;
    m_hmac.len = len;
    m_hmac.watched = v_pick(in, len, m_hmac_watch, m_hmac.watched);
    in_bytes(m_hmac.out, CX_SHA256_SIZE);
    for (size_t i = 0; i < mac_len && i < CX_SHA256_SIZE; i++) mac[i] = m_hmac.out[i];
    return CX_SHA256_SIZE;
}

// ------------------------------------------------------------------ randomness
bool cx_math_is_zero(const uint8_t *a, size_t len) {
    R_OK(a, len);
    uint8_t acc = 0;
    for (size_t i = 0; i < len; i++) acc |= a[i];
    return acc == 0;
}
static int m_cmp(const uint8_t *a, const uint8_t *b, size_t length) {
    uint64_t d = 0;  // 0 equal, 1 greater, 2 smaller (first difference)
    for (size_t i = 0; i < length; i++) {
        d = v_select(d != 0, d, v_select(a[i] > b[i], 1, v_select(a[i] < b[i], 2, 0)));
    }
    return (int) v_select(d == 0, 0, v_select(d == 1, 1, (uint64_t) -1));
}
// After this many draws the generator returns a valid scalar (bounds the retries explored).
uint32_t m_rng_max_bad;
m_rng_log_t m_rng;
static const uint8_t m_n256[32] = {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
                                   0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48,
                                   0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41};
bool m_valid_scalar(const uint8_t *k) { return !cx_math_is_zero(k, 32) & (m_cmp(k, m_n256, 32) < 0); }
void cx_rng_no_throw(uint8_t *buf, size_t len) {
    W_OK(buf, len);
    secret_bytes(buf, len);
    m_rng.calls++;
    if (len == 32) {
        memcpy(m_rng.out, buf, 32);
        if (m_rng.calls > m_rng_max_bad) ASSUME(m_valid_scalar(buf));
    }
    m_mark_secret(buf, len);
}
m_keys_log_t m_keys;
void cx_rng(uint8_t *buf, size_t len) {
    W_OK(buf, len);
    secret_bytes(buf, len);
    m_keys.calls++;
    m_keys.len = len;
    memcpy(m_keys.out, buf, len < sizeof(m_keys.out) ? len : sizeof(m_keys.out));
}
uint8_t cx_rng_u8(void) {
    // The generator eventually returns a non-zero byte different from the previous one (at most
    // one retry is explored).
    static bool retried;
    static uint8_t last;
    uint8_t v = in_u8();
    if (retried) ASSUME(v != 0 && v != last);
    retried = !retried && v == 0;
    last = v;
    return v;
}

// ------------------------------------------------------------------ keys
cx_err_t os_derive_bip32_no_throw(cx_curve_t curve, const unsigned int *path, size_t path_len,
                                  unsigned char raw_privkey[static 64], unsigned char *chain_code) {
    R_OK(path, path_len * sizeof(unsigned int));
    W_OK(raw_privkey, 64);
    ASSERT(curve == CX_CURVE_SECP256K1, "crypto: keys are derived on secp256k1");
    m_derive.calls++;
    m_derive.path_len = path_len;
    for (size_t i = 0; i < path_len && i < 10; i++) m_derive.path[i] = path[i];
    secret_bytes(m_derive.key, 32);
    if (tape_mode != 0) ASSUME(m_valid_scalar(m_derive.key));   // true of derived keys
    memcpy(raw_privkey, m_derive.key, 32);
    m_mark_secret(raw_privkey, 64);
    if (chain_code != NULL) {
        W_OK(chain_code, 32);
        in_bytes(m_derive.chain, 32);
        memcpy(chain_code, m_derive.chain, 32);
    }
    if (m_fail(m_fault_derive)) return CX_INTERNAL_ERROR;
    return CX_OK;
}
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *raw, size_t len, cx_ecfp_256_private_key_t *key) {
    R_OK(raw, len);
    W_OK(key, sizeof(*key));
    if (m_fail(m_fault_ecc)) return CX_INTERNAL_ERROR;
    if (len != 32) return CX_INVALID_PARAMETER;
    key->curve = curve;
    key->d_len = len;
    memcpy(key->d, raw, 32);
    m_mark_secret((const uint8_t *) key->d, sizeof(key->d));
    return CX_OK;
}
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pub, cx_ecfp_256_private_key_t *priv, bool keep) {
    R_OK(priv, sizeof(*priv));
    W_OK(pub, sizeof(*pub));
    ASSERT(curve == CX_CURVE_SECP256K1 && keep, "crypto: the public key belongs to the derived private key");
    ASSERT(memcmp(priv->d, m_derive.key, 32) == 0 && priv->d_len == 32 && priv->curve == CX_CURVE_SECP256K1,
           "crypto: the public key is generated from the key just derived");
    if (m_fail(m_fault_ecc)) return CX_INTERNAL_ERROR;
    m_pair.calls++;
    in_bytes(m_pair.W, 65);
    m_pair.W[0] = 4;
    memcpy(pub->W, m_pair.W, 65);
    pub->W_len = 65;
    pub->curve = curve;
    return CX_OK;
}
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t length, int *diff) {
    R_OK(a, length);
    R_OK(b, length);
    W_OK(diff, sizeof(*diff));
    if (m_fail(m_fault_ecc)) return CX_INTERNAL_ERROR;
    *diff = m_cmp(a, b, length);
    return CX_OK;
}
m_scalar_log_t m_scalar[M_SCALARS];
uint32_t m_scalar_calls;
const m_scalar_log_t *m_scalar_at(uint32_t i) { return &m_scalar[i % M_SCALARS]; }
const m_scalar_log_t *m_scalar_with(const uint8_t *k) {
    static const m_scalar_log_t none;
    for (uint32_t i = 0; i < m_scalar_calls && i < M_SCALARS; i++) {
        const m_scalar_log_t *l = m_scalar_at(m_scalar_calls - 1 - i);
        if (memcmp(l->k, k, 32) == 0) return l;
    }
    return &none;
}
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *P, const uint8_t *k, size_t k_len) {
    W_OK(P, 65);
    R_OK(k, k_len);
    ASSERT(curve == CX_CURVE_SECP256K1 && k_len == 32, "crypto: scalar multiplication on secp256k1 with 32-byte scalars");
    m_mark_secret(k, k_len);
    if (m_fail(m_fault_ecc)) return CX_INTERNAL_ERROR;
    m_scalar_log_t *l = &m_scalar[m_scalar_calls % M_SCALARS];
    memcpy(l->P, P, 65);
    memcpy(l->k, k, 32);
    in_bytes(l->out + 1, 64);
    l->out[0] = 4;
    memcpy(P, l->out, 65);
    m_scalar_calls++;
    return CX_OK;
}
m_modop_log_t m_multm, m_addm;
static cx_err_t m_modop(m_modop_log_t *l, uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    W_OK(r, len);
    R_OK(a, len);
    R_OK(b, len);
    R_OK(m, len);
    ASSERT(len == 32, "crypto: modular arithmetic on 32-byte numbers");
    l->calls++;
    memcpy(l->a, a, 32);
    memcpy(l->b, b, 32);
    memcpy(l->m, m, 32);
    in_bytes(l->out, 32);
    memcpy(r, l->out, 32);
    return m_fail(m_fault_ecc) ? CX_INTERNAL_ERROR : CX_OK;
}
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    cx_err_t e = m_modop(&m_multm, r, a, b, m, len);
    m_mark_secret(b, len);
    m_mark_secret(r, len);
    return e;
}
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    return m_modop(&m_addm, r, a, b, m, len);
}

// ------------------------------------------------------------------ I/O
#define SW_OK_ 0x9000
void io_init(void) {}
int (*m_recv)(void);
int io_recv_command(void) { return m_recv != NULL ? m_recv() : -1; }
static void m_response(uint16_t sw) {
    m_resp.count++;
    m_resp.sw = sw;
}
uint8_t m_allow = M_ANY;
int io_send_sw(uint16_t sw) {
    m_response(sw);
    if (!(m_allow & (sw == SW_OK_ ? M_OK : M_ERROR))) ASSUME(false);
    m_resp.len = 0;
    return 0;
}
int io_send_response_buffer(const buffer_t *rdata, uint16_t sw) {
    m_response(sw);
    if (!(m_allow & (sw == SW_OK_ ? M_OK : M_ERROR))) ASSUME(false);
    ASSERT(rdata != NULL && rdata->offset <= rdata->size && rdata->size - rdata->offset <= IO_APDU_BUFFER_SIZE - 2,
           "memory: the response fits the I/O buffer");
    size_t len = rdata->size - rdata->offset;
    R_OK(rdata->ptr + rdata->offset, len);
    m_resp.len = (uint32_t) len;
    m_resp.b0 = len > 0 ? rdata->ptr[rdata->offset] : 0;
    m_resp.watched = v_pick(rdata->ptr + rdata->offset, len, m_resp_watch, m_resp.watched);
    return 0;
}
bool apdu_parser(command_t *cmd, uint8_t *buf, size_t buf_len) {
    // as in the SDK's parser.c
    if (buf_len < 4) return false;
    if (buf_len > 4 && buf_len - 5 != buf[4]) return false;
    cmd->cla = buf[0];
    cmd->ins = buf[1];
    cmd->p1 = buf[2];
    cmd->p2 = buf[3];
    cmd->lc = buf_len > 4 ? buf[4] : 0;
    cmd->data = buf_len > 5 ? buf + 5 : NULL;
    return true;
}

// ------------------------------------------------------------------ formatting
// Contents are replaced by a marker; what is formatted, and where to, is recorded.
static bool m_mark_text(char *out, size_t len, size_t min_needed) {
    if (len < min_needed || len == 0) return false;
    W_OK(out, len);
    out[0] = '#';
    if (len > 1) out[1] = 0;
    return true;
}
bool m_text_full, m_text_long;
static uint8_t m_text_len(uint8_t min, uint8_t max) {
    if (m_text_long) return max;
    uint8_t n = in_u8();
    ASSUME((n >= min) & (n <= max));
    if (!m_text_full) ASSUME((n == min) | (n == max));
    return n;
}
// The size of a formatted text, terminated: one numeric argument (d, u, x, X, with a width).
static size_t m_printf_size(const char *fmt, uint64_t v) {
    size_t n = 1;
    for (size_t i = 0; i < 64 && fmt[i] != 0; i++) {
        if (fmt[i] != '%') {
            n++;
            continue;
        }
        unsigned width = 0;
        for (i++; (fmt[i] >= '0' && fmt[i] <= '9') || fmt[i] == 'l'; i++) {
            if (fmt[i] != 'l') width = 10 * width + (unsigned) (fmt[i] - '0');
        }
        uint64_t digits = 1, limit = 1, base = fmt[i] == 'x' || fmt[i] == 'X' ? 16 : 10;
        for (unsigned k = 0; k < (base == 16 ? 15 : 19); k++) {
            limit *= base;
            digits += v >= limit;
        }
        n += v_select(digits < width, width, digits);
    }
    return n;
}
static char m_low_hex(uint8_t n) { return (char) v_select(n < 10, '0' + n, 'a' - 10 + n); }
// One byte of a formatted text.
static size_t m_putc(char *out, size_t len, size_t at, char c) {
    if (at + 1 < len) out[at] = c;
    return at + 1;
}
// Every snprintf of the application is forwarded here (its arguments widened to 64 bits).  Literal text, strings, numbers
// below 100 and fixed-width hexadecimal numbers are written out; the place of any other number is held by a marker.
int model_snprintf(char *out, size_t len, const char *fmt, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3) {
    uint64_t args[4] = {a0, a1, a2, a3};
    unsigned arg = 0;
    size_t at = 0, need = 1;
    if (len > 0) W_OK(out, len);
    for (size_t i = 0; i < 64 && fmt[i] != 0; i++) {
        if (fmt[i] != '%' || fmt[i + 1] == '%') {
            i += fmt[i] == '%';
            at = m_putc(out, len, at, fmt[i]);
            need++;
            continue;
        }
        size_t start = i;
        unsigned width = 0, longs = 0;
        for (i++; (fmt[i] >= '0' && fmt[i] <= '9') || fmt[i] == 'l' || fmt[i] == 'z'; i++) {
            if (fmt[i] == 'l' || fmt[i] == 'z') longs++;
            else width = 10 * width + (unsigned) (fmt[i] - '0');
        }
        ASSERT(arg < 4, "model capacity: arguments of a format");
        uint64_t v = args[arg++];
        if (fmt[i] == 's') {
            const char *t = (const char *) (uintptr_t) v;
            for (size_t k = 0; k < 256 && t[k] != 0; k++, need++) at = m_putc(out, len, at, t[k]);
            continue;
        }
        if (longs == 0) v &= 0xFFFFFFFFu;
        m_fmt_printf.calls++;
        m_fmt_printf.out = out;
        m_fmt_printf.value = v;
        if (fmt[i] == 'x' && fmt[start + 1] == '0' && width == 8 && longs == 0) {
            for (int k = 7; k >= 0; k--) at = m_putc(out, len, at, m_low_hex((v >> (4 * k)) & 15));
            need += 8;
        } else if (fmt[i] != 'x' && fmt[i] != 'X' && width == 0 && v < 100) {
            if (v >= 10) at = m_putc(out, len, at, (char) ('0' + v / 10));
            at = m_putc(out, len, at, (char) ('0' + v % 10));
            need += 1 + (v >= 10);
        } else {
            char one[8] = {'%'};
            for (size_t k = 1; k < 7 && start + k <= i; k++) one[k] = fmt[start + k];
            at = m_putc(out, len, at, '#');
            need += m_printf_size(one, v) - 1;
        }
    }
    if (len > 0) out[at < len ? at : len - 1] = 0;
    m_fmt_printf.size = len;
    m_fmt_printf.need = need;
    return (int) (need - 1);
}
bool format_u64(char *out, size_t outLen, uint64_t in) {
    m_fmt_u64.calls++;
    m_fmt_u64.out = out;
    m_fmt_u64.value = in;
    m_fmt_u64.size = outLen;
    m_fmt_u64.need = m_printf_size("%u", in);
    return m_mark_text(out, outLen, 2);
}
bool format_fpu64(char *dst, size_t dst_len, const uint64_t value, uint8_t decimals) {
    m_fmt_fp.calls++;
    m_fmt_fp.out = dst;
    m_fmt_fp.value = value;
    m_fmt_fp.decimals = decimals;
    m_fmt_fp.size = dst_len;
    if (dst_len < 24) return false;
    W_OK(dst, dst_len);
    // 1..22 characters
    m_fmt_fp.n = m_text_len(1, 22);
    for (uint8_t i = 0; i < 23; i++) dst[i] = (char) v_select(i < m_fmt_fp.n, '#', v_select(i == m_fmt_fp.n, 0, (uint8_t) dst[i]));
    return true;
}
uint8_t m_hex_digit(uint8_t n) { return (uint8_t) v_select(n < 10, '0' + n, 'A' - 10 + n); }
int format_hex(const uint8_t *in, size_t in_len, char *out, size_t out_len) {
    R_OK(in, in_len);
    if (out_len < 2 * in_len + 1) {
        W_OK(out, out_len);
        if (out_len > 0) out[0] = 0;
        return -1;
    }
    W_OK(out, 2 * in_len + 1);
    for (size_t i = 0; i < in_len; i++) {
        out[2 * i] = (char) m_hex_digit(in[i] >> 4);
        out[2 * i + 1] = (char) m_hex_digit(in[i] & 15);
    }
    out[2 * in_len] = 0;
    return (int) (2 * in_len + 1);
}
int base58_encode(const uint8_t *in, size_t in_len, char *out, size_t out_len) {
    R_OK(in, in_len);
    m_fmt_b58.calls++;
    m_fmt_b58.out = out;
    m_fmt_b58.len = in_len;
    for (size_t i = 0; i < in_len && i < sizeof(m_fmt_b58.in); i++) m_fmt_b58.in[i] = in[i];
    if (m_fail(m_fault_fmt)) return -1;
    uint8_t max = (uint8_t) (in_len * 138 / 100 + 1), n = m_text_len((uint8_t) in_len, max);
    m_fmt_b58.n = n;
    if (n > out_len) return -1;
    W_OK(out, out_len);
    for (uint8_t i = 0; i < max && i < out_len; i++) out[i] = (char) v_select(i < n, '#', (uint8_t) out[i]);   // not terminated
    return n;
}
bool bip32_path_format(const uint32_t *path, size_t path_len, char *out, size_t out_len) {
    m_fmt_path.calls++;
    m_fmt_path.out = out;
    m_fmt_path.len = path_len;
    if (path_len == 0 || path_len > MAX_BIP32_PATH) return false;
    R_OK(path, path_len * sizeof(uint32_t));
    for (size_t i = 0; i < path_len && i < 10; i++) m_fmt_path.path[i] = path[i];
    if (m_fail(m_fault_fmt)) return false;
    return m_mark_text(out, out_len, 2);
}

// ------------------------------------------------------------------ user interface
// Flow engine of the SDK (lib_ux ux_flow_engine.c), with step initialisation deferred to
// m_ui_settle(): the application only ever calls the engine in tail position.
#define M_FLOW_MAX 9
static bool m_ui_pending;
static bool m_is_layout(const ux_flow_step_t *s) {
    return s->init == ux_layout_pn_init || s->init == ux_layout_pnn_init || s->init == ux_layout_pb_init ||
           s->init == ux_layout_bn_init || s->init == ux_layout_bnnn_paging_init;
}

static unsigned short m_flow_length(const ux_flow_step_t *const *steps) {
    for (unsigned short length = 0; length < M_FLOW_MAX; length++) {
        if (steps[length] == FLOW_END_STEP || steps[length] == FLOW_LOOP) return length;
    }
    ASSERT(false, "ui: the flow is terminated");
    ASSUME(false);
    return 0;
}
void ux_flow_init(unsigned int slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *const start) {
    (void) start;
    if (!(m_allow & M_PROMPT)) ASSUME(false);
    ASSERT(slot == 0, "ui: flows are shown in slot 0");
    ux_flow_state_t *f = &G_ux.flow_stack[0];
    f->index = 0;
    f->prev_index = 0;
    f->steps = steps;
    f->length = m_flow_length(steps);
    ASSERT(f->length > 0, "ui: a flow has steps");
    ASSERT(steps[f->length] == FLOW_LOOP && steps[f->length + 1] == FLOW_END_STEP, "ui: the flow is terminated");
    for (unsigned i = 0; i < M_FLOW_MAX; i++) {
        ASSERT(i >= f->length || steps[i] != NULL, "ui: every step of a flow is set");
    }
    m_ui_flow_inits++;
    // the first step of every flow is a plain screen
    ASSERT(m_is_layout(steps[0]), "ui: a flow starts with a screen");
    m_ui_pending = false;
}
void ux_flow_next(void) {
    ux_flow_state_t *f = &G_ux.flow_stack[0];
    f->prev_index = f->index;
    f->index = f->index + 1 == f->length ? 0 : f->index + 1;
    m_ui_pending = true;
}
void ux_flow_prev(void) {
    ux_flow_state_t *f = &G_ux.flow_stack[0];
    f->prev_index = f->index;
    f->index = f->index == 0 ? f->length - 1 : f->index - 1;
    m_ui_pending = true;
}
void ux_flow_relayout(void) { m_ui_pending = true; }
unsigned int ux_stack_push(void) {
    G_ux.stack_count++;
    return 0;
}
void ux_layout_pn_init(unsigned int slot) { (void) slot; }
void ux_layout_pnn_init(unsigned int slot) { (void) slot; }
void ux_layout_pb_init(unsigned int slot) { (void) slot; }
void ux_layout_bn_init(unsigned int slot) { (void) slot; }
void ux_layout_bnnn_paging_init(unsigned int slot) { (void) slot; }
const void *m_ui_step(void) { return G_ux.flow_stack[0].steps[G_ux.flow_stack[0].index]; }
bool m_ui_at_layout(void) { return !m_ui_pending && m_is_layout(m_ui_step()); }
void m_ui_settle(void) {
    for (unsigned i = 0; i < 4; i++) {
        if (!m_ui_pending) break;
        ux_flow_state_t *f = &G_ux.flow_stack[0];
        ASSERT(f->index < f->length, "ui: the flow position stays inside the flow");
        m_ui_pending = false;
        const ux_flow_step_t *s = f->steps[f->index];
        if (!m_is_layout(s)) s->init(0);
    }
    ASSERT(!m_ui_pending, "ui: a screen is shown");
}
void m_ui_right(void) {
    ux_flow_next();
    m_ui_settle();
}
void m_ui_left(void) {
    ux_flow_prev();
    m_ui_settle();
}
void m_ui_both(void) {
    const ux_flow_step_t *s = m_ui_step();
    if (s->validate_flow != NULL) {
        s->validate_flow[0]->init(0);
        m_ui_settle();
    }
}
static int m_kind(const ux_flow_step_t *s) {
    if (s->init != ux_layout_pb_init) return 0;
    const ux_layout_pb_params_t *p = (const ux_layout_pb_params_t *) s->params;
    if (p->icon == &C_icon_validate_14) return 1;
    if (p->icon == &C_icon_crossmark) return 2;
    return 0;
}
int m_ui_kind(void) { return m_kind(m_ui_step()); }
int m_ui_find(int kind) {
    ux_flow_state_t *f = &G_ux.flow_stack[0];
    for (unsigned i = 0; i < M_FLOW_MAX; i++) {
        if (i < f->length && m_kind(f->steps[i]) == kind) return (int) i;
    }
    return -1;
}
void m_ui_goto(int index) { G_ux.flow_stack[0].index = (unsigned short) index; }

void harness(void);
static void observe(void);
void h_end(void) {
    observe();
    v_end();
}
void harness_main(void) {
    harness();
    observe();
}
static void observe(void) {
    // compared between the symbolic path and its native replay
    v_observe(m_resp.count);
    v_observe(m_resp.sw);
    v_observe(m_resp.len);
    v_observe(m_resp.b0);
    v_observe(m_resp.watched);
    v_observe(m_hash.finals);
    v_observe(m_hash.total);
    v_observe(m_hash.watched);
    v_observe(m_derive.calls);
    v_observe(m_hmac.calls);
    v_observe(m_ui_flow_inits);
}
