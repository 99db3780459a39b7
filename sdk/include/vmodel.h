#pragma once
// Verification model: symbolic inputs, assertions, and the observations recorded by the SDK model.
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>

// Inputs and assertions.  In symbolic runs these are interpreted by the engine; in native replays they are
// defined in native.c (inputs come from the counterexample file).
uint8_t in_u8(void);
uint16_t in_u16(void);
uint32_t in_u32(void);
uint64_t in_u64(void);
bool in_bool(void);
void in_bytes(void *p, size_t n);
void v_assert(uint64_t c, const char *msg);
void v_assume(uint64_t c);
void v_reach(const char *msg);
void v_observe(uint64_t v);
void v_end(void) __attribute__((noreturn));                           // the path ends here
void h_end(void);                                                     // record the observations and end the path
uint64_t v_concrete(uint64_t v);                                      // explore one path per value
void v_secret(const void *p, size_t n);      // these byte values are secret
// secret bytes in the application's memory (globals, and locals of functions that have returned), outside two ranges
uint64_t v_secret_scan(const void *a, size_t an, const void *b, size_t bn);
uint8_t v_pick(const void *p, size_t n, size_t i, uint8_t other);     // i < n ? p[i] : other, on one path
uint64_t v_select(uint64_t c, uint64_t a, uint64_t b);                // c ? a : b, on one path
void v_check_r(const void *p, size_t n);
void v_check_w(const void *p, size_t n);
uint64_t v_object_base(const void *p);
#define ASSERT(c, msg) v_assert((c) ? 1 : 0, msg)
#define ASSUME(c)      v_assume((c) ? 1 : 0)
#define REACH(msg)     v_reach(msg)
// strict (non-forking) logic
#define IMPLIES(a, b)  (!(a) | !!(b))

// ---- hashing: one arbitrary watched position in every hash stream
extern uint32_t m_watch;          // arbitrary; 0xFFFFFFFF watches nothing
typedef struct {
    uint32_t finals;              // number of finalisations
    uint32_t total;               // length of the last finalised stream
    uint8_t watched;              // byte at m_watch of that stream
    const void *ctx;
    uint8_t out[32];
    uint32_t misuse;              // uses of a hash state that is not initialised / already finalised
} m_hash_log_t;
extern m_hash_log_t m_hash;
typedef struct {
    uint32_t calls;
    uint32_t len;
    uint8_t data[64];
    uint8_t out[32];
} m_oneshot_log_t;
extern m_oneshot_log_t m_b2b;     // cx_blake2b_256_hash
typedef struct {
    uint32_t calls;
    const uint8_t *key;
    size_t key_len;
    size_t len;
    uint8_t watched;              // byte at position m_hmac_watch of the message
    uint8_t out[32];
} m_hmac_log_t;
extern m_hmac_log_t m_hmac;
extern uint32_t m_hmac_watch;
typedef struct {
    uint32_t calls;
    size_t path_len;
    uint32_t path[10];
    uint8_t key[32];
    uint8_t chain[32];
} m_derive_log_t;
extern m_derive_log_t m_derive;
typedef struct {
    uint32_t calls;
    uint8_t W[65];
} m_pair_log_t;
extern m_pair_log_t m_pair;

#define M_SCALARS 8
typedef struct {
    uint8_t P[65], k[32], out[65];
} m_scalar_log_t;
extern m_scalar_log_t m_scalar[M_SCALARS];
extern uint32_t m_scalar_calls;
const m_scalar_log_t *m_scalar_at(uint32_t i);             // the i-th call (one of the last M_SCALARS)
const m_scalar_log_t *m_scalar_with(const uint8_t *k);     // the last call with this scalar
typedef struct {
    uint32_t calls;
    uint8_t a[32], b[32], m[32], out[32];
} m_modop_log_t;
extern m_modop_log_t m_multm, m_addm;

typedef struct {
    uint32_t calls;
    uint8_t out[32];              // last 32-byte draw
} m_rng_log_t;
extern m_rng_log_t m_rng;
typedef struct {
    uint32_t calls;
    size_t len;
    uint8_t out[32];              // last draw of cx_rng
} m_keys_log_t;
extern m_keys_log_t m_keys;
extern uint32_t m_rng_max_bad;    // draws beyond this many are valid scalars
bool m_valid_scalar(const uint8_t *k);

// which kinds of SDK failures may happen (all false by default)
extern uint32_t m_fault_budget;  // at most this many failures
extern uint32_t m_faults;        // failures that happened
extern bool m_fault_hash, m_fault_derive, m_fault_ecc, m_fault_fmt;

// ---- commands and responses
extern int (*m_recv)(void);      // delivers the next command in G_io_apdu_buffer
typedef struct {
    uint32_t count;
    uint16_t sw;
    uint32_t len;                 // response data length, without the status word
    uint8_t b0;                   // first data byte
    uint8_t watched;              // data byte at m_resp_watch
} m_resp_log_t;
extern m_resp_log_t m_resp;
extern uint32_t m_resp_watch;

// Case splits: only executions in which no event outside the mask happens are explored.
#define M_PROMPT 1  // a flow is shown
#define M_OK     2  // response 9000
#define M_ERROR  4  // any other response
#define M_ANY    7
extern uint8_t m_allow;

// ---- secrets
#define M_SECRETS 16
typedef struct {
    const uint8_t *p;
    size_t n;
    bool live;
    uint8_t copy[32];
} m_secret_t;
extern m_secret_t m_secret[M_SECRETS];
extern bool m_secrets_on;
uint32_t m_secrets_live(void);
bool m_secrets_held(void);
uint32_t m_secrets_live_outside(const void *obj, size_t n);
uint32_t m_secrets_live_outside2(const void *a, size_t an, const void *b, size_t bn);

// ---- formatting log (last call of each kind)
typedef struct {
    uint32_t calls;
    const char *out;
    uint64_t value;
    uint8_t decimals;
    uint8_t n;                    // characters written
    size_t size;                  // of the destination
    size_t need;                  // printf: size the whole text needs
} m_fmt_num_t;
extern m_fmt_num_t m_fmt_fp, m_fmt_u64, m_fmt_printf;
typedef struct {
    uint32_t calls;
    const char *out;
    size_t len;
    uint8_t n;                    // characters written (not terminated)
    uint8_t in[64];
} m_fmt_b58_t;
uint8_t m_hex_digit(uint8_t nibble);
extern bool m_text_long;          // every text has its greatest length
extern bool m_text_full;          // texts of every possible length, otherwise the shortest and the longest
extern m_fmt_b58_t m_fmt_b58;
typedef struct {
    uint32_t calls;
    const char *out;
    size_t len;
    uint32_t path[10];
} m_fmt_path_t;
extern m_fmt_path_t m_fmt_path;

// ---- user interface
void m_ui_settle(void);           // run deferred step initialisations until a layout is shown
bool m_ui_at_layout(void);
void m_ui_right(void);
void m_ui_left(void);
void m_ui_both(void);
const void *m_ui_step(void);      // current step
int m_ui_kind(void);              // 0 other layout, 1 approve button, 2 reject button
int m_ui_find(int kind);          // index of approve (1) / reject (2) step in the active flow, -1 if none
void m_ui_goto(int index);
extern uint32_t m_ui_flow_inits;
extern uint32_t m_exits;

// ---- two runs with the same inputs but different secrets: the first records its inputs, the second gets them again.
// Secrets (private keys, nonces, the session key) are drawn anew.
extern int tape_mode;             // 0 off, 1 record, 2 play
void tape_begin(int mode);
bool tape_used_up(void);
uint8_t tape_u8(void);
uint16_t tape_u16(void);
uint32_t tape_u32(void);
uint64_t tape_u64(void);
bool tape_bool(void);
void tape_bytes(void *p, size_t n);
void secret_bytes(void *p, size_t n);
#ifndef VMODEL_RAW
#define in_u8 tape_u8
#define in_u16 tape_u16
#define in_u32 tape_u32
#define in_u64 tape_u64
#define in_bool tape_bool
#define in_bytes tape_bytes
#endif
