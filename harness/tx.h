#pragma once
// Signing a transaction: the application and a specification of the protocol, in lock step.
// Every t_xxx() sends one command whose data is symbolic and returns true if the operation goes on.
#include "stream.h"
#define MAXD 32768u

static uint8_t s_sess;
static uint8_t s_net;
static uint32_t s_path[10];
static uint8_t s_path_len, s_secret[32], s_nonce[32];
#ifndef VMAX
#define VMAX 128              // values below 128 (serialised on one byte); 0: any value; 1: below 128 or of full length
#endif
// ---- specification state
static struct {
    uint32_t tok_n, tok_left, in_left, din_left, out_left;
    int phase;               // 0 approved, 1 token ids, 2 inputs, 3 data inputs, 4 outputs, 5 complete, 6 ended
    int in_stage;            // 0 none, 1 frames, 2 extension
    uint8_t box[32], fcount, fnext;
    uint32_t ext_left;
    int out_stage;           // 0 none, 1 tree, 2 tokens, 3 registers
    int kind;                // 1 fee, 2 change, 3 p2pk, 4 p2sh, 5 script
    uint64_t out_value;
    uint32_t height, tree_left, regs_left;
    bool tree_begun;
    uint8_t otok_n, otok_left;
    uint64_t out_tok[20];    // token amounts of the output being added
    uint8_t shown[33];       // public key or script hash
    uint32_t cpath[10];
    uint8_t cpath_len;
    uint32_t apath[10];      // last approved change path
    uint8_t apath_len;
    // table
    uint8_t ids[20][32];
    uint32_t table_n;
    // totals
    uint64_t value, fee;
    int64_t tok[20];
    uint32_t prompts;
} S;

static void e_prefix(void) {
    static const uint8_t PRE[7] = {0x01, 0x00, 0x27, 0x10, 0x01, 0x08, 0xcd}, SUF[4] = {0x73, 0x00, 0x00, 0x21};
    memcpy(s_secret, m_derive.key, 32);
    memcpy(s_nonce, m_rng.out, 32);
    ASSUME(!h_eq(s_secret, s_nonce, 32));   // not the secret by chance
    const m_scalar_log_t *w = m_scalar_with(s_nonce), *pk = m_scalar_with(s_secret);
    e_put(PRE, 7);
    e_u8(2 + (pk->out[64] & 1));
    e_put(pk->out + 1, 32);
    e_put(SUF, 4);
    e_u8(2 + (w->out[64] & 1));
    e_put(w->out + 1, 32);
}

static uint64_t t_tree_total;   // the script of the current output, at the watched position
static uint8_t t_tree_byte;
// ---- prologue: connect, approve
static void t_begin(uint8_t path_len) {
    h_boot();
#ifdef NAV_SETUP
    NAV_SETUP;
#endif
    m_watch = in_u32();
    ASSUME(m_watch != 0xFFFFFFFFu);
    m_resp_watch = in_u8();
    h_good_path(path_len);
    s_net = in_bool() ? 0x10 : 0x00;
    memcpy(s_path, h_path, sizeof(s_path));
    s_path_len = h_path_len;
    d_u8(s_net);
    d_path();
#ifndef FAULTY
    m_allow = M_PROMPT;
#endif
    h_send(CMD_SIGN_TRANSACTION, 0x01, 1);
#ifdef FAULTY
    ASSUME(h_prompt());
#else
    m_allow = M_OK | M_PROMPT;
#endif
    h_answer_token(true, 0);
    m_allow = M_ANY;
    s_sess = m_resp.b0;
    e_prefix();
}
#define TOP (1ull << 63)
static uint64_t t_value(void) {
#ifdef FIXED
    return 5;
#endif
    uint64_t v = in_u64();
    if (VMAX > 1) ASSUME(v < VMAX);
    if (VMAX == 1) ASSUME((v < 128) | (v >= TOP));
    return v;
}
#undef TOP
#define TOP (1u << 31)
static uint32_t t_val32(void) {
#ifdef FIXED
    return 5;
#endif
    uint32_t v = in_u32();
    if (VMAX > 1) ASSUME(v < VMAX);
    if (VMAX == 1) ASSUME((v < 128) | (v >= TOP));
    return v;
}
#undef TOP
static bool t_over;  // the amounts computed by the command overflow

// Compares the reaction with the specified one; props: the properties that want it, besides the order of parts (9).
// Returns true if the operation continues.
static bool t_expect(uint64_t ok, unsigned props) {
    if (m_resp.count == 1 && m_resp.sw != SW_OK) {
        if (PROP == 10) CK(P(10), !(ok & !t_over) | !(props & P(10)), "amounts that do not overflow are accepted");
        else CK(P(9) | props, !(ok & !t_over), "a transaction part that is in order is accepted");
        CK(P(3), (m_resp.len == 0) & !h_busy(), "an error carries no data and ends the operation");
        S.phase = 6;
        return false;
    }
    CK(P(3), (m_resp.count == 1) | h_prompt(), "every part is answered");
    CK(P(9) | props, ok, "a transaction part that is out of order, in excess, incomplete or over a limit is refused");
    CK(P(10), !t_over, "amounts that overflow and tokens that do not fit are refused");
    return true;
}
static bool t_send(uint8_t sub, uint64_t ok, unsigned props) {
    h_send(CMD_SIGN_TRANSACTION, sub, s_sess);
    return t_expect(ok, props);
}
// ---- the exemption rule for change outputs
static bool t_change_exempt(void) {
    uint64_t e5 = (S.cpath_len == 5) & (S.cpath[0] == 0x8000002C) & (S.cpath[1] == 0x800001AD) & (S.cpath[2] >= 0x80000000u) &
                  (S.cpath[3] <= 1) & (S.cpath[4] < 0x80000000u);
    uint64_t same = S.cpath_len == S.apath_len;
    for (int i = 0; i < 10; i++) same &= (i >= S.cpath_len) | (S.cpath[i] == S.apath[i]);
    uint64_t near = (S.cpath[2] == s_path[2]) & (S.cpath[3] == s_path[3]) & ((uint64_t) S.cpath[4] < (uint64_t) s_path[4] + 20);
    return e5 & (same | near);
}
static uint8_t t_used(void) {
    uint64_t n = 0;
    for (int i = 0; i < 20; i++) n += S.out_tok[i] != 0;
    return (uint8_t) n;
}
static bool t_erg(const uint8_t *text) { return t_marks(text, m_fmt_fp.n, " ERG", 4); }
// a title made from this format and number
static bool t_titled(const char *title, const char *fmt, uint32_t value) {
    char shown[20];
    app_snprintf(shown, sizeof(shown), fmt, value);
    return strcmp(title, shown) == 0;
}
#ifdef TARGET_NANOS
#define HALF 7
#else
#define HALF 26
#endif
static bool t_hex(const uint8_t *text, const uint8_t *id) {
    // the first and last digits are shown (the middle is elided)
    uint64_t same = 1;
    for (int i = 0; i < HALF; i++) {
        same &= text[i] == m_hex_digit(i & 1 ? id[i / 2] & 15 : id[i / 2] >> 4);
        int k = 64 - HALF + i;
        same &= text[HALF + 3 + i] == m_hex_digit(k & 1 ? id[k / 2] & 15 : id[k / 2] >> 4);
    }
    return same & (text[HALF] == '.') & (text[HALF + 1] == '.') & (text[HALF + 2] == '.') & (text[2 * HALF + 3] == 0);
}
// ---- what the user is shown
// Screen i of the content of an output's prompt.
static uint32_t t_output_screens(void) { return S.kind == 2 ? 1 : 2 + 2u * t_used(); }
static void t_check_output_screen(uint32_t i) {
    const char *title;
    CK(P(11) | P(24), h_busy() && t_at_screen(), "every screen of an output is shown");
    uint8_t *text = t_text(&title);
    if (i == 0) {
        if (S.kind == 1) {
            CK(P(11) | P(24), T_TITLE("Fee") && memcmp(text, "Miners Fee", 11) == 0, "a fee output is shown as such");
        } else if (S.kind == 2) {
            uint64_t same = m_fmt_path.len == S.cpath_len;
            for (int k = 0; k < 10; k++) same &= (k >= S.cpath_len) | (m_fmt_path.path[k] == S.cpath[k]);
            CK(P(11) | P(24), T_TITLE("Change") && same && t_marks(text, 1, "", 0), "a change output is shown by its derivation path");
        } else {
            uint8_t raw[64];
            uint32_t n = S.kind == 3 ? 33 : 24;
            raw[0] = (S.kind == 3 ? 1 : 2) + s_net;
            memcpy(raw + 1, S.kind == 5 ? m_hash.out : S.shown, n);
            if (S.kind == 5) CK(P(11), m_hash.total == t_tree_total && (m_watch >= t_tree_total || m_hash.watched == t_tree_byte),
                                "the script hash shown is the one of the signed script");
            CK(P(11) | P(24), S.kind == 3 ? T_TITLE("Address") : T_TITLE("Script Hash"), "the kind of destination is shown");
            CK(P(11), m_b2b.len == n + 1 && h_eq(m_b2b.data, raw, n + 1), "the checksum covers the destination shown");
            memcpy(raw + 1 + n, m_b2b.out, 4);
            CK(P(11) | P(24), t_marks(text, m_fmt_b58.n, "", 0), "the whole destination is shown, and nothing else");
            CK(P(11) | P(24), m_fmt_b58.len == n + 5 && h_eq(m_fmt_b58.in, raw, n + 5), "the destination shown is the one that is signed");
        }
    } else if (i == 1) {
        CK(P(11) | P(24), T_TITLE("Output Value") && t_erg(text) && m_fmt_fp.value == S.out_value && m_fmt_fp.decimals == 9,
           "the value shown is the one that is signed");
    } else {
        uint32_t tn = 0;
        for (uint32_t k = i / 2 - 1;; tn++) {
            while (tn < 20 && S.out_tok[tn] == 0) tn++;
            if (k-- == 0) break;
        }
        if (i % 2 == 0) {
            CK(P(11) | P(24), t_titled(title, "Token [%d]", i / 2) && t_hex(text, S.ids[tn]), "the token ids shown are the ones that are signed");
        } else {
            CK(P(11) | P(24), t_titled(title, "Token [%d] Value", i / 2) && m_fmt_u64.value == S.out_tok[tn] && t_marks(text, 1, "", 0), "the token amounts shown are the ones that are signed");
        }
    }
}
// Walks the prompt forward from its first screen and compares every screen.
static void t_check_output_prompt(void) {
    m_ui_goto(0);
    ASSERT(!t_at_screen(), "a prompt starts with its heading");
    m_ui_right();
    uint32_t screens = t_output_screens();
    for (uint32_t i = 0; i < screens; i++) {
        t_check_output_screen(i);
        if (i + 1 < screens) m_ui_right();
    }
    m_ui_right();
    CK(P(11), m_ui_kind() == 1 && h_busy(), "approval is offered after the last screen");
}

// after every accepted part of an output
static bool t_output_step(bool done) {
    bool prompt = false;
    if (done) {
        if (S.out_left == 0) S.phase = 5;
        S.out_stage = 0;
        if (S.kind == 1) prompt = t_used() > 0;
        else if (S.kind == 2) prompt = !t_change_exempt();
        else prompt = true;
    }
    uint64_t got = h_prompt();
    if (S.kind == 2) CK(P(12), got == prompt, "only change that is provably the user's own is accepted without asking");
    else CK(P(11), got == prompt, "an output is shown to the user exactly when it is not exempt");
    if (!got) {
        ASSERT(h_ok() & (m_resp.len == 0), "an accepted part is acknowledged");
        return true;
    }
    REACH("output shown");
    S.prompts++;
#ifdef SHOW
    t_check_output_prompt();
#endif
#ifdef NAV
    nav(t_output_screens(), t_check_output_screen);
#endif
#ifdef DENY
    bool approve = in_bool();
#else
    bool approve = true;
#endif
    h_answer(approve);
    S.apath_len = 0;
    if (!approve) {
        CK(P(13), h_error() & (m_resp.sw == SW_DENY), "a rejected output ends the operation");
            S.phase = 6;
        REACH("output rejected");
        return false;
    }
    CK(P(11), h_ok() & (m_resp.len == 0), "an approved output is acknowledged");
    if (S.kind == 2) {
        S.apath_len = S.cpath_len;
        memcpy(S.apath, S.cpath, sizeof(S.apath));
    }
    return true;
}

// ---- commands
static uint32_t t_dins, t_outs;
static bool t_start(uint16_t in, uint16_t din, uint8_t tok, uint16_t out) {
    t_over = false;
    t_dins = din;
    t_outs = out;
    bool ok = (S.phase == 0) & (in > 0) & (out > 0) & (tok <= 20);
    d_u16(in);
    d_u16(din);
    d_u8(tok);
    d_u16(out);
    if (!t_send(0x10, ok, 0)) return false;
    S.in_left = in;
    S.din_left = din;
    S.tok_n = S.tok_left = tok;
    S.out_left = out;
    e_vlq(in);
    S.phase = tok > 0 ? 1 : 2;
    return true;
}
static void t_data_inputs_done(void) {
    S.phase = 4;
    e_vlq(S.tok_n);
    for (uint32_t i = 0; i < 20; i++) {
        if (i < S.tok_n) e_put(S.ids[i], 32);
    }
    e_vlq(t_outs);
}
static void t_input_done(void) {
    S.in_stage = 0;
    S.in_left--;
    if (S.in_left == 0) {
        S.phase = 3;
        e_vlq(t_dins);
        if (t_dins == 0) t_data_inputs_done();
    }
}
// distinct token ids: n bytes
static bool t_tokens(uint8_t n) {
    t_over = false;
    uint8_t *p = d_any(n);
    uint8_t copy[255];
#ifdef MANY
    for (uint8_t i = 0; i < n / 32; i++) p[32 * i] = (uint8_t) (S.table_n + i);
#endif
    memcpy(copy, p, n);
    bool ok = (S.phase == 1) & (n % 32 == 0) & (n / 32u <= S.tok_left);
    if (!t_send(0x11, ok, 0)) return false;
    for (uint8_t i = 0; i < n / 32; i++) memcpy(S.ids[S.table_n++], copy + 32 * i, 32);
    S.tok_left -= n / 32;
    if (S.tok_left == 0) S.phase = 2;
    return true;
}
// An input frame: the d_n bytes in h_data.
static bool t_frame_data(void) {
    t_over = false;
    uint8_t f[255], n = d_n;
    memcpy(f, h_data, n);
    uint8_t k = n >= 59 ? f[42] : 0xFF;
    if (k <= 4) k = (uint8_t) v_concrete(k);
    else k = 0xFF;
    uint64_t whole = k != 0xFF && n >= 59 + 40 * k;
    uint64_t value = 0, fresh = 0;
    uint32_t ext = 0;
    uint8_t fcount = 0, findex = 0, sig[16] = {0}, signed_len = 0;
    if (whole) {
        signed_len = 43 + 40 * k;
        fcount = f[32];
        findex = f[33];
        value = h_be64(f + 34);
        memcpy(sig, f + signed_len, 16);
        fresh = findex == 0;
        if (n >= signed_len + 20) ext = h_be32(f + signed_len + 16);
    }
    m_hmac_watch = in_u8();
    uint8_t want = v_pick(f, signed_len, m_hmac_watch, 0);
    uint32_t macs = m_hmac.calls;
    uint64_t same = h_eq(f, S.box, 32);
    uint64_t ok_new = (S.phase == 2) & (S.in_stage == 0) & (S.in_left > 0) & (n >= signed_len + 20) & (ext != 1) & (ext <= MAXD) & (fcount >= 1);
    uint64_t ok_next = (S.phase == 2) & (S.in_stage == 1) & (findex == S.fnext) & (findex < S.fcount) & same;
    uint64_t ok = whole & v_select(fresh, ok_new, ok_next);
    h_send(CMD_SIGN_TRANSACTION, 0x12, s_sess);
    uint64_t auth = (m_hmac.calls == macs + 1) & h_eq(m_hmac.out, sig, 16);
    // totals
    uint64_t over = fresh & (S.value + value < S.value);
    uint64_t nv = v_select(fresh, S.value + value, S.value);
    int64_t sum[20];
    uint32_t nt = S.table_n;
    static uint8_t nid[20][32];
    if (k != 0xFF && k > 0) {
        memcpy(sum, S.tok, sizeof(sum));
        memcpy(nid, S.ids, sizeof(nid));
        // evaluated only where it matters: a frame that is otherwise fine
        if (ok & auth & !over) {
            for (uint8_t i = 0; i < k && !over; i++) {
                uint32_t j = 0;
                while (j < nt && memcmp(nid[j], f + 43 + 40 * i, 32) != 0) j++;
                if (j == 20) {
                    ok = 0;   // no room for another token
                    break;
                }
                if (j == nt) {
                    memcpy(nid[nt++], f + 43 + 40 * i, 32);
                    sum[j] = 0;
                }
                uint64_t a = h_be64(f + 43 + 40 * i + 32);
                int64_t d;
                over = (a >> 63) | __builtin_add_overflow(sum[j], (int64_t) a, &d);
                sum[j] = d;
            }
        }
    }
    t_over = over;
    if (!t_expect(ok & auth, P(7) | P(10))) return false;
    CK(P(7), auth, "a frame that this device did not attest in this session is refused");
    CK(P(7), m_hmac.key == app_session_key() && m_hmac.key_len == 16 && m_hmac.len == signed_len, "the authentication code covers the frame");
    CK(P(7), m_hmac_watch >= signed_len || m_hmac.watched == want, "the authentication code covers the frame");
    CK(P(9), h_ok() & (m_resp.len == 0), "an accepted part is acknowledged");
    S.value = nv;
    if (k > 0) {
        memcpy(S.tok, sum, sizeof(sum));
        memcpy(S.ids, nid, sizeof(nid));
        S.table_n = nt;
    }
    if (fresh) {
        memcpy(S.box, f, 32);
        S.fcount = fcount;
        S.fnext = 0;
        S.ext_left = ext;
        S.in_stage = 1;
    }
    S.fnext++;
    if (S.fnext == S.fcount) {
        e_put(S.box, 32);
        e_u8(0);
        if (S.ext_left == 0) {
            e_u8(0);
            t_input_done();
        } else S.in_stage = 2;
    }
    return true;
}
// A well-formed frame holding k tokens.
static bool t_frame(uint8_t k, uint8_t fcount, uint8_t findex, bool same_box, bool with_ext, uint32_t ext) {
    uint8_t *p = d_any(43 + 40 * k + 16);
    if (same_box) memcpy(p, S.box, 32);
    p[32] = fcount;
    p[33] = findex;
    p[42] = k;
#ifdef MANY
    // the tokens in order, every other one not spent
    static uint8_t tok;
    for (uint8_t i = 0; i < k; i++, tok++) {
#if MANY == 2
        // not among the announced ones
        p[43 + 40 * i] = 100 + tok;
        h_put64(p + 43 + 40 * i + 32, 1000);
#else
        p[43 + 40 * i] = tok;
        h_put64(p + 43 + 40 * i + 32, tok % 2 ? 0 : 1000);
#endif
    }
#endif
#ifdef FIXED
    h_put64(p + 34, 1000);
#endif
    if (with_ext) d_u32(ext);
    return t_frame_data();
}
static bool t_extension(uint8_t n) {
    t_over = false;
    uint8_t copy[255];
    memcpy(copy, d_any(n), n);
    bool ok = (S.phase == 2) & (S.in_stage == 2) & (n <= S.ext_left);
    if (!t_send(0x13, ok, 0)) return false;
    e_put(copy, n);
    S.ext_left -= n;
    if (S.ext_left == 0) t_input_done();
    return true;
}
static bool t_data_inputs(uint8_t n) {
    t_over = false;
    uint8_t copy[255];
    memcpy(copy, d_any(n), n);
    bool ok = (S.phase == 3) & (n % 32 == 0) & (n / 32u <= S.din_left);
    if (!t_send(0x14, ok, 0)) return false;
    e_put(copy, n);
    S.din_left -= n / 32;
    if (S.din_left == 0) t_data_inputs_done();
    return true;
}
static bool t_output(uint32_t tree, uint8_t toks, uint32_t regs) {
    t_over = false;
    uint64_t v = t_value();
    uint32_t height = t_val32();
    bool ok = (S.phase == 4) & (S.out_stage == 0) & (S.out_left > 0) & (toks <= 20) & (tree <= MAXD) & (regs <= MAXD);
    d_u64(v);
    d_u32(tree);
    d_u32(height);
    d_u8(toks);
    d_u32(regs);
    if (!t_send(0x15, ok, 0)) return false;
    S.out_left--;
    S.out_value = v;
    S.height = height;
    S.tree_left = tree;
    S.tree_begun = false;
    S.otok_n = S.otok_left = toks;
    S.regs_left = regs;
    S.kind = 0;
    S.out_stage = 1;
    memset(S.out_tok, 0, sizeof(S.out_tok));
    e_vlq(v);
    return true;
}
static bool t_after_tokens(void) {
    if (S.regs_left == 0) {
        e_u8(0);
        return t_output_step(true);
    }
    S.out_stage = 3;
    return t_output_step(false);
}
static bool t_after_tree(void) {
    e_vlq(S.height);
    e_u8(S.otok_n);
    if (S.otok_left == 0) return t_after_tokens();
    S.out_stage = 2;
    return t_output_step(false);
}
static const uint8_t T_P2PK[3] = {0x00, 0x08, 0xcd};
static const uint8_t T_P2SH_A[17] = {0x00, 0xea, 0x02, 0xd1, 0x93, 0xb4, 0xcb, 0xe4, 0xe3, 0x01, 0x0e, 0x04, 0x00, 0x04, 0x30, 0x0e, 0x18};
static const char T_FEE[] =
    "1005040004000e36100204a00b08cd0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
    "ea02d192a39a8cc7a701730073011001020402d19683030193a38cc7b2a57300000193c2b2a57301007473027303830108cdeeac93b1a57304";
static void t_fee_tree(void) {
    uint8_t t[105];
    for (int i = 0; i < 105; i++) {
        char a = T_FEE[2 * i], b = T_FEE[2 * i + 1];
        t[i] = (uint8_t) ((a <= '9' ? a - '0' : a - 'a' + 10) << 4 | (b <= '9' ? b - '0' : b - 'a' + 10));
    }
    e_put(t, 105);
}

static const uint8_t T_P2SH_B[] = {0xd4, 0x08, 0x01};
// A chunk of an output script.  form: 0 any bytes, 3 pay-to-public-key, 4 pay-to-script-hash
static bool t_tree(uint8_t n, int form) {
    t_over = false;
    uint8_t copy[255];
    uint8_t *p = d_any(n);
    if (form == 3) memcpy(p, T_P2PK, 3);
    if (form == 4) {
        memcpy(p, T_P2SH_A, 17);
        memcpy(p + 41, T_P2SH_B, 3);
    }
    memcpy(copy, p, n);
    bool ok = (S.phase == 4) & (S.out_stage == 1) & ((n == S.tree_left) | ((n < S.tree_left) & (n == 255)));
    bool last = n == S.tree_left, first = !S.tree_begun;
    bool is_pk = last & first & (n == 36) && (h_eq(copy, T_P2PK, 3) & ((copy[3] == 2) | (copy[3] == 3)));
    bool is_sh = last & first & (n == 44) && (h_eq(copy, T_P2SH_A, 17) & h_eq(copy + 41, T_P2SH_B, 3));
    if (!t_send(0x16, ok, ok ? 0 : P(8) | P(11))) return false;
    e_put(copy, n);
    if (first) t_tree_total = 0;
    t_tree_byte = v_pick(copy, n, (uint64_t) m_watch - t_tree_total, t_tree_byte);
    t_tree_total += n;
    S.tree_left -= n;
    S.tree_begun = true;
    if (!last) return t_output_step(false);
    if (is_pk) {
        S.kind = 3;
        memcpy(S.shown, copy + 3, 33);
    } else if (is_sh) {
        S.kind = 4;
        memcpy(S.shown, copy + 17, 24);
    } else S.kind = 5;
    return t_after_tree();
}
static bool t_fee(uint8_t extra) {
    t_over = false;
    bool ok = (S.phase == 4) & (S.out_stage == 1) & !S.tree_begun & (extra == 0);
    if (S.out_stage == 1) t_over = (S.out_value > S.value) | (S.fee + S.out_value < S.fee);
    d_any(extra);
    if (!t_send(0x17, ok, P(10) | (ok ? 0 : P(8) | P(11)))) return false;
    S.kind = 1;
    S.value -= S.out_value;
    S.fee += S.out_value;
    t_fee_tree();
    return t_after_tree();
}
// change to h_path
static bool t_change(void) {
    t_over = false;
    uint64_t good = (h_path_len >= 5) & (h_path_len <= 10) & (h_path[0] == 0x8000002C) & (h_path[1] == 0x800001AD) &
                    (h_path[2] >= 0x80000000u) & (h_path[3] <= 1);
    for (int i = 4; i < 10; i++) good &= (i >= h_path_len) | (h_path[i] < 0x80000000u);
    bool ok = (S.phase == 4) & (S.out_stage == 1) & !S.tree_begun & good;
    if (S.out_stage == 1) t_over = S.out_value > S.value;
    d_path();
    if (!t_send(0x18, ok, P(12) | (ok ? 0 : P(8) | P(11)))) return false;
    S.kind = 2;
    S.value -= S.out_value;
    S.cpath_len = h_path_len;
    memcpy(S.cpath, h_path, sizeof(S.cpath));
    uint64_t same = m_derive.path_len == h_path_len;
    for (int i = 0; i < 10; i++) same &= (i >= h_path_len) | (m_derive.path[i] == h_path[i]);
    CK(P(11), same, "the change script pays to the key of the change path");
    e_put(T_P2PK, 3);
    e_u8(2 + (m_pair.W[64] & 1));
    e_put(m_pair.W + 1, 32);
    return t_after_tree();
}
// k (index, amount) pairs, plus cut extra bytes
static bool t_out_tokens(uint8_t k, uint8_t cut) {
    t_over = false;
    uint32_t idx[4];
    uint64_t amt[4];
    uint64_t in_range = 1;
    for (uint8_t i = 0; i < k; i++) {
        idx[i] = in_u32();
        amt[i] = t_value();
#ifdef MANY
        static uint8_t tok;
        idx[i] = tok++ % NTOK;
        amt[i] = 1 + idx[i] + 400 * (idx[i] & 1);
#endif
        d_u32(idx[i]);
        d_u64(amt[i]);
        in_range &= idx[i] < S.tok_n;
    }
    d_any(cut);
    bool ok = (S.phase == 4) & (S.out_stage == 2) & (cut == 0) & (k <= S.otok_left) & in_range;
    h_send(CMD_SIGN_TRANSACTION, 0x19, s_sess);
    // amounts: the entries of a table are distinct identifiers, or the first of equal ones counts
    uint64_t bad = 0;
    if (ok) {
        for (uint8_t i = 0; i < k; i++) {
            uint32_t j = (uint32_t) v_concrete(idx[i]);
            uint32_t f = 0;
            while (f < j && memcmp(S.ids[f], S.ids[j], 32) != 0) f++;
            bad |= S.out_tok[f] != 0;
            bad |= amt[i] >> 63;
            int64_t d;
            bad |= __builtin_sub_overflow(S.tok[f], (int64_t) amt[i], &d);
            if (!bad) {
                S.out_tok[f] = amt[i];
                S.tok[f] = (int64_t) ((uint64_t) S.tok[f] - amt[i]);
            }
        }
    }
    t_over = bad;
    if (m_resp.count == 0 || m_resp.sw == SW_OK) CK(P(11), !(ok & bad), "a token that already has an amount, or one that does not fit, is refused");
    if (!t_expect(ok, P(10))) return false;
    for (uint8_t i = 0; i < k; i++) {
        e_vlq(idx[i]);
        e_vlq(amt[i]);
    }
    S.otok_left -= k;
    if (S.otok_left == 0) return t_after_tokens();
    return t_output_step(false);
}
static bool t_registers(uint8_t n) {
    t_over = false;
    uint8_t copy[255];
    memcpy(copy, d_any(n), n);
    bool ok = (S.phase == 4) & (S.out_stage == 3) & (n <= S.regs_left);
    if (!t_send(0x1A, ok, 0)) return false;
    e_put(copy, n);
    S.regs_left -= n;
    return t_output_step(S.regs_left == 0);
}
static uint32_t t_final_screens(void) {
    uint32_t used = 0;
    for (int i = 0; i < 20; i++) used += S.tok[i] != 0;
    return 3 + 2 * used;
}
static void t_check_final_screen(uint32_t i) {
    const char *title;
    CK(P(13) | P(24), h_busy() && t_at_screen(), "every screen of the summary is shown");
    uint8_t *text = t_text(&title);
    if (i == 0) {
        uint64_t same = m_fmt_path.len == s_path_len;
        for (int k = 0; k < 10; k++) same &= (k >= s_path_len) | (m_fmt_path.path[k] == s_path[k]);
        CK(P(13) | P(24), T_TITLE("P2PK Path") && same && t_marks(text, 1, "", 0), "the signing path is shown");
    } else if (i == 1 || i == 2) {
        CK(P(13) | P(24), i == 1 ? T_TITLE("Transaction Amount") : T_TITLE("Transaction Fee"), "amount and fee are shown");
        CK(P(10) | P(13) | P(24), t_erg(text) && m_fmt_fp.decimals == 9 && m_fmt_fp.value == (i == 1 ? S.value : S.fee), "the totals shown are exact");
    } else {
        uint32_t tn = 0;
        for (uint32_t k = (i - 3) / 2;; tn++) {
            while (tn < 20 && S.tok[tn] == 0) tn++;
            if (k-- == 0) break;
        }
        if (i % 2 == 1) {
            CK(P(10) | P(13) | P(24), t_titled(title, "Token [%d]", (i - 3) / 2 + 1) && t_hex(text, S.ids[tn]), "the token differences shown are exact");
        } else {
            int64_t d = S.tok[tn];
            CK(P(10) | P(13) | P(24), t_titled(title, "Token [%d] Value", (i - 3) / 2 + 1), "the token differences shown are exact");
            CK(P(10) | P(13) | P(24), d < 0 ? memcmp(text, "Minting: #", 11) == 0 : memcmp(text, "Burning: #", 11) == 0, "the token differences shown are exact");
            CK(P(10) | P(13) | P(24), m_fmt_u64.value == (d < 0 ? -(uint64_t) d : (uint64_t) d), "the token differences shown are exact");
        }
    }
}
static void t_check_final_prompt(void) {
    m_ui_goto(0);
    m_ui_right();
    uint32_t screens = t_final_screens();
    for (uint32_t i = 0; i < screens; i++) {
        t_check_final_screen(i);
        if (i + 1 < screens) m_ui_right();
    }
    m_ui_right();
    CK(P(13), m_ui_kind() == 1 && h_busy(), "approval is offered after the last screen");
}
static bool t_confirm(void) {
    t_over = false;
    bool ok = S.phase == 5;
    uint32_t finals = m_hash.finals, derived = m_derive.calls;
    h_send(CMD_SIGN_TRANSACTION, 0x20, s_sess);
    if (!t_expect(ok, P(13))) return false;
    CK(P(13), h_prompt(), "a signature needs a final approval");
    CK(P(13), m_hash.finals == finals && m_multm.calls == 0, "nothing is signed before the final approval");
#ifdef SHOW
    t_check_final_prompt();
#endif
#ifdef NAV
    nav(t_final_screens(), t_check_final_screen);
#endif
    bool approve = in_bool();
    h_answer(approve);
    S.phase = 6;
    if (!approve) {
        CK(P(13), h_error() & (m_resp.sw == SW_DENY) & (m_resp.len == 0), "rejecting the summary yields no signature");
        CK(P(13), m_multm.calls == 0, "rejecting the summary yields no signature");
        REACH("summary rejected");
        return false;
    }
    if (m_resp.sw != SW_OK) {
        uint64_t z = 1;
        for (int i = 0; i < 24; i++) z &= m_hash.out[i] == 0;
        CK(P(13), h_error() & (m_resp.len == 0) & z, "an approved transaction is signed");
        REACH("zero challenge");
        return false;
    }
    CK(P(13), h_ok() & (m_resp.len == 56) & !h_busy(), "an approved transaction is signed");
    uint64_t same = m_derive.path_len == s_path_len;
    for (int i = 0; i < 10; i++) same &= (i >= s_path_len) | (m_derive.path[i] == s_path[i]);
    CK(P(13), same & (m_derive.calls == derived + 1), "the key of the approved path signs");
    CK(P(8) | P(13), (m_multm.calls == 1) & (m_addm.calls == 1) & (h_eq(m_multm.a, m_derive.key, 32) | h_eq(m_multm.b, m_derive.key, 32)),
       "the key of the approved path signs");
    CK(P(8) | P(13), h_eq(m_addm.a, s_nonce, 32) | h_eq(m_addm.b, s_nonce, 32), "the response uses the committed nonce");
    // further presses do nothing
    m_resp.count = 0;
    m_ui_both();
    m_ui_settle();
    CK(P(13), (m_resp.count == 0) & (m_multm.calls == 1), "one approval yields one signature");
    if (STREAM) {
        CK(P(8) | P(11), m_hash.finals == finals + 1 && m_hash.total == e_total, "the signed stream is the transaction's serialization");
        CK(P(8) | P(11), m_watch >= e_total || m_hash.watched == e_byte, "the signed stream is the transaction's serialization");
        uint8_t w = m_resp_watch;
        CK(P(8), w >= 56 || m_resp.watched == (w < 24 ? m_hash.out[w] : m_addm.out[w - 24]), "the signature is over that stream");
    }
    REACH("signed");
    return false;
}
// A command with fixed fields, too short or too long by some bytes.
static bool t_short(uint8_t which) {
    static const uint8_t sub[] = {0x10, 0x15, 0x12, 0x18}, len[] = {7, 21, 63, 21};
    ASSUME(which < 4);
    which = (uint8_t) v_concrete(which);
    t_over = false;
    d_any(len[which] - 1);
    if (which == 3) h_data[0] = 5;
    if (which == 2) h_data[42] = 0;
    if (which < 2 && in_bool()) {
        d_n++;
        d_any(1);
        ASSERT(d_n == len[which] + 1, "harness");
    }
    if (which == 2) h_data[33] = 0;   // a first frame without its extension length
    return t_send(sub[which], 0, which == 2 ? P(7) : 0);
}
// ---- after the end of an operation
static void t_dead(void) {
    static const uint8_t subs[] = {0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x20};
    uint8_t i = in_u8(), n = in_u8();
    ASSUME(i < sizeof(subs) && n <= 40);
    in_bytes(h_data, 40);
    d_n = n;
    uint32_t macs = m_hmac.calls, derived = m_derive.calls, mul = m_multm.calls;
    h_send(CMD_SIGN_TRANSACTION, v_pick(subs, sizeof(subs), i, 0), s_sess);
    CK(P(3) | P(9) | P(13), h_error() & !h_busy() & (m_resp.len == 0), "nothing is accepted after the end of the operation");
    CK(P(3), (m_hmac.calls == macs) & (m_derive.calls == derived) & (m_multm.calls == mul), "nothing is computed after the end of the operation");
    REACH("over");
}
