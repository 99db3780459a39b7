// Forking symbolic executor for LLVM IR with Z3.
//
// Every path is executed symbolically; inputs (in_*) are fresh bit-vector variables; each branch that both
// outcomes of which are satisfiable forks the state; every v_assert is decided by Z3 for all inputs that follow
// the path.  Memory is byte-precise per object with a flat address space (object id in the upper bits), so
// out-of-bounds accesses, use of dead stack frames and null dereferences are detected.
// Work is spread over processes with fork(2).
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
using namespace llvm;
typedef uint64_t u64;
typedef unsigned __int128 u128;

static Z3_context Z;
static double now() {
    timeval tv;
    gettimeofday(&tv, 0);
    return tv.tv_sec + tv.tv_usec * 1e-6;
}

// ------------------------------------------------------------------ options / shared statistics
static std::string O_out = ".";
static int O_workers = 1;
static double O_timeout = 600;
static unsigned O_query_ms = 60000;
static u64 O_max_visits = 100000;   // loop bound per path (visits of one block in one frame)
static int O_samples = 12;
static double T_start;
static std::vector<std::string> O_known;

struct Shared {
    std::atomic<int> active;
    std::atomic<int> stop;           // 1: violation found, 2: resource limit, 3: engine error
    std::atomic<u64> paths, forks, queries, sat, unsat, unknown, instr, asserts, killed, bounded, sampled;
    std::atomic<u64> solver_us;
};
static Shared *S;
static std::atomic<int> *g_active;   // running processes, of this run or of all the runs that share the file given with -S
static int results_fd = -1;
static std::string jesc(const std::string &s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\';
        if (c == '\n') { o += "\\n"; continue; }
        o += c;
    }
    return o;
}
static void emit(const std::string &line) {
    std::string l = line + "\n";
    if (write(results_fd, l.data(), l.size()) < 0) {}
}
static void engine_error(const std::string &msg) {
    emit("{\"kind\":\"error\",\"msg\":\"" + jesc(msg) + "\"}");
    S->stop = 3;
    fprintf(stderr, "symex: %s\n", msg.c_str());
}

// ------------------------------------------------------------------ values
struct V {
    uint32_t w = 0;
    Z3_ast a = nullptr;   // null: concrete value c (w <= 64)
    u64 c = 0;
    std::vector<V> *agg = nullptr;
    bool conc() const { return !a && !agg; }
};
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline V mkc(unsigned w, u64 c) { V v; v.w = w; v.c = c & maskw(w); return v; }
static Z3_sort bvsort(unsigned w) {
    static std::unordered_map<unsigned, Z3_sort> m;
    Z3_sort &s = m[w];
    if (!s) s = Z3_mk_bv_sort(Z, w);
    return s;
}
static Z3_ast numeral(unsigned w, u64 c) {
    static std::vector<Z3_ast> small[65];
    if (w <= 64 && c < 512) {
        auto &v = small[w];
        if (v.empty()) v.assign(512, nullptr);
        if (!v[c]) v[c] = Z3_mk_unsigned_int64(Z, c, bvsort(w));
        return v[c];
    }
    return Z3_mk_unsigned_int64(Z, c, bvsort(w));
}
static Z3_ast ast(const V &v) { return v.a ? v.a : numeral(v.w, v.c); }
static bool is_num(Z3_ast a) { return Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST; }
static Z3_decl_kind dkind(Z3_ast a) {
    if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) return Z3_OP_UNINTERPRETED;
    return Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, a)));
}
static Z3_ast arg(Z3_ast a, unsigned i) { return Z3_get_app_arg(Z, Z3_to_app(Z, a), i); }
static unsigned nargs(Z3_ast a) { return Z3_get_app_num_args(Z, Z3_to_app(Z, a)); }
static unsigned bvw(Z3_ast a) { return Z3_get_bv_sort_size(Z, Z3_get_sort(Z, a)); }
static V mks(Z3_ast a) {
    V v;
    v.w = bvw(a);
    if (v.w <= 64 && is_num(a)) {
        uint64_t c;
        Z3_get_numeral_uint64(Z, a, &c);
        v.c = c;
        return v;
    }
    v.a = a;
    return v;
}
// Boolean conditions are width-1 bit-vectors at IR level; B is a Z3 Bool.
static Z3_ast Btrue, Bfalse;
static Z3_ast bnot(Z3_ast b) {
    if (b == Btrue) return Bfalse;
    if (b == Bfalse) return Btrue;
    if (dkind(b) == Z3_OP_NOT) return arg(b, 0);
    return Z3_mk_not(Z, b);
}
static Z3_ast band(Z3_ast x, Z3_ast y) {
    if (x == Btrue) return y;
    if (y == Btrue) return x;
    if (x == Bfalse || y == Bfalse) return Bfalse;
    if (x == y) return x;
    Z3_ast a[2] = {x, y};
    return Z3_mk_and(Z, 2, a);
}
static Z3_ast bor(Z3_ast x, Z3_ast y) {
    if (x == Bfalse) return y;
    if (y == Bfalse) return x;
    if (x == Btrue || y == Btrue) return Btrue;
    if (x == y) return x;
    Z3_ast a[2] = {x, y};
    return Z3_mk_or(Z, 2, a);
}
static V mk_ite_bool(Z3_ast c, const V &x, const V &y);
static Z3_ast to_bool(const V &v) {  // v.w == 1
    if (v.conc()) return v.c ? Btrue : Bfalse;
    Z3_ast a = v.a;
    if (dkind(a) == Z3_OP_ITE) {
        Z3_ast t = arg(a, 1), e = arg(a, 2);
        if (is_num(t) && is_num(e)) {
            V vt = mks(t), ve = mks(e);
            if (vt.c == 1 && ve.c == 0) return arg(a, 0);
            if (vt.c == 0 && ve.c == 1) return bnot(arg(a, 0));
        }
    }
    return Z3_mk_eq(Z, a, numeral(1, 1));
}
static V from_bool(Z3_ast b) {
    if (b == Btrue) return mkc(1, 1);
    if (b == Bfalse) return mkc(1, 0);
    return mks(Z3_mk_ite(Z, b, numeral(1, 1), numeral(1, 0)));
}
static V mk_extract(const V &x, unsigned hi, unsigned lo);
static V mk_concat(const V &hi, const V &lo) {
    if (hi.conc() && lo.conc() && hi.w + lo.w <= 64) return mkc(hi.w + lo.w, (hi.c << lo.w) | lo.c);
    Z3_ast a = ast(hi), b = ast(lo);
    if (dkind(a) == Z3_OP_EXTRACT && dkind(b) == Z3_OP_EXTRACT && arg(a, 0) == arg(b, 0)) {
        Z3_func_decl da = Z3_get_app_decl(Z, Z3_to_app(Z, a)), db = Z3_get_app_decl(Z, Z3_to_app(Z, b));
        unsigned ahi = Z3_get_decl_int_parameter(Z, da, 0), alo = Z3_get_decl_int_parameter(Z, da, 1);
        unsigned bhi = Z3_get_decl_int_parameter(Z, db, 0), blo = Z3_get_decl_int_parameter(Z, db, 1);
        if (alo == bhi + 1) return mk_extract(mks(arg(a, 0)), ahi, blo);
    }
    // (concat x (extract..)) (extract..) : try to merge with the right-most part of hi
    if (dkind(a) == Z3_OP_CONCAT && nargs(a) == 2) {
        Z3_ast r = arg(a, 1);
        if (dkind(r) == Z3_OP_EXTRACT && dkind(b) == Z3_OP_EXTRACT && arg(r, 0) == arg(b, 0)) {
            V m = mk_concat(mks(r), lo);
            if (m.a && dkind(m.a) != Z3_OP_CONCAT) return mk_concat(mks(arg(a, 0)), m);
        }
    }
    return mks(Z3_mk_concat(Z, a, b));
}
static V mk_extract(const V &x, unsigned hi, unsigned lo) {
    if (lo == 0 && hi + 1 == x.w) return x;
    if (x.conc()) return mkc(hi - lo + 1, x.c >> lo);
    Z3_decl_kind k = dkind(x.a);
    if (k == Z3_OP_CONCAT) {
        unsigned n = nargs(x.a), pos = x.w;
        for (unsigned i = 0; i < n; i++) {
            Z3_ast p = arg(x.a, i);
            unsigned pw = bvw(p);
            unsigned plo = pos - pw;
            if (lo >= plo && hi < pos) return mk_extract(mks(p), hi - plo, lo - plo);
            if (hi < pos && hi >= plo && lo < plo && i + 1 < n) {
                // spans: split
                return mk_concat(mk_extract(mks(p), hi - plo, 0), mk_extract(x, plo - 1, lo));
            }
            pos = plo;
        }
    } else if (k == Z3_OP_EXTRACT) {
        Z3_func_decl d = Z3_get_app_decl(Z, Z3_to_app(Z, x.a));
        unsigned xl = Z3_get_decl_int_parameter(Z, d, 1);
        return mk_extract(mks(arg(x.a, 0)), hi + xl, lo + xl);
    } else if (k == Z3_OP_ITE) {
        Z3_ast t = arg(x.a, 1), e = arg(x.a, 2);
        if (is_num(t) || is_num(e) || (dkind(t) == Z3_OP_CONCAT && dkind(e) == Z3_OP_CONCAT)) return mk_ite_bool(arg(x.a, 0), mk_extract(mks(t), hi, lo), mk_extract(mks(e), hi, lo));
    } else if (k == Z3_OP_BAND || k == Z3_OP_BOR || k == Z3_OP_BXOR) {
        if (nargs(x.a) == 2) {
            V p = mk_extract(mks(arg(x.a, 0)), hi, lo), q = mk_extract(mks(arg(x.a, 1)), hi, lo);
            if (p.conc() && q.conc()) return mkc(p.w, k == Z3_OP_BAND ? p.c & q.c : k == Z3_OP_BOR ? p.c | q.c : p.c ^ q.c);
            u64 ones = maskw(p.w);
            if (q.conc()) std::swap(p, q);
            if (p.conc()) {
                if (k == Z3_OP_BAND && p.c == 0) return p;
                if (k == Z3_OP_BAND && p.c == ones) return q;
                if (k == Z3_OP_BOR && p.c == 0) return q;
                if (k == Z3_OP_BOR && p.c == ones) return p;
                if (k == Z3_OP_BXOR && p.c == 0) return q;
            }
            if (k == Z3_OP_BAND) return mks(Z3_mk_bvand(Z, ast(p), ast(q)));
            if (k == Z3_OP_BOR) return mks(Z3_mk_bvor(Z, ast(p), ast(q)));
            return mks(Z3_mk_bvxor(Z, ast(p), ast(q)));
        }
    } else if ((k == Z3_OP_BADD || k == Z3_OP_BSUB || k == Z3_OP_BMUL) && lo == 0 && nargs(x.a) == 2) {
        V p = mk_extract(mks(arg(x.a, 0)), hi, 0), q = mk_extract(mks(arg(x.a, 1)), hi, 0);
        if (k == Z3_OP_BADD) return mks(Z3_mk_bvadd(Z, ast(p), ast(q)));
        if (k == Z3_OP_BSUB) return mks(Z3_mk_bvsub(Z, ast(p), ast(q)));
        return mks(Z3_mk_bvmul(Z, ast(p), ast(q)));
    }
    return mks(Z3_mk_extract(Z, hi, lo, x.a));
}
static V mk_zext(const V &x, unsigned w) {
    if (x.w == w) return x;
    if (x.conc() && w <= 64) return mkc(w, x.c);
    if (w - x.w <= 64) return mk_concat(mkc(w - x.w, 0), x);
    return mks(Z3_mk_zero_ext(Z, w - x.w, ast(x)));
}
static inline int64_t sx(u64 c, unsigned w) { return w >= 64 ? (int64_t) c : (int64_t) (c << (64 - w)) >> (64 - w); }
static V mk_sext(const V &x, unsigned w) {
    if (x.w == w) return x;
    if (x.conc() && w <= 64) return mkc(w, (u64) sx(x.c, x.w));
    if (dkind(ast(x)) == Z3_OP_ITE && is_num(arg(x.a, 1)) && is_num(arg(x.a, 2)))
        return mk_ite_bool(arg(x.a, 0), mk_sext(mks(arg(x.a, 1)), w), mk_sext(mks(arg(x.a, 2)), w));
    return mks(Z3_mk_sign_ext(Z, w - x.w, ast(x)));
}
static V mk_ite_bool(Z3_ast c, const V &x, const V &y) {
    if (c == Btrue) return x;
    if (c == Bfalse) return y;
    if (x.agg) {
        V r = x;
        r.agg = new std::vector<V>(*x.agg);
        for (size_t i = 0; i < r.agg->size(); i++) (*r.agg)[i] = mk_ite_bool(c, (*x.agg)[i], (*y.agg)[i]);
        return r;
    }
    if (x.conc() && y.conc() && x.c == y.c) return x;
    if (x.a && x.a == y.a) return x;
    if (dkind(c) == Z3_OP_NOT) return mks(Z3_mk_ite(Z, arg(c, 0), ast(y), ast(x)));
    return mks(Z3_mk_ite(Z, c, ast(x), ast(y)));
}
static Z3_ast beq(const V &x, const V &y) {
    if (x.conc() && y.conc()) return x.c == y.c ? Btrue : Bfalse;
    if (x.a && x.a == y.a) return Btrue;
    const V *cv = x.conc() ? &x : y.conc() ? &y : nullptr;
    const V *sv = x.conc() ? &y : &x;
    if (cv && sv->a) {
        Z3_decl_kind k = dkind(sv->a);
        if (k == Z3_OP_ITE) {
            Z3_ast t = arg(sv->a, 1), e = arg(sv->a, 2);
            if (is_num(t) && is_num(e)) {
                bool et = mks(t).c == cv->c, ee = mks(e).c == cv->c;
                if (et && ee) return Btrue;
                if (et) return arg(sv->a, 0);
                if (ee) return bnot(arg(sv->a, 0));
                return Bfalse;
            }
        } else if (k == Z3_OP_CONCAT && nargs(sv->a) == 2 && sv->w <= 64) {
            V h = mks(arg(sv->a, 0)), l = mks(arg(sv->a, 1));
            V ch = mk_extract(*cv, sv->w - 1, l.w), cl = mk_extract(*cv, l.w - 1, 0);
            if (h.conc() || l.conc()) return band(beq(h, ch), beq(l, cl));
        }
    }
    // equal choices between the same alternatives: only what differs is compared
    if (x.a && y.a && dkind(x.a) == Z3_OP_ITE && dkind(y.a) == Z3_OP_ITE && arg(x.a, 0) == arg(y.a, 0)) {
        Z3_ast u = x.a, v = y.a;
        std::vector<std::pair<Z3_ast, Z3_ast>> alt;   // condition, and what must hold under it
        while (u != v && dkind(u) == Z3_OP_ITE && dkind(v) == Z3_OP_ITE && arg(u, 0) == arg(v, 0)) {
            Z3_ast c = arg(u, 0), ut = arg(u, 1), vt = arg(v, 1), ue = arg(u, 2), ve = arg(v, 2);
            if (ue == ve && dkind(ut) == Z3_OP_ITE && dkind(vt) == Z3_OP_ITE) alt.push_back({bnot(c), Btrue}), u = ut, v = vt;
            else alt.push_back({c, ut == vt ? Btrue : Z3_mk_eq(Z, ut, vt)}), u = ue, v = ve;
        }
        Z3_ast r = beq(mks(u), mks(v));
        if (r == Btrue) {
            // alternatives for different constant values of one term exclude each other: no order among them
            Z3_ast on = nullptr;
            std::set<Z3_ast> keys;
            bool ex = true;
            for (auto &p : alt) {
                Z3_ast c = p.first;
                if (dkind(c) != Z3_OP_EQ) { ex = false; break; }
                Z3_ast k = arg(c, 0), t = arg(c, 1);
                if (!is_num(k)) std::swap(k, t);
                if (!is_num(k) || (on && on != t) || !keys.insert(k).second) { ex = false; break; }
                on = t;
            }
            if (ex) {
                for (auto &p : alt)
                    if (p.second != Btrue) r = band(bor(bnot(p.first), p.second), r);
                return r;
            }
        }
        for (size_t i = alt.size(); i-- > 0;)
            r = alt[i].second == Btrue ? bor(alt[i].first, r) : band(bor(bnot(alt[i].first), alt[i].second), bor(alt[i].first, r));
        return r;
    }
    return Z3_mk_eq(Z, ast(x), ast(y));
}
// known upper bound of a value (cheap, syntactic)
static u64 umax_of(const V &x, int depth = 4) {
    if (x.conc()) return x.c;
    if (x.w > 64) return ~0ull;
    Z3_decl_kind k = dkind(x.a);
    if (depth > 0) {
        if (k == Z3_OP_CONCAT && nargs(x.a) == 2) {
            V h = mks(arg(x.a, 0)), l = mks(arg(x.a, 1));
            if (h.w <= 64 && l.w <= 64) {
                u64 hm = umax_of(h, depth - 1), lm = umax_of(l, depth - 1);
                return hm == 0 ? lm : (hm << l.w) | maskw(l.w);
            }
        }
        if (k == Z3_OP_ITE) return std::max(umax_of(mks(arg(x.a, 1)), depth - 1), umax_of(mks(arg(x.a, 2)), depth - 1));
        if (k == Z3_OP_BAND && nargs(x.a) == 2)
            return std::min(umax_of(mks(arg(x.a, 0)), depth - 1), umax_of(mks(arg(x.a, 1)), depth - 1));
    }
    return maskw(x.w);
}
static Z3_ast bult(const V &x, const V &y) {
    if (x.conc() && y.conc()) return x.c < y.c ? Btrue : Bfalse;
    if (y.conc() && y.c == 0) return Bfalse;
    if (y.conc() && umax_of(x) < y.c) return Btrue;
    if (x.conc() && x.w <= 64 && umax_of(y) <= x.c) return Bfalse;
    return Z3_mk_bvult(Z, ast(x), ast(y));
}
static Z3_ast bule(const V &x, const V &y) { return bnot(bult(y, x)); }
static Z3_ast bslt(const V &x, const V &y) {
    if (x.conc() && y.conc()) return sx(x.c, x.w) < sx(y.c, y.w) ? Btrue : Bfalse;
    // both known non-negative: unsigned comparison
    if (x.w <= 64) {
        u64 h = maskw(x.w - 1);
        if (umax_of(x) <= h && umax_of(y) <= h) return bult(x, y);
    }
    return Z3_mk_bvslt(Z, ast(x), ast(y));
}
static unsigned tz_of(const V &x, int depth = 6) {  // known trailing zero bits
    if (x.conc()) return x.c == 0 ? x.w : (unsigned) __builtin_ctzll(x.c);
    if (depth == 0) return 0;
    Z3_decl_kind k = dkind(x.a);
    if (k == Z3_OP_CONCAT) {
        V l = mks(arg(x.a, nargs(x.a) - 1));
        unsigned t = tz_of(l, depth - 1);
        return t;
    }
    if (k == Z3_OP_BMUL && nargs(x.a) == 2) return std::min(63u, tz_of(mks(arg(x.a, 0)), depth - 1) + tz_of(mks(arg(x.a, 1)), depth - 1));
    if (k == Z3_OP_BADD && nargs(x.a) == 2) return std::min(tz_of(mks(arg(x.a, 0)), depth - 1), tz_of(mks(arg(x.a, 1)), depth - 1));
    if (k == Z3_OP_ITE) return std::min(tz_of(mks(arg(x.a, 1)), depth - 1), tz_of(mks(arg(x.a, 2)), depth - 1));
    return 0;
}
enum BinOp { ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR };
static V mk_bin(BinOp op, const V &x, const V &y) {
    unsigned w = x.w;
    if (x.conc() && y.conc()) {
        u64 a = x.c, b = y.c;
        switch (op) {
            case ADD: return mkc(w, a + b);
            case SUB: return mkc(w, a - b);
            case MUL: return mkc(w, a * b);
            case UDIV: return mkc(w, b ? a / b : maskw(w));
            case SDIV: return mkc(w, b ? (b == maskw(w) ? (u64) 0 - a : (u64) (sx(a, w) / sx(b, w))) : ~0ull);
            case UREM: return mkc(w, b ? a % b : a);
            case SREM: return mkc(w, b ? (b == maskw(w) ? 0 : (u64) (sx(a, w) % sx(b, w))) : a);
            case SHL: return mkc(w, b >= w ? 0 : a << b);
            case LSHR: return mkc(w, b >= w ? 0 : a >> b);
            case ASHR: return mkc(w, (u64) (sx(a, w) >> (b >= w ? w - 1 : b)));
            case AND: return mkc(w, a & b);
            case OR: return mkc(w, a | b);
            case XOR: return mkc(w, a ^ b);
        }
    }
    u64 ones = maskw(w);
    // identities
    const V *cx = x.conc() ? &x : nullptr, *cy = y.conc() ? &y : nullptr;
    switch (op) {
        case ADD:
            if (cx && cx->c == 0) return y;
            if (cy && cy->c == 0) return x;
            if (cy && dkind(x.a) == Z3_OP_BADD && nargs(x.a) == 2) {
                V l = mks(arg(x.a, 0)), r = mks(arg(x.a, 1));
                if (l.conc()) std::swap(l, r);
                if (r.conc()) return mk_bin(ADD, l, mkc(w, r.c + cy->c));
            }
            if (cx) return mk_bin(ADD, y, x);
            break;
        case SUB:
            if (cy) return mk_bin(ADD, x, mkc(w, 0 - cy->c));
            if (x.a && x.a == y.a) return mkc(w, 0);
            break;
        case MUL:
            if (cx) return mk_bin(MUL, y, x);
            if (cy) {
                if (cy->c == 0) return *cy;
                if (cy->c == 1) return x;
                if ((cy->c & (cy->c - 1)) == 0) return mk_bin(SHL, x, mkc(w, __builtin_ctzll(cy->c)));
            }
            break;
        case UDIV:
            if (cy && cy->c && (cy->c & (cy->c - 1)) == 0) return mk_bin(LSHR, x, mkc(w, __builtin_ctzll(cy->c)));
            break;
        case UREM:
            if (cy && cy->c && (cy->c & (cy->c - 1)) == 0) return mk_bin(AND, x, mkc(w, cy->c - 1));
            break;
        case SHL:
            if (cy) {
                if (cy->c == 0) return x;
                if (cy->c >= w) return mkc(w, 0);
                return mk_concat(mk_extract(x, w - 1 - cy->c, 0), mkc(cy->c, 0));
            }
            break;
        case LSHR:
            if (cy) {
                if (cy->c == 0) return x;
                if (cy->c >= w) return mkc(w, 0);
                return mk_zext(mk_extract(x, w - 1, cy->c), w);
            }
            break;
        case ASHR:
            if (cy) {
                if (cy->c == 0) return x;
                u64 s = std::min<u64>(cy->c, w - 1);
                return mk_sext(mk_extract(x, w - 1, s), w);
            }
            break;
        case AND:
            if (cx) return mk_bin(AND, y, x);
            if (x.a && x.a == y.a) return x;
            if (cy) {
                if (cy->c == 0) return *cy;
                if (cy->c == ones) return x;
                if (((cy->c + 1) & cy->c) == 0 && w <= 64) {  // low mask
                    unsigned n = __builtin_ctzll(cy->c + 1);
                    return mk_zext(mk_extract(x, n - 1, 0), w);
                }
                if (w <= 64 && (((~cy->c & ones) + 1) & (~cy->c & ones)) == 0) {  // high mask
                    unsigned n = __builtin_ctzll(cy->c);
                    return mk_concat(mk_extract(x, w - 1, n), mkc(n, 0));
                }
            }
            break;
        case OR:
            if (cx) return mk_bin(OR, y, x);
            if (x.a && x.a == y.a) return x;
            if (cy && cy->c == 0) return x;
            if (cy && cy->c == ones) return *cy;
            if (w == 1) return from_bool(bor(to_bool(x), to_bool(y)));
            // zext(a) << k | zext(b): disjoint concats
            if (x.a && y.a && dkind(x.a) == Z3_OP_CONCAT && dkind(y.a) == Z3_OP_CONCAT && w <= 64) {
                unsigned tx = tz_of(x), ty = tz_of(y);
                const V *hi = tx >= ty ? &x : &y, *lo = tx >= ty ? &y : &x;
                unsigned t = std::max(tx, ty);
                if (t > 0 && t < w) {
                    V lh = mk_extract(*lo, w - 1, t);
                    if (lh.conc() && lh.c == 0) return mk_concat(mk_extract(*hi, w - 1, t), mk_extract(*lo, t - 1, 0));
                    V hh = mk_extract(*hi, w - 1, t);
                    V up = mk_bin(OR, hh, lh);
                    return mk_concat(up, mk_extract(*lo, t - 1, 0));
                }
            }
            break;
        case XOR:
            if (cx) return mk_bin(XOR, y, x);
            if (cy && cy->c == 0) return x;
            if (x.a && x.a == y.a) return mkc(w, 0);
            if (w == 1 && cy) return from_bool(bnot(to_bool(x)));
            break;
        default: break;
    }
    if (w == 1 && op == AND) return from_bool(band(to_bool(x), to_bool(y)));
    if (w == 1 && (op == XOR)) return from_bool(bnot(beq(x, y)));
    Z3_ast a = ast(x), b = ast(y);
    switch (op) {
        case ADD: return mks(Z3_mk_bvadd(Z, a, b));
        case SUB: return mks(Z3_mk_bvsub(Z, a, b));
        case MUL: return mks(Z3_mk_bvmul(Z, a, b));
        case UDIV: return mks(Z3_mk_bvudiv(Z, a, b));
        case SDIV: return mks(Z3_mk_bvsdiv(Z, a, b));
        case UREM: return mks(Z3_mk_bvurem(Z, a, b));
        case SREM: return mks(Z3_mk_bvsrem(Z, a, b));
        case SHL: return mks(Z3_mk_bvshl(Z, a, b));
        case LSHR: return mks(Z3_mk_bvlshr(Z, a, b));
        case ASHR: return mks(Z3_mk_bvashr(Z, a, b));
        case AND: return mks(Z3_mk_bvand(Z, a, b));
        case OR: return mks(Z3_mk_bvor(Z, a, b));
        case XOR: return mks(Z3_mk_bvxor(Z, a, b));
    }
    abort();
}

// ------------------------------------------------------------------ inputs (symbolic variables)
struct Var { unsigned w; Z3_ast a; };
static std::vector<Var> g_vars;                                  // by variable index (shared by position on a path)
static std::unordered_map<unsigned, unsigned> g_var_of_ast;      // ast id -> index
static std::map<std::pair<unsigned, unsigned>, unsigned> g_var_key;
static unsigned var_index(unsigned pos, unsigned w) {
    auto key = std::make_pair(pos, w);
    auto it = g_var_key.find(key);
    if (it != g_var_key.end()) return it->second;
    std::string name = "i" + std::to_string(pos) + "_" + std::to_string(w);
    Z3_ast a = Z3_mk_const(Z, Z3_mk_string_symbol(Z, name.c_str()), bvsort(w));
    unsigned idx = g_vars.size();
    g_vars.push_back({w, a});
    g_var_of_ast[Z3_get_ast_id(Z, a)] = idx;
    g_var_key[key] = idx;
    return idx;
}
typedef std::vector<unsigned> VarSet;  // sorted
static std::unordered_map<unsigned, std::shared_ptr<VarSet>> g_varsets;
static std::shared_ptr<VarSet> vars_of(Z3_ast root) {
    unsigned rid = Z3_get_ast_id(Z, root);
    auto it = g_varsets.find(rid);
    if (it != g_varsets.end()) return it->second;
    std::unordered_set<unsigned> seen;
    std::vector<Z3_ast> st{root};
    auto r = std::make_shared<VarSet>();
    while (!st.empty()) {
        Z3_ast a = st.back();
        st.pop_back();
        if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) continue;
        if (!seen.insert(Z3_get_ast_id(Z, a)).second) continue;
        unsigned n = nargs(a);
        if (n == 0) {
            auto v = g_var_of_ast.find(Z3_get_ast_id(Z, a));
            if (v != g_var_of_ast.end()) r->push_back(v->second);
        }
        for (unsigned i = 0; i < n; i++) st.push_back(arg(a, i));
    }
    std::sort(r->begin(), r->end());
    g_varsets[rid] = r;
    return r;
}
// ------------------------------------------------------------------ concrete evaluation under an assignment
typedef std::unordered_map<unsigned, u64> Assign;  // variable index -> value (missing: 0)
struct Eval {
    const Assign &as;
    // kept for as long as evaluations use the same assignment
    static inline std::unordered_map<unsigned, u128> memo;
    static inline u64 memo_of = 0;
    bool ok = true;
    Eval(const Assign &a, u64 version) : as(a) {
        if (memo_of != version || memo.size() > 2000000) memo.clear();
        memo_of = version;
    }
    static u128 m(unsigned w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }
    static __int128 s(u128 x, unsigned w) { return w >= 128 ? (__int128) x : (__int128) (x << (128 - w)) >> (128 - w); }
    u128 get(Z3_ast a) { return memo[Z3_get_ast_id(Z, a)]; }
    u128 run(Z3_ast root) {
        std::vector<std::pair<Z3_ast, bool>> st{{root, false}};
        while (!st.empty() && ok) {
            auto [a, done] = st.back();
            st.pop_back();
            unsigned id = Z3_get_ast_id(Z, a);
            if (memo.count(id)) continue;
            if (is_num(a)) {
                unsigned w = bvw(a);
                if (w > 64) {
                    // wide numerals: parse the decimal string
                    if (w > 128) { ok = false; return 0; }
                    u128 v = 0;
                    for (const char *p = Z3_get_numeral_string(Z, a); *p; p++) v = v * 10 + (*p - '0');
                    memo[id] = v;
                } else {
                    uint64_t c;
                    Z3_get_numeral_uint64(Z, a, &c);
                    memo[id] = c;
                }
                continue;
            }
            unsigned n = nargs(a);
            if (n == 0) {
                Z3_decl_kind k = dkind(a);
                if (k == Z3_OP_TRUE) memo[id] = 1;
                else if (k == Z3_OP_FALSE) memo[id] = 0;
                else {
                    auto v = g_var_of_ast.find(id);
                    if (v == g_var_of_ast.end()) { ok = false; return 0; }
                    auto it = as.find(v->second);
                    memo[id] = it == as.end() ? 0 : it->second;
                }
                continue;
            }
            Z3_decl_kind k = dkind(a);
            if (!done) {
                if (k == Z3_OP_ITE) {
                    // lazy
                    Z3_ast c = arg(a, 0);
                    auto it = memo.find(Z3_get_ast_id(Z, c));
                    if (it == memo.end()) {
                        st.push_back({a, false});
                        st.push_back({c, false});
                        continue;
                    }
                    Z3_ast b = it->second ? arg(a, 1) : arg(a, 2);
                    auto ib = memo.find(Z3_get_ast_id(Z, b));
                    if (ib == memo.end()) {
                        st.push_back({a, false});
                        st.push_back({b, false});
                        continue;
                    }
                    memo[id] = ib->second;
                    continue;
                }
                st.push_back({a, true});
                for (unsigned i = 0; i < n; i++) st.push_back({arg(a, i), false});
                continue;
            }
            bool isbv = Z3_get_sort_kind(Z, Z3_get_sort(Z, a)) == Z3_BV_SORT;
            unsigned w = isbv ? bvw(a) : 1;
            unsigned w0 = Z3_get_sort_kind(Z, Z3_get_sort(Z, arg(a, 0))) == Z3_BV_SORT ? bvw(arg(a, 0)) : 1;
            if (w > 128 || w0 > 128) { ok = false; return 0; }
            u128 x = get(arg(a, 0)), y = n > 1 ? get(arg(a, 1)) : 0, r = 0;
            switch (k) {
                case Z3_OP_NOT: r = !x; break;
                case Z3_OP_AND: r = 1; for (unsigned i = 0; i < n; i++) r &= get(arg(a, i)); break;
                case Z3_OP_OR: r = 0; for (unsigned i = 0; i < n; i++) r |= get(arg(a, i)); break;
                case Z3_OP_EQ: r = x == y; break;
                case Z3_OP_CONCAT: {
                    r = 0;
                    for (unsigned i = 0; i < n; i++) r = (r << bvw(arg(a, i))) | get(arg(a, i));
                    break;
                }
                case Z3_OP_EXTRACT: {
                    Z3_func_decl d = Z3_get_app_decl(Z, Z3_to_app(Z, a));
                    r = x >> Z3_get_decl_int_parameter(Z, d, 1);
                    break;
                }
                case Z3_OP_ZERO_EXT: r = x; break;
                case Z3_OP_SIGN_EXT: r = (u128) s(x, w0); break;
                case Z3_OP_BADD: r = 0; for (unsigned i = 0; i < n; i++) r += get(arg(a, i)); break;
                case Z3_OP_BMUL: r = 1; for (unsigned i = 0; i < n; i++) r *= get(arg(a, i)); break;
                case Z3_OP_BSUB: r = x - y; break;
                case Z3_OP_BNEG: r = 0 - x; break;
                case Z3_OP_BNOT: r = ~x; break;
                case Z3_OP_BAND: r = ~(u128) 0; for (unsigned i = 0; i < n; i++) r &= get(arg(a, i)); break;
                case Z3_OP_BOR: r = 0; for (unsigned i = 0; i < n; i++) r |= get(arg(a, i)); break;
                case Z3_OP_BXOR: r = 0; for (unsigned i = 0; i < n; i++) r ^= get(arg(a, i)); break;
                case Z3_OP_ULT: r = x < y; break;
                case Z3_OP_ULEQ: r = x <= y; break;
                case Z3_OP_UGT: r = x > y; break;
                case Z3_OP_UGEQ: r = x >= y; break;
                case Z3_OP_SLT: r = s(x, w0) < s(y, w0); break;
                case Z3_OP_SLEQ: r = s(x, w0) <= s(y, w0); break;
                case Z3_OP_SGT: r = s(x, w0) > s(y, w0); break;
                case Z3_OP_SGEQ: r = s(x, w0) >= s(y, w0); break;
                case Z3_OP_BSHL: r = y >= w ? 0 : x << (unsigned) y; break;
                case Z3_OP_BLSHR: r = y >= w ? 0 : x >> (unsigned) y; break;
                case Z3_OP_BASHR: r = (u128) (s(x, w0) >> (unsigned) (y >= w ? w - 1 : y)); break;
                case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: r = y ? x / y : m(w); break;
                case Z3_OP_BUREM: case Z3_OP_BUREM_I: r = y ? x % y : x; break;
                default: ok = false; return 0;
            }
            memo[id] = r & m(w);
        }
        return ok ? get(root) : 0;
    }
};

// ------------------------------------------------------------------ memory
struct Obj {
    u64 size = 0;
    std::vector<uint8_t> c;
    std::vector<Z3_ast> s;     // empty: all concrete; else per-byte (null: concrete)
    V byte(u64 i) const { return !s.empty() && s[i] ? mks(s[i]) : mkc(8, c[i]); }
    void set(u64 i, const V &v) {
        if (v.conc()) {
            c[i] = (uint8_t) v.c;
            if (!s.empty()) s[i] = nullptr;
        } else {
            if (s.empty()) s.assign(size, nullptr);
            s[i] = v.a;
        }
    }
};
struct ObjRef {
    std::shared_ptr<Obj> o;
    bool dead = false, ro = false;
};
static std::vector<std::string> g_objname;  // by object id (globals and allocas; informative)
static const u64 OBJ_SHIFT = 24, OBJ_MID = 0x400000;
static u64 obj_base(u64 id) { return ((id + 1) << OBJ_SHIFT) + OBJ_MID; }
static const u64 FN_BASE = 0x7000000000000ull;

struct FInfo {
    Function *f;
    unsigned nslots = 0;
    std::unordered_map<const Value *, unsigned> slot;
};
struct Frame {
    FInfo *fi;
    BasicBlock *bb, *prev;
    BasicBlock::iterator pc;
    std::vector<V> regs;
    std::vector<unsigned> allocas;
    std::vector<V> varargs;
    std::unordered_map<BasicBlock *, u64> visits;
};
struct State {
    std::vector<Frame> stack;
    std::vector<ObjRef> mem;
    std::vector<Z3_ast> pc;
    std::vector<unsigned> inputs;  // variable indices in order
    Assign as;                     // satisfies pc
    u64 as_version = 0;            // equal versions: equal assignments
    std::vector<std::string> labels;
    std::vector<V> obs;
    u64 steps = 0;
    std::set<Z3_ast> secrets;      // bytes that are secret (v_secret)
    u64 residue = 0;               // secret bytes left behind in stack frames of the application
};
static std::set<unsigned> g_app_globals;   // objects of the application (placed in their own section)
// Is this a function of the code under test?
static bool is_app(const Function *f) {
    static std::unordered_map<const Function *, bool> memo;
    auto it = memo.find(f);
    if (it != memo.end()) return it->second;
    bool r = false;
    if (auto *sp = f->getSubprogram()) {
        auto has = [](StringRef n) { return n.contains("/harness/") || n.contains("/sdk/"); };
        r = !has(sp->getFilename()) && !has(sp->getDirectory());
    }
    return memo[f] = r;
}
static Module *M;
static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, u64> g_addr;
static std::vector<Function *> g_fn;
static std::unordered_map<const Function *, FInfo *> g_fi;
static std::set<const Function *> g_covered;
static std::set<std::string> g_reached;
static std::map<std::string, u64> g_assert_counts;
static std::vector<std::unique_ptr<State>> g_work;

static FInfo *finfo(Function *f) {
    FInfo *&p = g_fi[f];
    if (p) return p;
    p = new FInfo{f};
    for (auto &a : f->args()) p->slot[&a] = p->nslots++;
    for (auto &b : *f)
        for (auto &i : b)
            if (!i.getType()->isVoidTy()) p->slot[&i] = p->nslots++;
    return p;
}

// ------------------------------------------------------------------ solver
enum Res { SAT, UNSAT, UNKNOWN };
static std::unordered_map<std::string, std::pair<Res, std::shared_ptr<Assign>>> g_qcache;
static const char *O_profile = getenv("SYMEX_PROFILE");   // directory: where the queries come from
static std::string backtrace_of(const State &st);
// Is pc /\ extra satisfiable?  On SAT, upd receives values for the variables of the relevant slice.
static Res query(const State &st, Z3_ast extra, Assign &upd) {
    if (extra == Bfalse) return UNSAT;
    std::vector<Z3_ast> sel;
    std::set<unsigned> ids;
    std::unordered_set<unsigned> vs;
    {
        auto ev = vars_of(extra);
        vs.insert(ev->begin(), ev->end());
        std::vector<bool> used(st.pc.size(), false);
        bool change = true;
        while (change) {
            change = false;
            for (size_t i = 0; i < st.pc.size(); i++) {
                if (used[i]) continue;
                auto cv = vars_of(st.pc[i]);
                bool hit = false;
                for (unsigned v : *cv)
                    if (vs.count(v)) { hit = true; break; }
                if (!hit) continue;
                used[i] = true;
                sel.push_back(st.pc[i]);
                ids.insert(Z3_get_ast_id(Z, st.pc[i]));
                for (unsigned v : *cv)
                    if (vs.insert(v).second) change = true;
            }
        }
    }
    std::string key;
    for (unsigned i : ids) key.append((const char *) &i, 4);
    unsigned eid = Z3_get_ast_id(Z, extra);
    key.append((const char *) &eid, 4);
    auto it = g_qcache.find(key);
    if (it != g_qcache.end()) {
        if (it->second.first == SAT) upd = *it->second.second;
        return it->second.first;
    }
    double t0 = now();
    static Z3_symbol logic = Z3_mk_string_symbol(Z, "QF_BV");
    Z3_solver s = Z3_mk_solver_for_logic(Z, logic);
    Z3_solver_inc_ref(Z, s);
    Z3_params ps = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, ps);
    Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), O_query_ms);
    Z3_solver_set_params(Z, s, ps);
    for (Z3_ast a : sel) Z3_solver_assert(Z, s, a);
    Z3_solver_assert(Z, s, extra);
    Z3_lbool r = Z3_solver_check(Z, s);
    Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    auto as = std::make_shared<Assign>();
    if (res == SAT) {
        Z3_model m = Z3_solver_get_model(Z, s);
        Z3_model_inc_ref(Z, m);
        for (unsigned v : vs) {
            Z3_ast out;
            if (!Z3_model_eval(Z, m, g_vars[v].a, true, &out)) continue;
            uint64_t c = 0;
            if (is_num(out)) Z3_get_numeral_uint64(Z, out, &c);
            (*as)[v] = c;
        }
        Z3_model_dec_ref(Z, m);
        upd = *as;
    }
    Z3_params_dec_ref(Z, ps);
    Z3_solver_dec_ref(Z, s);
    S->queries++;
    (res == SAT ? S->sat : res == UNSAT ? S->unsat : S->unknown)++;
    S->solver_us += (u64) ((now() - t0) * 1e6);
    if (O_profile) {
        static FILE *pf = nullptr;
        static pid_t owner;
        if (owner != getpid()) {
            owner = getpid();
            pf = fopen((std::string(O_profile) + "/" + std::to_string(owner)).c_str(), "a");
        }
        if (pf) {
            fprintf(pf, "%.4f %s\n", now() - t0, backtrace_of(st).c_str());
            fflush(pf);
        }
    }
    if (res == UNKNOWN) engine_error("solver gave no answer within its time limit");
    else {
        if (g_qcache.size() > 200000) g_qcache.clear();
        g_qcache[key] = {res, as};
    }
    return res;
}
static void assign_all(State &st, const Assign &upd) {
    static u64 versions = 0;
    bool changed = false;
    for (auto &p : upd) {
        auto it = st.as.find(p.first);
        if (it != st.as.end() && it->second == p.second) continue;
        st.as[p.first] = p.second;
        changed |= it != st.as.end() || p.second != 0;
    }
    if (changed) st.as_version = ++versions;
}
static bool eval_true(const State &st, Z3_ast b, bool &known) {
    if (b == Btrue) { known = true; return true; }
    if (b == Bfalse) { known = true; return false; }
    Eval e(st.as, st.as_version);
    u128 r = e.run(b);
    known = e.ok;
    return r != 0;
}
// Both-sided feasibility of a condition.
static void feasible(const State &st, Z3_ast c, bool &t, bool &f, Assign &ut, Assign &uf) {
    if (c == Btrue) { t = true; f = false; return; }
    if (c == Bfalse) { t = false; f = true; return; }
    bool known, v = eval_true(st, c, known);
    if (known) {
        if (v) { t = true; f = query(st, bnot(c), uf) == SAT; }
        else { f = true; t = query(st, c, ut) == SAT; }
        return;
    }
    t = query(st, c, ut) == SAT;
    f = query(st, bnot(c), uf) == SAT;
}
static void constrain(State &st, Z3_ast c, const Assign &upd) {
    if (c == Btrue) return;
    st.pc.push_back(c);
    assign_all(st, upd);
}
static u64 value_of(const State &st, const V &v) {
    if (v.conc()) return v.c;
    Eval e(st.as, st.as_version);
    u128 r = e.run(v.a);
    if (!e.ok) {
        // fall back to the solver
        Z3_model m = Z3_mk_model(Z);
        Z3_model_inc_ref(Z, m);
        for (auto &p : st.as)
            Z3_add_const_interp(Z, m, Z3_get_app_decl(Z, Z3_to_app(Z, g_vars[p.first].a)), numeral(g_vars[p.first].w, p.second));
        Z3_ast out;
        uint64_t c = 0;
        if (Z3_model_eval(Z, m, v.a, true, &out) && is_num(out)) Z3_get_numeral_uint64(Z, out, &c);
        Z3_model_dec_ref(Z, m);
        return c;
    }
    return (u64) r;
}

// ------------------------------------------------------------------ reporting
static volatile sig_atomic_t want_where;   // SIGUSR1: say where the execution is
static std::string where(const State &st) {
    for (auto it = st.stack.rbegin(); it != st.stack.rend(); ++it) {
        if (it->pc == it->bb->end()) continue;
        const DebugLoc &d = it->pc->getDebugLoc();
        if (d) {
            std::string f = d->getFilename().str();
            return f + ":" + std::to_string(d.getLine());
        }
    }
    return "?";
}
static std::string backtrace_of(const State &st) {
    std::string r;
    for (auto it = st.stack.rbegin(); it != st.stack.rend(); ++it) {
        r += (r.empty() ? "" : " < ") + it->fi->f->getName().str();
        if (it->pc != it->bb->end()) {
            const DebugLoc &d = it->pc->getDebugLoc();
            if (d) r += ":" + std::to_string(d.getLine());
        }
    }
    return r;
}
static std::string inputs_of(const State &st, const Assign &upd) {
    std::string r;
    for (unsigned v : st.inputs) {
        auto u = upd.find(v);
        u64 c;
        if (u != upd.end()) c = u->second;
        else {
            auto a = st.as.find(v);
            c = a == st.as.end() ? 0 : a->second;
        }
        r += std::to_string(c) + " ";
    }
    return r;
}
static std::set<std::string> g_violated;
static void violation(const State &st, const std::string &kind, const std::string &msg, const Assign &upd) {
    std::string key = kind + ": " + msg;
    if (!g_violated.insert(key).second) return;
    std::string labels;
    for (auto &l : st.labels) labels += l + "; ";
    emit("{\"kind\":\"violation\",\"what\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"at\":\"" + jesc(where(st)) +
         "\",\"trace\":\"" + jesc(backtrace_of(st)) + "\",\"labels\":\"" + jesc(labels) + "\",\"inputs\":\"" +
         inputs_of(st, upd) + "\"}");
    bool known = false;
    for (auto &k : O_known)
        if (msg.find(k) != std::string::npos) known = true;
    if (!known) {
        int z = 0;
        S->stop.compare_exchange_strong(z, 1);
    }
}
static uint64_t g_rng = 1;
static u64 rnd() {
    g_rng ^= g_rng << 13;
    g_rng ^= g_rng >> 7;
    g_rng ^= g_rng << 17;
    return g_rng;
}
static void path_done(const State &st) {
    u64 n = S->paths++;
    if (S->sampled < (u64) O_samples && (n < 3 || rnd() % (1 + n / 4) == 0)) {
        S->sampled++;
        std::string labels, obs;
        for (auto &l : st.labels) labels += (labels.empty() ? "" : "|") + l;
        for (auto &o : st.obs) obs += std::to_string(value_of(st, o)) + " ";
        emit("{\"kind\":\"sample\",\"labels\":\"" + jesc(labels) + "\",\"obs\":\"" + obs + "\",\"inputs\":\"" + inputs_of(st, {}) + "\"}");
    }
}

// ------------------------------------------------------------------ processes
// The main process adopts what its workers leave behind; workers end when it is gone.
static pid_t g_main;
static u64 g_base;      // resident memory when this process started
static u64 resident() {
    FILE *f = fopen("/proc/self/statm", "r");
    unsigned long a = 0, b = 0;
    if (f) {
        if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0;
        fclose(f);
    }
    return (u64) b * 4096;
}
static int try_spawn() {  // 0: not started, 1: started (parent), 2: in the child
    if (O_workers <= 1 || S->stop) return 0;
    int a = g_active->load();
    while (a < O_workers) {
        if (g_active->compare_exchange_weak(a, a + 1)) {
            pid_t p = fork();
            if (p == 0) {
                g_base = resident();
                g_rng ^= (uint64_t) getpid() * 0x9E3779B97F4A7C15ull;
                if (!g_rng) g_rng = 7;
                return 2;
            }
            if (p < 0) {
                (*g_active)--;
                return 0;
            }
            return 1;
        }
    }
    return 0;
}
static void push_state(std::unique_ptr<State> s) { g_work.push_back(std::move(s)); }

// ------------------------------------------------------------------ execution
struct Kill {};    // path ends silently (assumption failed)
struct Retry {};   // the state was constrained; re-execute the current instruction
struct Done {};    // path finished

struct Ex {
    State *st;
    Frame &fr() { return st->stack.back(); }

    // fork: current continues with c, a copy is queued with !c (re-executing the current instruction)
    void require_or_fork(Z3_ast c) {  // afterwards c holds in st; the complement, if feasible, is queued
        bool t, f;
        Assign ut, uf;
        feasible(*st, c, t, f, ut, uf);
        if (t && f) {
            auto o = std::make_unique<State>(*st);
            constrain(*o, bnot(c), uf);
            S->forks++;
            push_state(std::move(o));
            constrain(*st, c, ut);
        } else if (!t) {
            // only the complement: caller must loop
            throw Kill();
        }
    }
    // returns the truth value chosen for c in this state; forks when both are possible
    bool branch(Z3_ast c) {
        bool t, f;
        Assign ut, uf;
        feasible(*st, c, t, f, ut, uf);
        if (t && f) {
            auto o = std::make_unique<State>(*st);
            constrain(*o, bnot(c), uf);
            S->forks++;
            push_state(std::move(o));
            constrain(*st, c, ut);
            return true;
        }
        return t;
    }
    u64 concretize(const V &v) {  // fork over all feasible values
        if (v.conc()) return v.c;
        u64 x = value_of(*st, v);
        require_or_fork(beq(v, mkc(v.w, x)));
        return x;
    }
    [[noreturn]] void mem_error(const std::string &msg) {
        violation(*st, "memory", msg + " at " + where(*st), {});
        throw Kill();
    }
    // Resolve [addr, addr+n) to one live object; the offset may stay symbolic.
    struct Loc { unsigned id; V off; };
    Loc resolve(const V &addr, u64 n, bool write) { return resolve_len(addr, mkc(64, n), write); }
    Loc resolve_len(const V &addr, const V &len, bool write) {
        u64 a0 = value_of(*st, addr);
        u64 id = (a0 >> OBJ_SHIFT) - 1;
        if (a0 < (1ull << OBJ_SHIFT)) mem_error("null or invalid pointer dereference");
        if (id >= st->mem.size()) mem_error("wild pointer dereference");
        ObjRef &o = st->mem[id];
        if (o.dead) mem_error("use of a dead stack object " + g_objname_of(id));
        u64 size = o.o->size;
        V off = mk_bin(SUB, addr, mkc(64, obj_base(id)));
        // in bounds: off <= size && len <= size - off
        Z3_ast ok = band(bule(off, mkc(64, size)), bule(len, mk_bin(SUB, mkc(64, size), off)));
        bool known, v = eval_true(*st, ok, known);
        if (!known) { Assign u; v = query(*st, ok, u) == SAT; if (v) assign_all(*st, u); }
        if (!v) mem_error(std::string(write ? "write" : "read") + " outside object " + g_objname_of(id) + " (size " +
                          std::to_string(size) + ", offset " + std::to_string((int64_t) value_of(*st, off)) + ", length " +
                          std::to_string(value_of(*st, len)) + ")");
        if (write && o.ro) mem_error("write to a constant object " + g_objname_of(id));
        if (ok != Btrue) require_or_fork(ok);
        return {(unsigned) id, off};
    }
    std::string g_objname_of(unsigned id) { return id < g_objname.size() ? g_objname[id] : "?"; }
    Obj &wobj(unsigned id) {
        auto &r = st->mem[id].o;
        if (r.use_count() > 1) r = std::make_shared<Obj>(*r);
        return *r;
    }
    // candidate offsets for a symbolic offset with n accessible bytes
    std::vector<u64> candidates(const V &off, u64 size, u64 n) {
        std::vector<u64> r;
        if (off.conc()) { r.push_back(off.c); return r; }
        u64 lo = 0, hi = size >= n ? size - n : 0;
        if (hi > 96) {
            Assign u;
            // shrink by binary search
            u64 v0 = value_of(*st, off);
            u64 a = v0, b = hi;
            while (a < b) {
                u64 mid = a + (b - a) / 2;
                Assign uu;
                Z3_ast q = bult(mkc(64, mid), off);
                if (query(*st, q, uu) == SAT) a = mid + 1; else b = mid;
            }
            hi = a;
            a = 0; b = v0;
            while (a < b) {
                u64 mid = a + (b - a) / 2;
                Assign uu;
                Z3_ast q = bule(off, mkc(64, mid));
                if (query(*st, q, uu) == SAT) b = mid; else a = mid + 1;
            }
            lo = a;
        }
        // stride from a constant remainder
        unsigned t = 0;
        u64 rem = 0;
        if (off.a && dkind(off.a) == Z3_OP_BADD && nargs(off.a) == 2) {
            V l = mks(arg(off.a, 0)), q = mks(arg(off.a, 1));
            if (l.conc()) std::swap(l, q);
            if (q.conc()) { t = tz_of(l); if (t > 12) t = 12; rem = q.c & maskw(t ? t : 1); if (!t) rem = 0; }
        } else { t = tz_of(off); if (t > 12) t = 12; }
        u64 stride = 1ull << t;
        for (u64 x = lo; x <= hi; x++)
            if (stride == 1 || (x & (stride - 1)) == (rem & (stride - 1))) r.push_back(x);
        return r;
    }
    V load_bytes(const V &addr, u64 n) {
        Loc l = resolve(addr, n, false);
        const Obj &o = *st->mem[l.id].o;
        if (l.off.conc()) {
            if (o.s.empty() && n <= 8) {
                u64 c = 0;
                for (u64 i = 0; i < n; i++) c |= (u64) o.c[l.off.c + i] << (8 * i);
                return mkc(8 * n, c);
            }
            V v = o.byte(l.off.c);
            for (u64 i = 1; i < n; i++) v = mk_concat(o.byte(l.off.c + i), v);
            return v;
        }
        auto cand = candidates(l.off, o.size, n);
        V r;
        bool first = true;
        for (auto it = cand.rbegin(); it != cand.rend(); ++it) {
            V v = o.byte(*it);
            for (u64 i = 1; i < n; i++) v = mk_concat(o.byte(*it + i), v);
            if (first) { r = v; first = false; }
            else r = mk_ite_bool(beq(l.off, mkc(64, *it)), v, r);
        }
        return r;
    }
    void store_bytes(const V &addr, const V &val, u64 n) {
        Loc l = resolve(addr, n, true);
        Obj &o = wobj(l.id);
        if (l.off.conc()) {
            for (u64 i = 0; i < n; i++) o.set(l.off.c + i, mk_extract(val, 8 * i + 7, 8 * i));
            return;
        }
        for (u64 x : candidates(l.off, o.size, n)) {
            Z3_ast c = beq(l.off, mkc(64, x));
            for (u64 i = 0; i < n; i++) o.set(x + i, mk_ite_bool(c, mk_extract(val, 8 * i + 7, 8 * i), o.byte(x + i)));
        }
    }
    u64 max_len(const V &len, u64 cap) {
        if (len.conc()) return len.c;
        u64 m = std::min(umax_of(len), cap);
        if (m <= 40) return m;
        u64 a = value_of(*st, len), b = m;
        while (a < b) {
            u64 mid = a + (b - a) / 2;
            Assign u;
            if (query(*st, bult(mkc(64, mid), len), u) == SAT) a = mid + 1; else b = mid;
        }
        return a;
    }
    // bytes [0, maxn) at a location, unchecked beyond the object's end
    std::vector<V> read_vec(const Loc &l, u64 maxn) {
        const Obj &o = *st->mem[l.id].o;
        std::vector<V> r;
        if (l.off.conc()) {
            for (u64 i = 0; i < maxn; i++) r.push_back(l.off.c + i < o.size ? o.byte(l.off.c + i) : mkc(8, 0));
            return r;
        }
        auto cand = candidates(l.off, o.size, 0);
        std::vector<Z3_ast> eqs;
        for (u64 x : cand) eqs.push_back(beq(l.off, mkc(64, x)));
        for (u64 i = 0; i < maxn; i++) {
            V v = mkc(8, 0);
            bool first = true;
            for (size_t k = cand.size(); k-- > 0;) {
                if (cand[k] + i >= o.size) continue;
                V b = o.byte(cand[k] + i);
                if (first) { v = b; first = false; }
                else v = mk_ite_bool(eqs[k], b, v);
            }
            r.push_back(v);
        }
        return r;
    }
    void write_vec(const Loc &l, const std::vector<V> &v, const V &len) {
        Obj &o = wobj(l.id);
        auto cand = candidates(l.off, o.size, len.conc() ? len.c : 0);
        std::vector<Z3_ast> inl;
        for (u64 i = 0; i < v.size(); i++) inl.push_back(bult(mkc(64, i), len));
        if (cand.size() == 1 && l.off.conc()) {
            for (u64 i = 0; i < v.size(); i++) {
                u64 p = cand[0] + i;
                if (p < o.size) o.set(p, mk_ite_bool(inl[i], v[i], o.byte(p)));
            }
            return;
        }
        for (u64 x : cand) {
            Z3_ast e = beq(l.off, mkc(64, x));
            for (u64 i = 0; i < v.size(); i++) {
                u64 p = x + i;
                if (p < o.size) o.set(p, mk_ite_bool(band(e, inl[i]), v[i], o.byte(p)));
            }
        }
    }
    void mem_copy(const V &dst, const V &src, V len) {
        if (len.w < 64) len = mk_zext(len, 64);
        if (len.conc() && len.c == 0) return;
        if (!len.conc()) {
            // a zero length touches nothing, whatever the pointers
            bool known, z = eval_true(*st, beq(len, mkc(64, 0)), known);
            u64 s0 = value_of(*st, src), d0 = value_of(*st, dst);
            bool bad = s0 < (1ull << OBJ_SHIFT) || d0 < (1ull << OBJ_SHIFT);
            if (known && z && bad) { require_or_fork(beq(len, mkc(64, 0))); return; }
        }
        Loc ls = resolve_len(src, len, false), ld = resolve_len(dst, len, true);
        u64 cap = std::min(st->mem[ls.id].o->size, st->mem[ld.id].o->size);
        u64 n = max_len(len, cap);
        auto v = read_vec(ls, n);
        write_vec(ld, v, len);
    }
    void mem_set(const V &dst, const V &byte, V len) {
        if (len.w < 64) len = mk_zext(len, 64);
        if (len.conc() && len.c == 0) return;
        Loc ld = resolve_len(dst, len, true);
        u64 n = max_len(len, st->mem[ld.id].o->size);
        std::vector<V> v(n, mk_extract(byte, 7, 0));
        write_vec(ld, v, len);
    }
    V mem_cmp(const V &p, const V &q, V len, bool eq_only) {
        if (len.w < 64) len = mk_zext(len, 64);
        if (len.conc() && len.c == 0) return mkc(32, 0);
        Loc a = resolve_len(p, len, false), b = resolve_len(q, len, false);
        u64 n = max_len(len, std::min(st->mem[a.id].o->size, st->mem[b.id].o->size));
        auto va = read_vec(a, n), vb = read_vec(b, n);
        if (eq_only) {
            Z3_ast all = Btrue;
            for (u64 i = 0; i < n; i++) all = band(all, bor(bnot(bult(mkc(64, i), len)), beq(va[i], vb[i])));
            return mk_ite_bool(all, mkc(32, 0), mkc(32, 1));
        }
        V r = mkc(32, 0);
        for (u64 i = n; i-- > 0;) {
            Z3_ast in = bult(mkc(64, i), len), e = beq(va[i], vb[i]);
            V d = mk_ite_bool(bult(va[i], vb[i]), mkc(32, ~0ull), mkc(32, 1));
            r = mk_ite_bool(band(in, bnot(e)), d, r);
        }
        return r;
    }
    // ---------------------------------------------------------------- constants and operands
    V constant(const Constant *c) {
        Type *t = c->getType();
        if (auto *ci = dyn_cast<ConstantInt>(c)) {
            unsigned w = ci->getBitWidth();
            if (w <= 64) return mkc(w, ci->getZExtValue());
            SmallString<64> s;
            ci->getValue().toStringUnsigned(s);
            return mks(Z3_mk_numeral(Z, s.c_str(), bvsort(w)));
        }
        if (isa<ConstantPointerNull>(c)) return mkc(64, 0);
        if (auto *g = dyn_cast<GlobalValue>(c)) {
            auto it = g_addr.find(g);
            if (it == g_addr.end()) throw std::string("unknown global " + g->getName().str());
            return mkc(64, it->second);
        }
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
            if (t->isStructTy() || t->isArrayTy()) {
                V r;
                r.agg = new std::vector<V>();
                unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
                for (unsigned i = 0; i < n; i++) r.agg->push_back(constant(c->getAggregateElement(i)));
                return r;
            }
            unsigned w = DL->getTypeSizeInBits(t);
            if (w <= 64) return mkc(w, 0);
            return mks(Z3_mk_numeral(Z, "0", bvsort(w)));
        }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
                case Instruction::GetElementPtr: {
                    auto *g = cast<GEPOperator>(ce);
                    APInt off(64, 0);
                    if (!g->accumulateConstantOffset(*DL, off)) throw std::string("non-constant constant GEP");
                    return mk_bin(ADD, constant(cast<Constant>(g->getPointerOperand())), mkc(64, off.getSExtValue()));
                }
                case Instruction::IntToPtr:
                case Instruction::PtrToInt:
                case Instruction::BitCast: {
                    V v = constant(ce->getOperand(0));
                    unsigned w = DL->getTypeSizeInBits(t);
                    return w < v.w ? mk_extract(v, w - 1, 0) : mk_zext(v, w);
                }
                case Instruction::Sub: return mk_bin(SUB, constant(ce->getOperand(0)), constant(ce->getOperand(1)));
                case Instruction::Add: return mk_bin(ADD, constant(ce->getOperand(0)), constant(ce->getOperand(1)));
                case Instruction::Trunc: {
                    V v = constant(ce->getOperand(0));
                    return mk_extract(v, DL->getTypeSizeInBits(t) - 1, 0);
                }
                case Instruction::ICmp: {
                    V x = constant(ce->getOperand(0)), y = constant(ce->getOperand(1));
                    bool e = x.c == y.c;
                    if (ce->getPredicate() == CmpInst::ICMP_EQ) return mkc(1, e);
                    if (ce->getPredicate() == CmpInst::ICMP_NE) return mkc(1, !e);
                    break;
                }
                default: break;
            }
            throw std::string("unsupported constant expression");
        }
        if (t->isStructTy() || t->isArrayTy()) {
            V r;
            r.agg = new std::vector<V>();
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            for (unsigned i = 0; i < n; i++) r.agg->push_back(constant(c->getAggregateElement(i)));
            return r;
        }
        throw std::string("unsupported constant");
    }
    V get(const Value *v) {
        if (auto *c = dyn_cast<Constant>(v)) return constant(c);
        auto &f = fr();
        auto it = f.fi->slot.find(v);
        if (it == f.fi->slot.end()) throw std::string("operand without a slot");
        return f.regs[it->second];
    }
    void set(const Value *v, const V &x) { fr().regs[fr().fi->slot[v]] = x; }
    unsigned width(Type *t) {
        if (t->isPointerTy()) return 64;
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        throw std::string("unsupported type");
    }
    unsigned new_object(u64 size, const std::string &name, uint8_t fill) {
        unsigned id = st->mem.size();
        ObjRef r;
        r.o = std::make_shared<Obj>();
        r.o->size = size;
        r.o->c.assign(size, fill);
        st->mem.push_back(r);
        if (g_objname.size() <= id) g_objname.resize(id + 1);
        g_objname[id] = name;
        return id;
    }
    V load_typed(Type *t, const V &addr) {
        if (t->isStructTy() || t->isArrayTy()) {
            V r;
            r.agg = new std::vector<V>();
            if (auto *s = dyn_cast<StructType>(t)) {
                auto *sl = DL->getStructLayout(s);
                for (unsigned i = 0; i < s->getNumElements(); i++)
                    r.agg->push_back(load_typed(s->getElementType(i), mk_bin(ADD, addr, mkc(64, sl->getElementOffset(i)))));
            } else {
                Type *e = t->getArrayElementType();
                u64 es = DL->getTypeAllocSize(e);
                for (unsigned i = 0; i < t->getArrayNumElements(); i++)
                    r.agg->push_back(load_typed(e, mk_bin(ADD, addr, mkc(64, es * i))));
            }
            return r;
        }
        unsigned w = width(t);
        V v = load_bytes(addr, (w + 7) / 8);
        return v.w == w ? v : mk_extract(v, w - 1, 0);
    }
    void store_typed(Type *t, const V &v, const V &addr) {
        if (t->isStructTy() || t->isArrayTy()) {
            if (auto *s = dyn_cast<StructType>(t)) {
                auto *sl = DL->getStructLayout(s);
                for (unsigned i = 0; i < s->getNumElements(); i++)
                    store_typed(s->getElementType(i), (*v.agg)[i], mk_bin(ADD, addr, mkc(64, sl->getElementOffset(i))));
            } else {
                Type *e = t->getArrayElementType();
                u64 es = DL->getTypeAllocSize(e);
                for (unsigned i = 0; i < t->getArrayNumElements(); i++)
                    store_typed(e, (*v.agg)[i], mk_bin(ADD, addr, mkc(64, es * i)));
            }
            return;
        }
        unsigned w = width(t), n = (w + 7) / 8;
        store_bytes(addr, mk_zext(v, 8 * n), n);
    }
    void enter(BasicBlock *to) {
        Frame &f = fr();
        if (++f.visits[to] > O_max_visits) {
            S->bounded++;
            emit("{\"kind\":\"bound\",\"at\":\"" + jesc(where(*st)) + "\"}");
            throw Kill();
        }
        f.prev = f.bb;
        f.bb = to;
        f.pc = to->begin();
        // phis, simultaneously
        std::vector<std::pair<PHINode *, V>> ph;
        while (auto *p = dyn_cast<PHINode>(&*f.pc)) {
            ph.push_back({p, get(p->getIncomingValueForBlock(f.prev))});
            ++f.pc;
        }
        for (auto &x : ph) set(x.first, x.second);
    }
    std::string cstr(const V &p) {
        std::string r;
        if (!p.conc()) return cstr(mkc(64, concretize(p)));
        for (u64 i = 0; i < 200; i++) {
            V b = load_bytes(mkc(64, p.c + i), 1);
            if (!b.conc() || b.c == 0) break;
            r += (char) b.c;
        }
        return r;
    }
    V fresh(unsigned w) {
        unsigned v = var_index(st->inputs.size(), w);
        st->inputs.push_back(v);
        return mks(g_vars[v].a);
    }
    // Secret bytes of an object, outside [a, b).
    u64 secret_bytes_in(const Obj &o, u64 a, u64 b) {
        u64 n = 0;
        if (o.s.empty()) return 0;
        for (u64 i = 0; i < o.size; i++)
            if ((i < a || i >= b) && o.s[i] && st->secrets.count(o.s[i])) n++;
        return n;
    }
    void ret(const V *v) {
        Frame &f = fr();
        static std::shared_ptr<Obj> gone = std::make_shared<Obj>();
        for (unsigned id : f.allocas) {
            if (!st->secrets.empty() && is_app(f.fi->f)) st->residue += secret_bytes_in(*st->mem[id].o, 0, 0);
            gone->size = ~0ull >> 1;
            st->mem[id].dead = true;
            st->mem[id].o = gone;
        }
        st->stack.pop_back();
        if (st->stack.empty()) throw Done();
        Frame &c = fr();
        Instruction *ci = &*c.pc;
        if (v && !ci->getType()->isVoidTy()) set(ci, *v);
        ++c.pc;
    }
    static size_t g_static_objs;
    void do_assert(const V &c, const V &msgp) {
        std::string msg = cstr(msgp);
        Z3_ast b = bnot(beq(c, mkc(c.w, 0)));
        S->asserts++;
        g_assert_counts[msg]++;
        if (b == Btrue) return;
        bool known, v = eval_true(*st, b, known);
        if (known && !v) {
            violation(*st, "assertion", msg, {});
        } else {
            Assign u;
            if (query(*st, bnot(b), u) == SAT) violation(*st, "assertion", msg, u);
        }
        Assign ut;
        if (known && v) constrain(*st, b, {});
        else if (query(*st, b, ut) == SAT) constrain(*st, b, ut);
        else throw Kill();
    }
    // ---------------------------------------------------------------- calls
    bool builtin(CallBase *cb, Function *f) {  // true: handled, advance
        StringRef n = f->getName();
        auto A = [&](unsigned i) { return get(cb->getArgOperand(i)); };
        if (f->isIntrinsic()) {
            switch (f->getIntrinsicID()) {
                case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
                case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::var_annotation:
                    return true;
                case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
                    mem_copy(A(0), A(1), A(2));
                    return true;
                case Intrinsic::memset: case Intrinsic::memset_inline:
                    mem_set(A(0), A(1), A(2));
                    return true;
                case Intrinsic::umin: { V x = A(0), y = A(1); set(cb, mk_ite_bool(bult(x, y), x, y)); return true; }
                case Intrinsic::umax: { V x = A(0), y = A(1); set(cb, mk_ite_bool(bult(x, y), y, x)); return true; }
                case Intrinsic::smin: { V x = A(0), y = A(1); set(cb, mk_ite_bool(bslt(x, y), x, y)); return true; }
                case Intrinsic::smax: { V x = A(0), y = A(1); set(cb, mk_ite_bool(bslt(x, y), y, x)); return true; }
                case Intrinsic::abs: { V x = A(0); set(cb, mk_ite_bool(bslt(x, mkc(x.w, 0)), mk_bin(SUB, mkc(x.w, 0), x), x)); return true; }
                case Intrinsic::usub_sat: { V x = A(0), y = A(1); set(cb, mk_ite_bool(bult(x, y), mkc(x.w, 0), mk_bin(SUB, x, y))); return true; }
                case Intrinsic::uadd_sat: { V x = A(0), y = A(1), s = mk_bin(ADD, x, y); set(cb, mk_ite_bool(bult(s, x), mkc(x.w, ~0ull), s)); return true; }
                case Intrinsic::bswap: {
                    V x = A(0), r = mk_extract(x, 7, 0);
                    for (unsigned i = 8; i < x.w; i += 8) r = mk_concat(r, mk_extract(x, i + 7, i));
                    set(cb, r);
                    return true;
                }
                case Intrinsic::fshl: case Intrinsic::fshr: {
                    V x = A(0), y = A(1), z = A(2);
                    unsigned w = x.w;
                    V s = mk_bin(UREM, z, mkc(w, w));
                    V cat = mk_concat(x, y);
                    V s2 = mk_zext(s, 2 * w);
                    bool l = f->getIntrinsicID() == Intrinsic::fshl;
                    V sh = mks(l ? Z3_mk_bvshl(Z, ast(cat), ast(s2)) : Z3_mk_bvlshr(Z, ast(cat), ast(s2)));
                    sh = mks(Z3_simplify(Z, ast(sh)));
                    set(cb, l ? mk_extract(sh, 2 * w - 1, w) : mk_extract(sh, w - 1, 0));
                    return true;
                }
                case Intrinsic::ctpop: {
                    V x = A(0), r = mkc(x.w, 0);
                    for (unsigned i = 0; i < x.w; i++) r = mk_bin(ADD, r, mk_zext(mk_extract(x, i, i), x.w));
                    set(cb, r);
                    return true;
                }
                case Intrinsic::ctlz: case Intrinsic::cttz: {
                    V x = A(0), r = mkc(x.w, x.w);
                    bool lead = f->getIntrinsicID() == Intrinsic::ctlz;
                    for (unsigned k = 0; k < x.w; k++) {
                        unsigned i = lead ? k : x.w - 1 - k;
                        r = mk_ite_bool(beq(mk_extract(x, i, i), mkc(1, 1)), mkc(x.w, lead ? x.w - 1 - i : i), r);
                    }
                    set(cb, r);
                    return true;
                }
                case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
                case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
                    V x = A(0), y = A(1), r;
                    Z3_ast ov;
                    V z = mkc(x.w, 0);
                    switch (f->getIntrinsicID()) {
                        case Intrinsic::uadd_with_overflow: r = mk_bin(ADD, x, y); ov = bult(r, x); break;
                        case Intrinsic::usub_with_overflow: r = mk_bin(SUB, x, y); ov = bult(x, y); break;
                        case Intrinsic::umul_with_overflow:
                            r = mk_bin(MUL, x, y);
                            if (x.conc() && y.conc()) ov = ((u128) x.c * y.c) >> x.w ? Btrue : Bfalse;
                            else ov = bnot(Z3_mk_bvmul_no_overflow(Z, ast(x), ast(y), false));
                            break;
                        case Intrinsic::sadd_with_overflow: {
                            r = mk_bin(ADD, x, y);
                            Z3_ast xn = bslt(x, z), yn = bslt(y, z), rn = bslt(r, z);
                            ov = bor(band(band(xn, yn), bnot(rn)), band(band(bnot(xn), bnot(yn)), rn));
                            break;
                        }
                        case Intrinsic::ssub_with_overflow: {
                            r = mk_bin(SUB, x, y);
                            Z3_ast xn = bslt(x, z), yn = bslt(y, z), rn = bslt(r, z);
                            ov = bor(band(band(xn, bnot(yn)), bnot(rn)), band(band(bnot(xn), yn), rn));
                            break;
                        }
                        default: {
                            r = mk_bin(MUL, x, y);
                            V xx = mk_sext(x, 2 * x.w), yy = mk_sext(y, 2 * x.w);
                            if (2 * x.w <= 64) ov = bnot(beq(mk_bin(MUL, xx, yy), mk_sext(r, 2 * x.w)));
                            else ov = bnot(Z3_mk_eq(Z, Z3_mk_bvmul(Z, ast(xx), ast(yy)), ast(mk_sext(r, 2 * x.w))));
                        }
                    }
                    V a;
                    a.agg = new std::vector<V>{r, from_bool(ov)};
                    set(cb, a);
                    return true;
                }
                case Intrinsic::expect: set(cb, A(0)); return true;
                case Intrinsic::is_constant: set(cb, mkc(1, 0)); return true;
                case Intrinsic::objectsize: set(cb, mkc(64, ~0ull)); return true;
                case Intrinsic::stacksave: set(cb, mkc(64, 0)); return true;
                case Intrinsic::stackrestore: return true;
                case Intrinsic::ubsantrap: case Intrinsic::trap:
                    violation(*st, "undefined", "undefined behaviour at " + where(*st), {});
                    throw Kill();
                default: throw std::string("unsupported intrinsic " + n.str());
            }
        }
        if (n == "in_u8" || n == "in_u16" || n == "in_u32" || n == "in_u64" || n == "in_bool") {
            unsigned w = n == "in_u8" ? 8 : n == "in_u16" ? 16 : n == "in_u32" ? 32 : n == "in_u64" ? 64 : 1;
            V v = fresh(w);
            set(cb, mk_zext(v, width(cb->getType()) < w ? w : width(cb->getType())));
            return true;
        }
        if (n == "in_bytes") {
            u64 cnt = concretize(A(1));
            V p = A(0);
            if (cnt == 0) return true;
            Loc l = resolve(p, cnt, true);
            std::vector<V> v;
            for (u64 i = 0; i < cnt; i++) v.push_back(fresh(8));
            write_vec(l, v, mkc(64, cnt));
            return true;
        }
        if (n == "v_assert") { do_assert(A(0), A(1)); return true; }
        if (n == "v_assume") {
            V c = A(0);
            Z3_ast b = bnot(beq(c, mkc(c.w, 0)));
            bool known, v = eval_true(*st, b, known);
            if (known && v) { constrain(*st, b, {}); return true; }
            Assign u;
            if (query(*st, b, u) != SAT) { S->killed++; throw Kill(); }
            constrain(*st, b, u);
            return true;
        }
        if (n == "v_reach") {
            std::string m = cstr(A(0));
            st->labels.push_back(m);
            g_reached.insert(m);
            return true;
        }
        if (n == "v_end") throw Done();
        if (n == "v_observe") { st->obs.push_back(A(0)); return true; }
        if (n == "v_concrete") { set(cb, mkc(cb->getType()->getIntegerBitWidth(), concretize(A(0)))); return true; }
        if (n == "v_choose") {  // value in [0, n): one path per value
            V v = fresh(32);
            u64 lim = concretize(A(0));
            Z3_ast b = bult(v, mkc(32, lim));
            Assign u;
            if (query(*st, b, u) != SAT) throw Kill();
            constrain(*st, b, u);
            set(cb, v);
            // concretise by forking on the next use
            return true;
        }
        if (n == "v_pick") {  // v_pick(ptr, len, index, other): index < len ? ptr[index] : other, without forking
            V p = A(0), len = A(1), idx = A(2), other = A(3);
            if (len.conc() && len.c == 0) { set(cb, other); return true; }
            if (!len.conc() && (!p.conc() || p.c < (1ull << OBJ_SHIFT))) {
                bool none = value_of(*st, len) == 0;
                Z3_ast e = beq(len, mkc(64, 0));
                require_or_fork(none ? e : bnot(e));
                if (none) { set(cb, other); return true; }
            }
            Z3_ast in = bult(idx, len);
            if (in == Bfalse) { set(cb, other); return true; }
            Loc l = resolve_len(p, len, false);
            u64 m = max_len(len, st->mem[l.id].o->size);
            auto v = read_vec(l, m);
            if (m == 0) { set(cb, other); return true; }
            if (len.conc()) {
                // one choice per byte, on the part of the index that is not constant: the same bytes give the same term
                // however they were cut into pieces
                u64 off = 0;
                V base = idx;
                while (!base.conc() && base.w == 64 && (dkind(base.a) == Z3_OP_BADD || dkind(base.a) == Z3_OP_BSUB) && nargs(base.a) == 2) {
                    Z3_ast p0 = arg(base.a, 0), p1 = arg(base.a, 1);
                    bool sub = dkind(base.a) == Z3_OP_BSUB;
                    if (is_num(p1)) off += sub ? -mks(p1).c : mks(p1).c, base = mks(p0);
                    else if (is_num(p0) && !sub) off += mks(p0).c, base = mks(p1);
                    else break;
                }
                V r = other;
                for (u64 i = 0; i < m; i++) r = mk_ite_bool(beq(base, mkc(64, i - off)), v[i], r);
                set(cb, r);
                return true;
            }
            V r = v[m - 1];
            for (u64 i = m - 1; i-- > 0;) r = mk_ite_bool(beq(idx, mkc(64, i)), v[i], r);
            set(cb, mk_ite_bool(in, r, other));
            return true;
        }
        if (n == "v_select") {  // v_select(c, a, b) without forking
            set(cb, mk_ite_bool(bnot(beq(A(0), mkc(A(0).w, 0))), A(1), A(2)));
            return true;
        }
        if (n == "v_check_r" || n == "v_check_w") {
            V p = A(0), len = A(1);
            if (len.conc() && len.c == 0) return true;
            if (!len.conc() && (!p.conc() || p.c < (1ull << OBJ_SHIFT))) {
                bool none = value_of(*st, len) == 0;
                Z3_ast e = beq(len, mkc(64, 0));
                require_or_fork(none ? e : bnot(e));
                if (none) return true;
            }
            resolve_len(p, len, n == "v_check_w");
            return true;
        }
        if (n == "v_secret") {  // v_secret(p, n): these bytes are secret, wherever they are
            u64 len = concretize(A(1));
            for (u64 i = 0; i < len; i++) {
                V b = load_bytes(mk_bin(ADD, A(0), mkc(64, i)), 1);
                if (!b.conc()) st->secrets.insert(b.a);
            }
            return true;
        }
        if (n == "v_secret_scan") {  // secret bytes left in the application's memory, outside [a, a+an) and [b, b+bn)
            u64 r = st->residue;
            if (!st->secrets.empty()) {
                u64 ra[2] = {concretize(A(0)), concretize(A(2))}, rn[2] = {concretize(A(1)), concretize(A(3))};
                std::map<u64, bool> ids;
                for (unsigned id : g_app_globals) ids[id] = true;
                for (auto &fm : st->stack)
                    if (is_app(fm.fi->f))
                        for (unsigned id : fm.allocas) ids[id] = true;
                for (auto &kv : ids) {
                    const Obj &o = *st->mem[kv.first].o;
                    if (st->mem[kv.first].dead || o.s.empty()) continue;
                    u64 base = obj_base(kv.first);
                    for (u64 i = 0; i < o.size; i++) {
                        bool out = true;
                        for (int k = 0; k < 2; k++) out &= ra[k] == 0 || base + i < ra[k] || base + i >= ra[k] + rn[k];
                        if (out && o.s[i] && st->secrets.count(o.s[i])) r++;
                    }
                }
            }
            set(cb, mkc(cb->getType()->getIntegerBitWidth(), r));
            return true;
        }
        if (n == "v_object_base") {  // start address of the object p points into
            V p = A(0);
            Loc l = resolve(p, 0, false);
            set(cb, mkc(64, obj_base(l.id)));
            return true;
        }
        if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk") {
            mem_copy(A(0), A(1), A(2));
            set(cb, A(0));
            return true;
        }
        if (n == "memset" || n == "__memset_chk") {
            mem_set(A(0), A(1), A(2));
            set(cb, A(0));
            return true;
        }
        if (n == "memcmp" || n == "bcmp") {
            set(cb, mem_cmp(A(0), A(1), A(2), n == "bcmp"));
            return true;
        }
        if (n == "strlen") {
            V p = A(0);
            u64 i = 0;
            for (;; i++) {
                V b = load_bytes(mk_bin(ADD, p, mkc(64, i)), 1);
                if (b.conc()) { if (b.c == 0) break; else continue; }
                if (branch(beq(b, mkc(8, 0)))) break;
            }
            set(cb, mkc(64, i));
            return true;
        }
        if (n == "app_snprintf") {
            // forwarded to the model: model_snprintf(out, len, fmt, a0, a1, a2, a3)
            Function *m = M->getFunction("model_snprintf");
            if (!m || m->isDeclaration()) throw std::string("model_snprintf is missing");
            std::vector<V> args;
            for (unsigned i = 0; i < 7; i++) {
                if (i < cb->arg_size()) args.push_back(mk_zext(A(i), 64));
                else args.push_back(mkc(64, 0));
            }
            call(m, args, {});
            return false;
        }
        if (n == "abort" || n == "exit" || n == "__assert_fail") {
            violation(*st, "assertion", n.str() + " called at " + where(*st), {});
            throw Kill();
        }
        throw std::string("call of unknown external function " + n.str());
    }
    void call(Function *f, const std::vector<V> &args, const std::vector<V> &varargs) {
        g_covered.insert(f);
        if (st->stack.size() > 200) throw std::string("call depth");
        Frame n;
        n.fi = finfo(f);
        n.regs.resize(n.fi->nslots);
        unsigned i = 0;
        for (auto &a : f->args()) n.regs[n.fi->slot[&a]] = args[i++];
        n.varargs = varargs;
        n.bb = &f->getEntryBlock();
        n.prev = nullptr;
        n.pc = n.bb->begin();
        st->stack.push_back(std::move(n));
    }
    // Executes one instruction of st.
    void step() {
        Frame &f = fr();
        Instruction *in = &*f.pc;
        st->steps++;
        if (want_where) {
            want_where = 0;
            fprintf(stderr, "at %s, %llu steps\n", where(*st).c_str(), (unsigned long long) st->steps);
        }
        switch (in->getOpcode()) {
            case Instruction::Alloca: {
                auto *ai = cast<AllocaInst>(in);
                u64 n = concretize(get(ai->getArraySize()));
                unsigned id = new_object(DL->getTypeAllocSize(ai->getAllocatedType()) * n,
                                         f.fi->f->getName().str() + "." + (ai->hasName() ? ai->getName().str() : "local"), 0xAA);
                fr().allocas.push_back(id);
                set(in, mkc(64, obj_base(id)));
                break;
            }
            case Instruction::Load: set(in, load_typed(in->getType(), get(in->getOperand(0)))); break;
            case Instruction::Store: store_typed(in->getOperand(0)->getType(), get(in->getOperand(0)), get(in->getOperand(1))); break;
            case Instruction::GetElementPtr: {
                auto *g = cast<GetElementPtrInst>(in);
                V p = get(g->getPointerOperand());
                for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
                    if (StructType *s = ti.getStructTypeOrNull()) {
                        unsigned k = cast<ConstantInt>(ti.getOperand())->getZExtValue();
                        p = mk_bin(ADD, p, mkc(64, DL->getStructLayout(s)->getElementOffset(k)));
                    } else {
                        V idx = get(ti.getOperand());
                        idx = idx.w < 64 ? mk_sext(idx, 64) : idx;
                        u64 es = DL->getTypeAllocSize(ti.getIndexedType());
                        p = mk_bin(ADD, p, mk_bin(MUL, idx, mkc(64, es)));
                    }
                }
                set(in, p);
                break;
            }
            case Instruction::Add: set(in, mk_bin(ADD, get(in->getOperand(0)), get(in->getOperand(1)))); break;
            case Instruction::Sub: set(in, mk_bin(SUB, get(in->getOperand(0)), get(in->getOperand(1)))); break;
            case Instruction::Mul: set(in, mk_bin(MUL, get(in->getOperand(0)), get(in->getOperand(1)))); break;
            case Instruction::And: set(in, mk_bin(AND, get(in->getOperand(0)), get(in->getOperand(1)))); break;
            case Instruction::Or: set(in, mk_bin(OR, get(in->getOperand(0)), get(in->getOperand(1)))); break;
            case Instruction::Xor: set(in, mk_bin(XOR, get(in->getOperand(0)), get(in->getOperand(1)))); break;
            case Instruction::Shl: set(in, mk_bin(SHL, get(in->getOperand(0)), get(in->getOperand(1)))); break;
            case Instruction::LShr: set(in, mk_bin(LSHR, get(in->getOperand(0)), get(in->getOperand(1)))); break;
            case Instruction::AShr: set(in, mk_bin(ASHR, get(in->getOperand(0)), get(in->getOperand(1)))); break;
            case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
                V d = get(in->getOperand(1));
                if (!branch(bnot(beq(d, mkc(d.w, 0))))) {
                    violation(*st, "undefined", "division by zero at " + where(*st), {});
                    throw Kill();
                }
                BinOp o = in->getOpcode() == Instruction::UDiv ? UDIV : in->getOpcode() == Instruction::SDiv ? SDIV
                        : in->getOpcode() == Instruction::URem ? UREM : SREM;
                set(in, mk_bin(o, get(in->getOperand(0)), d));
                break;
            }
            case Instruction::ICmp: {
                auto *c = cast<ICmpInst>(in);
                V x = get(c->getOperand(0)), y = get(c->getOperand(1));
                Z3_ast b = Bfalse;
                switch (c->getPredicate()) {
                    case CmpInst::ICMP_EQ: b = beq(x, y); break;
                    case CmpInst::ICMP_NE: b = bnot(beq(x, y)); break;
                    case CmpInst::ICMP_ULT: b = bult(x, y); break;
                    case CmpInst::ICMP_ULE: b = bule(x, y); break;
                    case CmpInst::ICMP_UGT: b = bult(y, x); break;
                    case CmpInst::ICMP_UGE: b = bule(y, x); break;
                    case CmpInst::ICMP_SLT: b = bslt(x, y); break;
                    case CmpInst::ICMP_SLE: b = bnot(bslt(y, x)); break;
                    case CmpInst::ICMP_SGT: b = bslt(y, x); break;
                    case CmpInst::ICMP_SGE: b = bnot(bslt(x, y)); break;
                    default: throw std::string("icmp");
                }
                set(in, from_bool(b));
                break;
            }
            case Instruction::Trunc: set(in, mk_extract(get(in->getOperand(0)), width(in->getType()) - 1, 0)); break;
            case Instruction::ZExt: set(in, mk_zext(get(in->getOperand(0)), width(in->getType()))); break;
            case Instruction::SExt: set(in, mk_sext(get(in->getOperand(0)), width(in->getType()))); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: {
                V v = get(in->getOperand(0));
                if (v.agg) { set(in, v); break; }
                unsigned w = width(in->getType());
                set(in, w < v.w ? mk_extract(v, w - 1, 0) : mk_zext(v, w));
                break;
            }
            case Instruction::Select: {
                V c = get(in->getOperand(0));
                set(in, mk_ite_bool(to_bool(c), get(in->getOperand(1)), get(in->getOperand(2))));
                break;
            }
            case Instruction::ExtractValue: {
                auto *e = cast<ExtractValueInst>(in);
                V v = get(e->getAggregateOperand());
                for (unsigned i : e->indices()) { V t = (*v.agg)[i]; v = t; }
                set(in, v);
                break;
            }
            case Instruction::InsertValue: {
                auto *e = cast<InsertValueInst>(in);
                V v = get(e->getAggregateOperand());
                if (e->getNumIndices() != 1) throw std::string("nested insertvalue");
                V r;
                r.agg = new std::vector<V>(*v.agg);
                (*r.agg)[e->getIndices()[0]] = get(e->getInsertedValueOperand());
                set(in, r);
                break;
            }
            case Instruction::Br: {
                auto *b = cast<BranchInst>(in);
                if (b->isUnconditional()) { enter(b->getSuccessor(0)); return; }
                V c = get(b->getCondition());
                bool t = c.conc() ? c.c : branch(to_bool(c));
                enter(b->getSuccessor(t ? 0 : 1));
                return;
            }
            case Instruction::Switch: {
                auto *s = cast<SwitchInst>(in);
                V c = get(s->getCondition());
                if (c.conc()) {
                    BasicBlock *d = s->getDefaultDest();
                    for (auto &k : s->cases())
                        if (k.getCaseValue()->getZExtValue() == c.c) d = k.getCaseSuccessor();
                    enter(d);
                    return;
                }
                // successors grouped
                std::vector<std::pair<BasicBlock *, Z3_ast>> groups;
                Z3_ast any = Bfalse;
                for (auto &k : s->cases()) {
                    Z3_ast e = beq(c, mkc(c.w, k.getCaseValue()->getZExtValue()));
                    any = bor(any, e);
                    bool found = false;
                    for (auto &g : groups)
                        if (g.first == k.getCaseSuccessor()) { g.second = bor(g.second, e); found = true; }
                    if (!found) groups.push_back({k.getCaseSuccessor(), e});
                }
                for (auto &g : groups) {
                    if (branch(g.second)) { enter(g.first); return; }
                }
                enter(s->getDefaultDest());
                return;
            }
            case Instruction::Ret: {
                auto *r = cast<ReturnInst>(in);
                if (r->getReturnValue()) {
                    V v = get(r->getReturnValue());
                    ret(&v);
                } else ret(nullptr);
                return;
            }
            case Instruction::Unreachable:
                violation(*st, "undefined", "unreachable code reached at " + where(*st), {});
                throw Kill();
            case Instruction::Call: {
                auto *cb = cast<CallBase>(in);
                if (cb->isInlineAsm()) { if (!in->getType()->isVoidTy()) throw std::string("inline assembly"); break; }
                Function *callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                if (!callee) {
                    V p = get(cb->getCalledOperand());
                    u64 a = concretize(p);
                    if (a < FN_BASE || (a - FN_BASE) % 16 || (a - FN_BASE) / 16 >= g_fn.size()) {
                        violation(*st, "memory", "call through an invalid function pointer at " + where(*st), {});
                        throw Kill();
                    }
                    callee = g_fn[(a - FN_BASE) / 16];
                    if (callee->arg_size() != cb->arg_size()) {
                        violation(*st, "undefined", "call through a function pointer of a different type at " + where(*st), {});
                        throw Kill();
                    }
                }
                StringRef cn = callee->getName();
                if (callee->isDeclaration() || cn == "app_snprintf") {
                    if (!builtin(cb, callee)) return;
                    break;
                }
                std::vector<V> args, va;
                for (unsigned i = 0; i < cb->arg_size(); i++) {
                    V v = get(cb->getArgOperand(i));
                    // byval copies
                    if (cb->isByValArgument(i)) {
                        Type *bt = cb->getParamByValType(i);
                        u64 sz = DL->getTypeAllocSize(bt);
                        unsigned id = new_object(sz, "byval", 0);
                        fr().allocas.push_back(id);
                        V p = mkc(64, obj_base(id));
                        mem_copy(p, v, mkc(64, sz));
                        v = p;
                    }
                    (i < callee->arg_size() ? args : va).push_back(v);
                }
                call(callee, args, va);
                return;
            }
            default: throw std::string("unsupported instruction ") + in->getOpcodeName();
        }
        ++fr().pc;
    }
};
size_t Ex::g_static_objs = 0;

static void init_const(Ex &ex, Obj &o, u64 off, const Constant *c) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *s = dyn_cast<ConstantDataSequential>(c)) {
        u64 es = DL->getTypeAllocSize(s->getElementType());
        for (unsigned i = 0; i < s->getNumElements(); i++) init_const(ex, o, off + i * es, s->getElementAsConstant(i));
        return;
    }
    if (auto *s = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL->getStructLayout(s->getType());
        for (unsigned i = 0; i < s->getNumOperands(); i++) init_const(ex, o, off + sl->getElementOffset(i), s->getOperand(i));
        return;
    }
    if (auto *s = dyn_cast<ConstantArray>(c)) {
        u64 es = DL->getTypeAllocSize(s->getType()->getElementType());
        for (unsigned i = 0; i < s->getNumOperands(); i++) init_const(ex, o, off + i * es, s->getOperand(i));
        return;
    }
    V v = ex.constant(c);
    u64 n = DL->getTypeStoreSize(t);
    v = mk_zext(v, 8 * n);
    for (u64 i = 0; i < n; i++) o.set(off + i, mk_extract(v, 8 * i + 7, 8 * i));
}

static void finish() {
    std::string cov, re, as;
    for (auto *f : g_covered) {
        std::string file = "";
        if (auto *sp = f->getSubprogram()) file = (sp->getDirectory() + "/" + sp->getFilename()).str();
        if (auto *sp = f->getSubprogram()) if (sp->getFilename().starts_with("/")) file = sp->getFilename().str();
        cov += std::string(cov.empty() ? "" : ",") + "\"" + jesc(f->getName().str() + "@" + file) + "\"";
    }
    for (auto &r : g_reached) re += std::string(re.empty() ? "" : ",") + "\"" + jesc(r) + "\"";
    for (auto &a : g_assert_counts) as += std::string(as.empty() ? "" : ",") + "\"" + jesc(a.first) + "\":" + std::to_string(a.second);
    emit("{\"kind\":\"worker\",\"functions\":[" + cov + "],\"reached\":[" + re + "],\"asserts\":{" + as + "}}");
}

static bool g_child;
static bool g_slot = true;   // this process counts as one of the active ones
// Hands the oldest queued state to a new process.  True in the child (its work list is that state).
static bool share_work() {
    if (g_work.empty() || g_active->load() >= O_workers) return false;
    int r = try_spawn();
    if (r == 1) g_work.erase(g_work.begin());
    if (r == 2) {
        g_child = g_slot = true;
        std::unique_ptr<State> mine = std::move(g_work.front());
        g_work.clear();
        g_work.push_back(std::move(mine));
        g_covered.clear();
        g_reached.clear();
        g_assert_counts.clear();
        return true;
    }
    return false;
}
static u64 O_growth = 400ull << 20;
// Expressions are never freed.  A process that has grown leaves what is left to short-lived children, one after another.
// True in a child.
static bool recycle() {
    static unsigned n;
    if ((++n & 31) != 0 || resident() < g_base + O_growth) return false;
    while (!g_work.empty() && !S->stop) {
        pid_t p = fork();
        if (p < 0) return false;
        if (p == 0) {
            g_base = resident();
            g_slot = false;
            g_child = true;
            std::unique_ptr<State> mine = std::move(g_work.back());
            g_work.clear();
            g_work.push_back(std::move(mine));
            g_covered.clear();
            g_reached.clear();
            g_assert_counts.clear();
            return true;
        }
        g_work.pop_back();
        int st = 0;
        if (waitpid(p, &st, 0) != p || st != 0) engine_error("a worker failed");
    }
    return false;
}
static void run_worker() {
    while (!g_work.empty() && !S->stop) {
        recycle();
        if (g_work.empty()) break;
        std::unique_ptr<State> s = std::move(g_work.back());
        g_work.pop_back();
        Ex ex;
        ex.st = s.get();
        u64 tick = 0;
        try {
            for (;;) {
                ex.step();
                tick++;
                if ((tick & 1023) == 0) {
                    if (S->stop) break;
                    if (g_child && (tick & 65535) == 0 && kill(g_main, 0) != 0) _exit(9);
                    if (now() - T_start > O_timeout) {
                        int z = 0;
                        S->stop.compare_exchange_strong(z, 2);
                        break;
                    }
                }
                if (share_work()) throw Retry();
            }
        } catch (Kill &) {
        } catch (Retry &) {
        } catch (Done &) {
            path_done(*s);
        } catch (std::string &e) {
            engine_error(e + " in " + backtrace_of(*s));
        }
        S->instr += tick;
    }
    finish();
}

int main(int argc, char **argv) {
    signal(SIGUSR1, [](int) { want_where = 1; });
    std::string bc, entry = "harness", slots;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "-o") O_out = nx();
        else if (a == "-j") O_workers = atoi(nx().c_str());
        else if (a == "-t") O_timeout = atof(nx().c_str());
        else if (a == "-q") O_query_ms = atoi(nx().c_str());
        else if (a == "-u") O_max_visits = atoll(nx().c_str());
        else if (a == "-n") O_samples = atoi(nx().c_str());
        else if (a == "-s") g_rng = 0x9E3779B97F4A7C15ull * (1 + atoll(nx().c_str()));
        else if (a == "-k") O_known.push_back(nx());
        else if (a == "-e") entry = nx();
        else if (a == "-S") slots = nx();
        else bc = a;
    }
    T_start = now();
    S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (S) Shared();
    g_active = &S->active;
    if (!slots.empty()) {
        int fd = open(slots.c_str(), O_RDWR);
        void *p = fd < 0 ? MAP_FAILED : mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) {
            fprintf(stderr, "symex: cannot map %s\n", slots.c_str());
            return 2;
        }
        g_active = (std::atomic<int> *) p;
    }
    results_fd = open(O_out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context(cfg);
    Btrue = Z3_mk_true(Z);
    Bfalse = Z3_mk_false(Z);
    LLVMContext ctx;
    SMDiagnostic err;
    auto mod = parseIRFile(bc, err, ctx);
    if (!mod) {
        err.print("symex", errs());
        return 2;
    }
    M = mod.get();
    DL = &M->getDataLayout();
    auto st = std::make_unique<State>();
    Ex ex;
    ex.st = st.get();
    for (auto &f : *M) {
        g_addr[&f] = FN_BASE + 16 * g_fn.size();
        g_fn.push_back(&f);
    }
    for (auto &g : M->globals()) {
        if (g.isDeclaration()) {
            engine_error("undefined global " + g.getName().str());
            return 2;
        }
        unsigned id = ex.new_object(DL->getTypeAllocSize(g.getValueType()), g.getName().str(), 0);
        st->mem[id].ro = g.isConstant();
        for (const char *a : {"bss-section", "data-section"})
            if (g.hasAttribute(a) && g.getAttribute(a).getValueAsString().starts_with("vapp")) g_app_globals.insert(id);
        g_addr[&g] = obj_base(id);
    }
    for (auto &a : M->aliases()) g_addr[&a] = g_addr[cast<GlobalValue>(a.getAliasee()->stripPointerCasts())];
    try {
        for (auto &g : M->globals())
            if (g.hasInitializer()) init_const(ex, *st->mem[(g_addr[&g] >> OBJ_SHIFT) - 1].o, 0, g.getInitializer());
    } catch (std::string &e) {
        engine_error(e);
        return 2;
    }
    Ex::g_static_objs = st->mem.size();
    Function *h = M->getFunction(entry);
    if (!h) {
        engine_error("no entry function");
        return 2;
    }
    std::string reach;
    {
        std::set<std::string> rs;
        for (auto &f : *M)
            for (auto &b : f)
                for (auto &in : b)
                    if (auto *cb = dyn_cast<CallBase>(&in))
                        if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "v_reach") {
                        {
                            std::vector<Value *> todo{cb->getArgOperand(0)};
                            std::set<Value *> seen;
                            while (!todo.empty()) {
                                Value *v = todo.back();
                                todo.pop_back();
                                if (!seen.insert(v).second) continue;
                                if (auto *c = dyn_cast<Constant>(v)) { try { rs.insert(ex.cstr(ex.constant(c))); } catch (std::string &) {} }
                                else if (auto *s = dyn_cast<SelectInst>(v)) { todo.push_back(s->getTrueValue()); todo.push_back(s->getFalseValue()); }
                                else if (auto *p = dyn_cast<PHINode>(v)) for (auto &o : p->incoming_values()) todo.push_back(o);
                            }
                        }
                        }
        for (auto &r : rs) reach += std::string(reach.empty() ? "" : ",") + "\"" + jesc(r) + "\"";
    }
    ex.call(h, {}, {});
    g_work.push_back(std::move(st));
    (*g_active)++;
    g_main = getpid();
    g_base = resident();
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    run_worker();
    if (g_slot) (*g_active)--;
    if (g_child) _exit(0);
    int ws = 0;
    while (wait(&ws) > 0)
        if (ws != 0) engine_error("a worker failed");
    char buf[1024];
    snprintf(buf, sizeof buf,
             "{\"kind\":\"summary\",\"stop\":%d,\"paths\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,"
             "\"unknown\":%llu,\"instructions\":%llu,\"asserts\":%llu,\"killed\":%llu,\"bounded\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"reach\":[%%s]}",
             S->stop.load(), (unsigned long long) S->paths, (unsigned long long) S->forks, (unsigned long long) S->queries,
             (unsigned long long) S->sat, (unsigned long long) S->unsat, (unsigned long long) S->unknown,
             (unsigned long long) S->instr, (unsigned long long) S->asserts, (unsigned long long) S->killed,
             (unsigned long long) S->bounded, S->solver_us.load() * 1e-6, now() - T_start);
    std::string sum = buf;
    sum.replace(sum.find("%s"), 2, reach);
    emit(sum);
    return S->stop == 0 ? 0 : S->stop == 1 ? 1 : 2;
}
