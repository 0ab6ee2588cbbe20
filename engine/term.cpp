#include "term.h"
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>

const char *opName[] = {"const", "var", "add", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem",
                        "concat", "extract", "sext", "ite", "eq", "ult", "slt", "table", "tbl", "tuple"};
std::vector<VarInfo> gVars;
std::vector<TP> gVarTerm;
size_t gTermCount = 0;

// ---- arena + hash table
static char *arenaP = nullptr;
static size_t arenaLeft = 0;
static void *arenaAlloc(size_t n) {
    n = (n + 15) & ~(size_t)15;
    if (n > arenaLeft) {
        size_t sz = std::max<size_t>(n, 4u << 20);
        arenaP = (char *)malloc(sz);
        if (!arenaP) abort();
        arenaLeft = sz;
    }
    void *r = arenaP;
    arenaP += n;
    arenaLeft -= n;
    return r;
}
static std::vector<Term *> table_(1 << 16, nullptr);
static size_t tableUsed = 0;

static inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
static inline uint64_t hashKey(Op op, unsigned w, uint64_t val, uint32_t n, TP const *a) {
    uint64_t h = mix(mix((uint64_t)op * 131 + w, val), n);
    for (uint32_t i = 0; i < n; i++) h = mix(h, a[i]->id);
    return h;
}
static void growTable() {
    std::vector<Term *> nt(table_.size() * 2, nullptr);
    size_t m = nt.size() - 1;
    for (Term *t : table_)
        if (t) {
            size_t i = hashKey(t->op, t->w, t->val, t->n, t->a) & m;
            while (nt[i]) i = (i + 1) & m;
            nt[i] = t;
        }
    table_.swap(nt);
}
static void analyse(Term *t);

static TP intern(Op op, unsigned w, uint64_t val, uint32_t n, TP const *a) {
    size_t m = table_.size() - 1;
    size_t i = hashKey(op, w, val, n, a) & m;
    while (Term *t = table_[i]) {
        if (t->op == op && t->w == w && t->val == val && t->n == n && !memcmp(t->a, a, n * sizeof(TP))) return t;
        i = (i + 1) & m;
    }
    Term *t = (Term *)arenaAlloc(sizeof(Term) + n * sizeof(TP));
    t->op = op;
    t->w = w;
    t->val = val;
    t->n = n;
    t->id = gTermCount++;
    t->undef = false;
    for (uint32_t k = 0; k < n; k++) {
        t->a[k] = a[k];
        t->undef |= a[k]->undef;
    }
    analyse(t);
    table_[i] = t;
    if (++tableUsed * 2 > table_.size()) growTable();
    return t;
}

static inline uint64_t fillUp(uint64_t v) { // smallest 2^k-1 >= v
    v |= v >> 1; v |= v >> 2; v |= v >> 4; v |= v >> 8; v |= v >> 16; v |= v >> 32;
    return v;
}

static void analyse(Term *t) {
    uint64_t M = maskw(t->w ? t->w : 64);
    uint64_t kz = ~M, um = M;
    switch (t->op) {
    case T_CONST: kz = ~t->val; um = t->val; break;
    case T_VAR: t->undef = gVars[t->val].undef; break;
    case T_ADD: {
        unsigned __int128 s = 0, neg = 0;
        for (uint32_t i = 0; i < t->n; i++) s += t->a[i]->umax;
        if (s <= M) um = (uint64_t)s;
        else if (t->a[t->n - 1]->isc()) { // constant minus something smaller
            s = 0;
            for (uint32_t i = 0; i < t->n; i++) {
                TP x = t->a[i];
                if (x->op == T_MUL && x->a[0]->isc() && (x->a[0]->val >> (t->w - 1) & 1)) neg += (unsigned __int128)(M - x->a[0]->val + 1) * x->a[1]->umax;
                else s += x->umax;
            }
            if (s <= M && neg <= t->a[t->n - 1]->val) um = (uint64_t)s;
        }
        break;
    }
    case T_MUL: {
        unsigned __int128 s = (unsigned __int128)t->a[0]->umax * t->a[1]->umax;
        if (s <= M) um = (uint64_t)s;
        break;
    }
    case T_AND:
        kz = 0;
        for (uint32_t i = 0; i < t->n; i++) {
            kz |= t->a[i]->kz;
            um = std::min(um, t->a[i]->umax);
        }
        break;
    case T_OR:
    case T_XOR:
        kz = ~0ull;
        for (uint32_t i = 0; i < t->n; i++) kz &= t->a[i]->kz;
        break;
    case T_UDIV:
        um = t->a[0]->umax;
        if (t->a[1]->isc() && t->a[1]->val) um /= t->a[1]->val;
        else um = M;
        break;
    case T_UREM:
        um = t->a[0]->umax;
        if (t->a[1]->isc() && t->a[1]->val) um = std::min(um, t->a[1]->val - 1);
        break;
    case T_LSHR: um = t->a[0]->umax; break;
    case T_CONCAT: {
        unsigned lo = 0;
        kz = ~M;
        um = 0;
        for (int i = (int)t->n - 1; i >= 0; i--) {
            uint64_t pm = maskw(t->a[i]->w);
            kz |= (t->a[i]->kz & pm) << lo;
            um += t->a[i]->umax << lo;
            lo += t->a[i]->w;
        }
        break;
    }
    case T_EXTRACT:
        kz = (t->a[0]->kz >> t->val) | ~M;
        if (t->a[0]->umax >> t->val <= M) um = t->a[0]->umax >> t->val;
        break;
    case T_ITE:
        kz = t->a[1]->kz & t->a[2]->kz;
        um = std::max(t->a[1]->umax, t->a[2]->umax);
        break;
    case T_TBL: {
        TP tab = t->a[0];
        kz = ~0ull;
        um = 0;
        for (uint32_t i = 0; i < tab->n; i++) {
            kz &= tab->a[i]->kz;
            um = std::max(um, tab->a[i]->umax);
        }
        break;
    }
    default: break;
    }
    kz |= ~fillUp(um);
    um = std::min(um, ~kz);
    t->kz = kz | ~M;
    t->umax = um & M;
}

// ---- constants and variables
static TP smallConst[65][257];
TP mkConst(uint64_t v, unsigned w) {
    v &= maskw(w);
    if (v <= 256) {
        TP &s = smallConst[w][v];
        if (!s) s = intern(T_CONST, w, v, 0, nullptr);
        return s;
    }
    return intern(T_CONST, w, v, 0, nullptr);
}
TP mkVar(const std::string &name, unsigned w, bool undef) {
    uint32_t idx = gVars.size();
    gVars.push_back({name, w, undef});
    TP t = intern(T_VAR, w, idx, 0, nullptr);
    gVarTerm.push_back(t);
    return t;
}

// ---- concat / extract
static void pushPiece(std::vector<TP> &out, TP p) {
    if (p->op == T_CONCAT) {
        for (uint32_t i = 0; i < p->n; i++) pushPiece(out, p->a[i]);
        return;
    }
    if (!out.empty()) {
        TP q = out.back();
        if (q->isc() && p->isc() && q->w + p->w <= 64) {
            out.back() = mkConst((q->val << p->w) | p->val, q->w + p->w);
            return;
        }
        // adjacent extracts of one term
        TP qb = q->op == T_EXTRACT ? q->a[0] : q, pb = p->op == T_EXTRACT ? p->a[0] : p;
        unsigned ql = q->op == T_EXTRACT ? q->val : 0, pl = p->op == T_EXTRACT ? p->val : 0;
        if (qb == pb && !(q->isc()) && ql == pl + p->w) {
            TP r = mkExtract(pb, pl, p->w + q->w);
            out.pop_back();
            pushPiece(out, r);
            return;
        }
        // sign fill: repeated top bit is left alone
    }
    out.push_back(p);
}
TP mkConcat(const std::vector<TP> &v) {
    std::vector<TP> out;
    out.reserve(v.size());
    for (TP p : v)
        if (p) pushPiece(out, p);
    if (out.size() == 1) return out[0];
    unsigned w = 0;
    for (TP p : out) w += p->w;
    bool anyC = false, anyX = false;
    for (TP p : out) {
        anyC |= p->isc();
        anyX |= p->op == T_XOR && p->a[p->n - 1]->isc();
    }
    if (anyX && anyC && out.size() > 2) { // the same for each run of pieces between constants
        std::vector<TP> o2;
        bool ch = false;
        for (size_t i = 0; i < out.size();) {
            size_t j = i;
            bool x = false;
            while (j < out.size() && !out[j]->isc()) x |= out[j]->op == T_XOR && out[j]->a[out[j]->n - 1]->isc(), j++;
            if (j == i) o2.push_back(out[i++]);
            else if (x && j - i > 1) {
                pushPiece(o2, mkConcat(std::vector<TP>(out.begin() + i, out.begin() + j)));
                ch = true;
                i = j;
            }
            else
                for (; i < j; i++) o2.push_back(out[i]);
        }
        if (ch) out = o2;
        if (out.size() == 1) return out[0];
    }
    if (anyX && !anyC && w <= 64) { // (a ^ k1) : (b ^ k2)  ->  (a : b) ^ (k1 : k2)
        uint64_t k = 0;
        std::vector<TP> pc;
        for (TP p : out) {
            k <<= p->w % 64;
            if (p->op == T_XOR && p->a[p->n - 1]->isc()) {
                k |= p->a[p->n - 1]->val;
                pc.push_back(mkXor(p, p->a[p->n - 1]));
            }
            else
                pc.push_back(p);
        }
        return mkXor(mkConcat(pc), mkConst(k, w));
    }
    if (w > 64) {
        fprintf(stderr, "irsym: term wider than 64 bits\n");
        abort();
    }
    return intern(T_CONCAT, w, 0, out.size(), out.data());
}
TP mkConcat2(TP hi, TP lo) { return mkConcat({hi, lo}); }

static TP mkExtract1(TP a, unsigned lo, unsigned w);
static TP mkXorN(const std::vector<TP> &v, unsigned w);
TP mkExtract(TP a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (a->isc()) return mkConst(a->val >> lo, w);
    if (((a->kz >> lo) & maskw(w)) == maskw(w)) return mkConst(0, w);
    if (a->op == T_VAR) return mkExtract1(a, lo, w);
    static std::unordered_map<uint64_t, TP> memo;
    uint64_t key = ((uint64_t)a->id << 14) | (lo << 7) | w;
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    TP r = mkExtract1(a, lo, w);
    memo[key] = r;
    return r;
}
// the slice covers only constant pieces of the concatenation
static bool constSlice(TP a, unsigned lo, unsigned w, uint64_t &v) {
    unsigned pos = a->w;
    v = 0;
    for (uint32_t i = 0; i < a->n; i++) {
        TP p = a->a[i];
        unsigned phi = pos, plo = pos - p->w;
        pos = plo;
        unsigned l = std::max(plo, lo), h = std::min(phi, lo + w);
        if (l >= h) continue;
        if (!p->isc()) return false;
        v |= (p->val >> (l - plo) & maskw(h - l)) << (l - lo);
    }
    return true;
}
static TP mkExtract1(TP a, unsigned lo, unsigned w) {
    if (a->op == T_XOR) { // constant slices of an exclusive or are moved out
        uint64_t k = 0, kAll = 0;
        std::vector<TP> rest, some;
        for (uint32_t i = 0; i < a->n; i++) {
            TP x = a->a[i];
            if (x->isc()) {
                k ^= x->val >> lo & maskw(w);
                continue;
            }
            some.push_back(x);
            if (((x->kz >> lo) & maskw(w)) == maskw(w)) continue;
            uint64_t v;
            if (x->op == T_CONCAT && constSlice(x, lo, w, v)) kAll ^= v;
            else rest.push_back(x);
        }
        if (rest.empty()) return mkConst(k ^ kAll, w);
        if (rest.size() == 1) return mkXor(mkExtract(rest[0], lo, w), mkConst(k ^ kAll, w));
        // dropping only some of the operands would give the slices of one word different bases
        if (some.size() < a->n) return mkXor(mkExtract(mkXorN(some, a->w), lo, w), mkConst(k, w));
    }
    switch (a->op) {
    case T_EXTRACT: return mkExtract(a->a[0], a->val + lo, w);
    case T_CONCAT: {
        std::vector<TP> out;
        unsigned pos = a->w;
        for (uint32_t i = 0; i < a->n; i++) {
            TP p = a->a[i];
            unsigned phi = pos, plo = pos - p->w; // [plo,phi)
            pos = plo;
            unsigned l = std::max(plo, lo), h = std::min(phi, lo + w);
            if (l < h) out.push_back(mkExtract(p, l - plo, h - l));
        }
        return mkConcat(out);
    }
    case T_SEXT:
        if (lo + w <= a->a[0]->w) return mkExtract(a->a[0], lo, w);
        if (lo == 0 && w > a->a[0]->w) return mkSext(a->a[0], w);
        break;
    case T_ITE:
        if (a->a[1]->isc() || a->a[2]->isc())
            return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
        break;
    case T_AND:
    case T_OR:
    case T_XOR: {
        // narrow only when it pays: some operand's slice is a constant, or every slice is made of whole pieces
        bool konst = false, aligned = true;
        for (uint32_t i = 0; i < a->n; i++) {
            TP x = a->a[i];
            if (x->isc()) {
                konst = true;
                continue;
            }
            if (((x->kz >> lo) & maskw(w)) == maskw(w)) {
                konst = true;
                continue;
            }
            bool al = false;
            if (x->op == T_CONCAT) {
                bool atLo = false, atHi = false;
                unsigned pos = x->w;
                for (uint32_t k = 0; k < x->n; k++) {
                    if (pos == lo + w) atHi = true;
                    pos -= x->a[k]->w;
                    if (pos == lo) atLo = true;
                }
                al = atLo && atHi;
            }
            aligned = aligned && al;
        }
        bool simple = konst || aligned;
        if (simple && a->n <= 8) {
            TP r = mkExtract(a->a[0], lo, w);
            for (uint32_t i = 1; i < a->n; i++) {
                TP x = mkExtract(a->a[i], lo, w);
                r = a->op == T_AND ? mkAnd(r, x) : a->op == T_OR ? mkOr(r, x) : mkXor(r, x);
            }
            return r;
        }
        break;
    }
    case T_ADD:
    case T_MUL:
        if (lo == 0) {
            bool ok = true;
            for (uint32_t i = 0; i < a->n && ok; i++) {
                TP x = a->a[i];
                if (x->isc()) continue;
                if (x->op == T_MUL && a->op == T_ADD && x->a[0]->isc()) x = x->a[1];
                if (x->op == T_SEXT && x->a[0]->w <= w) continue;
                if (x->op == T_CONCAT && x->a[0]->isc() && x->a[0]->val == 0 && x->w - x->a[0]->w <= w) continue;
                if (a->op == T_ADD && w >= 32 && a->n <= 6 && x->op == T_VAR) continue;
                if (a->op == T_ADD && w >= 32 && a->n <= 6 && x->op == T_CONCAT) { // the slice is made of whole pieces
                    unsigned pos = 0;
                    for (uint32_t k = x->n; k-- && pos < w;) pos += x->a[k]->w;
                    if (pos == w) continue;
                }
                ok = false;
            }
            if (ok) {
                if (a->op == T_ADD) {
                    std::vector<TP> v;
                    for (uint32_t i = 0; i < a->n; i++) v.push_back(mkExtract(a->a[i], 0, w));
                    return mkAddN(v, w);
                }
                return mkMul(mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
            }
        }
        break;
    default: break;
    }
    TP args[1] = {a};
    return intern(T_EXTRACT, w, lo, 1, args);
}
TP mkTrunc(TP a, unsigned w) { return mkExtract(a, 0, w); }
TP mkZext(TP a, unsigned w) {
    if (a->w == w) return a;
    if (a->op == T_ADD && a->n == 2 && a->a[1]->isc() && a->a[0]->op == T_MUL && a->a[0]->a[0]->isc() && a->a[0]->a[0]->val == maskw(a->w) && a->a[0]->a[1]->umax <= a->a[1]->val)
        return mkSub(mkConst(a->a[1]->val, w), mkZext(a->a[0]->a[1], w)); // k - x without borrow
    return mkConcat({mkConst(0, w - a->w), a});
}
TP mkSext(TP a, unsigned w) {
    if (a->w == w) return a;
    if (a->isc()) return mkConst((uint64_t)sextv(a->val, a->w), w);
    if (a->kz >> (a->w - 1) & 1) return mkZext(a, w);
    if (a->op == T_SEXT) return mkSext(a->a[0], w);
    TP args[1] = {a};
    return intern(T_SEXT, w, 0, 1, args);
}

// ---- disjoint bit regions: or/xor/add of non-overlapping parts become a concat
struct Piece {
    unsigned lo, w;
    TP t;
};
static bool pieces(TP x, std::vector<Piece> &out) {
    if (x->isc()) {
        uint64_t v = x->val;
        int cnt = 0;
        while (v) {
            unsigned l = __builtin_ctzll(v);
            uint64_t r = v >> l;
            unsigned n = r == ~0ull ? 64 : __builtin_ctzll(~r);
            out.push_back({l, n, mkConst(maskw(n), n)});
            v &= ~(maskw(n) << l);
            if (++cnt > 32) return false;
        }
        return true;
    }
    if (x->op == T_CONCAT) {
        unsigned pos = x->w;
        for (uint32_t i = 0; i < x->n; i++) {
            TP p = x->a[i];
            pos -= p->w;
            if (p->isc()) {
                std::vector<Piece> cp;
                if (!pieces(p, cp)) return false;
                for (auto &c : cp) out.push_back({c.lo + pos, c.w, c.t});
            }
            else
                out.push_back({pos, p->w, p});
        }
        return true;
    }
    uint64_t nz = ~x->kz & maskw(x->w);
    if (!nz) return true;
    unsigned h = 63 - __builtin_clzll(nz), l = __builtin_ctzll(nz);
    out.push_back({l, h - l + 1, mkExtract(x, l, h - l + 1)});
    return true;
}
static TP tryDisjoint(const std::vector<TP> &v, unsigned w) {
    // quick test
    uint64_t seen = 0;
    bool anyShift = false;
    for (TP x : v) {
        uint64_t nz = ~x->kz & maskw(w);
        if (nz & seen) return nullptr;
        seen |= nz;
        if (x->op == T_CONCAT) anyShift = true;
    }
    (void)anyShift;
    std::vector<Piece> ps;
    for (TP x : v)
        if (!pieces(x, ps)) return nullptr;
    std::sort(ps.begin(), ps.end(), [](const Piece &a, const Piece &b) { return a.lo > b.lo; });
    std::vector<TP> out;
    unsigned pos = w;
    for (auto &p : ps) {
        if (p.lo + p.w > pos) return nullptr;
        if (p.lo + p.w < pos) out.push_back(mkConst(0, pos - p.lo - p.w));
        out.push_back(p.t);
        pos = p.lo;
    }
    if (pos) out.push_back(mkConst(0, pos));
    return mkConcat(out);
}

// A concatenation with holes where the constant is added, unless that looks like an address.
static TP fillHoles(const std::vector<TP> &out, uint64_t k, unsigned w) {
    bool word = false, addr = w == 64 && (k >> 32 & 15) == 1 && k >> 40 && !(k >> 56); // see SLOT_BITS, SLOT_OFF
    for (TP x : out) word |= x->op == T_CONCAT && w >= 32 && (!addr || (x->kz >> 36) != maskw(w) >> 36);
    if (!word) return nullptr;
    std::vector<TP> v(out);
    v.push_back(mkConst(k, w));
    return tryDisjoint(v, w);
}

// ---- add / mul
static const uint32_t FLAT_CHILD = 24, FLAT_TOTAL = 48;
static const uint32_t XOR_CHILD = 4000, XOR_TOTAL = 8000; // lane (0,0) of Keccak is never rotated and grows through all rounds

static const size_t ADD_CHILD = 20000, ADD_TOTAL = 30000;
TP mkAddN(const std::vector<TP> &vin, unsigned w) {
    uint64_t M = maskw(w), k = 0;
    std::vector<std::pair<TP, uint64_t>> terms; // (atom, coefficient)
    std::unordered_map<TP, bool> mulForm;       // kept as a product even when the coefficient is a power of two
    auto addAtom = [&](TP x, uint64_t coef) {
        bool scaled = coef != 1;
        if (x->isc()) {
            k += coef * x->val;
            return;
        }
        if (x->op == T_MUL && x->a[0]->isc()) {
            coef *= x->a[0]->val;
            x = x->a[1];
            mulForm[x] = true;
        }
        else if (scaled)
            mulForm[x] = true;
        // x << k (kept as a concatenation) is 2^k times x
        if (x->op == T_CONCAT && x->n == 2 && x->a[1]->isc() && x->a[1]->val == 0 && x->a[0]->op == T_EXTRACT && x->a[0]->val == 0 && x->a[0]->a[0]->w == w) {
            coef <<= x->a[1]->w;
            x = x->a[0]->a[0];
        }
        else if (x->op == T_CONCAT && coef == 1) { // constant parts are added apart
            uint64_t c = 0;
            unsigned pos = w;
            for (uint32_t i = 0; i < x->n; i++) {
                pos -= x->a[i]->w;
                if (x->a[i]->isc()) c |= x->a[i]->val << pos;
            }
            if (c) {
                std::vector<TP> pc;
                for (uint32_t i = 0; i < x->n; i++) pc.push_back(x->a[i]->isc() ? mkConst(0, x->a[i]->w) : x->a[i]);
                k += c;
                x = mkConcat(pc);
            }
        }
        terms.push_back({x, coef & M});
    };
    size_t total = 0;
    for (TP x : vin) total += x->op == T_ADD ? x->n : 1;
    for (TP x : vin) {
        if (x->op == T_ADD && x->n <= ADD_CHILD && total <= ADD_TOTAL)
            for (uint32_t i = 0; i < x->n; i++) addAtom(x->a[i], 1);
        else if (x->op == T_MUL && x->a[0]->isc() && x->a[1]->op == T_ADD && x->a[1]->n <= ADD_CHILD && total + x->a[1]->n <= ADD_TOTAL)
            for (uint32_t i = 0; i < x->a[1]->n; i++) addAtom(x->a[1]->a[i], x->a[0]->val);
        else
            addAtom(x, 1);
    }
    k &= M;
    std::sort(terms.begin(), terms.end(), [](auto &a, auto &b) { return a.first->id < b.first->id; });
    std::vector<TP> out;
    for (size_t i = 0; i < terms.size();) {
        uint64_t c = 0;
        TP x = terms[i].first;
        size_t occ = 0;
        while (i < terms.size() && terms[i].first == x) c += terms[i++].second, occ++;
        c &= M;
        if (!c) continue;
        if (c == 1) out.push_back(x);
        else if ((c & (c - 1)) == 0 && !mulForm[x] && occ == 1) out.push_back(mkShl(x, mkConst(__builtin_ctzll(c), w)));
        else {
            TP args[2] = {mkConst(c, w), x};
            out.push_back(intern(T_MUL, w, 0, 2, args));
        }
    }
    if (out.empty()) return mkConst(k, w);
    if (out.size() == 1 && k == 0) return out[0];
    if (k == 0) {
        if (TP d = tryDisjoint(out, w)) return d;
    }
    else if (TP d = fillHoles(out, k, w)) // rotations of words with constant parts, written with an addition
        return d;
    if (k && out.size() == 1 && out[0]->op == T_ITE && out[0]->a[1]->isc() && out[0]->a[2]->isc())
        return mkIte(out[0]->a[0], mkConst(out[0]->a[1]->val + k, w), mkConst(out[0]->a[2]->val + k, w));
    if (w == 1) { // addition modulo 2
        TP r = mkConst(k, 1);
        for (TP x : out) r = mkXor(r, x);
        return r;
    }
    std::sort(out.begin(), out.end(), [](TP a, TP b) { return a->id < b->id; });
    if (k) out.push_back(mkConst(k, w));
    return intern(T_ADD, w, 0, out.size(), out.data());
}
TP mkAdd(TP a, TP b) {
    if (a->isc() && b->isc()) return mkConst(a->val + b->val, a->w);
    if (a->isc() && a->val == 0) return b;
    if (b->isc() && b->val == 0) return a;
    if (a->n + b->n < 6) return mkAddN({a, b}, a->w);
    static std::unordered_map<uint64_t, TP> memo;
    uint64_t key = (uint64_t)std::min(a->id, b->id) << 32 | std::max(a->id, b->id);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    return memo[key] = mkAddN({a, b}, a->w);
}
TP mkNeg(TP a) { return mkMul(mkConst(maskw(a->w), a->w), a); }
TP mkSub(TP a, TP b) {
    if (a->isc() && b->isc()) return mkConst(a->val - b->val, a->w);
    if (b->isc() && b->val == 0) return a;
    if (a == b) return mkConst(0, a->w);
    return mkAddN({a, mkNeg(b)}, a->w);
}
TP mkMul(TP a, TP b) {
    unsigned w = a->w;
    if (a->isc() && b->isc()) return mkConst(a->val * b->val, w);
    if (b->isc()) std::swap(a, b);
    if (w == 1) return mkAnd(a, b);
    if (a->isc()) {
        if (a->val == 0) return a;
        if (a->val == 1) return b;
        if ((a->val & (a->val - 1)) == 0) return mkShl(b, mkConst(__builtin_ctzll(a->val), w));
        if (b->op == T_MUL && b->a[0]->isc()) return mkMul(mkConst(a->val * b->a[0]->val, w), b->a[1]);
        if (b->op == T_ADD && b->n <= FLAT_CHILD) {
            std::vector<TP> v;
            for (uint32_t i = 0; i < b->n; i++) v.push_back(mkMul(a, b->a[i]));
            return mkAddN(v, w);
        }
        if (b->op == T_ITE && b->a[1]->isc() && b->a[2]->isc()) return mkIte(b->a[0], mkMul(a, b->a[1]), mkMul(a, b->a[2]));
    }
    else if (a->id > b->id)
        std::swap(a, b);
    TP args[2] = {a, b};
    return intern(T_MUL, w, 0, 2, args);
}

// ---- bitwise
static TP mkBitN(Op op, const std::vector<TP> &vin, unsigned w) {
    uint64_t M = maskw(w);
    uint64_t k = op == T_AND ? M : 0;
    std::vector<TP> v;
    size_t total = 0;
    for (TP x : vin) total += x->op == op ? x->n : 1;
    for (TP x : vin) {
        bool flat = x->op == op && (op == T_XOR ? x->n <= XOR_CHILD && total <= XOR_TOTAL : x->n <= FLAT_CHILD && total <= FLAT_TOTAL);
        uint32_t n = flat ? x->n : 1;
        for (uint32_t i = 0; i < n; i++) {
            TP y = flat ? x->a[i] : x;
            if (y->isc()) {
                if (op == T_AND) k &= y->val;
                else if (op == T_OR) k |= y->val;
                else k ^= y->val;
            }
            else
                v.push_back(y);
        }
    }
    std::sort(v.begin(), v.end(), [](TP a, TP b) { return a->id < b->id; });
    std::vector<TP> u;
    for (size_t i = 0; i < v.size();) {
        size_t j = i;
        while (j < v.size() && v[j] == v[i]) j++;
        if (op != T_XOR || (j - i) % 2) u.push_back(v[i]);
        i = j;
    }
    if (op == T_AND) {
        if (k == 0) return mkConst(0, w);
        if (u.empty()) return mkConst(k, w);
        uint64_t kz = ~k;
        for (TP x : u) kz |= x->kz;
        if ((kz & M) == M) return mkConst(0, w);
        for (size_t i = 0; i < u.size(); i++) // x & ~x
            if (w <= 64)
                for (size_t j = 0; j < u.size(); j++)
                    if (u[j]->op == T_XOR && u[j]->n == 2 && u[j]->a[1]->isc() && u[j]->a[1]->val == M && u[j]->a[0] == u[i])
                        return mkConst(0, w);
        if (k != M) {
            uint64_t oz = 0;
            for (TP x : u) oz |= x->kz;
            k &= ~oz;
            if (k == (~oz & M)) k = M;
        }
        if (k == M && u.size() == 2 && (u[0]->op == T_CONCAT || u[1]->op == T_CONCAT)) {
            // constant pieces decide their part of the result
            uint64_t cut = 0; // bit i: a boundary below bit i
            bool hasC = false;
            for (TP x : u) {
                if (x->op != T_CONCAT) continue;
                unsigned pos = w;
                for (uint32_t i = 0; i < x->n; i++) {
                    unsigned hi = pos;
                    pos -= x->a[i]->w;
                    if (!x->a[i]->isc()) continue;
                    hasC = true;
                    cut |= 1ull << pos;
                    if (hi < w) cut |= 1ull << hi;
                }
            }
            if (hasC) {
                std::vector<TP> out;
                unsigned pos = w;
                while (pos > 0) {
                    unsigned lo = pos - 1;
                    while (lo > 0 && !(cut >> lo & 1)) lo--;
                    out.push_back(mkAnd(mkExtract(u[0], lo, pos - lo), mkExtract(u[1], lo, pos - lo)));
                    pos = lo;
                }
                return mkConcat(out);
            }
        }
        if (k != M) {
            // masks that keep only runs of bits become concats of extracts
            uint64_t eff = k & ~(u.size() == 1 ? u[0]->kz : 0) & M;
            if (u.size() == 1) {
                if (eff == (~u[0]->kz & M)) return u[0];
                int runs = __builtin_popcountll(eff & ~(eff << 1));
                if (runs <= 4) {
                    std::vector<TP> out;
                    unsigned pos = w;
                    while (pos > 0) {
                        bool bit = k >> (pos - 1) & 1;
                        unsigned lo = pos;
                        while (lo > 0 && (bool)(k >> (lo - 1) & 1) == bit) lo--;
                        out.push_back(bit ? mkExtract(u[0], lo, pos - lo) : mkConst(0, pos - lo));
                        pos = lo;
                    }
                    if (out.size() <= 12) return mkConcat(out);
                }
            }
            u.push_back(mkConst(k, w));
        }
    }
    else {
        if (op == T_OR) {
            if (k == M) return mkConst(M, w);
            for (size_t i = 0; i < u.size(); i++)
                for (size_t j = 0; j < u.size(); j++)
                    if (u[j]->op == T_XOR && u[j]->n == 2 && u[j]->a[1]->isc() && u[j]->a[1]->val == M && u[j]->a[0] == u[i])
                        return mkConst(M, w);
        }
        if (op == T_XOR && u.size() + (k != 0) > 1) {
            // normal form: constants out of concatenations, disjoint zero-holed concatenations joined
            std::vector<TP> plain, holed;
            for (TP x : u) {
                if (x->op != T_CONCAT) {
                    plain.push_back(x);
                    continue;
                }
                bool hasC = false, nzC = false;
                for (uint32_t i = 0; i < x->n; i++)
                    if (x->a[i]->isc()) {
                        hasC = true;
                        if (x->a[i]->val) nzC = true;
                    }
                    else if (x->a[i]->op == T_XOR && x->a[i]->a[x->a[i]->n - 1]->isc())
                        nzC = true;
                if (!hasC) {
                    plain.push_back(x);
                    continue;
                }
                if (nzC) {
                    std::vector<TP> pc;
                    unsigned pos = w;
                    for (uint32_t i = 0; i < x->n; i++) {
                        pos -= x->a[i]->w;
                        if (x->a[i]->isc()) {
                            k ^= x->a[i]->val << pos;
                            pc.push_back(mkConst(0, x->a[i]->w));
                        }
                        else if (x->a[i]->op == T_XOR && x->a[i]->a[x->a[i]->n - 1]->isc()) {
                            TP c = x->a[i]->a[x->a[i]->n - 1];
                            k ^= c->val << pos;
                            pc.push_back(mkXor(x->a[i], c));
                        }
                        else
                            pc.push_back(x->a[i]);
                    }
                    x = mkConcat(pc);
                    if (x->op != T_CONCAT) {
                        plain.push_back(x);
                        continue;
                    }
                }
                bool joined = false;
                for (TP &h : holed)
                    if (TP d = tryDisjoint({h, x}, w)) {
                        h = d;
                        joined = true;
                        break;
                    }
                if (!joined) holed.push_back(x);
            }
            plain.insert(plain.end(), holed.begin(), holed.end());
            std::sort(plain.begin(), plain.end(), [](TP a, TP b) { return a->id < b->id; });
            bool dup = false;
            for (size_t i = 1; i < plain.size(); i++) dup |= plain[i] == plain[i - 1];
            u = plain;
            if (dup) {
                if (k) u.push_back(mkConst(k, w));
                return mkBitN(op, u, w);
            }
        }
        if (u.empty()) return mkConst(k, w);
        if (k) {
            if (op == T_XOR && u.size() == 1 && u[0]->op == T_ITE && u[0]->a[1]->isc() && u[0]->a[2]->isc())
                return mkIte(u[0]->a[0], mkConst(u[0]->a[1]->val ^ k, w), mkConst(u[0]->a[2]->val ^ k, w));
            if (op == T_XOR && u.size() == 1 && u[0]->op == T_CONCAT) {
                // alone, a concatenation with constant pieces keeps its constants inside
                TP x = u[0];
                bool hasC = false;
                for (uint32_t i = 0; i < x->n; i++) hasC |= x->a[i]->isc();
                if (hasC) {
                    std::vector<TP> pc;
                    unsigned pos = w;
                    for (uint32_t i = 0; i < x->n; i++) {
                        TP p = x->a[i];
                        pos -= p->w;
                        pc.push_back(mkXor(p, mkConst(k >> pos, p->w)));
                    }
                    return mkConcat(pc);
                }
            }
            u.push_back(mkConst(k, w));
        }
        if (u.size() == 1) return u[0];
        if (TP d = tryDisjoint(u, w)) return d;
    }
    if (u.size() == 1) return u[0];
    return intern(op, w, 0, u.size(), u.data());
}
TP mkAnd(TP a, TP b) {
    if (a->isc() && b->isc()) return mkConst(a->val & b->val, a->w);
    if (a == b) return a;
    return mkBitN(T_AND, {a, b}, a->w);
}
TP mkOr(TP a, TP b) {
    if (a->isc() && b->isc()) return mkConst(a->val | b->val, a->w);
    if (a == b) return a;
    return mkBitN(T_OR, {a, b}, a->w);
}
static TP mkXorN(const std::vector<TP> &v, unsigned w) { return mkBitN(T_XOR, v, w); }
TP mkXor(TP a, TP b) {
    if (a->isc() && b->isc()) return mkConst(a->val ^ b->val, a->w);
    if (a == b) return mkConst(0, a->w);
    return mkBitN(T_XOR, {a, b}, a->w);
}
TP mkNot(TP a) { return mkXor(a, mkConst(maskw(a->w), a->w)); }

// ---- shifts
static TP mkShiftGen(Op op, TP a, TP b) {
    TP args[2] = {a, b};
    return intern(op, a->w, 0, 2, args);
}
TP mkShl(TP a, TP b) {
    unsigned w = a->w;
    if (b->isc()) {
        if (b->val >= w) return mkConst(0, w);
        if (b->val == 0) return a;
        if (a->isc()) return mkConst(a->val << b->val, w);
        if (a->op == T_ADD && w == 64 && a->n == 2 && a->a[1]->isc() && (a->a[0]->op == T_VAR || a->a[0]->op == T_CONCAT))
            return mkAddN({mkShl(a->a[0], b), mkShl(a->a[1], b)}, w); // (x+k)<<s as a sum
        return mkConcat({mkExtract(a, 0, w - b->val), mkConst(0, b->val)});
    }
    if (a->isc() && a->val == 0) return a;
    return mkShiftGen(T_SHL, a, b);
}
TP mkLshr(TP a, TP b) {
    unsigned w = a->w;
    if (b->isc()) {
        if (b->val >= w) return mkConst(0, w);
        if (b->val == 0) return a;
        if (a->isc()) return mkConst(a->val >> b->val, w);
        return mkConcat({mkConst(0, b->val), mkExtract(a, b->val, w - b->val)});
    }
    if (a->isc() && a->val == 0) return a;
    return mkShiftGen(T_LSHR, a, b);
}
TP mkAshr(TP a, TP b) {
    unsigned w = a->w;
    if (b->isc()) {
        unsigned s = std::min<uint64_t>(b->val, w - 1);
        if (s == 0) return a;
        if (a->isc()) return mkConst((uint64_t)(sextv(a->val, w) >> s), w);
        return mkSext(mkExtract(a, s, w - s), w);
    }
    if (a->kz >> (w - 1) & 1) return mkLshr(a, b);
    return mkShiftGen(T_ASHR, a, b);
}

// ---- division
static TP mkBinGen(Op op, TP a, TP b) {
    TP args[2] = {a, b};
    return intern(op, a->w, 0, 2, args);
}
// Sum without overflow whose multiples of c can be taken out: a = c * quot + rest
static bool splitMultiples(TP a, uint64_t c, TP &quot, TP &rest) {
    unsigned w = a->w;
    uint64_t M = maskw(w);
    std::vector<TP> one{a};
    const TP *ch = a->op == T_ADD ? a->a : one.data();
    size_t n = a->op == T_ADD ? a->n : 1;
    unsigned __int128 sum = 0;
    std::vector<TP> q, r;
    for (size_t i = 0; i < n; i++) {
        TP x = ch[i];
        sum += x->umax;
        if (x->op == T_MUL && x->a[0]->isc() && x->a[0]->val % c == 0 && (unsigned __int128)x->a[0]->val * x->a[1]->umax <= M)
            q.push_back(mkMul(mkConst(x->a[0]->val / c, w), x->a[1]));
        else r.push_back(x);
    }
    if (q.empty() || sum > M) return false;
    quot = mkAddN(q, w);
    rest = r.empty() ? mkConst(0, w) : mkAddN(r, w);
    return true;
}
TP mkUdiv(TP a, TP b) {
    unsigned w = a->w;
    if (b->isc() && b->val) {
        if (a->isc()) return mkConst(a->val / b->val, w);
        TP quot, rest;
        if (splitMultiples(a, b->val, quot, rest)) return mkAdd(quot, mkUdiv(rest, b));
        if ((b->val & (b->val - 1)) == 0) return mkLshr(a, mkConst(__builtin_ctzll(b->val), w));
        if (a->umax < b->val) return mkConst(0, w);
        unsigned bits = 64 - __builtin_clzll(std::max(a->umax, b->val) | 1);
        if (bits < w) return mkZext(mkUdiv(mkTrunc(a, bits), mkTrunc(b, bits)), w);
        if (a->op == T_UDIV && a->a[1]->isc() && a->a[1]->val) { // (x/c1)/c2
            unsigned __int128 c = (unsigned __int128)a->a[1]->val * b->val;
            if (c <= maskw(w)) return mkUdiv(a->a[0], mkConst((uint64_t)c, w));
            return mkConst(0, w);
        }
    }
    return mkBinGen(T_UDIV, a, b);
}
TP mkUrem(TP a, TP b) {
    unsigned w = a->w;
    if (b->isc() && b->val) {
        if (a->isc()) return mkConst(a->val % b->val, w);
        TP quot, rest;
        if (splitMultiples(a, b->val, quot, rest)) return mkUrem(rest, b);
        if ((b->val & (b->val - 1)) == 0) return mkAnd(a, mkConst(b->val - 1, w));
        if (a->umax < b->val) return a;
        unsigned bits = 64 - __builtin_clzll(std::max(a->umax, b->val) | 1);
        if (bits < w) return mkZext(mkUrem(mkTrunc(a, bits), mkTrunc(b, bits)), w);
    }
    return mkBinGen(T_UREM, a, b);
}
TP mkSdiv(TP a, TP b) {
    unsigned w = a->w;
    if (a->isc() && b->isc() && b->val) {
        int64_t x = sextv(a->val, w), y = sextv(b->val, w);
        if (y == -1) return mkConst(-(uint64_t)x, w);
        return mkConst((uint64_t)(x / y), w);
    }
    if ((a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1)) return mkUdiv(a, b);
    return mkBinGen(T_SDIV, a, b);
}
TP mkSrem(TP a, TP b) {
    unsigned w = a->w;
    if (a->isc() && b->isc() && b->val) {
        int64_t x = sextv(a->val, w), y = sextv(b->val, w);
        if (y == -1) return mkConst(0, w);
        return mkConst((uint64_t)(x % y), w);
    }
    if ((a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1)) return mkUrem(a, b);
    return mkBinGen(T_SREM, a, b);
}

// ---- ite / comparisons
static TP notInner(TP c) { // c == not x  ->  x
    if (c->op == T_XOR && c->w == 1 && c->n == 2 && c->a[1]->isc()) return c->a[0];
    return nullptr;
}
TP mkIte(TP c, TP a, TP b) {
    if (c->isc()) return c->val ? a : b;
    if (a == b) return a;
    if (TP x = notInner(c)) return mkIte(x, b, a);
    if (a->op == T_ITE && a->a[0] == c) return mkIte(c, a->a[1], b);
    if (b->op == T_ITE && b->a[0] == c) return mkIte(c, a, b->a[2]);
    if (a->w == 1) {
        if (a->isc()) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b->isc()) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    // zero extension common prefix
    if (a->w > 1 && !(a->isc() && b->isc())) {
        uint64_t nz = (~a->kz | ~b->kz) & maskw(a->w);
        if (!(nz >> (a->w - 1))) {
            unsigned bits = nz ? 64 - __builtin_clzll(nz) : 1;
            if (bits < a->w && (a->op == T_CONCAT || a->isc()) && (b->op == T_CONCAT || b->isc()))
                return mkZext(mkIte(c, mkTrunc(a, bits), mkTrunc(b, bits)), a->w);
        }
    }
    if (a->w > 1 && (a->op == T_ADD || b->op == T_ADD) && !a->isc() && !b->isc()) { // c ? x+1 : x is a sum
        auto split = [](TP x, uint64_t &k) -> TP {
            k = 0;
            if (x->op != T_ADD || !x->a[x->n - 1]->isc()) return x;
            k = x->a[x->n - 1]->val;
            return mkAddN(std::vector<TP>(x->a, x->a + x->n - 1), x->w);
        };
        uint64_t ka, kb;
        TP xa = split(a, ka), xb = split(b, kb);
        if (xa == xb) {
            uint64_t d = (ka - kb) & maskw(a->w);
            TP inc = d == 1 ? mkZext(c, a->w) : mkIte(c, mkConst(d, a->w), mkConst(0, a->w));
            return mkAddN({xa, mkConst(kb, a->w), inc}, a->w);
        }
        if (a->op == T_ADD && b->op == T_ADD && a->w == 64 && a->n <= 16 && b->n <= 16) { // addends of both sides
            std::vector<TP> both, ra, rb;
            for (uint32_t i = 0; i < a->n; i++) {
                bool in = false;
                for (uint32_t j = 0; j < b->n; j++) in |= a->a[i] == b->a[j];
                (in ? both : ra).push_back(a->a[i]);
            }
            for (uint32_t j = 0; j < b->n; j++)
                if (std::find(both.begin(), both.end(), b->a[j]) == both.end()) rb.push_back(b->a[j]);
            if (!both.empty()) {
                both.push_back(mkIte(c, mkAddN(ra, 64), mkAddN(rb, 64)));
                return mkAddN(both, 64);
            }
        }
    }
    TP args[3] = {c, a, b};
    return intern(T_ITE, a->w, 0, 3, args);
}
TP mkEq(TP a, TP b) {
    if (a == b) return mkTrue();
    if (a->isc() && b->isc()) return mkConst(a->val == b->val, 1);
    if (a->isc()) std::swap(a, b);
    unsigned w = a->w;
    if (w == 1) {
        if (b->isc()) return b->val ? a : mkNot(a);
        return mkNot(mkXor(a, b));
    }
    if (b->isc()) {
        if (b->val > a->umax || (b->val & a->kz)) return mkFalse();
        switch (a->op) {
        case T_CONCAT: {
            // split off constant pieces; equality with a constant is a conjunction over the pieces
            TP r = mkTrue();
            unsigned pos = w;
            for (uint32_t i = 0; i < a->n; i++) {
                TP p = a->a[i];
                pos -= p->w;
                r = mkAnd(r, mkEq(p, mkConst(b->val >> pos, p->w)));
                if (isFalse(r)) return r;
            }
            return r;
        }
        case T_ADD:
            if (a->a[a->n - 1]->isc()) {
                std::vector<TP> v(a->a, a->a + a->n - 1);
                return mkEq(mkAddN(v, w), mkConst(b->val - a->a[a->n - 1]->val, w));
            }
            break;
        case T_XOR:
            if (a->a[a->n - 1]->isc()) {
                TP k = a->a[a->n - 1];
                return mkEq(mkXor(a, k), mkConst(b->val ^ k->val, w));
            }
            break;
        case T_SEXT: {
            unsigned iw = a->a[0]->w;
            if ((uint64_t)sextv(b->val & maskw(iw), iw) << (64 - w) != b->val << (64 - w)) return mkFalse();
            return mkEq(a->a[0], mkConst(b->val, iw));
        }
        case T_ITE:
            if (a->a[1]->isc() || a->a[2]->isc()) return mkIte(a->a[0], mkEq(a->a[1], b), mkEq(a->a[2], b));
            break;
        default: break;
        }
    }
    else {
        if (a->op == T_CONCAT && b->op == T_CONCAT && a->a[0]->isc() && b->a[0]->isc() && a->a[0]->val == 0 && b->a[0]->val == 0) {
            unsigned k = std::min(a->a[0]->w, b->a[0]->w);
            return mkEq(mkTrunc(a, w - k), mkTrunc(b, w - k));
        }
        if (a->op == T_ADD || b->op == T_ADD) { // cancel common summands
            TP d = mkSub(a, b);
            if (d->isc()) return mkConst(d->val == 0, 1);
        }
        if (a->id > b->id) std::swap(a, b);
    }
    TP args[2] = {a, b};
    return intern(T_EQ, 1, 0, 2, args);
}
TP mkUlt(TP a, TP b) {
    if (a == b) return mkFalse();
    if (a->isc() && b->isc()) return mkConst(a->val < b->val, 1);
    unsigned w = a->w;
    if (b->isc()) {
        if (b->val == 0) return mkFalse();
        if (a->umax < b->val) return mkTrue();
        if (b->val == 1) return mkEq(a, mkConst(0, w));
    }
    if (a->isc()) {
        if (a->val >= b->umax) return mkFalse();
        if (a->val == 0) return mkNot(mkEq(b, mkConst(0, w)));
    }
    // narrow
    uint64_t nz = (~a->kz | ~b->kz) & maskw(w);
    unsigned bits = nz ? 64 - __builtin_clzll(nz) : 1;
    if (bits < w) return mkUlt(mkTrunc(a, bits), mkTrunc(b, bits));
    if (a->op == T_ITE && a->a[1]->isc() && a->a[2]->isc() && b->isc()) return mkIte(a->a[0], mkUlt(a->a[1], b), mkUlt(a->a[2], b));
    if (b->op == T_ITE && b->a[1]->isc() && b->a[2]->isc() && a->isc()) return mkIte(b->a[0], mkUlt(a, b->a[1]), mkUlt(a, b->a[2]));
    TP args[2] = {a, b};
    return intern(T_ULT, 1, 0, 2, args);
}
TP mkSlt(TP a, TP b) {
    if (a == b) return mkFalse();
    unsigned w = a->w;
    if (a->isc() && b->isc()) return mkConst(sextv(a->val, w) < sextv(b->val, w), 1);
    bool az = a->kz >> (w - 1) & 1, bz = b->kz >> (w - 1) & 1;
    if (az && bz) return mkUlt(a, b);
    if (az && b->isc()) return mkFalse();  // b negative constant
    if (bz && a->isc()) return mkTrue();   // a negative constant
    if (a->op == T_SEXT && b->op == T_SEXT && a->a[0]->w == b->a[0]->w) return mkSlt(a->a[0], b->a[0]);
    if (a->op == T_SEXT && b->isc()) {
        unsigned iw = a->a[0]->w;
        int64_t v = sextv(b->val, w), mn = sextv(1ull << (iw - 1), iw), mx = (int64_t)maskw(iw - 1);
        if (v > mx) return mkTrue();
        if (v <= mn) return mkFalse();
        return mkSlt(a->a[0], mkConst((uint64_t)v, iw));
    }
    if (b->op == T_SEXT && a->isc()) {
        unsigned iw = b->a[0]->w;
        int64_t v = sextv(a->val, w), mn = sextv(1ull << (iw - 1), iw), mx = (int64_t)maskw(iw - 1);
        if (v >= mx) return mkFalse();
        if (v < mn) return mkTrue();
        return mkSlt(mkConst((uint64_t)v, iw), b->a[0]);
    }
    TP args[2] = {a, b};
    return intern(T_SLT, 1, 0, 2, args);
}

// ---- tables
TP mkTable(const std::vector<TP> &e) { return intern(T_TABLE, 0, e.empty() ? 0 : e[0]->w, e.size(), e.data()); }
TP mkTbl(TP table, TP idx) {
    if (idx->isc()) return table->a[idx->val < table->n ? idx->val : table->n - 1];
    bool same = true;
    for (uint32_t i = 1; i < table->n && same; i++) same = table->a[i] == table->a[0];
    if (same) return table->a[0];
    if (idx->w == 1 && table->n >= 2) return mkIte(idx, table->a[1], table->a[0]);
    TP args[2] = {table, idx};
    return intern(T_TBL, table->a[0]->w, 0, 2, args);
}
TP mkTuple(const std::vector<TP> &v) { return intern(T_TUPLE, 0, 0, v.size(), v.data()); }

TP mkRebuild(TP t, TP const *A) {
    switch (t->op) {
    case T_CONST:
    case T_VAR: return t;
    case T_ADD: return mkAddN(std::vector<TP>(A, A + t->n), t->w);
    case T_MUL:
        if (A[0]->isc() && A[0]->val > 1 && (A[0]->val & (A[0]->val - 1)) == 0 && !A[1]->isc()) return intern(T_MUL, t->w, 0, 2, (TP *)A);
        return mkMul(A[0], A[1]);
    case T_AND:
    case T_OR:
    case T_XOR: return mkBitN(t->op, std::vector<TP>(A, A + t->n), t->w);
    case T_SHL: return mkShl(A[0], A[1]);
    case T_LSHR: return mkLshr(A[0], A[1]);
    case T_ASHR: return mkAshr(A[0], A[1]);
    case T_UDIV: return mkUdiv(A[0], A[1]);
    case T_SDIV: return mkSdiv(A[0], A[1]);
    case T_UREM: return mkUrem(A[0], A[1]);
    case T_SREM: return mkSrem(A[0], A[1]);
    case T_CONCAT: return mkConcat(std::vector<TP>(A, A + t->n));
    case T_EXTRACT: return mkExtract(A[0], t->val, t->w);
    case T_SEXT: return mkSext(A[0], t->w);
    case T_ITE: return mkIte(A[0], A[1], A[2]);
    case T_EQ: return mkEq(A[0], A[1]);
    case T_ULT: return mkUlt(A[0], A[1]);
    case T_SLT: return mkSlt(A[0], A[1]);
    case T_TABLE: return mkTable(std::vector<TP>(A, A + t->n));
    case T_TBL: return mkTbl(A[0], A[1]);
    case T_TUPLE: return mkTuple(std::vector<TP>(A, A + t->n));
    }
    return t;
}

std::string termStr(TP t, int depth) {
    char buf[64];
    if (t->isc()) {
        snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)t->val, t->w);
        return buf;
    }
    if (t->op == T_VAR) return gVars[t->val].name;
    if (depth == 0) {
        snprintf(buf, sizeof buf, "#%u", t->id);
        return buf;
    }
    std::string s = "(";
    s += opName[t->op];
    if (t->op == T_EXTRACT) {
        snprintf(buf, sizeof buf, "[%u:%u]", (unsigned)(t->val + t->w - 1), (unsigned)t->val);
        s += buf;
    }
    for (uint32_t i = 0; i < t->n && i < 12; i++) s += " " + termStr(t->a[i], depth - 1);
    if (t->n > 12) s += " ...";
    return s + ")";
}

std::vector<TP> topo(const std::vector<TP> &roots) {
    std::vector<TP> out, st(roots);
    std::vector<bool> seen(gTermCount, false);
    while (!st.empty()) {
        TP t = st.back();
        st.pop_back();
        if (seen[t->id]) continue;
        seen[t->id] = true;
        out.push_back(t);
        for (uint32_t i = 0; i < t->n; i++)
            if (!seen[t->a[i]->id]) st.push_back(t->a[i]);
    }
    std::sort(out.begin(), out.end(), [](TP a, TP b) { return a->id < b->id; });
    return out;
}

uint64_t evalOp(TP t, const uint64_t *A) {
    unsigned w = t->w;
    uint64_t M = maskw(w), r = 0;
    switch (t->op) {
    case T_ADD: for (uint32_t i = 0; i < t->n; i++) r += A[i]; return r & M;
    case T_MUL: return (A[0] * A[1]) & M;
    case T_AND: r = M; for (uint32_t i = 0; i < t->n; i++) r &= A[i]; return r;
    case T_OR: for (uint32_t i = 0; i < t->n; i++) r |= A[i]; return r;
    case T_XOR: for (uint32_t i = 0; i < t->n; i++) r ^= A[i]; return r;
    case T_SHL: return A[1] >= w ? 0 : (A[0] << A[1]) & M;
    case T_LSHR: return A[1] >= w ? 0 : A[0] >> A[1];
    case T_ASHR: return (uint64_t)(sextv(A[0], w) >> (A[1] >= w ? w - 1 : A[1])) & M;
    case T_UDIV: return A[1] ? A[0] / A[1] : M;
    case T_UREM: return A[1] ? A[0] % A[1] : A[0];
    case T_SDIV: {
        int64_t x = sextv(A[0], w), y = sextv(A[1], w);
        if (y == 0) return x < 0 ? 1 : M;
        if (y == -1) return (0 - (uint64_t)x) & M;
        return (uint64_t)(x / y) & M;
    }
    case T_SREM: {
        int64_t x = sextv(A[0], w), y = sextv(A[1], w);
        if (y == 0) return A[0];
        if (y == -1) return 0;
        return (uint64_t)(x % y) & M;
    }
    case T_CONCAT: for (uint32_t i = 0; i < t->n; i++) r = (t->a[i]->w >= 64 ? 0 : r << t->a[i]->w) | A[i]; return r;
    case T_EXTRACT: return (A[0] >> t->val) & M;
    case T_SEXT: return (uint64_t)sextv(A[0], t->a[0]->w) & M;
    case T_ITE: return A[0] ? A[1] : A[2];
    case T_EQ: return A[0] == A[1];
    case T_ULT: return A[0] < A[1];
    case T_SLT: return sextv(A[0], t->a[0]->w) < sextv(A[1], t->a[1]->w);
    default: return 0;
    }
}

uint64_t evalTerm(TP root, const Model &m) {
    if (root->isc()) return root->val;
    std::vector<TP> st{root};
    std::vector<uint64_t> args;
    while (!st.empty()) {
        TP t = st.back();
        if (m.memo.count(t)) {
            st.pop_back();
            continue;
        }
        uint64_t r = 0;
        if (t->isc()) r = t->val;
        else if (t->op == T_VAR) r = m.get(t->val) & maskw(t->w);
        else if (t->op == T_TABLE || t->op == T_TUPLE) r = 0;
        else if (t->op == T_TBL) {
            auto it = m.memo.find(t->a[1]);
            if (it == m.memo.end()) {
                st.push_back(t->a[1]);
                continue;
            }
            uint64_t ix = it->second;
            TP e = t->a[0]->a[ix < t->a[0]->n ? ix : t->a[0]->n - 1];
            auto ie = m.memo.find(e);
            if (ie == m.memo.end()) {
                st.push_back(e);
                continue;
            }
            r = ie->second;
        }
        else if (t->op == T_ITE) {
            auto ic = m.memo.find(t->a[0]);
            if (ic == m.memo.end()) {
                st.push_back(t->a[0]);
                continue;
            }
            TP e = ic->second ? t->a[1] : t->a[2];
            auto ie = m.memo.find(e);
            if (ie == m.memo.end()) {
                st.push_back(e);
                continue;
            }
            r = ie->second;
        }
        else {
            bool ready = true;
            args.clear();
            for (uint32_t i = 0; i < t->n; i++) {
                if (t->a[i]->isc()) {
                    args.push_back(t->a[i]->val);
                    continue;
                }
                auto it = m.memo.find(t->a[i]);
                if (it == m.memo.end()) {
                    st.push_back(t->a[i]);
                    ready = false;
                }
                else
                    args.push_back(it->second);
            }
            if (!ready) continue;
            r = evalOp(t, args.data());
        }
        m.memo[t] = r;
        st.pop_back();
    }
    return m.memo[root];
}
