#include "smt.h"
#include <set>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <z3.h>

SmtStats gSmt;
uint64_t gSeed = 1;

static Z3_context Z = nullptr;
static void zerr(Z3_context, Z3_error_code) {}
static void initZ() {
    if (Z) return;
    Z3_config c = Z3_mk_config();
    Z = Z3_mk_context(c); // legacy (auto refcount) mode: asts live until the context is reset
    Z3_set_error_handler(Z, zerr);
    Z3_del_config(c);
}
static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

struct Conv {
    std::unordered_map<TP, Z3_ast> memo;
    const std::unordered_map<TP, uint32_t> *cut = nullptr; // terms replaced by fresh variables
    std::unordered_map<uint32_t, Z3_ast> vars;             // engine variable index -> z3 const
    Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(Z, w); }
    Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(Z, v, bv(w)); }
    Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(Z, b, num(1, 1), num(0, 1)); }
    Z3_ast leaf(TP t) {
        char nm[40];
        if (t->op == T_VAR) {
            snprintf(nm, sizeof nm, "v%llu", (unsigned long long)t->val);
            Z3_ast a = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), bv(t->w));
            vars[t->val] = a;
            return a;
        }
        snprintf(nm, sizeof nm, "c%u", t->id);
        return Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), bv(t->w));
    }
    Z3_ast tblTree(TP tab, Z3_ast idx, unsigned iw, unsigned bit, uint64_t base) {
        // select over the idx bits below `bit`
        if (bit == 0) {
            uint64_t i = base < tab->n ? base : tab->n - 1;
            return memo.at(tab->a[i]);
        }
        if (base >= tab->n) return memo.at(tab->a[tab->n - 1]);
        Z3_ast lo = tblTree(tab, idx, iw, bit - 1, base);
        uint64_t hb = base + (1ull << (bit - 1));
        if (hb >= tab->n && base + 1 >= tab->n) return lo;
        Z3_ast hi = tblTree(tab, idx, iw, bit - 1, hb);
        if (hi == lo) return lo;
        Z3_ast b = Z3_mk_eq(Z, Z3_mk_extract(Z, bit - 1, bit - 1, idx), num(1, 1));
        return Z3_mk_ite(Z, b, hi, lo);
    }
    Z3_ast build(TP t) {
        unsigned w = t->w;
        auto A = [&](uint32_t i) { return memo.at(t->a[i]); };
        Z3_ast r;
        switch (t->op) {
        case T_CONST: return num(t->val, w);
        case T_VAR: return leaf(t);
        case T_ADD: r = A(0); for (uint32_t i = 1; i < t->n; i++) r = Z3_mk_bvadd(Z, r, A(i)); return r;
        case T_MUL: return Z3_mk_bvmul(Z, A(0), A(1));
        case T_AND: r = A(0); for (uint32_t i = 1; i < t->n; i++) r = Z3_mk_bvand(Z, r, A(i)); return r;
        case T_OR: r = A(0); for (uint32_t i = 1; i < t->n; i++) r = Z3_mk_bvor(Z, r, A(i)); return r;
        case T_XOR: r = A(0); for (uint32_t i = 1; i < t->n; i++) r = Z3_mk_bvxor(Z, r, A(i)); return r;
        case T_SHL: return Z3_mk_bvshl(Z, A(0), A(1));
        case T_LSHR: return Z3_mk_bvlshr(Z, A(0), A(1));
        case T_ASHR: return Z3_mk_bvashr(Z, A(0), A(1));
        case T_UDIV: return Z3_mk_bvudiv(Z, A(0), A(1));
        case T_SDIV: return Z3_mk_bvsdiv(Z, A(0), A(1));
        case T_UREM: return Z3_mk_bvurem(Z, A(0), A(1));
        case T_SREM: return Z3_mk_bvsrem(Z, A(0), A(1));
        case T_CONCAT: r = A(0); for (uint32_t i = 1; i < t->n; i++) r = Z3_mk_concat(Z, r, A(i)); return r;
        case T_EXTRACT: return Z3_mk_extract(Z, t->val + w - 1, t->val, A(0));
        case T_SEXT: return Z3_mk_sign_ext(Z, w - t->a[0]->w, A(0));
        case T_ITE: return Z3_mk_ite(Z, Z3_mk_eq(Z, A(0), num(1, 1)), A(1), A(2));
        case T_EQ: return b2v(Z3_mk_eq(Z, A(0), A(1)));
        case T_ULT: return b2v(Z3_mk_bvult(Z, A(0), A(1)));
        case T_SLT: return b2v(Z3_mk_bvslt(Z, A(0), A(1)));
        case T_TBL: {
            TP tab = t->a[0];
            unsigned iw = t->a[1]->w, bits = 0;
            while (bits < iw && (1ull << bits) < tab->n) bits++;
            Z3_ast r = tblTree(tab, A(1), iw, bits, 0);
            if (bits < iw) { // index beyond the table: last entry
                Z3_ast big = Z3_mk_bvuge(Z, A(1), num(1ull << bits, iw));
                r = Z3_mk_ite(Z, big, memo.at(tab->a[tab->n - 1]), r);
            }
            return r;
        }
        default: return num(0, 1);
        }
    }
    Z3_ast conv(TP root) {
        std::vector<TP> st{root};
        while (!st.empty()) {
            TP t = st.back();
            if (memo.count(t)) {
                st.pop_back();
                continue;
            }
            if (cut && cut->count(t)) {
                char nm[40];
                snprintf(nm, sizeof nm, "k%u", cut->at(t));
                memo[t] = t->isc() ? num(t->val, t->w) : Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), bv(t->w));
                st.pop_back();
                continue;
            }
            bool ready = true;
            for (uint32_t i = 0; i < t->n; i++)
                if (!memo.count(t->a[i])) {
                    st.push_back(t->a[i]);
                    ready = false;
                }
            if (!ready) continue;
            memo[t] = t->op == T_TABLE || t->op == T_TUPLE ? nullptr : build(t);
            st.pop_back();
        }
        return memo[root];
    }
};

static uint64_t gSinceReset = 0;
static void maybeReset() {
    if (++gSinceReset > 400) { // drop all asts now and then to bound memory
        Z3_del_context(Z);
        Z = nullptr;
        gSinceReset = 0;
    }
    initZ();
}

static SatRes runZ3here(const std::vector<Z3_ast> &asserts, Conv &cv, Model *m, unsigned timeoutMs) {
    Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    Z3_solver_inc_ref(Z, s);
    Z3_params p = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), timeoutMs);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "random_seed"), (unsigned)gSeed);
    Z3_solver_set_params(Z, s, p);
    for (Z3_ast a : asserts) Z3_solver_assert(Z, s, a);
    Z3_lbool r = Z3_solver_check(Z, s);
    if (r == Z3_L_TRUE && m) {
        Z3_model zm = Z3_solver_get_model(Z, s);
        Z3_model_inc_ref(Z, zm);
        for (auto &kv : cv.vars) {
            Z3_ast val;
            if (Z3_model_eval(Z, zm, kv.second, true, &val)) {
                uint64_t u = 0;
                Z3_get_numeral_uint64(Z, val, &u);
                m->v[kv.first] = u;
            }
        }
        Z3_model_dec_ref(Z, zm);
    }
    Z3_params_dec_ref(Z, p);
    Z3_solver_dec_ref(Z, s);
    if (r == Z3_L_TRUE) return R_SAT;
    if (r == Z3_L_FALSE) return R_UNSAT;
    return R_UNKNOWN;
}

// Z3 does not honour its timeout in every preprocessing step; large queries are run in a child process that can be killed.
static SatRes runZ3forked(const std::vector<Z3_ast> &asserts, Conv &cv, Model *m, unsigned timeoutMs) {
    int fd[2];
    if (pipe(fd)) return runZ3here(asserts, cv, m, timeoutMs);
    pid_t pid = fork();
    if (pid < 0) {
        close(fd[0]);
        close(fd[1]);
        return runZ3here(asserts, cv, m, timeoutMs);
    }
    if (pid == 0) {
        close(fd[0]);
        Model mm;
        SatRes r = runZ3here(asserts, cv, &mm, timeoutMs);
        std::vector<uint64_t> buf{(uint64_t)r};
        for (auto &p : mm.v) {
            buf.push_back(p.first);
            buf.push_back(p.second);
        }
        const char *p = (const char *)buf.data();
        size_t n = buf.size() * 8;
        while (n) {
            ssize_t k = write(fd[1], p, n);
            if (k <= 0) break;
            p += k;
            n -= k;
        }
        _exit(0);
    }
    close(fd[1]);
    std::vector<char> got;
    double end = now() + timeoutMs / 1000.0 + 2;
    bool killed = false;
    for (;;) {
        int left = (int)((end - now()) * 1000);
        if (left <= 0) {
            killed = true;
            break;
        }
        struct pollfd pf = {fd[0], POLLIN, 0};
        int pr = poll(&pf, 1, left);
        if (pr < 0) continue;
        if (pr == 0) {
            killed = true;
            break;
        }
        char tmp[65536];
        ssize_t k = read(fd[0], tmp, sizeof tmp);
        if (k <= 0) break;
        got.insert(got.end(), tmp, tmp + k);
    }
    close(fd[0]);
    if (killed) kill(pid, SIGKILL);
    waitpid(pid, nullptr, 0);
    if (killed || got.size() < 8) return R_UNKNOWN;
    const uint64_t *q = (const uint64_t *)got.data();
    size_t n = got.size() / 8;
    SatRes r = (SatRes)q[0];
    if (m)
        for (size_t i = 1; i + 1 < n; i += 2) m->v[q[i]] = q[i + 1];
    return r;
}
static SatRes runZ3(const std::vector<Z3_ast> &asserts, Conv &cv, Model *m, unsigned timeoutMs) {
    double t0 = now();
    SatRes r = cv.memo.size() > 1500 ? runZ3forked(asserts, cv, m, timeoutMs) : runZ3here(asserts, cv, m, timeoutMs);
    gSmt.seconds += now() - t0;
    return r;
}

struct CacheEnt {
    SatRes r;
    std::vector<std::pair<uint32_t, uint64_t>> model;
};
static std::map<std::vector<uint32_t>, CacheEnt> qcache;

// Conditions over one variable of at most 8 bits: the set of values satisfying each is kept, conjunction is intersection.
struct ByteSet {
    TP var = nullptr; // null: not of this kind
    uint64_t s[4] = {0, 0, 0, 0};
};
static std::unordered_map<TP, ByteSet> byteSets;
static const ByteSet &byteSet(TP t) {
    auto it = byteSets.find(t);
    if (it != byteSets.end()) return it->second;
    ByteSet b;
    std::vector<TP> ns = topo({t});
    TP var = nullptr;
    bool ok = ns.size() <= 300;
    for (TP x : ns)
        if (x->op == T_VAR) {
            if (var || x->w > 8) ok = false;
            var = x;
        }
    if (ok && var) {
        b.var = var;
        Model m;
        for (unsigned v = 0; v < 1u << var->w; v++) {
            m.memo.clear();
            m.v[(uint32_t)var->val] = v;
            if (evalTerm(t, m) & 1) b.s[v >> 6] |= 1ull << (v & 63);
        }
    }
    return byteSets[t] = b;
}
static bool byteCheck(const std::vector<TP> &conj, Model *m, SatRes &r) {
    uint64_t s[4] = {~0ull, ~0ull, ~0ull, ~0ull};
    TP var = nullptr;
    for (TP t : conj) {
        const ByteSet &b = byteSet(t);
        if (!b.var || (var && var != b.var)) return false;
        var = b.var;
        for (int i = 0; i < 4; i++) s[i] &= b.s[i];
    }
    if (!var) return false;
    r = R_UNSAT;
    for (int i = 0; i < 4; i++)
        if (s[i]) {
            if (m) m->v[(uint32_t)var->val] = i * 64 + __builtin_ctzll(s[i]);
            r = R_SAT;
            break;
        }
    return true;
}
SatRes smtCheck(const std::vector<TP> &conjIn, Model *m, unsigned timeoutMs) {
    std::vector<uint32_t> key;
    std::vector<TP> conj;
    std::unordered_set<TP> seen;
    std::vector<TP> st(conjIn.rbegin(), conjIn.rend());
    while (!st.empty()) { // flatten conjunctions
        TP t = st.back();
        st.pop_back();
        if (isFalse(t)) return R_UNSAT;
        if (isTrue(t) || seen.count(t)) continue;
        seen.insert(t);
        if (t->op == T_AND) {
            for (uint32_t i = 0; i < t->n; i++) st.push_back(t->a[i]);
            continue;
        }
        conj.push_back(t);
    }
    for (TP t : conj) {
        if (seen.count(mkNot(t))) return R_UNSAT;
        key.push_back(t->id);
    }
    if (conj.empty()) return R_SAT;
    SatRes br;
    if (byteCheck(conj, m, br)) {
        gSmt.queries++;
        (br == R_SAT ? gSmt.sat : gSmt.unsat)++;
        return br;
    }
    std::sort(key.begin(), key.end());
    auto it = qcache.find(key);
    if (it != qcache.end()) {
        gSmt.cacheHits++;
        if (m)
            for (auto &p : it->second.model) m->v[p.first] = p.second;
        return it->second.r;
    }
    maybeReset();
    Conv cv;
    std::vector<Z3_ast> as;
    for (TP t : conj) as.push_back(Z3_mk_eq(Z, cv.conv(t), cv.num(1, 1)));
    Model mm;
    double tq = now();
    SatRes r = runZ3(as, cv, &mm, timeoutMs);
    static const int slow = getenv("IRSYM_SLOW") ? atoi(getenv("IRSYM_SLOW")) : 0; // ms
    if (slow && (now() - tq) * 1000 > slow) {
        fprintf(stderr, "slow query %.1fs result %d\n", now() - tq, (int)r);
        for (TP t : conj) fprintf(stderr, "   %s\n", termStr(t, 7).c_str());
    }
    gSmt.queries++;
    (r == R_SAT ? gSmt.sat : r == R_UNSAT ? gSmt.unsat : gSmt.unknown)++;
    CacheEnt e;
    e.r = r;
    for (auto &p : mm.v) e.model.push_back(p);
    if (m)
        for (auto &p : mm.v) m->v[p.first] = p.second;
    if (r != R_UNKNOWN) qcache[key] = e;
    return r;
}

std::string dumpSmt2(const std::vector<TP> &conj) {
    initZ();
    Conv cv;
    std::string s;
    std::vector<Z3_ast> as;
    for (TP t : conj) as.push_back(Z3_mk_eq(Z, cv.conv(t), cv.num(1, 1)));
    if (as.empty()) return "";
    Z3_ast last = as.back();
    as.pop_back();
    return Z3_benchmark_to_smtlib_string(Z, "irsym", "QF_BV", "unknown", "", as.size(), as.data(), last);
}

// ---------------------------------------------------------------- SMT sweeping
static const int K = 48; // simulation vectors

struct Sims {
    std::unordered_map<TP, uint32_t> at;
    std::vector<uint64_t> data;
    const uint64_t *get(TP t) const { return &data[(size_t)at.at(t) * K]; }
};

static void collectVars(const std::vector<TP> &nodes, std::vector<TP> &vars) {
    for (TP t : nodes)
        if (t->op == T_VAR) vars.push_back(t);
}

static void simulate(const std::vector<TP> &nodes, const std::vector<std::unordered_map<uint32_t, uint64_t>> &vecs, Sims &S) {
    std::vector<uint64_t> args;
    for (TP t : nodes) {
        if (t->op == T_TABLE || t->op == T_TUPLE) continue;
        uint32_t ix = S.at.size();
        S.data.resize((size_t)(ix + 1) * K);
        uint64_t *out = &S.data[(size_t)ix * K];
        S.at[t] = ix;
        if (t->isc()) {
            for (int k = 0; k < K; k++) out[k] = t->val;
        }
        else if (t->op == T_VAR) {
            for (int k = 0; k < K; k++) {
                auto it = vecs[k].find(t->val);
                out[k] = (it == vecs[k].end() ? 0 : it->second) & maskw(t->w);
            }
        }
        else if (t->op == T_TBL) {
            const uint64_t *ixs = S.get(t->a[1]);
            TP tab = t->a[0];
            for (int k = 0; k < K; k++) {
                TP e = tab->a[ixs[k] < tab->n ? ixs[k] : tab->n - 1];
                out[k] = e->isc() ? e->val : S.get(e)[k];
            }
        }
        else {
            args.resize(t->n);
            std::vector<const uint64_t *> ap(t->n);
            for (uint32_t i = 0; i < t->n; i++) ap[i] = S.get(t->a[i]);
            for (int k = 0; k < K; k++) {
                for (uint32_t i = 0; i < t->n; i++) args[i] = ap[i][k];
                out[k] = evalOp(t, args.data());
            }
        }
    }
}

// Serialise the cone of (a,b) above the cut with leaves renamed: cache key for local queries.
static void serial(TP t, const std::unordered_map<TP, uint32_t> &cut, std::unordered_map<TP, uint32_t> &num, std::string &out) {
    auto it = num.find(t);
    if (it != num.end()) {
        out += '@' + std::to_string(it->second) + ' ';
        return;
    }
    if (t->isc()) {
        out += 'c' + std::to_string(t->val) + ':' + std::to_string(t->w) + ' ';
        return;
    }
    uint32_t n = num.size();
    num[t] = n;
    if (cut.count(t)) {
        out += 'L' + std::to_string(t->w) + ' ';
        return;
    }
    out += '(';
    out += opName[t->op];
    out += std::to_string(t->w) + ',' + std::to_string(t->val) + ' ';
    for (uint32_t i = 0; i < t->n; i++) serial(t->a[i], cut, num, out);
    out += ')';
}
static std::unordered_map<std::string, SatRes> sweepCache;

static SatRes localQuery(TP a, TP b, const std::unordered_map<TP, uint32_t> &cut, unsigned timeoutMs) {
    std::string key;
    std::unordered_map<TP, uint32_t> num;
    serial(a, cut, num, key);
    key += '=';
    serial(b, cut, num, key);
    auto it = sweepCache.find(key);
    if (it != sweepCache.end()) {
        gSmt.sweepCacheHits++;
        return it->second;
    }
    maybeReset();
    Conv cv;
    cv.cut = &cut;
    Z3_ast x = cv.conv(a), y = cv.conv(b);
    std::vector<Z3_ast> as{Z3_mk_not(Z, Z3_mk_eq(Z, x, y))};
    SatRes r = runZ3(as, cv, nullptr, timeoutMs);
    gSmt.sweepQueries++;
    sweepCache[key] = r;
    return r;
}

// Cut for the pair: cones expanded to `depth` levels; shared nodes of both cones are preferred leaves.
static void makeCut(TP a, TP b, int depth, size_t maxNodes, std::unordered_map<TP, uint32_t> &cut, bool &exact, bool bitwise = false) {
    exact = true;
    std::unordered_map<TP, int> level; // minimal depth at which seen
    std::vector<TP> frontier{a, b}, next;
    std::unordered_set<TP> inner;
    level[a] = level[b] = 0;
    for (int d = 0; d < depth && !frontier.empty(); d++) {
        next.clear();
        for (TP t : frontier) {
            if (inner.count(t)) continue;
            if (bitwise && d && (t->op == T_ADD || t->op == T_MUL || t->op == T_TBL)) continue; // arithmetic stays a leaf
            inner.insert(t);
            for (uint32_t i = 0; i < t->n; i++) {
                TP x = t->a[i];
                if (x->op == T_TABLE) { // tables of constants stay inside, others are expanded
                    inner.insert(x);
                    for (uint32_t j = 0; j < x->n; j++)
                        if (!level.count(x->a[j])) {
                            level[x->a[j]] = d + 1;
                            next.push_back(x->a[j]);
                        }
                    continue;
                }
                if (!level.count(x)) {
                    level[x] = d + 1;
                    next.push_back(x);
                }
            }
            if (inner.size() > maxNodes) break;
        }
        frontier.swap(next);
        if (inner.size() > maxNodes) {
            for (TP t : next) frontier.push_back(t);
            break;
        }
    }
    // leaves: reached but not expanded
    uint32_t k = 0;
    std::vector<TP> leaves;
    for (auto &kv : level)
        if (!inner.count(kv.first)) leaves.push_back(kv.first);
    std::sort(leaves.begin(), leaves.end(), [](TP x, TP y) { return x->id < y->id; });
    for (TP t : leaves) {
        cut[t] = k++;
        if (!t->isc() && t->op != T_VAR) exact = false;
    }
}

static std::string show(TP t, int d) {
    if (t->isc()) return "#" + std::to_string(t->val) + ":" + std::to_string(t->w);
    std::string s = std::string(opName[t->op]) + std::to_string(t->w) + "@" + std::to_string(t->id);
    if (t->op == T_EXTRACT) s += "[" + std::to_string(t->val) + "]";
    if (!d || !t->n) return s;
    s += "(";
    for (uint32_t i = 0; i < t->n; i++) s += (i ? " " : "") + show(t->a[i], d - 1);
    return s + ")";
}
static std::set<std::pair<TP, TP>> provenPairs;
// Equality over GF(2): every bit of a ^ b is expanded through exclusive or, concatenation,
// extraction and constant bits of conjunctions, larger terms first, so that whatever occurs an
// even number of times cancels before it is expanded. Sound; says false when anything is left.
static bool linearEqual(TP a, TP b) {
    auto linear = [](TP t) { return t->op == T_XOR || t->op == T_CONCAT || t->op == T_EXTRACT || t->op == T_AND; };
    if (a->w > 64 || !linear(a) || !linear(b)) return false;
    size_t steps = 0;
    for (unsigned bit = a->w; bit-- > 0;) {
        std::map<std::pair<uint32_t, unsigned>, TP> todo, atoms; // (id, bit) present: occurs an odd number of times
        bool one = false;
        auto flip = [](std::map<std::pair<uint32_t, unsigned>, TP> &m, TP t, unsigned i) {
            auto r = m.emplace(std::make_pair(t->id, i), t);
            if (!r.second) m.erase(r.first);
        };
        auto toggle = [&](TP t, unsigned i) {
            if (t->isc()) one ^= t->val >> i & 1;
            else if (!(t->kz >> i & 1)) flip(todo, t, i);
        };
        toggle(a, bit);
        toggle(b, bit);
        while (!todo.empty()) {
            auto it = std::prev(todo.end());
            TP t = it->second;
            unsigned i = it->first.second;
            todo.erase(it);
            if (++steps > 100000) return false;
            switch (t->op) {
            case T_XOR:
                for (uint32_t j = 0; j < t->n; j++) toggle(t->a[j], i);
                break;
            case T_EXTRACT: toggle(t->a[0], i + t->val); break;
            case T_CONCAT: {
                unsigned pos = t->w;
                for (uint32_t j = 0; j < t->n; j++) {
                    pos -= t->a[j]->w;
                    if (i >= pos) {
                        toggle(t->a[j], i - pos);
                        break;
                    }
                }
                break;
            }
            case T_AND: {
                if (t->w == 1 && t->a[0]->w == 1 && t->a[0]->op != T_EXTRACT && t->a[0]->op != T_XOR && t->a[0]->op != T_AND) {
                    flip(atoms, t, i);
                    break;
                }
                TP r = mkTrue();
                for (uint32_t j = 0; j < t->n; j++) r = mkAnd(r, mkExtract(t->a[j], i, 1));
                if (r->op == T_AND) flip(atoms, r, 0);
                else toggle(r, 0);
                break;
            }
            default: flip(atoms, t, i);
            }
        }
        if (one || !atoms.empty()) return false;
    }
    return true;
}
SatRes proveEqual(const std::vector<std::pair<TP, TP>> &pairs, const std::vector<TP> &pc, Model *cex, unsigned timeoutMs, EqStats &st) {
    std::vector<TP> roots;
    std::vector<std::pair<TP, TP>> open;
    for (auto &p : pairs) {
        if (p.first == p.second) {
            st.structural++;
            continue;
        }
        if (provenPairs.count(p)) { // proved before, whatever the path condition
            st.swept++;
            continue;
        }
        open.push_back(p);
        roots.push_back(p.first);
        roots.push_back(p.second);
    }
    if (open.empty()) return R_UNSAT;

    std::vector<TP> nodes = topo(roots);
    std::vector<TP> pcNodes = topo(pc);
    std::vector<TP> vars, allNodes;
    {
        std::unordered_set<TP> s(nodes.begin(), nodes.end());
        allNodes = nodes;
        for (TP t : pcNodes)
            if (s.insert(t).second) allNodes.push_back(t);
        std::sort(allNodes.begin(), allNodes.end(), [](TP a, TP b) { return a->id < b->id; });
    }
    collectVars(allNodes, vars);

    // simulation vectors: random, special and (with a path condition) neighbours of models that satisfy it
    std::mt19937_64 rng(gSeed * 7919 + 17);
    std::vector<std::unordered_map<uint32_t, uint64_t>> vecs(K);
    std::vector<bool> valid(K, true);
    Model base;
    bool havePc = false;
    for (TP t : pc)
        if (!isTrue(t)) havePc = true;
    if (havePc) {
        SatRes r = smtCheck(pc, &base, timeoutMs);
        if (r == R_UNSAT) return R_UNSAT;
    }
    std::unordered_set<uint32_t> pcVars;
    for (TP t : pcNodes)
        if (t->op == T_VAR) pcVars.insert(t->val);
    for (int k = 0; k < K; k++)
        for (TP v : vars) {
            uint64_t r = rng();
            if (k == 1) r = 0;
            else if (k == 2) r = ~0ull;
            else if (k % 7 == 3) r = (r & 3) ? 0 : rng();
            else if (k % 7 == 4) r = rng() & 0xff;
            if (havePc && pcVars.count(v->val)) {
                uint64_t bval = base.get(v->val);
                int mode = k % 4;
                if (k == 0 || mode == 0) r = bval;
                else if (mode == 1) r = (rng() % 8) ? bval : r;
                else if (mode == 2) r = (rng() % 2) ? bval : r;
            }
            vecs[k][v->val] = r;
        }
    Sims S;
    simulate(allNodes, vecs, S);
    if (havePc)
        for (TP c : pc) {
            if (c->isc()) continue;
            const uint64_t *s = S.get(c);
            for (int k = 0; k < K; k++)
                if (!s[k]) valid[k] = false;
        }
    auto toCex = [&](int k) {
        if (cex)
            for (TP v : vars) cex->v[v->val] = vecs[k][v->val] & maskw(v->w);
    };
    for (auto &p : open) {
        const uint64_t *x = S.get(p.first), *y = S.get(p.second);
        for (int k = 0; k < K; k++)
            if (valid[k] && x[k] != y[k]) {
                toCex(k);
                return R_SAT;
            }
    }
    // small problem: go straight to the solver
    auto finalQuery = [&](const std::vector<std::pair<TP, TP>> &ps, unsigned tmo) -> SatRes {
        std::vector<TP> q(pc);
        TP diff = mkFalse();
        for (auto &p : ps) diff = mkOr(diff, mkNot(mkEq(p.first, p.second)));
        q.push_back(diff);
        Model m;
        SatRes r = smtCheck(q, &m, tmo);
        if (r == R_SAT && cex) *cex = m;
        return r;
    };
    if (nodes.size() < 150) {
        SatRes r = finalQuery(open, std::min(timeoutMs, 400u)); // sweeping follows when it is hard
        if (r != R_UNKNOWN) {
            if (r == R_UNSAT) st.solver += open.size();
            return r;
        }
    }
    // sweep
    std::unordered_map<TP, TP> rep;
    struct VecHash {
        size_t operator()(const std::string &s) const { return std::hash<std::string>()(s); }
    };
    std::unordered_map<std::string, std::vector<TP>> buckets;
    std::unordered_set<TP> known; // representatives already placed
    auto sig = [&](TP t) {
        std::string s((const char *)S.get(t), K * sizeof(uint64_t));
        s += (char)t->w;
        return s;
    };
    // cheap local proof attempts with growing depth
    static const int debug = getenv("IRSYM_DBG") ? atoi(getenv("IRSYM_DBG")) : 0;
    double t0 = now();
    auto tryMerge = [&](TP a, TP b) -> bool {
        static const int depths[] = {4, 2, 3, 5, 8};
        static const unsigned tmo[] = {1500, 1500, 1500, 2500, 4000};
        size_t lastLeaves = 0;
        if (linearEqual(a, b)) return true;
        if ((a->op == T_XOR || b->op == T_XOR) && a->w <= 64) { // what they share cancels
            a = mkXor(a, b);
            b = mkConst(0, a->w);
            if (a == b) return true;
        }
        for (int i = 0; i < 5; i++) {
            std::unordered_map<TP, uint32_t> cut;
            bool exact;
            makeCut(a, b, depths[i], i ? 400 : 60, cut, exact, i == 0);
            if (i > 1 && cut.size() == lastLeaves && exact) break;
            if (i > 2 && cut.size() > 120) break; // hopeless: too many unrelated leaves
            lastLeaves = cut.size();
            if (debug) fprintf(stderr, "merge %s = %s depth %d leaves %zu t=%.2f\n", show(a, debug).c_str(), show(b, debug).c_str(), depths[i], cut.size(), now() - t0);
            SatRes r = localQuery(a, b, cut, tmo[i]);
            if (r == R_UNSAT) return true;
            if (exact && r == R_SAT) return false;
        }
        return false;
    };
    double budget = timeoutMs / 1000.0 * 4;
    std::vector<TP> tmp;
    for (TP t : nodes) {
        TP r = t;
        if (t->n) {
            tmp.clear();
            bool ch = false;
            for (uint32_t i = 0; i < t->n; i++) {
                auto it = rep.find(t->a[i]);
                TP x = it == rep.end() ? t->a[i] : it->second;
                ch |= x != t->a[i];
                tmp.push_back(x);
            }
            if (ch) r = mkRebuild(t, tmp.data());
        }
        if (r->isc() || t->op == T_VAR || t->op == T_TABLE || t->op == T_TUPLE) {
            rep[t] = r;
            continue;
        }
        if (known.count(r)) {
            rep[t] = r;
            continue;
        }
        auto &b = buckets[sig(t)];
        TP found = nullptr;
        int tries = 0;
        if (now() - t0 < budget)
            for (TP c : b) {
                if (c->w != r->w || ++tries > 3) continue;
                if (tryMerge(r, c)) {
                    found = c;
                    gSmt.sweepMerged++;
                    break;
                }
            }
        if (found) {
            rep[t] = found;
            rep[r] = found;
        }
        else {
            rep[t] = r;
            rep[r] = r;
            known.insert(r);
            b.push_back(r);
            if (!S.at.count(r)) {
                uint32_t ix = S.at.size();
                S.data.resize((size_t)(ix + 1) * K);
                std::memcpy(&S.data[(size_t)ix * K], &S.data[(size_t)S.at[t] * K], K * sizeof(uint64_t));
                S.at[r] = ix;
            }
        }
    }
    std::vector<std::pair<TP, TP>> rest;
    for (auto &p : open) {
        TP a = rep[p.first], b = rep[p.second];
        if (a == b) {
            st.swept++;
            provenPairs.insert(p);
        }
        else rest.push_back({a, b});
    }
    if (rest.empty()) return R_UNSAT;
    SatRes r = finalQuery(rest, timeoutMs);
    if (r == R_UNSAT) st.solver += rest.size();
    return r;
}
