// Random differential test of the term constructors: every term is built through the normalising constructors while
// the same operation is evaluated directly on concrete values.
#include "term.h"
#include <cstdio>
#include <random>
#include <vector>
static const int NV = 10, NS = 8;
struct N {
    TP t;
    uint64_t v[NS];
};
static int64_t sx(uint64_t v, unsigned w) { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
int selftest(unsigned rounds, uint64_t seed) {
    std::mt19937_64 rng(seed);
    unsigned long checked = 0;
    std::vector<Model> ms(NS);
    std::vector<N> base;
    static const unsigned ws[] = {1, 8, 8, 8, 8, 16, 32, 32, 64, 64};
    for (int i = 0; i < NV; i++) {
        N n;
        n.t = mkVar("t" + std::to_string(i), ws[i]);
        for (int k = 0; k < NS; k++) {
            uint64_t v = rng();
            if (k == 1) v = 0;
            if (k == 2) v = ~0ull;
            if (k > 5) v &= 3;
            n.v[k] = v & maskw(ws[i]);
            ms[k].v[n.t->val] = n.v[k];
        }
        base.push_back(n);
    }
    for (unsigned r = 0; r < rounds; r++) {
        std::vector<N> pool = base;
        auto konst = [&](unsigned w) {
            N n;
            uint64_t c = rng();
            switch (rng() % 6) {
            case 0: c = 0; break;
            case 1: c = ~0ull; break;
            case 2: c = 1ull << (rng() % w); break;
            case 3: c = (1ull << (rng() % w)) - 1; break;
            case 4: c = 0xffull << (8 * (rng() % 8)); break;
            }
            n.t = mkConst(c & maskw(w), w);
            for (int k = 0; k < NS; k++) n.v[k] = c & maskw(w);
            return n;
        };
        auto pick = [&](unsigned w) {
            if (rng() % 5 == 0) return konst(w);
            N n = pool[pool.size() - 1 - rng() % std::min<size_t>(pool.size(), 14)];
            if (n.t->w == w) return n;
            N o;
            if (n.t->w > w) {
                unsigned lo = rng() % 2 ? 0 : rng() % (n.t->w - w + 1);
                o.t = mkExtract(n.t, lo, w);
                for (int k = 0; k < NS; k++) o.v[k] = n.v[k] >> lo & maskw(w);
            }
            else if (rng() % 2) {
                o.t = mkZext(n.t, w);
                for (int k = 0; k < NS; k++) o.v[k] = n.v[k];
            }
            else {
                o.t = mkSext(n.t, w);
                for (int k = 0; k < NS; k++) o.v[k] = (uint64_t)sx(n.v[k], n.t->w) & maskw(w);
            }
            return o;
        };
        for (int s = 0; s < 60; s++) {
            static const unsigned W[] = {8, 16, 32, 32, 64, 64, 64, 1};
            unsigned w = W[rng() % 8];
            uint64_t M = maskw(w);
            N a = pick(w), b = pick(w), o;
            unsigned op = rng() % 22;
            unsigned sh = rng() % w;
            N c = pick(1);
            auto each = [&](auto f) {
                for (int k = 0; k < NS; k++) o.v[k] = f(a.v[k], b.v[k], k) & maskw(o.t->w);
            };
            typedef uint64_t U;
            switch (op) {
            case 0: case 1: o.t = mkAdd(a.t, b.t); each([](U x, U y, int) { return x + y; }); break;
            case 2: o.t = mkSub(a.t, b.t); each([](U x, U y, int) { return x - y; }); break;
            case 3: o.t = mkMul(a.t, b.t); each([](U x, U y, int) { return x * y; }); break;
            case 4: case 5: o.t = mkAnd(a.t, b.t); each([](U x, U y, int) { return x & y; }); break;
            case 6: o.t = mkOr(a.t, b.t); each([](U x, U y, int) { return x | y; }); break;
            case 7: case 8: o.t = mkXor(a.t, b.t); each([](U x, U y, int) { return x ^ y; }); break;
            case 9: o.t = mkShl(a.t, mkConst(sh, w)); each([&](U x, U, int) { return x << sh; }); break;
            case 10: o.t = mkLshr(a.t, mkConst(sh, w)); each([&](U x, U, int) { return x >> sh; }); break;
            case 11: o.t = mkAshr(a.t, mkConst(sh, w)); each([&](U x, U, int) { return (U)(sx(x, w) >> sh); }); break;
            case 12: // rotate
                o.t = mkOr(mkShl(a.t, mkConst(sh, w)), mkLshr(a.t, mkConst(w - sh, w)));
                if (sh == 0) { o = a; break; }
                each([&](U x, U, int) { return x << sh | x >> (w - sh); });
                break;
            case 13: o.t = mkIte(c.t, a.t, b.t); each([&](U x, U y, int k) { return c.v[k] ? x : y; }); break;
            case 14: o.t = mkEq(a.t, b.t); each([](U x, U y, int) { return (U)(x == y); }); break;
            case 15: o.t = mkUlt(a.t, b.t); each([](U x, U y, int) { return (U)(x < y); }); break;
            case 16: o.t = mkSlt(a.t, b.t); each([&](U x, U y, int) { return (U)(sx(x, w) < sx(y, w)); }); break;
            case 17: { // symbolic shifts
                unsigned which = rng() % 3;
                N amt = pick(w);
                amt.t = mkAnd(amt.t, mkConst(w - 1, w));
                for (int k = 0; k < NS; k++) amt.v[k] &= w - 1;
                o.t = which == 0 ? mkShl(a.t, amt.t) : which == 1 ? mkLshr(a.t, amt.t) : mkAshr(a.t, amt.t);
                each([&](U x, U, int k) { return which == 0 ? x << amt.v[k] : which == 1 ? x >> amt.v[k] : (U)(sx(x, w) >> amt.v[k]); });
                break;
            }
            case 18: { // concat
                if (w != 32 && w != 16) { o.t = mkNot(a.t); each([](U x, U, int) { return ~x; }); if (w != 1) o = a; break; }
                o.t = mkConcat2(a.t, b.t);
                each([&](U x, U y, int) { return x << w | y; });
                break;
            }
            case 19: { // bytes to word
                N p[4] = {pick(8), pick(8), pick(8), pick(8)};
                o.t = mkConcat({p[0].t, p[1].t, p[2].t, p[3].t});
                each([&](U, U, int k) { return p[0].v[k] << 24 | p[1].v[k] << 16 | p[2].v[k] << 8 | p[3].v[k]; });
                break;
            }
            case 21: { // (c*x + d*y + z) / c with x, y, z of fewer bits: with and without overflow
                if (w == 1) { o = a; break; }
                N p[3] = {pick(8), pick(8), pick(16)};
                uint64_t c = 1 + rng() % (w == 8 ? 40 : 2000), d = c * (rng() % 4);
                if (w == 8) p[2] = pick(8);
                TP sum = mkAddN({mkMul(mkConst(c, w), mkZext(p[0].t, w)), mkMul(mkConst(d, w), mkZext(p[1].t, w)), mkZext(p[2].t, w)}, w);
                bool rem = rng() % 2;
                c &= M;
                o.t = rem ? mkUrem(sum, mkConst(c, w)) : mkUdiv(sum, mkConst(c, w));
                each([&](U, U, int k) { U x = (c * p[0].v[k] + d * p[1].v[k] + p[2].v[k]) & M; return rem ? x % c : x / c; });
                break;
            }
            case 20: {
                unsigned k0 = rng() % 4;
                N d = konst(w);
                TP m = d.t;
                if (d.v[0] == 0) { o = a; break; }
                switch (k0) {
                case 0: o.t = mkUdiv(a.t, m); each([&](U x, U, int) { return x / d.v[0]; }); break;
                case 1: o.t = mkUrem(a.t, m); each([&](U x, U, int) { return x % d.v[0]; }); break;
                case 2: case 3: {
                    bool ov = sx(d.v[0], w) == -1;
                    if (ov) { o = a; break; }
                    o.t = k0 == 2 ? mkSdiv(a.t, m) : mkSrem(a.t, m);
                    each([&](U x, U, int) { int64_t y = sx(d.v[0], w); return (U)(k0 == 2 ? sx(x, w) / y : sx(x, w) % y); });
                    break;
                }
                }
                break;
            }
            }
            for (int k = 0; k < NS; k++) {
                ms[k].memo.clear();
                uint64_t e = evalTerm(o.t, ms[k]);
                checked++;
                if (e != o.v[k]) {
                    printf("selftest: round %u op %u width %u: term gives %llx, direct evaluation %llx\n  a=%s\n  b=%s\n  o=%s\n", r, op, w,
                           (unsigned long long)e, (unsigned long long)o.v[k], termStr(a.t, 4).c_str(), termStr(b.t, 4).c_str(), termStr(o.t, 5).c_str());
                    return 1;
                }
                if ((e & o.t->kz) || e > o.t->umax) {
                    printf("selftest: wrong value analysis for %s\n", termStr(o.t, 5).c_str());
                    return 1;
                }
            }
            // the rebuilt term is the same function
            if (o.t->n && o.t->op != T_TABLE && o.t->op != T_TBL) {
                std::vector<TP> args(o.t->a, o.t->a + o.t->n);
                TP rb = mkRebuild(o.t, args.data());
                for (int k = 0; k < NS; k++) {
                    ms[k].memo.clear();
                    if (evalTerm(rb, ms[k]) != o.v[k]) {
                        printf("selftest: rebuilt term differs: %s\n", termStr(o.t, 5).c_str());
                        return 1;
                    }
                }
            }
            pool.push_back(o);
        }
    }
    printf("selftest: %lu evaluations agree\n", checked);
    return 0;
}
