// Hash-consed bit-vector terms (width 1..64) with normalising constructors.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_map>
#include <vector>

enum Op : uint8_t {
    T_CONST, T_VAR, T_ADD, T_MUL, T_AND, T_OR, T_XOR, T_SHL, T_LSHR, T_ASHR, T_UDIV, T_SDIV, T_UREM, T_SREM,
    T_CONCAT, T_EXTRACT, T_SEXT, T_ITE, T_EQ, T_ULT, T_SLT, T_TABLE, T_TBL, T_TUPLE
};
extern const char *opName[];

struct Term;
typedef const Term *TP;

struct Term {
    Op op;
    uint8_t w;      // width in bits; 0 for TABLE/TUPLE
    bool undef;     // depends (syntactically) on an uninitialised-data variable
    uint32_t id;
    uint32_t n;
    uint64_t val;   // CONST: value; VAR: variable index; EXTRACT: low bit
    uint64_t kz;    // bits known to be zero
    uint64_t umax;  // upper bound (unsigned)
    TP a[0];
    bool isc() const { return op == T_CONST; }
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextv(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    return (int64_t)(v << (64 - w)) >> (64 - w);
}

struct VarInfo {
    std::string name;
    unsigned w;
    bool undef;
};
extern std::vector<VarInfo> gVars;
extern std::vector<TP> gVarTerm;
extern size_t gTermCount;

TP mkConst(uint64_t v, unsigned w);
TP mkVar(const std::string &name, unsigned w, bool undef = false);
TP mkAdd(TP a, TP b);
TP mkAddN(const std::vector<TP> &v, unsigned w);
TP mkSub(TP a, TP b);
TP mkNeg(TP a);
TP mkMul(TP a, TP b);
TP mkAnd(TP a, TP b);
TP mkOr(TP a, TP b);
TP mkXor(TP a, TP b);
TP mkNot(TP a);
TP mkShl(TP a, TP b);
TP mkLshr(TP a, TP b);
TP mkAshr(TP a, TP b);
TP mkUdiv(TP a, TP b);
TP mkSdiv(TP a, TP b);
TP mkUrem(TP a, TP b);
TP mkSrem(TP a, TP b);
TP mkConcat(const std::vector<TP> &hiToLo);
TP mkConcat2(TP hi, TP lo);
TP mkExtract(TP a, unsigned lo, unsigned w);
TP mkZext(TP a, unsigned w);
TP mkSext(TP a, unsigned w);
TP mkTrunc(TP a, unsigned w);
TP mkIte(TP c, TP a, TP b);
TP mkEq(TP a, TP b);
TP mkUlt(TP a, TP b);
TP mkSlt(TP a, TP b);
TP mkTable(const std::vector<TP> &entries);
TP mkTbl(TP table, TP idx);
TP mkTuple(const std::vector<TP> &v);
TP mkRebuild(TP t, TP const *args); // same operator with new arguments (through the normalising constructors)
inline TP mkTrue() { return mkConst(1, 1); }
inline TP mkFalse() { return mkConst(0, 1); }
inline bool isTrue(TP t) { return t->isc() && t->val == 1; }
inline bool isFalse(TP t) { return t->isc() && t->val == 0; }

std::string termStr(TP t, int depth = 6);

// All terms reachable from the roots, ordered by id (arguments first).
std::vector<TP> topo(const std::vector<TP> &roots);

// Evaluation under an assignment (variables absent from the map take value 0)
struct Model {
    std::unordered_map<uint32_t, uint64_t> v; // by variable index
    mutable std::unordered_map<TP, uint64_t> memo;
    uint64_t get(uint32_t var) const {
        auto it = v.find(var);
        return it == v.end() ? 0 : it->second;
    }
};
uint64_t evalTerm(TP t, const Model &m);
uint64_t evalOp(TP t, const uint64_t *args); // scalar ops (not CONST/VAR/TABLE/TBL)
