#pragma once
#include "term.h"
#include <unordered_set>

enum SatRes { R_SAT, R_UNSAT, R_UNKNOWN };

struct SmtStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0;
    uint64_t sweepQueries = 0, sweepCacheHits = 0, sweepMerged = 0;
    double seconds = 0;
};
extern SmtStats gSmt;
extern uint64_t gSeed;

// Satisfiability of a conjunction. On SAT fills `m` (if given) for the variables occurring.
SatRes smtCheck(const std::vector<TP> &conj, Model *m, unsigned timeoutMs);

// Decide whether all pairs are equal under the path condition `pc`.
// R_UNSAT: proved equal. R_SAT: differ, `cex` set. R_UNKNOWN: undecided.
struct EqStats {
    uint64_t structural = 0, swept = 0, solver = 0;
};
SatRes proveEqual(const std::vector<std::pair<TP, TP>> &pairs, const std::vector<TP> &pc, Model *cex, unsigned timeoutMs, EqStats &st);

std::string dumpSmt2(const std::vector<TP> &conj);
