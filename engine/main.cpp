// irsym: run harness entries of a bitcode module symbolically.
// usage: irsym module.bc jobs.txt out.json [options]
// jobs.txt: one job per line: entry arg arg ...
#include "exec.h"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sstream>

static std::string js(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else o += c;
    }
    return o + "\"";
}
static std::string pairsJs(const std::vector<std::pair<std::string, std::string>> &v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + std::string("[") + js(v[i].first) + "," + js(v[i].second) + "]";
    return o + "]";
}

int selftest(unsigned rounds, uint64_t seed);
int main(int argc, char **argv) {
    if (argc >= 3 && std::string(argv[1]) == "--selftest") return selftest(atoi(argv[2]), argc > 3 ? atoll(argv[3]) : 1);
    if (argc < 4) return 3;
    llvm::LLVMContext C;
    llvm::SMDiagnostic err;
    auto M = llvm::parseIRFile(argv[1], err, C);
    if (!M) {
        err.print("irsym", llvm::errs());
        return 3;
    }
    // a harness's __wrap_f stands in for f, __real_f is the function itself (as with the linker's --wrap)
    std::vector<std::pair<llvm::Function *, llvm::Function *>> wraps;
    for (auto &F : *M)
        if (F.getName().starts_with("__wrap_"))
            if (auto *T = M->getFunction(F.getName().drop_front(7))) wraps.push_back({&F, T});
    for (auto &w : wraps) {
        w.second->replaceAllUsesWith(w.first);
        if (auto *R = M->getFunction(("__real_" + w.second->getName()).str())) R->replaceAllUsesWith(w.second);
    }
    Engine E(M.get());
    double totalWall = 1e9;
    for (int i = 4; i + 1 < argc; i += 2) {
        std::string o = argv[i], v = argv[i + 1];
        if (o == "--repo") E.repoPrefix = v;
        else if (o == "--wall") E.maxWall = atof(v.c_str());
        else if (o == "--total") totalWall = atof(v.c_str());
        else if (o == "--steps") E.maxSteps = atoll(v.c_str());
        else if (o == "--paths") E.maxPaths = atoll(v.c_str());
        else if (o == "--seed") gSeed = atoll(v.c_str());
        else if (o == "--samples") E.maxSamples = atoi(v.c_str());
        else if (o == "--assert-timeout") E.assertTimeout = atoi(v.c_str());
        else if (o == "--trace") E.trace = atoi(v.c_str());
    }
    E.setup();
    E.repoFns.clear();
    double t0 = E.wallNow();
    std::ifstream in(argv[2]);
    std::ofstream out(argv[3]);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string e;
        if (!(is >> e)) continue;
        std::vector<int64_t> a;
        int64_t x;
        while (is >> x) a.push_back(x);
        JobResult r;
        SmtStats before = gSmt;
        std::set<std::string> keepFns = E.repoFns;
        E.repoFns.clear();
        if (E.wallNow() - t0 > totalWall) {
            r.entry = e;
            r.args = a;
            r.incomplete = true;
            r.incompleteWhy = "time limit of the whole run";
        }
        else
            E.run(e, a, r);
        std::string o = "{\"entry\":" + js(e) + ",\"args\":[";
        for (size_t i = 0; i < a.size(); i++) o += (i ? "," : "") + std::to_string(a[i]);
        o += "],\"paths\":" + std::to_string(r.paths) + ",\"merged\":" + std::to_string(r.merged) + ",\"forks\":" + std::to_string(r.forks) + ",\"steps\":" + std::to_string(r.steps);
        o += ",\"infeasible\":" + std::to_string(r.infeasible);
        o += ",\"obligations\":" + std::to_string(r.oblTotal) + ",\"structural\":" + std::to_string(r.oblStructural) + ",\"swept\":" + std::to_string(r.oblSwept) + ",\"solver\":" + std::to_string(r.oblSolver) + ",\"unknown\":" + std::to_string(r.oblUnknown);
        o += ",\"bounds_queries\":" + std::to_string(r.memChecksSolver);
        o += ",\"queries\":" + std::to_string(gSmt.queries - before.queries) + ",\"sweep_queries\":" + std::to_string(gSmt.sweepQueries - before.sweepQueries) + ",\"sweep_cached\":" + std::to_string(gSmt.sweepCacheHits - before.sweepCacheHits) + ",\"cut_points\":" + std::to_string(gSmt.sweepMerged - before.sweepMerged);
        char b[64];
        snprintf(b, sizeof b, "%.3f", gSmt.seconds - before.seconds);
        o += ",\"solver_seconds\":" + std::string(b);
        snprintf(b, sizeof b, "%.3f", r.wall);
        o += ",\"wall\":" + std::string(b) + ",\"terms\":" + std::to_string(gTermCount);
        o += ",\"incomplete\":" + js(r.incomplete ? r.incompleteWhy : "");
        o += ",\"reach\":{";
        bool first = true;
        for (auto &p : r.reach) {
            o += (first ? "" : ",") + js(p.first) + ":" + std::to_string(p.second);
            first = false;
        }
        o += "},\"functions\":[";
        first = true;
        for (auto &p : E.repoFns) {
            o += (first ? "" : ",") + js(p);
            first = false;
        }
        o += "],\"violations\":[";
        for (size_t i = 0; i < r.violations.size(); i++) {
            auto &v = r.violations[i];
            o += (i ? "," : "") + std::string("{\"kind\":") + js(v.kind) + ",\"msg\":" + js(v.msg) + ",\"where\":" + js(v.where) + ",\"inputs\":" + pairsJs(v.inputs) + "}";
        }
        o += "],\"samples\":[";
        for (size_t i = 0; i < r.samples.size(); i++) o += (i ? "," : "") + std::string("{\"inputs\":") + pairsJs(r.samples[i].inputs) + ",\"obs\":" + pairsJs(r.samples[i].obs) + "}";
        o += "],\"race_checks\":" + std::to_string(r.raceChecks) + ",\"thread_switches\":" + std::to_string(r.switches);
        o += "}\n";
        out << o << std::flush;
    }
    return 0;
}
