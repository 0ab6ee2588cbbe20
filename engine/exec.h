#pragma once
#include "smt.h"
#include "term.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Module.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <array>
#include <cstring>
#include <vector>

static const unsigned SLOT_BITS = 36; // one object per 64 GiB slot
static const uint64_t SLOT_OFF = 0x100000000ull; // objects start here inside their slot (room for underflow)

struct Cell {
    TP t;          // nullptr: uninitialised
    uint32_t idx;  // byte of t held by this cell
};
static const unsigned PAGE = 128;
struct Page {
    Cell c[PAGE];
};
enum ObjKind : uint8_t { O_STACK, O_HEAP, O_GLOBAL, O_FUNC, O_EXT };
struct Object {
    uint64_t base, size;
    ObjKind kind;
    bool ro = false;
    bool big = false;       // read-only zeros of any size
    bool shared = true;
    bool isNewArray = false, isMalloc = false;
    std::string name;
    std::vector<std::shared_ptr<Page>> pages;
    std::map<uint64_t, std::shared_ptr<Page>> sparse;
    uint64_t bytesRead = 0, readLimit = 0; // for `big` objects
    uint8_t owner = 0;                     // the thread that created it
    TP tableCache = nullptr;
    uint64_t tableKey = 0;
};

struct Operand {
    int reg = -1;
    TP c = nullptr;
};
struct DInst {
    unsigned opc;
    llvm::Instruction *I;
    int dst = -1;
    unsigned w = 0;             // result width (integers/pointers)
    std::vector<Operand> ops;
    // GEP
    uint64_t constOff = 0;
    std::vector<std::pair<Operand, uint64_t>> idx;
    std::vector<int> succ;      // branch targets (block numbers)
    std::vector<uint64_t> cases;
    llvm::Function *callee = nullptr;
    int builtin = -1;           // builtin id when the callee has no body
    int pred = 0;
};
struct DBlock {
    std::vector<DInst> ins;
    std::vector<std::vector<std::pair<int, Operand>>> phiIn; // per phi: (pred block, operand)
    std::vector<int> phiDst;
    int ipdom = -1; // -1: function exit
};
struct FnInfo {
    llvm::Function *F;
    std::vector<DBlock> blocks;
    int nregs = 0;
    std::vector<int> argRegs;
    bool fromRepo = false;
    std::string file;
    uint64_t calls = 0;
};

struct Frame {
    FnInfo *fn;
    uint64_t uid;
    int block = 0, ip = 0;
    bool ctorRun = false;
    int prevBlock = -1;
    std::vector<TP> regs;
    std::vector<uint64_t> allocas;
    std::vector<std::pair<TP, unsigned>> varargs; // value, width
    int namedArgs = 0;
};

struct MergePoint {
    uint64_t uid;   // frame
    int block;      // -1: frame exit
    int pending = 0;
    MergePoint *parent = nullptr;
    std::vector<struct State *> parked;
};

struct InputRec {
    std::string name;
    std::vector<TP> bytes;
    bool big = false;
    uint64_t bigSize = 0;
};
struct ObsRec {
    std::string name;
    std::vector<TP> bytes;
};
// data races: per byte the last write and the last read of each thread
static const int NTHR = 4;
typedef std::array<uint32_t, NTHR> VClock;
struct Shadow {
    uint32_t w = 0, r[NTHR] = {};
    uint8_t wt = 0;
    bool operator==(const Shadow &o) const { return w == o.w && wt == o.wt && !memcmp(r, o.r, sizeof r); }
};

struct State {
    std::vector<Frame> stack;
    std::shared_ptr<std::unordered_map<uint64_t, std::shared_ptr<Object>>> base; // shared, immutable
    std::unordered_map<uint64_t, std::shared_ptr<Object>> mem;                    // overlay (nullptr: removed)
    std::vector<TP> pc;
    std::shared_ptr<Model> model;
    MergePoint *mp = nullptr;
    uint64_t steps = 0, stepCap = 0, idleQueries = 0;
    uint64_t nextSlot;
    std::vector<InputRec> inputs;
    std::vector<ObsRec> obs;
    std::unordered_map<TP, uint64_t> concretized;
    // threads: the stack above belongs to the running one
    int thread = 0;
    bool threads = false, raceOff = false;
    struct Suspended {
        std::vector<Frame> stack;
        uint64_t exObj = 0, exType = 0;
        std::vector<std::pair<uint64_t, uint64_t>> caught;
    };
    std::array<Suspended, NTHR> others;
    std::array<VClock, NTHR> vc{};
    std::map<uint64_t, VClock> lockClock;
    std::unordered_map<uint64_t, std::shared_ptr<std::vector<Shadow>>> shadow;
    bool mergeOn = true;
    // exception in flight
    uint64_t exObj = 0, exType = 0;
    std::vector<std::pair<uint64_t, uint64_t>> caught;
};

struct Violation {
    std::string kind, msg, where;
    std::vector<std::pair<std::string, std::string>> inputs; // name, hex
    std::string undefNote;
};

struct JobResult {
    std::string entry;
    std::vector<int64_t> args;
    uint64_t paths = 0, merged = 0, forks = 0, steps = 0, infeasible = 0, assertsSeen = 0;
    uint64_t oblTotal = 0, oblStructural = 0, oblSwept = 0, oblSolver = 0, oblUnknown = 0;
    uint64_t memChecksSolver = 0;
    bool incomplete = false;
    std::string incompleteWhy;
    std::vector<Violation> violations;
    std::map<std::string, uint64_t> reach;
    // samples for native validation
    struct Sample {
        std::vector<std::pair<std::string, std::string>> inputs;
        std::vector<std::pair<std::string, std::string>> obs;
    };
    std::vector<Sample> samples;
    uint64_t raceChecks = 0, switches = 0;
    double wall = 0;
};

struct Engine {
    llvm::Module *M;
    const llvm::DataLayout *DL;
    std::unordered_map<const llvm::Function *, std::unique_ptr<FnInfo>> fns;
    std::unordered_map<const llvm::GlobalValue *, uint64_t> gaddr;
    std::unordered_map<uint64_t, llvm::Function *> faddr;
    std::unordered_map<uint64_t, const llvm::GlobalValue *> addrGV;
    State init;
    uint64_t uidCounter = 1;
    // limits
    uint64_t maxSteps = 200000000ull, maxPaths = 200000;
    double maxWall = 300, firstViolation = 0;
    unsigned feasTimeout = 20000, assertTimeout = 120000;
    unsigned maxSamples = 2;
    std::string repoPrefix;
    bool trace = false;
    bool cutAtSteps = false; // reaching the step limit is an intended cut, not an incompleteness

    JobResult *res = nullptr;
    std::vector<State *> work;
    double jobStart = 0;
    std::set<std::string> violKeys;
    std::set<std::string> repoFns; // repository functions executed

    explicit Engine(llvm::Module *m);
    void setup();
    void run(const std::string &entry, const std::vector<int64_t> &args, JobResult &out);

    // --- internals
    FnInfo *info(llvm::Function *F);
    TP constTerm(const llvm::Constant *C);
    Operand operand(llvm::Value *V, std::unordered_map<llvm::Value *, int> &regs);
    uint64_t newObject(State &s, uint64_t size, ObjKind k, const std::string &name);
    Object *robj(State &s, uint64_t slot);
    Object *wobj(State &s, uint64_t slot);
    void storeInit(State &s, Object *o, uint64_t off, const llvm::Constant *C);
    Cell *cellR(Object *o, uint64_t off);
    Cell &cellW(Object *o, uint64_t off);
    TP loadBytes(State &s, uint64_t slot, uint64_t off, unsigned n);
    void storeBytes(State &s, uint64_t slot, uint64_t off, TP v, unsigned n);

    enum Res { CONT, FORKED, DEAD };
    Res step(State *s);
    Res execInst(State *s, Frame &f, DInst &d);
    Res execCall(State *s, Frame &f, DInst &d);
    Res callFunction(State *s, llvm::Function *F, const std::vector<TP> &args, const std::vector<unsigned> &widths, DInst &d);
    Res builtinCall(State *s, Frame &f, DInst &d, const std::string &name, const std::vector<TP> &args, const std::vector<unsigned> &widths);
    Res enterBlock(State *s, int b);
    Res finishCall(State *s, TP ret, bool noPark = false);
    Res doReturn(State *s, TP ret);
    Res throwEx(State *s, uint64_t obj, uint64_t type);
    Res unwind(State *s);
    bool typeMatches(uint64_t thrown, uint64_t clause);
    Res branchOn(State *s, TP cond, int tb, int fb);
    Res access(State *s, TP addr, unsigned n, bool write, uint64_t &slot, uint64_t &off, TP &symOff);
    Res raceCheck(State *s, Object *o, uint64_t slot, uint64_t off, uint64_t n, bool write);
    void acquire(State *s, uint64_t addr);
    void release(State *s, uint64_t addr);
    TP loadSym(State *s, uint64_t slot, TP off, unsigned n);
    void storeSym(State *s, uint64_t slot, TP off, TP v, unsigned n);
    Res loadType(State *s, llvm::Type *T, TP addr, TP &out);
    Res storeType(State *s, llvm::Type *T, TP addr, TP v);
    Res concretize(State *s, TP t, uint64_t &v, const char *what);
    Res forkOn(State *s, TP cond); // re-executes the current instruction in both children
    bool assume(State *s, TP cond); // false: infeasible
    SatRes feasible(State *s, TP cond, Model *m);
    Res checkUndef(State *s, TP cond, const char *what);
    Res report(State *s, const std::string &kind, const std::string &msg, const Model *m);
    std::string where(State *s);
    std::string cstr(State *s, TP p);
    Res die(State *s, bool completed);
    Res incomplete(State *s, const std::string &why);
    Res park(State *s);
    void escape(State *s);
    void addPc(State *s, TP c, const std::shared_ptr<Model> &m);
    TP undefTerm(unsigned w, const std::string &name);
    TP undefOf(llvm::Type *T);
    TP val(Frame &f, const Operand &o) { return o.reg >= 0 ? f.regs[o.reg] : o.c; }
    Res memCopy(State *s, TP d, TP sv, TP n, bool move);
    Res memSet(State *s, TP d, TP v, TP n);
    void removeObject(State &s, uint64_t slot);
    std::shared_ptr<Object> &slotRef(State &s, uint64_t slot);
    TP loadN(State &s, uint64_t slot, uint64_t off, unsigned n, unsigned w);
    Res invalidAccess(State *s, const std::string &what, const Model *m);
    uint64_t typeIdFor(uint64_t ti);
    uint64_t stdTypeInfo(const std::string &name);
    std::map<uint64_t, uint64_t> typeIds;
    std::map<std::string, uint64_t> pseudoTypes;
    std::map<uint64_t, std::string> typeNames;
    std::string typeName(uint64_t ti);
    bool baseBuilt = false;
    llvm::Function *curSetup = nullptr;
    std::vector<TP> sliceFor(const std::vector<TP> &pc, TP cond);
    void pathEnded(State *s);
    void mpSettle(MergePoint *mp);
    bool mergeInto(State *a, State *b);
    void sample(State *s);
    TP fpop(unsigned opc, llvm::Type *T, TP a, TP b, bool &ok);
    std::vector<std::pair<std::string, std::string>> inputsHex(State *s, const Model &m);
    double wallNow();
    Res assertTrue(State *s, TP c, const std::string &msg);
};
