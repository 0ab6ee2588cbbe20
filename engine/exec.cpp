// Symbolic executor for LLVM IR.
#include "exec.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <functional>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

static double nowS() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}
double Engine::wallNow() { return nowS(); }

static std::string hexs(const uint8_t *p, size_t n) {
    static const char *d = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; i++) {
        s += d[p[i] >> 4];
        s += d[p[i] & 15];
    }
    return s;
}

static unsigned typeW(Type *T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isPointerTy()) return 64;
    if (T->isDoubleTy()) return 64;
    if (T->isFloatTy()) return 32;
    return 0;
}

Engine::Engine(Module *m) : M(m), DL(&m->getDataLayout()) {}

// ------------------------------------------------------------------ objects
std::shared_ptr<Object> &Engine::slotRef(State &s, uint64_t slot) {
    auto it = s.mem.find(slot);
    if (it != s.mem.end()) return it->second;
    auto &r = s.mem[slot];
    if (s.base) {
        auto jt = s.base->find(slot);
        if (jt != s.base->end()) r = jt->second;
    }
    return r;
}
Object *Engine::robj(State &s, uint64_t slot) {
    auto it = s.mem.find(slot);
    if (it != s.mem.end()) return it->second.get();
    if (s.base) {
        auto jt = s.base->find(slot);
        if (jt != s.base->end()) return jt->second.get();
    }
    return nullptr;
}
Object *Engine::wobj(State &s, uint64_t slot) {
    auto &r = slotRef(s, slot);
    if (!r) return nullptr;
    if (r.use_count() > 1) r = std::make_shared<Object>(*r);
    r->tableCache = nullptr;
    return r.get();
}
uint64_t Engine::newObject(State &s, uint64_t size, ObjKind k, const std::string &name) {
    uint64_t slot = s.nextSlot++;
    auto o = std::make_shared<Object>();
    o->base = (slot << SLOT_BITS) + SLOT_OFF;
    o->size = size;
    o->kind = k;
    o->name = name;
    o->owner = (uint8_t)s.thread;
    o->big = name == "huge input";
    o->ro = o->big;
    if (!o->big) o->pages.resize((size + PAGE - 1) / PAGE);
    s.mem[slot] = o;
    return slot;
}
void Engine::removeObject(State &s, uint64_t slot) {
    if (s.base && s.base->count(slot)) s.mem[slot] = nullptr;
    else s.mem.erase(slot);
}
static const Page zeroPage{};
Cell *Engine::cellR(Object *o, uint64_t off) {
    if (o->big) { // all zeros
        static Cell zero{mkConst(0, 8), 0};
        return &zero;
    }
    auto &p = o->pages[off / PAGE];
    if (!p) return const_cast<Cell *>(&zeroPage.c[0]);
    return &p->c[off % PAGE];
}
Cell &Engine::cellW(Object *o, uint64_t off) {
    auto &p = o->pages[off / PAGE];
    if (!p) {
        p = std::make_shared<Page>();
        memset((void *)p.get(), 0, sizeof(Page));
    }
    else if (p.use_count() > 1)
        p = std::make_shared<Page>(*p);
    return p->c[off % PAGE];
}
TP Engine::undefTerm(unsigned w, const std::string &name) {
    static uint64_t n = 0;
    return mkVar("undef:" + name + "#" + std::to_string(n++), w, true);
}
TP Engine::undefOf(Type *T) {
    if (auto *ST = dyn_cast<StructType>(T)) {
        std::vector<TP> v;
        for (Type *e : ST->elements()) v.push_back(undefOf(e));
        return mkTuple(v);
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) {
        std::vector<TP> v;
        for (uint64_t i = 0; i < AT->getNumElements(); i++) v.push_back(undefOf(AT->getElementType()));
        return mkTuple(v);
    }
    return undefTerm(typeW(T) ? typeW(T) : 64, "value");
}

TP Engine::loadBytes(State &s, uint64_t slot, uint64_t off, unsigned n) {
    Object *o = robj(s, slot);
    // initialise missing bytes
    for (unsigned i = 0; i < n; i++)
        if (!cellR(o, off + i)->t) {
            o = wobj(s, slot);
            Cell &c = cellW(o, off + i);
            c.t = undefTerm(8, o->name + "+" + std::to_string(off + i));
            c.idx = 0;
        }
    Cell *c0 = cellR(o, off);
    TP t = c0->t;
    uint32_t ix = c0->idx;
    bool same = true;
    for (unsigned i = 1; i < n && same; i++) {
        Cell *c = cellR(o, off + i);
        same = c->t == t && c->idx == ix + i;
    }
    if (same) {
        if (ix == 0 && t->w == n * 8) return t;
        return mkExtract(t, ix * 8, n * 8);
    }
    std::vector<TP> parts; // hi to lo
    for (int i = (int)n - 1; i >= 0;) {
        Cell *c = cellR(o, off + i);
        int j = i;
        while (j > 0) {
            Cell *p = cellR(o, off + j - 1), *q = cellR(o, off + j);
            if (p->t == q->t && p->idx + 1 == q->idx) j--;
            else break;
        }
        Cell *lo = cellR(o, off + j);
        unsigned w = (i - j + 1) * 8;
        parts.push_back(c->t->w == w && lo->idx == 0 ? c->t : mkExtract(c->t, lo->idx * 8, w));
        i = j - 1;
    }
    return mkConcat(parts);
}
void Engine::storeBytes(State &s, uint64_t slot, uint64_t off, TP v, unsigned n) {
    Object *o = wobj(s, slot);
    if (v->w < n * 8) v = mkZext(v, n * 8);
    for (unsigned i = 0; i < n; i++) {
        Cell &c = cellW(o, off + i);
        c.t = v;
        c.idx = i;
    }
}

// ------------------------------------------------------------------ constants, decoding
TP Engine::constTerm(const Constant *C) {
    Type *T = C->getType();
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
        if (CI->getBitWidth() > 64) return mkConst(CI->getValue().getLoBits(64).trunc(64).getZExtValue(), 64);
        return mkConst(CI->getZExtValue(), CI->getBitWidth());
    }
    if (isa<ConstantPointerNull>(C)) return mkConst(0, 64);
    if (isa<PoisonValue>(C) || isa<UndefValue>(C)) return undefOf(T);
    if (auto *CF = dyn_cast<ConstantFP>(C)) return mkConst(CF->getValueAPF().bitcastToAPInt().getZExtValue(), typeW(T));
    if (auto *GA = dyn_cast<GlobalAlias>(C)) return constTerm(GA->getAliasee());
    if (auto *GV = dyn_cast<GlobalValue>(C)) {
        auto it = gaddr.find(GV);
        if (it == gaddr.end()) {
            errs() << "no address for " << GV->getName() << "\n";
            return mkConst(0, 64);
        }
        return mkConst(it->second, 64);
    }
    if (isa<ConstantAggregateZero>(C) || isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantDataSequential>(C)) {
        std::vector<TP> v;
        unsigned n = isa<StructType>(T) ? T->getStructNumElements() : T->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) v.push_back(constTerm(C->getAggregateElement(i)));
        return mkTuple(v);
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *G = cast<GEPOperator>(CE);
            APInt off(64, 0);
            if (G->accumulateConstantOffset(*DL, off)) return mkAdd(constTerm(cast<Constant>(G->getPointerOperand())), mkConst(off.getZExtValue(), 64));
            break;
        }
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast: return constTerm(CE->getOperand(0));
        case Instruction::PtrToInt:
        case Instruction::IntToPtr: {
            TP x = constTerm(CE->getOperand(0));
            unsigned w = typeW(T);
            return x->w > w ? mkTrunc(x, w) : mkZext(x, w);
        }
        case Instruction::Add: return mkAdd(constTerm(CE->getOperand(0)), constTerm(CE->getOperand(1)));
        case Instruction::Sub: return mkSub(constTerm(CE->getOperand(0)), constTerm(CE->getOperand(1)));
        case Instruction::Trunc: return mkTrunc(constTerm(CE->getOperand(0)), typeW(T));
        case Instruction::ICmp: {
            TP a = constTerm(CE->getOperand(0)), b = constTerm(CE->getOperand(1));
            if (CE->getPredicate() == CmpInst::ICMP_EQ) return mkEq(a, b);
            if (CE->getPredicate() == CmpInst::ICMP_NE) return mkNot(mkEq(a, b));
            break;
        }
        default: break;
        }
    }
    errs() << "unsupported constant: ";
    C->print(errs());
    errs() << "\n";
    return undefTerm(typeW(T) ? typeW(T) : 64, "const");
}

void Engine::storeInit(State &s, Object *o, uint64_t off, const Constant *C) {
    Type *T = C->getType();
    if (isa<UndefValue>(C)) return;
    if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
        unsigned es = DL->getTypeAllocSize(CDS->getElementType());
        for (unsigned i = 0; i < CDS->getNumElements(); i++) {
            TP t = constTerm(CDS->getElementAsConstant(i));
            for (unsigned k = 0; k < es; k++) {
                Cell &c = cellW(o, off + (uint64_t)i * es + k);
                c.t = t;
                c.idx = k;
            }
        }
        return;
    }
    if (isa<ConstantAggregateZero>(C)) {
        TP z = mkConst(0, 8);
        uint64_t n = DL->getTypeAllocSize(T);
        for (uint64_t i = 0; i < n; i++) {
            Cell &c = cellW(o, off + i);
            c.t = z;
            c.idx = 0;
        }
        return;
    }
    if (auto *CS = dyn_cast<ConstantStruct>(C)) {
        auto *SL = DL->getStructLayout(CS->getType());
        for (unsigned i = 0; i < CS->getNumOperands(); i++) storeInit(s, o, off + SL->getElementOffset(i), CS->getOperand(i));
        return;
    }
    if (auto *CA = dyn_cast<ConstantArray>(C)) {
        uint64_t es = DL->getTypeAllocSize(CA->getType()->getElementType());
        for (unsigned i = 0; i < CA->getNumOperands(); i++) storeInit(s, o, off + i * es, CA->getOperand(i));
        return;
    }
    TP t = constTerm(C);
    unsigned n = DL->getTypeStoreSize(T);
    if (t->w < n * 8) t = mkZext(t, n * 8);
    for (unsigned k = 0; k < n; k++) {
        Cell &c = cellW(o, off + k);
        c.t = t;
        c.idx = k;
    }
}

void Engine::setup() {
    init.nextSlot = 16;
    init.model = std::make_shared<Model>();
    for (Function &F : *M) {
        if (F.isIntrinsic()) continue;
        uint64_t slot = newObject(init, 1, O_FUNC, F.getName().str());
        Object *o = robj(init, slot);
        o->ro = true;
        gaddr[&F] = o->base;
        faddr[o->base] = &F;
        addrGV[o->base] = &F;
    }
    for (GlobalVariable &G : M->globals()) {
        uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64;
        if (!sz) sz = 1;
        bool ext = !G.hasInitializer();
        uint64_t slot = newObject(init, ext && sz < 64 ? (sz == 1 ? 1 : sz) : sz, O_GLOBAL, G.getName().str());
        Object *o = wobj(init, slot);
        gaddr[&G] = o->base;
        addrGV[o->base] = &G;
    }
    for (GlobalVariable &G : M->globals()) {
        uint64_t slot = gaddr[&G] >> SLOT_BITS;
        Object *o = wobj(init, slot);
        if (G.hasInitializer()) {
            // padding is zero
            TP z = mkConst(0, 8);
            for (uint64_t i = 0; i < o->size; i++) {
                Cell &c = cellW(o, i);
                c.t = z;
                c.idx = 0;
            }
            storeInit(init, o, 0, G.getInitializer());
            o->ro = G.isConstant();
        }
        else {
            TP z = mkConst(0, 8);
            for (uint64_t i = 0; i < o->size; i++) {
                Cell &c = cellW(o, i);
                c.t = z;
                c.idx = 0;
            }
        }
    }
    // static constructors
    std::vector<std::pair<uint64_t, Function *>> ctors;
    if (auto *G = M->getNamedGlobal("llvm.global_ctors"))
        if (auto *CA = dyn_cast<ConstantArray>(G->getInitializer()))
            for (unsigned i = 0; i < CA->getNumOperands(); i++) {
                auto *CS = cast<ConstantStruct>(CA->getOperand(i));
                if (auto *F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts()))
                    ctors.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F});
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : ctors) {
        JobResult jr;
        baseBuilt = false;
        State *keep = nullptr;
        (void)keep;
        curSetup = c.second;
        run(c.second->getName().str(), {}, jr);
        curSetup = nullptr;
        for (auto &v : jr.violations) errs() << "static constructor " << c.second->getName() << ": " << v.kind << " " << v.msg << " at " << v.where << "\n";
        if (jr.incomplete) errs() << "static constructor " << c.second->getName() << " incomplete: " << jr.incompleteWhy << "\n";
    }
    init.base = std::make_shared<std::unordered_map<uint64_t, std::shared_ptr<Object>>>(init.mem);
    init.mem.clear();
    init.steps = 0;
}

Operand Engine::operand(Value *V, std::unordered_map<Value *, int> &regs) {
    Operand o;
    if (auto *C = dyn_cast<Constant>(V)) {
        o.c = constTerm(C);
        return o;
    }
    auto it = regs.find(V);
    if (it != regs.end()) o.reg = it->second;
    else o.c = mkConst(0, 64); // metadata, inline asm, blocks: unused
    return o;
}

FnInfo *Engine::info(Function *F) {
    auto &p = fns[F];
    if (p) return p.get();
    p = std::make_unique<FnInfo>();
    FnInfo *fi = p.get();
    fi->F = F;
    if (auto *SP = F->getSubprogram()) {
        std::string f = SP->getFilename().str();
        if (!f.empty() && f[0] != '/') f = SP->getDirectory().str() + "/" + f;
        fi->file = f;
        fi->fromRepo = !repoPrefix.empty() && f.compare(0, repoPrefix.size(), repoPrefix) == 0;
    }
    std::unordered_map<Value *, int> regs;
    for (Argument &A : F->args()) {
        regs[&A] = fi->nregs;
        fi->argRegs.push_back(fi->nregs++);
    }
    std::unordered_map<BasicBlock *, int> bn;
    int n = 0;
    for (BasicBlock &B : *F) {
        bn[&B] = n++;
        for (Instruction &I : B)
            if (!I.getType()->isVoidTy()) regs[&I] = fi->nregs++;
    }
    fi->blocks.resize(n);
    for (BasicBlock &B : *F) {
        DBlock &db = fi->blocks[bn[&B]];
        for (Instruction &I : B) {
            if (auto *P = dyn_cast<PHINode>(&I)) {
                db.phiDst.push_back(regs[P]);
                std::vector<std::pair<int, Operand>> in;
                for (unsigned i = 0; i < P->getNumIncomingValues(); i++) in.push_back({bn[P->getIncomingBlock(i)], operand(P->getIncomingValue(i), regs)});
                db.phiIn.push_back(in);
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            DInst d;
            d.opc = I.getOpcode();
            d.I = &I;
            if (!I.getType()->isVoidTy()) d.dst = regs[&I];
            d.w = typeW(I.getType());
            if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                d.ops.push_back(operand(G->getPointerOperand(), regs));
                for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
                    Value *ix = gti.getOperand();
                    if (StructType *ST = gti.getStructTypeOrNull()) {
                        d.constOff += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                        continue;
                    }
                    uint64_t es = DL->getTypeAllocSize(gti.getIndexedType());
                    if (auto *CI = dyn_cast<ConstantInt>(ix)) d.constOff += (uint64_t)CI->getSExtValue() * es;
                    else d.idx.push_back({operand(ix, regs), es});
                }
            }
            else if (auto *CB = dyn_cast<CallBase>(&I)) {
                for (unsigned i = 0; i < CB->arg_size(); i++) d.ops.push_back(operand(CB->getArgOperand(i), regs));
                Value *cv = CB->getCalledOperand()->stripPointerCasts();
                if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
                if (auto *CF = dyn_cast<Function>(cv)) d.callee = CF;
                else d.ops.push_back(operand(CB->getCalledOperand(), regs)); // last operand: callee
                if (auto *IV = dyn_cast<InvokeInst>(&I)) {
                    d.succ.push_back(bn[IV->getNormalDest()]);
                    d.succ.push_back(bn[IV->getUnwindDest()]);
                }
            }
            else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
                d.ops.push_back(operand(SW->getCondition(), regs));
                d.succ.push_back(bn[SW->getDefaultDest()]);
                for (auto &c : SW->cases()) {
                    d.cases.push_back(c.getCaseValue()->getZExtValue());
                    d.succ.push_back(bn[c.getCaseSuccessor()]);
                }
            }
            else if (auto *BR = dyn_cast<BranchInst>(&I)) {
                if (BR->isConditional()) d.ops.push_back(operand(BR->getCondition(), regs));
                for (unsigned i = 0; i < BR->getNumSuccessors(); i++) d.succ.push_back(bn[BR->getSuccessor(i)]);
            }
            else {
                for (Value *v : I.operands()) d.ops.push_back(operand(v, regs));
                if (auto *C = dyn_cast<CmpInst>(&I)) d.pred = C->getPredicate();
            }
            db.ins.push_back(d);
        }
    }
    // immediate post-dominators (normal edges only; blocks that cannot return are ignored)
    std::vector<std::vector<int>> succ(n), pred(n);
    std::vector<bool> isRet(n, false);
    int b = 0;
    for (BasicBlock &B : *F) {
        Instruction *T = B.getTerminator();
        if (isa<ReturnInst>(T)) isRet[b] = true;
        else if (auto *IV = dyn_cast<InvokeInst>(T)) succ[b].push_back(bn[IV->getNormalDest()]);
        else
            for (unsigned i = 0; i < T->getNumSuccessors(); i++) succ[b].push_back(bn[T->getSuccessor(i)]);
        b++;
    }
    std::vector<bool> live(n, false);
    bool ch = true;
    for (int i = 0; i < n; i++) live[i] = isRet[i];
    while (ch) {
        ch = false;
        for (int i = 0; i < n; i++)
            if (!live[i])
                for (int s : succ[i])
                    if (live[s]) {
                        live[i] = ch = true;
                        break;
                    }
    }
    // sets as bitvectors
    std::vector<std::vector<bool>> pd(n, std::vector<bool>(n + 1, true)); // index n: exit
    for (int i = 0; i < n; i++)
        if (!live[i]) pd[i].assign(n + 1, false);
    ch = true;
    while (ch) {
        ch = false;
        for (int i = n - 1; i >= 0; i--) {
            if (!live[i]) continue;
            std::vector<bool> s(n + 1, true);
            if (isRet[i]) {
                s.assign(n + 1, false);
                s[n] = true;
            }
            else
                for (int x : succ[i])
                    if (live[x])
                        for (int k = 0; k <= n; k++) s[k] = s[k] && pd[x][k];
            s[i] = true;
            if (s != pd[i]) {
                pd[i] = s;
                ch = true;
            }
        }
    }
    for (int i = 0; i < n; i++) {
        if (!live[i]) continue;
        // immediate: the strict post-dominator that is post-dominated by all others
        int best = -1, cnt = -1;
        for (int k = 0; k < n; k++)
            if (k != i && pd[i][k]) {
                int c = 0;
                for (int z = 0; z <= n; z++) c += pd[k][z];
                if (c > cnt) {
                    cnt = c;
                    best = k;
                }
            }
        fi->blocks[i].ipdom = best;
    }
    return fi;
}

// ------------------------------------------------------------------ path bookkeeping
std::string Engine::where(State *s) {
    std::string out;
    int shown = 0;
    for (int i = (int)s->stack.size() - 1; i >= 0 && shown < 4; i--) {
        Frame &f = s->stack[i];
        auto &ins = f.fn->blocks[f.block].ins;
        int ip = f.ip < (int)ins.size() ? f.ip : (int)ins.size() - 1;
        std::string loc = f.fn->F->getName().str();
        if (ip >= 0)
            if (auto &dl = ins[ip].I->getDebugLoc()) {
                std::string fn = cast<DIScope>(dl.getScope())->getFilename().str();
                size_t p = fn.rfind('/');
                if (p != std::string::npos) fn = fn.substr(p + 1);
                loc += "(" + fn + ":" + std::to_string(dl.getLine()) + ")";
            }
        if (!out.empty()) out += " < ";
        out += loc;
        shown++;
    }
    return out;
}

Engine::Res Engine::die(State *s, bool completed) {
    if (completed) {
        res->paths++;
        sample(s);
        if (curSetup) {
            init.mem = s->mem;
            init.nextSlot = s->nextSlot;
        }
    }
    res->steps += s->steps;
    MergePoint *m = s->mp;
    delete s;
    if (m) {
        m->pending--;
        if (!m->pending) mpSettle(m);
    }
    return DEAD;
}
Engine::Res Engine::incomplete(State *s, const std::string &why) {
    res->incomplete = true;
    if (res->incompleteWhy.empty()) res->incompleteWhy = why + " at " + where(s);
    return die(s, false);
}
std::vector<std::pair<std::string, std::string>> Engine::inputsHex(State *s, const Model &m) {
    std::vector<std::pair<std::string, std::string>> r;
    for (auto &in : s->inputs) {
        std::vector<uint8_t> b;
        for (TP t : in.bytes) b.push_back((uint8_t)evalTerm(t, m));
        r.push_back({in.name, hexs(b.data(), b.size())});
    }
    return r;
}
Engine::Res Engine::report(State *s, const std::string &kind, const std::string &msg, const Model *m) {
    std::string w = where(s);
    std::string key = kind + "|" + w;
    if (violKeys.insert(key).second && res->violations.size() < 40) {
        Violation v;
        v.kind = kind;
        v.msg = msg;
        v.where = w;
        Model mm;
        mm.v = m ? m->v : s->model->v;
        v.inputs = inputsHex(s, mm);
        res->violations.push_back(v);
    }
    return die(s, false);
}
void Engine::sample(State *s) {
    if (res->samples.size() >= maxSamples || curSetup) return;
    JobResult::Sample sm;
    sm.inputs = inputsHex(s, *s->model);
    for (auto &o : s->obs) {
        std::vector<uint8_t> b;
        bool u = false;
        for (TP t : o.bytes) {
            if (t->undef) u = true;
            b.push_back((uint8_t)evalTerm(t, *s->model));
        }
        sm.obs.push_back({o.name, u ? std::string("?") : hexs(b.data(), b.size())});
    }
    res->samples.push_back(sm);
}

static std::unordered_map<TP, std::vector<uint32_t>> varCache;
static const std::vector<uint32_t> &varsOf(TP t) {
    auto it = varCache.find(t);
    if (it != varCache.end()) return it->second;
    std::vector<uint32_t> v;
    for (TP x : topo({t}))
        if (x->op == T_VAR) v.push_back((uint32_t)x->val);
    std::sort(v.begin(), v.end());
    return varCache[t] = v;
}
std::vector<TP> Engine::sliceFor(const std::vector<TP> &pc, TP cond) {
    std::unordered_set<uint32_t> rel(varsOf(cond).begin(), varsOf(cond).end());
    std::vector<bool> in(pc.size(), false);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) {
            if (in[i]) continue;
            auto &v = varsOf(pc[i]);
            bool hit = false;
            for (uint32_t x : v)
                if (rel.count(x)) {
                    hit = true;
                    break;
                }
            if (hit) {
                in[i] = true;
                ch = true;
                for (uint32_t x : v) rel.insert(x);
            }
        }
    }
    std::vector<TP> r;
    for (size_t i = 0; i < pc.size(); i++)
        if (in[i]) r.push_back(pc[i]);
    return r;
}
SatRes Engine::feasible(State *s, TP cond, Model *m) {
    if (s->stepCap) s->idleQueries++;
    if (isTrue(cond)) {
        if (m) m->v = s->model->v;
        return R_SAT;
    }
    if (isFalse(cond)) return R_UNSAT;
    if (evalTerm(cond, *s->model) == 1) {
        if (m) m->v = s->model->v;
        return R_SAT;
    }
    std::vector<TP> q = sliceFor(s->pc, cond);
    q.push_back(cond);
    Model mm;
    SatRes r = smtCheck(q, &mm, feasTimeout);
    if (r == R_SAT && m) {
        m->v = s->model->v; // independent part keeps its old values
        for (auto &p : mm.v) m->v[p.first] = p.second;
        for (TP t : q)
            for (uint32_t x : varsOf(t))
                if (!mm.v.count(x)) m->v[x] = 0;
    }
    return r;
}
void Engine::addPc(State *s, TP c, const std::shared_ptr<Model> &m) {
    if (c->op == T_AND && c->w == 1) {
        for (uint32_t i = 0; i < c->n; i++) s->pc.push_back(c->a[i]);
    }
    else if (!isTrue(c))
        s->pc.push_back(c);
    if (m) s->model = m;
}
bool Engine::assume(State *s, TP cond) {
    auto m = std::make_shared<Model>();
    SatRes r = feasible(s, cond, m.get());
    if (r != R_SAT) {
        if (r == R_UNKNOWN) {
            res->incomplete = true;
            if (res->incompleteWhy.empty()) res->incompleteWhy = "solver gave no answer for an assumption at " + where(s);
        }
        res->infeasible++;
        return false;
    }
    addPc(s, cond, m);
    return true;
}
// Replace uninitialised-data variables by fresh copies.
static TP freshUndef(TP root, std::unordered_map<TP, TP> &memo) {
    for (TP t : topo({root})) {
        if (memo.count(t)) continue;
        if (!t->undef) {
            memo[t] = t;
            continue;
        }
        if (t->op == T_VAR) {
            memo[t] = mkVar(gVars[t->val].name + "'", t->w, true);
            continue;
        }
        std::vector<TP> a;
        for (uint32_t i = 0; i < t->n; i++) a.push_back(memo[t->a[i]]);
        memo[t] = mkRebuild(t, a.data());
    }
    return memo[root];
}
Engine::Res Engine::checkUndef(State *s, TP cond, const char *what) {
    if (!cond->undef) return CONT;
    std::unordered_map<TP, TP> memo;
    TP c2 = freshUndef(cond, memo);
    std::vector<TP> q;
    TP d = mkNot(mkEq(cond, c2));
    if (isFalse(d)) return CONT;
    q = s->pc;
    for (TP t : s->pc)
        if (t->undef) q.push_back(freshUndef(t, memo));
    q.push_back(d);
    Model m;
    SatRes r = smtCheck(q, &m, assertTimeout);
    if (r == R_UNSAT) return CONT;
    if (r == R_UNKNOWN) return incomplete(s, "solver gave no answer for an uninitialised-value check");
    std::string nm;
    for (TP t : topo({cond}))
        if (t->op == T_VAR && t->undef) {
            nm = gVars[t->val].name;
            break;
        }
    return report(s, "uninitialised", std::string(what) + " depends on an uninitialised value (" + nm + ")", &m);
}

Engine::Res Engine::park(State *s) {
    MergePoint *m = s->mp;
    m->parked.push_back(s);
    m->pending--;
    if (!m->pending) mpSettle(m);
    return FORKED;
}
void Engine::escape(State *s) {
    MergePoint *m = s->mp;
    s->mp = m->parent;
    if (m->parent) m->parent->pending++;
    m->pending--;
    if (!m->pending) mpSettle(m);
}
void Engine::mpSettle(MergePoint *m) {
    std::vector<State *> out;
    // states that arrived close together tend to differ in one branch only: merge neighbours first
    bool merged = true;
    out = m->parked;
    while (merged && out.size() > 1) {
        merged = false;
        std::vector<State *> nx;
        for (State *p : out) {
            bool done = false;
            int tries = 0;
            for (int i = (int)nx.size() - 1; i >= 0 && tries < 6; i--, tries++)
                if (p->mergeOn && nx[i]->mergeOn && mergeInto(nx[i], p)) {
                    res->merged++;
                    res->steps += p->steps;
                    delete p;
                    done = merged = true;
                    break;
                }
            if (!done) nx.push_back(p);
        }
        if (nx.size() == out.size()) merged = false;
        out.swap(nx);
    }
    MergePoint *P = m->parent;
    if (P) {
        P->pending += (int)out.size() - 1;
    }
    for (State *p : out) {
        p->mp = P;
    }
    delete m;
    std::vector<State *> parkNow;
    for (State *p : out) {
        Frame &f = p->stack.back();
        if (P && f.uid == P->uid && f.block == P->block && f.ip == 0) parkNow.push_back(p);
        else work.push_back(p);
    }
    if (P) {
        for (State *p : parkNow) {
            P->parked.push_back(p);
            P->pending--;
        }
        if (!P->pending) mpSettle(P);
    }
}

static bool ptrLike(TP t) { return t->isc() && t->w == 64 && (t->val >> SLOT_BITS) >= 16 && (t->val >> SLOT_BITS) < (1u << 26); }
static bool mergeTerm(TP l, TP a, TP b, TP &out) {
    if (a == b) {
        out = a;
        return true;
    }
    if (a->op == T_TUPLE) {
        if (b->op != T_TUPLE || a->n != b->n) return false;
        std::vector<TP> v(a->n);
        for (uint32_t i = 0; i < a->n; i++)
            if (!mergeTerm(l, a->a[i], b->a[i], v[i])) return false;
        out = mkTuple(v);
        return true;
    }
    if (a->w != b->w) return false;
    if (ptrLike(a) || ptrLike(b)) return false;
    out = mkIte(l, a, b);
    return true;
}

bool Engine::mergeInto(State *a, State *b) {
    if (a->stack.size() != b->stack.size() || a->thread != b->thread || a->inputs.size() != b->inputs.size() || a->obs.size() != b->obs.size() ||
        a->threads != b->threads || a->raceOff != b->raceOff || a->vc != b->vc || a->lockClock != b->lockClock || a->caught != b->caught || a->exObj != b->exObj)
        return false;
    for (int i = 0; a->threads && i < NTHR; i++) // suspended threads did not run since the fork
        if (a->others[i].stack.size() != b->others[i].stack.size()) return false;
    for (size_t i = 0; i < a->stack.size(); i++) {
        Frame &x = a->stack[i], &y = b->stack[i];
        if (x.uid != y.uid || x.block != y.block || x.ip != y.ip || x.allocas != y.allocas) return false;
    }
    for (size_t i = 0; i < a->inputs.size(); i++)
        if (a->inputs[i].bytes != b->inputs[i].bytes) return false;
    for (size_t i = 0; i < a->obs.size(); i++)
        if (a->obs[i].bytes.size() != b->obs[i].bytes.size() || a->obs[i].name != b->obs[i].name) return false;
    size_t k = 0;
    while (k < a->pc.size() && k < b->pc.size() && a->pc[k] == b->pc[k]) k++;
    TP l, condB = nullptr;
    std::vector<TP> npc(a->pc.begin(), a->pc.begin() + k);
    if (k < a->pc.size() && k < b->pc.size() && a->pc[k] == mkNot(b->pc[k])) {
        l = a->pc[k];
        TP ra = mkTrue(), rb = mkTrue();
        for (size_t i = k + 1; i < a->pc.size(); i++) ra = mkAnd(ra, a->pc[i]);
        for (size_t i = k + 1; i < b->pc.size(); i++) rb = mkAnd(rb, b->pc[i]);
        TP c = mkAnd(mkOr(mkNot(l), ra), mkOr(l, rb));
        if (!isTrue(c)) npc.push_back(c);
    }
    else {
        l = mkTrue();
        condB = mkTrue();
        for (size_t i = k; i < a->pc.size(); i++) l = mkAnd(l, a->pc[i]);
        for (size_t i = k; i < b->pc.size(); i++) condB = mkAnd(condB, b->pc[i]);
        TP c = mkOr(l, condB);
        if (!isTrue(c)) npc.push_back(c);
    }
    // registers
    std::vector<std::vector<TP>> nregs(a->stack.size());
    for (size_t i = 0; i < a->stack.size(); i++) {
        Frame &x = a->stack[i], &y = b->stack[i];
        nregs[i] = x.regs;
        for (size_t r = 0; r < x.regs.size(); r++) {
            if (x.regs[r] == y.regs[r]) continue;
            if (!x.regs[r] || !y.regs[r]) nregs[i][r] = nullptr;
            else if (!mergeTerm(l, x.regs[r], y.regs[r], nregs[i][r])) return false;
        }
    }
    // memory
    std::vector<std::pair<uint64_t, std::shared_ptr<Object>>> upd;
    std::vector<uint64_t> keys;
    for (auto &p : a->mem) keys.push_back(p.first);
    for (auto &p : b->mem)
        if (!a->mem.count(p.first)) keys.push_back(p.first);
    for (uint64_t sl : keys) {
        std::shared_ptr<Object> oa, ob;
        auto get = [&](State *s) -> std::shared_ptr<Object> {
            auto it = s->mem.find(sl);
            if (it != s->mem.end()) return it->second;
            if (s->base) {
                auto jt = s->base->find(sl);
                if (jt != s->base->end()) return jt->second;
            }
            return nullptr;
        };
        oa = get(a);
        ob = get(b);
        if (oa == ob) continue;
        if (!oa || !ob) return false;
        if (oa->size != ob->size || oa->kind != ob->kind || oa->ro != ob->ro) return false;
        auto n = std::make_shared<Object>(*oa);
        n->tableCache = nullptr;
        for (size_t pi = 0; pi < oa->pages.size(); pi++) {
            if (oa->pages[pi] == ob->pages[pi]) continue;
            const Page *pa = oa->pages[pi] ? oa->pages[pi].get() : &zeroPage, *pb = ob->pages[pi] ? ob->pages[pi].get() : &zeroPage;
            std::shared_ptr<Page> np;
            for (unsigned i = 0; i < PAGE; i++) {
                const Cell &ca = pa->c[i], &cb = pb->c[i];
                if (ca.t == cb.t && ca.idx == cb.idx) continue;
                if (!np) {
                    np = std::make_shared<Page>(*pa);
                }
                if (!ca.t || !cb.t) {
                    TP u = undefTerm(8, oa->name + "+" + std::to_string(pi * PAGE + i) + "(one branch)");
                    TP x = ca.t ? mkExtract(ca.t, ca.idx * 8, 8) : cb.t ? mkExtract(cb.t, cb.idx * 8, 8) : u;
                    np->c[i].t = ca.t ? mkIte(l, x, u) : mkIte(l, u, x);
                    np->c[i].idx = 0;
                    continue;
                }
                // whole words on both sides
                if (ca.idx == 0 && cb.idx == 0 && ca.t->w == cb.t->w && ca.t->w > 8) {
                    unsigned nb = ca.t->w / 8;
                    bool ok = i + nb <= PAGE;
                    for (unsigned j = 0; ok && j < nb; j++)
                        ok = pa->c[i + j].t == ca.t && pa->c[i + j].idx == j && pb->c[i + j].t == cb.t && pb->c[i + j].idx == j;
                    if (ok) {
                        TP m;
                        if (!mergeTerm(l, ca.t, cb.t, m)) return false;
                        for (unsigned j = 0; j < nb; j++) {
                            np->c[i + j].t = m;
                            np->c[i + j].idx = j;
                        }
                        i += nb - 1;
                        continue;
                    }
                }
                if (ptrLike(ca.t) || ptrLike(cb.t)) return false;
                np->c[i].t = mkIte(l, mkExtract(ca.t, ca.idx * 8, 8), mkExtract(cb.t, cb.idx * 8, 8));
                np->c[i].idx = 0;
            }
            if (np) n->pages[pi] = np;
        }
        upd.push_back({sl, n});
    }
    std::vector<ObsRec> nobs = a->obs;
    for (size_t i = 0; i < nobs.size(); i++)
        for (size_t j = 0; j < nobs[i].bytes.size(); j++) nobs[i].bytes[j] = mkIte(l, a->obs[i].bytes[j], b->obs[i].bytes[j]);
    // commit
    a->pc = npc;
    for (auto &p : b->shadow) {
        auto &sa = a->shadow[p.first];
        if (sa == p.second) continue;
        if (!sa) {
            sa = p.second;
            continue;
        }
        auto n = std::make_shared<std::vector<Shadow>>(*sa);
        if (n->size() < p.second->size()) n->resize(p.second->size());
        for (size_t i = 0; i < p.second->size(); i++) {
            Shadow &x = (*n)[i];
            const Shadow &y = (*p.second)[i];
            if (y.wt == x.wt ? y.w > x.w : (y.wt == a->thread && y.w)) x.w = y.w, x.wt = y.wt;
            for (int t = 0; t < NTHR; t++) x.r[t] = std::max(x.r[t], y.r[t]);
        }
        sa = n;
    }
    for (size_t i = 0; i < a->stack.size(); i++) a->stack[i].regs = nregs[i];
    for (auto &u : upd) a->mem[u.first] = u.second;
    a->obs = nobs;
    a->nextSlot = std::max(a->nextSlot, b->nextSlot);
    for (auto it = a->concretized.begin(); it != a->concretized.end();) {
        auto jt = b->concretized.find(it->first);
        if (jt == b->concretized.end() || jt->second != it->second) it = a->concretized.erase(it);
        else ++it;
    }
    return true;
}

// ------------------------------------------------------------------ control flow
Engine::Res Engine::enterBlock(State *s, int b) {
    Frame &f = s->stack.back();
    int from = f.block;
    f.prevBlock = from;
    f.block = b;
    f.ip = 0;
    DBlock &db = f.fn->blocks[b];
    if (!db.phiDst.empty()) {
        std::vector<TP> v(db.phiDst.size());
        for (size_t i = 0; i < v.size(); i++) {
            v[i] = nullptr;
            for (auto &p : db.phiIn[i])
                if (p.first == from) {
                    v[i] = val(f, p.second);
                    break;
                }
        }
        for (size_t i = 0; i < v.size(); i++) f.regs[db.phiDst[i]] = v[i];
    }
    if (s->mp && s->mp->uid == f.uid && s->mp->block == b) return park(s);
    return CONT;
}

Engine::Res Engine::branchOn(State *s, TP cond, int tb, int fb) {
    if (cond->isc()) return enterBlock(s, cond->val ? tb : fb);
    if (tb == fb) return enterBlock(s, tb);
    if (checkUndef(s, cond, "a branch") != CONT) return DEAD;
    bool v = evalTerm(cond, *s->model);
    TP other = v ? mkNot(cond) : cond;
    auto m = std::make_shared<Model>();
    SatRes r = feasible(s, other, m.get());
    if (r == R_UNKNOWN) return incomplete(s, "solver gave no answer for a branch condition");
    if (r == R_UNSAT) return enterBlock(s, v ? tb : fb);
    res->forks++;
    if (res->paths + work.size() > maxPaths) return incomplete(s, "path limit reached");
    Frame &f = s->stack.back();
    int pd = f.fn->blocks[f.block].ipdom;
    State *o = new State(*s);
    o->steps = 0;
    if (s->mergeOn) {
        MergePoint *mp = new MergePoint;
        mp->uid = f.uid;
        mp->block = pd;
        mp->pending = 2;
        mp->parent = s->mp;
        s->mp = o->mp = mp;
    }
    else if (s->mp)
        s->mp->pending++;
    addPc(o, other, m);
    addPc(s, v ? cond : mkNot(cond), nullptr);
    // run the other side first only if it parks immediately
    if (enterBlock(o, v ? fb : tb) == CONT) work.push_back(o);
    return enterBlock(s, v ? tb : fb);
}

// Split on `cond`; both children re-execute the current instruction.
Engine::Res Engine::forkOn(State *s, TP cond) {
    if (checkUndef(s, cond, "an address or size") != CONT) return DEAD;
    bool v = evalTerm(cond, *s->model);
    TP other = v ? mkNot(cond) : cond;
    auto m = std::make_shared<Model>();
    SatRes r = feasible(s, other, m.get());
    if (r == R_UNKNOWN) return incomplete(s, "solver gave no answer when splitting");
    TP mine = v ? cond : mkNot(cond);
    if (r == R_SAT) {
        res->forks++;
        if (res->paths + work.size() > maxPaths) return incomplete(s, "path limit reached");
        State *o = new State(*s);
        o->steps = 0;
        if (s->mp) s->mp->pending++;
        addPc(o, other, m);
        work.push_back(o);
    }
    addPc(s, mine, nullptr);
    s->concretized[cond] = v;
    return CONT;
}

// CONT: v is the (only possible) value on this path
Engine::Res Engine::concretize(State *s, TP t, uint64_t &v, const char *what) {
    if (t->isc()) {
        v = t->val;
        return CONT;
    }
    auto it = s->concretized.find(t);
    if (it != s->concretized.end()) {
        v = it->second;
        return CONT;
    }
    if (checkUndef(s, t, what) != CONT) return DEAD;
    v = evalTerm(t, *s->model);
    TP eq = mkEq(t, mkConst(v, t->w));
    auto m = std::make_shared<Model>();
    TP ne = mkNot(eq);
    SatRes r = feasible(s, ne, m.get());
    if (r == R_UNKNOWN) return incomplete(s, "solver gave no answer when enumerating values");
    if (r == R_SAT) {
        res->forks++;
        if (res->paths + work.size() > maxPaths) return incomplete(s, "path limit reached");
        State *o = new State(*s);
        o->steps = 0;
        if (s->mp) s->mp->pending++;
        addPc(o, ne, m);
        work.push_back(o);
        addPc(s, eq, nullptr);
    }
    s->concretized[t] = v;
    return CONT;
}

Engine::Res Engine::finishCall(State *s, TP ret, bool noPark) {
    Frame &f = s->stack.back();
    DInst &d = f.fn->blocks[f.block].ins[f.ip];
    if (d.dst >= 0) {
        if (!ret) ret = undefOf(d.I->getType());
        f.regs[d.dst] = ret;
    }
    if (d.opc == Instruction::Invoke) {
        if (noPark) {
            MergePoint *m = s->mp;
            s->mp = nullptr;
            Res r = enterBlock(s, d.succ[0]);
            s->mp = m;
            return r;
        }
        return enterBlock(s, d.succ[0]);
    }
    f.ip++;
    return CONT;
}

Engine::Res Engine::doReturn(State *s, TP ret) {
    Frame &f = s->stack.back();
    for (uint64_t a : f.allocas) removeObject(*s, a);
    uint64_t uid = f.uid;
    s->stack.pop_back();
    bool parkHere = false;
    while (s->mp && s->mp->uid == uid) {
        if (s->mp->block == -1) {
            parkHere = true;
            break;
        }
        escape(s);
    }
    if (s->stack.empty()) {
        // an exit merge point at the outermost frame has nothing to resume to
        while (s->mp && s->mp->uid == uid) escape(s);
        return die(s, true);
    }
    if (parkHere) {
        finishCall(s, ret, true);
        return park(s);
    }
    return finishCall(s, ret);
}

// ------------------------------------------------------------------ exceptions
static const char *stdBases[][2] = {{"_ZTISt12out_of_range", "_ZTISt11logic_error"},
                                    {"_ZTISt12length_error", "_ZTISt11logic_error"},
                                    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
                                    {"_ZTISt12domain_error", "_ZTISt11logic_error"},
                                    {"_ZTISt11logic_error", "_ZTISt9exception"},
                                    {"_ZTISt13runtime_error", "_ZTISt9exception"},
                                    {"_ZTISt12system_error", "_ZTISt13runtime_error"},
                                    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
                                    {"_ZTISt9bad_alloc", "_ZTISt9exception"},
                                    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
                                    {"_ZTISt17bad_function_call", "_ZTISt9exception"},
                                    {"_ZTISt8bad_cast", "_ZTISt9exception"}};
uint64_t Engine::stdTypeInfo(const std::string &name) {
    if (auto *G = M->getNamedGlobal(name)) return gaddr[G];
    auto it = pseudoTypes.find(name);
    if (it != pseudoTypes.end()) return it->second;
    uint64_t a = 0x1000 + pseudoTypes.size() * 16;
    typeNames[a] = name;
    return pseudoTypes[name] = a;
}
std::string Engine::typeName(uint64_t ti) {
    auto it = typeNames.find(ti);
    if (it != typeNames.end()) return it->second;
    auto jt = addrGV.find(ti);
    return jt == addrGV.end() ? "?" : jt->second->getName().str();
}
bool Engine::typeMatches(uint64_t thrown, uint64_t clause) {
    if (clause == 0) return true;
    if (thrown == clause) return true;
    std::string n = typeName(thrown);
    for (auto &b : stdBases)
        if (n == b[0]) return typeMatches(stdTypeInfo(b[1]), clause);
    auto jt = addrGV.find(thrown);
    if (jt == addrGV.end()) return false;
    auto *G = dyn_cast<GlobalVariable>(jt->second);
    if (!G || !G->hasInitializer()) return false;
    auto *CS = dyn_cast<ConstantStruct>(G->getInitializer());
    if (!CS) return false;
    if (CS->getNumOperands() == 3) { // __si_class_type_info
        TP b = constTerm(CS->getOperand(2));
        return typeMatches(b->val, clause);
    }
    for (unsigned i = 4; i < CS->getNumOperands(); i += 2) { // __vmi_class_type_info
        TP b = constTerm(CS->getOperand(i));
        if (b->isc() && typeMatches(b->val, clause)) return true;
    }
    return false;
}
uint64_t Engine::typeIdFor(uint64_t ti) {
    auto it = typeIds.find(ti);
    if (it != typeIds.end()) return it->second;
    uint64_t n = typeIds.size() + 1;
    return typeIds[ti] = n;
}
Engine::Res Engine::throwEx(State *s, uint64_t obj, uint64_t type) {
    s->exObj = obj;
    s->exType = type;
    return unwind(s);
}
// Current frame's current instruction raised the exception in flight (or is a call that did).
Engine::Res Engine::unwind(State *s) {
    for (;;) {
        Frame &f = s->stack.back();
        DInst &d = f.fn->blocks[f.block].ins[f.ip];
        if (d.opc == Instruction::Invoke) {
            // does the landing pad take it?
            auto *LP = cast<InvokeInst>(d.I)->getLandingPadInst();
            uint64_t sel = 0;
            bool take = LP->isCleanup();
            for (unsigned i = 0; i < LP->getNumClauses(); i++) {
                if (LP->isCatch(i)) {
                    TP c = constTerm(cast<Constant>(LP->getClause(i)));
                    if (typeMatches(s->exType, c->val)) {
                        take = true;
                        sel = typeIdFor(c->val);
                        break;
                    }
                }
                else { // exception specification
                    take = true;
                    sel = (uint64_t)-1;
                    break;
                }
            }
            if (take) {
                s->caught.push_back({s->exObj, sel}); // consumed by the landingpad instruction
                return enterBlock(s, d.succ[1]);
            }
        }
        for (uint64_t a : f.allocas) removeObject(*s, a);
        uint64_t uid = f.uid;
        s->stack.pop_back();
        while (s->mp && s->mp->uid == uid) escape(s);
        if (s->stack.empty()) {
            // keep enough of a stack for the report
            if (violKeys.insert("uncaught|" + typeName(s->exType)).second) {
                Violation v;
                v.kind = "uncaught-exception";
                v.msg = "exception " + typeName(s->exType) + " left the program";
                v.inputs = inputsHex(s, *s->model);
                res->violations.push_back(v);
            }
            return die(s, false);
        }
    }
}

// ------------------------------------------------------------------ threads
// Happens-before by vector clocks: two accesses of different threads, one of them a write, that no chain of
// lock operations, thread starts and ends orders are a data race, whatever order this path ran them in.
Engine::Res Engine::raceCheck(State *s, Object *o, uint64_t slot, uint64_t off, uint64_t n, bool write) {
    if (s->raceOff || o->ro || (o->kind == O_STACK && o->owner == s->thread)) return CONT;
    auto &p = s->shadow[slot];
    if (!p) p = std::make_shared<std::vector<Shadow>>();
    else if (p.use_count() > 1)
        p = std::make_shared<std::vector<Shadow>>(*p);
    if (p->size() < off + n) p->resize(off + n);
    int me = s->thread;
    const VClock &vc = s->vc[me];
    res->raceChecks++;
    for (uint64_t i = off; i < off + n; i++) {
        Shadow &x = (*p)[i];
        int other = -1;
        bool ow = false;
        if (x.w && x.wt != me && x.w > vc[x.wt]) other = x.wt, ow = true;
        if (write)
            for (int t = 0; t < NTHR && other < 0; t++)
                if (t != me && x.r[t] > vc[t]) other = t;
        if (other >= 0) {
            char b[300];
            snprintf(b, sizeof b, "%s of offset %llu of %s by thread %d is not ordered with the %s by thread %d", write ? "write" : "read", (unsigned long long)i, o->name.c_str(), me, ow ? "write" : "read", other);
            return report(s, "data-race", b, nullptr);
        }
        if (write) x.w = vc[me], x.wt = (uint8_t)me;
        else
            x.r[me] = vc[me];
    }
    return CONT;
}
void Engine::acquire(State *s, uint64_t a) {
    auto it = s->lockClock.find(a);
    if (!s->threads || it == s->lockClock.end()) return;
    for (int t = 0; t < NTHR; t++) s->vc[s->thread][t] = std::max(s->vc[s->thread][t], it->second[t]);
}
void Engine::release(State *s, uint64_t a) {
    if (!s->threads) return;
    VClock &l = s->lockClock[a];
    for (int t = 0; t < NTHR; t++) l[t] = std::max(l[t], s->vc[s->thread][t]);
    s->vc[s->thread][s->thread]++;
}

// ------------------------------------------------------------------ memory access
Engine::Res Engine::access(State *s, TP addr, unsigned n, bool write, uint64_t &slot, uint64_t &off, TP &symOff) {
    symOff = nullptr;
    if (!addr->isc()) {
        auto it = s->concretized.find(addr);
        if (it != s->concretized.end()) addr = mkConst(it->second, 64);
    }
    if (addr->isc()) {
        uint64_t a = addr->val;
        slot = a >> SLOT_BITS;
        Object *o = robj(*s, slot);
        if (!o || o->kind == O_FUNC) {
            char b[128];
            if (a < 4096) snprintf(b, sizeof b, "%s of %u byte(s) through a null pointer", write ? "write" : "read", n);
            else snprintf(b, sizeof b, "%s of %u byte(s) through a pointer to no live object", write ? "write" : "read", n);
            return report(s, "invalid-pointer", b, nullptr);
        }
        off = a - o->base;
        if (off > o->size || o->size - off < n) {
            char b[256];
            snprintf(b, sizeof b, "%s of %u byte(s) at offset %lld of %s (%llu bytes)", write ? "write" : "read", n, (long long)off, o->name.c_str(), (unsigned long long)o->size);
            return report(s, "out-of-bounds", b, nullptr);
        }
        if (write && o->ro) return report(s, "write-to-constant", "write to constant " + o->name, nullptr);
        if (o->big && !write) {
            o = wobj(*s, slot);
            s->idleQueries = 0;
            if ((o->bytesRead += n) > o->readLimit) { // the bounded part of the run ends here
                res->paths++;
                return die(s, false);
            }
        }
        return s->threads ? raceCheck(s, o, slot, off, n, write) : CONT;
    }
    // symbolic address
    if (addr->op == T_ITE) {
        auto it = s->concretized.find(addr->a[0]);
        if (it != s->concretized.end()) return access(s, it->second ? addr->a[1] : addr->a[2], n, write, slot, off, symOff);
        if (forkOn(s, addr->a[0]) != CONT) return DEAD;
        return access(s, s->concretized[addr->a[0]] ? addr->a[1] : addr->a[2], n, write, slot, off, symOff);
    }
    uint64_t base = 0;
    bool have = false;
    if (addr->op == T_ADD)
        for (uint32_t i = 0; i < addr->n; i++)
            if (addr->a[i]->isc()) base = addr->a[i]->val;
    slot = base >> SLOT_BITS;
    Object *o = base ? robj(*s, slot) : nullptr;
    if (o && o->kind != O_FUNC) have = true;
    if (!have) {
        uint64_t v;
        if (concretize(s, addr, v, "an address") != CONT) return DEAD;
        return access(s, mkConst(v, 64), n, write, slot, off, symOff);
    }
    if (checkUndef(s, addr, "an address") != CONT) return DEAD;
    TP so = mkSub(addr, mkConst(o->base, 64));
    if (o->size < n || so->umax > o->size - n) {
        TP bad = o->size < n ? mkTrue() : mkUlt(mkConst(o->size - n, 64), so);
        Model m;
        SatRes r = feasible(s, bad, &m);
        res->memChecksSolver++;
        if (r == R_UNKNOWN) return incomplete(s, "solver gave no answer for a bounds check");
        if (r == R_SAT) {
            char b[256];
            snprintf(b, sizeof b, "%s of %u byte(s) at offset %lld of %s (%llu bytes)", write ? "write" : "read", n, (long long)evalTerm(so, m), o->name.c_str(), (unsigned long long)o->size);
            return report(s, "out-of-bounds", b, &m);
        }
    }
    if (write && o->ro) return report(s, "write-to-constant", "write to constant " + o->name, nullptr);
    if (so->isc()) {
        off = so->val;
        return CONT;
    }
    if (s->threads && raceCheck(s, o, slot, 0, o->size, write) != CONT) return DEAD;
    symOff = so;
    off = 0;
    return CONT;
}

// Split off = C + v; stride from the known-zero low bits of v
static void splitOff(TP off, uint64_t &c, TP &v, unsigned &lg) {
    c = 0;
    v = off;
    if (off->op == T_ADD) {
        for (uint32_t i = 0; i < off->n; i++)
            if (off->a[i]->isc()) c = off->a[i]->val;
        if (c) v = mkSub(off, mkConst(c, 64));
        if (c && v->umax > ~0ull - c) { // the rest may be negative
            c = 0;
            v = off;
        }
    }
    lg = 0;
    while (lg < 12 && (v->kz >> lg & 1)) lg++;
}

TP Engine::loadSym(State *s, uint64_t slot, TP off, unsigned n) {
    Object *o = robj(*s, slot);
    uint64_t c;
    TP v;
    unsigned lg;
    splitOff(off, c, v, lg);
    uint64_t stride = 1ull << lg;
    uint64_t cnt;
    if (c > o->size || (int64_t)c < 0) { // negative constant part: index from the start
        v = off;
        c = 0;
        lg = 0;
        while (lg < 12 && (v->kz >> lg & 1)) lg++;
        stride = 1ull << lg;
    }
    uint64_t maxv = std::min<uint64_t>(v->umax, o->size - n - c);
    cnt = maxv / stride + 1;
    uint64_t key = (c << 20) ^ (cnt << 4) ^ (lg * 1315423911ull) ^ n;
    TP tab;
    if (o->tableCache && o->tableKey == key) tab = o->tableCache;
    else {
        std::vector<TP> e;
        e.reserve(cnt);
        for (uint64_t i = 0; i < cnt; i++) e.push_back(loadBytes(*s, slot, c + i * stride, n));
        tab = mkTable(e);
        o = robj(*s, slot);
        o->tableCache = tab;
        o->tableKey = key;
    }
    TP ix = lg ? mkExtract(v, lg, 64 - lg) : v;
    unsigned need = 1;
    while (need < 64 && (1ull << need) < cnt) need++;
    // narrow the index when its value provably fits
    if (ix->umax < (need >= 64 ? ~0ull : (1ull << need)) && ix->w > need) ix = mkExtract(ix, 0, need);
    return mkTbl(tab, ix);
}
void Engine::storeSym(State *s, uint64_t slot, TP off, TP v, unsigned n) {
    Object *o = robj(*s, slot);
    uint64_t c;
    TP x;
    unsigned lg;
    splitOff(off, c, x, lg);
    if (c > o->size || (int64_t)c < 0) {
        x = off;
        c = 0;
        lg = 0;
        while (lg < 12 && (x->kz >> lg & 1)) lg++;
    }
    uint64_t stride = 1ull << lg;
    uint64_t maxv = std::min<uint64_t>(x->umax, o->size - n - c);
    if (v->w < n * 8) v = mkZext(v, n * 8);
    if (stride < n) {
        // byte-wise: a byte at position p is written by offsets p-n+1..p
        std::vector<std::pair<uint64_t, TP>> upd;
        for (uint64_t p = c; p <= c + maxv + n - 1 && p < o->size; p++) {
            TP old = loadBytes(*s, slot, p, 1);
            TP nv = old;
            for (unsigned k = 0; k < n; k++) {
                if (p < c + k) break;
                nv = mkIte(mkEq(x, mkConst(p - c - k, 64)), mkExtract(v, k * 8, 8), nv);
            }
            upd.push_back({p, nv});
        }
        for (auto &u : upd) storeBytes(*s, slot, u.first, u.second, 1);
        return;
    }
    for (uint64_t k = 0; k <= maxv; k += stride) {
        TP old = loadBytes(*s, slot, c + k, n);
        storeBytes(*s, slot, c + k, mkIte(mkEq(x, mkConst(k, 64)), v, old), n);
    }
}
TP Engine::loadN(State &s, uint64_t slot, uint64_t off, unsigned n, unsigned w) {
    TP t = loadBytes(s, slot, off, n);
    return t->w > w ? mkTrunc(t, w) : t;
}
Engine::Res Engine::loadType(State *s, Type *T, TP addr, TP &out) {
    unsigned w = typeW(T);
    if (w) {
        unsigned n = DL->getTypeStoreSize(T);
        uint64_t slot, off;
        TP so;
        if (w > 64) return incomplete(s, "load of an integer wider than 64 bits");
        if (access(s, addr, n, false, slot, off, so) != CONT) return DEAD;
        out = so ? loadSym(s, slot, so, n) : loadBytes(*s, slot, off, n);
        if (out->w > w) out = mkTrunc(out, w);
        return CONT;
    }
    std::vector<TP> v;
    if (auto *ST = dyn_cast<StructType>(T)) {
        auto *SL = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); i++) {
            TP e;
            if (loadType(s, ST->getElementType(i), mkAdd(addr, mkConst(SL->getElementOffset(i), 64)), e) != CONT) return DEAD;
            v.push_back(e);
        }
        out = mkTuple(v);
        return CONT;
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) {
        uint64_t es = DL->getTypeAllocSize(AT->getElementType());
        for (unsigned i = 0; i < AT->getNumElements(); i++) {
            TP e;
            if (loadType(s, AT->getElementType(), mkAdd(addr, mkConst(i * es, 64)), e) != CONT) return DEAD;
            v.push_back(e);
        }
        out = mkTuple(v);
        return CONT;
    }
    return incomplete(s, "load of an unsupported type");
}
Engine::Res Engine::storeType(State *s, Type *T, TP addr, TP v) {
    unsigned w = typeW(T);
    if (w) {
        if (w > 64) return incomplete(s, "store of an integer wider than 64 bits");
        unsigned n = DL->getTypeStoreSize(T);
        uint64_t slot, off;
        TP so;
        if (access(s, addr, n, true, slot, off, so) != CONT) return DEAD;
        if (so) storeSym(s, slot, so, v, n);
        else storeBytes(*s, slot, off, v, n);
        return CONT;
    }
    if (auto *ST = dyn_cast<StructType>(T)) {
        auto *SL = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); i++)
            if (storeType(s, ST->getElementType(i), mkAdd(addr, mkConst(SL->getElementOffset(i), 64)), v->a[i]) != CONT) return DEAD;
        return CONT;
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) {
        uint64_t es = DL->getTypeAllocSize(AT->getElementType());
        for (unsigned i = 0; i < AT->getNumElements(); i++)
            if (storeType(s, AT->getElementType(), mkAdd(addr, mkConst(i * es, 64)), v->a[i]) != CONT) return DEAD;
        return CONT;
    }
    return incomplete(s, "store of an unsupported type");
}
Engine::Res Engine::memCopy(State *s, TP d, TP sv, TP n, bool move) {
    uint64_t len, da, sa;
    if (concretize(s, n, len, "a copy length") != CONT) return DEAD;
    if (!len) return CONT;
    if (concretize(s, d, da, "a copy destination") != CONT) return DEAD;
    if (concretize(s, sv, sa, "a copy source") != CONT) return DEAD;
    uint64_t ds, doff, ss, soff;
    TP so;
    if (len > (1u << 30)) return report(s, "out-of-bounds", "copy of " + std::to_string(len) + " bytes", nullptr);
    if (access(s, mkConst(da, 64), (unsigned)len, true, ds, doff, so) != CONT) return DEAD;
    if (access(s, mkConst(sa, 64), (unsigned)len, false, ss, soff, so) != CONT) return DEAD;
    if (!move && ss == ds && da != sa && da < sa + len && sa < da + len) return report(s, "overlap", "memcpy between overlapping regions", nullptr);
    std::vector<Cell> tmp(len);
    Object *o = robj(*s, ss);
    for (uint64_t i = 0; i < len; i++) tmp[i] = o->big || o->pages[(soff + i) / PAGE] ? *cellR(o, soff + i) : Cell{nullptr, 0};
    Object *w = wobj(*s, ds);
    for (uint64_t i = 0; i < len; i++) cellW(w, doff + i) = tmp[i];
    return CONT;
}
Engine::Res Engine::memSet(State *s, TP d, TP v, TP n) {
    uint64_t len, da;
    if (concretize(s, n, len, "a fill length") != CONT) return DEAD;
    if (!len) return CONT;
    if (concretize(s, d, da, "a fill destination") != CONT) return DEAD;
    uint64_t ds, doff;
    TP so;
    if (len > (1u << 30)) return report(s, "out-of-bounds", "fill of " + std::to_string(len) + " bytes", nullptr);
    if (access(s, mkConst(da, 64), (unsigned)len, true, ds, doff, so) != CONT) return DEAD;
    if (v->w > 8) v = mkTrunc(v, 8);
    Object *w = wobj(*s, ds);
    for (uint64_t i = 0; i < len; i++) {
        Cell &c = cellW(w, doff + i);
        c.t = v;
        c.idx = 0;
    }
    return CONT;
}

std::string Engine::cstr(State *s, TP p) {
    std::string r;
    if (!p->isc()) return "?";
    Object *o = robj(*s, p->val >> SLOT_BITS);
    if (!o) return "?";
    uint64_t off = p->val - o->base;
    for (; off < o->size; off++) {
        TP b = loadBytes(*s, p->val >> SLOT_BITS, off, 1);
        o = robj(*s, p->val >> SLOT_BITS);
        if (!b->isc()) {
            r += '?';
            continue;
        }
        if (!b->val) break;
        r += (char)b->val;
    }
    return r;
}

Engine::Res Engine::assertTrue(State *s, TP c, const std::string &msg) {
    res->oblTotal++;
    if (isTrue(c)) {
        res->oblStructural++;
        return CONT;
    }
    std::vector<TP> q(s->pc);
    q.push_back(mkNot(c));
    Model m;
    SatRes r = smtCheck(q, &m, assertTimeout);
    if (r == R_UNSAT) {
        res->oblSolver++;
        return CONT;
    }
    if (r == R_UNKNOWN) {
        res->oblUnknown++;
        return incomplete(s, "solver gave no answer for assertion: " + msg);
    }
    return report(s, "assertion", msg, &m);
}

// ------------------------------------------------------------------ calls
Engine::Res Engine::callFunction(State *s, Function *F, const std::vector<TP> &args, const std::vector<unsigned> &widths, DInst &d) {
    FnInfo *fi = info(F);
    fi->calls++;
    if (fi->fromRepo) repoFns.insert(F->getName().str());
    if (s->stack.size() > 400) return incomplete(s, "call depth limit");
    Frame nf;
    nf.fn = fi;
    nf.uid = uidCounter++;
    nf.regs.assign(fi->nregs, nullptr);
    size_t na = fi->argRegs.size();
    if (args.size() < na) return report(s, "bad-call", "call of " + F->getName().str() + " with too few arguments", nullptr);
    auto *CB = dyn_cast_or_null<CallBase>(d.I);
    for (size_t i = 0; i < na; i++) {
        TP v = args[i];
        if (CB && F->getArg(i)->hasByValAttr()) {
            uint64_t sz = DL->getTypeAllocSize(F->getArg(i)->getParamByValType());
            uint64_t slot = newObject(*s, sz, O_STACK, "byval argument of " + F->getName().str());
            TP dst = mkConst(robj(*s, slot)->base, 64);
            if (memCopy(s, dst, v, mkConst(sz, 64), true) != CONT) return DEAD;
            nf.allocas.push_back(slot);
            v = dst;
        }
        nf.regs[fi->argRegs[i]] = v;
    }
    nf.namedArgs = na;
    for (size_t i = na; i < args.size(); i++) nf.varargs.push_back({args[i], widths[i]});
    s->stack.push_back(std::move(nf));
    Frame &f = s->stack.back();
    f.block = 0;
    f.ip = 0;
    return CONT;
}

enum BI {
    B_NONE, B_MALLOC, B_CALLOC, B_FREE, B_NEW, B_DELETE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_ABORT, B_ATEXIT, B_NOP, B_ALLOCEX, B_THROW, B_RETHROW,
    B_BEGINCATCH, B_ENDCATCH, B_GUARDACQ, B_GUARDREL, B_THROWSTD, B_HASHBYTES, B_NEXTBKT, B_NEEDREHASH, B_CEIL, B_SYM, B_ASSUME, B_ASSERT, B_ASSERTEQ,
    B_OBSERVE, B_REACH, B_MERGE, B_SPAWN, B_SWITCH, B_ACQ, B_REL, B_RACE, B_UNDEF, B_TERMINATE, B_PUREVIRT, B_CTYPEB, B_ISCONST, B_CUT, B_PICK, B_ERRNO, B_CTYPEUP, B_ASSERTINIT,
    B_LIVE, B_REALLOC, B_FREEEX, B_HUGE, B_HUGESHORT
};
static const std::unordered_map<std::string, BI> biMap = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE}, {"realloc", B_REALLOC},
    {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZdlPv", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPvm", B_DELETE},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"abort", B_ABORT}, {"exit", B_ABORT}, {"_exit", B_ABORT},
    {"__cxa_atexit", B_ATEXIT}, {"__cxa_thread_atexit", B_ATEXIT}, {"atexit", B_ATEXIT},
    {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP}, {"_ZNSt9exceptionD1Ev", B_NOP}, {"_ZNSt9exceptionD2Ev", B_NOP}, {"_ZNSt9exceptionC2Ev", B_NOP},
    {"_ZNSt9exceptionD0Ev", B_NOP}, {"__cxa_allocate_exception", B_ALLOCEX}, {"__cxa_free_exception", B_FREEEX}, {"__cxa_throw", B_THROW}, {"__cxa_rethrow", B_RETHROW},
    {"__cxa_begin_catch", B_BEGINCATCH}, {"__cxa_end_catch", B_ENDCATCH}, {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_GUARDREL}, {"__cxa_guard_abort", B_NOP},
    {"_ZSt11_Hash_bytesPKvmm", B_HASHBYTES}, {"_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm", B_NEXTBKT},
    {"_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm", B_NEEDREHASH}, {"ceil", B_CEIL}, {"floor", B_CEIL}, {"ceill", B_NONE},
    {"vp_symbolic", B_SYM}, {"vp_assume", B_ASSUME}, {"vp_assert", B_ASSERT}, {"vp_assert_eq", B_ASSERTEQ}, {"vp_observe", B_OBSERVE}, {"vp_reach", B_REACH},
    {"vp_merge", B_MERGE}, {"vp_prim_spawn", B_SPAWN}, {"vp_prim_switch", B_SWITCH}, {"vp_prim_acquire", B_ACQ}, {"vp_prim_release", B_REL}, {"vp_prim_race", B_RACE}, {"vp_undef", B_UNDEF}, {"_ZSt9terminatev", B_TERMINATE},
    {"__cxa_pure_virtual", B_PUREVIRT}, {"__cxa_bad_cast", B_PUREVIRT}, {"__ctype_b_loc", B_CTYPEB}, {"__ctype_toupper_loc", B_CTYPEUP}, {"__ctype_tolower_loc", B_CTYPEUP},
    {"vp_cut", B_CUT}, {"vp_pick", B_PICK}, {"__errno_location", B_ERRNO}, {"vp_assert_init", B_ASSERTINIT}, {"vp_live_heap", B_LIVE},
    {"vp_huge", B_HUGE}, {"vp_huge_short", B_HUGESHORT}};

static const std::unordered_map<std::string, const char *> throwStd = {
    {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
    {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
    {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt20__throw_system_errori", "_ZTISt12system_error"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"},
    {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt19__throw_range_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}};

// Stands for std::_Hash_bytes. Unordered containers must behave the same for every hash function, so any
// function of the bytes will do; one that depends on the length only stays concrete for symbolic bytes.
static uint64_t hashBytes(uint64_t len, uint64_t seed) { return (len * 0x9E3779B97F4A7C15ull ^ seed) >> 7; }
static const uint64_t primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029};

Engine::Res Engine::builtinCall(State *s, Frame &f, DInst &d, const std::string &name, const std::vector<TP> &args, const std::vector<unsigned> &widths) {
    auto ts = throwStd.find(name);
    if (ts != throwStd.end()) {
        uint64_t slot = newObject(*s, 64, O_HEAP, "exception object");
        uint64_t a = robj(*s, slot)->base;
        return throwEx(s, a, stdTypeInfo(ts->second));
    }
    auto bt = biMap.find(name);
    BI bi = bt == biMap.end() ? B_NONE : bt->second;
    TP ret = nullptr;
    uint64_t n, a;
    switch (bi) {
    case B_MALLOC:
    case B_NEW: {
        if (concretize(s, args[0], n, "an allocation size") != CONT) return DEAD;
        if (n > (1ull << 32)) {
            if (bi == B_NEW) {
                uint64_t slot = newObject(*s, 64, O_HEAP, "exception object");
                return throwEx(s, robj(*s, slot)->base, stdTypeInfo("_ZTISt9bad_alloc"));
            }
            return finishCall(s, mkConst(0, 64));
        }
        uint64_t slot = newObject(*s, n, O_HEAP, "heap block");
        Object *o = wobj(*s, slot);
        o->isMalloc = bi == B_MALLOC;
        o->isNewArray = name == "_Znam";
        ret = mkConst(o->base, 64);
        break;
    }
    case B_CALLOC: {
        uint64_t m;
        if (concretize(s, args[0], n, "an allocation size") != CONT) return DEAD;
        if (concretize(s, args[1], m, "an allocation size") != CONT) return DEAD;
        uint64_t slot = newObject(*s, n * m, O_HEAP, "heap block");
        wobj(*s, slot)->isMalloc = true;
        ret = mkConst(robj(*s, slot)->base, 64);
        if (memSet(s, ret, mkConst(0, 8), mkConst(n * m, 64)) != CONT) return DEAD;
        break;
    }
    case B_FREE:
    case B_DELETE: {
        if (concretize(s, args[0], a, "a freed pointer") != CONT) return DEAD;
        if (!a) break;
        Object *o = robj(*s, a >> SLOT_BITS);
        if (!o) return report(s, "bad-free", "free of a pointer to no live object (double free)", nullptr);
        if (o->base != a || o->kind != O_HEAP) return report(s, "bad-free", "free of a pointer that was not allocated (" + o->name + ")", nullptr);
        if (s->threads && raceCheck(s, o, a >> SLOT_BITS, 0, o->size, true) != CONT) return DEAD;
        if (o->isMalloc != (bi == B_FREE)) return report(s, "bad-free", "mismatched malloc/new and free/delete", nullptr);
        removeObject(*s, a >> SLOT_BITS);
        break;
    }
    case B_MEMCPY:
    case B_MEMMOVE:
        if (memCopy(s, args[0], args[1], args[2], bi == B_MEMMOVE) != CONT) return DEAD;
        ret = args[0];
        break;
    case B_MEMSET:
        if (memSet(s, args[0], args[1], args[2]) != CONT) return DEAD;
        ret = args[0];
        break;
    case B_ABORT:
    case B_TERMINATE:
    case B_PUREVIRT: return report(s, "abort", name + " called", nullptr);
    case B_ATEXIT: ret = mkConst(0, 32); break;
    case B_NOP: break;
    case B_ALLOCEX: {
        if (concretize(s, args[0], n, "an allocation size") != CONT) return DEAD;
        uint64_t slot = newObject(*s, n ? n : 1, O_HEAP, "exception object");
        ret = mkConst(robj(*s, slot)->base, 64);
        break;
    }
    case B_FREEEX: break;
    case B_THROW: return throwEx(s, args[0]->val, args[1]->val);
    case B_RETHROW: return throwEx(s, s->exObj, s->exType);
    case B_BEGINCATCH: ret = args[0]; break;
    case B_ENDCATCH: break;
    case B_GUARDACQ: {
        uint64_t slot, off;
        TP so;
        bool was = s->raceOff;
        s->raceOff = true;
        if (access(s, args[0], 1, false, slot, off, so) != CONT) return DEAD;
        s->raceOff = was;
        TP g = loadBytes(*s, slot, off, 1);
        ret = mkConst(g->isc() && g->val ? 0 : 1, 32);
        acquire(s, args[0]->val);
        break;
    }
    case B_GUARDREL: {
        uint64_t slot, off;
        TP so;
        release(s, args[0]->val);
        bool was = s->raceOff;
        s->raceOff = true;
        if (access(s, args[0], 1, true, slot, off, so) != CONT) return DEAD;
        s->raceOff = was;
        storeBytes(*s, slot, off, mkConst(1, 8), 1);
        break;
    }
    case B_HASHBYTES: {
        if (concretize(s, args[1], n, "a hashed length") != CONT) return DEAD;
        if (concretize(s, args[0], a, "a hashed pointer") != CONT) return DEAD;
        uint64_t seed, slot, off;
        TP so;
        if (concretize(s, args[2], seed, "a hash seed") != CONT) return DEAD;
        if (n && access(s, mkConst(a, 64), (unsigned)n, false, slot, off, so) != CONT) return DEAD;
        ret = mkConst(hashBytes(n, seed), 64);
        break;
    }
    case B_NEXTBKT: {
        // returns a prime >= n and records the resize threshold
        if (concretize(s, args[1], n, "a bucket count") != CONT) return DEAD;
        uint64_t p = n <= 1 ? 1 : 0;
        static const uint8_t fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
        if (n == 0) p = 1;
        else if (n < 14) p = fast[n];
        else
            for (uint64_t q : primes)
                if (q >= n) {
                    p = q;
                    break;
                }
        uint64_t slot, off;
        TP so;
        if (n) {
            if (access(s, mkAdd(args[0], mkConst(8, 64)), 8, true, slot, off, so) != CONT) return DEAD;
            storeBytes(*s, slot, off, mkConst(p, 64), 8); // max load factor 1
        }
        ret = mkConst(p, 64);
        break;
    }
    case B_NEEDREHASH: {
        uint64_t nb, ne, ni;
        if (concretize(s, args[1], nb, "a bucket count") != CONT || concretize(s, args[2], ne, "an element count") != CONT || concretize(s, args[3], ni, "an element count") != CONT) return DEAD;
        uint64_t slot, off;
        TP so;
        if (access(s, mkAdd(args[0], mkConst(8, 64)), 8, true, slot, off, so) != CONT) return DEAD;
        TP nr = loadBytes(*s, slot, off, 8);
        uint64_t next = nr->isc() ? nr->val : 0;
        bool need = false;
        uint64_t bkt = 0;
        if (ne + ni > next) {
            double min = std::max<uint64_t>(ne + ni, next ? 0 : 11);
            if (min >= nb) {
                uint64_t want = std::max<uint64_t>((uint64_t)std::floor(min) + 1, nb * 2);
                static const uint8_t fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
                if (want < 14) bkt = fast[want];
                else
                    for (uint64_t q : primes)
                        if (q >= want) {
                            bkt = q;
                            break;
                        }
                need = true;
                storeBytes(*s, slot, off, mkConst(bkt, 64), 8);
            }
            else
                storeBytes(*s, slot, off, mkConst(nb, 64), 8);
        }
        ret = mkTuple({mkConst(need, 8), mkConst(bkt, 64)});
        if (auto *ST = dyn_cast<StructType>(d.I->getType()))
            if (ST->getElementType(0)->isIntegerTy(1)) ret = mkTuple({mkConst(need, 1), mkConst(bkt, 64)});
        break;
    }
    case B_CEIL: {
        uint64_t v;
        if (concretize(s, args[0], v, "a floating-point argument") != CONT) return DEAD;
        double x;
        memcpy(&x, &v, 8);
        x = name == "ceil" ? ceil(x) : floor(x);
        memcpy(&v, &x, 8);
        ret = mkConst(v, 64);
        break;
    }
    case B_SYM: {
        if (concretize(s, args[1], n, "a size") != CONT) return DEAD;
        if (concretize(s, args[0], a, "a pointer") != CONT) return DEAD;
        std::string nm = cstr(s, args[2]);
        InputRec in;
        in.name = nm;
        if (n) {
            uint64_t slot, off;
            TP so;
            if (access(s, mkConst(a, 64), (unsigned)n, true, slot, off, so) != CONT) return DEAD;
            // words become one variable each so that arithmetic on them stays readable; byte buffers get byte variables
            size_t pos = 0;
            for (auto &i2 : s->inputs) pos += i2.name == nm;
            std::string pre = nm + (pos ? "." + std::to_string(pos) : "");
            bool word = !nm.empty() && nm[0] == '$'; // "$name": 8/4/2-byte words
            if (word) {
                unsigned ws = n % 8 == 0 && nm.size() > 1 && nm[1] == '8' ? 8 : n % 4 == 0 && nm.size() > 1 && nm[1] == '4' ? 4 : (n == 2 || n == 4 || n == 8) ? (unsigned)n : 1;
                for (uint64_t i = 0; i < n; i += ws) {
                    TP v = mkVar(pre + "[" + std::to_string(i) + "]", ws * 8);
                    storeBytes(*s, slot, off + i, v, ws);
                    for (unsigned k = 0; k < ws; k++) in.bytes.push_back(mkExtract(v, k * 8, 8));
                }
            }
            else
                for (uint64_t i = 0; i < n; i++) {
                    TP v = mkVar(pre + "[" + std::to_string(i) + "]", 8);
                    storeBytes(*s, slot, off + i, v, 1);
                    in.bytes.push_back(v);
                }
        }
        s->inputs.push_back(in);
        break;
    }
    case B_ASSUME: {
        TP c = args[0];
        c = mkNot(mkEq(c, mkConst(0, c->w)));
        if (isTrue(c)) break;
        if (!assume(s, c)) return die(s, false);
        break;
    }
    case B_ASSERT: {
        TP c = args[0];
        c = mkNot(mkEq(c, mkConst(0, c->w)));
        std::string msg = cstr(s, args[1]);
        if (checkUndef(s, c, "an asserted condition") != CONT) return DEAD;
        if (assertTrue(s, c, msg) != CONT) return DEAD;
        break;
    }
    case B_ASSERTEQ: {
        if (concretize(s, args[2], n, "a size") != CONT) return DEAD;
        std::string msg = cstr(s, args[3]);
        if (!n) break;
        uint64_t sa, oa, sb, ob, pa, pb;
        TP so;
        if (concretize(s, args[0], pa, "a pointer") != CONT) return DEAD;
        if (concretize(s, args[1], pb, "a pointer") != CONT) return DEAD;
        if (access(s, mkConst(pa, 64), (unsigned)n, false, sa, oa, so) != CONT) return DEAD;
        if (access(s, mkConst(pb, 64), (unsigned)n, false, sb, ob, so) != CONT) return DEAD;
        std::vector<std::pair<TP, TP>> pairs;
        ObsRec ob1;
        ob1.name = msg;
        for (uint64_t i = 0; i < n; i++) {
            TP x = loadBytes(*s, sa, oa + i, 1), y = loadBytes(*s, sb, ob + i, 1);
            pairs.push_back({x, y});
            ob1.bytes.push_back(x);
        }
        s->obs.push_back(ob1);
        res->oblTotal += n;
        EqStats es;
        Model cex;
        SatRes r = proveEqual(pairs, s->pc, &cex, assertTimeout, es);
        res->oblStructural += es.structural;
        res->oblSwept += es.swept;
        res->oblSolver += es.solver;
        if (r == R_SAT) {
            Model full;
            full.v = cex.v;
            if (getenv("IRSYM_CEX")) {
                for (auto &p : pairs) fprintf(stderr, "pair %s\n  == %s\n", termStr(p.first, 9).c_str(), termStr(p.second, 9).c_str());
                for (TP c : s->pc) fprintf(stderr, "pc %llu %s\n", (unsigned long long)evalTerm(c, full), termStr(c, 9).c_str());
            }
            for (uint64_t i = 0; i < n; i++)
                if (evalTerm(pairs[i].first, full) != evalTerm(pairs[i].second, full)) {
                    msg += " (byte " + std::to_string(i) + " differs" + (pairs[i].first->undef || pairs[i].second->undef ? ", uninitialised data" : "") + ")";
                    break;
                }
            return report(s, "assertion", msg, &full);
        }
        if (r == R_UNKNOWN) {
            res->oblUnknown++;
            return incomplete(s, "solver gave no answer for equality: " + msg);
        }
        break;
    }
    case B_ASSERTINIT: { // every byte defined
        if (concretize(s, args[1], n, "a size") != CONT) return DEAD;
        uint64_t slot, off;
        TP so;
        if (n) {
            if (access(s, args[0], (unsigned)n, false, slot, off, so) != CONT) return DEAD;
            for (uint64_t i = 0; i < n; i++)
                if (checkUndef(s, loadBytes(*s, slot, off + i, 1), "an output byte") != CONT) return DEAD;
        }
        break;
    }
    case B_OBSERVE: {
        if (concretize(s, args[1], n, "a size") != CONT) return DEAD;
        ObsRec o;
        o.name = cstr(s, args[2]);
        if (n) {
            uint64_t slot, off, pa;
            TP so;
            if (concretize(s, args[0], pa, "a pointer") != CONT) return DEAD;
            if (access(s, mkConst(pa, 64), (unsigned)n, false, slot, off, so) != CONT) return DEAD;
            for (uint64_t i = 0; i < n; i++) o.bytes.push_back(loadBytes(*s, slot, off + i, 1));
        }
        s->obs.push_back(o);
        break;
    }
    case B_REACH: res->reach[cstr(s, args[0])]++; break;
    case B_MERGE: s->mergeOn = args[0]->val != 0; break;
    case B_SPAWN: { // (thread, function): a suspended stack that starts with the function
        uint64_t t = args[0]->val, fp;
        if (concretize(s, args[1], fp, "a function pointer") != CONT) return DEAD;
        auto it = faddr.find(fp);
        if (!t || t >= NTHR || it == faddr.end()) return incomplete(s, "thread start");
        if (!s->threads) {
            s->threads = true;
            for (int i = 0; i < NTHR; i++) s->vc[i].fill(0), s->vc[i][i] = 1;
        }
        std::vector<Frame> mine;
        mine.swap(s->stack);
        DInst dummy;
        dummy.opc = 0;
        dummy.I = nullptr;
        Res q = callFunction(s, it->second, {}, {}, dummy);
        s->others[t].stack.swap(s->stack);
        s->stack.swap(mine);
        if (q != CONT) return q;
        s->vc[t] = s->vc[s->thread];
        s->vc[t][t] = 1;
        s->vc[s->thread][s->thread]++;
        Frame &g = s->stack.back();
        g.ip++;
        return CONT;
    }
    case B_SWITCH: { // the running thread continues behind this call when it is switched to again
        uint64_t t = args[0]->val;
        if (!args[0]->isc() || t >= NTHR || s->others[t].stack.empty()) return incomplete(s, "thread switch");
        while (s->mp) escape(s);
        s->stack.back().ip++;
        auto &me = s->others[s->thread], &to = s->others[t];
        std::swap(me.stack, s->stack);
        std::swap(me.caught, s->caught);
        std::swap(me.exObj, s->exObj);
        std::swap(me.exType, s->exType);
        std::swap(to.stack, s->stack);
        std::swap(to.caught, s->caught);
        std::swap(to.exObj, s->exObj);
        std::swap(to.exType, s->exType);
        s->thread = (int)t;
        res->switches++;
        return CONT;
    }
    case B_ACQ: acquire(s, args[0]->val); break;
    case B_REL: release(s, args[0]->val); break;
    case B_RACE: s->raceOff = !args[0]->val; break;
    case B_UNDEF: {
        if (concretize(s, args[1], n, "a size") != CONT) return DEAD;
        uint64_t slot, off;
        TP so;
        if (n) {
            if (access(s, args[0], (unsigned)n, true, slot, off, so) != CONT) return DEAD;
            Object *o = wobj(*s, slot);
            for (uint64_t i = 0; i < n; i++) cellW(o, off + i) = Cell{nullptr, 0};
        }
        break;
    }
    case B_CUT: return die(s, true);
    case B_PICK: {
        uint64_t v;
        if (concretize(s, args[0], v, "a picked value") != CONT) return DEAD;
        return finishCall(s, mkConst(v, args[0]->w));
    }
    case B_HUGE: { // read-only zeros; the path ends when more than the given number of them has been read
        uint64_t lim;
        if (concretize(s, args[0], n, "an allocation size") != CONT) return DEAD;
        if (concretize(s, args[1], lim, "a limit") != CONT) return DEAD;
        uint64_t slot = newObject(*s, n, O_HEAP, "huge input");
        Object *o = wobj(*s, slot);
        o->readLimit = lim;
        s->stepCap = s->steps + 3000000;
        ret = mkConst(o->base, 64);
        break;
    }
    case B_HUGESHORT: ret = mkConst(1, 32); break;
    case B_LIVE: { // number of live heap blocks
        uint64_t k = 0;
        for (auto &p : s->mem)
            if (p.second && p.second->kind == O_HEAP && p.second->name != "exception object") k++;
        ret = mkConst(k, 64);
        break;
    }
    case B_CTYPEB: {
        static uint64_t slot = 0; // table lives in the state's own memory
        slot = newObject(*s, 384 * 2, O_GLOBAL, "ctype table");
        const unsigned short *t = *__ctype_b_loc();
        for (int i = -128; i < 256; i++) storeBytes(*s, slot, (uint64_t)(i + 128) * 2, mkConst(t[i], 16), 2);
        uint64_t base = robj(*s, slot)->base + 256;
        uint64_t ps = newObject(*s, 8, O_GLOBAL, "ctype pointer");
        storeBytes(*s, ps, 0, mkConst(base, 64), 8);
        ret = mkConst(robj(*s, ps)->base, 64);
        break;
    }
    case B_CTYPEUP: {
        uint64_t slot = newObject(*s, 384 * 4, O_GLOBAL, "ctype table");
        const int32_t *t = name == "__ctype_toupper_loc" ? *__ctype_toupper_loc() : *__ctype_tolower_loc();
        for (int i = -128; i < 256; i++) storeBytes(*s, slot, (uint64_t)(i + 128) * 4, mkConst((uint32_t)t[i], 32), 4);
        uint64_t base = robj(*s, slot)->base + 512;
        uint64_t ps = newObject(*s, 8, O_GLOBAL, "ctype pointer");
        storeBytes(*s, ps, 0, mkConst(base, 64), 8);
        ret = mkConst(robj(*s, ps)->base, 64);
        break;
    }
    case B_ERRNO: {
        uint64_t ps = newObject(*s, 4, O_GLOBAL, "errno");
        storeBytes(*s, ps, 0, mkConst(0, 32), 4);
        ret = mkConst(robj(*s, ps)->base, 64);
        break;
    }
    default: return incomplete(s, "call of unmodelled function " + name);
    }
    return finishCall(s, ret);
}

Engine::Res Engine::execCall(State *s, Frame &f, DInst &d) {
    auto *CB = cast<CallBase>(d.I);
    std::vector<TP> args;
    std::vector<unsigned> widths;
    unsigned na = CB->arg_size();
    for (unsigned i = 0; i < na; i++) {
        TP v = val(f, d.ops[i]);
        if (!v) v = undefTerm(typeW(CB->getArgOperand(i)->getType()) ? typeW(CB->getArgOperand(i)->getType()) : 64, "argument");
        args.push_back(v);
        widths.push_back(v->w);
    }
    Function *F = d.callee;
    if (!F) {
        if (CB->isInlineAsm()) {
            if (cast<InlineAsm>(CB->getCalledOperand())->getAsmString().empty()) return finishCall(s, nullptr);
            return incomplete(s, "inline assembly");
        }
        TP fp = val(f, d.ops[na]);
        if (!fp->isc()) {
            if (fp->op == T_ITE) {
                auto it = s->concretized.find(fp->a[0]);
                if (it == s->concretized.end()) {
                    if (forkOn(s, fp->a[0]) != CONT) return DEAD;
                    it = s->concretized.find(fp->a[0]);
                }
                fp = it->second ? fp->a[1] : fp->a[2];
            }
            uint64_t v;
            if (concretize(s, fp, v, "a called function") != CONT) return DEAD;
            fp = mkConst(v, 64);
        }
        auto it = faddr.find(fp->val);
        if (it == faddr.end()) return report(s, "bad-call", "call through an invalid function pointer", nullptr);
        F = it->second;
    }
    if (F->isIntrinsic()) {
        Intrinsic::ID id = F->getIntrinsicID();
        TP ret = nullptr;
        switch (id) {
        case Intrinsic::memcpy:
        case Intrinsic::memcpy_inline:
        case Intrinsic::memmove:
            if (memCopy(s, args[0], args[1], args[2], id == Intrinsic::memmove || (args[0] == args[1])) != CONT) return DEAD;
            break;
        case Intrinsic::memset:
        case Intrinsic::memset_inline:
            if (memSet(s, args[0], args[1], args[2]) != CONT) return DEAD;
            break;
        case Intrinsic::stacksave: ret = mkConst(f.allocas.size(), 64); break;
        case Intrinsic::stackrestore: {
            size_t k = args[0]->val;
            while (f.allocas.size() > k) {
                removeObject(*s, f.allocas.back());
                f.allocas.pop_back();
            }
            break;
        }
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value:
        case Intrinsic::dbg_label:
        case Intrinsic::assume:
        case Intrinsic::donothing:
        case Intrinsic::prefetch:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::vaend:
        case Intrinsic::invariant_start:
        case Intrinsic::invariant_end: break;
        case Intrinsic::expect:
        case Intrinsic::threadlocal_address:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group: ret = args[0]; break;
        case Intrinsic::is_constant: ret = mkConst(0, 1); break;
        case Intrinsic::objectsize: ret = mkConst(args[1]->val ? 0 : ~0ull, d.w); break;
        case Intrinsic::trap:
        case Intrinsic::ubsantrap:
        case Intrinsic::debugtrap: return report(s, "trap", "trap reached", nullptr);
        case Intrinsic::umul_with_overflow: {
            unsigned w = args[0]->w;
            if (!args[0]->isc() || !args[1]->isc()) {
                TP c = args[0]->isc() ? args[0] : args[1], x = args[0]->isc() ? args[1] : args[0];
                if (!c->isc()) return incomplete(s, "symbolic umul.with.overflow");
                TP lim = c->val ? mkConst(maskw(w) / c->val, w) : mkConst(maskw(w), w);
                ret = mkTuple({mkMul(x, c), mkUlt(lim, x)});
            }
            else {
                unsigned __int128 p = (unsigned __int128)args[0]->val * args[1]->val;
                ret = mkTuple({mkConst((uint64_t)p, w), mkConst(p > maskw(w), 1)});
            }
            break;
        }
        case Intrinsic::uadd_with_overflow: {
            TP r = mkAdd(args[0], args[1]);
            ret = mkTuple({r, mkUlt(r, args[0])});
            break;
        }
        case Intrinsic::usub_with_overflow: ret = mkTuple({mkSub(args[0], args[1]), mkUlt(args[0], args[1])}); break;
        case Intrinsic::umax: ret = mkIte(mkUlt(args[0], args[1]), args[1], args[0]); break;
        case Intrinsic::umin: ret = mkIte(mkUlt(args[0], args[1]), args[0], args[1]); break;
        case Intrinsic::smax: ret = mkIte(mkSlt(args[0], args[1]), args[1], args[0]); break;
        case Intrinsic::smin: ret = mkIte(mkSlt(args[0], args[1]), args[0], args[1]); break;
        case Intrinsic::abs: ret = mkIte(mkSlt(args[0], mkConst(0, args[0]->w)), mkNeg(args[0]), args[0]); break;
        case Intrinsic::bswap: {
            std::vector<TP> p;
            for (unsigned i = 0; i < args[0]->w; i += 8) p.push_back(mkExtract(args[0], i, 8));
            ret = mkConcat(p);
            break;
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr: {
            unsigned w = args[0]->w;
            if (!args[2]->isc()) {
                TP c = mkUrem(args[2], mkConst(w, w)), rc = mkSub(mkConst(w, w), c);
                if (id == Intrinsic::fshl) ret = mkIte(mkEq(c, mkConst(0, w)), args[0], mkOr(mkShl(args[0], c), mkLshr(args[1], rc)));
                else ret = mkIte(mkEq(c, mkConst(0, w)), args[1], mkOr(mkShl(args[0], rc), mkLshr(args[1], c)));
                break;
            }
            unsigned c = args[2]->val % w;
            if (id == Intrinsic::fshr) {
                if (!c) {
                    ret = args[1];
                    break;
                }
                c = w - c;
            }
            else if (!c) {
                ret = args[0];
                break;
            }
            ret = mkConcat2(mkExtract(args[0], 0, w - c), mkExtract(args[1], w - c, c));
            break;
        }
        case Intrinsic::ctpop: {
            TP r = mkConst(0, args[0]->w);
            for (unsigned i = 0; i < args[0]->w; i++) r = mkAdd(r, mkZext(mkExtract(args[0], i, 1), args[0]->w));
            ret = r;
            break;
        }
        case Intrinsic::ctlz: {
            unsigned w = args[0]->w;
            TP r = mkConst(w, w);
            for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(args[0], i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r);
            ret = r;
            break;
        }
        case Intrinsic::cttz: {
            unsigned w = args[0]->w;
            TP r = mkConst(w, w);
            for (int i = w - 1; i >= 0; i--) r = mkIte(mkEq(mkExtract(args[0], i, 1), mkConst(1, 1)), mkConst(i, w), r);
            ret = r;
            break;
        }
        case Intrinsic::ceil:
        case Intrinsic::floor: {
            uint64_t v;
            if (concretize(s, args[0], v, "a floating-point argument") != CONT) return DEAD;
            double x;
            memcpy(&x, &v, 8);
            x = id == Intrinsic::ceil ? ceil(x) : floor(x);
            memcpy(&v, &x, 8);
            ret = mkConst(v, 64);
            break;
        }
        case Intrinsic::eh_typeid_for: ret = mkConst(typeIdFor(args[0]->val), 32); break;
        case Intrinsic::vastart: {
            // SysV AMD64 va_list: {gp_offset, fp_offset, overflow_arg_area, reg_save_area}
            uint64_t rs = newObject(*s, 176, O_STACK, "register save area");
            size_t gp = f.namedArgs;
            std::vector<std::pair<TP, unsigned>> over;
            for (size_t i = 0; i < f.varargs.size(); i++) {
                TP v = f.varargs[i].first;
                if (gp + i < 6) {
                    // passed in a register: x86-64 code writing the 32-bit half clears the upper half
                    storeBytes(*s, rs, (gp + i) * 8, mkZext(v, 64), 8);
                }
                else
                    over.push_back({v, v->w});
            }
            uint64_t ov = newObject(*s, over.empty() ? 1 : over.size() * 8, O_STACK, "stack argument area");
            for (size_t i = 0; i < over.size(); i++) storeBytes(*s, ov, i * 8, over[i].first, (over[i].second + 7) / 8);
            f.allocas.push_back(rs);
            f.allocas.push_back(ov);
            uint64_t slot, off;
            TP so;
            if (access(s, args[0], 24, true, slot, off, so) != CONT) return DEAD;
            storeBytes(*s, slot, off, mkConst(std::min<size_t>(gp, 6) * 8, 32), 4);
            storeBytes(*s, slot, off + 4, mkConst(48, 32), 4);
            storeBytes(*s, slot, off + 8, mkConst(robj(*s, ov)->base, 64), 8);
            storeBytes(*s, slot, off + 16, mkConst(robj(*s, rs)->base, 64), 8);
            break;
        }
        case Intrinsic::vacopy:
            if (memCopy(s, args[0], args[1], mkConst(24, 64), true) != CONT) return DEAD;
            break;
        default: return incomplete(s, "intrinsic " + F->getName().str());
        }
        return finishCall(s, ret);
    }
    if (F->isDeclaration()) return builtinCall(s, f, d, F->getName().str(), args, widths);
    return callFunction(s, F, args, widths, d);
}

TP Engine::fpop(unsigned opc, Type *T, TP a, TP b, bool &ok) {
    ok = a->isc() && (!b || b->isc());
    if (!ok) return nullptr;
    auto D = [&](TP t) {
        if (T->isFloatTy()) {
            uint32_t u = (uint32_t)t->val;
            float x;
            memcpy(&x, &u, 4);
            return (double)x;
        }
        double x;
        memcpy(&x, &t->val, 8);
        return x;
    };
    double x = D(a), y = b ? D(b) : 0, r = 0;
    switch (opc) {
    case Instruction::FAdd: r = x + y; break;
    case Instruction::FSub: r = x - y; break;
    case Instruction::FMul: r = x * y; break;
    case Instruction::FDiv: r = x / y; break;
    case Instruction::FRem: r = fmod(x, y); break;
    case Instruction::FNeg: r = -x; break;
    default: ok = false;
    }
    uint64_t u = 0;
    if (T->isFloatTy()) {
        float z = (float)r;
        memcpy(&u, &z, 4);
        return mkConst(u & 0xffffffffu, 32);
    }
    memcpy(&u, &r, 8);
    return mkConst(u, 64);
}

Engine::Res Engine::step(State *s) {
    Frame &f = s->stack.back();
    DBlock &db = f.fn->blocks[f.block];
    s->steps++;
    if ((s->steps & 1023) == 0) {
        double now = wallNow();
        if (now - jobStart > maxWall) return incomplete(s, "time limit");
        if (!res->violations.empty()) {
            if (!firstViolation) firstViolation = now;
            else if (now - firstViolation > 10) return incomplete(s, "stopped some time after a violation");
        }
    }
    if (s->stepCap && (s->steps > s->stepCap || s->idleQueries > 200)) return report(s, "no-progress", "no more input is read", nullptr);
    if (s->steps > maxSteps) {
        if (cutAtSteps) return die(s, true);
        return incomplete(s, "step limit");
    }
    return execInst(s, f, db.ins[f.ip]);
}

Engine::Res Engine::execInst(State *s, Frame &f, DInst &d) {
    auto V = [&](unsigned i) -> TP {
        TP t = val(f, d.ops[i]);
        if (!t) t = undefTerm(typeW(d.I->getOperand(i)->getType()) ? typeW(d.I->getOperand(i)->getType()) : 64, "register");
        return t;
    };
    TP r = nullptr;
    if (trace) {
        errs() << "  [" << f.fn->F->getName() << ":" << f.block << "." << f.ip << "] ";
        d.I->print(errs());
        errs() << "\n";
    }
    switch (d.opc) {
    case Instruction::Add: r = mkAdd(V(0), V(1)); break;
    case Instruction::Sub: r = mkSub(V(0), V(1)); break;
    case Instruction::Mul: r = mkMul(V(0), V(1)); break;
    case Instruction::And: r = mkAnd(V(0), V(1)); break;
    case Instruction::Or: r = mkOr(V(0), V(1)); break;
    case Instruction::Xor: r = mkXor(V(0), V(1)); break;
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr: {
        TP a = V(0), b = V(1);
        unsigned w = a->w;
        if (b->isc() && b->val >= w) r = undefTerm(w, "shift by too much");
        else {
            r = d.opc == Instruction::Shl ? mkShl(a, b) : d.opc == Instruction::LShr ? mkLshr(a, b) : mkAshr(a, b);
            if (!b->isc() && b->umax >= w) r = mkIte(mkUlt(b, mkConst(w, w)), r, undefTerm(w, "shift by too much"));
        }
        break;
    }
    case Instruction::UDiv:
    case Instruction::SDiv:
    case Instruction::URem:
    case Instruction::SRem: {
        TP a = V(0), b = V(1);
        unsigned w = a->w;
        TP z = mkEq(b, mkConst(0, w));
        if (!isFalse(z)) {
            if (checkUndef(s, z, "a divisor") != CONT) return DEAD;
            Model m;
            SatRes q = feasible(s, z, &m);
            if (q == R_SAT) return report(s, "division-by-zero", "division by zero", &m);
            if (q == R_UNKNOWN) return incomplete(s, "solver gave no answer for a division check");
        }
        if (d.opc == Instruction::SDiv || d.opc == Instruction::SRem) {
            TP ov = mkAnd(mkEq(b, mkConst(maskw(w), w)), mkEq(a, mkConst(1ull << (w - 1), w)));
            if (!isFalse(ov)) {
                Model m;
                SatRes q = feasible(s, ov, &m);
                if (q == R_SAT) return report(s, "division-overflow", "signed division overflow", &m);
                if (q == R_UNKNOWN) return incomplete(s, "solver gave no answer for a division check");
            }
        }
        r = d.opc == Instruction::UDiv ? mkUdiv(a, b) : d.opc == Instruction::SDiv ? mkSdiv(a, b) : d.opc == Instruction::URem ? mkUrem(a, b) : mkSrem(a, b);
        break;
    }
    case Instruction::ICmp: {
        TP a = V(0), b = V(1);
        switch (d.pred) {
        case CmpInst::ICMP_EQ: r = mkEq(a, b); break;
        case CmpInst::ICMP_NE: r = mkNot(mkEq(a, b)); break;
        case CmpInst::ICMP_ULT: r = mkUlt(a, b); break;
        case CmpInst::ICMP_ULE: r = mkNot(mkUlt(b, a)); break;
        case CmpInst::ICMP_UGT: r = mkUlt(b, a); break;
        case CmpInst::ICMP_UGE: r = mkNot(mkUlt(a, b)); break;
        case CmpInst::ICMP_SLT: r = mkSlt(a, b); break;
        case CmpInst::ICMP_SLE: r = mkNot(mkSlt(b, a)); break;
        case CmpInst::ICMP_SGT: r = mkSlt(b, a); break;
        case CmpInst::ICMP_SGE: r = mkNot(mkSlt(a, b)); break;
        }
        break;
    }
    case Instruction::Select: {
        TP c = V(0), a = V(1), b = V(2);
        if (c->isc()) r = c->val ? a : b;
        else if (a->op == T_TUPLE) {
            if (!mergeTerm(c, a, b, r)) return incomplete(s, "select of aggregates");
        }
        else
            r = mkIte(c, a, b);
        break;
    }
    case Instruction::ZExt: r = mkZext(V(0), d.w); break;
    case Instruction::SExt: r = mkSext(V(0), d.w); break;
    case Instruction::Trunc: r = mkTrunc(V(0), d.w); break;
    case Instruction::PtrToInt:
    case Instruction::IntToPtr: {
        TP a = V(0);
        r = a->w > d.w ? mkTrunc(a, d.w) : mkZext(a, d.w);
        break;
    }
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
    case Instruction::Freeze: r = V(0); break;
    case Instruction::GetElementPtr: {
        TP p = V(0);
        for (auto &ix : d.idx) {
            TP i = val(f, ix.first);
            if (!i) i = undefTerm(64, "index");
            if (i->w < 64) i = mkSext(i, 64);
            p = mkAdd(p, mkMul(i, mkConst(ix.second, 64)));
        }
        if (d.constOff) p = mkAdd(p, mkConst(d.constOff, 64));
        r = p;
        break;
    }
    case Instruction::Load: {
        TP p = V(0);
        if (s->threads && d.I->isAtomic()) {
            bool was = s->raceOff;
            s->raceOff = true;
            if (loadType(s, d.I->getType(), p, r) != CONT) return DEAD;
            s->raceOff = was;
            if (p->isc()) acquire(s, p->val);
            break;
        }
        if (loadType(s, d.I->getType(), p, r) != CONT) return DEAD;
        break;
    }
    case Instruction::Store: {
        TP v = V(0), p = V(1);
        if (s->threads && d.I->isAtomic()) {
            bool was = s->raceOff;
            s->raceOff = true;
            if (storeType(s, d.I->getOperand(0)->getType(), p, v) != CONT) return DEAD;
            s->raceOff = was;
            if (p->isc()) release(s, p->val);
            break;
        }
        if (storeType(s, d.I->getOperand(0)->getType(), p, v) != CONT) return DEAD;
        break;
    }
    case Instruction::Alloca: {
        auto *A = cast<AllocaInst>(d.I);
        uint64_t n;
        TP c = V(0);
        if (concretize(s, c, n, "a stack allocation size") != CONT) return DEAD;
        uint64_t sz = DL->getTypeAllocSize(A->getAllocatedType()) * n;
        if (sz > (1ull << 28)) return report(s, "stack-overflow", "stack allocation of " + std::to_string(sz) + " bytes", nullptr);
        std::string nm = A->hasName() ? A->getName().str() : "local";
        uint64_t slot = newObject(*s, sz, O_STACK, nm + " in " + f.fn->F->getName().str());
        f.allocas.push_back(slot);
        r = mkConst(robj(*s, slot)->base, 64);
        break;
    }
    case Instruction::Br:
        if (d.ops.empty()) return enterBlock(s, d.succ[0]);
        return branchOn(s, V(0), d.succ[0], d.succ[1]);
    case Instruction::Switch: {
        TP c = V(0);
        if (c->isc()) {
            int t = d.succ[0];
            for (size_t i = 0; i < d.cases.size(); i++)
                if (d.cases[i] == c->val) {
                    t = d.succ[i + 1];
                    break;
                }
            return enterBlock(s, t);
        }
        if (checkUndef(s, c, "a switch") != CONT) return DEAD;
        // one condition per distinct target
        std::vector<std::pair<int, TP>> tg;
        TP any = mkFalse();
        for (size_t i = 0; i < d.cases.size(); i++) {
            TP e = mkEq(c, mkConst(d.cases[i], c->w));
            any = mkOr(any, e);
            bool f2 = false;
            for (auto &t : tg)
                if (t.first == d.succ[i + 1]) {
                    t.second = mkOr(t.second, e);
                    f2 = true;
                }
            if (!f2) tg.push_back({d.succ[i + 1], e});
        }
        bool f2 = false;
        for (auto &t : tg)
            if (t.first == d.succ[0]) {
                t.second = mkOr(t.second, mkNot(any));
                f2 = true;
            }
        if (!f2) tg.push_back({d.succ[0], mkNot(any)});
        std::vector<std::pair<State *, int>> kids;
        for (auto &t : tg) {
            auto m = std::make_shared<Model>();
            SatRes q = feasible(s, t.second, m.get());
            if (q == R_UNKNOWN) return incomplete(s, "solver gave no answer for a switch");
            if (q == R_UNSAT) continue;
            State *o = new State(*s);
            o->steps = 0;
            addPc(o, t.second, m);
            kids.push_back({o, t.first});
        }
        res->forks += kids.size() - 1;
        MergePoint *P = s->mp;
        res->steps += s->steps;
        if (s->mergeOn && kids.size() > 1) {
            MergePoint *mp = new MergePoint;
            mp->uid = f.uid;
            mp->block = f.fn->blocks[f.block].ipdom;
            mp->pending = kids.size();
            mp->parent = P;
            for (auto &k : kids) k.first->mp = mp;
        }
        else if (P)
            P->pending += (int)kids.size() - 1;
        delete s;
        for (auto &k : kids)
            if (enterBlock(k.first, k.second) == CONT) work.push_back(k.first);
        return FORKED;
    }
    case Instruction::Ret: {
        TP v = d.ops.empty() ? nullptr : V(0);
        return doReturn(s, v);
    }
    case Instruction::Call:
    case Instruction::Invoke: return execCall(s, f, d);
    case Instruction::Unreachable: return report(s, "unreachable", "code marked unreachable was reached", nullptr);
    case Instruction::LandingPad: {
        auto p = s->caught.back();
        s->caught.pop_back();
        r = mkTuple({mkConst(p.first, 64), mkConst(p.second, 32)});
        break;
    }
    case Instruction::Resume: {
        // continue unwinding from the caller
        for (uint64_t a : f.allocas) removeObject(*s, a);
        uint64_t uid = f.uid;
        s->stack.pop_back();
        while (s->mp && s->mp->uid == uid) escape(s);
        if (s->stack.empty()) return die(s, false);
        return unwind(s);
    }
    case Instruction::ExtractValue: {
        TP a = V(0);
        for (unsigned ix : cast<ExtractValueInst>(d.I)->indices()) {
            if (a->op != T_TUPLE) return incomplete(s, "extractvalue of an unknown aggregate");
            a = a->a[ix];
        }
        r = a;
        break;
    }
    case Instruction::InsertValue: {
        TP a = V(0), v = V(1);
        auto ix = cast<InsertValueInst>(d.I)->getIndices();
        std::function<TP(TP, unsigned)> ins = [&](TP t, unsigned k) -> TP {
            if (k == ix.size()) return v;
            std::vector<TP> e(t->a, t->a + t->n);
            e[ix[k]] = ins(e[ix[k]], k + 1);
            return mkTuple(e);
        };
        r = ins(a, 0);
        break;
    }
    case Instruction::FAdd:
    case Instruction::FSub:
    case Instruction::FMul:
    case Instruction::FDiv:
    case Instruction::FRem:
    case Instruction::FNeg: {
        TP a = V(0), b = d.opc == Instruction::FNeg ? nullptr : V(1);
        uint64_t x;
        if (concretize(s, a, x, "a floating-point value") != CONT) return DEAD;
        a = mkConst(x, a->w);
        if (b) {
            if (concretize(s, b, x, "a floating-point value") != CONT) return DEAD;
            b = mkConst(x, b->w);
        }
        bool ok;
        r = fpop(d.opc, d.I->getType(), a, b, ok);
        if (!ok) return incomplete(s, "floating point");
        break;
    }
    case Instruction::FCmp: {
        TP a = V(0), b = V(1);
        uint64_t xa, xb;
        if (concretize(s, a, xa, "a floating-point value") != CONT || concretize(s, b, xb, "a floating-point value") != CONT) return DEAD;
        double x, y;
        if (a->w == 32) {
            float fx, fy;
            uint32_t u = xa, v = xb;
            memcpy(&fx, &u, 4);
            memcpy(&fy, &v, 4);
            x = fx;
            y = fy;
        }
        else {
            memcpy(&x, &xa, 8);
            memcpy(&y, &xb, 8);
        }
        bool un = x != x || y != y, res1 = false;
        switch (d.pred) {
        case CmpInst::FCMP_OEQ: res1 = !un && x == y; break;
        case CmpInst::FCMP_ONE: res1 = !un && x != y; break;
        case CmpInst::FCMP_OLT: res1 = !un && x < y; break;
        case CmpInst::FCMP_OLE: res1 = !un && x <= y; break;
        case CmpInst::FCMP_OGT: res1 = !un && x > y; break;
        case CmpInst::FCMP_OGE: res1 = !un && x >= y; break;
        case CmpInst::FCMP_UNE: res1 = un || x != y; break;
        case CmpInst::FCMP_UEQ: res1 = un || x == y; break;
        case CmpInst::FCMP_ULT: res1 = un || x < y; break;
        case CmpInst::FCMP_ULE: res1 = un || x <= y; break;
        case CmpInst::FCMP_UGT: res1 = un || x > y; break;
        case CmpInst::FCMP_UGE: res1 = un || x >= y; break;
        case CmpInst::FCMP_ORD: res1 = !un; break;
        case CmpInst::FCMP_UNO: res1 = un; break;
        default: break;
        }
        r = mkConst(res1, 1);
        break;
    }
    case Instruction::UIToFP:
    case Instruction::SIToFP: {
        TP a = V(0);
        uint64_t x;
        if (concretize(s, a, x, "a converted value") != CONT) return DEAD;
        double y = d.opc == Instruction::UIToFP ? (double)x : (double)sextv(x, a->w);
        uint64_t u = 0;
        if (d.w == 32) {
            float z = d.opc == Instruction::UIToFP ? (float)x : (float)sextv(x, a->w);
            memcpy(&u, &z, 4);
        }
        else
            memcpy(&u, &y, 8);
        r = mkConst(u, d.w);
        break;
    }
    case Instruction::FPToUI:
    case Instruction::FPToSI:
    case Instruction::FPExt:
    case Instruction::FPTrunc: {
        TP a = V(0);
        uint64_t x;
        if (concretize(s, a, x, "a floating-point value") != CONT) return DEAD;
        double y;
        if (a->w == 32) {
            float z;
            uint32_t u = x;
            memcpy(&z, &u, 4);
            y = z;
        }
        else
            memcpy(&y, &x, 8);
        if (d.opc == Instruction::FPToUI) r = mkConst((uint64_t)y, d.w);
        else if (d.opc == Instruction::FPToSI) r = mkConst((uint64_t)(int64_t)y, d.w);
        else {
            uint64_t u = 0;
            if (d.w == 32) {
                float z = (float)y;
                memcpy(&u, &z, 4);
            }
            else if (d.w == 64)
                memcpy(&u, &y, 8);
            else
                return incomplete(s, "floating point");
            r = mkConst(u, d.w);
        }
        break;
    }
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: {
        auto *A = cast<AtomicRMWInst>(d.I);
        TP p = V(0), v = V(1), old;
        bool was = s->raceOff;
        s->raceOff = true;
        if (p->isc()) acquire(s, p->val);
        if (loadType(s, A->getType(), p, old) != CONT) return DEAD;
        TP nv;
        switch (A->getOperation()) {
        case AtomicRMWInst::Add: nv = mkAdd(old, v); break;
        case AtomicRMWInst::Sub: nv = mkSub(old, v); break;
        case AtomicRMWInst::And: nv = mkAnd(old, v); break;
        case AtomicRMWInst::Or: nv = mkOr(old, v); break;
        case AtomicRMWInst::Xor: nv = mkXor(old, v); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        default: return incomplete(s, "atomic operation");
        }
        if (storeType(s, A->getType(), p, nv) != CONT) return DEAD;
        s->raceOff = was;
        if (p->isc()) release(s, p->val);
        r = old;
        break;
    }
    case Instruction::AtomicCmpXchg: {
        auto *A = cast<AtomicCmpXchgInst>(d.I);
        TP p = V(0), old;
        Type *T = A->getCompareOperand()->getType();
        bool was = s->raceOff;
        s->raceOff = true;
        if (p->isc()) acquire(s, p->val);
        if (loadType(s, T, p, old) != CONT) return DEAD;
        TP eq = mkEq(old, V(1));
        if (storeType(s, T, p, mkIte(eq, V(2), old)) != CONT) return DEAD;
        s->raceOff = was;
        if (p->isc()) release(s, p->val);
        r = mkTuple({old, eq});
        break;
    }
    default: {
        std::string o = d.I->getOpcodeName();
        return incomplete(s, "instruction " + o);
    }
    }
    if (d.dst >= 0) f.regs[d.dst] = r;
    f.ip++;
    return CONT;
}

void Engine::run(const std::string &entry, const std::vector<int64_t> &args, JobResult &out) {
    res = &out;
    out.entry = entry;
    out.args = args;
    jobStart = wallNow();
    firstViolation = 0;
    violKeys.clear();
    Function *F = M->getFunction(entry);
    if (!F || F->isDeclaration()) {
        out.incomplete = true;
        out.incompleteWhy = "no such entry " + entry;
        return;
    }
    State *s = new State(init);
    s->mp = nullptr;
    s->steps = 0;
    std::vector<TP> a;
    std::vector<unsigned> w;
    for (size_t i = 0; i < F->arg_size(); i++) {
        a.push_back(mkConst(i < args.size() ? (uint64_t)args[i] : 0, typeW(F->getArg(i)->getType())));
        w.push_back(typeW(F->getArg(i)->getType()));
    }
    DInst dummy;
    dummy.opc = 0;
    dummy.I = nullptr;
    callFunction(s, F, a, w, dummy);
    work.clear();
    work.push_back(s);
    while (!work.empty()) {
        State *x = work.back();
        work.pop_back();
        while (step(x) == CONT)
            ;
        if (out.incomplete && wallNow() - jobStart > maxWall + 5) {
            break;
        }
    }
    out.wall = wallNow() - jobStart;
}
