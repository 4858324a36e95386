// Symbolic executor for LLVM bitcode (see DESIGN.md).
#include "engine.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

using namespace llvm;
using Clock = std::chrono::steady_clock;

static const uint64_t OFF0   = 0x10000000ull;
static const uint64_t R_GLOB = 0x01, R_FUNC = 0x02, R_HEAP = 0x03, R_STACK = 0x04;
static uint64_t mkAddr(uint64_t region, uint64_t idx) { return ((region << 24 | idx) << 32) + OFF0; }

struct Kill { const char* why; };
struct Incomplete { std::string why; };

static Val V(uint64_t c) { return Val{c, nullptr}; }
static uint64_t mask(uint32_t w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static int64_t sx(uint64_t v, uint32_t w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static E toE(const Val& v, uint32_t w) { return v.e ? v.e : xb::cst(w, v.c); }
static Val fromE(E e)
{
    if (e->isConst() && e->w <= 64) return V(e->val.getZExtValue());
    return Val{0, e};
}

struct ErrorRec {
    std::string kind, msg, loc;
    std::vector<std::string> stack;
    std::string inputs; // JSON
    std::vector<std::string> knownHits;
};

struct Opts {
    std::string file, entry = "vf_main", out, workdir;
    double   maxTime = 300, solverTimeout = 30;
    uint64_t maxSteps = 20000000;
    uint64_t maxAlloc = 1 << 24;
    int      jobs = 1;
    int      maxErrors = 12;
    uint64_t memMB = 3500;
    int      readIteLimit = 1024;
    bool     verbose = false;
    bool     hangIsError = true;
    std::set<std::string> known;
    size_t   maxSamples = 3;
};

enum class Flow { Next, Jumped };

class Engine
{
  public:
    LLVMContext             ctx;
    std::unique_ptr<Module> M;
    const DataLayout*       DL = nullptr;
    Opts                    opt;
    Solver                  solver;
    std::unordered_map<const Function*, CFn*>       fns;
    std::unordered_map<uint64_t, CFn*>              fnByAddr;
    std::unordered_map<const GlobalVariable*, uint64_t> gaddr;
    std::unordered_map<const GlobalVariable*, size_t>   gidx;
    std::vector<State*>     work;
    std::vector<ErrorRec>   errors;
    std::map<std::string, int> errKeys;
    std::map<std::string, uint64_t> covers, checks, incomplete, knownSeen, notes;
    uint64_t paths = 0, killed = 0, totalSteps = 0, forkCount = 0, memChecks = 0, checkQueries = 0;
    Clock::time_point t0;
    std::vector<CFn*> fnList;
    std::map<std::string, int> builtinIds;
    std::vector<std::string> samples;
    using BFn = std::function<Flow(State&, const Op&, std::vector<Val>&, Val&)>;
    std::vector<BFn> builtins;
    std::map<uint64_t, int> tiIds;
    std::map<uint64_t, std::string> symByAddr;

    // ---------------------------------------------------------------- setup
    uint64_t typeSlots(Type* t)
    {
        if (auto* st = dyn_cast<StructType>(t)) { uint64_t n = 0; for (Type* e : st->elements()) n += typeSlots(e); return n; }
        if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * typeSlots(at->getElementType());
        if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
        if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) return 0;
        return 1;
    }
    uint32_t scalarBits(Type* t) { return t->isPointerTy() ? 64 : (uint32_t)DL->getTypeSizeInBits(t).getFixedValue(); }
    void flatten(Type* t, uint64_t off, std::vector<uint32_t>& w, std::vector<uint64_t>& o)
    {
        if (auto* st = dyn_cast<StructType>(t))
        {
            auto* sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), w, o);
            return;
        }
        if (auto* at = dyn_cast<ArrayType>(t))
        {
            uint64_t es = DL->getTypeAllocSize(at->getElementType());
            for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, w, o);
            return;
        }
        if (auto* vt = dyn_cast<FixedVectorType>(t))
        {
            uint64_t es = DL->getTypeAllocSize(vt->getElementType());
            for (uint64_t i = 0; i < vt->getNumElements(); i++) { w.push_back(scalarBits(vt->getElementType())); o.push_back(off + i * es); }
            return;
        }
        w.push_back(scalarBits(t));
        o.push_back(off);
    }

    uint64_t fnAddr(const Function* F) { return getFn(F)->addr; }
    CFn* getFn(const Function* F)
    {
        auto it = fns.find(F);
        if (it != fns.end()) return it->second;
        // models of libstdc++ functions which are defined in the headers too (harness/models_os.cpp)
        if (const Function* G = F->getParent()->getFunction("vfos" + F->getName().str()); G && !G->isDeclaration()) return fns[F] = getFn(G);
        CFn* f   = new CFn;
        f->F     = F;
        f->name  = F->getName().str();
        f->addr  = mkAddr(R_FUNC, fns.size() + 1);
        fns[F]   = f;
        fnByAddr[f->addr] = f;
        fnList.push_back(f);
        f->builtin = findBuiltin(f->name, F);
        return f;
    }

    static bool startsWith(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }
    int findBuiltin(const std::string& n, const Function* F)
    {
        auto it = builtinIds.find(n);
        if (it != builtinIds.end()) return it->second;
        if (startsWith(n, "vf_model_") || startsWith(n, "vfos_")) return -1;
        // iostream output is a sink: any function of or on basic_ostream does nothing and returns its stream
        if (n.find("basic_ostream") != std::string::npos || startsWith(n, "_ZNSo") || startsWith(n, "_ZNKSo") || startsWith(n, "_ZStls") || n.find("__ostream_insert") != std::string::npos)
        {
            if (n.find("basic_ostream") != std::string::npos || n.find("So") != std::string::npos)
            {
                std::string d = llvm::demangle(n);
                if (d.find("std::basic_ostream<") == 0 || d.find("std::ostream::") != std::string::npos || d.find("std::basic_ostream<char") != std::string::npos)
                    if (d.find("fast_ber") == std::string::npos) return builtinIds["$ostream"];
            }
        }
        if (F->isDeclaration() && startsWith(n, "_ZNSt") && (n.find("errorC1E") != std::string::npos || n.find("errorC2E") != std::string::npos || n.find("errorD") != std::string::npos || n.find("rangeC1E") != std::string::npos || n.find("exceptionD") != std::string::npos || n.find("argumentC1E") != std::string::npos || n.find("argumentD")!= std::string::npos || n.find("rangeD") != std::string::npos))
            return builtinIds[n.find("C1E") != std::string::npos || n.find("C2E") != std::string::npos ? "$excctor" : "$nop"];
        if (F->isDeclaration() && ((startsWith(n, "_ZSt") && n.find("__throw_") != std::string::npos) || n.find("ThrowBadVariantAccess") != std::string::npos)) return builtinIds["$stdthrow"];
        return -1;
    }

    // constant -> flattened values
    void constVals(const Constant* c, std::vector<Val>& out)
    {
        Type* t = c->getType();
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
        {
            std::vector<uint32_t> w; std::vector<uint64_t> o;
            flatten(t, 0, w, o);
            for (uint32_t x : w) { Val v = V(0); if (x > 64) v.e = xb::cst(APInt(x, 0)); out.push_back(v); }
            return;
        }
        if (auto* ci = dyn_cast<ConstantInt>(c))
        {
            if (ci->getBitWidth() <= 64) out.push_back(V(ci->getZExtValue()));
            else out.push_back(Val{0, xb::cst(ci->getValue())});
            return;
        }
        if (auto* cf = dyn_cast<ConstantFP>(c)) {
            APInt v = cf->getValueAPF().bitcastToAPInt();
            if (v.getBitWidth() <= 64) out.push_back(V(v.getZExtValue())); else out.push_back(Val{0, xb::cst(v)});
            return;
        }
        if (isa<ConstantPointerNull>(c)) { out.push_back(V(0)); return; }
        if (auto* f = dyn_cast<Function>(c)) { out.push_back(V(fnAddr(f))); return; }
        if (auto* g = dyn_cast<GlobalVariable>(c)) { out.push_back(V(globalAddr(g))); return; }
        if (auto* ga = dyn_cast<GlobalAlias>(c)) { constVals(ga->getAliasee(), out); return; }
        if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (auto& op : ca->operands()) constVals(cast<Constant>(op), out); return; }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
        if (auto* ce = dyn_cast<ConstantExpr>(c))
        {
            std::vector<Val> a;
            switch (ce->getOpcode())
            {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Incomplete{"constant gep"};
                constVals(ce->getOperand(0), a);
                out.push_back(V(a[0].c + off.getZExtValue()));
                return;
            }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc:
                constVals(ce->getOperand(0), a);
                out.push_back(V(a[0].c & mask(scalarBits(t))));
                return;
            case Instruction::Sub: case Instruction::Add: {
                constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), a);
                out.push_back(V((ce->getOpcode() == Instruction::Sub ? a[0].c - a[1].c : a[0].c + a[1].c) & mask(scalarBits(t))));
                return;
            }
            case Instruction::ICmp: {
                constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), a);
                bool r = ce->getPredicate() == CmpInst::ICMP_EQ ? a[0].c == a[1].c : a[0].c != a[1].c;
                out.push_back(V(r));
                return;
            }
            default: break;
            }
        }
        std::string s; raw_string_ostream os(s); c->print(os);
        throw Incomplete{"unsupported constant: " + s};
    }
    uint64_t globalAddr(const GlobalVariable* g)
    {
        auto it = gaddr.find(g);
        if (it != gaddr.end()) return it->second;
        size_t i = gaddr.size() + 1;
        gidx[g]  = i;
        uint64_t a = mkAddr(R_GLOB, i);
        symByAddr[a] = g->getName().str();
        return gaddr[g] = a;
    }
    static Ref<MemObj> newObj(uint64_t base, uint64_t size, OK_ kind, bool uninit)
    {
        MemObj* o = new MemObj;
        o->base = base; o->size = size; o->kind = kind;
        o->conc.assign(size, 0);
        if (uninit) o->st.assign(size, 2);
        return Ref<MemObj>(o);
    }
    void initGlobals(State& s)
    {
        for (auto& g : M->globals()) globalAddr(&g);
        for (auto& f : *M) getFn(&f);
        for (auto& g : M->globals())
        {
            uint64_t size = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 64;
            if (g.isDeclaration()) size = std::max<uint64_t>(size, 512);
            Ref<MemObj> o = newObj(gaddr[&g], size, OK_::Global, false);
            o->site = "global";
            if (g.hasInitializer())
            {
                try
                {
                    std::vector<Val> v; std::vector<uint32_t> w; std::vector<uint64_t> off;
                    constVals(g.getInitializer(), v);
                    flatten(g.getValueType(), 0, w, off);
                    for (size_t i = 0; i < v.size(); i++)
                    {
                        uint32_t nb = (w[i] + 7) / 8;
                        if (v[i].e) { for (uint32_t k = 0; k < nb; k++) o->conc[off[i] + k] = (uint8_t)v[i].e->val.lshr(8 * k).trunc(8).getZExtValue(); }
                        else for (uint32_t k = 0; k < nb; k++) o->conc[off[i] + k] = (uint8_t)(v[i].c >> (8 * k));
                    }
                }
                catch (Incomplete& e) { fprintf(stderr, "global %s: %s\n", g.getName().str().c_str(), e.why.c_str()); }
            }
            o->readonly = g.isConstant();
            s.globals.set(gidx[&g], o);
        }
    }

    // ---------------------------------------------------------------- function compilation
    void compile(CFn* f)
    {
        if (f->compiled) return;
        f->compiled = true;
        const Function* F = f->F;
        std::unordered_map<const Value*, int32_t> slot;
        std::map<const Value*, int32_t>           cmap;
        uint32_t nr = 0;
        for (auto& a : F->args())
        {
            slot[&a] = nr; f->argSlot.push_back(nr);
            uint32_t n = typeSlots(a.getType());
            f->argN.push_back(n); nr += n;
        }
        for (auto& B : *F) for (auto& I : B) { uint32_t n = typeSlots(I.getType()); if (n) { slot[&I] = nr; nr += n; } }
        f->nregs = nr;
        auto operand = [&](const Value* v) -> Operand {
            auto it = slot.find(v);
            if (it != slot.end()) return Operand{it->second};
            auto ic = cmap.find(v);
            if (ic != cmap.end()) return Operand{ic->second};
            auto* c = dyn_cast<Constant>(v);
            int32_t idx = -(int32_t)f->consts.size() - 1;
            if (!c) { // metadata, inline asm, basic block
                f->consts.push_back(V(0));
            } else {
                // consts of one aggregate are stored contiguously with *increasing* negative index handled by opAt
                std::vector<Val> vals;
                constVals(c, vals);
                if (vals.empty()) vals.push_back(V(0));
                for (auto& x : vals) f->consts.push_back(x);
            }
            cmap[v] = idx;
            return Operand{idx};
        };
        std::unordered_map<const BasicBlock*, uint32_t> bstart;
        std::unordered_map<const BasicBlock*, size_t> dummy;
        // first pass: op indices (phis produce no op)
        uint32_t cnt = 0;
        for (auto& B : *F) { bstart[&B] = cnt; for (auto& I : B) { if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue; cnt++; } }
        f->ops.resize(cnt);
        auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
            Edge e; e.target = bstart[to];
            for (auto& P : to->phis())
            {
                uint32_t n = typeSlots(P.getType());
                e.copies.push_back({slot[&P], operand(P.getIncomingValueForBlock(from)), n});
            }
            return e;
        };
        uint32_t k = 0;
        for (auto& B : *F)
            for (auto& I : B)
            {
                if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
                Op& o = f->ops[k++];
                o.I = &I; o.opc = I.getOpcode(); o.n = typeSlots(I.getType());
                if (o.n) { o.dst = slot[&I]; if (o.n == 1 && !I.getType()->isStructTy()) o.w = I.getType()->isAggregateType() || I.getType()->isVectorTy() ? 0 : scalarBits(I.getType()); }
                switch (o.opc)
                {
                case Instruction::Br: {
                    auto& b = cast<BranchInst>(I);
                    if (b.isConditional()) o.ops.push_back(operand(b.getCondition()));
                    for (unsigned i = 0; i < b.getNumSuccessors(); i++) o.edges.push_back(edge(&B, b.getSuccessor(i)));
                    break;
                }
                case Instruction::Switch: {
                    auto& sw = cast<SwitchInst>(I);
                    o.ops.push_back(operand(sw.getCondition()));
                    o.w2 = scalarBits(sw.getCondition()->getType());
                    o.edges.push_back(edge(&B, sw.getDefaultDest()));
                    for (auto& c : sw.cases()) { o.cases.push_back(c.getCaseValue()->getValue()); o.edges.push_back(edge(&B, c.getCaseSuccessor())); }
                    break;
                }
                case Instruction::Call: case Instruction::Invoke: {
                    auto& cb = cast<CallBase>(I);
                    for (auto& a : cb.args())
                    {
                        uint32_t n = typeSlots(a->getType());
                        Operand  p = operand(a);
                        for (uint32_t i = 0; i < n; i++) { o.ops.push_back(shift(p, i)); }
                        if (!n) { }
                        o.opw.push_back(n ? (n == 1 && !a->getType()->isAggregateType() && !a->getType()->isVectorTy() ? scalarBits(a->getType()) : 0) : 0);
                    }
                    if (auto* inv = dyn_cast<InvokeInst>(&I))
                    {
                        o.edges.push_back(edge(&B, inv->getNormalDest()));
                        o.edges.push_back(edge(&B, inv->getUnwindDest()));
                    }
                    const Value* cv = cb.getCalledOperand()->stripPointerCastsAndAliases();
                    if (auto* cf = dyn_cast<Function>(cv)) o.callee = getFn(cf);
                    else { o.offs.push_back(1); o.ops.push_back(operand(cb.getCalledOperand())); }
                    if (cb.isInlineAsm()) o.imm = 77;
                    break;
                }
                case Instruction::GetElementPtr: {
                    auto& g = cast<GetElementPtrInst>(I);
                    o.ops.push_back(operand(g.getPointerOperand()));
                    uint64_t c = 0;
                    for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti)
                    {
                        Value* idx = ti.getOperand();
                        if (StructType* st = ti.getStructTypeOrNull())
                        {
                            c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                            continue;
                        }
                        uint64_t es = DL->getTypeAllocSize(ti.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(idx)) { c += es * (uint64_t)ci->getSExtValue(); continue; }
                        o.ops.push_back(operand(idx));
                        o.offs.push_back(es);
                        o.opw.push_back(scalarBits(idx->getType()));
                    }
                    o.imm = c;
                    break;
                }
                case Instruction::Load: {
                    o.ops.push_back(operand(I.getOperand(0)));
                    flatten(I.getType(), 0, o.opw, o.offs);
                    break;
                }
                case Instruction::Store: {
                    o.ops.push_back(operand(I.getOperand(0)));
                    o.ops.push_back(operand(I.getOperand(1)));
                    flatten(I.getOperand(0)->getType(), 0, o.opw, o.offs);
                    break;
                }
                case Instruction::Alloca: {
                    auto& al = cast<AllocaInst>(I);
                    o.imm = DL->getTypeAllocSize(al.getAllocatedType());
                    o.ops.push_back(operand(al.getArraySize()));
                    o.w2 = scalarBits(al.getArraySize()->getType());
                    break;
                }
                case Instruction::ExtractValue: {
                    auto& ev = cast<ExtractValueInst>(I);
                    o.ops.push_back(shift(operand(ev.getAggregateOperand()), slotOffset(ev.getAggregateOperand()->getType(), ev.getIndices())));
                    break;
                }
                case Instruction::InsertValue: {
                    auto& iv = cast<InsertValueInst>(I);
                    o.ops.push_back(operand(iv.getAggregateOperand()));
                    o.ops.push_back(operand(iv.getInsertedValueOperand()));
                    o.imm = slotOffset(iv.getAggregateOperand()->getType(), iv.getIndices());
                    o.w2  = typeSlots(iv.getInsertedValueOperand()->getType());
                    break;
                }
                case Instruction::ExtractElement: case Instruction::InsertElement: case Instruction::ShuffleVector: {
                    for (auto& u : I.operands()) o.ops.push_back(operand(u));
                    if (auto* vt = dyn_cast<FixedVectorType>(I.getOperand(0)->getType())) o.w2 = vt->getNumElements();
                    if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) for (int m : sv->getShuffleMask()) o.offs.push_back((uint64_t)(int64_t)m);
                    break;
                }
                case Instruction::Ret:
                    if (I.getNumOperands()) { o.ops.push_back(operand(I.getOperand(0))); o.n = typeSlots(I.getOperand(0)->getType()); }
                    else o.n = 0;
                    break;
                case Instruction::LandingPad: break;
                default:
                    for (auto& u : I.operands()) { o.ops.push_back(operand(u)); }
                    if (I.getNumOperands() && typeSlots(I.getOperand(0)->getType()) >= 1 && !I.getOperand(0)->getType()->isAggregateType())
                    {
                        Type* ot = I.getOperand(0)->getType();
                        if (auto* vt = dyn_cast<FixedVectorType>(ot)) { o.w2 = scalarBits(vt->getElementType()); }
                        else o.w2 = scalarBits(ot);
                    }
                    if (auto* vt = dyn_cast<FixedVectorType>(I.getType())) o.w = scalarBits(vt->getElementType());
                    if (o.opc == Instruction::Select)
                    {
                        std::vector<uint64_t> of;
                        o.opw.clear();
                        flatten(I.getType(), 0, o.opw, of);
                        o.imm = I.getOperand(0)->getType()->isVectorTy();
                    }
                    if (auto* c = dyn_cast<CmpInst>(&I)) o.imm = c->getPredicate();
                    break;
                }
            }
    }
    static Operand shift(Operand p, uint32_t i) { return p.s >= 0 ? Operand{p.s + (int32_t)i} : Operand{p.s - (int32_t)i}; }
    uint32_t slotOffset(Type* t, ArrayRef<unsigned> idx)
    {
        uint32_t off = 0;
        for (unsigned i : idx)
        {
            if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) off += typeSlots(st->getElementType(j)); t = st->getElementType(i); }
            else { auto* at = cast<ArrayType>(t); off += i * typeSlots(at->getElementType()); t = at->getElementType(); }
        }
        return off;
    }

    // ---------------------------------------------------------------- locations
    std::string locOf(const Instruction* I)
    {
        if (!I) return "?";
        if (const DILocation* d = I->getDebugLoc().get())
            return d->getFilename().str() + ":" + std::to_string(d->getLine());
        return "?";
    }
    static bool interesting(const std::string& f) { return f.find("/usr/") == std::string::npos && f.find("/harness/") == std::string::npos; }
    std::vector<std::string> stackOf(State& s, std::string* top)
    {
        std::vector<std::string> r;
        if (top) top->clear();
        for (size_t i = s.frames.size(); i-- > 0;)
        {
            Frame& f = s.frames[i];
            const Instruction* I = f.pc < f.fn->ops.size() ? f.fn->ops[f.pc].I : nullptr;
            const DILocation* d = I ? I->getDebugLoc().get() : nullptr;
            if (!d) { r.push_back(llvm::demangle(f.fn->name)); continue; }
            for (; d; d = d->getInlinedAt())
            {
                std::string file = d->getFilename().str();
                std::string fn   = d->getScope()->getSubprogram() ? d->getScope()->getSubprogram()->getName().str() : "";
                r.push_back(fn + " " + file + ":" + std::to_string(d->getLine()));
                if (top && top->empty() && interesting(file)) *top = file + ":" + std::to_string(d->getLine());
            }
        }
        if (top && top->empty() && !r.empty()) *top = r[0];
        if (r.size() > 40) r.resize(40);
        return r;
    }

    // ---------------------------------------------------------------- solver helpers
    bool evalB(State& s, E c) { return evalExpr(c, s.model, newStamp()).getBoolValue(); }
    uint64_t evalU(State& s, E c) { return evalExpr(c, s.model, newStamp()).getLimitedValue(); }

    void addCs(State& s, E c)
    {
        if (c->isTrue()) return;
        if (c->k == K::And && c->w == 1) { addCs(s, c->a); addCs(s, c->b); return; }
        s.cs.push_back(c);
        if (c->k == K::Eq && c->a->isConst() && c->b->w <= 64) s.known.push_back({c->b, c->a->val.getZExtValue()});
        else if (c->k == K::Not) s.known.push_back({c->a, 0});
        else if (c->w == 1) s.known.push_back({c, 1});
    }
    bool lookupKnown(State& s, E e, uint64_t& v)
    {
        for (size_t i = s.known.size(); i-- > 0;) if (s.known[i].first == e) { v = s.known[i].second; return true; }
        if (e->w == 1 && e->k == K::Not) { if (lookupKnown(s, e->a, v)) { v = !v; return true; } }
        return false;
    }
    State* forkState(State& s)
    {
        State* o = new State(s);
        forkCount++;
        o->forks++; s.forks++;
        return o;
    }
    // Decide a condition; forks the other side with the *same* pc (the op is re-executed there).
    bool decide(State& s, E c)
    {
        if (c->isConst()) return c->isTrue();
        uint64_t kv;
        if (lookupKnown(s, c, kv)) return kv != 0;
        bool v = evalB(s, c);
        Assignment m2;
        Solver::R r = solver.check(s.cs, v ? xb::not_(c) : c, s.model, &m2);
        if (r == Solver::UNK) { noteIncomplete("solver timeout at " + locOf(cur(s))); r = Solver::UNSAT; addCs(s, v ? c : xb::not_(c)); return v; }
        if (r == Solver::SAT)
        {
            State* o = forkState(s);
            o->model = std::move(m2);
            addCs(*o, v ? xb::not_(c) : c);
            work.push_back(o);
            addCs(s, v ? c : xb::not_(c));
        }
        else s.known.push_back({c, v});
        return v;
    }
    const Instruction* cur(State& s)
    {
        if (s.frames.empty()) return nullptr;
        Frame& f = s.frames.back();
        return f.pc < f.fn->ops.size() ? f.fn->ops[f.pc].I : nullptr;
    }
    uint64_t concretize(State& s, const Val& v, uint32_t w)
    {
        if (!v.e) return v.c;
        uint64_t kv;
        if (lookupKnown(s, v.e, kv)) return kv;
        uint64_t x = evalU(s, v.e);
        E        q = xb::eq(xb::cst(w, x), v.e);
        decide(s, q); // model satisfies q, so the current state continues with v == x
        return x;
    }
    void assume(State& s, E c)
    {
        if (c->isTrue()) return;
        if (c->isFalse()) throw Kill{"assume"};
        if (!evalB(s, c))
        {
            Assignment m2;
            Solver::R  r = solver.check(s.cs, c, s.model, &m2);
            if (r == Solver::UNK) { noteIncomplete("solver timeout in assume"); throw Kill{"unknown"}; }
            if (r == Solver::UNSAT) throw Kill{"assume"};
            s.model = std::move(m2);
        }
        addCs(s, c);
    }
    void noteIncomplete(const std::string& w) { incomplete[w]++; }

    static std::string jesc(const std::string& s)
    {
        std::string r;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r;
    }
    std::string inputsJson(State& s, const Assignment& m)
    {
        std::string r = "[";
        uint64_t st = newStamp();
        for (auto& i : s.inputs)
        {
            if (r.size() > 1) r += ",";
            r += "{\"n\":\"" + jesc(i.name) + "\",\"h\":\"";
            for (E e : i.vars)
            {
                APInt v = evalExpr(e, m, st);
                for (uint32_t b = 0; b < e->w; b += 8)
                {
                    char t[4];
                    snprintf(t, 4, "%02x", (unsigned)v.extractBitsAsZExtValue(std::min(8u, e->w - b), b));
                    r += t;
                }
            }
            r += "\"}";
        }
        return r + "]";
    }
    void report(State& s, const std::string& kind, const std::string& msg, const Assignment& m)
    {
        ErrorRec e;
        e.kind = kind; e.msg = msg;
        e.stack = stackOf(s, &e.loc);
        e.knownHits = s.knownHits;
        std::string key = kind + "|" + msg + "|" + (kind == "check" ? "" : e.loc);
        for (auto& k : e.knownHits) key += "|" + k;
        if (errKeys[key]++ >= 3) return;
        e.inputs = inputsJson(s, m);
        errors.push_back(e);
        if (opt.verbose)
        {
            fprintf(stderr, "ERROR %s: %s at %s\n  inputs %s\n", kind.c_str(), msg.c_str(), e.loc.c_str(), e.inputs.c_str());
            for (auto& l : e.stack) fprintf(stderr, "    %s\n", l.c_str());
        }
    }
    [[noreturn]] void fail(State& s, const std::string& kind, const std::string& msg)
    {
        report(s, kind, msg, s.model);
        throw Kill{"error"};
    }
    // property must hold for all values; if not, report, and continue where it holds
    void require(State& s, E ok, const std::string& kind, const std::string& msg)
    {
        if (ok->isTrue()) return;
        uint64_t kv;
        if (lookupKnown(s, ok, kv) && kv) return;
        if (ok->isFalse()) fail(s, kind, msg);
        checkQueries++;
        if (!evalB(s, ok))
        {
            report(s, kind, msg, s.model);
            assume(s, ok); // kills the path when it never holds
            return;
        }
        Assignment m2;
        Solver::R  r = solver.check(s.cs, xb::not_(ok), s.model, &m2);
        if (r == Solver::UNK) { noteIncomplete("solver timeout checking " + kind + " " + msg); addCs(s, ok); return; }
        if (r == Solver::SAT) { report(s, kind, msg, m2); addCs(s, ok); }
        else s.known.push_back({ok, 1});
    }

    // ---------------------------------------------------------------- memory
    MemObj* objAt(State& s, uint64_t addr, bool w)
    {
        uint64_t slot = addr >> 32, region = slot >> 24, idx = slot & 0xffffff;
        switch (region)
        {
        case R_GLOB: { MemObj* o = s.globals.get(idx); return o && w ? s.globals.writable(idx) : o; }
        case R_HEAP: { MemObj* o = s.heap.get(idx); return o && w ? s.heap.writable(idx) : o; }
        case R_STACK: {
            if (idx >= s.stack.size() || !s.stack[idx]) return nullptr;
            if (w && s.stack[idx]->rc > 1) { MemObj* m = new MemObj(*s.stack[idx].p); m->rc = 0; s.stack[idx] = Ref<MemObj>(m); }
            return s.stack[idx].p;
        }
        default: return nullptr;
        }
    }
    std::string describeBad(State& s, uint64_t addr)
    {
        if (addr < (1ull << 32)) return "null or invalid pointer";
        uint64_t region = addr >> 56;
        if (region == R_HEAP) return objAt(s, addr, false) ? "heap buffer out of bounds" : "use of freed heap memory";
        if (region == R_STACK) return objAt(s, addr, false) ? "stack buffer out of bounds" : "use of dead stack memory";
        if (region == R_GLOB) return "global out of bounds";
        return "wild pointer";
    }
    static uint64_t originSlot(E e)
    {
        if (e->k == K::Add && e->a->isConst()) return e->a->val.getZExtValue() >> 32;
        if (e->isConst()) return e->val.getZExtValue() >> 32;
        return 0;
    }
    E stripIte(State& s, E e)
    {
        // resolve ite-valued pointers by forking on the condition
        for (int i = 0; i < 64; i++)
        {
            if (e->k == K::Ite) { e = decide(s, e->a) ? e->b : e->c; continue; }
            if (e->k == K::Add && e->a->isConst() && e->b->k == K::Ite && (e->a->val.getZExtValue() >> 56) == 0)
            { e = xb::add(e->a, decide(s, e->b->a) ? e->b->b : e->b->c); continue; }
            break;
        }
        return e;
    }
    // Resolve a pointer for an access of n bytes. Returns object and offset value (E or concrete).
    MemObj* resolve(State& s, const Val& p0, uint64_t n, bool write, Val& off)
    {
        memChecks++;
        Val p = p0;
        if (p.e) p = fromE(stripIte(s, p.e));
        if (p.e) { uint64_t kv; if (lookupKnown(s, p.e, kv)) p = V(kv); }
        const char* what = write ? "out-of-bounds write" : "out-of-bounds read";
        if (!p.e)
        {
            MemObj* o = objAt(s, p.c, write);
            if (!o || p.c < o->base || p.c - o->base > o->size || o->size - (p.c - o->base) < n) fail(s, "memory", std::string(what) + " (" + describeBad(s, p.c) + ")");
            if (write && o->readonly) fail(s, "memory", "write to constant");
            off = V(p.c - o->base);
            return o;
        }
        uint64_t a0   = evalU(s, p.e);
        uint64_t os   = originSlot(p.e);
        MemObj*  o    = os ? objAt(s, os << 32, write) : nullptr;
        if (!o) o = objAt(s, a0, write);
        if (!o) { report(s, "memory", std::string(what) + " (" + describeBad(s, a0) + ")", s.model); throw Kill{"error"}; }
        if (o->size < n) fail(s, "memory", std::string(what) + " (" + describeBad(s, o->base) + ")");
        if (!os)
        {
            // unknown origin: split on the object
            E lo = xb::ule(xb::cst(64, o->base - OFF0), p.e), hi = xb::ult(p.e, xb::cst(64, o->base - OFF0 + (1ull << 32)));
            decide(s, xb::and_(lo, hi));
        }
        E rel = xb::sub(p.e, xb::cst(64, o->base));
        E ok  = xb::ule(rel, xb::cst(64, o->size - n));
        require(s, ok, "memory", std::string(what) + " (" + describeBad(s, o->base) + ")");
        if (write && o->readonly) fail(s, "memory", "write to constant");
        off = fromE(rel);
        return o;
    }
    E byteE(MemObj* o, uint64_t i)
    {
        if (!o->st.empty())
        {
            if (o->st[i] == 1) return o->sym[i];
            if (o->st[i] == 2)
            {
                E v = xb::var("uninit", 8);
                o->st[i] = 1;
                if (o->sym.empty()) o->sym.assign(o->size, nullptr);
                o->sym[i] = v;
                return v;
            }
        }
        return xb::cst(8, o->conc[i]);
    }
    Val readConc(MemObj* o, uint64_t off, uint32_t w)
    {
        uint32_t nb = (w + 7) / 8;
        if (w <= 64)
        {
            bool conc = true;
            if (!o->st.empty()) for (uint32_t i = 0; i < nb; i++) if (o->st[off + i]) { conc = false; break; }
            if (conc)
            {
                uint64_t v = 0;
                memcpy(&v, &o->conc[off], nb);
                return V(v & mask(w));
            }
        }
        E e = byteE(o, off);
        for (uint32_t i = 1; i < nb; i++) e = xb::concat(byteE(o, off + i), e);
        if (nb * 8 != w) e = xb::extract(e, 0, w);
        return fromE(e);
    }
    void setByte(MemObj* o, uint64_t i, E e)
    {
        if (e->isConst()) { o->conc[i] = (uint8_t)e->val.getZExtValue(); if (!o->st.empty()) o->st[i] = 0; return; }
        if (o->st.empty()) o->st.assign(o->size, 0);
        if (o->sym.empty()) o->sym.assign(o->size, nullptr);
        o->st[i] = 1; o->sym[i] = e;
    }
    void writeConc(MemObj* o, uint64_t off, const Val& v, uint32_t w)
    {
        uint32_t nb = (w + 7) / 8;
        if (!v.e)
        {
            uint64_t c = v.c;
            memcpy(&o->conc[off], &c, nb);
            if (!o->st.empty()) memset(&o->st[off], 0, nb);
            return;
        }
        E e = v.e;
        if (nb * 8 != w) e = xb::zext(e, nb * 8);
        for (uint32_t i = 0; i < nb; i++) setByte(o, off + i, xb::extract(e, 8 * i, 8));
    }
    Val load(State& s, const Val& p, uint32_t w)
    {
        uint32_t nb = (w + 7) / 8;
        Val      off;
        bool     wr = false;
        MemObj*  o = resolve(s, p, nb, false, off);
        if (!o->st.empty())
        {
            // reading uninitialised bytes materialises them: need a private copy
            if (!off.e) { for (uint32_t i = 0; i < nb; i++) if (o->st[off.c + i] == 2) wr = true; }
            else for (auto x : o->st) if (x == 2) wr = true;
        }
        if (wr) o = objAt(s, o->base, true);
        if (!off.e) return readConc(o, off.c, w);
        // symbolic offset
        uint64_t lo = off.e->umin, hi = std::min(off.e->umax, o->size - nb);
        if (lo > hi) { lo = 0; hi = o->size - nb; }
        if (hi - lo > (uint64_t)opt.readIteLimit) return readConc(o, concretize(s, off, 64), w);
        // few feasible offsets? enumerate stride
        uint32_t tz = 0;
        { uint64_t ones = off.e->ones; while (tz < 6 && !(ones & 1)) { ones >>= 1; tz++; } }
        uint64_t step = 1ull << tz;
        lo = (lo + step - 1) / step * step;
        E r = nullptr;
        bool allSame = true; Val first; bool have = false;
        for (uint64_t x = hi / step * step;; x -= step)
        {
            if (x < lo) break;
            Val v = readConc(o, x, w);
            if (!have) { first = v; have = true; } else if (v.e != first.e || v.c != first.c) allSame = false;
            E ve = toE(v, w);
            r = r ? xb::ite(xb::eq(xb::cst(64, x), off.e), ve, r) : ve;
            if (x < step) break;
        }
        if (allSame) return first;
        return fromE(r);
    }
    void store(State& s, const Val& p, const Val& v, uint32_t w)
    {
        uint32_t nb = (w + 7) / 8;
        Val      off;
        MemObj*  o = resolve(s, p, nb, true, off);
        uint64_t x = concretize(s, off, 64);
        o = objAt(s, o->base, true);
        writeConc(o, x, v, w);
    }

    uint64_t allocHeap(State& s, uint64_t size, OK_ kind)
    {
        size_t i = std::max<size_t>(s.heap.n, 1);
        uint64_t base = mkAddr(R_HEAP, i);
        Ref<MemObj> o = newObj(base, size, kind, true);
        s.heap.set(i, o);
        s.liveHeap++;
        return base;
    }
    void freeHeap(State& s, const Val& p, OK_ kind)
    {
        uint64_t a = concretize(s, p, 64);
        if (a == 0) return;
        MemObj* o = (a >> 56) == R_HEAP ? objAt(s, a, false) : nullptr;
        if (!o) fail(s, "memory", (a >> 56) == R_HEAP ? "double free" : "free of non-heap pointer");
        if (o->base != a) fail(s, "memory", "free of interior pointer");
        if (o->kind != kind) fail(s, "memory", "mismatched allocation/deallocation");
        s.heap.set((a >> 32) & 0xffffff, Ref<MemObj>());
        s.liveHeap--;
    }
    // raw byte access for builtins on concrete (ptr,len) already validated
    std::vector<E> getBytes(State& s, const Val& p, uint64_t n)
    {
        std::vector<E> r;
        if (!n) return r;
        Val off;
        MemObj* o = resolve(s, p, n, false, off);
        uint64_t x = concretize(s, off, 64);
        bool un = false;
        if (!o->st.empty()) for (uint64_t i = 0; i < n; i++) if (o->st[x + i] == 2) un = true;
        if (un) o = objAt(s, o->base, true);
        r.reserve(n);
        for (uint64_t i = 0; i < n; i++) r.push_back(byteE(o, x + i));
        return r;
    }
    std::string cstr(State& s, const Val& p)
    {
        std::string r;
        uint64_t a = concretize(s, p, 64);
        for (;; a++)
        {
            Val v = load(s, V(a), 8);
            uint8_t c = (uint8_t)concretize(s, v, 8);
            if (!c) return r;
            r += (char)c;
            if (r.size() > 4096) return r;
        }
    }
    void copyBytes(State& s, const Val& dst, const Val& src, const Val& len, bool checkOverlap)
    {
        if (!len.e && len.c == 0) return;
        // bounds with symbolic length first
        if (len.e)
        {
            requireRange(s, dst, len, true);
            requireRange(s, src, len, false);
        }
        uint64_t n = concretize(s, len, 64);
        if (!n) return;
        Val so, dO;
        MemObj* o = resolve(s, src, n, false, so);
        uint64_t sxx = concretize(s, so, 64);
        uint64_t sbase = o->base;
        MemObj* d = resolve(s, dst, n, true, dO);
        uint64_t dx = concretize(s, dO, 64);
        d = objAt(s, d->base, true);
        o = objAt(s, sbase, false);
        if (o == d)
        {
            if (checkOverlap && dx != sxx && dx < sxx + n && sxx < dx + n) { require(s, xb::fls(), "memory", "memcpy with overlapping ranges"); }
            if (o->st.empty()) { memmove(&d->conc[dx], &d->conc[sxx], n); return; }
            std::vector<uint8_t> c(d->conc.begin() + sxx, d->conc.begin() + sxx + n), t(d->st.begin() + sxx, d->st.begin() + sxx + n);
            std::copy(c.begin(), c.end(), d->conc.begin() + dx);
            std::copy(t.begin(), t.end(), d->st.begin() + dx);
            if (!d->sym.empty()) { std::vector<E> y(d->sym.begin() + sxx, d->sym.begin() + sxx + n); std::copy(y.begin(), y.end(), d->sym.begin() + dx); }
            return;
        }
        memcpy(&d->conc[dx], &o->conc[sxx], n);
        if (!o->st.empty())
        {
            if (d->st.empty()) d->st.assign(d->size, 0);
            memcpy(&d->st[dx], &o->st[sxx], n);
            if (!o->sym.empty())
            {
                if (d->sym.empty()) d->sym.assign(d->size, nullptr);
                std::copy(o->sym.begin() + sxx, o->sym.begin() + sxx + n, d->sym.begin() + dx);
            }
        }
        else if (!d->st.empty()) memset(&d->st[dx], 0, n);
    }
    void requireRange(State& s, const Val& p0, const Val& len, bool write)
    {
        Val p = p0;
        if (p.e) p = fromE(stripIte(s, p.e));
        E lenE = toE(len, 64);
        if (!decide(s, xb::ne(lenE, xb::cst(64, 0)))) return;
        Val off;
        MemObj* o = resolve(s, p, 1, write, off);
        // off <= size known; need len <= size - off
        E offE = toE(off, 64);
        require(s, xb::ule(lenE, xb::sub(xb::cst(64, o->size), offE)), "memory", write ? "out-of-bounds write (block)" : "out-of-bounds read (block)");
    }

    // ---------------------------------------------------------------- exceptions
    static std::string baseOfStd(const std::string& n)
    {
        static std::map<std::string, std::string> m = {
            {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
            {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
            {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTIN4absl7debian318bad_variant_accessE", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
            {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}};
        auto i = m.find(n);
        return i == m.end() ? "" : i->second;
    }
    uint64_t tiByName(const std::string& n)
    {
        if (auto* g = M->getGlobalVariable(n, true)) return globalAddr(g);
        static std::map<std::string, uint64_t> fake;
        auto it = fake.find(n);
        if (it != fake.end()) return it->second;
        uint64_t a = mkAddr(R_GLOB, 0x800000 + fake.size());
        symByAddr[a] = n;
        return fake[n] = a;
    }
    bool tiMatch(uint64_t thrown, uint64_t want)
    {
        for (int i = 0; i < 16 && thrown; i++)
        {
            if (thrown == want) return true;
            auto it = symByAddr.find(thrown);
            std::string n = it == symByAddr.end() ? "" : it->second;
            auto wi = symByAddr.find(want);
            if (wi != symByAddr.end() && wi->second == n && !n.empty()) return true;
            std::string b = baseOfStd(n);
            if (!b.empty()) { thrown = tiByName(b); continue; }
            GlobalVariable* g = n.empty() ? nullptr : M->getGlobalVariable(n, true);
            thrown = 0;
            if (g && g->hasInitializer())
                if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()))
                {
                    if (cs->getNumOperands() == 3) { if (auto* bg = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts())) thrown = globalAddr(bg); }
                    else if (cs->getNumOperands() >= 5) { if (auto* bg = dyn_cast<GlobalVariable>(cs->getOperand(4)->stripPointerCasts())) thrown = globalAddr(bg); }
                }
        }
        return false;
    }
    int tiId(uint64_t a)
    {
        auto it = tiIds.find(a);
        if (it != tiIds.end()) return it->second;
        int id = (int)tiIds.size() + 1;
        return tiIds[a] = id;
    }
    void popFrame(State& s)
    {
        Frame f = s.frames.back();
        s.frames.pop_back();
        s.stack.resize(f.stackBase);
        s.regs.resize(f.base);
    }
    void unwind(State& s, uint64_t ptr, uint64_t ti)
    {
        s.excPtr = ptr; s.excTI = ti;
        while (!s.frames.empty())
        {
            Frame& f = s.frames.back();
            Op&    o = f.fn->ops[f.pc];
            if (o.opc == Instruction::Invoke)
            {
                auto* inv = cast<InvokeInst>(o.I);
                auto* lp  = inv->getUnwindDest()->getLandingPadInst();
                bool  land = lp->isCleanup();
                uint32_t sel = 0;
                for (unsigned i = 0; i < lp->getNumClauses(); i++)
                {
                    if (!lp->isCatch(i)) { continue; }
                    Constant* c = lp->getClause(i);
                    std::vector<Val> v;
                    constVals(c, v);
                    if (v[0].c == 0 || tiMatch(ti, v[0].c)) { land = true; sel = v[0].c == 0 ? tiId(0) : (uint32_t)tiId(v[0].c); break; }
                }
                if (land)
                {
                    jump(s, o.edges[1]);
                    Frame& g = s.frames.back();
                    Op&    l = g.fn->ops[g.pc];
                    // landing pad must be the first op
                    s.regs[g.base + l.dst] = V(ptr);
                    s.regs[g.base + l.dst + 1] = V(sel);
                    l.executed = true;
                    g.pc++;
                    return;
                }
            }
            if (s.frames.size() == 1) break;
            popFrame(s);
        }
        std::string n = symByAddr.count(ti) ? llvm::demangle(symByAddr[ti]) : "unknown";
        fail(s, "exception", "uncaught exception (" + n + ")");
    }
    // exceptions of the standard library can be asked what() if the models define a virtual table for them
    void exceptionVtable(State& s, const Val& obj)
    {
        if (auto* g = M->getGlobalVariable("vf_model_exception_vtable", true)) store(s, obj, V(globalAddr(g)), 64);
    }
    void throwStd(State& s, const std::string& tiName)
    {
        uint64_t p = allocHeap(s, 64, OK_::Exception);
        s.liveHeap--;
        exceptionVtable(s, V(p));
        s.excInfo.push_back({p, tiByName(tiName)});
        unwind(s, p, tiByName(tiName));
    }

    // ---------------------------------------------------------------- interpreter
    Val& reg(State& s, int32_t i) { return s.regs[s.frames.back().base + i]; }
    const Val& get(State& s, const CFn* f, uint32_t base, Operand o) { return o.s >= 0 ? s.regs[base + o.s] : f->consts[-o.s - 1]; }
    const Val& get(State& s, Operand o) { Frame& f = s.frames.back(); return get(s, f.fn, f.base, o); }
    void set(State& s, const Op& o, const Val& v) { if (o.dst >= 0) reg(s, o.dst) = v; }
    void jump(State& s, const Edge& e)
    {
        Frame& f = s.frames.back();
        if (!e.copies.empty())
        {
            if (e.copies.size() == 1)
            {
                auto& [d, src, n] = e.copies[0];
                std::vector<Val> t;
                if (n == 1) { Val v = get(s, f.fn, f.base, src); s.regs[f.base + d] = v; }
                else { for (uint32_t i = 0; i < n; i++) t.push_back(get(s, f.fn, f.base, shift(src, i))); for (uint32_t i = 0; i < n; i++) s.regs[f.base + d + i] = t[i]; }
            }
            else
            {
                static thread_local std::vector<Val> tmp;
                tmp.clear();
                for (auto& [d, src, n] : e.copies) for (uint32_t i = 0; i < n; i++) tmp.push_back(get(s, f.fn, f.base, shift(src, i)));
                size_t k = 0;
                for (auto& [d, src, n] : e.copies) for (uint32_t i = 0; i < n; i++) s.regs[f.base + d + i] = tmp[k++];
            }
        }
        f.pc = e.target;
    }
    void pushFrame(State& s, CFn* f)
    {
        if (s.frames.size() > 600) fail(s, "hang", "call stack deeper than 600 frames (unbounded recursion)");
        compile(f);
        f->calls++;
        Frame fr{f, 0, (uint32_t)s.regs.size(), (uint32_t)s.stack.size()};
        s.regs.resize(s.regs.size() + f->nregs);
        s.frames.push_back(fr);
    }
    Val allocStack(State& s, uint64_t size)
    {
        if (s.stack.empty()) s.stack.push_back(Ref<MemObj>());
        uint64_t base = mkAddr(R_STACK, s.stack.size());
        s.stack.push_back(newObj(base, size, OK_::Stack, true));
        return V(base);
    }

    Val binop(State& s, const Op& o, unsigned opc, const Val& a, const Val& b, uint32_t w)
    {
        if (!a.e && !b.e && w <= 64)
        {
            uint64_t x = a.c, y = b.c, m = mask(w), r = 0;
            switch (opc)
            {
            case Instruction::Add: r = x + y; break;
            case Instruction::Sub: r = x - y; break;
            case Instruction::Mul: r = x * y; break;
            case Instruction::UDiv: if (!y) fail(s, "ub", "division by zero"); r = x / y; break;
            case Instruction::URem: if (!y) fail(s, "ub", "division by zero"); r = x % y; break;
            case Instruction::SDiv: case Instruction::SRem: {
                int64_t p = sx(x, w), q = sx(y, w);
                if (!q) fail(s, "ub", "division by zero");
                if (q == -1) { r = opc == Instruction::SDiv ? (uint64_t)0 - x : 0; }
                else r = opc == Instruction::SDiv ? p / q : p % q;
                break;
            }
            case Instruction::And: r = x & y; break;
            case Instruction::Or: r = x | y; break;
            case Instruction::Xor: r = x ^ y; break;
            case Instruction::Shl: r = y >= w ? 0 : x << y; break;
            case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
            case Instruction::AShr: r = (uint64_t)(sx(x, w) >> std::min<uint64_t>(y, w - 1 > 63 ? 63 : w - 1)); break;
            default: throw Incomplete{"binop"};
            }
            return V(r & m);
        }
        E x = toE(a, w), y = toE(b, w);
        switch (opc)
        {
        case Instruction::Add: return fromE(xb::add(x, y));
        case Instruction::Sub: return fromE(xb::sub(x, y));
        case Instruction::Mul: return fromE(xb::mul(x, y));
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
            require(s, xb::ne(y, xb::cst(APInt(w, 0))), "ub", "division by zero");
            return fromE(opc == Instruction::UDiv ? xb::udiv(x, y) : opc == Instruction::URem ? xb::urem(x, y) : opc == Instruction::SDiv ? xb::sdiv(x, y) : xb::srem(x, y));
        case Instruction::And: return fromE(xb::and_(x, y));
        case Instruction::Or: return fromE(xb::or_(x, y));
        case Instruction::Xor: return fromE(xb::xor_(x, y));
        case Instruction::Shl: return fromE(xb::shl(x, y));
        case Instruction::LShr: return fromE(xb::lshr(x, y));
        case Instruction::AShr: return fromE(xb::ashr(x, y));
        }
        throw Incomplete{"binop"};
    }
    Val icmp(unsigned pred, const Val& a, const Val& b, uint32_t w)
    {
        if (!a.e && !b.e)
        {
            uint64_t x = a.c, y = b.c;
            int64_t  p = sx(x, w), q = sx(y, w);
            switch (pred)
            {
            case CmpInst::ICMP_EQ: return V(x == y);
            case CmpInst::ICMP_NE: return V(x != y);
            case CmpInst::ICMP_UGT: return V(x > y);
            case CmpInst::ICMP_UGE: return V(x >= y);
            case CmpInst::ICMP_ULT: return V(x < y);
            case CmpInst::ICMP_ULE: return V(x <= y);
            case CmpInst::ICMP_SGT: return V(p > q);
            case CmpInst::ICMP_SGE: return V(p >= q);
            case CmpInst::ICMP_SLT: return V(p < q);
            case CmpInst::ICMP_SLE: return V(p <= q);
            }
        }
        E x = toE(a, w), y = toE(b, w);
        switch (pred)
        {
        case CmpInst::ICMP_EQ: return fromE(xb::eq(x, y));
        case CmpInst::ICMP_NE: return fromE(xb::ne(x, y));
        case CmpInst::ICMP_UGT: return fromE(xb::ult(y, x));
        case CmpInst::ICMP_UGE: return fromE(xb::ule(y, x));
        case CmpInst::ICMP_ULT: return fromE(xb::ult(x, y));
        case CmpInst::ICMP_ULE: return fromE(xb::ule(x, y));
        case CmpInst::ICMP_SGT: return fromE(xb::slt(y, x));
        case CmpInst::ICMP_SGE: return fromE(xb::sle(y, x));
        case CmpInst::ICMP_SLT: return fromE(xb::slt(x, y));
        case CmpInst::ICMP_SLE: return fromE(xb::sle(x, y));
        }
        throw Incomplete{"icmp"};
    }
    static double dbl(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
    static uint64_t dbits(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
    Val fcmp(unsigned pred, const Val& a, const Val& b, uint32_t w)
    {
        if (w != 64) throw Incomplete{"fcmp width"};
        E x = toE(a, 64), y = toE(b, 64);
        E un = xb::fop(K::FUno, x, y), eq = xb::fop(K::FEq, x, y), lt = xb::fop(K::FLt, x, y), gt = xb::fop(K::FLt, y, x);
        E r;
        switch (pred)
        {
        case CmpInst::FCMP_OEQ: r = eq; break;
        case CmpInst::FCMP_OGT: r = gt; break;
        case CmpInst::FCMP_OGE: r = xb::or_(gt, eq); break;
        case CmpInst::FCMP_OLT: r = lt; break;
        case CmpInst::FCMP_OLE: r = xb::or_(lt, eq); break;
        case CmpInst::FCMP_ONE: r = xb::or_(lt, gt); break;
        case CmpInst::FCMP_ORD: r = xb::not_(un); break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = xb::or_(un, eq); break;
        case CmpInst::FCMP_UGT: r = xb::or_(un, gt); break;
        case CmpInst::FCMP_UGE: r = xb::not_(lt); break;
        case CmpInst::FCMP_ULT: r = xb::or_(un, lt); break;
        case CmpInst::FCMP_ULE: r = xb::not_(gt); break;
        case CmpInst::FCMP_UNE: r = xb::not_(eq); break;
        default: throw Incomplete{"fcmp"};
        }
        return fromE(r);
    }

    void doReturn(State& s, const Op& o)
    {
        std::vector<Val> rv;
        for (uint32_t i = 0; i < o.n; i++) rv.push_back(get(s, shift(o.ops[0], i)));
        popFrame(s);
        if (s.frames.empty()) return;
        Frame& f = s.frames.back();
        Op&    c = f.fn->ops[f.pc];
        if (c.dst >= 0) for (size_t i = 0; i < rv.size() && i < c.n; i++) s.regs[f.base + c.dst + i] = rv[i];
        if (c.opc == Instruction::Invoke) jump(s, c.edges[0]);
        else f.pc++;
    }
    void afterCall(State& s, const Op& o)
    {
        if (o.opc == Instruction::Invoke) jump(s, o.edges[0]);
        else s.frames.back().pc++;
    }

    void doCall(State& s, const Op& o)
    {
        auto& cb = cast<CallBase>(*o.I);
        if (o.imm == 77)
        {
            if (cast<InlineAsm>(cb.getCalledOperand())->getAsmString().empty()) { // optimisation barrier
                afterCall(s, o); return; }
            throw Incomplete{"inline asm"};
        }
        CFn* f = o.callee;
        if (!f)
        {
            Val      t = get(s, o.ops.back());
            if (t.e) t = fromE(stripIte(s, t.e));
            uint64_t a = concretize(s, t, 64);
            auto     it = fnByAddr.find(a);
            if (it == fnByAddr.end()) fail(s, "memory", "call through invalid function pointer");
            f = it->second;
        }
        if (f->F->isIntrinsic()) { intrinsic(s, o, f); return; }
        if (f->builtin >= 0)
        {
            static thread_local std::vector<Val> args;
            std::vector<Val> av;
            size_t na = o.ops.size() - (o.callee ? 0 : 1);
            for (size_t i = 0; i < na; i++) av.push_back(get(s, o.ops[i]));
            Val res = V(0);
            f->calls++;
            if (builtins[f->builtin](s, o, av, res) == Flow::Next)
            {
                if (o.dst >= 0) { set(s, o, res); for (uint32_t i = 1; i < o.n; i++) reg(s, o.dst + i) = V(0); }
                afterCall(s, o);
            }
            return;
        }
        if (f->F->isDeclaration()) throw Incomplete{"unmodelled external function " + llvm::demangle(f->name)};
        // byval copies are made in the caller's frame before pushing
        std::vector<Val> av;
        size_t na = o.ops.size() - (o.callee ? 0 : 1);
        for (size_t i = 0; i < na; i++) av.push_back(get(s, o.ops[i]));
        pushFrame(s, f);
        Frame& fr = s.frames.back();
        if (f->F->isVarArg()) throw Incomplete{"varargs function " + f->name};
        size_t k = 0;
        for (size_t i = 0; i < f->argSlot.size(); i++)
        {
            if (f->F->hasParamAttribute(i, Attribute::ByVal))
            {
                uint64_t sz = DL->getTypeAllocSize(f->F->getParamByValType(i));
                Val      p  = allocStack(s, sz);
                s.frames.back().pc = 0;
                copyBytes(s, p, av[k], V(sz), false);
                s.regs[fr.base + f->argSlot[i]] = p;
                k++;
                continue;
            }
            for (uint32_t j = 0; j < f->argN[i]; j++, k++) if (k < av.size()) s.regs[fr.base + f->argSlot[i] + j] = av[k];
        }
    }

    void intrinsic(State& s, const Op& o, CFn* f)
    {
        auto& cb = cast<CallBase>(*o.I);
        auto  A  = [&](size_t i) -> Val { return get(s, o.ops[i]); };
        Val   r  = V(0);
        uint32_t w = o.w;
        switch (f->F->getIntrinsicID())
        {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation:
        case Intrinsic::stackrestore: case Intrinsic::sideeffect:
            break;
        case Intrinsic::stacksave: break;
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: copyBytes(s, A(0), A(1), A(2), true); break;
        case Intrinsic::memmove: copyBytes(s, A(0), A(1), A(2), false); break;
        case Intrinsic::memset: case Intrinsic::memset_inline: doMemset(s, A(0), A(1), A(2)); break;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::annotation:
            r = A(0); break;
        case Intrinsic::is_constant: r = V(0); break;
        case Intrinsic::objectsize: r = V(cast<ConstantInt>(cb.getArgOperand(1))->isZero() ? mask(w) : 0); break;
        case Intrinsic::eh_typeid_for: r = V(tiId(concretize(s, A(0), 64))); break;
        case Intrinsic::trap: fail(s, "ub", "trap reached"); break;
        case Intrinsic::ubsantrap: {
            static const char* H[] = {"add overflow", "builtin unreachable", "cfi", "divrem overflow", "dynamic type", "float cast overflow", "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "load invalid value", "missing return", "mul overflow", "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds index", "pointer overflow", "shift out of bounds", "sub overflow", "type mismatch", "alignment", "vla bound"};
            uint64_t k = A(0).c;
            fail(s, "ub", std::string("undefined behaviour: ") + (k < 25 ? H[k] : "?"));
            break;
        }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
            Val a = A(0), b = A(1);
            unsigned id = f->F->getIntrinsicID();
            Val c = icmp(id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT, a, b, w);
            r = c.e ? fromE(xb::ite(c.e, toE(a, w), toE(b, w))) : (c.c ? a : b);
            break;
        }
        case Intrinsic::abs: {
            Val a = A(0), c = icmp(CmpInst::ICMP_SLT, a, V(0), w);
            Val n = binop(s, o, Instruction::Sub, V(0), a, w);
            r = c.e ? fromE(xb::ite(c.e, toE(n, w), toE(a, w))) : (c.c ? n : a);
            break;
        }
        case Intrinsic::bswap: {
            E e = toE(A(0), w), x = nullptr;
            for (uint32_t i = 0; i < w; i += 8) { E b = xb::extract(e, i, 8); x = x ? xb::concat(x, b) : b; }
            r = fromE(x);
            break;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            E hi = toE(A(0), w), lo = toE(A(1), w), sh = toE(A(2), w);
            sh = xb::urem(sh, xb::cst(w, w));
            bool left = f->F->getIntrinsicID() == Intrinsic::fshl;
            E c = xb::concat(hi, lo), sh2 = xb::zext(sh, 2 * w);
            r = left ? fromE(xb::extract(xb::shl(c, sh2), w, w)) : fromE(xb::extract(xb::lshr(c, sh2), 0, w));
            break;
        }
        case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
            Val a = A(0);
            unsigned id = f->F->getIntrinsicID();
            if (!a.e)
            {
                APInt x(w, a.c);
                r = V(id == Intrinsic::ctlz ? x.countl_zero() : id == Intrinsic::cttz ? x.countr_zero() : x.popcount());
                break;
            }
            E e = a.e;
            if (id == Intrinsic::ctpop)
            {
                E t = xb::cst(w, 0);
                for (uint32_t i = 0; i < w; i++) t = xb::add(t, xb::zext(xb::extract(e, i, 1), w));
                r = fromE(t);
                break;
            }
            E t = xb::cst(w, w);
            for (uint32_t k = 0; k < w; k++)
            {
                // later overrides: for ctlz iterate from bit 0 up, for cttz from top down
                uint32_t i = id == Intrinsic::ctlz ? k : w - 1 - k;
                t = xb::ite(xb::extract(e, i, 1), xb::cst(w, id == Intrinsic::ctlz ? w - 1 - i : i), t);
            }
            r = fromE(t);
            break;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned id = f->F->getIntrinsicID();
            uint32_t ww = scalarBits(cb.getArgOperand(0)->getType());
            bool     sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            bool     mu = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
            bool     su = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow;
            uint32_t W  = mu ? 2 * ww : ww + 1;
            if (!sg && !mu) W = ww + 1;
            E a = toE(A(0), ww), b = toE(A(1), ww);
            E res, ov;
            if (mu && !sg && (a->isConst() || b->isConst()))
            {
                E x = a->isConst() ? b : a; E k = a->isConst() ? a : b;
                res = xb::mul(a, b);
                ov  = k->val.isZero() ? xb::fls() : xb::ult(xb::cst(APInt::getAllOnes(ww).udiv(k->val)), x);
            }
            else
            {
                E x = sg ? xb::sext(a, W) : xb::zext(a, W), y = sg ? xb::sext(b, W) : xb::zext(b, W);
                E full = mu ? xb::mul(x, y) : su ? xb::sub(x, y) : xb::add(x, y);
                res = xb::extract(full, 0, ww);
                E back = sg ? xb::sext(res, W) : xb::zext(res, W);
                ov = xb::ne(back, full);
                if (!sg && !mu) ov = su ? xb::ult(a, b) : xb::ult(xb::add(a, b), a);
                if (!mu) res = su ? xb::sub(a, b) : xb::add(a, b);
            }
            if (sg && ww <= 64)
            {
                typedef __int128 I;
                I l, h, al = a->smin, ah = a->smax, bl = b->smin, bh = b->smax;
                if (mu) { I v[4] = {al * bl, al * bh, ah * bl, ah * bh}; l = *std::min_element(v, v + 4); h = *std::max_element(v, v + 4); }
                else if (su) { l = al - bh; h = ah - bl; }
                else { l = al + bl; h = ah + bh; }
                if (l >= -(I(1) << (ww - 1)) && h < (I(1) << (ww - 1))) ov = xb::fls();
            }
            reg(s, o.dst) = fromE(res);
            reg(s, o.dst + 1) = fromE(ov);
            afterCall(s, o);
            return;
        }
        case Intrinsic::usub_sat: { Val c = icmp(CmpInst::ICMP_ULT, A(0), A(1), w); Val d = binop(s, o, Instruction::Sub, A(0), A(1), w); r = c.e ? fromE(xb::ite(c.e, xb::cst(w, 0), toE(d, w))) : c.c ? V(0) : d; break; }
        case Intrinsic::uadd_sat: { Val d = binop(s, o, Instruction::Add, A(0), A(1), w); Val c = icmp(CmpInst::ICMP_ULT, d, A(0), w); r = c.e ? fromE(xb::ite(c.e, xb::cst(APInt::getAllOnes(w)), toE(d, w))) : c.c ? V(mask(w)) : d; break; }
        case Intrinsic::fabs: r = fromE(xb::and_(toE(A(0), w), xb::cst(APInt::getSignedMaxValue(w)))); break;
        case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: { // one value at a time
            uint64_t b = concretize(s, A(0), w);
            auto id = f->F->getIntrinsicID();
            auto g = [&](auto x) { return id == Intrinsic::ceil ? std::ceil(x) : id == Intrinsic::floor ? std::floor(x) : std::trunc(x); };
            if (w == 64) { double x; memcpy(&x, &b, 8); x = g(x); memcpy(&b, &x, 8); }
            else if (w == 32) { float x; uint32_t h = uint32_t(b); memcpy(&x, &h, 4); x = g(x); memcpy(&h, &x, 4); b = h; }
            else throw Incomplete{"rounding of a wide float"};
            r = V(b);
            break;
        }
        case Intrinsic::is_fpclass: {
            uint64_t m = A(1).c;
            E x = toE(A(0), 64), ab = xb::and_(x, xb::cst(APInt::getSignedMaxValue(64))), sg = xb::extract(x, 63, 1);
            E inf = xb::eq(ab, xb::cst(64, 0x7FF0000000000000ull)), nan = xb::ult(xb::cst(64, 0x7FF0000000000000ull), ab);
            E rr = xb::fls();
            if (m & 3) rr = xb::or_(rr, nan);
            if (m & 0x200) rr = xb::or_(rr, xb::and_(inf, xb::not_(sg)));
            if (m & 4) rr = xb::or_(rr, xb::and_(inf, sg));
            if (m & ~0x207ull) throw Incomplete{"is.fpclass mask"};
            r = fromE(rr);
            break;
        }
        case Intrinsic::ptrmask: r = binop(s, o, Instruction::And, A(0), A(1), 64); break;
        case Intrinsic::returnaddress: case Intrinsic::frameaddress: r = V(0); break;
        case Intrinsic::maxnum: case Intrinsic::minnum: {
            E x = toE(A(0), 64), y = toE(A(1), 64);
            E c = f->F->getIntrinsicID() == Intrinsic::maxnum ? xb::fop(K::FLt, x, y) : xb::fop(K::FLt, y, x);
            r = fromE(xb::ite(c, y, x));
            break;
        }
        default: throw Incomplete{"intrinsic " + f->name};
        }
        set(s, o, r);
        afterCall(s, o);
    }
    void doMemset(State& s, const Val& p, const Val& v, const Val& len)
    {
        if (!len.e && len.c == 0) return;
        if (len.e) requireRange(s, p, len, true);
        uint64_t n = concretize(s, len, 64);
        if (!n) return;
        Val off;
        MemObj* o = resolve(s, p, n, true, off);
        uint64_t x = concretize(s, off, 64);
        o = objAt(s, o->base, true);
        Val b = v;
        if (b.e) b = fromE(b.e->w > 8 ? xb::extract(b.e, 0, 8) : b.e);
        if (!b.e) { memset(&o->conc[x], (int)(b.c & 0xff), n); if (!o->st.empty()) memset(&o->st[x], 0, n); }
        else for (uint64_t i = 0; i < n; i++) setByte(o, x + i, b.e);
    }

    // executes one op
    void step(State& s)
    {
        Frame& f = s.frames.back();
        CFn*   fn = f.fn;
        Op&    o = fn->ops[f.pc];
        o.executed = true;
        uint32_t base = f.base;
        auto A = [&](size_t i) -> const Val& { return get(s, fn, base, o.ops[i]); };
        switch (o.opc)
        {
        case Instruction::Br: {
            if (o.ops.empty()) { jump(s, o.edges[0]); return; }
            Val c = A(0);
            bool v = c.e ? decide(s, c.e) : (c.c & 1);
            jump(s, o.edges[v ? 0 : 1]);
            return;
        }
        case Instruction::Switch: {
            Val c = A(0);
            uint64_t kv;
            if (c.e && lookupKnown(s, c.e, kv)) c = V(kv);
            if (!c.e)
            {
                for (size_t i = 0; i < o.cases.size(); i++) if (o.cases[i] == c.c) { jump(s, o.edges[i + 1]); return; }
                jump(s, o.edges[0]);
                return;
            }
            // group cases by target
            uint64_t x = evalU(s, c.e);
            int      hit = -1;
            for (size_t i = 0; i < o.cases.size(); i++) if (o.cases[i] == x) hit = (int)i;
            E cond = xb::fls();
            if (hit >= 0)
            {
                uint32_t tgt = o.edges[hit + 1].target;
                // all edges of one block to one target carry the same phi values
                for (size_t i = 0; i < o.cases.size(); i++)
                    if (o.edges[i + 1].target == tgt) cond = xb::or_(cond, xb::eq(xb::cst(o.cases[i]), c.e));
                decide(s, cond);
                jump(s, o.edges[hit + 1]);
            }
            else
            {
                for (size_t i = 0; i < o.cases.size(); i++) cond = xb::or_(cond, xb::eq(xb::cst(o.cases[i]), c.e));
                decide(s, xb::not_(cond));
                jump(s, o.edges[0]);
            }
            return;
        }
        case Instruction::Ret: doReturn(s, o); return;
        case Instruction::Call: case Instruction::Invoke: doCall(s, o); return;
        case Instruction::Unreachable: fail(s, "ub", "unreachable code reached");
        case Instruction::Resume: {
            uint64_t p = concretize(s, A(0), 64);
            uint64_t ti = 0;
            for (auto& x : s.excInfo) if (x.first == p) ti = x.second;
            if (s.frames.size() <= 1) { unwind(s, p, ti); return; }
            popFrame(s);
            unwind(s, p, ti);
            return;
        }
        case Instruction::Alloca: {
            uint64_t n = concretize(s, A(0), o.w2);
            Val p = allocStack(s, n * o.imm);
            set(s, o, p);
            break;
        }
        case Instruction::Load: {
            Val p = A(0);
            if (o.opw.size() == 1) { Val r = load(s, p, o.opw[0]); reg(s, o.dst) = r; }
            else
            {
                std::vector<Val> t;
                for (size_t i = 0; i < o.opw.size(); i++) t.push_back(load(s, binop(s, o, Instruction::Add, p, V(o.offs[i]), 64), o.opw[i]));
                for (size_t i = 0; i < t.size(); i++) reg(s, o.dst + i) = t[i];
            }
            break;
        }
        case Instruction::Store: {
            Val p = A(1);
            for (size_t i = 0; i < o.opw.size(); i++)
            {
                Val v = get(s, fn, base, shift(o.ops[0], i));
                store(s, o.offs[i] ? binop(s, o, Instruction::Add, p, V(o.offs[i]), 64) : p, v, o.opw[i]);
            }
            break;
        }
        case Instruction::GetElementPtr: {
            const Val& b = A(0);
            if (o.ops.size() == 1 && !b.e) { reg(s, o.dst) = V(b.c + o.imm); break; }
            bool conc = !b.e;
            uint64_t acc = b.c + o.imm;
            for (size_t i = 1; i < o.ops.size() && conc; i++)
            {
                const Val& x = A(i);
                if (x.e) conc = false; else acc += (uint64_t)sx(x.c, o.opw[i - 1]) * o.offs[i - 1];
            }
            if (conc) { reg(s, o.dst) = V(acc); break; }
            E r = xb::add(toE(b, 64), xb::cst(64, o.imm));
            for (size_t i = 1; i < o.ops.size(); i++)
            {
                E x = xb::sext(toE(A(i), o.opw[i - 1]), 64);
                r = xb::add(r, xb::mul(xb::cst(64, o.offs[i - 1]), x));
            }
            reg(s, o.dst) = fromE(r);
            break;
        }
        case Instruction::ICmp: {
            if (o.n == 1) { Val r = icmp(o.imm, A(0), A(1), o.w2); reg(s, o.dst) = r; }
            else for (uint32_t i = 0; i < o.n; i++) { Val r = icmp(o.imm, get(s, fn, base, shift(o.ops[0], i)), get(s, fn, base, shift(o.ops[1], i)), o.w2); reg(s, o.dst + i) = r; }
            break;
        }
        case Instruction::FCmp: { Val r = fcmp(o.imm, A(0), A(1), o.w2); reg(s, o.dst) = r; break; }
        case Instruction::Select: {
            for (uint32_t i = 0; i < o.n; i++)
            {
                Val c = get(s, fn, base, o.imm ? shift(o.ops[0], i) : o.ops[0]);
                Val a = get(s, fn, base, shift(o.ops[1], i)), b = get(s, fn, base, shift(o.ops[2], i));
                Val r;
                if (!c.e) r = c.c & 1 ? a : b;
                else if (!a.e && !b.e && a.c == b.c) r = a;
                else r = fromE(xb::ite(c.e, toE(a, o.opw[i]), toE(b, o.opw[i])));
                reg(s, o.dst + i) = r;
            }
            break;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
            for (uint32_t i = 0; i < o.n; i++)
            {
                Val a = get(s, fn, base, shift(o.ops[0], i)), r;
                if (!a.e && o.w <= 64) r = o.opc == Instruction::SExt ? V((uint64_t)sx(a.c, o.w2) & mask(o.w)) : V(a.c & mask(o.w));
                else
                {
                    E e = toE(a, o.w2);
                    r = fromE(o.opc == Instruction::ZExt ? xb::zext(e, o.w) : o.opc == Instruction::SExt ? xb::sext(e, o.w) : xb::extract(e, 0, o.w));
                }
                reg(s, o.dst + i) = r;
            }
            break;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            Val a = A(0);
            if (o.w < o.w2) a = a.e ? fromE(xb::extract(a.e, 0, o.w)) : V(a.c & mask(o.w));
            else if (o.w > o.w2 && a.e) a = fromE(xb::zext(a.e, o.w));
            reg(s, o.dst) = a;
            break;
        }
        case Instruction::BitCast: {
            uint64_t ns = o.I->getOperand(0)->getType()->isVectorTy() ? typeSlots(o.I->getOperand(0)->getType()) : 1;
            if (ns == 1 && o.n == 1) { Val a = A(0); reg(s, o.dst) = a; break; }
            // vector <-> scalar/vector reinterpretation through one wide value
            E all = nullptr;
            for (uint64_t i = 0; i < ns; i++) { E e = toE(get(s, fn, base, shift(o.ops[0], i)), o.w2); all = all ? xb::concat(e, all) : e; }
            uint32_t ew = all->w / o.n;
            for (uint32_t i = 0; i < o.n; i++) reg(s, o.dst + i) = fromE(xb::extract(all, i * ew, ew));
            break;
        }
        case Instruction::AddrSpaceCast: case Instruction::Freeze: {
            for (uint32_t i = 0; i < o.n; i++) { Val a = get(s, fn, base, shift(o.ops[0], i)); reg(s, o.dst + i) = a; }
            break;
        }
        case Instruction::ExtractValue: {
            for (uint32_t i = 0; i < o.n; i++) { Val a = get(s, fn, base, shift(o.ops[0], i)); reg(s, o.dst + i) = a; }
            break;
        }
        case Instruction::InsertValue: {
            std::vector<Val> t;
            for (uint32_t i = 0; i < o.n; i++) t.push_back(get(s, fn, base, shift(o.ops[0], i)));
            for (uint32_t i = 0; i < o.w2; i++) t[o.imm + i] = get(s, fn, base, shift(o.ops[1], i));
            for (uint32_t i = 0; i < o.n; i++) reg(s, o.dst + i) = t[i];
            break;
        }
        case Instruction::ExtractElement: {
            uint64_t i = concretize(s, A(1), 64);
            if (i >= o.w2) fail(s, "ub", "extractelement index");
            Val a = get(s, fn, base, shift(o.ops[0], i));
            reg(s, o.dst) = a;
            break;
        }
        case Instruction::InsertElement: {
            uint64_t i = concretize(s, A(2), 64);
            std::vector<Val> t;
            for (uint32_t j = 0; j < o.n; j++) t.push_back(get(s, fn, base, shift(o.ops[0], j)));
            if (i < t.size()) t[i] = A(1);
            for (uint32_t j = 0; j < o.n; j++) reg(s, o.dst + j) = t[j];
            break;
        }
        case Instruction::ShuffleVector: {
            std::vector<Val> t;
            for (uint64_t m : o.offs)
            {
                int64_t k = (int64_t)m;
                if (k < 0) t.push_back(V(0));
                else if (k < (int64_t)o.w2) t.push_back(get(s, fn, base, shift(o.ops[0], k)));
                else t.push_back(get(s, fn, base, shift(o.ops[1], k - o.w2)));
            }
            for (uint32_t j = 0; j < o.n; j++) reg(s, o.dst + j) = t[j];
            break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
            if (o.w != 64) throw Incomplete{"float arithmetic width"};
            K k = o.opc == Instruction::FAdd ? K::FAdd : o.opc == Instruction::FSub ? K::FSub : o.opc == Instruction::FMul ? K::FMul : K::FDiv;
            reg(s, o.dst) = fromE(xb::fop(k, toE(A(0), 64), toE(A(1), 64)));
            break;
        }
        case Instruction::FNeg: reg(s, o.dst) = fromE(xb::xor_(toE(A(0), o.w), xb::cst(APInt::getSignMask(o.w)))); break;
        case Instruction::SIToFP: case Instruction::UIToFP: {
            Val a = A(0);
            if (o.w == 32) { uint64_t c = concretize(s, a, o.w2); float f2 = o.opc == Instruction::SIToFP ? (float)sx(c, o.w2) : (float)c; uint32_t b; memcpy(&b, &f2, 4); reg(s, o.dst) = V(b); break; }
            uint64_t c = concretize(s, a, o.w2);
            reg(s, o.dst) = V(dbits(o.opc == Instruction::SIToFP ? (double)sx(c, o.w2) : (double)c));
            break;
        }
        case Instruction::FPToSI: case Instruction::FPToUI: {
            Val a = A(0);
            uint64_t c = concretize(s, a, o.w2);
            double d = o.w2 == 64 ? dbl(c) : (double)({ float f2; uint32_t t = (uint32_t)c; memcpy(&f2, &t, 4); f2; });
            reg(s, o.dst) = V((o.opc == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d) & mask(o.w));
            break;
        }
        case Instruction::FPExt: { uint32_t t = (uint32_t)concretize(s, A(0), 32); float f2; memcpy(&f2, &t, 4); reg(s, o.dst) = V(dbits(f2)); break; }
        case Instruction::FPTrunc: { float f2 = (float)dbl(concretize(s, A(0), 64)); uint32_t t; memcpy(&t, &f2, 4); reg(s, o.dst) = V(t); break; }
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: {
            auto& rm = cast<AtomicRMWInst>(*o.I);
            Val p = A(0), v = A(1);
            Val old = load(s, p, o.w);
            Val nv;
            switch (rm.getOperation())
            {
            case AtomicRMWInst::Add: nv = binop(s, o, Instruction::Add, old, v, o.w); break;
            case AtomicRMWInst::Sub: nv = binop(s, o, Instruction::Sub, old, v, o.w); break;
            case AtomicRMWInst::Xchg: nv = v; break;
            case AtomicRMWInst::Or: nv = binop(s, o, Instruction::Or, old, v, o.w); break;
            case AtomicRMWInst::And: nv = binop(s, o, Instruction::And, old, v, o.w); break;
            default: throw Incomplete{"atomicrmw"};
            }
            store(s, p, nv, o.w);
            reg(s, o.dst) = old;
            break;
        }
        case Instruction::AtomicCmpXchg: {
            auto& cx = cast<AtomicCmpXchgInst>(*o.I);
            uint32_t w = scalarBits(cx.getCompareOperand()->getType());
            Val old = load(s, A(0), w);
            Val e = icmp(CmpInst::ICMP_EQ, old, A(1), w);
            bool y = e.e ? decide(s, e.e) : e.c;
            if (y) store(s, A(0), A(2), w);
            reg(s, o.dst) = old; reg(s, o.dst + 1) = V(y);
            break;
        }
        default:
            if (o.I->isBinaryOp())
            {
                if (o.n == 1) { Val r = binop(s, o, o.opc, A(0), A(1), o.w); reg(s, o.dst) = r; }
                else for (uint32_t i = 0; i < o.n; i++) { Val r = binop(s, o, o.opc, get(s, fn, base, shift(o.ops[0], i)), get(s, fn, base, shift(o.ops[1], i)), o.w); reg(s, o.dst + i) = r; }
                break;
            }
            throw Incomplete{std::string("instruction ") + o.I->getOpcodeName()};
        }
        s.frames.back().pc++;
    }

    // ---------------------------------------------------------------- builtins
    void def(const std::string& names, BFn f)
    {
        int id = (int)builtins.size();
        builtins.push_back(f);
        std::stringstream ss(names);
        std::string n;
        while (ss >> n) builtinIds[n] = id;
    }
    E cmpBytes(const std::vector<E>& a, const std::vector<E>& b, bool order)
    {
        if (!order)
        {
            E eq = xb::tru();
            for (size_t i = 0; i < a.size(); i++) eq = xb::and_(eq, xb::eq(a[i], b[i]));
            return xb::ite(eq, xb::cst(32, 0), xb::cst(32, 1));
        }
        E r = xb::cst(32, 0);
        for (size_t i = a.size(); i-- > 0;)
            r = xb::ite(xb::eq(a[i], b[i]), r, xb::ite(xb::ult(a[i], b[i]), xb::cst(APInt::getAllOnes(32)), xb::cst(32, 1)));
        return r;
    }
    void addInput(State& s, const std::string& n, uint32_t bytes, std::vector<E> v) { s.inputs.push_back({n, bytes, std::move(v)}); }
    void initBuiltins()
    {
        def("$excctor", [this](State& s, const Op&, std::vector<Val>& a, Val&) { if (!a.empty()) exceptionVtable(s, a[0]); return Flow::Next; });
        def("$nop", [](State&, const Op&, std::vector<Val>&, Val&) { return Flow::Next; });
        def("$ostream", [](State&, const Op&, std::vector<Val>& a, Val& r) { if (!a.empty()) r = a[0]; return Flow::Next; });
        def("__cxa_atexit __cxa_guard_abort _ZNSt8ios_base4InitC1Ev _ZNSt8ios_base4InitD1Ev __cxa_free_exception __cxa_thread_atexit "
            "_ZNSt9exceptionD2Ev _ZNSt9exceptionD1Ev _ZNSt9exceptionD0Ev", [](State&, const Op&, std::vector<Val>&, Val&) { return Flow::Next; });
        def("__cxa_guard_acquire", [this](State& s, const Op&, std::vector<Val>& a, Val& r) {
            Val v = load(s, a[0], 8);
            r = V(v.e ? 1 : v.c == 0);
            return Flow::Next;
        });
        def("__cxa_guard_release", [this](State& s, const Op&, std::vector<Val>& a, Val&) { store(s, a[0], V(1), 8); return Flow::Next; });
        auto alloc = [this](OK_ k) {
            return [this, k](State& s, const Op&, std::vector<Val>& a, Val& r) {
                Val n = a[0];
                if (n.e && decide(s, xb::ult(xb::cst(64, opt.maxAlloc), n.e))) { if (k == OK_::HeapMalloc) { r = V(0); return Flow::Next; } throwStd(s, "_ZTISt9bad_alloc"); return Flow::Jumped; }
                uint64_t z = concretize(s, n, 64);
                if (z > opt.maxAlloc) { if (k == OK_::HeapMalloc) { r = V(0); return Flow::Next; } throwStd(s, "_ZTISt9bad_alloc"); return Flow::Jumped; }
                r = V(allocHeap(s, z, k));
                return Flow::Next;
            };
        };
        def("_Znwm _ZnwmSt11align_val_t _ZnwmRKSt9nothrow_t", alloc(OK_::HeapNew));
        def("_Znam _ZnamSt11align_val_t _ZnamRKSt9nothrow_t", alloc(OK_::HeapNewArr));
        def("malloc", alloc(OK_::HeapMalloc));
        auto fre = [this](OK_ k) { return [this, k](State& s, const Op&, std::vector<Val>& a, Val&) { freeHeap(s, a[0], k); return Flow::Next; }; };
        def("_ZdlPv _ZdlPvm _ZdlPvSt11align_val_t _ZdlPvmSt11align_val_t", fre(OK_::HeapNew));
        def("_ZdaPv _ZdaPvm", fre(OK_::HeapNewArr));
        def("free", fre(OK_::HeapMalloc));
        def("memcpy", [this](State& s, const Op&, std::vector<Val>& a, Val& r) { copyBytes(s, a[0], a[1], a[2], true); r = a[0]; return Flow::Next; });
        def("memmove", [this](State& s, const Op&, std::vector<Val>& a, Val& r) { copyBytes(s, a[0], a[1], a[2], false); r = a[0]; return Flow::Next; });
        def("memset", [this](State& s, const Op&, std::vector<Val>& a, Val& r) { doMemset(s, a[0], a[1], a[2]); r = a[0]; return Flow::Next; });
        auto mc = [this](bool order) {
            return [this, order](State& s, const Op&, std::vector<Val>& a, Val& r) {
                if (a[2].e) { requireRange(s, a[0], a[2], false); requireRange(s, a[1], a[2], false); }
                uint64_t n = concretize(s, a[2], 64);
                auto x = getBytes(s, a[0], n), y = getBytes(s, a[1], n);
                r = fromE(cmpBytes(x, y, order));
                return Flow::Next;
            };
        };
        def("memcmp", mc(true));
        def("bcmp", mc(false));
        def("strlen", [this](State& s, const Op&, std::vector<Val>& a, Val& r) {
            uint64_t p = concretize(s, a[0], 64), n = 0;
            for (;; n++)
            {
                Val v = load(s, V(p + n), 8);
                bool z = v.e ? decide(s, xb::eq(xb::cst(8, 0), v.e)) : v.c == 0;
                if (z) break;
            }
            r = V(n);
            return Flow::Next;
        });
        // value of a decimal text of which every character is known
        static const uint64_t kUnreadReal = 0x7ff8dead00000001ull;
        def("vfe_strtod", [this](State& s, const Op&, std::vector<Val>& a, Val& r) {
            uint64_t p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
            std::string t;
            r = V(kUnreadReal);
            for (uint64_t i = 0; i < n; i++)
            {
                E c = toE(load(s, V(p + i), 8), 8);
                if (!c->isConst()) return Flow::Next;
                t += (char)c->val.getZExtValue();
            }
            double d = strtod(t.c_str(), nullptr);
            uint64_t b;
            memcpy(&b, &d, 8);
            r = V(b);
            return Flow::Next;
        });
        def("snprintf", [this](State& s, const Op&, std::vector<Val>& a, Val& r) {
            std::string f = cstr(s, a[2]);
            std::vector<E> out;
            size_t ai = 3;
            auto cc = [](char c) { return xb::cst(8, (uint8_t)c); };
            for (size_t i = 0; i < f.size(); i++)
            {
                if (f[i] != '%') { out.push_back(cc(f[i])); continue; }
                i++;
                if (f[i] == '%') { out.push_back(cc('%')); continue; }
                bool zero = false; size_t width = 0, prec = 1; bool hasPrec = false; int lng = 0;
                while (f[i] == '0' || f[i] == '+' || f[i] == '-') { if (f[i] != '0') throw Incomplete{"snprintf flag"}; zero = true; i++; }
                while (isdigit(f[i])) width = width * 10 + (f[i++] - '0');
                if (f[i] == '.') { i++; prec = 0; hasPrec = true; while (isdigit(f[i])) prec = prec * 10 + (f[i++] - '0'); }
                while (f[i] == 'l' || f[i] == 'z' || f[i] == 'j') { lng++; i++; }
                char c = f[i];
                std::vector<E> fld;
                if (ai >= a.size()) { fail(s, "ub", "snprintf: too few arguments"); return Flow::Next; }
                if (c == 'c') fld.push_back(xb::extract(toE(a[ai++], 32), 0, 8));
                else if (c == 's') { for (char k : cstr(s, a[ai])) { if (hasPrec && fld.size() >= prec) break; fld.push_back(cc(k)); } ai++; }
                else if (c == 'd' || c == 'i' || c == 'u')
                {
                    E v = xb::extract(toE(a[ai++], lng ? 64 : 32), 0, lng ? 64 : 32);
                    v = c == 'u' ? xb::zext(v, 65) : xb::sext(v, 65);
                    bool neg = decide(s, xb::slt(v, xb::cst(65, 0)));
                    if (neg) v = xb::sub(xb::cst(65, 0), v);
                    size_t n = 1;
                    APInt lim(65, 10);
                    while (n < 20 && !decide(s, xb::ult(v, xb::cst(lim)))) { n++; lim *= 10; }
                    if (hasPrec && n < prec) n = prec;
                    else if (zero && !hasPrec && n + neg < width) n = width - neg;
                    std::vector<E> d(n);
                    for (size_t k = n; k-- > 0;) { d[k] = xb::add(xb::extract(xb::urem(v, xb::cst(65, 10)), 0, 8), cc('0')); v = xb::udiv(v, xb::cst(65, 10)); }
                    if (neg) fld.push_back(cc('-'));
                    fld.insert(fld.end(), d.begin(), d.end());
                }
                else if (c == 'g' || c == 'f' || c == 'e')
                {
                    E v = toE(a[ai++], 64);
                    if (!v->isConst() || v->val.getZExtValue() == kUnreadReal) throw Incomplete{"snprintf of a real number that is not known"};
                    uint64_t b = v->val.getZExtValue();
                    double d;
                    memcpy(&d, &b, 8);
                    char fmt[] = {'%', '.', '*', c, 0}, buf[400];
                    snprintf(buf, sizeof(buf), fmt, hasPrec ? (int)prec : 6, d);
                    for (char* k = buf; *k; k++) fld.push_back(cc(*k));
                }
                else throw Incomplete{"snprintf conversion"};
                while (fld.size() < width) fld.insert(fld.begin(), cc(' '));
                out.insert(out.end(), fld.begin(), fld.end());
            }
            uint64_t n = concretize(s, a[1], 64), p = concretize(s, a[0], 64);
            for (size_t i = 0; i < out.size() && i + 1 < n; i++) store(s, V(p + i), fromE(out[i]), 8);
            if (n) store(s, V(p + std::min<size_t>(out.size(), n - 1)), V(0), 8);
            r = V(out.size());
            return Flow::Next;
        });
        def("__assert_fail", [this](State& s, const Op&, std::vector<Val>& a, Val&) { fail(s, "assert", "assertion failed: " + cstr(s, a[0])); return Flow::Next; });
        def("abort", [this](State& s, const Op&, std::vector<Val>&, Val&) { fail(s, "abort", "abort called"); return Flow::Next; });
        def("_ZSt9terminatev __clang_call_terminate", [this](State& s, const Op&, std::vector<Val>&, Val&) { fail(s, "exception", "std::terminate (exception escapes noexcept)"); return Flow::Next; });
        def("__cxa_pure_virtual", [this](State& s, const Op&, std::vector<Val>&, Val&) { fail(s, "ub", "pure virtual call"); return Flow::Next; });
        // exceptions
        def("__cxa_allocate_exception", [this](State& s, const Op&, std::vector<Val>& a, Val& r) { r = V(allocHeap(s, concretize(s, a[0], 64) + 64, OK_::Exception)); s.liveHeap--; return Flow::Next; });
        def("__cxa_throw", [this](State& s, const Op&, std::vector<Val>& a, Val&) {
            uint64_t p = concretize(s, a[0], 64), ti = concretize(s, a[1], 64);
            s.excInfo.push_back({p, ti});
            unwind(s, p, ti);
            return Flow::Jumped;
        });
        def("__cxa_begin_catch", [this](State& s, const Op&, std::vector<Val>& a, Val& r) { r = a[0]; s.caught.push_back(concretize(s, a[0], 64)); return Flow::Next; });
        def("__cxa_end_catch", [](State& s, const Op&, std::vector<Val>&, Val&) { if (!s.caught.empty()) s.caught.pop_back(); return Flow::Next; });
        def("__cxa_get_exception_ptr", [](State&, const Op&, std::vector<Val>& a, Val& r) { r = a[0]; return Flow::Next; });
        def("__cxa_rethrow", [this](State& s, const Op&, std::vector<Val>&, Val&) {
            uint64_t p = s.caught.empty() ? 0 : s.caught.back(), ti = 0;
            for (auto& x : s.excInfo) if (x.first == p) ti = x.second;
            unwind(s, p, ti);
            return Flow::Jumped;
        });
        def("$stdthrow", [this](State& s, const Op& o, std::vector<Val>&, Val&) {
            std::string n = o.callee ? o.callee->name : "";
            static const std::pair<const char*, const char*> T[] = {{"length_error", "_ZTISt12length_error"}, {"out_of_range", "_ZTISt12out_of_range"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_array_new", "_ZTISt20bad_array_new_length"}, {"logic_error", "_ZTISt11logic_error"}, {"invalid_argument", "_ZTISt16invalid_argument"}, {"bad_function_call", "_ZTISt17bad_function_call"}, {"bad_variant", "_ZTISt18bad_variant_access"}, {"ThrowBadVariantAccess", "_ZTIN4absl7debian318bad_variant_accessE"}, {"bad_optional", "_ZTISt19bad_optional_access"}, {"runtime_error", "_ZTISt13runtime_error"}, {"bad_cast", "_ZTISt8bad_cast"}};
            for (auto& t : T) if (n.find(t.first) != std::string::npos) { throwStd(s, t.second); return Flow::Jumped; }
            fail(s, "exception", n);
            return Flow::Next;
        });
        def("_ZNKSt9exception4whatEv _ZNKSt13runtime_error4whatEv _ZNKSt11logic_error4whatEv", [this](State& s, const Op&, std::vector<Val>&, Val& r) {
            uint64_t a = allocHeap(s, 1, OK_::Exception); s.liveHeap--;
            objAt(s, a, true)->st.clear();
            r = V(a);
            return Flow::Next;
        });
        // harness interface
        def("vf_bytes", [this](State& s, const Op&, std::vector<Val>& a, Val&) {
            uint64_t n = concretize(s, a[1], 64);
            std::string nm = cstr(s, a[2]);
            Val off;
            std::vector<E> vs;
            if (n)
            {
                MemObj* o = resolve(s, a[0], n, true, off);
                uint64_t x = concretize(s, off, 64);
                o = objAt(s, o->base, true);
                for (uint64_t i = 0; i < n; i++) { E v = xb::var(nm + std::to_string(i), 8); vs.push_back(v); setByte(o, x + i, v); }
            }
            addInput(s, nm, (uint32_t)n, vs);
            return Flow::Next;
        });
        auto scalar = [this](uint32_t w) {
            return [this, w](State& s, const Op&, std::vector<Val>& a, Val& r) {
                std::string nm = cstr(s, a[0]);
                E v = xb::var(nm, w);
                addInput(s, nm, w / 8, {v});
                r = Val{0, v};
                return Flow::Next;
            };
        };
        def("vf_u8", scalar(8)); def("vf_u16", scalar(16)); def("vf_u32", scalar(32)); def("vf_u64", scalar(64));
        def("vf_range", [this](State& s, const Op&, std::vector<Val>& a, Val& r) {
            uint64_t lo = concretize(s, a[0], 64), hi = concretize(s, a[1], 64);
            std::string nm = cstr(s, a[2]);
            if (lo > hi) throw Kill{"empty range"};
            uint32_t bits = 1;
            while (bits < 64 && (hi >> bits)) bits++;
            bits = bits <= 8 ? 8 : bits <= 16 ? 16 : bits <= 32 ? 32 : 64;
            E v = xb::var(nm, bits);
            addInput(s, nm, bits / 8, {v});
            E z = xb::zext(v, 64);
            assume(s, xb::and_(xb::ule(xb::cst(64, lo), z), xb::ule(z, xb::cst(64, hi))));
            r = fromE(z);
            return Flow::Next;
        });
        def("vf_fork", [this](State& s, const Op&, std::vector<Val>& a, Val& r) { // concretise by forking
            r = V(concretize(s, a[0], 64));
            return Flow::Next;
        });
        def("vf_assume", [this](State& s, const Op&, std::vector<Val>& a, Val&) {
            if (a[0].e) assume(s, a[0].e->w == 1 ? a[0].e : xb::ne(a[0].e, xb::cst(a[0].e->w, 0)));
            else if (!(a[0].c & 0xff)) throw Kill{"assume"};
            return Flow::Next;
        });
        def("vf_check", [this](State& s, const Op& o, std::vector<Val>& a, Val&) {
            std::string m = cstr(s, a[1]);
            checks[m]++;
            if (a[0].e) require(s, a[0].e->w == 1 ? a[0].e : xb::ne(a[0].e, xb::cst(a[0].e->w, 0)), "check", m);
            else if (!(a[0].c & 0xff)) fail(s, "check", m);
            return Flow::Next;
        });
        def("vf_cover", [this](State& s, const Op&, std::vector<Val>& a, Val&) { std::string c = cstr(s, a[0]); covers[c]++; s.coverTrace.push_back(c); return Flow::Next; });
        def("vf_known", [this](State& s, const Op&, std::vector<Val>& a, Val& r) {
            // marks the region of a recorded finding: report it, then leave the path
            std::string id = cstr(s, a[0]);
            E c = a[1].e ? (a[1].e->w == 1 ? a[1].e : xb::ne(a[1].e, xb::cst(a[1].e->w, 0))) : (a[1].c & 0xff ? xb::tru() : xb::fls());
            bool hit = opt.known.count(id) && decide(s, c);
            if (hit) { knownSeen[id]++; if (std::find(s.knownHits.begin(), s.knownHits.end(), id) == s.knownHits.end()) s.knownHits.push_back(id); }
            r = V(hit);
            return Flow::Next;
        });
        def("vf_live_allocs", [](State& s, const Op&, std::vector<Val>&, Val& r) { r = V(s.liveHeap); return Flow::Next; });
        def("vf_stop", [](State&, const Op&, std::vector<Val>&, Val&) -> Flow { throw Kill{"stop"}; });
        def("vf_symbolic", [](State&, const Op&, std::vector<Val>&, Val& r) { r = V(1); return Flow::Next; });
        def("vf_print", [this](State& s, const Op&, std::vector<Val>& a, Val&) { if (opt.verbose) { std::string m = cstr(s, a[0]); fprintf(stderr, "PRINT %s %s\n", m.c_str(), a.size() > 1 ? str(toE(a[1], 64), 8).c_str() : ""); } return Flow::Next; });
    }

    // ---------------------------------------------------------------- driver
    void addSample(State& s)
    {
        if (samples.size() >= opt.maxSamples) return;
        std::string j = "{\"inputs\":" + inputsJson(s, s.model) + ",\"covers\":[";
        for (size_t i = 0; i < s.coverTrace.size(); i++) j += std::string(i ? "," : "") + "\"" + jesc(s.coverTrace[i]) + "\"";
        samples.push_back(j + "]}");
    }
    bool timeUp() { return std::chrono::duration<double>(Clock::now() - t0).count() > opt.maxTime; }
    uint64_t rssMB()
    {
        std::ifstream f("/proc/self/statm");
        uint64_t a, b = 0;
        f >> a >> b;
        return b * 4096 / 1048576;
    }
    bool stopAll = false;
    // run one state to completion (or until it forks `work` items; those are queued)
    void runState(State* s)
    {
        uint64_t n = 0;
        try
        {
            while (!s->frames.empty())
            {
                step(*s);
                s->steps++; n++;
                if ((n & 0xfff) == 0)
                {
                    if (s->steps > opt.maxSteps)
                    {
                        if (opt.hangIsError) fail(*s, "hang", "path exceeds the step budget (no termination)");
                        throw Incomplete{"path exceeds the step budget"};
                    }
                    if (timeUp()) throw Incomplete{"time budget exhausted"};
                    if ((n & 0xffff) == 0 && rssMB() > opt.memMB) { stopAll = true; throw Incomplete{"memory budget exhausted"}; }
                }
            }
            paths++;
            addSample(*s);
        }
        catch (Kill& k) { killed++; }
        catch (Incomplete& i) { std::string top; stackOf(*s, &top); noteIncomplete(i.why + " at " + top); }
        totalSteps += n;
        delete s;
    }
    State* initial()
    {
        State* s = new State;
        initGlobals(*s);
        return s;
    }
    bool runFunctionConcrete(State& s, CFn* f)
    {
        pushFrame(s, f);
        try { while (!s.frames.empty()) { step(s); totalSteps++; } }
        catch (Kill&) { return false; }
        catch (Incomplete& i) { notes["static initialiser skipped: " + i.why]++; s.frames.clear(); s.regs.clear(); s.stack.clear(); return false; }
        return true;
    }
    int run()
    {
        SMDiagnostic err;
        M = parseIRFile(opt.file, err, ctx);
        if (!M) { err.print("vfengine", errs()); return 3; }
        DL = &M->getDataLayout();
        initBuiltins();
        solver.timeoutMs = (unsigned)(opt.solverTimeout * 1000);
        t0 = Clock::now();
        State* s = initial();
        if (auto* gc = M->getGlobalVariable("llvm.global_ctors", true))
            if (auto* ca = dyn_cast_or_null<ConstantArray>(gc->getInitializer()))
                for (auto& op : ca->operands())
                    if (auto* cs = dyn_cast<ConstantStruct>(op))
                        if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) runFunctionConcrete(*s, getFn(f));
        s->liveHeap = 0;
        Function* ef = M->getFunction(opt.entry);
        if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
        pushFrame(*s, getFn(ef));
        work.push_back(s);
        int rc = 0;
        if (opt.jobs > 1)
        {
            // breadth-first until there is enough to share
            size_t want = opt.jobs * 12;
            size_t head = 0;
            while (head < work.size() && work.size() - head < want && !timeUp() && !tooManyErrors())
            {
                State* x = work[head++];
                // run until first fork
                runUntilFork(x);
                if (head > 4096) { work.erase(work.begin(), work.begin() + head); head = 0; }
            }
            work.erase(work.begin(), work.begin() + head);
            if (!work.empty() && !tooManyErrors()) { rc = parallel(); if (rc >= 0) return rc; }
            else if (!work.empty()) {}
        }
        dfs();
        writeOut(opt.out);
        return 0;
    }
    bool tooManyErrors() { return (int)errors.size() >= opt.maxErrors; }
    void runUntilFork(State* s)
    {
        size_t before = work.size();
        uint64_t n = 0;
        try
        {
            while (!s->frames.empty())
            {
                step(*s);
                s->steps++; n++;
                if (work.size() > before) { totalSteps += n; work.push_back(s); return; }
                if ((n & 0xfff) == 0)
                {
                    if (s->steps > opt.maxSteps) { if (opt.hangIsError) fail(*s, "hang", "path exceeds the step budget (no termination)"); throw Incomplete{"path exceeds the step budget"}; }
                    if (timeUp()) throw Incomplete{"time budget exhausted"};
                }
            }
            paths++;
            addSample(*s);
        }
        catch (Kill&) { killed++; }
        catch (Incomplete& i) { std::string top; stackOf(*s, &top); noteIncomplete(i.why + " at " + top); }
        totalSteps += n;
        delete s;
    }
    void dfs()
    {
        while (!work.empty())
        {
            if (timeUp()) { noteIncomplete("time budget exhausted (" + std::to_string(work.size()) + " states pending)"); return; }
            if (tooManyErrors()) { noteIncomplete("stopped after " + std::to_string(errors.size()) + " violations"); return; }
            if (stopAll) { noteIncomplete("memory budget exhausted"); return; }
            State* s = work.back();
            work.pop_back();
            runState(s);
        }
    }
    int parallel()
    {
        // distribute pending states over forked workers; finished workers are replaced by finer ones
        std::vector<State*> all;
        all.swap(work);
        size_t G = std::min<size_t>(all.size(), (size_t)opt.jobs * 6);
        std::vector<pid_t> pids;
        std::map<pid_t, size_t> live;
        size_t next = 0, fails = 0;
        std::vector<std::string> outs;
        // baseline result of the sequential phase
        std::string baseOut = opt.workdir + "/part_base.json";
        writeOut(baseOut);
        outs.push_back(baseOut);
        while (next < G || !live.empty())
        {
            while (next < G && live.size() < (size_t)opt.jobs)
            {
                std::string o = opt.workdir + "/part_" + std::to_string(next) + ".json";
                fflush(stdout); fflush(stderr);
                pid_t p = fork();
                if (p == 0)
                {
                    resetCounters();
                    opt.memMB = opt.memMB;
                    for (size_t i = next; i < all.size(); i += G) work.push_back(all[i]);
                    dfs();
                    writeOut(o);
                    _exit(0);
                }
                live[p] = next;
                outs.push_back(o);
                next++;
            }
            int st = 0;
            pid_t p = wait(&st);
            if (p > 0)
            {
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fails++;
                live.erase(p);
            }
        }
        // index of parts for the driver to merge
        std::ofstream f(opt.out);
        f << "{\"parts\":[";
        for (size_t i = 0; i < outs.size(); i++) f << (i ? "," : "") << "\"" << outs[i] << "\"";
        f << "],\"failed_workers\":" << fails << "}\n";
        return 0;
    }
    void resetCounters()
    {
        paths = killed = totalSteps = forkCount = memChecks = checkQueries = 0;
        auto d = solver.stats;
        (void)d;
        solver.stats = SolverStats();
        covers.clear(); checks.clear(); incomplete.clear(); knownSeen.clear(); errors.clear(); samples.clear();
    }
    void writeOut(const std::string& path)
    {
        std::ostringstream j;
        j << "{\"paths\":" << paths << ",\"infeasible_or_ended\":" << killed << ",\"steps\":" << totalSteps << ",\"forks\":" << forkCount
          << ",\"mem_checks\":" << memChecks << ",\"assert_queries\":" << checkQueries << ",\"queries\":" << solver.stats.queries << ",\"cache_hits\":" << solver.stats.cacheHits << ",\"sat\":" << solver.stats.sat << ",\"unsat\":" << solver.stats.unsat
          << ",\"unknown\":" << solver.stats.unknown << ",\"solver_s\":" << solver.stats.seconds << ",\"max_query_s\":" << solver.stats.maxQuery
          << ",\"rss_mb\":" << rssMB()
          << ",\"wall_s\":" << std::chrono::duration<double>(Clock::now() - t0).count();
        auto m = [&](const char* n, const std::map<std::string, uint64_t>& x) {
            j << ",\"" << n << "\":{";
            bool f = true;
            for (auto& p : x) { j << (f ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f = false; }
            j << "}";
        };
        m("covers", covers); m("checks", checks); m("incomplete", incomplete); m("known", knownSeen); m("notes", notes);
        j << ",\"samples\":[";
        for (size_t i = 0; i < samples.size(); i++) j << (i ? "," : "") << samples[i];
        j << "],\"errors\":[";
        for (size_t i = 0; i < errors.size(); i++)
        {
            auto& e = errors[i];
            j << (i ? "," : "") << "{\"kind\":\"" << jesc(e.kind) << "\",\"msg\":\"" << jesc(e.msg) << "\",\"loc\":\"" << jesc(e.loc) << "\",\"inputs\":" << e.inputs << ",\"known\":[";
            for (size_t k = 0; k < e.knownHits.size(); k++) j << (k ? "," : "") << "\"" << jesc(e.knownHits[k]) << "\"";
            j << "],\"stack\":[";
            for (size_t k = 0; k < e.stack.size(); k++) j << (k ? "," : "") << "\"" << jesc(e.stack[k]) << "\"";
            j << "]}";
        }
        j << "],\"functions\":[";
        std::set<std::string> fs;
        for (CFn* f : fnList)
        {
            if (!f->compiled) continue;
            for (auto& o : f->ops)
            {
                if (!o.executed) continue;
                for (const DILocation* d = o.I->getDebugLoc().get(); d; d = d->getInlinedAt())
                    if (auto* sp = d->getScope()->getSubprogram())
                    {
                        std::string file = sp->getFilename().str();
                        if (!interesting(file)) continue;
                        std::string ln = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str();
                        fs.insert(file + "|" + sp->getName().str());
                    }
            }
        }
        bool first = true;
        for (auto& x : fs) { j << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
        j << "]}\n";
        std::ofstream(path) << j.str();
    }
};

int main(int argc, char** argv)
{
    struct rlimit rl{};
    rl.rlim_cur = rl.rlim_max = 512ull << 20;
    setrlimit(RLIMIT_STACK, &rl);
    if (!getenv("VF_REEXEC")) { setenv("VF_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    Engine e;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") e.opt.entry = nx();
        else if (a == "--out") e.opt.out = nx();
        else if (a == "--workdir") e.opt.workdir = nx();
        else if (a == "--max-time") e.opt.maxTime = atof(nx().c_str());
        else if (a == "--solver-timeout") e.opt.solverTimeout = atof(nx().c_str());
        else if (a == "--max-steps") e.opt.maxSteps = strtoull(nx().c_str(), 0, 10);
        else if (a == "--jobs") e.opt.jobs = atoi(nx().c_str());
        else if (a == "--max-errors") e.opt.maxErrors = atoi(nx().c_str());
        else if (a == "--mem-mb") e.opt.memMB = strtoull(nx().c_str(), 0, 10);
        else if (a == "--no-hang") e.opt.hangIsError = false;
        else if (a == "--known") { std::stringstream ss(nx()); std::string k; while (std::getline(ss, k, ',')) e.opt.known.insert(k); }
        else if (a == "-v") e.opt.verbose = true;
        else e.opt.file = a;
    }
    if (e.opt.out.empty()) e.opt.out = "/dev/stdout";
    if (e.opt.workdir.empty()) e.opt.workdir = "/tmp";
    int rc = e.run();
    fflush(stdout);
    _exit(rc);
}
