/* vse: symbolic executor over LLVM IR.
   Runs vf_main() of a linked module with symbolic nd_*() inputs, exploring every feasible path; z3 decides each branch,
   memory-bounds condition and assertion for all values of the inputs on that path.  Output: JSON lines.  */
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "expr.h"
#include <fcntl.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <errno.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

/* ---------- values ---------- */
struct Val { Expr* e; u64 c; u32 obj; Val(u64 v = 0, u32 o = 0) : e(0), c(v), obj(o) {} };
static inline Expr* ex(const Val& v, unsigned w) { return v.e ? v.e : mkC(v.c, w); }
static inline Val mkV(Expr* e, u32 obj = 0) { Val v; v.obj = obj; if (isC(e)) v.c = e->v; else v.e = e; return v; }

/* ---------- decoded program ---------- */
struct Opd { int slot; Val c; };            /* slot >= 0: register; -1: constant c */
enum IK : u8 { I_BIN, I_ICMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_MOVE, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_RET, I_BR, I_CBR, I_SWITCH, I_UNREACH, I_EXTRACTV, I_INSERTV, I_BAD };
struct Blk;
struct Ins {
    IK k; u8 w = 0, w2 = 0, pred = 0; Op op = CONST; bool promotable = false;
    int dst = -1, n = 1; u32 idx = 0;          /* n: scalars in the result */
    std::vector<Opd> o; std::vector<u64> sc; u64 off = 0;
    Blk *t = 0, *f = 0; std::vector<std::pair<u64, Blk*>> cases;
    const Instruction* I = 0; Function* callee = 0; int ext = -1; std::vector<std::pair<u32, u8>> lay; u64 sz = 0;
    std::vector<u8> argw; std::vector<int> argn;
};
struct Phi { int dst, n; std::vector<std::pair<Blk*, std::vector<Opd>>> in; };
struct Blk { std::vector<Ins> ins; std::vector<Phi> phis; u32 id; bool seen = false; };
struct Fn { Function* F; int nslots; std::vector<std::unique_ptr<Blk>> blks; std::vector<int> argSlot, argN; bool used = false; std::string file; u32 line = 0; };
static std::unordered_map<Function*, std::unique_ptr<Fn>> g_fns;
static const DataLayout* DL; static Module* g_M;
static std::unordered_map<const GlobalValue*, std::pair<u64, u32>> g_gaddr;   /* address, object id */
static std::unordered_map<u64, Function*> g_faddr;

/* flattened scalars of a type: offset, bit width */
static bool flatten(Type* T, u64 off, std::vector<std::pair<u32, u8>>& out)
{
    if (T->isVoidTy()) return true;
    if (T->isIntegerTy()) { if (T->getIntegerBitWidth() > 64) return false; out.push_back({(u32)off, (u8)T->getIntegerBitWidth()}); return true; }
    if (T->isPointerTy()) { out.push_back({(u32)off, 64}); return true; }
    if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S);
        for (unsigned i = 0; i < S->getNumElements(); i++) if (!flatten(S->getElementType(i), off + L->getElementOffset(i), out)) return false; return true; }
    if (auto* A = dyn_cast<ArrayType>(T)) { u64 s = DL->getTypeAllocSize(A->getElementType());
        for (unsigned i = 0; i < A->getNumElements(); i++) if (!flatten(A->getElementType(), off + s * i, out)) return false; return true; }
    return false;
}
static int scalars(Type* T) { std::vector<std::pair<u32, u8>> v; return flatten(T, 0, v) ? (int)v.size() : -1; }

static Val constVal(const Constant* C)
{
    if (auto* I = dyn_cast<ConstantInt>(C)) return Val(I->getValue().getZExtValue());
    if (isa<ConstantPointerNull>(C)) return Val(0);
    if (isa<UndefValue>(C)) return Val(0);
    if (auto* G = dyn_cast<GlobalValue>(C)) { auto it = g_gaddr.find(G); if (it == g_gaddr.end()) { if (auto* A = dyn_cast<GlobalAlias>(G)) return constVal(A->getAliasee()); return Val(0); } return Val(it->second.first, it->second.second); }
    if (auto* E = dyn_cast<ConstantExpr>(C)) {
        switch (E->getOpcode()) {
        case Instruction::GetElementPtr: { Val b = constVal(cast<Constant>(E->getOperand(0))); APInt o(64, 0); cast<GEPOperator>(E)->accumulateConstantOffset(*DL, o); b.c += o.getSExtValue(); return b; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v = constVal(E->getOperand(0)); if (E->getType()->isIntegerTy()) v.c &= maskw(E->getType()->getIntegerBitWidth()); return v; }
        case Instruction::Trunc: { Val v = constVal(E->getOperand(0)); v.c &= maskw(E->getType()->getIntegerBitWidth()); return v; }
        case Instruction::Sub: case Instruction::Add: { Val a = constVal(E->getOperand(0)), b = constVal(E->getOperand(1)); return Val((E->getOpcode() == Instruction::Sub ? a.c - b.c : a.c + b.c) & maskw(E->getType()->getIntegerBitWidth())); }
        default: break;
        }
    }
    fprintf(stderr, "unsupported constant\n"); return Val(0);
}
static void constFlat(const Constant* C, std::vector<Opd>& out)
{
    Type* T = C->getType(); int n = scalars(T);
    if (T->isStructTy() || T->isArrayTy()) {
        if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { for (int i = 0; i < n; i++) out.push_back(Opd{-1, Val(0)}); return; }
        for (unsigned i = 0; ; i++) { Constant* k = C->getAggregateElement(i); if (!k) break; constFlat(k, out); }
        return;
    }
    out.push_back(Opd{-1, constVal(C)});
}
static const char* EXT[] = {"nd_u8", "nd_u16", "nd_u32", "nd_u64", "v_assume", "v_assert", "v_cover", "v_observe", "v_stop", "v_concrete", "v_symbolic",
    "v_sys_malloc", "v_sys_free", "v_sys_realloc", "v_readable", "memcpy", "memset", "memmove", "setjmp", "longjmp", "exit", "abort", "__assert_fail", "v_fail", "v_sys_bytes", "v_and", 0};
enum { X_ND8, X_ND16, X_ND32, X_ND64, X_ASSUME, X_ASSERT, X_COVER, X_OBSERVE, X_STOP, X_CONCRETE, X_SYMBOLIC, X_MALLOC, X_FREE, X_REALLOC, X_READABLE, X_MEMCPY, X_MEMSET, X_MEMMOVE, X_SETJMP, X_LONGJMP, X_EXIT, X_ABORT, X_ASSERTFAIL, X_VFAIL, X_SYSBYTES, X_AND, X_NONE, X_INTRIN, X_NOP };
static int extId(StringRef n)
{
    if (n == "_setjmp" || n == "__sigsetjmp" || n == "sigsetjmp" || n == "__setjmp") n = "setjmp";
    if (n == "_longjmp" || n == "siglongjmp" || n == "__longjmp_chk") n = "longjmp";
    if (n == "_exit") n = "exit";
    if (n == "bcopy") return X_NONE;
    for (int i = 0; EXT[i]; i++) if (n == EXT[i]) return i;
    return X_NONE;
}
static Fn* getFn(Function* F)
{
    auto& p = g_fns[F]; if (p) return p.get();
    p.reset(new Fn); Fn* fn = p.get(); fn->F = F; fn->nslots = 0;
    if (auto* SP = F->getSubprogram()) { fn->file = (SP->getDirectory().empty() || SP->getFilename().starts_with("/")) ? SP->getFilename().str() : (SP->getDirectory() + "/" + SP->getFilename()).str(); fn->line = SP->getLine(); }
    std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, Blk*> bm;
    for (auto& A : F->args()) { int n = scalars(A.getType()); slot[&A] = fn->nslots; fn->argSlot.push_back(fn->nslots); fn->argN.push_back(n); fn->nslots += n < 1 ? 1 : n; }
    u32 bid = 0;
    for (auto& B : *F) { fn->blks.emplace_back(new Blk); bm[&B] = fn->blks.back().get(); bm[&B]->id = bid++;
        for (auto& I : B) if (!I.getType()->isVoidTy()) { int n = scalars(I.getType()); slot[&I] = fn->nslots; fn->nslots += n < 1 ? 1 : n; } }
    auto opd = [&](const Value* V) -> Opd { if (auto* C = dyn_cast<Constant>(V)) return Opd{-1, constVal(C)}; if (isa<InlineAsm>(V) || isa<MetadataAsValue>(V)) return Opd{-1, Val(0)}; return Opd{slot.at(V), Val(0)}; };
    auto opds = [&](const Value* V, std::vector<Opd>& out) { if (auto* C = dyn_cast<Constant>(V)) { constFlat(C, out); return; } int n = scalars(V->getType()), s = slot.at(V); for (int i = 0; i < n; i++) out.push_back(Opd{s + i, Val(0)}); };
    auto width = [&](const Value* V) -> u8 { Type* T = V->getType(); return T->isPointerTy() ? 64 : T->isIntegerTy() && T->getIntegerBitWidth() <= 64 ? (u8)T->getIntegerBitWidth() : 0; };
    for (auto& B : *F) {
        Blk* b = bm[&B];
        for (auto& I : B) {
            if (auto* P = dyn_cast<PHINode>(&I)) { Phi ph; ph.dst = slot[&I]; ph.n = scalars(I.getType());
                for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { std::vector<Opd> v; opds(P->getIncomingValue(i), v); ph.in.push_back({bm[P->getIncomingBlock(i)], v}); }
                b->phis.push_back(ph); continue; }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            Ins n; n.I = &I; n.k = I_BAD; if (!I.getType()->isVoidTy()) { n.dst = slot[&I]; n.n = scalars(I.getType()); }
            switch (I.getOpcode()) {
            case Instruction::Add: n.op = ADD; goto bin; case Instruction::Sub: n.op = SUB; goto bin; case Instruction::Mul: n.op = MUL; goto bin;
            case Instruction::UDiv: n.op = UDIV; goto bin; case Instruction::SDiv: n.op = SDIV; goto bin; case Instruction::URem: n.op = UREM; goto bin; case Instruction::SRem: n.op = SREM; goto bin;
            case Instruction::And: n.op = AND; goto bin; case Instruction::Or: n.op = OR; goto bin; case Instruction::Xor: n.op = XOR; goto bin;
            case Instruction::Shl: n.op = SHL; goto bin; case Instruction::LShr: n.op = LSHR; goto bin; case Instruction::AShr: n.op = ASHR; goto bin;
            bin: if (!I.getType()->isIntegerTy()) break; n.w = width(&I); if (!n.w) break; n.k = I_BIN; n.o = {opd(I.getOperand(0)), opd(I.getOperand(1))}; break;
            case Instruction::ICmp: n.w = width(I.getOperand(0)); if (!n.w) break; n.k = I_ICMP; n.pred = cast<ICmpInst>(I).getPredicate(); n.o = {opd(I.getOperand(0)), opd(I.getOperand(1))}; break;
            case Instruction::Select: { if (!I.getOperand(0)->getType()->isIntegerTy(1) || n.n < 0) break; n.k = I_SELECT; n.o = {opd(I.getOperand(0))}; std::vector<Opd> a, c; opds(I.getOperand(1), a); opds(I.getOperand(2), c); for (auto& x : a) n.o.push_back(x); for (auto& x : c) n.o.push_back(x); std::vector<std::pair<u32, u8>> L; flatten(I.getType(), 0, L); n.lay = L; break; }
            case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: n.w = width(I.getOperand(0)); n.w2 = width(&I); if (!n.w || !n.w2) break; n.k = I.getOpcode() == Instruction::ZExt ? I_ZEXT : I.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC; n.o = {opd(I.getOperand(0))}; break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: n.w = width(I.getOperand(0)); n.w2 = width(&I); if (!n.w || !n.w2) break; n.k = n.w == n.w2 ? I_MOVE : n.w < n.w2 ? I_ZEXT : I_TRUNC; n.o = {opd(I.getOperand(0))}; break;
            case Instruction::BitCast: case Instruction::Freeze: if (n.n < 1) break; n.k = I_MOVE; opds(I.getOperand(0), n.o); if ((int)n.o.size() != n.n) n.k = I_BAD; break;
            case Instruction::Load: if (n.n < 0) break; n.k = I_LOAD; flatten(I.getType(), 0, n.lay); n.o = {opd(I.getOperand(0))}; n.sz = DL->getTypeStoreSize(I.getType()); break;
            case Instruction::Store: { Type* T = I.getOperand(0)->getType(); if (scalars(T) < 0) break; n.k = I_STORE; flatten(T, 0, n.lay); n.o = {opd(I.getOperand(1))}; opds(I.getOperand(0), n.o); n.sz = DL->getTypeStoreSize(T); break; }
            case Instruction::GetElementPtr: { n.k = I_GEP; n.o = {opd(I.getOperand(0))}; auto& G = cast<GetElementPtrInst>(I); bool bad = false;
                for (auto g = gep_type_begin(G), e = gep_type_end(G); g != e; ++g) { Value* X = g.getOperand();
                    if (StructType* S = g.getStructTypeOrNull()) { n.off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(X)->getZExtValue()); continue; }
                    u64 s = DL->getTypeAllocSize(g.getIndexedType());
                    if (auto* C = dyn_cast<ConstantInt>(X)) n.off += s * (u64)C->getSExtValue();
                    else { u8 w = width(X); if (!w) bad = true; n.o.push_back(opd(X)); n.sc.push_back(s); n.argw.push_back(w); } }
                if (bad) n.k = I_BAD; break; }
            case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); n.k = I_ALLOCA; n.sz = DL->getTypeAllocSize(A.getAllocatedType()); n.o = {opd(A.getArraySize())}; n.promotable = !A.isArrayAllocation() && !A.getAllocatedType()->isAggregateType() && isAllocaPromotable(&A); break; }
            case Instruction::ExtractValue: { std::vector<std::pair<u32, u8>> L; auto& E = cast<ExtractValueInst>(I); u32 at = 0; Type* T = E.getAggregateOperand()->getType();
                for (unsigned ix : E.indices()) { for (unsigned j = 0; j < ix; j++) at += scalars(T->isStructTy() ? T->getStructElementType(j) : T->getArrayElementType()); T = T->isStructTy() ? T->getStructElementType(ix) : T->getArrayElementType(); }
                std::vector<Opd> all; opds(E.getAggregateOperand(), all); n.k = I_MOVE; for (int i = 0; i < n.n; i++) n.o.push_back(all[at + i]); break; }
            case Instruction::InsertValue: { auto& E = cast<InsertValueInst>(I); u32 at = 0; Type* T = I.getType();
                for (unsigned ix : E.indices()) { for (unsigned j = 0; j < ix; j++) at += scalars(T->isStructTy() ? T->getStructElementType(j) : T->getArrayElementType()); T = T->isStructTy() ? T->getStructElementType(ix) : T->getArrayElementType(); }
                std::vector<Opd> v; opds(E.getAggregateOperand(), n.o); opds(E.getInsertedValueOperand(), v); for (size_t i = 0; i < v.size(); i++) n.o[at + i] = v[i]; n.k = I_MOVE; break; }
            case Instruction::Ret: n.k = I_RET; if (I.getNumOperands()) opds(I.getOperand(0), n.o); break;
            case Instruction::Br: { auto& Br = cast<BranchInst>(I); if (Br.isConditional()) { n.k = I_CBR; n.o = {opd(Br.getCondition())}; n.t = bm[Br.getSuccessor(0)]; n.f = bm[Br.getSuccessor(1)]; } else { n.k = I_BR; n.t = bm[Br.getSuccessor(0)]; } break; }
            case Instruction::Switch: { auto& S = cast<SwitchInst>(I); n.k = I_SWITCH; n.w = width(S.getCondition()); n.o = {opd(S.getCondition())}; n.f = bm[S.getDefaultDest()]; for (auto& c : S.cases()) n.cases.push_back({c.getCaseValue()->getZExtValue(), bm[c.getCaseSuccessor()]}); break; }
            case Instruction::Unreachable: n.k = I_UNREACH; break;
            case Instruction::Call: { auto& C = cast<CallInst>(I); if (n.dst >= 0 && n.n < 0) break; n.k = I_CALL; n.w = n.dst >= 0 ? width(&I) : 0;
                Value* cv = C.getCalledOperand()->stripPointerCasts();
                if (isa<InlineAsm>(cv)) { n.ext = X_ABORT; std::string s = cast<InlineAsm>(cv)->getAsmString(); if (s.empty()) n.ext = X_NOP; break; }
                n.callee = dyn_cast<Function>(cv);
                if (auto* A = dyn_cast<GlobalAlias>(cv)) n.callee = dyn_cast<Function>(A->getAliasee());
                n.o.push_back(n.callee ? Opd{-1, Val(0)} : opd(C.getCalledOperand()));
                bool bad = false;
                for (auto& A : C.args()) { if (A->getType()->isMetadataTy()) { n.argn.push_back(0); n.argw.push_back(0); continue; } int k = scalars(A->getType()); if (k < 0) { bad = true; break; } n.argn.push_back(k); n.argw.push_back(width(A)); opds(A, n.o); }
                if (bad) { n.k = I_BAD; break; }
                if (n.callee && n.callee->isIntrinsic()) {
                    switch (n.callee->getIntrinsicID()) {
                    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: n.ext = X_MEMCPY; break; case Intrinsic::memset: n.ext = X_MEMSET; break; case Intrinsic::memmove: n.ext = X_MEMMOVE; break;
                    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::vaend: n.ext = X_NOP; break;
                    case Intrinsic::trap: case Intrinsic::debugtrap: n.ext = X_ABORT; break;
                    default: n.ext = X_INTRIN; }
                } else if (n.callee && n.callee->isDeclaration()) n.ext = extId(n.callee->getName());
                break; }
            default: break;
            }
            b->ins.push_back(std::move(n));
        }
    }
    return fn;
}

/* ---------- memory ---------- */
enum { B_CONC = 0, B_SYM = 1, B_UNINIT = 2 };
struct Obj {
    u64 base, size; Expr* esize = 0;             /* esize: symbolic size (size = its ceiling) */
    bool heap = false, ro = false, isArr = false, func = false; const char* kind = "";
    std::vector<u8> c, f; std::vector<Expr*> s;  /* byte mode: value, flag, symbolic byte */
    std::map<u32, u32> prov;                     /* offset -> object of a stored pointer */
    Upd* u = 0;                                  /* array mode */
};
typedef std::shared_ptr<Obj> ObjP;
struct Frame { Fn* fn; Blk* b; u32 ip; std::vector<Val> r; std::vector<u32> allocas; std::vector<std::pair<u32, u32>> prom; const Ins* call = 0; u32 uid = 0; u32 va = 0; };
struct Snap { u32 obj; std::vector<u8> c, f; std::vector<Expr*> s; std::map<u32, u32> prov; };
struct Jmp { u32 uid; Blk* b; u32 ip; const Ins* ins; std::vector<Snap> snaps; };
static std::unordered_set<u32> g_unVars;
struct Log { char kind; std::string msg; Val v; };
struct State {
    std::vector<Frame> st; std::vector<std::pair<u32, ObjP>> objs; u64 nextAddr = 0x10000000; u32 nextObj = 1, uninit = 0, uid = 0, depth = 0;
    std::vector<Expr*> cons; std::shared_ptr<std::unordered_set<Expr*>> known; std::shared_ptr<Model> m; std::vector<Log> log; std::vector<Expr*> nd; std::map<u64, std::shared_ptr<Jmp>> jmps; u64 nextJmp = 1; u64 steps = 0;
    bool jmpChosen = false;
};
struct PathEnd {};      /* not thrown: flags */

/* ---------- options, results ---------- */
static u64 g_maxSteps = 30000000; static double g_deadline = 1e18; static int g_maxWorkers = 1; static u32 g_maxErr = 12; static u32 g_samples = 6; static u64 g_maxConc = 70000;
struct Shared { volatile int live; volatile int stop; volatile int errs; volatile u64 paths; volatile double errT; };
static Shared* g_sh; static int g_outFd; static int g_isChild;
/* over: stopped, out of time, or an error was found a while ago (the rest of the exploration can only add more of them) */
static double g_errGrace = 45;
static bool over() { if (g_sh->stop) return true; double t = now(); return t > g_deadline || (g_sh->errT && t > g_sh->errT + g_errGrace); }
static u64 r_paths, r_done, r_steps, r_forks, r_asserts, r_assertQ, r_bounds, r_incomplete, r_assumeStop; static std::map<std::string, u64> r_covers; static std::map<std::string, u64> r_assertSeen; static std::map<std::string, u32> r_errSeen; static std::set<std::string> r_incWhy;
static std::string r_errs, r_samp; static u32 r_nsamp; static u64 g_rng = 88172645463325252ULL;
static std::string jesc(const std::string& s) { std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o; }

static std::vector<State*> g_work;
struct Exec {
    State* s; bool ended = false; const Ins* cur = 0;

    /* ----- objects ----- */
    int findId(u32 id) { auto& v = s->objs; size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].first < id) lo = m + 1; else hi = m; } return lo < v.size() && v[lo].first == id ? (int)lo : -1; }
    int findAddr(u64 a) { auto& v = s->objs; size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].second->base <= a) lo = m + 1; else hi = m; } return (int)lo - 1; }
    Obj* get(int i) { return s->objs[i].second.get(); }
    Obj* getW(int i) { ObjP& p = s->objs[i].second; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
    u32 addObj(ObjP o, u64 span) { o->base = s->nextAddr; s->nextAddr += ((span + 15) & ~15ULL) + 4096; s->nextAddr = (s->nextAddr + 15) & ~15ULL; u32 id = s->nextObj++; s->objs.push_back({id, o}); return id; }
    u32 newBytes(u64 n, const char* kind, bool heap) { ObjP o = std::make_shared<Obj>(); o->size = n; o->kind = kind; o->heap = heap; o->c.assign(n, 0); o->f.assign(n, B_UNINIT); return addObj(o, n); }
    Expr* uninitVar() { static std::vector<Expr*> pool; u32 k = s->uninit++; while (pool.size() <= k) { pool.push_back(mkVar("un" + std::to_string(pool.size()), 8)); g_unVars.insert((u32)pool.back()->v); } return pool[k]; }
    void toArr(Obj* o)
    {
        if (o->isArr) return;
        u64 cnt[256] = {0}; for (u64 i = 0; i < o->size; i++) if (o->f[i] == B_CONC) cnt[o->c[i]]++;
        bool un = false; for (u64 i = 0; i < o->size; i++) un |= o->f[i] == B_UNINIT;
        int best = 0; for (int i = 1; i < 256; i++) if (cnt[i] > cnt[best]) best = i;
        Upd* u = mkRoot(un ? uninitVar() : mkC(best, 8));
        for (u64 i = 0; i < o->size; i++) { if (o->f[i] == B_UNINIT || (o->f[i] == B_CONC && !un && o->c[i] == best)) continue; u = mkUpd(u, mkC(i, 64), o->f[i] == B_SYM ? o->s[i] : mkC(o->c[i], 8)); }
        o->u = u; o->isArr = true; o->c.clear(); o->f.clear(); o->s.clear();
    }
    /* ----- forking ----- */
    bool addCons(State* t, Expr* e)
    {
        if (e->op == XOR && e->w == 1 && isC(e->b) && e->a->op == OR) { addCons(t, mkNot(e->a->a)); addCons(t, mkNot(e->a->b)); return true; }
        if (e->op == AND && e->w == 1) { addCons(t, e->a); addCons(t, e->b); return true; }
        if (t->known->count(e)) return true;
        if (t->known.use_count() > 1) t->known = std::make_shared<std::unordered_set<Expr*>>(*t->known);
        t->known->insert(e); t->cons.push_back(e); return true;
    }
    void learn(Expr* e) { if (s->known.use_count() > 1) s->known = std::make_shared<std::unordered_set<Expr*>>(*s->known); s->known->insert(e); }
    static std::shared_ptr<Model> merged(const std::shared_ptr<Model>& m, const QRes* q) { auto r = std::make_shared<Model>(*m); for (auto& p : q->model) r->set(p.first, p.second); return r; }
    /* Truth of a condition in this state; when both are possible the other side is queued and re-executes the instruction. */
    bool decide(Expr* c, bool keepBoth = true)
    {
        if (isC(c)) return c->v;
        Expr* nc = mkNot(c);
        if (s->known->count(c)) return true;
        if (s->known->count(nc)) return false;
        bool mv = evalExpr(c, *s->m); Expr *mine = mv ? c : nc, *other = mv ? nc : c;
        const QRes* q; int r = solve(s->cons, other, &q);
        if (r < 0) { r_incomplete++; r_incWhy.insert("solver gave no answer"); }
        if (r <= 0) { learn(mine); if (r < 0) addCons(s, mine); return mv; }
        r_forks++;
        State* n = new State(*s); n->m = merged(s->m, q); addCons(n, other); n->depth++; g_work.push_back(n);
        addCons(s, mine); s->depth++;
        return mv;
    }
    bool decide(const Val& v) { return v.e ? decide(v.e) : v.c != 0; }
    u64 concretize(const Val& v)
    {
        if (!v.e) return v.c;
        u64 x = evalExpr(v.e, *s->m);
        for (u64 i = 0; ; i++) { if (decide(mkEq(v.e, mkC(x, v.e->w)))) return x; x = evalExpr(v.e, *s->m); if (i > g_maxConc) { incomplete("too many values to concretise"); return x; } }
    }
    /* ----- path end ----- */
    void finish() { ended = true; }
    void incomplete(const char* why) { r_incomplete++; r_incWhy.insert(why); ended = true; }
    std::string where()
    {
        std::string o; int k = 0;
        for (size_t i = s->st.size(); i-- > 0 && k < 10; k++) { Frame& f = s->st[i]; const Ins& n = f.b->ins[f.ip < f.b->ins.size() ? f.ip : f.b->ins.size() - 1]; if (k) o += " < "; o += f.fn->F->getName().str();
            if (auto& dl = n.I->getDebugLoc()) { std::string fn = cast<DIScope>(dl.getScope())->getFilename().str(); size_t p = fn.rfind('/'); o += "@" + (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(dl.getLine()); } }
        return o;
    }
    std::string logJson(const Model& m)
    {
        std::string o = "["; bool first = true;
        for (auto& l : s->log) { if (!first) o += ","; first = false; if (l.kind == 'c') o += "\"c:" + jesc(l.msg) + "\""; else o += "\"o:" + jesc(l.msg) + "=" + std::to_string(l.v.e ? evalExpr(l.v.e, m) : l.v.c) + "\""; }
        return o + "]";
    }
    std::string ndJson(const Model& m) { std::string o = "["; for (size_t i = 0; i < s->nd.size(); i++) { if (i) o += ","; o += std::to_string(evalExpr(s->nd[i], m)); } return o + "]"; }
    void error(const std::string& kind, const std::string& msg)
    {
        ended = true;
        std::string key = kind + ":" + msg; std::string w = where(); if (kind != "assert") key += w;
        u32& n = r_errSeen[key]; if (n >= 4) return; n++;
        if (!__sync_fetch_and_add(&g_sh->errs, 1)) g_sh->errT = now();
        r_errs += "{\"t\":\"err\",\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(w) + "\",\"nd\":" + ndJson(*s->m) + ",\"log\":" + logJson(*s->m) + "}\n";
        if ((u32)g_sh->errs >= g_maxErr) g_sh->stop = 1;
    }
    void memError(const char* what, const Val& p, u64 n) { char b[64]; snprintf(b, sizeof b, " (%llu bytes)", (unsigned long long)n); error("memory", std::string(what) + b); (void)p; }

    /* ----- pointer resolution: object index and offset expression ----- */
    int resolve(const Val& p, const char* what, u64 n)
    {
        int i = -1;
        if (p.obj) { i = findId(p.obj); if (i < 0) { memError((std::string(what) + " through a dangling pointer").c_str(), p, n); return -1; } return i; }
        u64 a = p.e ? evalExpr(p.e, *s->m) : p.c;
        if (!p.e && a < 4096) { memError((std::string(what) + " through a null pointer").c_str(), p, n); return -1; }
        i = findAddr(a);
        if (i < 0 || a - get(i)->base >= get(i)->size) {
            if (p.e) { u64 c = concretize(p); (void)c; if (ended) return -1; i = findAddr(c); if (i >= 0 && c - get(i)->base < get(i)->size) return i; }
            memError((std::string(what) + " through a wild pointer").c_str(), p, n); return -1; }
        if (p.e) { /* make the state commit to this object */
            Expr* off = mkBin(SUB, p.e, mkC(get(i)->base, 64)); if (!decide(mkCmp(ULT, off, mkC(get(i)->size, 64)))) return resolve(p, what, n); }
        return i;
    }
    /* bounds: true when [off, off+n) lies inside for this state */
    bool inside(Obj* o, Expr* off, u64 n)
    {
        if (!o->esize) {
            if (isC(off)) return off->v <= o->size && n <= o->size - off->v;
            if (n > o->size) return false;
            r_bounds++; return decide(mkCmp(ULE, off, mkC(o->size - n, 64)));
        }
        r_bounds++;
        Expr* c = mkBin(AND, mkCmp(ULE, mkC(n, 64), o->esize), mkCmp(ULE, off, mkBin(SUB, o->esize, mkC(n, 64))));
        return decide(c);
    }
    Expr* byteAt(Obj*& o, int oi, u64 i)
    {
        if (o->isArr) return mkRead(o->u, mkC(i, 64));
        if (o->f[i] == B_UNINIT) { o = getW(oi); if (o->s.empty()) o->s.assign(o->size, 0); o->s[i] = uninitVar(); o->f[i] = B_SYM; }
        return o->f[i] == B_SYM ? o->s[i] : mkC(o->c[i], 8);
    }
    bool load(const Val& p, const std::vector<std::pair<u32, u8>>& lay, u64 sz, Val* out)
    {
        int oi = resolve(p, "read", sz); if (oi < 0) return false;
        Obj* o = get(oi);
        if (o->func) { memError("read of code", p, sz); return false; }
        if (!p.e) {
            u64 off = p.c - o->base;
            if (!o->esize && !o->isArr) {
                if (off > o->size || sz > o->size - off) { memError("read outside the object", p, sz); return false; }
                for (size_t k = 0; k < lay.size(); k++) {
                    u64 a = off + lay[k].first; unsigned w = lay[k].second, nb = (w + 7) / 8; bool conc = true; u64 v = 0;
                    for (unsigned j = 0; j < nb; j++) { if (o->f[a + j] != B_CONC) { conc = false; break; } v |= (u64)o->c[a + j] << (8 * j); }
                    if (conc) { out[k] = Val(v & maskw(w)); }
                    else { Expr* e = byteAt(o, oi, a); for (unsigned j = 1; j < nb; j++) e = mkConcat(byteAt(o, oi, a + j), e); e = norm(e); if (e->w != w) e = mkExtract(e, 0, w); out[k] = mkV(e); }
                    if (nb == 8 && !o->prov.empty()) { auto it = o->prov.find((u32)a); if (it != o->prov.end()) out[k].obj = it->second; }
                }
                return true;
            }
        }
        Expr* off = p.e ? mkBin(SUB, p.e, mkC(o->base, 64)) : mkC(p.c - o->base, 64);
        if (!inside(o, off, sz)) { memError("read outside the object", p, sz); return false; }
        if (ended) return false;
        /* few possible places and pointers inside: pick the place */
        if (!isC(off) && !o->prov.empty()) { u64 c = concretize(mkV(off)); if (ended) return false; return load(Val(o->base + c, s->objs[oi].first), lay, sz, out); }
        o = get(oi);
        if (!o->isArr && !isC(off)) { if (o->size <= 64) {
                for (size_t k = 0; k < lay.size(); k++) { unsigned w = lay[k].second, nb = (w + 7) / 8; Expr* e = 0;
                    for (unsigned j = 0; j < nb; j++) { Expr* ix = mkBin(ADD, off, mkC(lay[k].first + j, 64)); Expr* b = 0; u64 mb = maxBits(ix);
                        for (u64 i = o->size; i-- > 0;) { if ((i & ~mb)) continue; Expr* x = byteAt(o, oi, i); b = b ? mkIte(mkEq(ix, mkC(i, 64)), x, b) : x; } if (!b) b = mkC(0, 8); e = e ? mkConcat(b, e) : b; }
                    e = norm(e); if (e->w != w) e = mkExtract(e, 0, w); out[k] = mkV(e); }
                return true; }
            o = getW(oi); toArr(o); }
        for (size_t k = 0; k < lay.size(); k++) { unsigned w = lay[k].second, nb = (w + 7) / 8; Expr* e = 0;
            for (unsigned j = 0; j < nb; j++) { Expr* b = mkRead(o->u, mkBin(ADD, off, mkC(lay[k].first + j, 64))); e = e ? mkConcat(b, e) : b; }
            e = norm(e); if (e->w != w) e = mkExtract(e, 0, w); out[k] = mkV(e); }
        return true;
    }
    void putByte(Obj* o, u64 i, Expr* e)
    {
        if (o->isArr) { o->u = mkUpd(o->u, mkC(i, 64), e); return; }
        if (isC(e)) { o->c[i] = (u8)e->v; o->f[i] = B_CONC; }
        else { if (o->s.empty()) o->s.assign(o->size, 0); o->s[i] = e; o->f[i] = B_SYM; }
    }
    bool store(const Val& p, const std::vector<std::pair<u32, u8>>& lay, u64 sz, const Val* v)
    {
        int oi = resolve(p, "write", sz); if (oi < 0) return false;
        Obj* o = get(oi);
        if (o->func || o->ro) { memError("write to constant data", p, sz); return false; }
        Expr* off = p.e ? mkBin(SUB, p.e, mkC(o->base, 64)) : 0;
        if (!off && !o->esize) { u64 k = p.c - o->base; if (k > o->size || sz > o->size - k) { memError("write outside the object", p, sz); return false; } }
        else { if (!off) off = mkC(p.c - o->base, 64); if (!inside(o, off, sz)) { memError("write outside the object", p, sz); return false; } if (ended) return false; }
        if (off && !isC(off) && (!o->prov.empty())) { u64 c = concretize(mkV(off)); if (ended) return false; return store(Val(o->base + c, s->objs[oi].first), lay, sz, v); }
        o = getW(oi);
        if (off && !isC(off) && !o->isArr) {
            if (o->size <= 64) {
                for (size_t k = 0; k < lay.size(); k++) { unsigned w = lay[k].second, nb = (w + 7) / 8; Expr* e = ex(v[k], w); if (w & 7) e = mkZext(e, nb * 8);
                    for (unsigned j = 0; j < nb; j++) { Expr* ix = mkBin(ADD, off, mkC(lay[k].first + j, 64)); Expr* b = mkExtract(e, 8 * j, 8); u64 mb = maxBits(ix);
                        for (u64 i = 0; i < o->size; i++) { if (i & ~mb) continue; Expr* old = byteAt(o, oi, i); putByte(o, i, mkIte(mkEq(ix, mkC(i, 64)), b, old)); } } }
                return true;
            }
            toArr(o);
        }
        for (size_t k = 0; k < lay.size(); k++) {
            unsigned w = lay[k].second, nb = (w + 7) / 8;
            if (!off || isC(off)) {
                u64 a = (off ? off->v : p.c - o->base) + lay[k].first;
                if (!o->isArr) {
                    if (!o->prov.empty()) { auto it = o->prov.lower_bound(a >= 7 ? (u32)a - 7 : 0); while (it != o->prov.end() && it->first < a + nb) it = o->prov.erase(it); }
                    if (v[k].obj && nb == 8) o->prov[(u32)a] = v[k].obj;
                    if (!v[k].e) { for (unsigned j = 0; j < nb; j++) { o->c[a + j] = (u8)(v[k].c >> (8 * j)); o->f[a + j] = B_CONC; } continue; }
                }
                Expr* e = ex(v[k], w); if (w & 7) e = mkZext(e, nb * 8);
                for (unsigned j = 0; j < nb; j++) putByte(o, a + j, mkRawExtract(e, 8 * j, 8));
            } else {
                Expr* e = ex(v[k], w); if (w & 7) e = mkZext(e, nb * 8);
                for (unsigned j = 0; j < nb; j++) o->u = mkUpd(o->u, mkBin(ADD, off, mkC(lay[k].first + j, 64)), mkRawExtract(e, 8 * j, 8));
            }
        }
        return true;
    }
    bool memcpyOp(const Val& d, const Val& sv, const Val& nv)
    {
        u64 n = concretize(nv); if (ended) return false; if (n == 0) return true;
        int si = resolve(sv, "read", n); if (si < 0) return false;
        int di = resolve(d, "write", n); if (di < 0) return false;
        Obj *so = get(si), *dp = get(di);
        if (so->func) { memError("read of code", sv, n); return false; }
        if (dp->ro || dp->func) { memError("write to constant data", d, n); return false; }
        Expr* soff = sv.e ? mkBin(SUB, sv.e, mkC(so->base, 64)) : mkC(sv.c - so->base, 64);
        Expr* doff = d.e ? mkBin(SUB, d.e, mkC(dp->base, 64)) : mkC(d.c - dp->base, 64);
        if (!inside(so, soff, n)) { memError("read outside the object", sv, n); return false; } if (ended) return false;
        if (!inside(dp, doff, n)) { memError("write outside the object", d, n); return false; } if (ended) return false;
        if (!isC(soff) && !so->isArr && (so->size > 64 || !so->prov.empty())) { if (!so->prov.empty()) { u64 c = concretize(mkV(soff)); if (ended) return false; soff = mkC(c, 64); } else toArr(getW(si)); }
        if (!isC(doff) && !dp->isArr && (dp->size > 64 || !dp->prov.empty())) { if (!dp->prov.empty()) { u64 c = concretize(mkV(doff)); if (ended) return false; doff = mkC(c, 64); } else toArr(getW(di)); }
        so = get(si); Obj* o = getW(di); so = get(si);
        if (isC(soff) && isC(doff) && !so->isArr && !o->isArr) {
            u64 a = soff->v, b = doff->v; std::vector<std::pair<u32, u32>> pv;
            for (auto it = so->prov.lower_bound((u32)a); it != so->prov.end() && it->first + 8 <= a + n; ++it) pv.push_back({(u32)(it->first - a + b), it->second});
            { auto it = o->prov.lower_bound(b >= 7 ? (u32)b - 7 : 0); while (it != o->prov.end() && it->first < b + n) it = o->prov.erase(it); }
            memmove(&o->c[b], &so->c[a], n); memmove(&o->f[b], &so->f[a], n);
            if (!so->s.empty()) { if (o->s.empty()) o->s.assign(o->size, 0); memmove(&o->s[b], &so->s[a], n * sizeof(Expr*)); }
            for (auto& x : pv) o->prov[x.first] = x.second;
            return true;
        }
        std::vector<std::pair<u32, u8>> L{{0, 8}}; std::vector<Val> tmp(n);
        for (u64 i = 0; i < n; i++) { Val p = mkV(mkBin(ADD, soff, mkC(so->base + i, 64)), s->objs[si].first); if (!load(p, L, 1, &tmp[i])) return false; }
        u64 db = get(di)->base;
        for (u64 i = 0; i < n; i++) { Val p = mkV(mkBin(ADD, doff, mkC(db + i, 64)), s->objs[di].first); if (!store(p, L, 1, &tmp[i])) return false; }
        return true;
    }
    bool memsetOp(const Val& d, const Val& b, const Val& nv)
    {
        if (nv.e) {
            int di = resolve(d, "write", 0); if (di < 0) return false; Obj* o = get(di);
            Expr* off = d.e ? mkBin(SUB, d.e, mkC(o->base, 64)) : mkC(d.c - o->base, 64);
            if (o->isArr && o->esize && isC(off) && off->v == 0) {
                if (o->esize == nv.e || decide(mkEq(o->esize, nv.e))) { if (ended) return false; o = getW(di); o->u = mkRoot(mkExtract(ex(b, b.e ? b.e->w : 32), 0, 8)); return true; }
                if (ended) return false; }
        }
        u64 n = concretize(nv); if (ended) return false; if (n == 0) return true;
        int di = resolve(d, "write", n); if (di < 0) return false; Obj* o = get(di);
        if (o->ro || o->func) { memError("write to constant data", d, n); return false; }
        Expr* off = d.e ? mkBin(SUB, d.e, mkC(o->base, 64)) : mkC(d.c - o->base, 64);
        if (!inside(o, off, n)) { memError("write outside the object", d, n); return false; } if (ended) return false;
        Expr* be = mkExtract(ex(b, b.e ? b.e->w : 32), 0, 8);
        o = getW(di);
        if (isC(off) && !o->isArr) {
            u64 k = off->v; { auto it = o->prov.lower_bound(k >= 7 ? (u32)k - 7 : 0); while (it != o->prov.end() && it->first < k + n) it = o->prov.erase(it); }
            if (isC(be)) { memset(&o->c[k], (int)be->v, n); memset(&o->f[k], B_CONC, n); } else for (u64 i = 0; i < n; i++) putByte(o, k + i, be);
            return true;
        }
        if (o->isArr && isC(off) && off->v == 0 && !o->esize && n == o->size) { o->u = mkRoot(be); return true; }
        std::vector<std::pair<u32, u8>> L{{0, 8}}; Val v = mkV(be);
        for (u64 i = 0; i < n; i++) { Val p = mkV(mkBin(ADD, off, mkC(o->base + i, 64)), s->objs[di].first); if (!store(p, L, 1, &v)) return false; o = get(di); }
        return true;
    }
    Val mallocOp(const Val& nv)
    {
        if (nv.e || nv.c > (1u << 20)) {
            ObjP o = std::make_shared<Obj>(); o->heap = true; o->kind = "heap"; o->isArr = true; o->u = mkRoot(uninitVar()); o->size = nv.e ? maxBits(nv.e) : nv.c; if (o->size > (1ULL << 33)) o->size = 1ULL << 33; o->esize = nv.e;
            u32 id = addObj(o, o->size); return Val(o->base, id);
        }
        u32 id = newBytes(nv.c, "heap", true); return Val(s->objs.back().second->base, id);
    }
    bool freeOp(const Val& p)
    {
        if (!p.e && p.c == 0) return true;
        int i = resolve(p, "free", 0); if (i < 0) return false; Obj* o = get(i);
        if (!o->heap) { error("memory", "free of memory that was not allocated"); return false; }
        Expr* off = p.e ? mkBin(SUB, p.e, mkC(o->base, 64)) : mkC(p.c - o->base, 64);
        if (!decide(mkEq(off, mkC(0, 64)))) { error("memory", "free of a pointer inside a block"); return false; }
        if (ended) return false;
        s->objs.erase(s->objs.begin() + i); return true;
    }
    std::string cstr(const Val& p) { if (p.e) return "?"; int i = p.obj ? findId(p.obj) : findAddr(p.c); if (i < 0) return "?"; Obj* o = get(i); if (o->isArr) return "?"; std::string r; for (u64 k = p.c - o->base; k < o->size && o->f[k] == B_CONC && o->c[k] && r.size() < 400; k++) r += (char)o->c[k]; return r; }

    /* ----- frames ----- */
    void popFrame() { Frame& f = s->st.back(); for (size_t i = f.allocas.size(); i-- > 0;) { int k = findId(f.allocas[i]); if (k >= 0) s->objs.erase(s->objs.begin() + k); } s->st.pop_back(); }
    void jump(Frame& f, Blk* t)
    {
        Blk* from = f.b;
        if (!t->phis.empty()) {
            static std::vector<Val> tmp; tmp.clear();
            for (auto& p : t->phis) for (auto& in : p.in) if (in.first == from) { for (auto& o : in.second) tmp.push_back(o.slot >= 0 ? f.r[o.slot] : o.c); break; }
            size_t k = 0; for (auto& p : t->phis) for (int i = 0; i < p.n; i++) f.r[p.dst + i] = tmp[k++];
        }
        f.b = t; f.ip = 0; t->seen = true;
    }
    void enter(Function* F, const Val* args, const std::vector<int>& argn, const Ins* call)
    {
        Fn* fn = getFn(F); fn->used = true;
        if (s->st.size() > 400) { incomplete("call depth"); return; }
        Frame nf; nf.fn = fn; nf.b = fn->blks[0].get(); nf.b->seen = true; nf.ip = 0; nf.r.resize(fn->nslots); nf.call = call; nf.uid = ++s->uid;
        size_t k = 0, na = fn->argSlot.size();
        for (size_t i = 0; i < na && i < argn.size(); i++) { for (int j = 0; j < argn[i] && j < fn->argN[i]; j++) nf.r[fn->argSlot[i] + j] = args[k + j]; k += argn[i]; }
        if (F->isVarArg()) {   /* anonymous arguments in the overflow area */
            std::vector<Val> ov; for (size_t i = na, q = k; i < argn.size(); i++) { for (int j = 0; j < argn[i]; j++) ov.push_back(args[q + j]); q += argn[i]; }
            u32 id = newBytes(ov.size() * 8, "varargs", false); nf.va = id; nf.allocas.push_back(id); u64 b = s->objs.back().second->base;
            std::vector<std::pair<u32, u8>> L{{0, 64}};
            for (size_t i = 0; i < ov.size(); i++) { Val v = ov[i]; if (v.e && v.e->w != 64) v = mkV(mkZext(v.e, 64)); store(Val(b + 8 * i, id), L, 8, &v); }
        }
        s->st.push_back(std::move(nf));
    }
    void run();
    void extCall(const Ins& n, Frame& f, const std::vector<Val>& a);
    void setRes(const Ins& n, const Val& v) { if (n.dst >= 0) s->st.back().r[n.dst] = v; }
};

static std::vector<Expr*> g_ndPool[65];
static Expr* ndVar(u32 k, unsigned w) { auto& p = g_ndPool[w]; while (p.size() <= k) p.push_back(0); if (!p[k]) p[k] = mkVar("in" + std::to_string(k) + "w" + std::to_string(w), w); return p[k]; }

void Exec::extCall(const Ins& n, Frame& f, const std::vector<Val>& a)
{
    switch (n.ext) {
    case X_NOP: break;
    case X_ND8: case X_ND16: case X_ND32: case X_ND64: { unsigned w = 8u << (n.ext - X_ND8); Expr* e = ndVar((u32)s->nd.size(), w); s->nd.push_back(e); setRes(n, mkV(e)); break; }
    case X_ASSUME: { if (!a[0].e) { if (!a[0].c) { r_assumeStop++; finish(); } break; }
        Expr* c = mkNot(mkEq(a[0].e, mkC(0, a[0].e->w))); if (isC(c)) { if (!c->v) { r_assumeStop++; finish(); } break; }
        if (s->known->count(c)) break;
        if (!evalExpr(c, *s->m)) { const QRes* q; int r = solve(s->cons, c, &q); if (r < 0) { incomplete("solver gave no answer"); break; } if (r == 0) { r_assumeStop++; finish(); break; } s->m = merged(s->m, q); }
        addCons(s, c); break; }
    case X_ASSERT: { r_asserts++; std::string m = cstr(a[1]); 
        bool ok; if (!a[0].e) ok = a[0].c != 0; else { r_assertQ++; ok = decide(mkNot(mkEq(a[0].e, mkC(0, a[0].e->w)))); }
        if (ended) break; r_assertSeen[m]++; if (!ok) error("assert", m); break; }
    case X_VFAIL: error("assert", cstr(a[0])); break;
    case X_COVER: { std::string m = cstr(a[0]); r_covers[m]++; s->log.push_back(Log{'c', m, Val(0)}); break; }
    case X_OBSERVE: s->log.push_back(Log{'o', cstr(a[0]), a[1]}); break;
    case X_STOP: r_done++; finish(); break;
    case X_SYMBOLIC: setRes(n, Val(a[0].e ? 1 : 0)); break;
    case X_CONCRETE: { u64 v = concretize(a[0]); if (!ended) setRes(n, Val(v)); break; }
    case X_AND: setRes(n, mkV(mkZext(mkBin(AND, mkNot(mkEq(ex(a[0], 32), mkC(0, 32))), mkNot(mkEq(ex(a[1], 32), mkC(0, 32)))), 32))); break;
    case X_MALLOC: case X_SYSBYTES: { setRes(n, mallocOp(a[0])); break; }
    case X_FREE: freeOp(a[0]); break;
    case X_REALLOC: {
        u64 nn = concretize(a[1]); if (ended) break;
        if (!a[0].e && a[0].c == 0) { setRes(n, mallocOp(Val(nn))); break; }
        int i = resolve(a[0], "realloc", 0); if (i < 0) break; Obj* o = get(i);
        if (!o->heap || a[0].e || a[0].c != o->base) { error("memory", "realloc of a pointer that was not allocated"); break; }
        if (o->esize) { incomplete("realloc of a block of symbolic size"); break; }
        u64 m = o->size < nn ? o->size : nn; u32 oid = s->objs[i].first; Val nv = mallocOp(Val(nn));
        if (m) memcpyOp(nv, Val(a[0].c, oid), Val(m)); if (ended) break;
        freeOp(Val(a[0].c, oid)); setRes(n, nv); break; }
    case X_READABLE: {
        Val p = a[0]; if (!p.obj) { int i = findAddr(p.e ? evalExpr(p.e, *s->m) : p.c); if (i < 0) { setRes(n, Val(0)); break; } p.obj = s->objs[i].first; }
        int i = findId(p.obj); if (i < 0) { setRes(n, Val(0)); break; } Obj* o = get(i); Expr* sz = o->esize ? o->esize : mkC(o->size, 64); Expr* off = mkBin(SUB, ex(p, 64), mkC(o->base, 64)); Expr* ln = ex(a[1], 64);
        setRes(n, mkV(mkZext(mkBin(AND, mkCmp(ULE, off, sz), mkCmp(ULE, ln, mkBin(SUB, sz, off))), 32))); break; }
    case X_MEMCPY: case X_MEMMOVE: if (memcpyOp(a[0], a[1], a[2])) setRes(n, a[0]); break;
    case X_MEMSET: if (memsetOp(a[0], a[1], a[2])) setRes(n, a[0]); break;
    case X_SETJMP: {
        u64 id = s->nextJmp; auto j = std::make_shared<Jmp>(); j->uid = f.uid; j->b = f.b; j->ip = f.ip; j->ins = &n;
        std::vector<std::pair<u32, u8>> L{{0, 64}}; Val v(id ^ 0x5e17000000000000ULL);
        if (!store(a[0], L, 8, &v)) break;
        s->nextJmp++;
        for (auto& pr : s->st.back().prom) { int i = findId(pr.first); if (i < 0) continue; Obj* o = get(i); j->snaps.push_back(Snap{pr.first, o->c, o->f, o->s, o->prov}); }
        s->jmps[id] = j; setRes(n, Val(0)); break; }
    case X_LONGJMP: {
        std::vector<std::pair<u32, u8>> L{{0, 64}}; Val v; if (!load(a[0], L, 8, &v)) break;
        u64 id = v.e ? 0 : v.c ^ 0x5e17000000000000ULL; auto it = s->jmps.find(id);
        if (it == s->jmps.end()) { error("control", "longjmp through a buffer that holds no context"); break; }
        auto j = it->second; size_t k = s->st.size(); while (k > 0 && s->st[k - 1].uid != j->uid) k--;
        if (k == 0) { error("control", "longjmp into a function that has returned"); break; }
        u64 val = concretize(a[1]); if (ended) break;
        /* locals of the setjmp function changed since setjmp and not volatile are indeterminate: current or old value */
        bool differ = false;
        for (auto& sn : j->snaps) { int i = findId(sn.obj); if (i < 0) continue; Obj* o = get(i); if (o->c != sn.c || o->f != sn.f || o->s != sn.s) differ = true; }
        if (differ && !s->jmpChosen) { State* t = new State(*s); t->jmpChosen = true; t->depth++; g_work.push_back(t);
            /* this state: old values */
            for (auto& sn : j->snaps) { int i = findId(sn.obj); if (i < 0) continue; Obj* o = getW(i); o->c = sn.c; o->f = sn.f; o->s = sn.s; o->prov = sn.prov; } }
        s->jmpChosen = false;
        while (s->st.size() > k) popFrame();
        Frame& g = s->st.back(); g.b = j->b; g.ip = j->ip + 1; if (j->ins->dst >= 0) g.r[j->ins->dst] = Val((val ? val : 1) & 0xFFFFFFFF);
        break; }
    case X_EXIT: error("control", "exit() called"); break;
    case X_ABORT: error("control", "trap or abort() executed"); break;
    case X_ASSERTFAIL: error("control", "assert() failed: " + cstr(a[0])); break;
    case X_INTRIN: {
        auto id = n.callee->getIntrinsicID(); unsigned w = n.w;
        switch (id) {
        case Intrinsic::umax: setRes(n, mkV(mkIte(mkCmp(ULT, ex(a[0], w), ex(a[1], w)), ex(a[1], w), ex(a[0], w)))); break;
        case Intrinsic::umin: setRes(n, mkV(mkIte(mkCmp(ULT, ex(a[0], w), ex(a[1], w)), ex(a[0], w), ex(a[1], w)))); break;
        case Intrinsic::smax: setRes(n, mkV(mkIte(mkCmp(SLT, ex(a[0], w), ex(a[1], w)), ex(a[1], w), ex(a[0], w)))); break;
        case Intrinsic::smin: setRes(n, mkV(mkIte(mkCmp(SLT, ex(a[0], w), ex(a[1], w)), ex(a[0], w), ex(a[1], w)))); break;
        case Intrinsic::abs: { Expr* x = ex(a[0], w); setRes(n, mkV(mkIte(mkCmp(SLT, x, mkC(0, w)), mkBin(SUB, mkC(0, w), x), x))); break; }
        case Intrinsic::bswap: { Expr* x = ex(a[0], w); Expr* r = mkExtract(x, w - 8, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(mkExtract(x, w - 8 - 8 * i, 8), r); setRes(n, mkV(r)); break; }
        case Intrinsic::fshl: case Intrinsic::fshr: { if (a[2].e) { incomplete("intrinsic"); break; } unsigned sh = (unsigned)(a[2].c % w); if (id == Intrinsic::fshr) sh = (w - sh) % w; Expr *h = ex(a[0], w), *l = ex(a[1], w); if (sh == 0) { setRes(n, id == Intrinsic::fshl ? a[0] : a[1]); break; } setRes(n, mkV(mkBin(OR, mkBin(SHL, h, mkC(sh, w)), mkBin(LSHR, l, mkC(w - sh, w))))); break; }
        case Intrinsic::usub_sat: { Expr *x = ex(a[0], w), *y = ex(a[1], w); setRes(n, mkV(mkIte(mkCmp(ULT, x, y), mkC(0, w), mkBin(SUB, x, y)))); break; }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: { unsigned ww = n.argw[0]; Expr *x = ex(a[0], ww), *y = ex(a[1], ww); Expr* r = mkBin(id == Intrinsic::uadd_with_overflow ? ADD : SUB, x, y); s->st.back().r[n.dst] = mkV(r); s->st.back().r[n.dst + 1] = mkV(id == Intrinsic::uadd_with_overflow ? mkCmp(ULT, r, x) : mkCmp(ULT, x, y)); break; }
        case Intrinsic::expect: setRes(n, a[0]); break;
        case Intrinsic::ctpop: { Expr* x = ex(a[0], w); Expr* r = mkC(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(x, i, 1), w)); setRes(n, mkV(r)); break; }
        case Intrinsic::objectsize: setRes(n, Val(maskw(w))); break;
        case Intrinsic::vastart: {
            if (!f.va) { incomplete("va_start outside a variadic function"); break; }
            int i = findId(f.va); u64 b = get(i)->base; Val p = a[0]; std::vector<std::pair<u32, u8>> L{{0, 32}, {4, 32}, {8, 64}, {16, 64}};
            Val v[4] = {Val(48), Val(304), Val(b, f.va), Val(0)}; store(p, L, 24, v); break; }
        case Intrinsic::vacopy: { std::vector<std::pair<u32, u8>> L{{0, 32}, {4, 32}, {8, 64}, {16, 64}}; Val v[4]; if (load(a[1], L, 24, v)) store(a[0], L, 24, v); break; }
        default: incomplete(("intrinsic " + n.callee->getName().str()).c_str());
        }
        break; }
    default: incomplete(("call of a function with no model: " + (n.callee ? n.callee->getName().str() : std::string("?"))).c_str());
    }
}

void Exec::run()
{
    std::vector<Val> args;
    u64 chk = 0;
    while (!ended) {
        if ((++chk & 0xFFF) == 0 && over()) { incomplete(g_sh->stop ? "stopped" : "time budget"); break; }
        if (++s->steps > g_maxSteps) { error("nonterm", "no end within the step limit"); break; }
        r_steps++;
        Frame& f = s->st.back(); const Ins& n = f.b->ins[f.ip]; cur = &n;
        auto V = [&](int i) -> const Val& { const Opd& o = n.o[i]; return o.slot >= 0 ? f.r[o.slot] : o.c; };
        switch (n.k) {
        case I_BIN: {
            const Val &a = V(0), &b = V(1); u32 obj = n.w == 64 ? (a.obj && !b.obj ? a.obj : !a.obj && b.obj && n.op != SUB ? b.obj : 0) : 0;
            if (n.op == UDIV || n.op == SDIV || n.op == UREM || n.op == SREM) { if (b.e ? !decide(mkNot(mkEq(b.e, mkC(0, n.w)))) : b.c == 0) { error("arith", "division by zero"); break; } if (ended) break; }
            if (!a.e && !b.e) f.r[n.dst] = Val(foldBin(n.op, a.c, b.c, n.w), obj); else { Val t = mkV(mkBin(n.op, ex(a, n.w), ex(b, n.w)), obj); f.r[n.dst] = t; }
            f.ip++; break; }
        case I_ICMP: {
            const Val &a = V(0), &b = V(1);
            if (!a.e && !b.e) { u64 x = a.c, y = b.c; bool r; i64 p = sx(x, n.w), q = sx(y, n.w);
                switch (n.pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; case CmpInst::ICMP_SGT: r = p > q; break; default: r = p >= q; }
                f.r[n.dst] = Val(r);
            } else { Expr *x = ex(a, n.w), *y = ex(b, n.w), *r;
                switch (n.pred) { case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break; case CmpInst::ICMP_ULT: r = mkCmp(ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkCmp(ULE, x, y); break; case CmpInst::ICMP_UGT: r = mkCmp(ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkCmp(ULE, y, x); break; case CmpInst::ICMP_SLT: r = mkCmp(SLT, x, y); break; case CmpInst::ICMP_SLE: r = mkCmp(SLE, x, y); break; case CmpInst::ICMP_SGT: r = mkCmp(SLT, y, x); break; default: r = mkCmp(SLE, y, x); }
                f.r[n.dst] = mkV(r); }
            f.ip++; break; }
        case I_SELECT: {
            Val c = V(0); if (c.e) { if (s->known->count(c.e)) c = Val(1); else if (s->known->count(mkNot(c.e))) c = Val(0); }
            if (!c.e) { int k = c.c ? 1 : 1 + n.n; for (int i = 0; i < n.n; i++) { Val t = V(k + i); f.r[n.dst + i] = t; } f.ip++; break; }
            bool ptr = false; for (int i = 0; i < n.n; i++) if (V(1 + i).obj != V(1 + n.n + i).obj) ptr = true;
            if (ptr) { bool d = decide(c.e); if (ended) break; int k = d ? 1 : 1 + n.n; Frame& g = s->st.back(); for (int i = 0; i < n.n; i++) { const Opd& o = n.o[k + i]; Val t = o.slot >= 0 ? g.r[o.slot] : o.c; g.r[n.dst + i] = t; } g.ip++; break; }
            for (int i = 0; i < n.n; i++) { unsigned w = n.lay[i].second; Val t = mkV(mkIte(c.e, ex(V(1 + i), w), ex(V(1 + n.n + i), w)), V(1 + i).obj); f.r[n.dst + i] = t; }
            f.ip++; break; }
        case I_ZEXT: { const Val& a = V(0); Val t = a.e ? mkV(mkZext(a.e, n.w2)) : Val(a.c); f.r[n.dst] = t; f.ip++; break; }
        case I_SEXT: { const Val& a = V(0); Val t = a.e ? mkV(mkSext(a.e, n.w2)) : Val((u64)sx(a.c, n.w) & maskw(n.w2)); f.r[n.dst] = t; f.ip++; break; }
        case I_TRUNC: { const Val& a = V(0); Val t = a.e ? mkV(mkExtract(a.e, 0, n.w2)) : Val(a.c & maskw(n.w2)); f.r[n.dst] = t; f.ip++; break; }
        case I_MOVE: { Val t[16]; if (n.n > 16) { incomplete("wide aggregate"); break; } for (int i = 0; i < n.n; i++) t[i] = V(i); for (int i = 0; i < n.n; i++) f.r[n.dst + i] = t[i]; f.ip++; break; }
        case I_LOAD: { Val t[40]; if (n.lay.size() > 40) { incomplete("wide aggregate"); break; } if (!load(V(0), n.lay, n.sz, t) || ended) break; for (size_t i = 0; i < n.lay.size(); i++) f.r[n.dst + i] = t[i]; f.ip++; break; }
        case I_STORE: { Val t[40]; if (n.lay.size() > 40) { incomplete("wide aggregate"); break; } for (size_t i = 0; i < n.lay.size(); i++) t[i] = V(1 + (int)i); if (!store(V(0), n.lay, n.sz, t) || ended) break; f.ip++; break; }
        case I_GEP: {
            Val p = V(0); Val r = p; bool sym = p.e;
            for (size_t i = 0; i < n.sc.size(); i++) sym |= V(1 + (int)i).e != 0;
            if (!sym) { r.c = p.c + n.off; for (size_t i = 0; i < n.sc.size(); i++) r.c += n.sc[i] * (u64)sx(V(1 + (int)i).c, n.argw[i]); }
            else { Expr* e = mkBin(ADD, ex(p, 64), mkC(n.off, 64)); for (size_t i = 0; i < n.sc.size(); i++) e = mkBin(ADD, e, mkBin(MUL, mkSext(ex(V(1 + (int)i), n.argw[i]), 64), mkC(n.sc[i], 64))); r = mkV(e, p.obj); }
            f.r[n.dst] = r; f.ip++; break; }
        case I_ALLOCA: { u64 k = concretize(V(0)); if (ended) break; u32 id = newBytes(n.sz * k, "stack", false); f.allocas.push_back(id); if (n.promotable) f.prom.push_back({id, 0}); f.r[n.dst] = Val(s->objs.back().second->base, id); f.ip++; break; }
        case I_BR: jump(f, n.t); break;
        case I_CBR: { const Val& c = V(0); bool d = c.e ? decide(c.e) : (c.c & 1); if (ended) break; jump(s->st.back(), d ? n.t : n.f); break; }
        case I_SWITCH: { const Val c = V(0); Blk* t = n.f; for (auto& k : n.cases) { if (c.e ? decide(mkEq(c.e, mkC(k.first, n.w))) : c.c == k.first) { t = k.second; break; } if (ended) break; } if (ended) break; jump(s->st.back(), t); break; }
        case I_UNREACH: error("control", "unreachable code executed"); break;
        case I_RET: {
            Val t[16]; size_t k = n.o.size(); if (k > 16) { incomplete("wide return"); break; } for (size_t i = 0; i < k; i++) t[i] = V((int)i);
            const Ins* c = f.call; popFrame();
            if (s->st.empty()) { r_done++; finish(); break; }
            Frame& g = s->st.back(); if (c->dst >= 0) for (size_t i = 0; i < k && (int)i < c->n; i++) g.r[c->dst + i] = t[i];
            g.ip++; break; }
        case I_CALL: {
            args.clear(); for (size_t i = 1; i < n.o.size(); i++) args.push_back(V((int)i));
            Function* F = n.callee;
            if (!F && n.ext < 0) { Val p = V(0); u64 a = p.e ? concretize(p) : p.c; if (ended) break; auto it = g_faddr.find(a); if (it == g_faddr.end()) { error("control", a ? "call through a pointer that is no function" : "call through a null pointer"); break; } F = it->second; }
            if (n.ext >= 0 || F->isDeclaration()) {
                const Ins* in = &n; Ins tmp; if (n.ext < 0) { tmp = n; tmp.ext = extId(F->getName()); tmp.callee = F; in = &tmp; if (tmp.ext == X_SETJMP) { incomplete("setjmp through a pointer"); break; } }
                size_t depth = s->st.size(); u32 uid = f.uid; bool lj = in->ext == X_LONGJMP; (void)depth; (void)uid;
                extCall(*in, f, args); if (ended) break; if (!lj) s->st.back().ip++; break; }
            enter(F, args.data(), n.argn, &n); break; }
        default: { std::string o; raw_string_ostream os(o); n.I->print(os); incomplete(("unsupported instruction " + os.str()).c_str()); }
        }
    }
}

static void initGlobal(Obj* o, u64 off, const Constant* C)
{
    Type* T = C->getType();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return;
    if (auto* D = dyn_cast<ConstantDataSequential>(C)) { u64 es = DL->getTypeAllocSize(D->getElementType()); for (unsigned i = 0; i < D->getNumElements(); i++) initGlobal(o, off + es * i, D->getElementAsConstant(i)); return; }
    if (auto* S = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initGlobal(o, off + L->getElementOffset(i), S->getOperand(i)); return; }
    if (auto* A = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initGlobal(o, off + es * i, A->getOperand(i)); return; }
    if (T->isFloatingPointTy()) { APInt b = cast<ConstantFP>(C)->getValueAPF().bitcastToAPInt(); for (unsigned i = 0; i < b.getBitWidth() / 8 && i < 8; i++) o->c[off + i] = (u8)(b.getZExtValue() >> (8 * i)); return; }
    Val v = constVal(C); u64 n = DL->getTypeStoreSize(T); for (u64 i = 0; i < n && i < 8; i++) o->c[off + i] = (u8)(v.c >> (8 * i));
    if (v.obj) o->prov[(u32)off] = v.obj;
}
static void writeAll(int fd, const std::string& s) { size_t k = 0; while (k < s.size()) { ssize_t r = write(fd, s.data() + k, s.size() - k); if (r <= 0) break; k += (size_t)r; } }
static std::string g_outPath;
static void dumpResults()
{
    std::string o = r_errs + r_samp;
    char b[1024]; snprintf(b, sizeof b, "{\"t\":\"stat\",\"paths\":%llu,\"done\":%llu,\"steps\":%llu,\"forks\":%llu,\"asserts\":%llu,\"assertq\":%llu,\"bounds\":%llu,\"incomplete\":%llu,\"queries\":%llu,\"cached\":%llu,\"model_hits\":%llu,\"unknown\":%llu,\"external\":%llu,\"solver_s\":%.3f,\"exprs\":%zu,\"assume_stop\":%llu", (unsigned long long)r_paths, (unsigned long long)r_done, (unsigned long long)r_steps, (unsigned long long)r_forks, (unsigned long long)r_asserts, (unsigned long long)r_assertQ, (unsigned long long)r_bounds, (unsigned long long)r_incomplete, (unsigned long long)g_queries, (unsigned long long)g_cacheHits, (unsigned long long)g_modelHits, (unsigned long long)g_unknown, (unsigned long long)g_external, g_solveTime, g_exprs.size(), (unsigned long long)r_assumeStop);
    o += b; o += ",\"covers\":{"; bool first = true; for (auto& p : r_covers) { if (!first) o += ","; first = false; o += "\"" + jesc(p.first) + "\":" + std::to_string(p.second); }
    o += "},\"asserted\":{"; first = true; for (auto& p : r_assertSeen) { if (!first) o += ","; first = false; o += "\"" + jesc(p.first) + "\":" + std::to_string(p.second); }
    o += "},\"why\":["; first = true; for (auto& p : r_incWhy) { if (!first) o += ","; first = false; o += "\"" + jesc(p) + "\""; }
    o += "],\"funcs\":["; first = true;
    for (auto& p : g_fns) if (p.second && p.second->used) { u32 seen = 0; for (auto& x : p.second->blks) seen += x->seen; if (!first) o += ","; first = false; o += "[\"" + jesc(p.first->getName().str()) + "\",\"" + jesc(p.second->file) + "\"," + std::to_string(seen) + "," + std::to_string(p.second->blks.size()) + "]"; }
    o += "]}\n";
    std::string path = g_outPath + "." + std::to_string(getpid()); int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); writeAll(fd, o); close(fd);
}
/* A query may ignore its resource limit: it is interrupted after a while, and if that does not help either the worker ends with what it has. */
static void closeWorkers();
static void onAlarm(int)
{
    if (!g_queryT || !g_sh) return;
    double t = now() - g_queryT, lim = over() ? 3 : g_queryLimit;
    if (t > lim) Z3_interrupt(zc);
    if (t > lim + 20) {
        g_queryT = 0; g_unknown++; r_incomplete += 1 + g_work.size(); r_incWhy.insert("a solver query did not end"); dumpResults();
        __sync_sub_and_fetch(&g_sh->live, 1);
        if (!g_isChild) closeWorkers();
        _exit(0);
    }
}
static void startTimer() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, 0); struct itimerval it = {{0, 250000}, {0, 250000}}; setitimer(ITIMER_REAL, &it, 0); }
static void onStop(int) { if (g_sh) g_sh->stop = 1; }
static int g_bad;
static void closeWorkers() { for (;;) { int ws = 0; pid_t p = waitpid(-1, &ws, 0); if (p < 0 && errno == EINTR) continue; if (p < 0) break; if (!WIFEXITED(ws) || WEXITSTATUS(ws)) { fprintf(stderr, "a worker died (status %d)\n", ws); g_bad = 1; } } }
static void explore()
{
    while (!g_work.empty()) {
        if (over()) { r_incomplete += g_work.size(); r_incWhy.insert(g_sh->stop ? "stopped" : "time budget"); break; }
        if (g_maxWorkers > 1 && g_work.size() >= 2 && g_sh->live < g_maxWorkers) {
            int v = __sync_add_and_fetch(&g_sh->live, 1);
            if (v > g_maxWorkers) __sync_sub_and_fetch(&g_sh->live, 1);
            else {
                pid_t p = fork();
                if (p == 0) {   /* child: the older half (shallow states: large subtrees), every other one */
                    g_isChild = 1; startTimer(); std::vector<State*> w; for (size_t i = 0; i < g_work.size(); i++) if (i % 2 == 0) w.push_back(g_work[i]); g_work.swap(w);
                    r_errs.clear(); r_samp.clear(); r_nsamp = 0; r_paths = r_done = r_steps = r_forks = r_asserts = r_assertQ = r_bounds = r_incomplete = r_assumeStop = 0; g_queries = g_cacheHits = g_modelHits = g_unknown = g_external = 0; g_solveTime = 0; r_covers.clear(); r_assertSeen.clear(); r_incWhy.clear(); g_rng ^= (u64)getpid() * 0x9E3779B97F4A7C15ULL;
                } else if (p > 0) { std::vector<State*> w; for (size_t i = 0; i < g_work.size(); i++) if (i % 2 == 1) w.push_back(g_work[i]); else delete g_work[i]; g_work.swap(w); }
                else __sync_sub_and_fetch(&g_sh->live, 1);
            }
        }
        State* st = g_work.back(); g_work.pop_back();
        Exec x; x.s = st; u64 d0 = r_done; g_known = &st->known; x.run(); g_known = nullptr; r_paths++;
        if (r_done > d0) {   /* a completed path: keep some with their predicted observations */
            g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17;
            bool un = false; if (!g_unVars.empty()) { auto chk = [&](Expr* e) { if (e) for (u32 k : *varsOf(e)) if (g_unVars.count(k)) { un = true; return; } }; for (Expr* e : st->cons) { chk(e); if (un) break; } for (auto& l : st->log) chk(l.v.e); }
            if (!un && (r_nsamp < g_samples || g_rng % (r_nsamp + 1) < g_samples)) { if (r_nsamp < 4 * g_samples) r_samp += "{\"t\":\"path\",\"nd\":" + x.ndJson(*st->m) + ",\"log\":" + x.logJson(*st->m) + "}\n"; r_nsamp++; }
        }
        delete st;
    }
}
int main(int argc, char** argv)
{
    /* expressions over many values nest deeply: start again with a larger stack */
    struct rlimit rl; const rlim_t want = (rlim_t)2 << 30;
    if (!getenv("VSE_STACK") && !getrlimit(RLIMIT_STACK, &rl) && rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want && rl.rlim_max > rl.rlim_cur)
    {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > want ? want : rl.rlim_max;
        setenv("VSE_STACK", "1", 1);
        if (!setrlimit(RLIMIT_STACK, &rl)) execv("/proc/self/exe", argv);
    }
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    double t0 = now(); const char* in = 0; double tl = 600;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-o") g_outPath = argv[++i]; else if (a == "--workers") g_maxWorkers = atoi(argv[++i]); else if (a == "--time") tl = atof(argv[++i]); else if (a == "--steps") g_maxSteps = strtoull(argv[++i], 0, 0); else if (a == "--max-errors") g_maxErr = atoi(argv[++i]); else if (a == "--samples") g_samples = atoi(argv[++i]); else if (a == "--rlimit") g_rlimit = atoi(argv[++i]); else in = argv[i]; }
    g_extBase = g_outPath + "-ext"; if (!in || g_outPath.empty()) { fprintf(stderr, "usage: vse -o OUT [--workers N] [--time S] [--steps N] module.ll\n"); return 2; }
    LLVMContext C; SMDiagnostic err; auto M = parseIRFile(in, err, C); if (!M) { err.print("vse", errs()); return 2; }
    g_M = M.get(); DL = &M->getDataLayout(); zInit(); g_deadline = t0 + tl;
    g_sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_sh->live = 1; { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onStop; sa.sa_flags = SA_RESTART; sigaction(SIGUSR1, &sa, 0); } startTimer();
    State* st = new State; st->known = std::make_shared<std::unordered_set<Expr*>>(); st->m = std::make_shared<Model>(); Exec x; x.s = st;
    for (auto& F : *M) { ObjP o = std::make_shared<Obj>(); o->size = 1; o->func = true; o->kind = "function"; u32 id = x.addObj(o, 1); g_gaddr[&F] = {o->base, id}; g_faddr[o->base] = &F; }
    for (auto& G : M->globals()) { if (G.getName().starts_with("llvm.")) continue; u64 n = DL->getTypeAllocSize(G.getValueType()); u32 id = x.newBytes(n, "global", false); g_gaddr[&G] = {st->objs.back().second->base, id}; Obj* o = st->objs.back().second.get(); std::fill(o->f.begin(), o->f.end(), B_CONC); }
    for (auto& G : M->globals()) { if (G.getName().starts_with("llvm.")) continue; int i = x.findId(g_gaddr[&G].second); Obj* o = x.getW(i); if (G.hasInitializer()) initGlobal(o, 0, G.getInitializer()); o->ro = G.isConstant(); }
    Function* F = M->getFunction("vf_main"); if (!F || F->isDeclaration()) { fprintf(stderr, "no vf_main\n"); return 2; }
    std::vector<int> none; x.enter(F, 0, none, 0);
    {   /* reachability witnesses and assertions present in the module */
        std::string o = "{\"t\":\"module\",\"covers\":["; std::set<std::string> cv, as;
        for (auto& FF : *M) for (auto& BB : FF) for (auto& II : BB) if (auto* CI = dyn_cast<CallInst>(&II)) if (Function* K = CI->getCalledFunction()) {
            bool c = K->getName() == "v_cover", a = K->getName() == "v_assert"; if (!c && !a) continue;
            if (auto* GV = dyn_cast<GlobalVariable>(CI->getArgOperand(c ? 0 : 1)->stripPointerCasts())) if (GV->hasInitializer()) if (auto* CD = dyn_cast<ConstantDataSequential>(GV->getInitializer())) if (CD->isCString()) (c ? cv : as).insert(CD->getAsCString().str()); }
        bool first = true; for (auto& q : cv) { if (!first) o += ","; first = false; o += "\"" + jesc(q) + "\""; } o += "],\"asserts\":["; first = true; for (auto& q : as) { if (!first) o += ","; first = false; o += "\"" + jesc(q) + "\""; } o += "]}\n";
        r_errs += o;
    }
    g_work.push_back(st); explore();
    dumpResults();
    __sync_sub_and_fetch(&g_sh->live, 1);
    if (g_isChild) _exit(0);
    closeWorkers();
    fprintf(stderr, "wall %.2f\n", now() - t0);
    return g_bad ? 3 : 0;
}
