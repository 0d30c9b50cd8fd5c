// zsym: a symbolic executor for LLVM 18 bitcode, deciding path conditions and assertions with Z3.
//
// The program (the code under test, compiled by clang from the current sources, plus a harness) is
// executed from main(). Nondeterministic inputs are symbolic bit-vectors. Each branch on a symbolic
// condition is decided by the solver; both sides are explored when both are satisfiable. Exploration
// is by re-execution: a path is a list of decisions, replayed from the start (no state copying).
// Every assertion on every feasible path is discharged by showing its negation unsatisfiable under the
// path condition, or reported with a model. Memory accesses are checked (bounds, liveness, null).
#include "expr.h"
#include <z3.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;
typedef std::chrono::steady_clock Clock;
static double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

static ExprPool P;

// ---------------------------------------------------------------- decoded program
struct Opd { int32_t reg; uint64_t imm; };
enum IOp : uint8_t { I_BIN, I_ICMP, I_SELECT, I_LOAD, I_STORE, I_GEP, I_BR, I_JMP, I_SWITCH, I_CALL, I_RET, I_ALLOCA,
    I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_FBIN, I_FCMP, I_FCVT, I_UNREACH, I_BUILTIN, I_CALLIND };

struct Func;
struct Instr {
    IOp op; uint8_t sub = 0; uint8_t w = 0, w2 = 0;
    bool covered = false;
    int32_t dst = -1; uint16_t nslots = 0;
    Opd a{-1, 0}, b{-1, 0}, c{-1, 0};
    std::vector<Opd> args;
    std::vector<uint64_t> scale;       // gep scales / switch case values / call arg widths
    std::vector<uint8_t> widths;       // widths of args / ret slots
    uint32_t t1 = 0, t2 = 0;           // branch targets (edge indexes)
    std::vector<uint32_t> targets;
    Func *callee = nullptr; int builtin = -1;
    uint32_t line = 0; uint32_t nfixed = 0;
    const char *name = nullptr;
};
struct Edge { uint32_t target; std::vector<std::pair<int32_t, Opd>> copies; };
struct Func {
    std::string name, file; uint32_t nregs = 0; std::vector<Instr> code; std::vector<Edge> edges;
    uint64_t addr = 0; bool decl = true; uint32_t nparams = 0; std::vector<uint8_t> paramw; bool vararg = false; bool hit = false; bool skip = false; int builtin = -1;
    uint64_t steps = 0;
};
struct Val { uint64_t c; Expr *e; };

struct GlobalInit { uint64_t addr, size; std::vector<uint8_t> data; bool cst; std::string name; bool keep; };

static std::vector<std::unique_ptr<Func>> funcs;
static std::map<uint64_t, Func *> funcByAddr;
static std::map<std::string, Func *> funcByName;
static std::vector<GlobalInit> globals;
static std::map<const Value *, uint64_t> globalAddr;

// builtins
enum BI { B_NONE = -1, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STRLEN, B_NOP, B_EXIT, B_ABORT,
    B_ZASSERT, B_ZASSUME, B_ZCOVER, B_ZU, B_ZCHOICE, B_ZPARAM, B_ZNOTE, B_ZEND, B_CORO_START, B_CORO_RESUME, B_CORO_YIELD, B_RESETG, B_ISSYM,
    B_CONCR, B_ERRNO, B_VASTART, B_VAEND, B_VACOPY, B_CRC64, B_CRC32, B_CRC16, B_CRC8, B_BSWAP, B_ASSERTFAIL, B_TRAP, B_FABS, B_ALLOCSIZE, B_CTLZ, B_CTTZ, B_CTPOP, B_ABS, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_EXPECT, B_OVF, B_STACKSAVE, B_OBJSIZE, B_BADREAD, B_ZFAIL, B_PRINTS, B_FSHL, B_FSHR, B_ZMUTE, B_USAT, B_ADDRESSABLE, B_HEAP };
static std::map<std::string, int> builtinNames = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET},
    {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN},
    {"printf", B_NOP}, {"fprintf", B_NOP}, {"vprintf", B_NOP}, {"vfprintf", B_NOP}, {"puts", B_NOP}, {"putchar", B_NOP}, {"fputs", B_NOP}, {"fputc", B_NOP}, {"fflush", B_NOP}, {"perror", B_NOP}, {"fwrite", B_NOP}, {"setvbuf", B_NOP}, {"putc", B_NOP},
    {"_exit", B_EXIT}, {"_Exit", B_EXIT}, {"abort", B_ABORT},
    {"z_assert", B_ZASSERT}, {"z_assume", B_ZASSUME}, {"z_cover", B_ZCOVER}, {"z_nondet", B_ZU}, {"z_choice", B_ZCHOICE}, {"z_param", B_ZPARAM}, {"z_note", B_ZNOTE}, {"z_end", B_ZEND},
    {"z_coro_start", B_CORO_START}, {"z_coro_resume", B_CORO_RESUME}, {"z_coro_yield", B_CORO_YIELD}, {"z_reset_globals", B_RESETG}, {"z_is_symbolic", B_ISSYM}, {"z_concretize", B_CONCR}, {"z_fail", B_ZFAIL}, {"z_prints", B_PRINTS}, {"z_mute_memory", B_ZMUTE}, {"z_addressable", B_ADDRESSABLE}, {"z_heap", B_HEAP},
    {"__errno_location", B_ERRNO}, {"__assert_fail", B_ASSERTFAIL}, {"malloc_usable_size", B_ALLOCSIZE},
};

static Module *M;
static const DataLayout *DL;

[[noreturn]] static void fatal(const std::string &s) { fprintf(stderr, "zsym: %s\n", s.c_str()); exit(3); }

static unsigned nslots(Type *t) {
    if(t->isVoidTy()) return 0;
    if(auto *s = dyn_cast<StructType>(t)) { unsigned n = 0; for(Type *e : s->elements()) n += nslots(e); return n; }
    if(auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nslots(a->getElementType());
    return 1;
}
static unsigned widthOf(Type *t) {
    if(t->isIntegerTy()) return t->getIntegerBitWidth();
    if(t->isPointerTy()) return 64;
    if(t->isDoubleTy()) return 64;
    if(t->isFloatTy()) return 32;
    if(t->isX86_FP80Ty()) return 64;   // approximated by a double
    return 0;
}
struct SlotInfo { unsigned w; uint64_t off; };
static void slotsOf(Type *t, uint64_t off, std::vector<SlotInfo> &out) {
    if(t->isVoidTy()) return;
    if(auto *s = dyn_cast<StructType>(t)) { const StructLayout *l = DL->getStructLayout(s); for(unsigned i = 0; i < s->getNumElements(); i++) slotsOf(s->getElementType(i), off + l->getElementOffset(i), out); return; }
    if(auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for(uint64_t i = 0; i < a->getNumElements(); i++) slotsOf(a->getElementType(), off + i * es, out); return; }
    out.push_back({widthOf(t), off});
}

static uint64_t constVal(const Constant *c);
static uint64_t constGEP(const GEPOperator *g) {
    APInt off(64, 0);
    uint64_t base = constVal(cast<Constant>(g->getPointerOperand()));
    if(!g->accumulateConstantOffset(*DL, off)) fatal("non-constant gep constant expression");
    return base + off.getSExtValue();
}
static uint64_t constVal(const Constant *c) {
    if(auto *ci = dyn_cast<ConstantInt>(c)) { if(ci->getBitWidth() > 64) fatal("wide integer constant"); return ci->getZExtValue(); }
    if(isa<ConstantPointerNull>(c)) return 0;
    if(isa<UndefValue>(c)) return 0xbebebebebebebebeULL & maskw(widthOf(c->getType()) ? widthOf(c->getType()) : 64);
    if(auto *cf = dyn_cast<ConstantFP>(c)) {
        if(c->getType()->isDoubleTy() || c->getType()->isFloatTy()) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
        APFloat f = cf->getValueAPF(); bool lossy; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lossy); return f.bitcastToAPInt().getZExtValue();
    }
    if(isa<GlobalValue>(c)) { auto it = globalAddr.find(c); if(it == globalAddr.end()) fatal("unknown global " + c->getName().str()); return it->second; }
    if(auto *ce = dyn_cast<ConstantExpr>(c)) {
        unsigned w = widthOf(ce->getType());
        switch(ce->getOpcode()) {
            case Instruction::GetElementPtr: return constGEP(cast<GEPOperator>(ce));
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: case Instruction::Trunc: case Instruction::AddrSpaceCast:
                return constVal(ce->getOperand(0)) & maskw(w);
            case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & maskw(w);
            case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & maskw(w);
        }
        fatal(std::string("constant expression ") + ce->getOpcodeName());
    }
    if(isa<ConstantAggregateZero>(c)) return 0;
    std::string s; raw_string_ostream os(s); c->print(os); fatal("constant " + s);
}
static void flattenConst(const Constant *c, std::vector<uint64_t> &out) {
    unsigned n = nslots(c->getType());
    if(c->getType()->isAggregateType()) {
        if(isa<ConstantAggregateZero>(c)) { out.insert(out.end(), n, 0); return; }
        if(isa<UndefValue>(c)) { out.insert(out.end(), n, 0xbebebebebebebebeULL); return; }
        for(unsigned i = 0; i < c->getNumOperands(); i++) flattenConst(cast<Constant>(c->getOperand(i)), out);
        return;
    }
    out.push_back(constVal(c));
}
static void writeInit(const Constant *c, uint8_t *p) {
    Type *t = c->getType();
    uint64_t sz = DL->getTypeAllocSize(t);
    if(isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { memset(p, 0, sz); return; }
    if(isa<UndefValue>(c)) return;
    if(auto *cd = dyn_cast<ConstantDataSequential>(c)) { memcpy(p, cd->getRawDataValues().data(), cd->getRawDataValues().size()); return; }
    if(auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i = 0; i < ca->getNumOperands(); i++) writeInit(ca->getOperand(i), p + i * es); return; }
    if(auto *cs = dyn_cast<ConstantStruct>(c)) { const StructLayout *l = DL->getStructLayout(cs->getType()); for(unsigned i = 0; i < cs->getNumOperands(); i++) writeInit(cs->getOperand(i), p + l->getElementOffset(i)); return; }
    uint64_t v = constVal(c);
    memcpy(p, &v, std::min<uint64_t>(8, DL->getTypeStoreSize(t)));
}

static uint64_t bump = 0x10000000ULL;
static uint64_t bumpAlloc(uint64_t size) { uint64_t a = bump; bump += ((size + 15) & ~15ULL) + 512; return a; }

struct Decoder {
    Func *f; const Function *F; std::map<const Value *, int32_t> regs; std::map<const BasicBlock *, uint32_t> blockStart; std::vector<std::pair<const BasicBlock *, uint32_t>> order;
    std::vector<std::pair<uint32_t, std::pair<const BasicBlock *, const BasicBlock *>>> edgeFix;
    int32_t regOf(const Value *v) { auto it = regs.find(v); if(it != regs.end()) return it->second; int32_t r = f->nregs; f->nregs += std::max(1u, nslots(v->getType())); regs[v] = r; return r; }
    Opd opd(const Value *v, unsigned slot = 0) {
        if(auto *c = dyn_cast<Constant>(v)) {
            if(c->getType()->isAggregateType()) { std::vector<uint64_t> fl; flattenConst(c, fl); return {-1, fl[slot]}; }
            return {-1, constVal(c)};
        }
        if(isa<MetadataAsValue>(v)) return {-1, 0};
        return {regOf(v) + (int32_t) slot, 0};
    }
    uint32_t edge(const BasicBlock *from, const BasicBlock *to) {
        uint32_t id = f->edges.size(); f->edges.push_back({});
        edgeFix.push_back({id, {from, to}});
        return id;
    }
    void run() {
        for(const Argument &a : F->args()) { regOf(&a); }
        f->nparams = F->arg_size();
        for(const Argument &a : F->args()) f->paramw.push_back(widthOf(a.getType()));
        for(const BasicBlock &bb : *F) {
            blockStart[&bb] = f->code.size();
            for(const Instruction &i : bb) decode(i);
        }
        for(auto &ef : edgeFix) {
            Edge &e = f->edges[ef.first];
            e.target = blockStart[ef.second.second];
            for(const PHINode &phi : ef.second.second->phis()) {
                const Value *v = phi.getIncomingValueForBlock(ef.second.first);
                unsigned n = nslots(phi.getType());
                for(unsigned s = 0; s < n; s++) e.copies.push_back({regOf(&phi) + (int32_t) s, opd(v, s)});
            }
        }
    }
    void push(Instr &in, const Instruction &i) {
        if(DILocation *l = i.getDebugLoc()) { in.line = l->getLine(); while(l->getInlinedAt()) l = l->getInlinedAt(); }
        f->code.push_back(std::move(in));
    }
    void decode(const Instruction &i) {
        Instr in; Type *t = i.getType(); in.op = I_UNREACH;
        if(!t->isVoidTy()) { in.nslots = nslots(t); in.w = widthOf(t); if(in.w > 64) fatal("wide integer in " + f->name); in.dst = regOf(&i); }
        if(isa<PHINode>(i)) return;
        if(auto *b = dyn_cast<BinaryOperator>(&i)) {
            in.a = opd(b->getOperand(0)); in.b = opd(b->getOperand(1));
            switch(b->getOpcode()) {
                case Instruction::Add: in.sub = E_ADD; break; case Instruction::Sub: in.sub = E_SUB; break; case Instruction::Mul: in.sub = E_MUL; break;
                case Instruction::UDiv: in.sub = E_UDIV; break; case Instruction::SDiv: in.sub = E_SDIV; break; case Instruction::URem: in.sub = E_UREM; break; case Instruction::SRem: in.sub = E_SREM; break;
                case Instruction::And: in.sub = E_AND; break; case Instruction::Or: in.sub = E_OR; break; case Instruction::Xor: in.sub = E_XOR; break;
                case Instruction::Shl: in.sub = E_SHL; break; case Instruction::LShr: in.sub = E_LSHR; break; case Instruction::AShr: in.sub = E_ASHR; break;
                default: in.op = I_FBIN; in.sub = b->getOpcode(); push(in, i); return;
            }
            in.op = I_BIN; push(in, i); return;
        }
        if(auto *c = dyn_cast<ICmpInst>(&i)) {
            in.op = I_ICMP; in.sub = c->getPredicate(); in.a = opd(c->getOperand(0)); in.b = opd(c->getOperand(1)); in.w2 = widthOf(c->getOperand(0)->getType()); push(in, i); return;
        }
        if(auto *c = dyn_cast<FCmpInst>(&i)) { in.op = I_FCMP; in.sub = c->getPredicate(); in.a = opd(c->getOperand(0)); in.b = opd(c->getOperand(1)); in.w2 = widthOf(c->getOperand(0)->getType()); push(in, i); return; }
        if(isa<SelectInst>(i)) {
            in.op = I_SELECT; in.a = opd(i.getOperand(0));
            for(unsigned s = 0; s < in.nslots; s++) { in.args.push_back(opd(i.getOperand(1), s)); in.args.push_back(opd(i.getOperand(2), s)); }
            std::vector<SlotInfo> si; slotsOf(t, 0, si); for(auto &x : si) in.widths.push_back(x.w);
            push(in, i); return;
        }
        if(auto *l = dyn_cast<LoadInst>(&i)) {
            in.op = I_LOAD; in.a = opd(l->getPointerOperand());
            std::vector<SlotInfo> si; slotsOf(t, 0, si); for(auto &x : si) { in.widths.push_back(x.w); in.scale.push_back(x.off); }
            push(in, i); return;
        }
        if(auto *s = dyn_cast<StoreInst>(&i)) {
            in.op = I_STORE; in.a = opd(s->getPointerOperand());
            std::vector<SlotInfo> si; slotsOf(s->getValueOperand()->getType(), 0, si);
            for(unsigned k = 0; k < si.size(); k++) { in.args.push_back(opd(s->getValueOperand(), k)); in.widths.push_back(si[k].w); in.scale.push_back(si[k].off); if(si[k].w > 64) fatal("wide store"); }
            push(in, i); return;
        }
        if(auto *g = dyn_cast<GetElementPtrInst>(&i)) {
            in.op = I_GEP; in.a = opd(g->getPointerOperand()); uint64_t cst = 0;
            for(auto gi = gep_type_begin(g); gi != gep_type_end(g); ++gi) {
                const Value *idx = gi.getOperand();
                if(StructType *st = gi.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
                if(auto *ci = dyn_cast<ConstantInt>(idx)) { cst += es * ci->getSExtValue(); continue; }
                in.args.push_back(opd(idx)); in.widths.push_back(widthOf(idx->getType())); in.scale.push_back(es);
            }
            in.b = {-1, cst}; push(in, i); return;
        }
        if(auto *b = dyn_cast<BranchInst>(&i)) {
            if(b->isConditional()) { in.op = I_BR; in.a = opd(b->getCondition()); in.t1 = edge(i.getParent(), b->getSuccessor(0)); in.t2 = edge(i.getParent(), b->getSuccessor(1)); }
            else { in.op = I_JMP; in.t1 = edge(i.getParent(), b->getSuccessor(0)); }
            push(in, i); return;
        }
        if(auto *s = dyn_cast<SwitchInst>(&i)) {
            in.op = I_SWITCH; in.a = opd(s->getCondition()); in.w2 = widthOf(s->getCondition()->getType()); in.t1 = edge(i.getParent(), s->getDefaultDest());
            for(auto &c : s->cases()) { in.scale.push_back(c.getCaseValue()->getZExtValue()); in.targets.push_back(edge(i.getParent(), c.getCaseSuccessor())); }
            push(in, i); return;
        }
        if(auto *r = dyn_cast<ReturnInst>(&i)) {
            in.op = I_RET;
            if(r->getReturnValue()) { unsigned n = nslots(r->getReturnValue()->getType()); for(unsigned s = 0; s < n; s++) in.args.push_back(opd(r->getReturnValue(), s)); }
            push(in, i); return;
        }
        if(auto *a = dyn_cast<AllocaInst>(&i)) {
            in.op = I_ALLOCA; in.a = opd(a->getArraySize()); in.w2 = widthOf(a->getArraySize()->getType()); in.scale.push_back(DL->getTypeAllocSize(a->getAllocatedType())); push(in, i); return;
        }
        if(auto *c = dyn_cast<CastInst>(&i)) {
            in.a = opd(c->getOperand(0)); in.w2 = widthOf(c->getOperand(0)->getType());
            switch(c->getOpcode()) {
                case Instruction::ZExt: in.op = I_ZEXT; break; case Instruction::SExt: in.op = I_SEXT; break; case Instruction::Trunc: in.op = I_TRUNC; break;
                case Instruction::BitCast: case Instruction::AddrSpaceCast: in.op = I_MOV; break;
                case Instruction::PtrToInt: in.op = in.w < 64 ? I_TRUNC : I_MOV; break; case Instruction::IntToPtr: in.op = in.w2 < 64 ? I_ZEXT : I_MOV; break;
                default: in.op = I_FCVT; in.sub = c->getOpcode();
            }
            push(in, i); return;
        }
        if(isa<FreezeInst>(i)) { in.op = I_MOV; in.a = opd(i.getOperand(0)); push(in, i); return; }
        if(auto *e = dyn_cast<ExtractValueInst>(&i)) {
            uint64_t slot = 0; Type *ct = e->getAggregateOperand()->getType();
            for(unsigned idx : e->indices()) { if(auto *st = dyn_cast<StructType>(ct)) { for(unsigned k = 0; k < idx; k++) slot += nslots(st->getElementType(k)); ct = st->getElementType(idx); } else { ct = cast<ArrayType>(ct)->getElementType(); slot += idx * nslots(ct); } }
            for(unsigned s = 0; s < nslots(t); s++) { Instr m; m.op = I_MOV; m.dst = in.dst + s; m.w = 64; m.a = opd(e->getAggregateOperand(), slot + s); push(m, i); }
            return;
        }
        if(auto *e = dyn_cast<InsertValueInst>(&i)) {
            uint64_t slot = 0; Type *ct = t;
            for(unsigned idx : e->indices()) { if(auto *st = dyn_cast<StructType>(ct)) { for(unsigned k = 0; k < idx; k++) slot += nslots(st->getElementType(k)); ct = st->getElementType(idx); } else { ct = cast<ArrayType>(ct)->getElementType(); slot += idx * nslots(ct); } }
            unsigned n = nslots(ct);
            for(unsigned s = 0; s < nslots(t); s++) { Instr m; m.op = I_MOV; m.dst = in.dst + s; m.w = 64; m.a = (s >= slot && s < slot + n) ? opd(e->getInsertedValueOperand(), s - slot) : opd(e->getAggregateOperand(), s); push(m, i); }
            return;
        }
        if(isa<UnreachableInst>(i)) { in.op = I_UNREACH; push(in, i); return; }
        if(auto *u = dyn_cast<UnaryOperator>(&i)) { in.op = I_FBIN; in.sub = 255; in.a = opd(u->getOperand(0)); in.b = in.a; push(in, i); return; }
        if(auto *c = dyn_cast<CallInst>(&i)) { decodeCall(*c, in); return; }
        std::string s; raw_string_ostream os(s); i.print(os); fatal("unsupported instruction in " + f->name + ": " + s);
    }
    void decodeCall(const CallInst &c, Instr &in) {
        if(isa<DbgInfoIntrinsic>(c)) return;
        const Value *cv = c.getCalledOperand()->stripPointerCasts();
        for(const Value *a : c.args()) {
            if(isa<MetadataAsValue>(a)) continue;
            in.args.push_back(opd(a)); in.widths.push_back(widthOf(a->getType()));
            if(nslots(a->getType()) != 1) fatal("aggregate call argument in " + f->name);
        }
        in.op = I_CALL;
        if(auto *cf = dyn_cast<Function>(cv)) {
            std::string n = cf->getName().str();
            in.nfixed = cf->arg_size();
            if(cf->isIntrinsic()) {
                in.op = I_BUILTIN;
                if(n.rfind("llvm.memcpy", 0) == 0) in.builtin = B_MEMCPY; else if(n.rfind("llvm.memmove", 0) == 0) in.builtin = B_MEMMOVE; else if(n.rfind("llvm.memset", 0) == 0) in.builtin = B_MEMSET;
                else if(n.rfind("llvm.lifetime", 0) == 0 || n.rfind("llvm.assume", 0) == 0 || n.rfind("llvm.donothing", 0) == 0 || n.rfind("llvm.prefetch", 0) == 0 || n.rfind("llvm.stackrestore", 0) == 0) return;
                else if(n.rfind("llvm.stacksave", 0) == 0) in.builtin = B_STACKSAVE;
                else if(n.rfind("llvm.va_start", 0) == 0) in.builtin = B_VASTART; else if(n.rfind("llvm.va_end", 0) == 0) in.builtin = B_VAEND; else if(n.rfind("llvm.va_copy", 0) == 0) in.builtin = B_VACOPY;
                else if(n == "llvm.x86.sse42.crc32.64.64") in.builtin = B_CRC64; else if(n == "llvm.x86.sse42.crc32.32.32") in.builtin = B_CRC32; else if(n == "llvm.x86.sse42.crc32.32.16") in.builtin = B_CRC16; else if(n == "llvm.x86.sse42.crc32.32.8") in.builtin = B_CRC8;
                else if(n.rfind("llvm.bswap", 0) == 0) in.builtin = B_BSWAP; else if(n.rfind("llvm.trap", 0) == 0 || n.rfind("llvm.ubsantrap", 0) == 0) in.builtin = B_TRAP; else if(n.rfind("llvm.fabs", 0) == 0) in.builtin = B_FABS;
                else if(n.rfind("llvm.ctlz", 0) == 0) in.builtin = B_CTLZ; else if(n.rfind("llvm.cttz", 0) == 0) in.builtin = B_CTTZ; else if(n.rfind("llvm.ctpop", 0) == 0) in.builtin = B_CTPOP; else if(n.rfind("llvm.abs", 0) == 0) in.builtin = B_ABS;
                else if(n.rfind("llvm.umax", 0) == 0) in.builtin = B_UMAX; else if(n.rfind("llvm.umin", 0) == 0) in.builtin = B_UMIN; else if(n.rfind("llvm.smax", 0) == 0) in.builtin = B_SMAX; else if(n.rfind("llvm.smin", 0) == 0) in.builtin = B_SMIN;
                else if(n.rfind("llvm.fshl", 0) == 0) in.builtin = B_FSHL; else if(n.rfind("llvm.fshr", 0) == 0) in.builtin = B_FSHR;
                else if(n.rfind("llvm.expect", 0) == 0) in.builtin = B_EXPECT;
                else if(n.find(".with.overflow") != std::string::npos) { in.builtin = B_OVF; in.sub = n.find("uadd") != std::string::npos ? 0 : n.find("sadd") != std::string::npos ? 1 : n.find("usub") != std::string::npos ? 2 : n.find("ssub") != std::string::npos ? 3 : n.find("umul") != std::string::npos ? 4 : 5; }
                else if(n.rfind("llvm.usub.sat", 0) == 0) { in.builtin = B_USAT; in.sub = 0; } else if(n.rfind("llvm.uadd.sat", 0) == 0) { in.builtin = B_USAT; in.sub = 1; }
                else if(n.rfind("llvm.objectsize", 0) == 0) in.builtin = B_OBJSIZE;
                else fatal("unsupported intrinsic " + n + " in " + f->name);
                push(in, c); return;
            }
            auto bi = builtinNames.find(n);
            if(bi != builtinNames.end() && (bi->second != B_NOP || cf->isDeclaration())) { in.op = I_BUILTIN; in.builtin = bi->second; push(in, c); return; }
            in.callee = funcByName[n]; push(in, c); return;
        }
        if(isa<InlineAsm>(cv)) { in.op = I_BUILTIN; in.builtin = B_EXPECT; fatal("inline asm in " + f->name); }
        in.op = I_CALLIND; in.a = opd(c.getCalledOperand()); in.nfixed = c.getFunctionType()->getNumParams(); push(in, c);
    }
};

static std::set<std::string> keepFiles; // source basenames whose globals survive z_reset_globals
static std::set<std::string> skipFuncs;

static void loadModule(const char *path) {
    static LLVMContext ctx; SMDiagnostic err;
    static std::unique_ptr<Module> mod = parseIRFile(path, err, ctx);
    if(!mod) fatal("cannot parse " + std::string(path) + ": " + err.getMessage().str());
    M = mod.get(); DL = &M->getDataLayout();
    for(Function &F : *M) {
        if(F.isIntrinsic()) continue;
        auto f = std::make_unique<Func>(); f->name = F.getName().str(); f->decl = F.isDeclaration(); f->vararg = F.isVarArg();
        if(DISubprogram *sp = F.getSubprogram()) f->file = sp->getFilename().str();
        f->addr = bumpAlloc(16); globalAddr[&F] = f->addr; funcByAddr[f->addr] = f.get(); funcByName[f->name] = f.get();
        f->skip = skipFuncs.count(f->name) > 0;
        auto bi = builtinNames.find(f->name);
        if(bi != builtinNames.end() && (bi->second != B_NOP || f->decl)) f->builtin = bi->second;
        funcs.push_back(std::move(f));
    }
    for(GlobalVariable &G : M->globals()) {
        uint64_t sz = DL->getTypeAllocSize(G.getValueType());
        globalAddr[&G] = bumpAlloc(sz);
    }
    for(GlobalAlias &A : M->aliases()) globalAddr[&A] = globalAddr[A.getAliaseeObject()];
    for(GlobalVariable &G : M->globals()) {
        if(G.getName().starts_with("llvm.")) continue;
        GlobalInit gi; gi.addr = globalAddr[&G]; gi.size = DL->getTypeAllocSize(G.getValueType()); gi.cst = G.isConstant(); gi.name = G.getName().str();
        gi.data.assign(gi.size, 0);
        if(G.hasInitializer()) writeInit(G.getInitializer(), gi.data.data());
        gi.keep = false;
        SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
        if(!gv.empty()) { std::string fn = gv[0]->getVariable()->getFilename().str(); size_t p = fn.rfind('/'); if(p != std::string::npos) fn = fn.substr(p + 1); if(keepFiles.count(fn)) gi.keep = true; }
        globals.push_back(std::move(gi));
    }
    for(Function &F : *M) if(!F.isIntrinsic() && !F.isDeclaration()) { Decoder d; d.f = funcByName[F.getName().str()]; d.F = &F; d.run(); }
}

// ---------------------------------------------------------------- solver
struct Stats { uint64_t paths = 0, ended = 0, infeasible = 0, queries = 0, cacheHits = 0, quick = 0, unknown = 0, assertsSym = 0, assertsConc = 0, steps = 0, forks = 0; double solver = 0; };
static Stats S;
typedef std::vector<uint64_t> Model;

static uint32_t evEpoch = 1;
static uint64_t evalE(Expr *e, const Model &m) {
    if(e->op == E_CONST) return e->k;
    if(e->evEpoch == evEpoch) return e->evVal;
    uint64_t v;
    switch(e->op) {
        case E_VAR: v = e->k < m.size() ? m[e->k] & maskw(e->w) : 0; break;
        case E_NOT: v = ~evalE(e->a, m) & maskw(e->w); break;
        case E_LIN: { v = P.lins[e->k].c; for(auto &x : P.lins[e->k].t) if(evalE(x.first, m)) v ^= x.second; break; }
        case E_ITE: v = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
        case E_CONCAT: v = (evalE(e->a, m) << e->b->w) | evalE(e->b, m); break;
        case E_EXTRACT: v = (evalE(e->a, m) >> e->k) & maskw(e->w); break;
        case E_ZEXT: v = evalE(e->a, m); break;
        case E_SEXT: v = (uint64_t) sx(evalE(e->a, m), e->a->w) & maskw(e->w); break;
        default: v = ExprPool::fold(e->op, e->a->w, evalE(e->a, m), evalE(e->b, m));
    }
    e->evEpoch = evEpoch; e->evVal = v;
    return v;
}

static Z3_context Z; static Z3_solver ZS; static unsigned queryTimeout = 60000;
static void initSolver() {
    Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_symbol l = Z3_mk_string_symbol(Z, "QF_BV"); ZS = Z3_mk_solver_for_logic(Z, l); Z3_solver_inc_ref(Z, ZS);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), queryTimeout); Z3_solver_set_params(Z, ZS, p);
}
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)), Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, 1))); }
static Z3_ast toBool(Expr *e);
static Z3_ast toZ(Expr *e) {
    if(e->z) return (Z3_ast) e->z;
    Z3_ast r = nullptr;
    switch(e->op) {
        case E_CONST: r = Z3_mk_unsigned_int64(Z, e->k, Z3_mk_bv_sort(Z, e->w)); break;
        case E_VAR: { char n[32]; snprintf(n, sizeof n, "v%llu_%u", (unsigned long long) e->k, e->w); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), Z3_mk_bv_sort(Z, e->w)); break; }
        case E_ADD: r = Z3_mk_bvadd(Z, toZ(e->a), toZ(e->b)); break; case E_SUB: r = Z3_mk_bvsub(Z, toZ(e->a), toZ(e->b)); break; case E_MUL: r = Z3_mk_bvmul(Z, toZ(e->a), toZ(e->b)); break;
        case E_UDIV: r = Z3_mk_bvudiv(Z, toZ(e->a), toZ(e->b)); break; case E_SDIV: r = Z3_mk_bvsdiv(Z, toZ(e->a), toZ(e->b)); break; case E_UREM: r = Z3_mk_bvurem(Z, toZ(e->a), toZ(e->b)); break; case E_SREM: r = Z3_mk_bvsrem(Z, toZ(e->a), toZ(e->b)); break;
        case E_AND: r = Z3_mk_bvand(Z, toZ(e->a), toZ(e->b)); break; case E_OR: r = Z3_mk_bvor(Z, toZ(e->a), toZ(e->b)); break; case E_XOR: r = Z3_mk_bvxor(Z, toZ(e->a), toZ(e->b)); break;
        case E_SHL: r = Z3_mk_bvshl(Z, toZ(e->a), toZ(e->b)); break; case E_LSHR: r = Z3_mk_bvlshr(Z, toZ(e->a), toZ(e->b)); break; case E_ASHR: r = Z3_mk_bvashr(Z, toZ(e->a), toZ(e->b)); break;
        case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = b2bv(toBool(e)); break;
        case E_ITE: r = Z3_mk_ite(Z, toBool(e->a), toZ(e->b), toZ(e->c)); break;
        case E_CONCAT: r = Z3_mk_concat(Z, toZ(e->a), toZ(e->b)); break;
        case E_EXTRACT: r = Z3_mk_extract(Z, e->k + e->w - 1, e->k, toZ(e->a)); break;
        case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, toZ(e->a)); break; case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, toZ(e->a)); break;
        case E_NOT: r = Z3_mk_bvnot(Z, toZ(e->a)); break;
        case E_LIN: { Z3_sort so = Z3_mk_bv_sort(Z, e->w); r = Z3_mk_unsigned_int64(Z, P.lins[e->k].c, so); Z3_ast z = Z3_mk_unsigned_int64(Z, 0, so); for(auto &x : P.lins[e->k].t) r = Z3_mk_bvxor(Z, r, Z3_mk_ite(Z, toBool(x.first), Z3_mk_unsigned_int64(Z, x.second, so), z)); break; }
    }
    e->z = r; return r;
}
static Z3_ast toBool(Expr *e) {
    switch(e->op) {
        case E_EQ: return Z3_mk_eq(Z, toZ(e->a), toZ(e->b)); case E_ULT: return Z3_mk_bvult(Z, toZ(e->a), toZ(e->b)); case E_ULE: return Z3_mk_bvule(Z, toZ(e->a), toZ(e->b));
        case E_SLT: return Z3_mk_bvslt(Z, toZ(e->a), toZ(e->b)); case E_SLE: return Z3_mk_bvsle(Z, toZ(e->a), toZ(e->b));
        case E_NOT: if(e->w == 1) return Z3_mk_not(Z, toBool(e->a)); break;
        case E_AND: if(e->w == 1) { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; return Z3_mk_and(Z, 2, x); } break;
        case E_OR: if(e->w == 1) { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; return Z3_mk_or(Z, 2, x); } break;
        case E_CONST: return e->k ? Z3_mk_true(Z) : Z3_mk_false(Z);
    }
    return Z3_mk_eq(Z, toZ(e), Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
}

// ---------------------------------------------------------------- path state
struct Decision { uint64_t v; uint8_t taken; uint8_t kind; };   // kind 0 branch, 1 value pick
struct Work { std::vector<Decision> dec; Model model; };
struct Object { uint64_t base, size; std::vector<uint8_t> data; std::vector<Expr *> sym; bool alive = true, heap = false, cst = false, global = false, stack = false; };
struct Frame { Func *f; uint32_t ip; uint32_t base; int32_t retdst; uint16_t retslots; std::vector<uint64_t> allocas; uint64_t va = 0; };
struct Thread { std::vector<Frame> frames; std::vector<Val> regs; uint32_t top = 0; bool done = false; };

struct PathEnd { };
struct NeedSplit { };

static std::map<std::string, int64_t> params;
static std::vector<std::string> ignoreKeys; // known findings: counted and reported, do not stop the exploration
static bool ignoredKey(const std::string &k) { for(auto &i : ignoreKeys) if(k == i) return true; return false; }
static uint64_t maxSteps = 30000000;
static double deadline = 0;
static unsigned mallocLimit = 64u << 20;

struct Violation { std::string id, key, stack, notes; std::vector<std::pair<std::string, uint64_t>> inputs; };

struct Engine {
    // path
    std::map<uint64_t, std::unique_ptr<Object>> mem; Object *lastObj = nullptr;
    std::vector<std::unique_ptr<Object>> pool;
    std::vector<Expr *> cons; std::vector<std::pair<Expr *, uint64_t>> pins; uint32_t epoch = 0;
    Model model; std::vector<Decision> dec; size_t decPos = 0;
    std::vector<std::string> inputNames; std::vector<uint8_t> inputW; std::vector<Expr *> inputVars; std::vector<int> inputKind;
    std::vector<Work> *out = nullptr;
    Thread thr[2]; int cur = 0; Thread *T; Instr *curI = nullptr;
    uint64_t steps = 0, brk = 0; uint64_t errnoAddr = 0;
    std::vector<std::string> notes;
    bool exitOk = false; int memMute = 0;
    // results
    std::map<std::string, Violation> viol; std::map<std::string, uint64_t> violCount; std::map<std::string, uint64_t> covers; std::map<std::string, uint64_t> asserts;
    std::set<std::string> unsupported; std::vector<std::string> samples; std::map<std::string, uint64_t> ends;

    // --- solver interface
    std::unordered_map<uint64_t, std::vector<std::pair<std::vector<uint32_t>, std::pair<int, std::vector<std::pair<uint32_t, uint64_t>>>>>> qcache; size_t qcount = 0;
    std::deque<Model> recent;

    void slice(Expr *cond, std::vector<Expr *> &outc) {
        uint64_t v[4]; memcpy(v, cond->vars, sizeof v);
        std::vector<char> in(cons.size(), 0); bool ch = true;
        while(ch) {
            ch = false;
            for(size_t i = 0; i < cons.size(); i++) if(!in[i]) {
                Expr *c = cons[i];
                if((c->vars[0] & v[0]) | (c->vars[1] & v[1]) | (c->vars[2] & v[2]) | (c->vars[3] & v[3])) { in[i] = 1; ch = true; for(int j = 0; j < 4; j++) v[j] |= c->vars[j]; }
            }
        }
        for(size_t i = 0; i < cons.size(); i++) if(in[i]) outc.push_back(cons[i]);
    }
    static void collectVars(Expr *e, std::set<Expr *> &seen, std::set<Expr *> &vars) {
        std::vector<Expr *> st{e};
        while(!st.empty()) { Expr *x = st.back(); st.pop_back(); if(!seen.insert(x).second) continue; if(x->op == E_VAR) vars.insert(x); if(x->op == E_LIN) for(auto &t : P.lins[x->k].t) st.push_back(t.first); if(x->a) st.push_back(x->a); if(x->b) st.push_back(x->b); if(x->c) st.push_back(x->c); }
    }
    // 1 sat, 0 unsat, -1 unknown. On sat, m receives a model satisfying all path constraints and cond.
    int feasible(Expr *cond, Model &m) {
        if(cond->op == E_CONST) { if(cond->k) m = model; return cond->k; }
        evEpoch++;
        if(evalE(cond, model)) { m = model; S.quick++; return 1; }
        std::vector<Expr *> sl; slice(cond, sl);
        std::vector<uint32_t> key; for(Expr *c : sl) key.push_back(c->id); key.push_back(cond->id); std::sort(key.begin(), key.end());
        uint64_t hh = 1469598103934665603ULL; for(uint32_t k : key) { hh ^= k; hh *= 1099511628211ULL; }
        auto &bucket = qcache[hh];
        for(auto &b : bucket) if(b.first == key) { S.cacheHits++; if(b.second.first == 1) { m = model; for(auto &kv : b.second.second) { if(kv.first >= m.size()) m.resize(kv.first + 1); m[kv.first] = kv.second; } } return b.second.first; }
        std::set<Expr *> seen, vars; collectVars(cond, seen, vars); for(Expr *c : sl) collectVars(c, seen, vars);
        // recent models
        for(auto &rm : recent) {
            evEpoch++;
            if(!evalE(cond, rm)) continue;
            bool ok = true; for(Expr *c : sl) if(!evalE(c, rm)) { ok = false; break; }
            if(!ok) continue;
            m = model; std::vector<std::pair<uint32_t, uint64_t>> mv;
            for(Expr *v : vars) { uint64_t x = v->k < rm.size() ? rm[v->k] & maskw(v->w) : 0; if(v->k >= m.size()) m.resize(v->k + 1); m[v->k] = x; mv.push_back({(uint32_t) v->k, x}); }
            S.quick++; bucket.push_back({key, {1, mv}}); return 1;
        }
        double t0 = now(); S.queries++;
        Z3_solver_reset(Z, ZS);
        for(Expr *c : sl) Z3_solver_assert(Z, ZS, toBool(c));
        Z3_solver_assert(Z, ZS, toBool(cond));
        Z3_lbool r = Z3_solver_check(Z, ZS);
        std::vector<std::pair<uint32_t, uint64_t>> mv; int res;
        if(r == Z3_L_TRUE) {
            res = 1; m = model;
            Z3_model zm = Z3_solver_get_model(Z, ZS); Z3_model_inc_ref(Z, zm);
            for(Expr *v : vars) { Z3_ast val; uint64_t x = 0; if(Z3_model_eval(Z, zm, toZ(v), true, &val)) Z3_get_numeral_uint64(Z, val, (uint64_t *) &x); if(v->k >= m.size()) m.resize(v->k + 1); m[v->k] = x; mv.push_back({(uint32_t) v->k, x}); }
            Z3_model_dec_ref(Z, zm);
            // the solver's model is checked against the expressions it was asked about
            evEpoch++; bool ok = evalE(cond, m); for(Expr *c : sl) ok = ok && evalE(c, m);
            if(!ok) { fprintf(stderr, "zsym: model validation failed\n"); exit(4); }
            recent.push_front(m); if(recent.size() > 12) recent.pop_back();
        } else if(r == Z3_L_FALSE) res = 0; else { res = -1; S.unknown++; }
        S.solver += now() - t0;
        bucket.push_back({key, {res, mv}}); if(++qcount > 400000) { qcache.clear(); qcount = 0; }
        return res;
    }

    void pin(Expr *e, uint64_t v) {
        v &= maskw(e->w);
        if(e->op == E_CONST || e->pinEpoch == epoch) return;
        e->pinEpoch = epoch; e->pinVal = v;
        switch(e->op) {
            case E_ZEXT: pin(e->a, v); break;
            case E_SEXT: pin(e->a, v); break;
            case E_ADD: if(e->b->op == E_CONST) pin(e->a, v - e->b->k); break;
            case E_XOR: if(e->b->op == E_CONST) pin(e->a, v ^ e->b->k); break;
            case E_NOT: pin(e->a, ~v); break;
            case E_CONCAT: pin(e->a, v >> e->b->w); pin(e->b, v); break;
            case E_AND: if(e->w == 1 && v) { pin(e->a, 1); pin(e->b, 1); } break;
            case E_OR: if(e->w == 1 && !v) { pin(e->a, 0); pin(e->b, 0); } break;
            case E_EQ: if(v && e->b->op == E_CONST) pin(e->a, e->b->k); break;
        }
    }
    void addCons(Expr *c) {
        if(c->op == E_CONST) return;
        if(c->op == E_AND && c->w == 1) { addCons(c->a); addCons(c->b); pin(c, 1); return; }
        cons.push_back(c); pin(c, 1);
    }
    // normalise a value: replace by its pinned constant, if the path fixes it
    inline Val norm(Val v) { if(v.e) { if(v.e->op == E_CONST) return {v.e->k, nullptr}; if(v.e->pinEpoch == epoch) return {v.e->pinVal, nullptr}; } return v; }
    Expr *ex(Val v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }
    Val mk(Expr *e) { if(e->op == E_CONST) return {e->k, nullptr}; if(e->pinEpoch == epoch) return {e->pinVal, nullptr}; return {0, e}; }

    void pushAlt(Decision d, const Model &m) { Work w; w.dec.assign(dec.begin(), dec.begin() + decPos); w.dec.push_back(d); w.model = m; out->push_back(std::move(w)); S.forks++; }

    // decide a symbolic condition, forking when both outcomes are satisfiable
    bool decide(Expr *c, uint64_t aux = 0, uint8_t kind = 0) {
        if(c->op == E_CONST) return c->k;
        if(c->op == E_NOT && c->w == 1) return !decide(c->a, aux, kind);
        if(c->pinEpoch == epoch) return c->pinVal;
        if(decPos < dec.size()) {
            Decision &d = dec[decPos++];
            if(d.kind == 2) pin(c, d.taken); else if(d.kind == kind) addCons(d.taken ? c : P.notE(c)); else fatal("replay divergence (branch)");
            return d.taken;
        }
        evEpoch++; bool side = evalE(c, model);
        Expr *other = side ? P.notE(c) : c;
        Model m2; int r = feasible(other, m2);
        if(r == 0) { dec.push_back({aux, (uint8_t) side, 2}); decPos++; pin(c, side); return side; } // implied by the path condition
        if(r < 0) { unsupported.insert("solver returned unknown (time limit) on a branch"); }
        else pushAlt({aux, (uint8_t) !side, kind}, m2);
        dec.push_back({aux, (uint8_t) side, kind}); decPos++;
        addCons(side ? c : P.notE(c));
        return side;
    }
    // fork over the values of a symbolic expression; returns the value on this path
    uint64_t pickValue(Expr *e) {
        for(;;) {
            if(e->op == E_CONST) return e->k;
            if(e->pinEpoch == epoch) return e->pinVal;
            uint64_t v;
            if(decPos < dec.size()) { v = dec[decPos].v; if(dec[decPos].kind != 1) fatal("replay divergence (value)"); }
            else { evEpoch++; v = evalE(e, model); }
            Expr *c = P.bin(E_EQ, e, P.cst(v, e->w));
            if(c->pinEpoch == epoch && !c->pinVal) { // cannot be: model satisfies the path
                fatal("pickValue on excluded value");
            }
            if(decPos < dec.size()) {
                Decision &d = dec[decPos++]; addCons(d.taken ? c : P.notE(c)); if(d.taken) { pin(e, v); return v; } continue;
            }
            Model m2; int r = feasible(P.notE(c), m2);
            if(r < 0) unsupported.insert("solver returned unknown (time limit) on a value choice");
            if(r > 0) pushAlt({v, 0, 1}, m2);
            dec.push_back({v, 1, 1}); decPos++;
            addCons(c); pin(e, v); return v;
        }
    }
    uint64_t conc(Val v) { v = norm(v); return v.e ? pickValue(v.e) : v.c; }

    // --- violations
    std::string where() {
        std::string s; int n = 0;
        for(int t = 0; t < 2; t++) {
            Thread &th = thr[t == 0 ? cur : 1 - cur];
            if(t == 1 && cur == 0) break;
            for(int i = (int) th.frames.size() - 1; i >= 0 && n < 14; i--, n++) {
                Frame &f = th.frames[i]; uint32_t ip = f.ip; if(ip >= f.f->code.size()) ip = f.f->code.size() - 1;
                uint32_t at = (ip > 0) ? ip - 1 : 0;
                if(!s.empty()) s += " <- ";
                std::string fn = f.f->file; size_t p = fn.rfind('/'); if(p != std::string::npos) fn = fn.substr(p + 1);
                s += f.f->name + "(" + fn + ":" + std::to_string(f.f->code[at].line) + ")";
            }
        }
        return s;
    }
    std::string curFunc() { return T->frames.empty() ? "?" : T->frames.back().f->name; }
    void report(const std::string &id, const std::string &key, const Model &m) {
        violCount[key]++;
        if(viol.count(key)) return;
        Violation v; v.id = id; v.key = key; v.stack = where();
        for(size_t i = 0; i < inputVars.size(); i++) { uint64_t x = inputVars[i]->k < m.size() ? m[inputVars[i]->k] & maskw(inputVars[i]->w) : 0; v.inputs.push_back({inputNames[i], x}); }
        for(auto &n : notes) v.notes += n + "; ";
        viol[key] = v;
    }
    [[noreturn]] void memError(const std::string &kind) { report("memory:" + kind, "memory:" + kind + "@" + curFunc(), model); throw PathEnd(); }
    [[noreturn]] void unsup(const std::string &what) { unsupported.insert(what + " at " + where()); throw PathEnd(); }

    // --- memory
    Object *find(uint64_t addr) {
        if(lastObj && addr - lastObj->base < lastObj->size && lastObj->alive) return lastObj;
        auto it = mem.upper_bound(addr); if(it == mem.begin()) return nullptr; --it;
        Object *o = it->second.get();
        if(addr >= o->base && (addr - o->base < o->size || (addr == o->base && o->size == 0))) { return o; }
        return nullptr;
    }
    uint64_t newObj(uint64_t size, bool zero, bool heap) {
        std::unique_ptr<Object> o;
        if(!pool.empty()) { o = std::move(pool.back()); pool.pop_back(); o->sym.clear(); o->alive = true; o->cst = o->global = o->stack = false; } else o = std::make_unique<Object>();
        o->base = brk; o->size = size; o->data.assign(size, zero ? 0 : 0xbe); o->heap = heap;
        brk += ((size + 15) & ~15ULL) + (size > 4096 ? 4096 : 512);
        uint64_t b = o->base; mem.emplace_hint(mem.end(), b, std::move(o));
        return b;
    }
    void dropObj(uint64_t base) { auto it = mem.find(base); if(it == mem.end()) return; if(lastObj == it->second.get()) lastObj = nullptr; if(pool.size() < 4096 && it->second->size <= 65536) pool.push_back(std::move(it->second)); mem.erase(it); }
    Object *access(uint64_t addr, uint64_t n, bool write) {
        Object *o = find(addr);
        if(!o) memError(addr < 4096 ? "null-dereference" : (write ? "out-of-bounds-write" : "out-of-bounds-read"));
        if(!o->alive) memError("use-after-free");
        if(addr - o->base + n > o->size) memError(write ? "out-of-bounds-write" : "out-of-bounds-read");
        if(write && o->cst) memError("write-to-constant");
        lastObj = o; return o;
    }
    Val loadC(uint64_t addr, unsigned w) {
        unsigned n = (w + 7) / 8; Object *o = access(addr, n, false); uint64_t off = addr - o->base;
        if(o->sym.empty()) { uint64_t v = 0; memcpy(&v, &o->data[off], n); return {v & maskw(w), nullptr}; }
        bool any = false; for(unsigned i = 0; i < n; i++) if(o->sym[off + i]) { Expr *e = o->sym[off + i]; if(e->pinEpoch == epoch) { o->data[off + i] = e->pinVal; o->sym[off + i] = nullptr; } else any = true; }
        if(!any) { uint64_t v = 0; memcpy(&v, &o->data[off], n); return {v & maskw(w), nullptr}; }
        Expr *e = nullptr;
        for(unsigned i = 0; i < n; i++) { Expr *b = o->sym[off + i] ? o->sym[off + i] : P.cst(o->data[off + i], 8); e = e ? P.concat(b, e) : b; }
        if(n * 8 != w) e = P.extract(e, 0, w);
        return mk(e);
    }
    void storeC(uint64_t addr, Val v, unsigned w) {
        unsigned n = (w + 7) / 8; Object *o = access(addr, n, true); uint64_t off = addr - o->base;
        if(!v.e) { uint64_t c = v.c & maskw(w); memcpy(&o->data[off], &c, n); if(!o->sym.empty()) for(unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr; return; }
        if(o->sym.empty()) o->sym.assign(o->size, nullptr);
        Expr *e = v.e; if(n * 8 != w) e = P.zext(e, n * 8);
        for(unsigned i = 0; i < n; i++) { Expr *b = P.extract(e, i * 8, 8); if(b->op == E_CONST) { o->data[off + i] = b->k; o->sym[off + i] = nullptr; } else o->sym[off + i] = b; }
    }
    // resolve a symbolic address to a concrete one (forking); ITE over constant tables for loads
    uint64_t resolve(Val a, uint64_t n, bool write) {
        a = norm(a); if(!a.e) return a.c;
        for(;;) {
            uint64_t v;
            if(decPos < dec.size()) v = dec[decPos].v; else { evEpoch++; v = evalE(a.e, model); }
            Object *o = find(v);
            if(!o || !o->alive || v - o->base + n > o->size) {
                if(decPos < dec.size()) fatal("replay divergence (resolve)");
                if(!o) memError(v < 4096 ? "null-dereference" : (write ? "out-of-bounds-write" : "out-of-bounds-read"));
                if(!o->alive) memError("use-after-free");
                memError(write ? "out-of-bounds-write" : "out-of-bounds-read");
            }
            Expr *inb = P.bin(E_ULE, P.bin(E_SUB, a.e, P.cst(o->base, 64)), P.cst(o->size - n, 64));
            bool implied = inb->op == E_CONST || inb->pinEpoch == epoch;
            if(implied) { bool val = inb->op == E_CONST ? inb->k : inb->pinVal; if(!val) fatal("resolve: excluded object"); return pickValue(a.e); }
            size_t before = decPos; (void) before;
            if(decideV(inb, v)) return pickValue(a.e);
        }
    }
    bool decideV(Expr *c, uint64_t v) {
        if(decPos < dec.size()) { Decision &d = dec[decPos++]; addCons(d.taken ? c : P.notE(c)); return d.taken; }
        evEpoch++; bool side = evalE(c, model); Model m2; int r = feasible(side ? P.notE(c) : c, m2);
        if(r < 0) unsupported.insert("solver returned unknown (time limit) on an address");
        if(r > 0) pushAlt({v, (uint8_t) !side, 1}, m2);
        dec.push_back({v, (uint8_t) side, 1}); decPos++; addCons(side ? c : P.notE(c)); return side;
    }
    Val load(Val a, unsigned w) {
        a = norm(a); if(!a.e) return loadC(a.c, w);
        unsigned n = (w + 7) / 8;
        // table lookup: symbolic offset into a constant object (or small object) -> ITE
        if(a.e->op == E_ADD && a.e->b->op == E_CONST) {
            Object *o = find(a.e->b->k);
            if(o && o->alive && o->cst && o->size <= 8192) {
                Expr *off = a.e->a; uint64_t c0 = a.e->b->k - o->base;
                Expr *inb = P.bin(E_ULE, P.bin(E_ADD, off, P.cst(c0, 64)), P.cst(o->size - n, 64));
                Model m2; bool ok = inb->op == E_CONST ? inb->k : (decPos < dec.size() && false) ? true : feasible(P.notE(inb), m2) == 0;
                if(ok) {
                    // enumerate by stride of the scale (alignment of known zero low bits)
                    unsigned sh = 0; if(off->op == E_CONCAT && off->b->op == E_CONST && off->b->k == 0) sh = off->b->w; if(off->op == E_ZEXT && off->a->op == E_CONCAT && off->a->b->op == E_CONST && off->a->b->k == 0) sh = off->a->b->w;
                    // a linear table (checksum): x -> T[x] with T[x ^ y] = T[x] ^ T[y]
                    if(off->op == E_ZEXT && off->a->op == E_CONCAT && off->a->b->op == E_CONST && off->a->b->k == 0) off = P.concat(P.zext(off->a->a, 64 - sh), P.cst(0, sh));
                    if(w <= 64 && sh < 8 && (1u << sh) == n && off->op == E_CONCAT && off->a->op == E_ZEXT && off->a->a->w == 8 && c0 + 256 * n <= o->size) {
                        bool lin = true; std::vector<uint64_t> t(256); for(unsigned i = 0; lin && i < 256; i++) { Val v = loadC(o->base + c0 + i * n, w); if(v.e) lin = false; t[i] = v.c; }
                        for(unsigned i = 0; lin && i < 256; i++) { uint64_t x = 0; for(int k = 0; k < 8; k++) if(i >> k & 1) x ^= t[1 << k]; if(x != t[i]) lin = false; }
                        if(lin) { uint64_t c = 0; ExprPool::LinMap lm; for(int k = 0; k < 8; k++) P.linBit(P.extract(off->a->a, k, 1), t[1 << k], c, lm); return mk(P.mkLin(c, lm, w)); }
                    }
                    uint64_t stride = 1ULL << sh; uint64_t maxv = o->size; if(off->op == E_ZEXT) maxv = std::min(maxv, maskw(off->a->w)); 
                    Expr *r = nullptr;
                    for(uint64_t x = 0; x + c0 + n <= o->size && x <= maxv; x += stride) { Val v = loadC(o->base + c0 + x, w); Expr *e = ex(v, w); r = r ? P.ite(P.bin(E_EQ, off, P.cst(x, 64)), e, r) : e; }
                    if(r) return mk(r);
                }
            }
        }
        return loadC(resolve(a, n, false), w);
    }
    void store(Val a, Val v, unsigned w) { storeC(resolve(a, (w + 7) / 8, true), norm(v), w); }

    void copyBytes(uint64_t d, uint64_t s, uint64_t n) {
        if(!n) return;
        Object *so = access(s, n, false); Object *dobj = access(d, n, true); uint64_t so_ = s - so->base, do_ = d - dobj->base;
        if(!so->sym.empty() && dobj->sym.empty()) { bool any = false; for(uint64_t i = 0; i < n; i++) if(so->sym[so_ + i]) { any = true; break; } if(any) dobj->sym.assign(dobj->size, nullptr); }
        memmove(&dobj->data[do_], &so->data[so_], n);
        if(!dobj->sym.empty()) { if(!so->sym.empty()) memmove(&dobj->sym[do_], &so->sym[so_], n * sizeof(Expr *)); else std::fill(dobj->sym.begin() + do_, dobj->sym.begin() + do_ + n, nullptr); }
    }
    std::string cstr(uint64_t a) { std::string s; for(;;) { Val v = loadC(a++, 8); if(v.e) { s += '?'; if(s.size() > 200) break; continue; } if(!v.c) break; s += (char) v.c; } return s; }

    // --- crc32c (exact, GF(2)-linear)
    static uint32_t crcTab(unsigned i) { static uint32_t t[256]; static bool init = false; if(!init) { for(unsigned k = 0; k < 256; k++) { uint32_t c = k; for(int j = 0; j < 8; j++) c = c & 1 ? (c >> 1) ^ 0x82F63B78u : c >> 1; t[k] = c; } init = true; } return t[i]; }
    Val crcSteps(Val crc, Val d, unsigned n) {
        if(!crc.e && !d.e) { uint32_t c = crc.c; for(unsigned i = 0; i < n; i++) c = crcTab((c ^ (d.c >> (8 * i))) & 0xff) ^ (c >> 8); return {c, nullptr}; }
        uint64_t c = 0; ExprPool::LinMap m; P.linAdd(ex(crc, 32), c, m); Expr *de = ex(d, n * 8);
        for(unsigned i = 0; i < n; i++) {
            auto st = [&](uint64_t k) -> uint64_t { return crcTab(k & 0xff) ^ (k >> 8); };
            c = st(c); for(auto &x : m) x.second = st(x.second);
            for(int k = 0; k < 8; k++) P.linBit(P.extract(de, i * 8 + k, 1), crcTab(1 << k), c, m);
        }
        return mk(P.mkLin(c, m, 32));
    }

    // --- execution
    Val get(const Opd &o) { if(o.reg < 0) return {o.imm, nullptr}; Val &v = T->regs[fbase + o.reg]; if(v.e) { if(v.e->pinEpoch == epoch) v = {v.e->pinVal, nullptr}; else if(v.e->op == E_CONST) v = {v.e->k, nullptr}; } return v; }
    uint32_t fbase = 0;
    void setr(int32_t r, Val v) { if(r >= 0) T->regs[fbase + r] = v; }

    void resetGlobals(bool all) {
        for(auto &g : globals) {
            if(!all && g.keep) continue;
            auto it = mem.find(g.addr); Object *o;
            if(it == mem.end()) { auto no = std::make_unique<Object>(); o = no.get(); mem[g.addr] = std::move(no); o->base = g.addr; o->size = g.size; o->cst = g.cst; o->global = true; }
            else { o = it->second.get(); if(g.cst && !all) continue; }
            o->data = g.data; o->sym.clear(); o->alive = true;
        }
        lastObj = nullptr;
    }
    void call(Func *f, const Val *args, size_t n, int32_t dst, uint16_t slots, size_t nfixed) {
        if(f->decl) unsup("call to unmodelled external function '" + f->name + "'");
        if(f->skip) { for(int s = 0; s < slots; s++) setr(dst + s, {0, nullptr}); return; }
        f->hit = true;
        Frame fr; fr.f = f; fr.ip = 0; fr.base = T->top; fr.retdst = dst; fr.retslots = slots;
        T->top += f->nregs; if(T->regs.size() < T->top) T->regs.resize(T->top * 2 + 256, Val{0, nullptr});
        if(T->frames.size() > 4000) { memErrorAt("stack-overflow"); }
        for(size_t i = 0; i < f->nparams; i++) T->regs[fr.base + i] = i < n ? args[i] : Val{0, nullptr};
        if(f->vararg) { // overflow area: 8 byte slots
            size_t extra = n > nfixed ? n - nfixed : 0; if(f->nparams < nfixed) extra = n > f->nparams ? n - f->nparams : 0;
            size_t start = f->nparams; uint64_t a = newObj((extra ? extra : 1) * 8, true, false);
            for(size_t i = 0; i < extra && start + i < n; i++) { if(args[start + i].e) storeC(a + i * 8, mk(args[start + i].e->w == 64 ? args[start + i].e : P.zext(args[start + i].e, 64)), 64); else storeC(a + i * 8, args[start + i], 64); }
            fr.va = a; fr.allocas.push_back(a);
        }
        T->frames.push_back(std::move(fr)); fbase = T->frames.back().base;
    }
    [[noreturn]] void memErrorAt(const std::string &k) { memError(k); }

    void popFrame() { Frame &f = T->frames.back(); for(uint64_t a : f.allocas) dropObj(a); T->top = f.base; T->frames.pop_back(); if(!T->frames.empty()) fbase = T->frames.back().base; }

    Val icmp(uint8_t pred, Val a, Val b, unsigned w) {
        uint8_t op; bool sw = false, ng = false;
        switch(pred) {
            case CmpInst::ICMP_EQ: op = E_EQ; break; case CmpInst::ICMP_NE: op = E_EQ; ng = true; break;
            case CmpInst::ICMP_ULT: op = E_ULT; break; case CmpInst::ICMP_ULE: op = E_ULE; break; case CmpInst::ICMP_UGT: op = E_ULT; sw = true; break; case CmpInst::ICMP_UGE: op = E_ULE; sw = true; break;
            case CmpInst::ICMP_SLT: op = E_SLT; break; case CmpInst::ICMP_SLE: op = E_SLE; break; case CmpInst::ICMP_SGT: op = E_SLT; sw = true; break; default: op = E_SLE; sw = true;
        }
        if(sw) std::swap(a, b);
        if(!a.e && !b.e) { uint64_t r = ExprPool::fold(op, w, a.c & maskw(w), b.c & maskw(w)); return {ng ? !r : r, nullptr}; }
        Expr *e = P.bin(op, ex(a, w), ex(b, w)); if(ng) e = P.notE(e); return mk(e);
    }
    void gotoEdge(Frame &f, uint32_t eidx) {
        Edge &e = f.f->edges[eidx];
        if(!e.copies.empty()) { static Val tmp[256]; size_t n = e.copies.size(); for(size_t i = 0; i < n; i++) tmp[i] = get(e.copies[i].second); for(size_t i = 0; i < n; i++) T->regs[fbase + e.copies[i].first] = tmp[i]; }
        f.ip = e.target;
    }
    Val fresh(unsigned w, const std::string &name) {
        uint32_t idx = inputVars.size(); Expr *v = P.var(idx, w); inputVars.push_back(v); inputNames.push_back(name); inputW.push_back(w);
        if(model.size() <= idx) model.resize(idx + 1, 0);
        return mk(v);
    }
    Val opaque(unsigned w) { return fresh(w, "#opaque"); }

    void sample() {
        size_t slot; if(samples.size() < 6) slot = samples.size(); else if(S.paths % 61 == 0) { slot = 6 + (S.paths / 61) % 6; if(slot > samples.size()) slot = samples.size(); } else return;
        std::string s; for(auto &n : notes) s += n + "; ";
        s += "|";
        for(size_t i = 0; i < inputVars.size(); i++) { if(inputNames[i][0] == '#') continue; s += inputNames[i] + "=" + std::to_string((unsigned long long) (inputVars[i]->k < model.size() ? model[inputVars[i]->k] & maskw(inputVars[i]->w) : 0)) + " "; }
        if(slot < samples.size()) samples[slot] = s; else samples.push_back(s);
    }

    void checkAssert(Val c, const std::string &id) {
        asserts[id]++;
        c = norm(c);
        if(!c.e) { S.assertsConc++; if(!c.c) { report("assert:" + id, id, model); throw PathEnd(); } return; }
        Expr *b = c.e->w == 1 ? c.e : P.notE(P.bin(E_EQ, c.e, P.cst(0, c.e->w)));
        if(b->op == E_CONST || b->pinEpoch == epoch) { S.assertsConc++; bool v = b->op == E_CONST ? b->k : b->pinVal; if(!v) { report("assert:" + id, id, model); throw PathEnd(); } return; }
        if(decPos < dec.size()) { Decision &d = dec[decPos++]; if(d.kind == 3) pin(b, 1); else if(d.kind == 4) addCons(b); else fatal("replay divergence (assert)"); return; }
        S.assertsSym++;
        Model m2; int r = feasible(P.notE(b), m2);
        if(r < 0) { unsupported.insert("solver returned unknown (time limit) on assertion " + id); }
        if(r > 0) {
            report("assert:" + id, id, m2);
            Model m3; int r2 = feasible(b, m3); if(r2 <= 0) throw PathEnd();
            dec.push_back({0, 1, 4}); decPos++;
            model = m3; addCons(b); return;   // continue on the satisfying side
        }
        dec.push_back({0, 1, 3}); decPos++;
        pin(b, 1);
    }

    bool builtin(Instr &in);
    void step();
    void runPath(Work &w, std::vector<Work> &outw);
};

bool Engine::builtin(Instr &in) {
    Frame &fr = T->frames.back(); (void) fr;
    std::vector<Opd> &A = in.args; int b = in.builtin;
    auto ret = [&](uint64_t v) { setr(in.dst, {v, nullptr}); };
    auto sizeArg = [&](Val s) -> uint64_t {
        s = norm(s); if(!s.e) return s.c;
        if(!decide(P.bin(E_ULE, s.e, P.cst(mallocLimit, 64)))) return ~0ULL;
        return pickValue(s.e);
    };
    switch(b) {
        case B_MALLOC: { uint64_t n = sizeArg(get(A[0])); ret(n > mallocLimit ? 0 : newObj(n, false, true)); break; }
        case B_CALLOC: {
            Val x = get(A[0]), y = get(A[1]); uint64_t n = conc(x), m = conc(y); uint64_t t = n * m; ret((n && t / n != m) || t > mallocLimit * 4ULL ? 0 : newObj(t, true, true)); break; }
        case B_REALLOC: {
            uint64_t p = conc(get(A[0])); uint64_t n = sizeArg(get(A[1]));
            if(!p) { ret(n > mallocLimit ? 0 : newObj(n, false, true)); break; }
            Object *o = find(p); if(!o || o->base != p || !o->heap) memError("invalid-realloc"); if(!o->alive) memError("use-after-free");
            if(n > mallocLimit) { ret(0); break; }
            uint64_t np = newObj(n, false, true); uint64_t cp = std::min(n, o->size); copyBytes(np, p, cp);
            o->alive = false; ret(np); break; }
        case B_FREE: { uint64_t p = conc(get(A[0])); if(!p) break; auto it = mem.find(p); if(it == mem.end() || !it->second->heap) memError("invalid-free"); if(!it->second->alive) memError("double-free"); it->second->alive = false; lastObj = nullptr; std::vector<Expr *>().swap(it->second->sym); break; }
        case B_ALLOCSIZE: { uint64_t p = conc(get(A[0])); Object *o = p ? find(p) : nullptr; ret(o ? o->size : 0); break; }
        case B_HEAP: { uint64_t n = 0; for(auto &m : mem) if(m.second->heap && m.second->alive) n += m.second->size; ret(n); break; }
        case B_ADDRESSABLE: { uint64_t p = conc(get(A[0])); uint64_t n = conc(get(A[1])); Object *o = find(p); ret(o && o->alive && p - o->base + n <= o->size); break; }
        case B_MEMCPY: case B_MEMMOVE: { Val lv = norm(get(A[2])); uint64_t n;
            if(lv.e) { if(!decide(P.bin(E_ULE, lv.e, P.cst(1 << 20, lv.e->w)))) memError("out-of-bounds-copy"); n = pickValue(lv.e); } else n = lv.c;
            Val dv = get(A[0]), sv = get(A[1]); uint64_t d = n ? resolve(dv, n, true) : conc(dv), s = n ? resolve(sv, n, false) : conc(sv);
            if(n > (1ULL << 40)) memError("out-of-bounds-copy");
            copyBytes(d, s, n); if(in.op == I_BUILTIN && in.dst >= 0) ret(d); break; }
        case B_MEMSET: { uint64_t n = conc(get(A[2])); Val v = get(A[1]); Val dv = get(A[0]); uint64_t d = n ? resolve(dv, n, true) : conc(dv); if(n) { Object *o = access(d, n, true); uint64_t off = d - o->base; if(v.e && v.e->w > 8) v = mk(P.extract(v.e, 0, 8));
                if(!v.e) { memset(&o->data[off], (int) v.c, n); if(!o->sym.empty()) std::fill(o->sym.begin() + off, o->sym.begin() + off + n, nullptr); } else { if(o->sym.empty()) o->sym.assign(o->size, nullptr); for(uint64_t i = 0; i < n; i++) o->sym[off + i] = v.e; } }
            if(in.dst >= 0) ret(d); break; }
        case B_MEMCMP: { uint64_t n = conc(get(A[2])); uint64_t x = conc(get(A[0])), y = conc(get(A[1])); if(n) { access(x, n, false); access(y, n, false); }
            Expr *r = nullptr; std::vector<std::pair<Val, Val>> diff; bool done = false; int cres = 0;
            for(uint64_t i = 0; i < n; i++) { Val p = loadC(x + i, 8), q = loadC(y + i, 8); if(!p.e && !q.e) { if(p.c != q.c) { if(diff.empty()) { cres = p.c < q.c ? -1 : 1; done = true; break; } diff.push_back({p, q}); break; } continue; } if(p.e == q.e && p.e) continue; diff.push_back({p, q}); }
            if(done) { ret((uint32_t) cres); break; }
            r = P.cst(0, 32);
            for(size_t i = diff.size(); i-- > 0;) { Expr *p = ex(diff[i].first, 8), *q = ex(diff[i].second, 8); r = P.ite(P.bin(E_EQ, p, q), r, P.ite(P.bin(E_ULT, p, q), P.cst(0xffffffff, 32), P.cst(1, 32))); }
            setr(in.dst, mk(r)); break; }
        case B_STRLEN: { uint64_t p = conc(get(A[0])); uint64_t n = 0; for(;; n++) { Val v = loadC(p + n, 8); if(v.e) { if(decide(P.bin(E_EQ, v.e, P.cst(0, 8)))) break; } else if(!v.c) break; } ret(n); break; }
        case B_NOP: for(int s = 0; s < in.nslots; s++) ret(0); break;
        case B_EXIT: { Val v = get(A[0]); ends["exit"]++; if(!exitOk) report("process-exit", "process-exit@" + (T->frames.size() > 0 ? curFunc() : std::string("?")), model); (void) v; throw PathEnd(); }
        case B_ABORT: case B_TRAP: report("abort", "abort@" + curFunc(), model); throw PathEnd();
        case B_ASSERTFAIL: report("assert-fail", "assert-fail@" + curFunc(), model); throw PathEnd();
        case B_ZASSERT: { checkAssert(get(A[0]), cstr(conc(get(A[1])))); break; }
        case B_ZFAIL: { std::string id = cstr(conc(get(A[0]))); asserts[id]++; S.assertsConc++; report("assert:" + id, id, model); throw PathEnd(); }
        case B_ZASSUME: { Val c = norm(get(A[0])); if(!c.e) { if(!c.c) { S.infeasible++; throw PathEnd(); } break; }
            Expr *e = c.e->w == 1 ? c.e : P.notE(P.bin(E_EQ, c.e, P.cst(0, c.e->w))); if(e->op == E_CONST || e->pinEpoch == epoch) { bool v = e->op == E_CONST ? e->k : e->pinVal; if(!v) { S.infeasible++; throw PathEnd(); } break; }
            if(decPos < dec.size()) { addCons(e); break; }   // model of the work item satisfies it
            Model m2; int r = feasible(e, m2); if(r <= 0) { if(r < 0) unsupported.insert("solver returned unknown (time limit) on an assumption"); S.infeasible++; throw PathEnd(); } model = m2; addCons(e); break; }
        case B_ZCOVER: covers[cstr(conc(get(A[0])))]++; break;
        case B_ZNOTE: { std::string n = cstr(conc(get(A[0]))); notes.push_back(n); break; }
        case B_PRINTS: { if(getenv("ZTRACE")) fprintf(stderr, "[trace] %s\n", cstr(conc(get(A[0]))).c_str()); break; }
        case B_ZU: { unsigned w = conc(get(A[0])); std::string n = cstr(conc(get(A[1]))); Val v = fresh(w, n); if(v.e && w < 64) v = mk(P.zext(v.e, 64)); setr(in.dst, v); break; }
        case B_ZCHOICE: { uint64_t n = conc(get(A[0])); std::string nm = cstr(conc(get(A[1]))); if(n <= 1) { ret(0); break; } Val v = fresh(32, nm); Expr *rng = P.bin(E_ULT, v.e, P.cst(n, 32));
            if(decPos >= dec.size()) { evEpoch++; if(!evalE(rng, model)) { model[inputVars.size() - 1] = 0; } }
            addCons(rng); uint64_t x = pickValue(v.e); ret(x); break; }
        case B_ZPARAM: { std::string n = cstr(conc(get(A[0]))); auto it = params.find(n); ret(it != params.end() ? (uint64_t) it->second : conc(get(A[1]))); break; }
        case B_ZEND: ends["z_end"]++; S.ended++; sample(); throw PathEnd();
        case B_ISSYM: { Val v = norm(get(A[0])); ret(v.e != nullptr); break; }
        case B_CONCR: { Val v = get(A[0]); ret(conc(v)); break; }
        case B_ZMUTE: exitOk = conc(get(A[0])) != 0; break;
        case B_ERRNO: ret(errnoAddr); break;
        case B_RESETG: resetGlobals(false); break;
        case B_CORO_START: { uint64_t fp = conc(get(A[0])); Func *f = funcByAddr.count(fp) ? funcByAddr[fp] : nullptr; if(!f) memError("bad-function-pointer");
            Thread &t = thr[1]; for(Frame &x : t.frames) for(uint64_t a : x.allocas) dropObj(a); t.frames.clear(); t.top = 0; t.done = false; Thread *old = T; uint32_t ob = fbase; T = &t; call(f, nullptr, 0, -1, 0, 0); T = old; fbase = ob; break; }
        case B_CORO_RESUME: { if(thr[1].frames.empty()) { ret(0); break; } ret(1); cur = 1; T = &thr[1]; fbase = T->frames.back().base; return true; }
        case B_CORO_YIELD: { cur = 0; T = &thr[0]; fbase = T->frames.back().base; return true; }
        case B_VASTART: { uint64_t p = conc(get(A[0])); storeC(p, {48, nullptr}, 32); storeC(p + 4, {176, nullptr}, 32); storeC(p + 8, {fr.va, nullptr}, 64); storeC(p + 16, {0, nullptr}, 64); break; }
        case B_VAEND: break;
        case B_VACOPY: { uint64_t d = conc(get(A[0])), s = conc(get(A[1])); copyBytes(d, s, 24); break; }
        case B_CRC64: case B_CRC32: case B_CRC16: case B_CRC8: {
            Val c = get(A[0]), d = get(A[1]); unsigned n = b == B_CRC64 ? 8 : b == B_CRC32 ? 4 : b == B_CRC16 ? 2 : 1;
            if(b == B_CRC64) { if(c.e) c = mk(P.extract(c.e, 0, 32)); else c.c &= 0xffffffff; }
            if(d.e && d.e->w != n * 8) d = mk(P.extract(d.e, 0, n * 8));
            c = crcSteps(c, d, n);
            if(b == B_CRC64 && c.e) c = mk(P.zext(c.e, 64)); setr(in.dst, c); break; }
        case B_BSWAP: { Val v = get(A[0]); unsigned n = in.w / 8; if(!v.e) { uint64_t r = 0; for(unsigned i = 0; i < n; i++) r |= ((v.c >> (8 * i)) & 0xff) << (8 * (n - 1 - i)); ret(r); } else { Expr *e = nullptr; for(unsigned i = 0; i < n; i++) { Expr *x = P.extract(v.e, i * 8, 8); e = e ? P.concat(e, x) : x; } setr(in.dst, mk(e)); } break; }
        case B_EXPECT: setr(in.dst, get(A[0])); break;
        case B_STACKSAVE: ret(0); break;
        case B_OBJSIZE: ret(~0ULL); break;
        case B_FABS: { Val v = get(A[0]); if(v.e) setr(in.dst, opaque(in.w)); else ret(v.c & ~(1ULL << (in.w - 1))); break; }
        case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN: { Val x = get(A[0]), y = get(A[1]); uint8_t op = (b == B_UMAX || b == B_UMIN) ? E_ULT : E_SLT; Expr *c = P.bin(op, ex(x, in.w), ex(y, in.w)); bool mx = b == B_UMAX || b == B_SMAX; setr(in.dst, mk(P.ite(c, ex(mx ? y : x, in.w), ex(mx ? x : y, in.w)))); break; }
        case B_ABS: { Val x = get(A[0]); Expr *e = ex(x, in.w); setr(in.dst, mk(P.ite(P.bin(E_SLT, e, P.cst(0, in.w)), P.bin(E_SUB, P.cst(0, in.w), e), e))); break; }
        case B_CTLZ: case B_CTTZ: case B_CTPOP: { uint64_t x = conc(get(A[0])); if(b == B_CTPOP) ret(__builtin_popcountll(x)); else if(!x) ret(in.w); else if(b == B_CTTZ) ret(__builtin_ctzll(x)); else ret(__builtin_clzll(x) - (64 - in.w)); break; }
        case B_FSHL: case B_FSHR: { uint64_t s = conc(get(A[2])) % in.w; Expr *x = ex(get(A[0]), in.w), *y = ex(get(A[1]), in.w); if(b == B_FSHR) s = s ? in.w - s : 0; if(b == B_FSHR && s == 0) { setr(in.dst, mk(y)); break; } if(!s) { setr(in.dst, mk(x)); break; } setr(in.dst, mk(P.bin(E_OR, P.bin(E_SHL, x, P.cst(s, in.w)), P.bin(E_LSHR, y, P.cst(in.w - s, in.w))))); break; }
        case B_USAT: { Expr *x = ex(get(A[0]), in.w), *y = ex(get(A[1]), in.w); if(in.sub == 0) setr(in.dst, mk(P.ite(P.bin(E_ULT, x, y), P.cst(0, in.w), P.bin(E_SUB, x, y)))); else { Expr *r = P.bin(E_ADD, x, y); setr(in.dst, mk(P.ite(P.bin(E_ULT, r, x), P.cst(maskw(in.w), in.w), r))); } break; }
        case B_OVF: { unsigned w = in.widths[0]; Expr *x = ex(get(A[0]), w), *y = ex(get(A[1]), w); bool sg = in.sub & 1; uint8_t op = in.sub < 2 ? E_ADD : in.sub < 4 ? E_SUB : E_MUL;
            if(w > 32 && (x->op != E_CONST || y->op != E_CONST) && op == E_MUL) unsup("wide symbolic overflow multiply");
            unsigned W = w > 32 ? 64 : 2 * w; Expr *o; Expr *r = P.bin(op, x, y);
            if(w <= 32) { Expr *X = sg ? P.sext(x, W) : P.zext(x, W), *Y = sg ? P.sext(y, W) : P.zext(y, W); Expr *R = P.bin(op, X, Y); o = P.notE(P.bin(E_EQ, R, sg ? P.sext(r, W) : P.zext(r, W))); }
            else if(op == E_ADD && !sg) o = P.bin(E_ULT, r, x); else if(op == E_SUB && !sg) o = P.bin(E_ULT, x, y);
            else if(op == E_MUL && !sg) { unsigned __int128 t = (unsigned __int128) x->k * y->k; o = P.cst((t >> 64) != 0, 1); }
            else unsup("wide signed overflow intrinsic");
            setr(in.dst, mk(r)); setr(in.dst + 1, mk(o)); break; }
        default: unsup("builtin " + std::to_string(b));
    }
    return true;
}

void Engine::step() {
    for(;;) {
        Frame &f = T->frames.back();
        Instr &in = f.f->code[f.ip++]; curI = &in; in.covered = true; steps++;
        if((steps & 0xffff) == 0) { if(steps > maxSteps) { report("nontermination", "nontermination@" + curFunc(), model); throw PathEnd(); } }
        switch(in.op) {
            case I_BIN: {
                Val a = get(in.a), b = get(in.b);
                if((in.sub >= E_UDIV && in.sub <= E_SREM)) {
                    if(b.e) { if(decide(P.bin(E_EQ, b.e, P.cst(0, in.w)))) memError("division-by-zero"); } else if(!(b.c & maskw(in.w))) memError("division-by-zero");
                    a = norm(a); b = norm(b);
                }
                if(!a.e && !b.e) setr(in.dst, {ExprPool::fold(in.sub, in.w, a.c & maskw(in.w), b.c & maskw(in.w)), nullptr});
                else setr(in.dst, mk(P.bin(in.sub, ex(a, in.w), ex(b, in.w))));
                break; }
            case I_ICMP: setr(in.dst, icmp(in.sub, get(in.a), get(in.b), in.w2)); break;
            case I_SELECT: {
                Val c = get(in.a);
                if(c.e && in.nslots > 1) c = {(uint64_t) decide(c.e), nullptr};
                for(unsigned s = 0; s < in.nslots; s++) { Val x = get(in.args[s * 2]), y = get(in.args[s * 2 + 1]); if(!c.e) setr(in.dst + s, (c.c & 1) ? x : y); else setr(in.dst + s, mk(P.ite(c.e, ex(x, in.widths[s]), ex(y, in.widths[s])))); }
                break; }
            case I_LOAD: {
                Val a = get(in.a); if(in.nslots > 1 && a.e) a = {resolve(a, 1, false), nullptr};
                for(unsigned s = 0; s < in.widths.size(); s++) { Val p = a; if(in.scale[s]) p.c += in.scale[s]; setr(in.dst + s, load(p, in.widths[s])); }
                break; }
            case I_STORE: {
                Val a = get(in.a); if(in.widths.size() > 1 && a.e) a = {resolve(a, 1, true), nullptr};
                for(unsigned s = 0; s < in.widths.size(); s++) { Val p = a; if(in.scale[s]) p.c += in.scale[s]; Val v = get(in.args[s]); store(p, v, in.widths[s]); }
                break; }
            case I_GEP: {
                Val r = get(in.a);
                if(!r.e) r.c += in.b.imm; else if(in.b.imm) r = mk(P.bin(E_ADD, r.e, P.cst(in.b.imm, 64)));
                for(unsigned k = 0; k < in.args.size(); k++) {
                    Val x = get(in.args[k]); unsigned w = in.widths[k];
                    if(!x.e && !r.e) r.c += (uint64_t) sx(x.c, w) * in.scale[k];
                    else { Expr *i = P.sext(ex(x, w), 64); i = P.bin(E_MUL, i, P.cst(in.scale[k], 64)); r = mk(P.bin(E_ADD, ex(r, 64), i)); }
                }
                setr(in.dst, r); break; }
            case I_BR: { Val c = get(in.a); bool t = c.e ? decide(c.e) : (c.c & 1); gotoEdge(T->frames.back(), t ? in.t1 : in.t2); break; }
            case I_JMP: gotoEdge(f, in.t1); break;
            case I_SWITCH: {
                Val c = get(in.a); uint32_t t = in.t1;
                if(!c.e) { for(size_t k = 0; k < in.scale.size(); k++) if(in.scale[k] == (c.c & maskw(in.w2))) { t = in.targets[k]; break; } }
                else for(size_t k = 0; k < in.scale.size(); k++) if(decide(P.bin(E_EQ, c.e, P.cst(in.scale[k], in.w2)))) { t = in.targets[k]; break; }
                gotoEdge(f, t); break; }
            case I_CALL: case I_CALLIND: {
                Func *cf = in.callee;
                if(in.op == I_CALLIND) { uint64_t p = conc(get(in.a)); auto it = funcByAddr.find(p); if(it == funcByAddr.end()) memError(p < 4096 ? "null-dereference" : "bad-function-pointer"); cf = it->second; 
                    if(cf->builtin >= 0) { Instr tmp = in; tmp.op = I_BUILTIN; tmp.builtin = cf->builtin; builtin(tmp); break; } }
                Val args[32]; size_t n = in.args.size(); if(n > 32) fatal("too many arguments"); for(size_t k = 0; k < n; k++) args[k] = get(in.args[k]);
                for(size_t k = cf->nparams; k < n; k++) if(args[k].e && in.widths[k] < 64 && args[k].e->w < 64) args[k] = mk(P.zext(args[k].e, 64));
                call(cf, args, n, in.dst, in.nslots, in.nfixed); break; }
            case I_BUILTIN: builtin(in); break;
            case I_RET: {
                Val r[16]; size_t n = in.args.size(); if(n > 16) fatal("too many return slots"); for(size_t k = 0; k < n; k++) r[k] = get(in.args[k]);
                int32_t dst = f.retdst; uint16_t slots = f.retslots; popFrame();
                if(T->frames.empty()) { if(cur == 1) { T->done = true; cur = 0; T = &thr[0]; fbase = T->frames.back().base; break; } ends["return"]++; return; }
                for(size_t k = 0; k < n && k < slots; k++) setr(dst + k, r[k]);
                break; }
            case I_ALLOCA: { uint64_t n = conc(get(in.a)); uint64_t a = newObj(n * in.scale[0], false, false); T->frames.back().allocas.push_back(a); mem[a]->stack = true; setr(in.dst, {a, nullptr}); break; }
            case I_ZEXT: { Val v = get(in.a); if(v.e) setr(in.dst, mk(P.zext(v.e, in.w))); else setr(in.dst, {v.c & maskw(in.w2), nullptr}); break; }
            case I_SEXT: { Val v = get(in.a); if(v.e) setr(in.dst, mk(P.sext(v.e, in.w))); else setr(in.dst, {(uint64_t) sx(v.c, in.w2) & maskw(in.w), nullptr}); break; }
            case I_TRUNC: { Val v = get(in.a); if(v.e) setr(in.dst, mk(P.extract(v.e, 0, in.w))); else setr(in.dst, {v.c & maskw(in.w), nullptr}); break; }
            case I_MOV: setr(in.dst, get(in.a)); break;
            case I_FBIN: {
                Val a = get(in.a), b = get(in.b); if(a.e || b.e) { setr(in.dst, opaque(in.w)); break; }
                auto fo = [&](auto x, auto y) { switch(in.sub) { case Instruction::FAdd: return x + y; case Instruction::FSub: return x - y; case Instruction::FMul: return x * y; case Instruction::FDiv: return x / y; default: return -x; } };
                if(in.w == 64) { double x, y, r; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); r = fo(x, y); uint64_t o; memcpy(&o, &r, 8); setr(in.dst, {o, nullptr}); }
                else { float x, y, r; uint32_t xa = a.c, xb = b.c; memcpy(&x, &xa, 4); memcpy(&y, &xb, 4); r = fo(x, y); uint32_t o; memcpy(&o, &r, 4); setr(in.dst, {o, nullptr}); }
                break; }
            case I_FCMP: {
                Val a = get(in.a), b = get(in.b); if(a.e || b.e) { setr(in.dst, opaque(1)); break; }
                double x, y; if(in.w2 == 64) { memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); } else { float p, q; uint32_t xa = a.c, xb = b.c; memcpy(&p, &xa, 4); memcpy(&q, &xb, 4); x = p; y = q; }
                bool r; switch(in.sub) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; default: r = x != y; }
                setr(in.dst, {r, nullptr}); break; }
            case I_FCVT: {
                Val a = get(in.a); if(a.e) { setr(in.dst, opaque(in.w)); break; }
                double d = 0; if(in.sub == Instruction::UIToFP) d = (double) (a.c & maskw(in.w2)); else if(in.sub == Instruction::SIToFP) d = (double) sx(a.c, in.w2);
                else if(in.w2 == 64) memcpy(&d, &a.c, 8); else { float q; uint32_t xa = a.c; memcpy(&q, &xa, 4); d = q; }
                uint64_t o = 0;
                if(in.sub == Instruction::FPToUI) o = (uint64_t) d & maskw(in.w); else if(in.sub == Instruction::FPToSI) o = (uint64_t) (int64_t) d & maskw(in.w);
                else if(in.w == 64) memcpy(&o, &d, 8); else { float q = d; memcpy(&o, &q, 4); }
                setr(in.dst, {o, nullptr}); break; }
            case I_UNREACH: memError("unreachable-executed");
        }
    }
}

void Engine::runPath(Work &w, std::vector<Work> &outw) {
    epoch++; evEpoch++; out = &outw; mem.clear(); lastObj = nullptr; cons.clear(); model = w.model; dec = w.dec; decPos = 0; inputVars.clear(); inputNames.clear(); inputW.clear(); notes.clear(); exitOk = false; steps = 0;
    brk = bump + 0x10000000ULL; for(auto &t : thr) { t.frames.clear(); t.top = 0; t.done = false; }
    cur = 0; T = &thr[0]; fbase = 0;
    resetGlobals(true); errnoAddr = newObj(8, true, false);
    S.paths++;
    try {
        Func *mainf = funcByName["zmain"]; if(!mainf) fatal("no zmain"); call(mainf, nullptr, 0, -1, 0, 0);
        step(); S.ended++; sample();
    } catch(PathEnd &) { }
    S.steps += steps;
}

// ---------------------------------------------------------------- workers
static void wr(int fd, const void *p, size_t n) { const char *c = (const char *) p; while(n) { ssize_t k = write(fd, c, n); if(k <= 0) _exit(5); c += k; n -= k; } }
static bool rd(int fd, void *p, size_t n) { char *c = (char *) p; while(n) { ssize_t k = read(fd, c, n); if(k <= 0) return false; c += k; n -= k; } return true; }
struct Buf { std::string s; void u(uint64_t v) { s.append((char *) &v, 8); } void str(const std::string &x) { u(x.size()); s += x; } };
struct Rdr { const std::string &s; size_t p = 0; uint64_t u() { uint64_t v; memcpy(&v, &s[p], 8); p += 8; return v; } std::string str() { uint64_t n = u(); std::string r = s.substr(p, n); p += n; return r; } };
static void putWork(Buf &b, const Work &w) { b.u(w.dec.size()); b.s.append((const char *) w.dec.data(), w.dec.size() * sizeof(Decision)); b.u(w.model.size()); b.s.append((const char *) w.model.data(), w.model.size() * 8); }
static void getWork(Rdr &r, Work &w) { w.dec.resize(r.u()); memcpy((void *) w.dec.data(), &r.s[r.p], w.dec.size() * sizeof(Decision)); r.p += w.dec.size() * sizeof(Decision); w.model.resize(r.u()); if(w.model.size()) memcpy(w.model.data(), &r.s[r.p], w.model.size() * 8); r.p += w.model.size() * 8; }
static void sendMsg(int fd, const std::string &s) { uint64_t n = s.size(); wr(fd, &n, 8); wr(fd, s.data(), n); }
static bool recvMsg(int fd, std::string &s) { uint64_t n; if(!rd(fd, &n, 8)) return false; s.resize(n); return n ? rd(fd, &s[0], n) : true; }

static void workerMain(int fd) {
    initSolver(); Engine E; std::string msg; size_t maxLocal = 64;
    while(recvMsg(fd, msg)) {
        Rdr r{msg}; uint64_t kind = r.u();
        if(kind == 0) break;
        double slice = r.u() / 1000.0; std::vector<Work> stack; uint64_t n = r.u(); for(uint64_t i = 0; i < n; i++) { Work w; getWork(r, w); stack.push_back(std::move(w)); }
        double t0 = now();
        while(!stack.empty() && now() - t0 < slice && now() < deadline) { Work w = std::move(stack.back()); stack.pop_back(); E.runPath(w, stack); }
        (void) maxLocal;
        Buf b; b.u(stack.size()); for(auto &w : stack) putWork(b, w); uint64_t nv = 0; for(auto &v : E.viol) if(!ignoredKey(v.first)) nv++; b.u(nv); b.u(S.paths); sendMsg(fd, b.s);
    }
    // final report
    Buf b; uint64_t *sp = (uint64_t *) &S; (void) sp;
    b.u(S.paths); b.u(S.ended); b.u(S.infeasible); b.u(S.queries); b.u(S.cacheHits); b.u(S.quick); b.u(S.unknown); b.u(S.assertsSym); b.u(S.assertsConc); b.u(S.steps); b.u(S.forks); b.u((uint64_t) (S.solver * 1e6));
    b.u(E.viol.size()); for(auto &v : E.viol) { b.str(v.second.id); b.str(v.second.key); b.str(v.second.stack); b.str(v.second.notes); b.u(E.violCount[v.first]); b.u(v.second.inputs.size()); for(auto &i : v.second.inputs) { b.str(i.first); b.u(i.second); } }
    b.u(E.covers.size()); for(auto &c : E.covers) { b.str(c.first); b.u(c.second); }
    b.u(E.asserts.size()); for(auto &c : E.asserts) { b.str(c.first); b.u(c.second); }
    b.u(E.unsupported.size()); for(auto &c : E.unsupported) b.str(c);
    b.u(E.samples.size()); for(auto &c : E.samples) b.str(c);
    b.u(E.ends.size()); for(auto &c : E.ends) { b.str(c.first); b.u(c.second); }
    b.u(funcs.size()); for(auto &f : funcs) { b.u(f->hit); uint64_t cov = 0; std::set<uint32_t> lines; for(auto &i : f->code) if(i.covered) cov++; b.u(cov); }
    sendMsg(fd, b.s);
    _exit(0);
}

static std::string js(const std::string &s) { std::string o = "\""; for(unsigned char c : s) { if(c == '"' || c == '\\') { o += '\\'; o += c; } else if(c == '\n') o += "\\n"; else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

int main(int argc, char **argv) {
    const char *bc = nullptr; const char *outp = "/dev/stdout"; int workers = 8; double tmo = 600; int maxViol = 1; bool keepGoing = false;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if(a == "--workers") workers = atoi(nx().c_str()); else if(a == "--timeout") tmo = atof(nx().c_str()); else if(a == "--out") outp = argv[++i]; else if(a == "--max-steps") maxSteps = strtoull(nx().c_str(), 0, 0);
        else if(a == "--param") { std::string p = nx(); size_t e = p.find('='); params[p.substr(0, e)] = strtoll(p.c_str() + e + 1, 0, 0); }
        else if(a == "--keep") keepFiles.insert(nx()); else if(a == "--skip") skipFuncs.insert(nx()); else if(a == "--ignore") ignoreKeys.push_back(nx()); else if(a == "--keep-going") keepGoing = true; else if(a == "--query-timeout") queryTimeout = atoi(nx().c_str());
        else bc = argv[i];
    }
    (void) maxViol;
    { struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if(rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ul << 30) && !getenv("ZSYM_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ul << 30) : std::min<rlim_t>(rl.rlim_max, 1ul << 30); setrlimit(RLIMIT_STACK, &rl); setenv("ZSYM_STACK", "1", 1); execv("/proc/self/exe", argv); } }
    if(!bc) fatal("usage: zsym file.bc [--workers n] [--timeout s] [--param k=v] [--out json]");
    signal(SIGPIPE, SIG_IGN);
    loadModule(bc);
    double start = now(); deadline = start + tmo;
    std::vector<int> fds; std::vector<pid_t> pids;
    for(int i = 0; i < workers; i++) { int sv[2]; if(socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) fatal("socketpair"); pid_t p = fork(); if(!p) { close(sv[0]); for(int x : fds) close(x); workerMain(sv[1]); } close(sv[1]); fds.push_back(sv[0]); pids.push_back(p); }
    std::deque<Work> queue; queue.push_back({}); std::vector<char> busy(workers, 0); int nbusy = 0; bool stop = false; bool incomplete = false; bool crashed = false; uint64_t totalPaths = 0; (void) totalPaths;
    double slice = 0.05; uint64_t rounds = 0;
    while((nbusy || (!queue.empty() && !stop))) {
        if(now() > deadline && !queue.empty()) { incomplete = true; stop = true; queue.clear(); }
        if(!stop) for(int i = 0; i < workers && !queue.empty(); i++) if(!busy[i]) {
            int idle = workers - nbusy; size_t give = std::max<size_t>(1, std::min<size_t>(queue.size() / (idle + workers), 64));
            Buf b; b.u(1); b.u((uint64_t) (slice * 1000)); b.u(give);
            // deepest-first keeps the queue small
            for(size_t k = 0; k < give; k++) { putWork(b, queue.back()); queue.pop_back(); }
            sendMsg(fds[i], b.s); busy[i] = 1; nbusy++;
        }
        if(!nbusy) break;
        std::vector<pollfd> pf; std::vector<int> who; for(int i = 0; i < workers; i++) if(busy[i]) { pf.push_back({fds[i], POLLIN, 0}); who.push_back(i); }
        if(poll(pf.data(), pf.size(), 1000) < 0) continue;
        for(size_t k = 0; k < pf.size(); k++) if(pf[k].revents) {
            std::string m; int i = who[k]; if(!recvMsg(fds[i], m)) { crashed = true; busy[i] = 0; nbusy--; stop = true; queue.clear(); continue; }
            Rdr r{m}; uint64_t n = r.u(); for(uint64_t x = 0; x < n; x++) { Work w; getWork(r, w); if(!stop) queue.push_back(std::move(w)); else incomplete = true; }
            uint64_t nv = r.u(); r.u(); if(nv && !keepGoing && !stop) { if(!queue.empty()) incomplete = true; stop = true; queue.clear(); }
            busy[i] = 0; nbusy--;
            rounds++; slice = rounds < 40 ? 0.05 : rounds < 200 ? 0.2 : 0.5;
        }
    }
    // collect
    Stats t; double solver = 0; std::map<std::string, std::pair<Violation, uint64_t>> viol; std::map<std::string, uint64_t> covers, asserts, ends; std::set<std::string> unsupported; std::vector<std::string> samples; std::vector<uint64_t> hit(funcs.size()), cov(funcs.size());
    for(int i = 0; i < workers; i++) {
        Buf b; b.u(0); std::string m; uint64_t ln = b.s.size(); if(write(fds[i], &ln, 8) != 8 || write(fds[i], b.s.data(), ln) != (ssize_t) ln || !recvMsg(fds[i], m)) { crashed = true; continue; }
        Rdr r{m}; t.paths += r.u(); t.ended += r.u(); t.infeasible += r.u(); t.queries += r.u(); t.cacheHits += r.u(); t.quick += r.u(); t.unknown += r.u(); t.assertsSym += r.u(); t.assertsConc += r.u(); t.steps += r.u(); t.forks += r.u(); solver += r.u() / 1e6;
        for(uint64_t n = r.u(); n; n--) { Violation v; v.id = r.str(); v.key = r.str(); v.stack = r.str(); v.notes = r.str(); uint64_t cnt = r.u(); for(uint64_t k = r.u(); k; k--) { std::string nm = r.str(); uint64_t x = r.u(); v.inputs.push_back({nm, x}); } auto &e = viol[v.key]; if(!e.second) e.first = v; e.second += cnt; }
        for(uint64_t n = r.u(); n; n--) { std::string s = r.str(); covers[s] += r.u(); }
        for(uint64_t n = r.u(); n; n--) { std::string s = r.str(); asserts[s] += r.u(); }
        for(uint64_t n = r.u(); n; n--) unsupported.insert(r.str());
        for(uint64_t n = r.u(); n; n--) { std::string s = r.str(); if(samples.size() < 96) samples.push_back(s); }
        for(uint64_t n = r.u(); n; n--) { std::string s = r.str(); ends[s] += r.u(); }
        uint64_t nf = r.u(); for(uint64_t k = 0; k < nf; k++) { hit[k] |= r.u(); cov[k] = std::max(cov[k], r.u()); }
    }
    for(pid_t p : pids) { int st; waitpid(p, &st, 0); }
    FILE *o = fopen(outp, "w"); if(!o) fatal("cannot write output");
    fprintf(o, "{\n\"complete\": %s,\n\"crashed\": %s,\n\"wall\": %.3f,\n\"paths\": %llu, \"paths_completed\": %llu, \"paths_assumed_away\": %llu, \"forks\": %llu,\n\"solver_queries\": %llu, \"query_cache_hits\": %llu, \"model_reuse\": %llu, \"solver_unknown\": %llu, \"solver_seconds\": %.3f,\n\"asserts_symbolic\": %llu, \"asserts_concrete\": %llu, \"instructions\": %llu,\n",
        (!incomplete && !crashed && unsupported.empty()) ? "true" : "false", crashed ? "true" : "false", now() - start, (unsigned long long) t.paths, (unsigned long long) t.ended, (unsigned long long) t.infeasible, (unsigned long long) t.forks, (unsigned long long) t.queries, (unsigned long long) t.cacheHits, (unsigned long long) t.quick, (unsigned long long) t.unknown, solver, (unsigned long long) t.assertsSym, (unsigned long long) t.assertsConc, (unsigned long long) t.steps);
    auto mp = [&](const char *n, std::map<std::string, uint64_t> &m) { fprintf(o, "\"%s\": {", n); bool first = true; for(auto &c : m) { fprintf(o, "%s%s: %llu", first ? "" : ", ", js(c.first).c_str(), (unsigned long long) c.second); first = false; } fprintf(o, "},\n"); };
    mp("covers", covers); mp("asserts", asserts); mp("ends", ends);
    fprintf(o, "\"unsupported\": ["); { bool f = true; for(auto &u : unsupported) { fprintf(o, "%s%s", f ? "" : ", ", js(u).c_str()); f = false; } } fprintf(o, "],\n\"samples\": ["); { bool f = true; for(auto &u : samples) { fprintf(o, "%s%s", f ? "" : ",\n  ", js(u).c_str()); f = false; } } fprintf(o, "],\n\"functions\": {");
    { bool f = true; for(size_t k = 0; k < funcs.size(); k++) if(hit[k]) { fprintf(o, "%s%s: {\"file\": %s, \"instructions\": %zu, \"covered\": %llu}", f ? "" : ",\n  ", js(funcs[k]->name).c_str(), js(funcs[k]->file).c_str(), funcs[k]->code.size(), (unsigned long long) cov[k]); f = false; } }
    fprintf(o, "},\n\"violations\": ["); { bool f = true; for(auto &v : viol) { fprintf(o, "%s{\"id\": %s, \"key\": %s, \"count\": %llu, \"stack\": %s, \"notes\": %s, \"inputs\": [", f ? "" : ",\n", js(v.second.first.id).c_str(), js(v.first).c_str(), (unsigned long long) v.second.second, js(v.second.first.stack).c_str(), js(v.second.first.notes).c_str()); f = false; bool g = true; for(auto &i : v.second.first.inputs) { fprintf(o, "%s[%s, %llu]", g ? "" : ", ", js(i.first).c_str(), (unsigned long long) i.second); g = false; } fprintf(o, "]}"); } } fprintf(o, "]\n}\n");
    fclose(o);
    return crashed ? 4 : 0;
}
