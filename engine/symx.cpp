// symx: symbolic executor for LLVM IR (see DESIGN.md).
//   symx instrument in.bc out.bc [-all REGEX]   insert preemption points
//   symx run prog.bc out.json viol.json -entry F -jobs N -time S [-cov file]
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <set>
#include "expr.h"

using namespace llvm;
typedef uint16_t u16;

// ------------------------------------------------------------------------------------------
// values, memory, state

struct Val {
    u64 lo = 0, hi = 0;
    Expr* e = nullptr;
    u128 c() const { return ((u128)hi << 64) | lo; }
};
static inline Val mkc(u128 v) { Val r; r.lo = (u64)v; r.hi = (u64)(v >> 64); return r; }
static inline Val mkc64(u64 v) { Val r; r.lo = v; return r; }

static ExprPool P;
static Solver* S;

struct MObj {
    u32 ref = 1;
    u32 size = 0;
    u8 kind = 0;      // 'g' global, 'h' heap, 's' stack, 'F' freed
    bool ro = false;
    const char* name = nullptr;
    u8* data = nullptr;
    Expr** sym = nullptr;
    ~MObj() { free(data); free(sym); }
};
static MObj* newObj(u32 size, u8 kind, u8 fill, const char* name) {
    MObj* o = new MObj;
    o->size = size; o->kind = kind; o->name = name;
    o->data = (u8*)malloc(size ? size : 1);
    memset(o->data, fill, size);
    return o;
}
static inline void unref(MObj* o) { if (o && --o->ref == 0) delete o; }

struct Leaf { u32 ref = 1; MObj* o[32] = {}; };
struct Mid { u32 ref = 1; Leaf* l[32] = {}; };
static void unrefLeaf(Leaf* l) { if (l && --l->ref == 0) { for (auto* o : l->o) unref(o); delete l; } }
static void unrefMid(Mid* m) { if (m && --m->ref == 0) { for (auto* l : m->l) unrefLeaf(l); delete m; } }

static const unsigned ADDR_SH = 24;
static const u64 MAXOBJ = (u64)1 << ADDR_SH;
static const u64 STACK_ID0 = (u64)1 << 20; // object ids of stack objects
static const unsigned STACK_TH = 14;       // ids per thread
static const u64 FUNC_BASE = 0x7f0000000000ULL;

struct Mem {
    std::vector<Mid*> top;
    Mem() {}
    Mem(const Mem& o) : top(o.top) { for (auto* m : top) if (m) m->ref++; }
    Mem& operator=(const Mem&) = delete;
    ~Mem() { for (auto* m : top) unrefMid(m); }
    static u64 idx(u64 id) { return id; }
    MObj* get(u64 id) const {
        u64 t = id >> 10;
        if (t >= top.size()) return nullptr;
        Mid* m = top[t];
        if (!m) return nullptr;
        Leaf* l = m->l[(id >> 5) & 31];
        return l ? l->o[id & 31] : nullptr;
    }
    MObj*& slot(u64 id) {
        u64 t = id >> 10;
        if (t >= top.size()) top.resize(t + 1, nullptr);
        Mid*& m = top[t];
        if (!m) m = new Mid;
        else if (m->ref > 1) {
            Mid* n = new Mid;
            for (int i = 0; i < 32; i++) { n->l[i] = m->l[i]; if (n->l[i]) n->l[i]->ref++; }
            m->ref--; m = n;
        }
        Leaf*& l = m->l[(id >> 5) & 31];
        if (!l) l = new Leaf;
        else if (l->ref > 1) {
            Leaf* n = new Leaf;
            for (int i = 0; i < 32; i++) { n->o[i] = l->o[i]; if (n->o[i]) n->o[i]->ref++; }
            l->ref--; l = n;
        }
        return l->o[id & 31];
    }
    MObj* writable(u64 id) {
        MObj*& s = slot(id);
        if (s->ref > 1) {
            MObj* n = new MObj;
            n->size = s->size; n->kind = s->kind; n->ro = s->ro; n->name = s->name;
            n->data = (u8*)malloc(s->size ? s->size : 1);
            memcpy(n->data, s->data, s->size);
            if (s->sym) {
                n->sym = (Expr**)malloc(sizeof(Expr*) * s->size);
                memcpy(n->sym, s->sym, sizeof(Expr*) * s->size);
            }
            s->ref--; s = n;
        }
        return s;
    }
};

struct Fn;
struct Frame {
    Fn* f;
    u32 base;     // first register
    u32 pc;       // next instruction
    u32 stk;      // stack object count at entry
    i32 ret;      // absolute register of caller to receive the value, -1 none
};
struct Thread {
    u32 ref = 1;
    std::vector<Frame> fr;
    std::vector<Val> regs;
    u32 nstk = 0;
    bool done = false;
};
struct Input { u32 var; u8 w; bool choice; u64 val; const char* name; };

struct State {
    Mem mem;
    std::vector<Thread*> th;
    u32 cur = 0;
    u64 nextObj = 1;
    std::vector<Expr*> pc;
    std::vector<u128> model;
    u32 nextVar = 0;
    std::vector<Input> inputs;
    u64 steps = 0;
    u32 depth = 0;
    u64 witness = 0;
    u64 clock = 0;
    State() {}
    State(const State& o) = default;
    ~State() { for (auto* t : th) if (t && --t->ref == 0) delete t; }
    Thread* T() { return th[cur]; }
    Thread* uniq(u32 i) {
        Thread*& t = th[i];
        if (t->ref > 1) { Thread* n = new Thread(*t); n->ref = 1; t->ref--; t = n; }
        return t;
    }
};
static State* forkState(State* s) {
    State* n = new State(*s);
    for (auto* t : n->th) t->ref++;
    return n;
}

// ------------------------------------------------------------------------------------------
// predecoded program

enum Op : u16 {
    OP_NOP, O_MOV, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_ICMP, O_SEL, OP_TRUNC, O_ZEXT, O_SEXT, O_LOAD, O_STORE, O_ALLOCA, O_GEPC, O_GEPN, O_BR, O_JMP, O_SWITCH, O_RET,
    O_CALL, O_UNREACH, O_RMW, O_CMPX, O_BI, O_FBIN, O_FCMP, O_FCAST, O_MULTI
};
enum Bi : u32 {
    B_NONE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STRLEN, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_ABS, B_CTPOP, B_CTTZ, B_CTLZ,
    B_BSWAP, B_FSHL, B_FSHR, B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_USUBSAT, B_UADDSAT, B_IGNORE, B_RET0, B_TRAP,
    B_ALLOC, B_FREE, B_SPAWN, B_SWITCH, B_CUR, B_THREADDONE, B_BYTES, B_U64, B_ASSUME, B_ASSERT, B_FAIL, B_WITNESS,
    B_END, B_CONC, B_CLOCK, B_ISSYM, B_PRINT, B_FABS, B_CEIL, B_FMULADD, B_UNKNOWN, B_OBJSIZE, B_ID1, B_NOTE
};
struct Inst {
    u16 op = 0;
    u8 w = 0;   // operand width
    u8 w2 = 0;  // result width / predicate
    i32 d = -1;
    i32 a = 0, b = 0, c = 0;
    u64 imm = 0;
    void* p = nullptr;
    const Instruction* I = nullptr;
};
struct Edge { u32 target; std::vector<std::pair<i32, i32>> moves; u32 bb; };
struct GepN { i64 off; std::vector<std::tuple<i32, i64, unsigned>> idx; };
struct CallI { Fn* f = nullptr; i32 fp = 0; bool indirect = false; std::vector<i32> args; std::vector<u8> aw; Bi bi = B_NONE; unsigned nret = 0; std::string name; };
struct SwI { std::vector<std::pair<u128, Edge>> cases; Edge def; };
struct BrI { Edge t, f; };
struct Fn {
    Function* F = nullptr;
    std::string name, dem;
    u32 id = 0;
    u64 addr = 0;
    bool decoded = false, decl = false;
    Bi bi = B_NONE;
    u32 nregs = 0, nargs = 0;
    std::vector<Inst> code;
    std::vector<u32> byval; // per flattened arg: size or 0
    bool inrepo = false;
};

static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::vector<Val> consts;             // constant pool; operand ~i
static std::map<const Function*, Fn*> fnOf;
static std::vector<Fn*> fns;
static std::map<const GlobalVariable*, u64> gaddr;
static u32 nbb = 0;
static std::vector<std::pair<Fn*, const BasicBlock*>> bbs;

struct Shared {
    std::atomic<int> active, stop, idle;
    std::atomic<u64> paths, insts, forks, queries, cached, sat, unsat, unknown, solverus, viol, errors, trunc, assumes, asserts, witness, started, finished, schedpts, deadline_hit, maxrss;
    std::atomic<u64> witnessBits, finishedPaths, sampled;
};
static Shared* SH;
static u8* fnUsed;   // shared: functions executed
static u8* bbUsed;
static std::string outFile, violFile;
static double tEnd;
static int jobs = 8;
static bool keepGoing = false;
static u64 maxSteps = 400000000ULL;
static bool worker = false;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

struct PathEnd {};
[[noreturn]] static void endPath() { throw PathEnd(); }
static void inputsJson(State* s, const std::vector<u128>& model, std::string& o);
static void appendLine(const std::string& f, const std::string& l);
[[noreturn]] static void goodEnd(State* s) {
    u64 n = SH->finishedPaths.fetch_add(1) + 1;
    if ((n & (n - 1)) == 0 || n % 997 == 0) {
        if (SH->sampled.fetch_add(1) < 24) { std::string o; inputsJson(s, s->model, o); appendLine(violFile + ".samples", o + "\n"); }
    }
    throw PathEnd();
}

static std::string where(State* s, unsigned maxf = 14) {
    std::string r;
    Thread* t = s->T();
    for (size_t i = t->fr.size(); i-- > 0 && maxf--;) {
        Frame& f = t->fr[i];
        std::string line;
        u32 pc = f.pc ? f.pc - 1 : 0;
        if (pc < f.f->code.size() && f.f->code[pc].I)
            if (auto& dl = f.f->code[pc].I->getDebugLoc()) {
                auto* sc = cast<DIScope>(dl.getScope());
                line = " " + sc->getFilename().str() + ":" + std::to_string(dl.getLine());
            }
        r += (r.empty() ? "" : " <- ") + f.f->dem.substr(0, 90) + line;
    }
    return r;
}

static void appendLine(const std::string& f, const std::string& l) {
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd < 0) return;
    flock(fd, LOCK_EX);
    if (write(fd, l.data(), l.size()) < 0) {}
    close(fd);
}

static void inputsJson(State* s, const std::vector<u128>& model, std::string& o) {
    o += "[";
    bool first = true;
    for (auto& in : s->inputs) {
        u64 v = in.choice ? in.val : (in.var < model.size() ? (u64)model[in.var] : 0);
        if (!in.choice && in.w < 64) v &= ((u64)1 << in.w) - 1;
        o += (first ? "" : ",");
        first = false;
        o += "[\"" + std::string(in.choice ? "c" : "v") + "\"," + std::to_string(in.w) + "," + std::to_string(v) + ",\"" + jesc(in.name ? in.name : "") + "\"]";
    }
    o += "]";
}

static void violation(State* s, const std::string& kind, const std::string& msg, const std::vector<u128>& model) {
    u64 n = SH->viol.fetch_add(1);
    if (!keepGoing) SH->stop = 1;
    if (n < 40 || keepGoing) {
        std::string o = "{\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(where(s)) + "\",\"inputs\":";
        inputsJson(s, model, o);
        o += "}\n";
        appendLine(violFile, o);
    }
}
static void engineError(State* s, const std::string& msg) {
    u64 n = SH->errors.fetch_add(1);
    if (n < 20) appendLine(violFile + ".err", msg + " @ " + where(s) + "\n");
    endPath();
}

// ------------------------------------------------------------------------------------------
// decoding

static unsigned widthOf(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
static unsigned leaves(Type* t) {
    if (t->isVoidTy()) return 0;
    if (auto* st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : st->elements()) n += leaves(e); return n; }
    if (auto* at = dyn_cast<ArrayType>(t)) return (unsigned)at->getNumElements() * leaves(at->getElementType());
    if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements() * leaves(vt->getElementType());
    return 1;
}
static void leafTypes(Type* t, u64 off, std::vector<std::pair<Type*, u64>>& out) {
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) leafTypes(st->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); i++) leafTypes(at->getElementType(), off + i * es, out);
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 es = DL->getTypeAllocSize(vt->getElementType());
        for (u64 i = 0; i < vt->getNumElements(); i++) leafTypes(vt->getElementType(), off + i * es, out);
    } else out.push_back({t, off});
}
static unsigned leafIndex(Type* t, ArrayRef<unsigned> idx) {
    unsigned r = 0;
    for (unsigned i : idx) {
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) r += leaves(st->getElementType(k)); t = st->getElementType(i); }
        else { auto* at = cast<ArrayType>(t); r += i * leaves(at->getElementType()); t = at->getElementType(); }
    }
    return r;
}

static Fn* getFn(Function* F) {
    auto it = fnOf.find(F);
    if (it != fnOf.end()) return it->second;
    Fn* f = new Fn;
    f->F = F; f->name = F->getName().str(); f->dem = demangle(f->name);
    f->id = (u32)fns.size();
    f->addr = FUNC_BASE + (u64)f->id * 16;
    f->decl = F->isDeclaration();
    fns.push_back(f);
    fnOf[F] = f;
    return f;
}

static void constLeaves(const Constant* C, std::vector<Val>& out);
static u128 constInt(const Constant* C) {
    std::vector<Val> v;
    constLeaves(C, v);
    return v[0].c();
}
static void constLeaves(const Constant* C, std::vector<Val>& out) {
    Type* t = C->getType();
    if (auto* ci = dyn_cast<ConstantInt>(C)) {
        const APInt& a = ci->getValue();
        Val v; v.lo = a.getRawData()[0]; if (a.getBitWidth() > 64) v.hi = a.getRawData()[1];
        out.push_back(v); return;
    }
    if (isa<ConstantPointerNull>(C)) { out.push_back(Val()); return; }
    if (auto* cf = dyn_cast<ConstantFP>(C)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        Val v; v.lo = a.getRawData()[0]; if (a.getBitWidth() > 64) v.hi = a.getRawData()[1];
        out.push_back(v); return;
    }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { unsigned n = leaves(t); for (unsigned i = 0; i < n; i++) out.push_back(Val()); return; }
    if (auto* F = dyn_cast<Function>(C)) { out.push_back(mkc64(getFn(const_cast<Function*>(F))->addr)); return; }
    if (auto* G = dyn_cast<GlobalVariable>(C)) {
        auto it = gaddr.find(G);
        if (it == gaddr.end()) { fprintf(stderr, "symx: global without address %s\n", G->getName().str().c_str()); exit(3); }
        out.push_back(mkc64(it->second)); return;
    }
    if (auto* A = dyn_cast<GlobalAlias>(C)) { constLeaves(A->getAliasee(), out); return; }
    if (auto* CA = dyn_cast<ConstantAggregate>(C)) { for (auto& o : CA->operands()) constLeaves(cast<Constant>(o), out); return; }
    if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); i++) constLeaves(CD->getElementAsConstant(i), out); return; }
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
        unsigned w = widthOf(t);
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off);
            u64 b = (u64)constInt(CE->getOperand(0));
            out.push_back(mkc64(b + off.getZExtValue())); return;
        }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast:
            out.push_back(mkc(constInt(CE->getOperand(0)) & maskw(w))); return;
        case Instruction::Add: out.push_back(mkc((constInt(CE->getOperand(0)) + constInt(CE->getOperand(1))) & maskw(w))); return;
        case Instruction::Sub: out.push_back(mkc((constInt(CE->getOperand(0)) - constInt(CE->getOperand(1))) & maskw(w))); return;
        case Instruction::ICmp: {
            u128 a = constInt(CE->getOperand(0)), b = constInt(CE->getOperand(1));
            bool r = CE->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b;
            out.push_back(mkc(r)); return;
        }
        default: break;
        }
    }
    errs() << "symx: unsupported constant " << *C << "\n";
    exit(3);
}

static std::map<std::pair<u64, u64>, i32> cpool;
static i32 poolVal(const Val& v) {
    auto k = std::make_pair(v.lo, v.hi);
    auto it = cpool.find(k);
    if (it != cpool.end()) return it->second;
    consts.push_back(v);
    i32 r = ~(i32)(consts.size() - 1);
    cpool[k] = r;
    return r;
}

static const std::map<std::string, Bi> bnames = {
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN},
    {"sx_alloc", B_ALLOC}, {"sx_free", B_FREE}, {"sx_spawn_raw", B_SPAWN}, {"sx_switch", B_SWITCH}, {"sx_cur", B_CUR},
    {"sx_thread_done", B_THREADDONE}, {"sx_bytes", B_BYTES}, {"sx_u64", B_U64}, {"sx_assume", B_ASSUME},
    {"sx_assert", B_ASSERT}, {"sx_fail", B_FAIL}, {"sx_witness", B_WITNESS}, {"sx_end", B_END}, {"sx_conc", B_CONC}, {"sx_clock", B_CLOCK},
    {"sx_is_symbolic", B_ISSYM}, {"sx_print", B_PRINT}, {"sx_note", B_NOTE}, {"__cxa_atexit", B_RET0}, {"ceil", B_CEIL}, {"ceill", B_CEIL},
};
static Bi intrinsicOf(Function* F) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return B_MEMCPY;
    case Intrinsic::memmove: return B_MEMMOVE;
    case Intrinsic::memset: return B_MEMSET;
    case Intrinsic::umax: return B_UMAX; case Intrinsic::umin: return B_UMIN;
    case Intrinsic::smax: return B_SMAX; case Intrinsic::smin: return B_SMIN;
    case Intrinsic::abs: return B_ABS;
    case Intrinsic::ctpop: return B_CTPOP; case Intrinsic::cttz: return B_CTTZ; case Intrinsic::ctlz: return B_CTLZ;
    case Intrinsic::bswap: return B_BSWAP;
    case Intrinsic::fshl: return B_FSHL; case Intrinsic::fshr: return B_FSHR;
    case Intrinsic::uadd_with_overflow: return B_UADDO; case Intrinsic::usub_with_overflow: return B_USUBO;
    case Intrinsic::umul_with_overflow: return B_UMULO; case Intrinsic::sadd_with_overflow: return B_SADDO;
    case Intrinsic::ssub_with_overflow: return B_SSUBO; case Intrinsic::smul_with_overflow: return B_SMULO;
    case Intrinsic::usub_sat: return B_USUBSAT; case Intrinsic::uadd_sat: return B_UADDSAT;
    case Intrinsic::trap: case Intrinsic::debugtrap: return B_TRAP;
    case Intrinsic::fabs: return B_FABS; case Intrinsic::ceil: return B_CEIL;
    case Intrinsic::fmuladd: return B_FMULADD;
    case Intrinsic::objectsize: return B_OBJSIZE;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptrmask: return B_ID1;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start:
    case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
        return B_IGNORE;
    default: return B_UNKNOWN;
    }
}

static void decode(Fn* f) {
    if (f->decoded) return;
    f->decoded = true;
    Function& F = *f->F;
    std::map<const Value*, i32> slot;
    u32 nr = 0;
    for (auto& a : F.args()) {
        slot[&a] = (i32)nr;
        unsigned n = leaves(a.getType());
        for (unsigned i = 0; i < n; i++) f->byval.push_back(a.hasByValAttr() ? (u32)DL->getTypeAllocSize(a.getParamByValType()) : 0);
        nr += n;
    }
    f->nargs = nr;
    for (auto& BB : F) for (auto& I : BB) {
        unsigned n = leaves(I.getType());
        if (n) { slot[&I] = (i32)nr; nr += n; }
    }
    u32 scratch = nr; // space for parallel phi moves handled with temporaries in the executor
    (void)scratch;
    f->nregs = nr;
    auto opnd = [&](const Value* v, unsigned leaf = 0) -> i32 {
        if (auto* C = dyn_cast<Constant>(v)) {
            std::vector<Val> vs;
            constLeaves(C, vs);
            return poolVal(vs.at(leaf));
        }
        auto it = slot.find(v);
        if (it == slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return 0; errs() << "no slot " << *v << "\n"; exit(3); }
        return it->second + (i32)leaf;
    };
    std::map<const BasicBlock*, u32> start;
    std::map<const BasicBlock*, u32> bbid;
    // first pass: emit code with block pointers, then resolve
    struct Fix { Edge* e; const BasicBlock* bb; };
    std::vector<Fix> fixes;
    auto mkEdge = [&](Edge& e, const BasicBlock* from, const BasicBlock* to) {
        for (auto& phi : to->phis()) {
            const Value* iv = phi.getIncomingValueForBlock(from);
            unsigned n = leaves(phi.getType());
            for (unsigned i = 0; i < n; i++) {
                i32 s = opnd(iv, i), d = slot[&phi] + (i32)i;
                if (s != d) e.moves.push_back({d, s});
            }
        }
        fixes.push_back({&e, to});
    };
    for (auto& BB : F) {
        start[&BB] = (u32)f->code.size();
        bbid[&BB] = nbb++;
        bbs.push_back({f, &BB});
        for (auto& I : BB) {
            Inst in;
            in.I = &I;
            auto it = slot.find(&I);
            in.d = it == slot.end() ? -1 : it->second;
            auto bin3 = [&](Op o) { in.op = o; in.w = (u8)widthOf(I.getType()); in.a = opnd(I.getOperand(0)); in.b = opnd(I.getOperand(1)); };
            if (I.getType()->isVectorTy()) { in.op = O_UNREACH; in.imm = 2; f->code.push_back(in); continue; }
            switch (I.getOpcode()) {
            case Instruction::PHI: continue;
            case Instruction::Add: bin3(O_ADD); break;
            case Instruction::Sub: bin3(O_SUB); break;
            case Instruction::Mul: bin3(O_MUL); break;
            case Instruction::UDiv: bin3(O_UDIV); break;
            case Instruction::SDiv: bin3(O_SDIV); break;
            case Instruction::URem: bin3(O_UREM); break;
            case Instruction::SRem: bin3(O_SREM); break;
            case Instruction::And: bin3(O_AND); break;
            case Instruction::Or: bin3(O_OR); break;
            case Instruction::Xor: bin3(O_XOR); break;
            case Instruction::Shl: bin3(O_SHL); break;
            case Instruction::LShr: bin3(O_LSHR); break;
            case Instruction::AShr: bin3(O_ASHR); break;
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
                bin3(O_FBIN); in.imm = I.getOpcode(); break;
            case Instruction::FCmp:
                in.op = O_FCMP; in.w = (u8)widthOf(I.getOperand(0)->getType()); in.a = opnd(I.getOperand(0)); in.b = opnd(I.getOperand(1));
                in.imm = cast<FCmpInst>(I).getPredicate(); break;
            case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc:
                in.op = O_FCAST; in.w = (u8)widthOf(I.getOperand(0)->getType()); in.w2 = (u8)widthOf(I.getType()); in.a = opnd(I.getOperand(0)); in.imm = I.getOpcode(); break;
            case Instruction::ICmp:
                in.op = O_ICMP; in.w = (u8)widthOf(I.getOperand(0)->getType()); in.a = opnd(I.getOperand(0)); in.b = opnd(I.getOperand(1));
                in.w2 = (u8)cast<ICmpInst>(I).getPredicate(); break;
            case Instruction::Select: {
                unsigned n = leaves(I.getType());
                for (unsigned i = 0; i < n; i++) {
                    Inst s = in;
                    s.op = O_SEL; s.c = opnd(I.getOperand(0)); s.a = opnd(I.getOperand(1), i); s.b = opnd(I.getOperand(2), i);
                    std::vector<std::pair<Type*, u64>> lt; leafTypes(I.getType(), 0, lt);
                    s.w = (u8)widthOf(lt[i].first);
                    s.d = in.d + (i32)i;
                    f->code.push_back(s);
                }
                continue;
            }
            case Instruction::Trunc: in.op = OP_TRUNC; in.w = (u8)widthOf(I.getType()); in.a = opnd(I.getOperand(0)); break;
            case Instruction::ZExt: in.op = O_ZEXT; in.w = (u8)widthOf(I.getOperand(0)->getType()); in.w2 = (u8)widthOf(I.getType()); in.a = opnd(I.getOperand(0)); break;
            case Instruction::SExt: in.op = O_SEXT; in.w = (u8)widthOf(I.getOperand(0)->getType()); in.w2 = (u8)widthOf(I.getType()); in.a = opnd(I.getOperand(0)); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                unsigned a = widthOf(I.getOperand(0)->getType()), b = widthOf(I.getType());
                in.a = opnd(I.getOperand(0));
                if (a == b) in.op = O_MOV;
                else if (a > b) { in.op = OP_TRUNC; in.w = (u8)b; }
                else { in.op = O_ZEXT; in.w = (u8)a; in.w2 = (u8)b; }
                break;
            }
            case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
                unsigned n = leaves(I.getType());
                for (unsigned i = 0; i < n; i++) { Inst s = in; s.op = O_MOV; s.a = opnd(I.getOperand(0), i); s.d = in.d + (i32)i; f->code.push_back(s); }
                continue;
            }
            case Instruction::ExtractValue: {
                auto& ev = cast<ExtractValueInst>(I);
                unsigned o = leafIndex(ev.getAggregateOperand()->getType(), ev.getIndices());
                unsigned n = leaves(I.getType());
                for (unsigned i = 0; i < n; i++) { Inst s = in; s.op = O_MOV; s.a = opnd(ev.getAggregateOperand(), o + i); s.d = in.d + (i32)i; f->code.push_back(s); }
                continue;
            }
            case Instruction::InsertValue: {
                auto& iv = cast<InsertValueInst>(I);
                unsigned o = leafIndex(I.getType(), iv.getIndices());
                unsigned k = leaves(iv.getInsertedValueOperand()->getType());
                unsigned n = leaves(I.getType());
                for (unsigned i = 0; i < n; i++) {
                    Inst s = in; s.op = O_MOV; s.d = in.d + (i32)i;
                    s.a = (i >= o && i < o + k) ? opnd(iv.getInsertedValueOperand(), i - o) : opnd(iv.getAggregateOperand(), i);
                    f->code.push_back(s);
                }
                continue;
            }
            case Instruction::Load: case Instruction::Store: {
                bool ld = I.getOpcode() == Instruction::Load;
                Type* t = ld ? I.getType() : I.getOperand(0)->getType();
                std::vector<std::pair<Type*, u64>> lt; leafTypes(t, 0, lt);
                i32 ptr = opnd(I.getOperand(ld ? 0 : 1));
                for (unsigned i = 0; i < lt.size(); i++) {
                    Inst s = in;
                    s.op = ld ? O_LOAD : O_STORE; s.w = (u8)widthOf(lt[i].first);
                    if (!s.w) { s.op = O_UNREACH; s.imm = 2; }
                    s.w2 = (u8)((s.w + 7) / 8);
                    s.imm = lt[i].second; s.a = ptr;
                    if (ld) s.d = in.d + (i32)i; else s.b = opnd(I.getOperand(0), i);
                    f->code.push_back(s);
                }
                continue;
            }
            case Instruction::Alloca: {
                auto& ai = cast<AllocaInst>(I);
                in.op = O_ALLOCA; in.imm = DL->getTypeAllocSize(ai.getAllocatedType());
                in.a = opnd(ai.getArraySize());
                break;
            }
            case Instruction::GetElementPtr: {
                auto& g = cast<GetElementPtrInst>(I);
                if (g.getType()->isVectorTy()) { in.op = O_UNREACH; in.imm = 2; break; }
                auto* gn = new GepN; gn->off = 0;
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    if (auto* st = gi.getStructTypeOrNull()) gn->off += (i64)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(gi.getOperand())->getZExtValue());
                    else {
                        i64 sz = (i64)DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand())) gn->off += ci->getSExtValue() * sz;
                        else gn->idx.push_back({opnd(gi.getOperand()), sz, widthOf(gi.getOperand()->getType())});
                    }
                }
                in.a = opnd(g.getPointerOperand());
                in.imm = (u64)gn->off;
                if (gn->idx.empty()) { in.op = O_GEPC; delete gn; }
                else { in.op = O_GEPN; in.p = gn; }
                break;
            }
            case Instruction::Br: {
                auto& b = cast<BranchInst>(I);
                auto* bi = new BrI;
                in.p = bi;
                if (b.isConditional()) { in.op = O_BR; in.a = opnd(b.getCondition()); mkEdge(bi->t, &BB, b.getSuccessor(0)); mkEdge(bi->f, &BB, b.getSuccessor(1)); }
                else { in.op = O_JMP; mkEdge(bi->t, &BB, b.getSuccessor(0)); }
                break;
            }
            case Instruction::Switch: {
                auto& sw = cast<SwitchInst>(I);
                auto* si = new SwI;
                in.op = O_SWITCH; in.p = si; in.a = opnd(sw.getCondition()); in.w = (u8)widthOf(sw.getCondition()->getType());
                si->cases.resize(sw.getNumCases());
                unsigned k = 0;
                for (auto& c : sw.cases()) { si->cases[k].first = constInt(c.getCaseValue()); mkEdge(si->cases[k].second, &BB, c.getCaseSuccessor()); k++; }
                mkEdge(si->def, &BB, sw.getDefaultDest());
                break;
            }
            case Instruction::Ret: {
                in.op = O_RET;
                auto* rv = cast<ReturnInst>(I).getReturnValue();
                in.b = rv ? (i32)leaves(rv->getType()) : 0;
                auto* ops = new std::vector<i32>;
                for (i32 i = 0; i < in.b; i++) ops->push_back(opnd(rv, (unsigned)i));
                in.p = ops;
                break;
            }
            case Instruction::Unreachable: in.op = O_UNREACH; break;
            case Instruction::Fence: in.op = OP_NOP; break;
            case Instruction::AtomicRMW: {
                auto& r = cast<AtomicRMWInst>(I);
                in.op = O_RMW; in.w = (u8)widthOf(I.getType()); in.w2 = (u8)((in.w + 7) / 8); in.a = opnd(r.getPointerOperand()); in.b = opnd(r.getValOperand()); in.imm = r.getOperation();
                break;
            }
            case Instruction::AtomicCmpXchg: {
                auto& c = cast<AtomicCmpXchgInst>(I);
                in.op = O_CMPX; in.w = (u8)widthOf(c.getNewValOperand()->getType()); in.w2 = (u8)((in.w + 7) / 8);
                in.a = opnd(c.getPointerOperand()); in.b = opnd(c.getCompareOperand()); in.c = opnd(c.getNewValOperand());
                break;
            }
            case Instruction::Invoke:
            case Instruction::Call: {
                auto& cb = cast<CallBase>(I);
                auto* ci = new CallI;
                in.op = O_CALL; in.p = ci;
                ci->nret = leaves(I.getType());
                Value* cv = cb.getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
                if (auto* ia = dyn_cast<InlineAsm>(cv)) {
                    std::string s = ia->getAsmString();
                    ci->name = "asm:" + s;
                    if (s.find("rdtsc") != std::string::npos) ci->bi = B_CLOCK;
                    else if (s.empty() || s == "cpuid" || s.find("fence") != std::string::npos) ci->bi = B_IGNORE;
                    else ci->bi = B_UNKNOWN;
                    if (ci->bi == B_IGNORE) { continue; }
                } else if (auto* CF = dyn_cast<Function>(cv)) {
                    ci->name = CF->getName().str();
                    if (CF->isIntrinsic()) {
                        ci->bi = intrinsicOf(CF);
                        if (ci->bi == B_IGNORE) {
                            continue;
                        }
                        if (ci->bi == B_UNKNOWN && ci->name.find("sse2.pause") != std::string::npos) {
                            Function* PF = M->getFunction("sx_pause");
                            if (PF) { ci->bi = B_NONE; ci->f = getFn(PF); f->code.push_back(in); continue; }
                        }
                    } else if (CF->isDeclaration()) {
                        auto bi = bnames.find(ci->name);
                        ci->bi = bi == bnames.end() ? B_UNKNOWN : bi->second;
                    } else {
                        auto bi = bnames.find(ci->name); // engine builtins win over modelled bodies
                        if (bi != bnames.end()) ci->bi = bi->second;
                        else ci->f = getFn(CF);
                    }
                } else { ci->indirect = true; ci->fp = opnd(cv); }
                for (auto& a : cb.args()) {
                    if (a->getType()->isMetadataTy()) continue;
                    std::vector<std::pair<Type*, u64>> lt; leafTypes(a->getType(), 0, lt);
                    for (unsigned i = 0; i < lt.size(); i++) { ci->args.push_back(opnd(a, i)); ci->aw.push_back((u8)widthOf(lt[i].first)); }
                }
                in.w = (u8)(ci->nret == 1 ? widthOf(I.getType()) : 0);
                if (ci->bi != B_NONE) in.op = O_BI;
                f->code.push_back(in);
                if (auto* inv = dyn_cast<InvokeInst>(&I)) {
                    Inst j; j.I = &I; j.op = O_JMP; auto* bi = new BrI; j.p = bi; mkEdge(bi->t, &BB, inv->getNormalDest());
                    f->code.push_back(j);
                }
                continue;
            }
            default:
                in.op = O_UNREACH; in.imm = 2; break;
            }
            f->code.push_back(in);
        }
    }
    for (auto& fx : fixes) { fx.e->target = start[fx.bb]; fx.e->bb = bbid[fx.bb]; }
}

// ------------------------------------------------------------------------------------------
// execution

static std::vector<State*> work;

static Expr* ex(const Val& v, unsigned w) { return v.e ? v.e : P.cst(w, v.c()); }
static Val fromE(Expr* e) {
    if (e->k == K_CONST) return mkc(e->v);
    Val r; r.e = e; return r;
}

static void addPC(State* s, Expr* c) {
    if (P.isC(c)) return;
    if (c->k == K_AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
    s->pc.push_back(c);
}

static int checkSat(State* s, Expr* c, std::vector<u128>& model) {
    int r = S->check(s->pc, c, model);
    if (r < 0) {
        SH->unknown++;
    }
    return r;
}

// true/false decided for this state; the other side, if feasible, is queued
static bool branch(State* s, Expr* c) {
    if (P.isC(c)) return c->v != 0;
    bool side = P.eval(c, s->model) != 0;
    Expr* taken = side ? c : P.notE(c);
    Expr* other = side ? P.notE(c) : c;
    for (size_t i = s->pc.size(); i-- > 0;) if (s->pc[i] == taken) return side;
    std::vector<u128> m2 = s->model;
    int r = checkSat(s, other, m2);
    if (r == 1) {
        State* n = forkState(s);
        n->model.swap(m2);
        addPC(n, other);
        n->depth++;
        SH->forks++;
        // the sibling re-executes the current instruction with the added constraint: it
        // then evaluates to the other side, the first side being infeasible
        n->T(); n->uniq(n->cur)->fr.back().pc--;
        work.push_back(n);
        addPC(s, taken);
        s->uniq(s->cur);
        s->depth++;
    }
    return side;
}

// concrete value of v on this path; other feasible values are queued
static u128 concretize(State* s, const Val& v, unsigned w, const char* what) {
    if (!v.e) return v.c();
    u128 cv = P.eval(v.e, s->model);
    Expr* eq = P.bin(K_EQ, v.e, P.cst(w, cv));
    (void)what;
    if (!branch(s, eq)) abort();
    return cv;
}

struct MemErr { std::string msg; };

static inline MObj* findObj(State* s, u64 addr, u64& off) {
    off = addr & (MAXOBJ - 1);
    return s->mem.get(addr >> ADDR_SH);
}

[[noreturn]] static void memViolation(State* s, const std::string& what, u64 addr) {
    char b[256];
    u64 off;
    MObj* o = findObj(s, addr, off);
    if (addr < MAXOBJ) snprintf(b, 256, "%s at null pointer + %llu", what.c_str(), (unsigned long long)addr);
    else if (!o) snprintf(b, 256, "%s at unmapped address 0x%llx (object released or never allocated)", what.c_str(), (unsigned long long)addr);
    else snprintf(b, 256, "%s at offset %llu of %u byte %s object%s%s", what.c_str(), (unsigned long long)off, o->size,
                  o->kind == 'F' ? "released" : o->kind == 'g' ? "global" : o->kind == 's' ? "stack" : "heap", o->name ? " " : "", o->name ? o->name : "");
    violation(s, "memory", b, s->model);
    endPath();
}

static inline MObj* access(State* s, u64 addr, u64 n, u64& off, bool wr) {
    MObj* o = findObj(s, addr, off);
    if (__builtin_expect(!o || off + n > o->size || o->kind == 'F' || (wr && o->ro), 0)) memViolation(s, wr ? "write" : "read", addr);
    return o;
}

static Val readMem(State* s, u64 addr, unsigned w, unsigned n) {
    u64 off;
    MObj* o = access(s, addr, n, off, false);
    Val r;
    if (!o->sym) {
        if (n == 8) memcpy(&r.lo, o->data + off, 8);
        else if (n == 16) { memcpy(&r.lo, o->data + off, 8); memcpy(&r.hi, o->data + off + 8, 8); }
        else if (n <= 8) { memcpy(&r.lo, o->data + off, n); if (w < 64) r.lo &= ((u64)1 << w) - 1; }
        else { memcpy(&r.lo, o->data + off, 8); memcpy(&r.hi, o->data + off + 8, n - 8); }
        return r;
    }
    bool any = false;
    for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { any = true; break; }
    if (!any) {
        memcpy(&r.lo, o->data + off, n < 8 ? n : 8);
        if (n > 8) memcpy(&r.hi, o->data + off + 8, n - 8);
        if (w < 64) r.lo &= ((u64)1 << w) - 1;
        return r;
    }
    Expr* e = nullptr;
    for (unsigned i = 0; i < n; i++) {
        Expr* b = o->sym[off + i] ? o->sym[off + i] : P.cst(8, o->data[off + i]);
        e = e ? P.concat(b, e) : b;
    }
    if (w < n * 8) e = P.extract(e, w - 1, 0);
    return fromE(e);
}
static void ensureSym(MObj* o) {
    if (!o->sym) o->sym = (Expr**)calloc(o->size ? o->size : 1, sizeof(Expr*));
}
static void writeMem(State* s, u64 addr, const Val& v, unsigned w, unsigned n) {
    u64 off;
    access(s, addr, n, off, true);
    MObj* o = s->mem.writable(addr >> ADDR_SH);
    if (!v.e) {
        if (n <= 8) memcpy(o->data + off, &v.lo, n);
        else { memcpy(o->data + off, &v.lo, 8); memcpy(o->data + off + 8, &v.hi, n - 8); }
        if (o->sym) memset(o->sym + off, 0, sizeof(Expr*) * n);
        return;
    }
    ensureSym(o);
    Expr* e = v.e;
    if (w < n * 8) e = P.zext(e, n * 8);
    for (unsigned i = 0; i < n; i++) {
        Expr* b = P.extract(e, i * 8 + 7, i * 8);
        if (P.isC(b)) { o->data[off + i] = (u8)b->v; o->sym[off + i] = nullptr; }
        else { o->sym[off + i] = b; }
    }
}
static void copyMem(State* s, u64 dst, u64 src, u64 n) {
    if (!n) return;
    u64 so, dof;
    MObj* a = access(s, src, n, so, false);
    access(s, dst, n, dof, true);
    a->ref++;
    MObj* b = s->mem.writable(dst >> ADDR_SH); // may clone if same object
    memmove(b->data + dof, a->data + so, n);
    if (a->sym) {
        ensureSym(b);
        memmove(b->sym + dof, a->sym + so, n * sizeof(Expr*));
    } else if (b->sym) memset(b->sym + dof, 0, n * sizeof(Expr*));
    unref(a);
}

static u64 allocObj(State* s, u64 size, u8 kind, u8 fill, const char* name) {
    if (size >= MAXOBJ) { engineError(s, "object too large"); }
    u64 id = s->nextObj++;
    if (id >= STACK_ID0) engineError(s, "out of object ids");
    s->mem.slot(id) = newObj((u32)size, kind, fill, name);
    return id << ADDR_SH;
}
static u64 allocStack(State* s, Thread* t, u32 ti, u64 size) {
    u64 id = STACK_ID0 + ((u64)ti << STACK_TH) + t->nstk++;
    if (t->nstk >= (1u << STACK_TH)) engineError(s, "stack overflow");
    MObj*& m = s->mem.slot(id);
    unref(m);
    m = newObj((u32)size, 's', 0xA5, nullptr);
    return id << ADDR_SH;
}
static void popStack(State* s, Thread* t, u32 ti, u32 to) {
    while (t->nstk > to) {
        u64 id = STACK_ID0 + ((u64)ti << STACK_TH) + --t->nstk;
        MObj*& m = s->mem.slot(id);
        unref(m);
        m = nullptr;
    }
}

static void pushFrame(State* s, Thread* t, Fn* f, const Val* args, u32 nargs, i32 ret) {
    if (!f->decoded) decode(f);
    if (!fnUsed[f->id]) fnUsed[f->id] = 1;
    if (t->fr.size() > 400) engineError(s, "call depth");
    Frame fr;
    fr.f = f; fr.pc = 0; fr.stk = t->nstk; fr.ret = ret;
    fr.base = t->fr.empty() ? 0 : t->fr.back().base + t->fr.back().f->nregs;
    t->regs.resize(fr.base + f->nregs);
    if (nargs < f->nargs) engineError(s, "argument count of " + f->dem);
    for (u32 i = 0; i < f->nargs; i++) t->regs[fr.base + i] = args[i];
    t->fr.push_back(fr);
    for (u32 i = 0; i < f->nargs; i++)
        if (f->byval[i]) {
            u64 a = allocStack(s, t, s->cur, f->byval[i]);
            copyMem(s, a, args[i].lo, f->byval[i]);
            t->regs[fr.base + i] = mkc64(a);
        }
}

static std::string cstr(State* s, u64 a) {
    std::string r;
    for (;;) {
        u64 off;
        MObj* o = findObj(s, a, off);
        if (!o || off >= o->size || !o->data[off] || r.size() > 400) break;
        r += (char)o->data[off];
        a++;
    }
    return r;
}
// constant strings live in globals that never move: intern for input names
static const char* internStr(const std::string& x) {
    static std::set<std::string> t;
    return t.insert(x).first->c_str();
}

static const K kOf[] = {K_CONST, K_CONST, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR};

static Expr* icmpE(unsigned pred, Expr* a, Expr* b) {
    switch (pred) {
    case CmpInst::ICMP_EQ: return P.bin(K_EQ, a, b);
    case CmpInst::ICMP_NE: return P.notE(P.bin(K_EQ, a, b));
    case CmpInst::ICMP_ULT: return P.bin(K_ULT, a, b);
    case CmpInst::ICMP_ULE: return P.bin(K_ULE, a, b);
    case CmpInst::ICMP_UGT: return P.bin(K_ULT, b, a);
    case CmpInst::ICMP_UGE: return P.bin(K_ULE, b, a);
    case CmpInst::ICMP_SLT: return P.bin(K_SLT, a, b);
    case CmpInst::ICMP_SLE: return P.bin(K_SLE, a, b);
    case CmpInst::ICMP_SGT: return P.bin(K_SLT, b, a);
    case CmpInst::ICMP_SGE: return P.bin(K_SLE, b, a);
    default: abort();
    }
}
static bool icmpC(unsigned pred, u128 a, u128 b, unsigned w) {
    switch (pred) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return sextw(a, w) < sextw(b, w);
    case CmpInst::ICMP_SLE: return sextw(a, w) <= sextw(b, w);
    case CmpInst::ICMP_SGT: return sextw(a, w) > sextw(b, w);
    case CmpInst::ICMP_SGE: return sextw(a, w) >= sextw(b, w);
    default: abort();
    }
}

static double asD(u64 b, unsigned w) { if (w == 32) { float f; u32 x = (u32)b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 b; memcpy(&b, &d, 8); return b; }

struct Run {
    State* s;
    Thread* t;
    Frame* f;
    Val* R;
    void reload() { t = s->th[s->cur]; if (t->ref > 1) t = s->uniq(s->cur); f = &t->fr.back(); R = t->regs.data() + f->base; }
    inline const Val& g(i32 o) const { return o >= 0 ? R[o] : consts[(u32)~o]; }
    u64 ptr(i32 o, const char* what) {
        const Val& v = g(o);
        if (!v.e) return v.lo;
        Val c = v;
        u64 r = (u64)concretize(s, c, 64, what);
        reload();
        return r;
    }
    void jump(const Edge& e) {
        if (!e.moves.empty()) {
            if (e.moves.size() == 1) R[e.moves[0].first] = g(e.moves[0].second);
            else {
                Val tmp[64];
                size_t n = e.moves.size();
                if (n > 64) abort();
                for (size_t i = 0; i < n; i++) tmp[i] = g(e.moves[i].second);
                for (size_t i = 0; i < n; i++) R[e.moves[i].first] = tmp[i];
            }
        }
        f->pc = e.target;
        bbUsed[e.bb] = 1;
    }
    void ret(const std::vector<i32>& ops) {
        Val tmp[16];
        size_t n = ops.size();
        for (size_t i = 0; i < n; i++) tmp[i] = g(ops[i]);
        i32 dst = f->ret;
        popStack(s, t, s->cur, f->stk);
        t->fr.pop_back();
        if (t->fr.empty()) { t->done = true; return; }
        f = &t->fr.back();
        t->regs.resize(f->base + f->f->nregs);
        R = t->regs.data() + f->base;
        if (dst >= 0) for (size_t i = 0; i < n; i++) t->regs[(size_t)dst + i] = tmp[i];
    }
    void builtin(const Inst& in, const CallI& ci);
    void run();
};

static void fail(State* s, const char* kind, const std::string& msg) {
    violation(s, kind, msg, s->model);
    endPath();
}

void Run::builtin(const Inst& in, const CallI& ci) {
    auto A = [&](unsigned i) -> const Val& { return g(ci.args[i]); };
    auto set = [&](const Val& v) { if (in.d >= 0) R[in.d] = v; };
    auto conc = [&](unsigned i) -> u64 { return ptr(ci.args[i], "builtin"); };
    unsigned w = in.w;
    switch (ci.bi) {
    case B_MEMCPY: case B_MEMMOVE: {
        u64 n = conc(2), d = conc(0), sr = conc(1);
        if (n) copyMem(s, d, sr, n);
        if (in.d >= 0) R[in.d] = mkc64(d);
        break;
    }
    case B_MEMSET: {
        u64 n = conc(2), d = conc(0);
        Val v = A(1);
        if (n) {
            if (!v.e) {
                u64 off;
                access(s, d, n, off, true);
                MObj* o = s->mem.writable(d >> ADDR_SH);
                memset(o->data + off, (int)(v.lo & 255), n);
                if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr*));
            } else {
                Val b = fromE(P.extract(v.e, 7, 0));
                for (u64 i = 0; i < n; i++) writeMem(s, d + i, b, 8, 1);
            }
        }
        if (in.d >= 0) R[in.d] = mkc64(d);
        break;
    }
    case B_MEMCMP: {
        u64 n = conc(2);
        if (!n) { set(mkc64(0)); break; }
        u64 a = conc(0), b = conc(1);
        u64 ao, bo;
        MObj* x = access(s, a, n, ao, false);
        MObj* y = access(s, b, n, bo, false);
        auto by = [](MObj* o, u64 i) -> Expr* { return o->sym && o->sym[i] ? o->sym[i] : nullptr; };
        // result built from the end; concrete prefixes decide early
        Expr* r = P.cst(32, 0);
        u64 stopAt = n;
        for (u64 i = 0; i < n; i++)
            if (!by(x, ao + i) && !by(y, bo + i) && x->data[ao + i] != y->data[bo + i]) {
                r = P.cst(32, x->data[ao + i] < y->data[bo + i] ? 0xffffffffu : 1u);
                stopAt = i;
                break;
            }
        for (u64 i = stopAt; i-- > 0;) {
            Expr *p = by(x, ao + i), *q = by(y, bo + i);
            if (!p && !q) continue;
            if (!p) p = P.cst(8, x->data[ao + i]);
            if (!q) q = P.cst(8, y->data[bo + i]);
            if (p == q) continue;
            r = P.ite(P.bin(K_EQ, p, q), r, P.ite(P.bin(K_ULT, p, q), P.cst(32, 0xffffffffu), P.cst(32, 1)));
        }
        set(fromE(r));
        break;
    }
    case B_STRLEN: {
        u64 a = conc(0), n = 0;
        for (;; n++) {
            Val v = readMem(s, a + n, 8, 1);
            if (v.e) {
                bool z = branch(s, P.bin(K_EQ, v.e, P.cst(8, 0)));
                reload();
                if (z) break;
            } else if (!v.lo) break;
        }
        set(mkc64(n));
        break;
    }
    case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN: {
        const Val &a = A(0), &b = A(1);
        unsigned pr = ci.bi == B_UMAX ? CmpInst::ICMP_UGT : ci.bi == B_UMIN ? CmpInst::ICMP_ULT : ci.bi == B_SMAX ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
        if (!a.e && !b.e) set(icmpC(pr, a.c(), b.c(), w) ? a : b);
        else { Expr *x = ex(a, w), *y = ex(b, w); set(fromE(P.ite(icmpE(pr, x, y), x, y))); }
        break;
    }
    case B_ABS: {
        const Val& a = A(0);
        Expr* x = ex(a, w);
        set(fromE(P.ite(P.bin(K_SLT, x, P.cst(w, 0)), P.bin(K_SUB, P.cst(w, 0), x), x)));
        break;
    }
    case B_CTPOP: {
        const Val& a = A(0);
        if (!a.e) { set(mkc64((u64)__builtin_popcountll(a.lo) + (u64)__builtin_popcountll(a.hi))); break; }
        Expr* r = P.cst(w, 0);
        for (unsigned i = 0; i < w; i++) r = P.bin(K_ADD, r, P.zext(P.extract(a.e, i, i), w));
        set(fromE(r));
        break;
    }
    case B_CTTZ: case B_CTLZ: {
        const Val& a = A(0);
        Expr* x = ex(a, w);
        Expr* r = P.cst(w, w);
        for (unsigned k = 0; k < w; k++) {
            unsigned i = ci.bi == B_CTTZ ? w - 1 - k : k;
            unsigned val = ci.bi == B_CTTZ ? i : w - 1 - i;
            r = P.ite(P.extract(x, i, i), P.cst(w, val), r);
        }
        set(fromE(r));
        break;
    }
    case B_BSWAP: {
        Expr* x = ex(A(0), w);
        Expr* r = nullptr;
        for (unsigned i = 0; i < w / 8; i++) { Expr* b = P.extract(x, i * 8 + 7, i * 8); r = r ? P.concat(r, b) : b; }
        set(fromE(r));
        break;
    }
    case B_FSHL: case B_FSHR: {
        Expr *a = ex(A(0), w), *b = ex(A(1), w);
        u64 sh = conc(2) % w;
        if (!sh) { set(fromE(ci.bi == B_FSHL ? a : b)); break; }
        if (ci.bi == B_FSHR) sh = w - sh;
        set(fromE(P.bin(K_OR, P.bin(K_SHL, a, P.cst(w, sh)), P.bin(K_LSHR, b, P.cst(w, w - sh)))));
        break;
    }
    case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: {
        unsigned aw = ci.aw[0];
        Expr *a = ex(A(0), aw), *b = ex(A(1), aw);
        bool sg = ci.bi == B_SADDO || ci.bi == B_SSUBO || ci.bi == B_SMULO;
        K k = (ci.bi == B_UADDO || ci.bi == B_SADDO) ? K_ADD : (ci.bi == B_USUBO || ci.bi == B_SSUBO) ? K_SUB : K_MUL;
        unsigned ww = k == K_MUL ? aw * 2 : aw + 1;
        if (ww > 128) { if (!P.isC(a) || !P.isC(b)) engineError(s, "wide overflow op"); ww = 128; }
        Expr *xa = sg ? P.sext(a, ww) : P.zext(a, ww), *xb = sg ? P.sext(b, ww) : P.zext(b, ww);
        Expr* r = P.bin(k, xa, xb);
        Expr* lo = P.extract(r, aw - 1, 0);
        Expr* ov = P.notE(P.bin(K_EQ, sg ? P.sext(lo, ww) : P.zext(lo, ww), r));
        R[in.d] = fromE(lo);
        R[in.d + 1] = fromE(ov);
        break;
    }
    case B_USUBSAT: { Expr *a = ex(A(0), w), *b = ex(A(1), w); set(fromE(P.ite(P.bin(K_ULT, a, b), P.cst(w, 0), P.bin(K_SUB, a, b)))); break; }
    case B_UADDSAT: { Expr *a = ex(A(0), w), *b = ex(A(1), w); Expr* r = P.bin(K_ADD, a, b); set(fromE(P.ite(P.bin(K_ULT, r, a), P.cst(w, maskw(w)), r))); break; }
    case B_IGNORE: break;
    case B_RET0: set(Val()); break;
    case B_ID1: set(A(0)); break;
    case B_OBJSIZE: set(mkc64(~0ULL)); break;
    case B_TRAP: fail(s, "trap", "trap"); break;
    case B_ALLOC: {
        u64 n = conc(0);
        set(mkc64(allocObj(s, n, 'h', 0xA5, nullptr)));
        break;
    }
    case B_FREE: {
        u64 a = conc(0);
        if (!a) break;
        u64 off;
        MObj* o = findObj(s, a, off);
        if (!o || off || o->kind != 'h') memViolation(s, "free", a);
        MObj*& sl = s->mem.slot(a >> ADDR_SH);
        unref(sl);
        sl = nullptr;
        break;
    }
    case B_SPAWN: {
        u64 fp = conc(0);
        Val arg = A(1);
        if (fp < FUNC_BASE || (fp - FUNC_BASE) / 16 >= fns.size()) engineError(s, "spawn target");
        Fn* fn = fns[(fp - FUNC_BASE) / 16];
        u32 id = (u32)s->th.size();
        Thread* nt = new Thread;
        s->th.push_back(nt);
        u32 sv = s->cur;
        s->cur = id;
        pushFrame(s, nt, fn, &arg, 1, -1);
        s->cur = sv;
        reload();
        set(mkc64(id));
        break;
    }
    case B_SWITCH: {
        u64 id = conc(0);
        if (id >= s->th.size() || s->th[id]->done) engineError(s, "switch to finished thread");
        s->cur = (u32)id;
        reload();
        break;
    }
    case B_CUR: set(mkc64(s->cur)); break;
    case B_THREADDONE: { u64 id = conc(0); set(mkc64(id < s->th.size() ? s->th[id]->done : 1)); break; }
    case B_BYTES: {
        u64 p = conc(0), n = conc(1);
        const char* nm = internStr(cstr(s, conc(2)));
        for (u64 i = 0; i < n; i++) {
            u32 vi = s->nextVar++;
            Expr* v = P.varAt(8, vi);
            if (s->model.size() <= vi) s->model.resize(vi + 1, 0);
            s->inputs.push_back({vi, 8, false, 0, nm});
            writeMem(s, p + i, fromE(v), 8, 1);
        }
        break;
    }
    case B_U64: {
        u64 bits = conc(0);
        const char* nm = internStr(cstr(s, conc(1)));
        u32 vi = s->nextVar++;
        Expr* v = P.varAt((unsigned)bits, vi);
        if (s->model.size() <= vi) s->model.resize(vi + 1, 0);
        s->inputs.push_back({vi, (u8)bits, false, 0, nm});
        set(fromE(P.zext(v, 64)));
        break;
    }
    case B_ASSUME: {
        const Val& v = A(0);
        if (!v.e) { if (!(v.lo & 1)) { SH->assumes++; endPath(); } break; }
        Expr* c = ci.aw[0] == 1 ? v.e : P.notE(P.bin(K_EQ, v.e, P.cst(ci.aw[0], 0)));
        if (P.isC(c)) { if (!c->v) endPath(); break; }
        if (!P.eval(c, s->model)) {
            std::vector<u128> m = s->model;
            if (checkSat(s, c, m) != 1) { SH->assumes++; endPath(); }
            s->model.swap(m);
        }
        addPC(s, c);
        break;
    }
    case B_ASSERT: {
        const Val& v = A(0);
        SH->asserts++;
        std::string msg = cstr(s, conc(1));
        if (!v.e) { if (!(v.lo & 1)) fail(s, "assert", msg); break; }
        Expr* c = ci.aw[0] == 1 ? v.e : P.notE(P.bin(K_EQ, v.e, P.cst(ci.aw[0], 0)));
        if (P.isC(c)) { if (!c->v) fail(s, "assert", msg); break; }
        std::vector<u128> m = s->model;
        int r = checkSat(s, P.notE(c), m);
        if (r == 1) { violation(s, "assert", msg, m); 
            std::vector<u128> m2 = s->model;
            if (checkSat(s, c, m2) != 1) endPath();
            s->model.swap(m2);
            addPC(s, c);
        }
        break;
    }
    case B_FAIL: fail(s, "fail", cstr(s, conc(0))); break;
    case B_WITNESS: {
        u64 id = conc(0);
        SH->witnessBits |= (u64)1 << (id & 63);
        SH->witness++;
        break;
    }
    case B_END: goodEnd(s); break;
    case B_CONC: {
        Val v = A(0);
        u128 c = concretize(s, v, 64, "sx_conc");
        reload();
        set(mkc(c));
        break;
    }
    case B_CLOCK: {
        u64 c = s->clock += 1000;
        if (ci.nret == 2) { R[in.d] = mkc64(c & 0xffffffff); R[in.d + 1] = mkc64(c >> 32); }
        else set(mkc64(c));
        break;
    }
    case B_ISSYM: set(mkc64(A(0).e != nullptr)); break;
    case B_PRINT: {
        const Val& v = A(1);
        fprintf(stderr, "[sx %u] %s %s%llx\n", s->cur, cstr(s, conc(0)).c_str(), v.e ? "sym " : "", (unsigned long long)v.lo);
        break;
    }
    case B_NOTE: break;
    case B_FABS: set(mkc64(fromD(std::abs(asD(A(0).lo, w)), w))); break;
    case B_CEIL: set(mkc64(fromD(__builtin_ceil(asD(A(0).lo, w)), w))); break;
    case B_FMULADD: set(mkc64(fromD(asD(A(0).lo, w) * asD(A(1).lo, w) + asD(A(2).lo, w), w))); break;
    default: {
        std::string nm = demangle(ci.name);
        if (nm.find("__throw_") != std::string::npos || ci.name == "__cxa_throw" || ci.name == "abort" || nm.find("std::terminate") == 0 || ci.name == "__cxa_pure_virtual" || ci.name == "__assert_fail")
            fail(s, "abnormal", "process would end: " + nm);
        engineError(s, "call of unmodelled function " + nm);
    }
    }
}

void Run::run() {
    reload();
    u64 cnt = 0;
    for (;;) {
        Inst& in = f->f->code[f->pc++];
        if ((++cnt & 0xffff) == 0) {
            s->steps += 0x10000;
            if (SH->stop || now() > tEnd) { if (!SH->stop) SH->deadline_hit = 1; SH->trunc++; SH->insts += cnt; endPath(); }
            if (s->steps > maxSteps) { SH->insts += cnt; engineError(s, "step limit of one path"); }
            SH->insts += 0x10000;
        }
        switch (in.op) {
        case OP_NOP: break;
        case O_MOV: R[in.d] = g(in.a); break;
#define ARITH(OPC, EXPRC) \
    case OPC: { \
        const Val &a = g(in.a), &b = g(in.b); \
        if (__builtin_expect(!a.e && !b.e, 1)) { \
            if (in.w <= 64) { u64 x = a.lo, y = b.lo; u64 r = EXPRC; Val& d = R[in.d]; d.lo = in.w == 64 ? r : r & (((u64)1 << in.w) - 1); d.hi = 0; d.e = nullptr; } \
            else R[in.d] = mkc(P.fold(kOf[in.op], in.w, a.c(), b.c())); \
        } else R[in.d] = fromE(P.bin(kOf[in.op], ex(a, in.w), ex(b, in.w))); \
        break; }
        ARITH(O_ADD, x + y)
        ARITH(O_SUB, x - y)
        ARITH(O_MUL, x * y)
        ARITH(O_AND, x & y)
        ARITH(O_OR, x | y)
        ARITH(O_XOR, x ^ y)
        case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: {
            Val a = g(in.a), b = g(in.b);
            if (b.e) {
                bool z = branch(s, P.bin(K_EQ, b.e, P.cst(in.w, 0)));
                reload();
                if (z) fail(s, "memory", "division by zero");
            } else if (!b.c()) fail(s, "memory", "division by zero");
            if (!a.e && !b.e) R[in.d] = mkc(P.fold(kOf[in.op], in.w, a.c(), b.c()));
            else R[in.d] = fromE(P.bin(kOf[in.op], ex(a, in.w), ex(b, in.w)));
            break;
        }
        case O_SHL: case O_LSHR: case O_ASHR: {
            const Val &a = g(in.a), &b = g(in.b);
            if (!a.e && !b.e) R[in.d] = mkc(P.fold(kOf[in.op], in.w, a.c(), b.c()));
            else R[in.d] = fromE(P.bin(kOf[in.op], ex(a, in.w), ex(b, in.w)));
            break;
        }
        case O_ICMP: {
            const Val &a = g(in.a), &b = g(in.b);
            if (__builtin_expect(!a.e && !b.e, 1)) {
                bool r;
                if (in.w == 64 && in.w2 == CmpInst::ICMP_EQ) r = a.lo == b.lo;
                else r = icmpC(in.w2, a.c(), b.c(), in.w);
                Val& d = R[in.d]; d.lo = r; d.hi = 0; d.e = nullptr;
            } else R[in.d] = fromE(icmpE(in.w2, ex(a, in.w), ex(b, in.w)));
            break;
        }
        case O_SEL: {
            const Val& c = g(in.c);
            if (!c.e) { R[in.d] = (c.lo & 1) ? g(in.a) : g(in.b); break; }
            const Val &a = g(in.a), &b = g(in.b);
            R[in.d] = fromE(P.ite(c.e, ex(a, in.w), ex(b, in.w)));
            break;
        }
        case OP_TRUNC: {
            const Val& a = g(in.a);
            if (!a.e) { Val& d = R[in.d]; u128 r = a.c() & maskw(in.w); d.lo = (u64)r; d.hi = (u64)(r >> 64); d.e = nullptr; }
            else R[in.d] = fromE(P.extract(a.e, in.w - 1u, 0));
            break;
        }
        case O_ZEXT: {
            const Val& a = g(in.a);
            if (!a.e) R[in.d] = a; else R[in.d] = fromE(P.zext(a.e, in.w2));
            break;
        }
        case O_SEXT: {
            const Val& a = g(in.a);
            if (!a.e) R[in.d] = mkc((u128)sextw(a.c(), in.w) & maskw(in.w2)); else R[in.d] = fromE(P.sext(a.e, in.w2));
            break;
        }
        case O_LOAD: {
            u64 a = ptr(in.a, "load") + in.imm;
            R[in.d] = readMem(s, a, in.w, in.w2);
            break;
        }
        case O_STORE: {
            u64 a = ptr(in.a, "store") + in.imm;
            writeMem(s, a, g(in.b), in.w, in.w2);
            break;
        }
        case O_ALLOCA: {
            u64 n = ptr(in.a, "alloca");
            u64 a = allocStack(s, t, s->cur, n * in.imm);
            R[in.d] = mkc64(a);
            break;
        }
        case O_GEPC: {
            const Val& a = g(in.a);
            if (!a.e) { Val& d = R[in.d]; d.lo = a.lo + in.imm; d.hi = 0; d.e = nullptr; }
            else R[in.d] = fromE(P.bin(K_ADD, a.e, P.cst(64, in.imm)));
            break;
        }
        case O_GEPN: {
            auto* gn = (GepN*)in.p;
            Val r = g(in.a);
            if (!r.e) r.lo += (u64)gn->off; else r = fromE(P.bin(K_ADD, r.e, P.cst(64, (u128)(i128)gn->off)));
            for (auto& [o, sz, w] : gn->idx) {
                const Val& i = g(o);
                if (!r.e && !i.e) r.lo += (u64)((i64)sextw(i.c(), w) * sz);
                else r = fromE(P.bin(K_ADD, ex(r, 64), P.bin(K_MUL, P.sext(ex(i, w), 64), P.cst(64, (u128)(i128)sz))));
            }
            R[in.d] = r;
            break;
        }
        case O_BR: {
            const Val& c = g(in.a);
            auto* b = (BrI*)in.p;
            bool side;
            if (!c.e) side = c.lo & 1;
            else { side = branch(s, c.e); reload(); }
            jump(side ? b->t : b->f);
            break;
        }
        case O_JMP: jump(((BrI*)in.p)->t); break;
        case O_SWITCH: {
            auto* sw = (SwI*)in.p;
            Val c = g(in.a);
            if (!c.e) {
                const Edge* e = &sw->def;
                for (auto& k : sw->cases) if (k.first == c.c()) { e = &k.second; break; }
                jump(*e);
            } else {
                const Edge* e = &sw->def;
                for (auto& k : sw->cases) {
                    Expr* eq = P.bin(K_EQ, c.e, P.cst(in.w, k.first));
                    bool y = branch(s, eq);
                    reload();
                    if (y) { e = &k.second; break; }
                }
                jump(*e);
            }
            break;
        }
        case O_RET:
            ret(*(std::vector<i32>*)in.p);
            if (t->done) {
                if (s->cur == 0) { SH->insts += cnt & 0xffff; goodEnd(s); }
                // a thread function must hand over explicitly before it returns
                engineError(s, "thread function returned");
            }
            break;
        case O_CALL: {
            auto* ci = (CallI*)in.p;
            Fn* fn = ci->f;
            if (ci->indirect) {
                u64 a = ptr(ci->fp, "call");
                if (a < FUNC_BASE || (a - FUNC_BASE) % 16 || (a - FUNC_BASE) / 16 >= fns.size()) {
                    char b[80]; snprintf(b, 80, "indirect call of bad address 0x%llx", (unsigned long long)a);
                    fail(s, "memory", b);
                }
                fn = fns[(a - FUNC_BASE) / 16];
                if (fn->decl) {
                    auto bi = bnames.find(fn->name);
                    CallI tmp = *ci; tmp.bi = bi == bnames.end() ? B_UNKNOWN : bi->second; tmp.name = fn->name; tmp.indirect = false;
                    builtin(in, tmp);
                    break;
                }
            }
            Val args[40];
            size_t n = ci->args.size();
            if (n > 40) engineError(s, "too many arguments");
            for (size_t i = 0; i < n; i++) args[i] = g(ci->args[i]);
            pushFrame(s, t, fn, args, (u32)n, in.d < 0 ? -1 : (i32)(f->base + (u32)in.d));
            f = &t->fr.back();
            R = t->regs.data() + f->base;
            break;
        }
        case O_BI: builtin(in, *(CallI*)in.p); break;
        case O_UNREACH:
            if (in.imm == 2) engineError(s, "unsupported instruction");
            fail(s, "abnormal", "unreachable code executed");
            break;
        case O_RMW: {
            u64 a = ptr(in.a, "rmw");
            Val old = readMem(s, a, in.w, in.w2);
            const Val& v = g(in.b);
            Val nv;
            K k = K_CONST;
            switch (in.imm) {
            case AtomicRMWInst::Xchg: nv = v; break;
            case AtomicRMWInst::Add: k = K_ADD; break;
            case AtomicRMWInst::Sub: k = K_SUB; break;
            case AtomicRMWInst::And: k = K_AND; break;
            case AtomicRMWInst::Or: k = K_OR; break;
            case AtomicRMWInst::Xor: k = K_XOR; break;
            case AtomicRMWInst::UMax: case AtomicRMWInst::UMin: case AtomicRMWInst::Max: case AtomicRMWInst::Min: {
                unsigned pr = in.imm == AtomicRMWInst::UMax ? CmpInst::ICMP_UGT : in.imm == AtomicRMWInst::UMin ? CmpInst::ICMP_ULT : in.imm == AtomicRMWInst::Max ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
                Expr *x = ex(old, in.w), *y = ex(v, in.w);
                nv = fromE(P.ite(icmpE(pr, x, y), x, y));
                break;
            }
            default: engineError(s, "atomicrmw kind");
            }
            if (k != K_CONST) {
                if (!old.e && !v.e) nv = mkc(P.fold(k, in.w, old.c(), v.c()));
                else nv = fromE(P.bin(k, ex(old, in.w), ex(v, in.w)));
            }
            writeMem(s, a, nv, in.w, in.w2);
            R[in.d] = old;
            break;
        }
        case O_CMPX: {
            u64 a = ptr(in.a, "cmpxchg");
            Val old = readMem(s, a, in.w, in.w2);
            const Val& cmp = g(in.b);
            bool eq;
            if (!old.e && !cmp.e) eq = old.c() == cmp.c();
            else { eq = branch(s, P.bin(K_EQ, ex(old, in.w), ex(cmp, in.w))); reload(); }
            if (eq) writeMem(s, a, g(in.c), in.w, in.w2);
            else { u64 off; access(s, a, in.w2, off, true); }
            R[in.d] = old;
            R[in.d + 1] = mkc64(eq);
            break;
        }
        case O_FBIN: {
            const Val &a = g(in.a), &b = g(in.b);
            if (a.e || b.e) engineError(s, "symbolic floating point");
            double x = asD(a.lo, in.w), y = asD(b.lo, in.w), r = 0;
            switch (in.imm) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; default: r = x / y; }
            R[in.d] = mkc64(fromD(r, in.w));
            break;
        }
        case O_FCMP: {
            const Val &a = g(in.a), &b = g(in.b);
            if (a.e || b.e) engineError(s, "symbolic floating point");
            double x = asD(a.lo, in.w), y = asD(b.lo, in.w);
            bool r = false, un = x != x || y != y;
            unsigned p = (unsigned)in.imm;
            if (un) r = p & 8; else r = (x == y && (p & 1)) || (x > y && (p & 2)) || (x < y && (p & 4));
            R[in.d] = mkc64(r);
            break;
        }
        case O_FCAST: {
            const Val& a = g(in.a);
            if (a.e) engineError(s, "symbolic floating point");
            switch (in.imm) {
            case Instruction::UIToFP: R[in.d] = mkc64(fromD((double)a.lo, in.w2)); break;
            case Instruction::SIToFP: R[in.d] = mkc64(fromD((double)(i64)sextw(a.c(), in.w), in.w2)); break;
            case Instruction::FPToUI: R[in.d] = mkc((u128)(u64)asD(a.lo, in.w) & maskw(in.w2)); break;
            case Instruction::FPToSI: R[in.d] = mkc((u128)(i128)(i64)asD(a.lo, in.w) & maskw(in.w2)); break;
            default: R[in.d] = mkc64(fromD(asD(a.lo, in.w), in.w2)); break;
            }
            break;
        }
        default: engineError(s, "bad op");
        }
    }
}

// ------------------------------------------------------------------------------------------
// exploration: depth first; when a worker slot is idle the oldest pending state is handed to
// a forked process

static void flushStats() {
    SH->queries += S->st.queries; SH->cached += S->st.cached; SH->sat += S->st.sat; SH->unsat += S->st.unsat; SH->solverus += S->st.usec;
    S->st = SolverStats();
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    u64 r = (u64)ru.ru_maxrss, m = SH->maxrss;
    while (r > m && !SH->maxrss.compare_exchange_weak(m, r)) {}
}

static void explore() {
    u64 it = 0;
    while (!work.empty()) {
        if (SH->stop || now() > tEnd) {
            if (!SH->stop) SH->deadline_hit = 1;
            SH->trunc += work.size();
            for (auto* s : work) delete s;
            work.clear();
            break;
        }
        // share
        while (work.size() > 1 && SH->active < jobs) {
            int a = SH->active;
            if (a >= jobs || !SH->active.compare_exchange_strong(a, a + 1)) continue;
            SH->started++;
            flushStats();
            pid_t p = fork();
            if (p < 0) { SH->active--; SH->started--; break; }
            if (p == 0) {
                worker = true;
                // children keep the oldest state only
                State* mine = work.front();
                for (size_t i = 1; i < work.size(); i++) delete work[i];
                work.clear();
                work.push_back(mine);
                explore();
                flushStats();
                SH->finished++;
                SH->active--;
                _exit(0);
            }
            delete work.front();
            work.erase(work.begin());
        }
        State* s = work.back();
        work.pop_back();
        Run r;
        r.s = s;
        try { r.run(); } catch (PathEnd&) {}
        delete s;
        SH->paths++;
        if ((++it & 255) == 0) flushStats();
    }
}

static std::string slurp(const char* ext) {
    std::string r;
    FILE* fp = fopen((violFile + ext).c_str(), "r");
    if (!fp) return r;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, fp)) > 0) r.append(b, n);
    fclose(fp);
    return r;
}

static int instrument(const char* in, const char* out, const char* allre) {
    LLVMContext C;
    SMDiagnostic E;
    auto Mod = parseIRFile(in, E, C);
    if (!Mod) { E.print("symx", errs()); return 3; }
    FunctionCallee pt = Mod->getOrInsertFunction("__sx_point", Type::getVoidTy(C));
    FunctionCallee ptw = Mod->getOrInsertFunction("__sx_point_w", Type::getVoidTy(C));
    FunctionCallee pause = Mod->getOrInsertFunction("sx_pause", Type::getVoidTy(C));
    Regex re(allre ? allre : "^$");
    unsigned n = 0, m = 0, np = 0;
    std::vector<Instruction*> dead;
    for (auto& F : *Mod) {
        if (F.isDeclaration()) continue;
        StringRef nm = F.getName();
        std::string dn = demangle(nm.str());
        if (nm.starts_with("__sx_point") || nm.starts_with("sx") || dn.rfind("sx", 0) == 0 || dn.rfind("yakushima::sxi_", 0) == 0) continue;
        bool all = allre && re.match(demangle(nm.str()));
        std::vector<Instruction*> at;
        if (all) { // copies of plain data are made word by word
            std::vector<AnyMemCpyInst*> cp;
            for (auto& I : instructions(F)) if (auto* mc = dyn_cast<AnyMemCpyInst>(&I)) cp.push_back(mc);
            for (auto* mc : cp) {
                auto* len = dyn_cast<ConstantInt>(mc->getLength());
                if (!len || len->getZExtValue() > 256 || len->getZExtValue() % 8) continue;
                IRBuilder<> B(mc);
                Type* T = Type::getInt64Ty(C);
                for (u64 o = 0; o < len->getZExtValue(); o += 8) {
                    Value* sp = B.CreateConstGEP1_64(Type::getInt8Ty(C), mc->getRawSource(), o);
                    Value* dp = B.CreateConstGEP1_64(Type::getInt8Ty(C), mc->getRawDest(), o);
                    B.CreateAlignedStore(B.CreateAlignedLoad(T, sp, Align(1)), dp, Align(1));
                }
                mc->eraseFromParent();
            }
        }
        // a function inlined here is named file:function
        auto inlined = [&](Instruction& I) {
            if (!allre) return false;
            for (const DILocation* l = I.getDebugLoc(); l && l->getInlinedAt(); l = l->getInlinedAt())
                if (auto* sp = l->getScope()->getSubprogram())
                    if (re.match((sp->getFilename().rsplit('/').second.empty() ? sp->getFilename() : sp->getFilename().rsplit('/').second).str() + ":" + sp->getName().str())) return true;
            return false;
        };
        for (auto& I : instructions(F)) {
            bool atomic = I.isAtomic() && !isa<FenceInst>(I);
            bool mem = false;
            if ((isa<LoadInst>(I) || isa<StoreInst>(I)) && (all || inlined(I)) && (isa<LoadInst>(I) || isa<StoreInst>(I))) {
                Value* p = isa<LoadInst>(I) ? cast<LoadInst>(I).getPointerOperand() : cast<StoreInst>(I).getPointerOperand();
                Value* b = p->stripInBoundsOffsets();
                mem = !isa<AllocaInst>(b);
            }
            if (all && isa<AnyMemIntrinsic>(I)) mem = true;
            if (atomic) n++;
            if (mem) m++;
            if (atomic || mem) at.push_back(&I);
            if (auto* ci = dyn_cast<CallInst>(&I))
                if (auto* cf = ci->getCalledFunction())
                    if (cf->getName().contains("sse2.pause")) { IRBuilder<> B(ci); auto* nc = B.CreateCall(pause); nc->setDebugLoc(ci->getDebugLoc() || !F.getSubprogram() ? ci->getDebugLoc() : DebugLoc(DILocation::get(C, 0, 0, F.getSubprogram()))); dead.push_back(ci); np++; }
        }
        for (auto* I : at) { IRBuilder<> B(I); auto* nc = B.CreateCall(I->isAtomic() && I->mayWriteToMemory() && !isa<LoadInst>(I) ? ptw : pt); nc->setDebugLoc(I->getDebugLoc() || !F.getSubprogram() ? I->getDebugLoc() : DebugLoc(DILocation::get(C, 0, 0, F.getSubprogram()))); }
    }
    for (auto* d : dead) d->eraseFromParent();
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    WriteBitcodeToFile(*Mod, os);
    printf("{\"atomic_points\":%u,\"memory_points\":%u,\"pauses\":%u}\n", n, m, np);
    return 0;
}

int main(int argc, char** argv) {
    if (argc >= 4 && !strcmp(argv[1], "instrument")) {
        const char* re = nullptr;
        for (int i = 4; i + 1 < argc; i++) if (!strcmp(argv[i], "-all")) re = argv[i + 1];
        return instrument(argv[2], argv[3], re);
    }
    if (argc < 5 || strcmp(argv[1], "run")) { fprintf(stderr, "usage\n"); return 3; }
    outFile = argv[3]; violFile = argv[4];
    std::string entry = "sx_main", covFile, repoPrefix = "/repo/";
    double budget = 600;
    for (int i = 5; i < argc; i++) {
        std::string a = argv[i];
        if (a == "-entry") entry = argv[++i];
        else if (a == "-jobs") jobs = atoi(argv[++i]);
        else if (a == "-time") budget = atof(argv[++i]);
        else if (a == "-cov") covFile = argv[++i];
        else if (a == "-keep-going") keepGoing = true;
        else if (a == "-max-steps") maxSteps = strtoull(argv[++i], nullptr, 10);
    }
    unlink(violFile.c_str());
    unlink((violFile + ".err").c_str());
    unlink((violFile + ".samples").c_str());
    double t0 = now();
    tEnd = t0 + budget;
    LLVMContext C;
    SMDiagnostic E;
    M = parseIRFile(argv[2], E, C);
    if (!M) { E.print("symx", errs()); return 3; }
    DL = &M->getDataLayout();
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (auto& F : *M) getFn(&F);
    fnUsed = (u8*)mmap(nullptr, fns.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S = new Solver(P);
    State* s = new State;
    // globals
    for (auto& G : M->globals()) {
        u64 sz = DL->getTypeAllocSize(G.getValueType());
        u64 id = s->nextObj++;
        s->mem.slot(id) = newObj((u32)sz, 'g', 0, G.getName().data());
        gaddr[&G] = id << ADDR_SH;
        if (G.isDeclaration() && !G.hasExternalWeakLinkage()) { /* external data: zero filled */ }
    }
    for (auto& G : M->globals()) {
        if (!G.hasInitializer()) continue;
        std::vector<std::pair<Type*, u64>> lt;
        leafTypes(G.getValueType(), 0, lt);
        std::vector<Val> vs;
        if (isa<ConstantAggregateZero>(G.getInitializer())) { }
        else if (G.getName() == "llvm.global_ctors" || G.getName() == "llvm.used" || G.getName() == "llvm.compiler.used") {}
        else {
            constLeaves(G.getInitializer(), vs);
            MObj* o = s->mem.get(gaddr[&G] >> ADDR_SH);
            for (size_t i = 0; i < lt.size(); i++) {
                unsigned n = (widthOf(lt[i].first) + 7) / 8;
                u64 lo = vs[i].lo, hi = vs[i].hi;
                memcpy(o->data + lt[i].second, &lo, n < 8 ? n : 8);
                if (n > 8) memcpy(o->data + lt[i].second + 8, &hi, n - 8);
            }
        }
        s->mem.get(gaddr[&G] >> ADDR_SH)->ro = G.isConstant();
    }
    // decode everything up front so that forked workers share it
    for (size_t i = 0; i < fns.size(); i++) if (!fns[i]->decl) decode(fns[i]);
    bbUsed = (u8*)mmap(nullptr, nbb + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Thread* t = new Thread;
    s->th.push_back(t);
    Function* EF = M->getFunction(entry);
    if (!EF) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    pushFrame(s, t, getFn(EF), nullptr, 0, -1);
    // constructors run first: push their frames above main, last one first
    std::vector<std::pair<u64, Function*>> ctors;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& o : ca->operands()) {
                auto* cs = cast<ConstantStruct>(o);
                if (auto* CF = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), CF});
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (size_t i = ctors.size(); i-- > 0;) pushFrame(s, t, getFn(ctors[i].second), nullptr, 0, -1);
    work.push_back(s);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    SH->active = 1; SH->started = 1;
    explore();
    flushStats();
    SH->finished++; SH->active--;
    // wait for all descendants
    u64 crashed = 0;
    for (;;) {
        int stt;
        pid_t p = waitpid(-1, &stt, 0);
        if (p < 0) break;
        if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) crashed++;
    }
    if (SH->started != SH->finished) crashed++;
    double wall = now() - t0;
    std::string o = "{";
    auto num = [&](const char* k, u64 v) { o += "\"" + std::string(k) + "\":" + std::to_string(v) + ","; };
    num("paths", SH->paths); num("paths_finished", SH->finishedPaths); num("instructions", SH->insts); num("forks", SH->forks); num("queries", SH->queries); num("queries_cached", SH->cached);
    num("sat", SH->sat); num("unsat", SH->unsat); num("unknown", SH->unknown); num("solver_ms", SH->solverus / 1000); num("violations", SH->viol);
    num("engine_errors", SH->errors); num("truncated", SH->trunc); num("deadline_hit", SH->deadline_hit); num("assertions_checked", SH->asserts);
    num("assume_dropped", SH->assumes); num("witness_hits", SH->witness); num("witness_bits", SH->witnessBits); num("workers", SH->started); num("crashed", crashed); num("max_rss_kb", SH->maxrss);
    num("basic_blocks", nbb);
    u64 cb = 0;
    for (u32 i = 0; i < nbb; i++) cb += bbUsed[i];
    num("blocks_covered", cb);
    o += "\"wall_s\":" + std::to_string(wall) + ",\"functions\":[";
    bool first = true;
    for (auto* f : fns)
        if (fnUsed[f->id] && f->dem.find("shirakami") == 0) { o += (first ? "\"" : ",\"") + jesc(f->dem.substr(0, f->dem.find('('))) + "\""; first = false; }
    o += "],\"errors\":\"" + jesc(slurp(".err").substr(0, 3000)) + "\",\"samples\":[";
    std::string sm = slurp(".samples");
    for (auto& c : sm) if (c == '\n') c = ',';
    if (!sm.empty()) sm.pop_back();
    o += sm + "]}\n";
    FILE* fo = fopen(outFile.c_str(), "w");
    if (!fo) return 3;
    fputs(o.c_str(), fo);
    fclose(fo);
    if (!covFile.empty()) {
        FILE* fc = fopen(covFile.c_str(), "w");
        for (u32 i = 0; i < nbb; i++) {
            auto [f, bb] = bbs[i];
            bool entryBB = bb == &f->F->getEntryBlock();
            bool cov = bbUsed[i] || (entryBB && fnUsed[f->id]);
            unsigned lo = 0; std::string file;
            for (auto& I : *bb) if (auto& dl = I.getDebugLoc()) { lo = dl.getLine(); file = cast<DIScope>(dl.getScope())->getFilename().str(); if (lo) break; }
            fprintf(fc, "%d\t%s\t%u\t%s\n", cov, file.c_str(), lo, f->dem.c_str());
        }
        fclose(fc);
    }
    fflush(nullptr);
    _exit(0);
}
