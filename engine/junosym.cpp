// junosym: symbolic executor over the LLVM IR that rustc produces for juno + a harness.
// Inputs are symbolic, branches are explored exhaustively, assertions are decided by Z3.
#include "int.h"
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/MemoryBuffer.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;
using std::string; using std::vector; using std::map; using std::shared_ptr; using std::set;

struct V { u128 c; E e; };
static inline V vc(u128 c) { return V{c, nullptr}; }
static inline E ex(const V &v, unsigned w) { return v.e ? v.e : mkc(v.c, w); }
static inline V fromE(E e) { return isC(e) ? V{e->c, nullptr} : V{0, e}; }

static Module *M; static const DataLayout *DL;
struct Leaf { unsigned w; uint64_t off; };
static DenseMap<Type *, vector<Leaf> *> LEAVES;
static void leavesRec(Type *t, uint64_t off, vector<Leaf> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { const StructLayout *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leavesRec(st->getElementType(i), off + sl->getElementOffset(i), out); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t s = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) leavesRec(at->getElementType(), off + i * s, out); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t bits = DL->getTypeSizeInBits(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({(unsigned)bits, off + i * (bits >= 8 ? bits / 8 : 1)}); }
  else if (t->isVoidTy()) {}
  else out.push_back({(unsigned)DL->getTypeSizeInBits(t), off});
}
static const vector<Leaf> &leaves(Type *t) { auto &p = LEAVES[t]; if (!p) { auto *v = new vector<Leaf>; leavesRec(t, 0, *v); LEAVES[t] = v; return *v; } return *p; }

// ---- addresses of globals / functions --------------------------------------------------------
static DenseMap<const GlobalValue *, u64> GADDR; static map<u64, const Function *> FADDR;
struct SymB { E e; uint8_t i; };
struct Obj { u64 base, size; vector<uint8_t> d; vector<SymB> s; bool ro = false; uint8_t kind = 0; };
static map<u64, shared_ptr<Obj>> GOBJ; static map<u64, const GlobalVariable *> GLAZY;
static u64 gnext = 0x10000000;

struct Abort { string kind, msg; };
static vector<V> constVals(const Constant *C);
static u64 constAddr(const Constant *C) { auto v = constVals(C); return (u64)v[0].c; }
static u64 gepOffsetConst(const GEPOperator *g, u64 base) {
  APInt off(64, 0); 
  if (!g->accumulateConstantOffset(*DL, off)) throw Abort{"unsupported", "const gep"};
  return base + off.getZExtValue();
}
static vector<V> constVals(const Constant *C) {
  Type *t = C->getType(); const auto &L = leaves(t);
  if (auto *ci = dyn_cast<ConstantInt>(C)) { const APInt &a = ci->getValue(); u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; return {vc(v)}; }
  if (auto *cf = dyn_cast<ConstantFP>(C)) { APInt a = cf->getValueAPF().bitcastToAPInt(); return {vc(a.getZExtValue())}; }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return vector<V>(L.size(), vc(0));
  if (auto *gv = dyn_cast<GlobalValue>(C)) { auto it = GADDR.find(gv); if (it == GADDR.end()) { if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constVals(ga->getAliasee()); throw Abort{"unsupported", "address of " + gv->getName().str()}; } return {vc(it->second)}; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { vector<V> r; for (unsigned i = 0; i < cd->getNumElements(); i++) { auto e = constVals(cd->getElementAsConstant(i)); r.insert(r.end(), e.begin(), e.end()); } return r; }
  if (isa<ConstantAggregate>(C)) { vector<V> r; for (auto &op : C->operands()) { auto e = constVals(cast<Constant>(op)); r.insert(r.end(), e.begin(), e.end()); } return r; }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: return {vc(gepOffsetConst(cast<GEPOperator>(ce), constAddr(ce->getOperand(0))))};
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: { auto v = constVals(ce->getOperand(0)); v[0].c &= maskw(leaves(t)[0].w); return v; }
    case Instruction::Trunc: { auto v = constVals(ce->getOperand(0)); v[0].c &= maskw(leaves(t)[0].w); return v; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Xor: { auto a = constVals(ce->getOperand(0)), b = constVals(ce->getOperand(1)); unsigned w = leaves(t)[0].w; Op o = ce->getOpcode() == Instruction::Add ? O_Add : ce->getOpcode() == Instruction::Sub ? O_Sub : O_Xor; return {vc(evalOp(o, w, 0, w, a[0].c, b[0].c, 0))}; }
    case Instruction::ICmp: { auto a = constVals(ce->getOperand(0)), b = constVals(ce->getOperand(1)); unsigned w = leaves(ce->getOperand(0)->getType())[0].w; u128 x = a[0].c, y = b[0].c; bool q;
      switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: q = x == y; break; case CmpInst::ICMP_NE: q = x != y; break; case CmpInst::ICMP_ULT: q = x < y; break; case CmpInst::ICMP_UGT: q = x > y; break; case CmpInst::ICMP_ULE: q = x <= y; break; case CmpInst::ICMP_UGE: q = x >= y; break; default: throw Abort{"unsupported", "constexpr icmp"}; } (void)w; return {vc(q)}; }
    default: throw Abort{"unsupported", string("constexpr ") + ce->getOpcodeName()};
    }
  }
  throw Abort{"unsupported", "constant"};
}
static void fillConst(Obj &o, u64 off, const Constant *C) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cd->getRawDataValues(); memcpy(&o.d[off], r.data(), r.size()); return; }
  Type *t = C->getType();
  if (auto *cs = dyn_cast<ConstantStruct>(C)) { const StructLayout *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) fillConst(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(C)) { u64 s = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) fillConst(o, off + i * s, ca->getOperand(i)); return; }
  auto v = constVals(C); const auto &L = leaves(t);
  for (size_t i = 0; i < v.size(); i++) { u128 x = v[i].c; for (unsigned b = 0; b < (L[i].w + 7) / 8; b++) { o.d[off + L[i].off + b] = (uint8_t)x; x >>= 8; } }
}
static void layoutGlobals() {
  for (auto &F : *M) { if (F.isIntrinsic()) continue; if (F.hasExternalWeakLinkage()) { GADDR[&F] = 0; continue; } GADDR[&F] = gnext; FADDR[gnext] = &F; gnext += 16; }
  gnext = (gnext + 0xffff) & ~0xffffull;
  for (auto &G : M->globals()) {
    if (G.hasExternalWeakLinkage()) { GADDR[&G] = 0; continue; }
    u64 sz = DL->getTypeAllocSize(G.getValueType()); u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16);
    gnext = (gnext + al - 1) / al * al; GADDR[&G] = gnext; GLAZY[gnext] = &G; gnext += sz + 64;
  }
}
static shared_ptr<Obj> globalObj(u64 a) {
  auto it = GOBJ.upper_bound(a);
  if (it != GOBJ.begin()) { --it; if (a < it->second->base + std::max<u64>(1, it->second->size)) return it->second; }
  auto g = GLAZY.upper_bound(a); if (g == GLAZY.begin()) return nullptr; --g;
  u64 sz = DL->getTypeAllocSize(g->second->getValueType()); if (a >= g->first + std::max<u64>(1, sz)) return nullptr;
  auto o = std::make_shared<Obj>(); o->base = g->first; o->size = sz; o->d.resize(sz); o->ro = g->second->isConstant();
  if (g->second->hasInitializer()) fillConst(*o, 0, g->second->getInitializer());
  GOBJ[g->first] = o; return o;
}

// ---- compiled functions ------------------------------------------------------------------------
struct Opd { int slot; int n; const V *cv; };
struct CI { const Instruction *I; unsigned opc; int dst = -1, nd = 0; SmallVector<Opd, 4> ops; const vector<Leaf> *L = nullptr; const vector<Leaf> *L0 = nullptr;
  int64_t goff = 0; SmallVector<std::pair<int, int64_t>, 2> gidx; // GEP: operand number, scale
  int s0 = -1, s1 = -1; const Function *callee = nullptr; int iid = 0; int ext = 0; bool noret = false; };
struct CF { const Function *F; vector<CI> code; vector<int> bstart; DenseMap<const BasicBlock *, int> bid; DenseMap<const Value *, int> slot; int nslots = 0; vector<uint8_t> hit; vector<int> argSlot; };
static DenseMap<const Function *, CF *> CFS;
static DenseMap<const Constant *, vector<V> *> CCACHE;

static CF *compile(const Function *F) {
  auto &p = CFS[F]; if (p) return p;
  CF *cf = new CF; cf->F = F;
  for (auto &A : F->args()) { cf->slot[&A] = cf->nslots; cf->argSlot.push_back(cf->nslots); cf->nslots += leaves(A.getType()).size(); }
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) { cf->slot[&I] = cf->nslots; cf->nslots += leaves(I.getType()).size(); }
  auto opd = [&](const Value *v) -> Opd {
    if (auto *C = dyn_cast<Constant>(v)) { auto &cc = CCACHE[C]; if (!cc) cc = new vector<V>(constVals(C)); return Opd{-1, (int)cc->size(), cc->data()}; }
    auto it = cf->slot.find(v); if (it == cf->slot.end()) return Opd{-1, 0, nullptr};
    return Opd{it->second, (int)leaves(v->getType()).size(), nullptr}; };
  int b = 0; for (auto &B : *F) cf->bid[&B] = b++;
  for (auto &B : *F) {
    cf->bstart.push_back((int)cf->code.size());
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      CI ci; ci.I = &I; ci.opc = I.getOpcode();
      if (!I.getType()->isVoidTy()) { ci.dst = cf->slot[&I]; ci.L = &leaves(I.getType()); ci.nd = ci.L->size(); }
      if (auto *c = dyn_cast<CallBase>(&I)) {
        for (auto &a : c->args()) { if (a->getType()->isMetadataTy()) { ci.ops.push_back(Opd{-1, 0, nullptr}); continue; } ci.ops.push_back(opd(a)); }
        const Value *cv = c->getCalledOperand()->stripPointerCasts();
        if (auto *f = dyn_cast<Function>(cv)) { ci.callee = f; ci.iid = f->getIntrinsicID(); ci.noret = f->doesNotReturn() || c->doesNotReturn(); }
        else if (isa<InlineAsm>(cv)) ci.ext = 1; else ci.ops.push_back(opd(cv));
        if (auto *inv = dyn_cast<InvokeInst>(c)) ci.s0 = cf->bid[inv->getNormalDest()];
      } else if (auto *br = dyn_cast<BranchInst>(&I)) { ci.s0 = cf->bid[br->getSuccessor(0)]; if (br->isConditional()) { ci.s1 = cf->bid[br->getSuccessor(1)]; ci.ops.push_back(opd(br->getCondition())); } }
      else if (isa<PHINode>(I)) {}
      else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        ci.ops.push_back(opd(g->getPointerOperand())); bool vec = g->getType()->isVectorTy(); if (vec) ci.ext = 99;
        for (auto it = gep_type_begin(g), en = gep_type_end(g); it != en; ++it) {
          const Value *ix = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) ci.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { int64_t s = DL->getTypeAllocSize(it.getIndexedType()); if (auto *k = dyn_cast<ConstantInt>(ix)) ci.goff += s * k->getSExtValue(); else { ci.gidx.push_back({(int)ci.ops.size(), s}); ci.ops.push_back(opd(ix)); } }
        }
      } else { for (auto &o : I.operands()) { if (isa<BasicBlock>(o) || o->getType()->isMetadataTy()) { ci.ops.push_back(Opd{-1, 0, nullptr}); continue; } ci.ops.push_back(opd(o)); }
        if (I.getNumOperands() && !isa<BasicBlock>(I.getOperand(0))) ci.L0 = &leaves(I.getOperand(0)->getType()); }
      cf->code.push_back(std::move(ci));
    }
  }
  cf->hit.assign(cf->code.size(), 0);
  CFS[F] = cf; return cf;
}

// ---- state --------------------------------------------------------------------------------------
struct Frame { CF *cf; int pc; int blk; vector<V> r; int retDst; int retN; vector<u64> allocas; int retS0; };
struct In { string kind; E e; u128 c; unsigned w; u64 k1, k2; };
typedef std::unordered_map<int, u128> Asg;
struct State {
  vector<Frame> st; map<u64, shared_ptr<Obj>> mem; vector<E> pc; std::unordered_map<uint32_t, bool> known; vector<In> in;
  Asg wit; bool hasWit = true; std::unordered_map<uint32_t, u128> conc; u64 heap = 0x700000000000ull; u64 steps = 0; bool allowPanic = false; long rngDraws = 0; u64 hashKey = 0; set<string> covers; int id = 0; long depth = 0;
  Obj *lastR = nullptr; shared_ptr<Obj> lastHold;
  int proc = 0; size_t cur = 0; vector<V> across; // second process: its inputs are replayed from in[cur..]
};
static vector<State *> WORK; static State *CUR;
static string JENTRY; static u64 JCFG; static string SO, DRV, TMPD; static double DEADLINE; static unsigned HFLAGS = 0; static long MAXRNG = 200, PINRNG = 0; static long MAXDEPTH = 100000;
static long nPaths = 0, nPanicOk = 0, nAssume = 0, nBound = 0, nSteps = 0, nForks = 0; static long chkTotal = 0, chkTriv = 0, chkBy[4] = {0,0,0,0}, chkUndec = 0, replays = 0; static set<string> COVERS; static map<string, long> CHKMSG; static vector<string> UNDEC; static vector<string> UNSUP; static vector<string> VIOL; static set<string> VIOLMSG; static vector<string> SPUR;
static long nPathsWit = 0; static vector<string> SAMPLES; static long concordant = 0;
static set<string> EXTRA;
static Inc *INC[4]; static Inc &inc(Mode m) { if (!INC[m]) INC[m] = new Inc(m); return *INC[m]; }
static Evaluator EV;
static unsigned TO[4] = {5000, 8000, 10000, 20000}; static unsigned FTO[2] = {1500, 1000};
enum { HF_LIN = 1, HF_NOFP = 2, HF_NOPANIC = 4, HF_INT = 8 };
static IntInc *INTS;
// plain bit-vector query, over the integers first where the harness asks for it
static int ucheck(const vector<E> &pc, const vector<E> &extra, unsigned to, Asg *m) {
  if (HFLAGS & HF_INT) { if (!INTS) INTS = new IntInc(); int r = INTS->check(pc, extra, std::min(to, 3000u), m); if (r >= 0) return r; }
  return inc(M_UF).check(pc, extra, to, m);
}

static string loc(const Instruction *I) {
  string s; for (const DILocation *d = I->getDebugLoc().get(); d; d = d->getInlinedAt()) {
    string f = d->getFilename().str(); if (f.find("/rustc/") != string::npos) { if (s.empty() && !d->getInlinedAt()) s = f.substr(f.rfind('/') + 1) + ":" + std::to_string(d->getLine()); continue; }
    auto sl = f.rfind("/src/"); if (sl != string::npos) f = f.substr(sl + 5);
    s += (s.empty() ? "" : " <- ") + f + ":" + std::to_string(d->getLine()); if (s.size() > 160) break; }
  return s;
}

// memory
static shared_ptr<Obj> *findObj(State &S, u64 a) {
  auto it = S.mem.upper_bound(a); if (it == S.mem.begin()) return nullptr; --it;
  if (a >= it->first + std::max<u64>(1, it->second->size)) return nullptr; return &it->second;
}
static string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static const Obj &robj(State &S, u64 a, u64 n) {
  shared_ptr<Obj> *p = findObj(S, a); shared_ptr<Obj> o = p ? *p : globalObj(a);
  if (!o || a + n > o->base + o->size) { throw Abort{"memory", "invalid access at " + hex(a) + " size " + std::to_string(n)}; }
  return *o;
}
static Obj &wobj(State &S, u64 a, u64 n) {
  shared_ptr<Obj> *p = findObj(S, a);
  if (!p) { auto o = globalObj(a); if (!o) throw Abort{"memory", "invalid write at " + hex(a)}; if (o->ro) throw Abort{"memory", "write to constant at " + hex(a)}; S.mem[o->base] = std::make_shared<Obj>(*o); p = &S.mem[o->base]; }
  else if (p->use_count() > 1) *p = std::make_shared<Obj>(**p);
  if (a + n > (*p)->base + (*p)->size) throw Abort{"memory", "out-of-bounds write at " + hex(a) + " size " + std::to_string(n)};
  return **p;
}
static u64 allocObj(State &S, u64 size, u64 align, int kind) {
  if (align < 16) align = 16; S.heap = (S.heap + align - 1) / align * align; u64 a = S.heap; S.heap += size + 32;
  auto o = std::make_shared<Obj>(); o->base = a; o->size = size; o->d.resize(size); o->kind = kind; S.mem[a] = o; return a;
}
static V loadLeaf(const Obj &o, u64 a, unsigned w) {
  unsigned n = (w + 7) / 8; u64 off = a - o.base;
  bool sym = false; if (!o.s.empty()) for (unsigned i = 0; i < n; i++) if (o.s[off + i].e) { sym = true; break; }
  if (!sym) { u128 v = 0; for (unsigned i = n; i-- > 0;) v = (v << 8) | o.d[off + i]; return vc(v & maskw(w)); }
  E f = o.s[off].e;
  if (f && o.s[off].i == 0 && (f->w == w || (f->w <= 8 && n == 1 && f->w == w))) { bool all = true; for (unsigned i = 0; i < n; i++) if (o.s[off + i].e != f || o.s[off + i].i != i) { all = false; break; } if (all) return V{0, f}; }
  E r = nullptr;
  for (unsigned i = n; i-- > 0;) { E b; const SymB &sb = o.s[off + i];
    if (!sb.e) b = mkc(o.d[off + i], 8); else if (sb.e->w < 8) b = mk1(O_ZExt, 8, sb.e); else { unsigned ew = sb.e->w, lo = sb.i * 8, cnt = std::min(8u, ew - lo); b = mkExtract(sb.e, lo, cnt); if (cnt < 8) b = mk1(O_ZExt, 8, b); }
    r = r ? mkConcat(r, b) : b; }
  if (w < n * 8) r = mkExtract(r, 0, w);
  return fromE(r);
}
static void storeLeaf(Obj &o, u64 a, const V &v, unsigned w) {
  unsigned n = (w + 7) / 8; u64 off = a - o.base;
  if (!v.e) { u128 x = v.c; for (unsigned i = 0; i < n; i++) { o.d[off + i] = (uint8_t)x; x >>= 8; } if (!o.s.empty()) for (unsigned i = 0; i < n; i++) o.s[off + i].e = nullptr; return; }
  if (o.s.empty()) o.s.resize(o.size, SymB{nullptr, 0});
  for (unsigned i = 0; i < n; i++) o.s[off + i] = SymB{v.e, (uint8_t)i};
}
static V itev(const V &c, const V &a, const V &b, unsigned w);
static long nTable = 0;
// low bits of an expression that are the same for every value of its variables: k bits equal to v
static void lowbits(E e, unsigned &k, u64 &v) {
  unsigned k2; u64 v2; k = 0; v = 0;
  auto m = [](unsigned n) { return n >= 64 ? ~0ull : (1ull << n) - 1; };
  switch (e->op) {
  case O_Const: k = 64; v = (u64)e->c; return;
  case O_Add: lowbits(e->k[0], k, v); lowbits(e->k[1], k2, v2); k = std::min(k, k2); v = (v + v2) & m(k); return;
  case O_Sub: lowbits(e->k[0], k, v); lowbits(e->k[1], k2, v2); k = std::min(k, k2); v = (v - v2) & m(k); return;
  case O_Shl: if (isC(e->k[1]) && e->k[1]->c < 64) { unsigned s = (unsigned)e->k[1]->c; lowbits(e->k[0], k, v); k = std::min(64u, k + s); v = (v << s) & m(k); } return;
  case O_Mul: for (int i = 0; i < 2; i++) if (isC(e->k[i]) && (u64)e->k[i]->c) { u64 c = (u64)e->k[i]->c; lowbits(e->k[1 - i], k, v); k = std::min(64u, k + (unsigned)__builtin_ctzll(c)); v = (v * c) & m(k); return; } return;
  case O_ZExt: lowbits(e->k[0], k, v); if (k >= e->k[0]->w) k = 64; return;
  case O_Ite: lowbits(e->k[1], k, v); lowbits(e->k[2], k2, v2); k = std::min(k, k2); while (k && ((v ^ v2) & m(k))) k--; v &= m(k); return;
  case O_Concat: { lowbits(e->k[1], k, v); if (k < e->k[1]->w) return; k = e->k[1]->w; lowbits(e->k[0], k2, v2); if (k < 64) { v = (v & m(k)) | (v2 << k); k = std::min(64u, k + k2); } return; }
  default: return;
  }
}
// a load whose address ranges over one object becomes a choice over the values found there
static bool tableLoad(State &S, E e, unsigned w, V &out) {
  u128 lo, hi; urange(e, lo, hi); if (getenv("VF_TBL")) fprintf(stderr, "tbl w%u [%s..+%llu] %s\n", w, hex((u64)lo).c_str(), (unsigned long long)(hi - lo), (loc(S.st.back().cf->code[S.st.back().pc].I) + " " + estr(e, 12)).c_str()); if (hi - lo > 4096 || hi >> 64) return false;
  unsigned k; u64 lv; lowbits(e, k, lv); if (k > 12) k = 12; u64 step = 1ull << k; u64 a0 = (u64)lo + ((lv - (u64)lo) & (step - 1));
  if (a0 > (u64)hi || ((u64)hi - a0) / step > 256) return false;
  auto *po = findObj(S, (u64)lo); shared_ptr<Obj> ob = po ? *po : globalObj((u64)lo); if (!ob) return false; const Obj &o = *ob; u64 sz = (w + 7) / 8;
  if ((u64)lo < o.base || (u64)hi + sz > o.base + o.size) return false;
  std::vector<std::pair<u64, V>> vs; for (u64 a = a0; a <= (u64)hi; a += step) { V v; try { v = loadLeaf(o, a, w); } catch (Abort &) { return false; } vs.push_back({a, v}); }
  // runs of equal values
  struct Run { u64 lo, hi; V v; }; std::vector<Run> rs;
  for (auto &x : vs) { if (!rs.empty() && rs.back().v.e == x.second.e && (x.second.e || rs.back().v.c == x.second.c)) rs.back().hi = x.first; else rs.push_back({x.first, x.first, x.second}); }
  if (rs.size() > 24) return false;
  V r = rs.back().v;
  for (int i = (int)rs.size() - 2; i >= 0; i--) r = itev(fromE(mk2(O_Ult, 1, e, mkc(rs[i + 1].lo, 64))), rs[i].v, r, w);
  out = r; nTable++; return true;
}
static V loadV(State &S, u64 a, unsigned w) { return loadLeaf(robj(S, a, (w + 7) / 8), a, w); }
static void storeV(State &S, u64 a, const V &v, unsigned w) { storeLeaf(wobj(S, a, (w + 7) / 8), a, v, w); }
static void copyMem(State &S, u64 dst, u64 src, u64 n) {
  if (!n) return; const Obj &so = robj(S, src, n); vector<uint8_t> d(so.d.begin() + (src - so.base), so.d.begin() + (src - so.base) + n); vector<SymB> sy; if (!so.s.empty()) sy.assign(so.s.begin() + (src - so.base), so.s.begin() + (src - so.base) + n);
  Obj &o = wobj(S, dst, n); u64 off = dst - o.base; memcpy(&o.d[off], d.data(), n);
  if (!sy.empty()) { if (o.s.empty()) o.s.resize(o.size, SymB{nullptr, 0}); memcpy(&o.s[off], sy.data(), n * sizeof(SymB)); }
  else if (!o.s.empty()) for (u64 i = 0; i < n; i++) o.s[off + i].e = nullptr;
}
static string readStr(State &S, u64 p, u64 n) { string r; for (u64 i = 0; i < n; i++) r += (char)loadV(S, p + i, 8).c; return r; }

// ---- solver interface -----------------------------------------------------------------------------
static bool evalAll(const vector<E> &pc, const vector<E> &extra, const Asg &a) {
  EV.begin(a); for (E e : pc) if (!EV.get(e)) return false; for (E e : extra) if (!EV.get(e)) return false; return true;
}
// support of an expression
static std::unordered_map<uint32_t, vector<int>> SUPP;
static const vector<int> &supportOf(E e) {
  auto it = SUPP.find(e->id); if (it != SUPP.end()) return it->second;
  set<int> vs; std::unordered_set<uint32_t> seen; vector<E> st{e}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x->id).second) continue; if (x->op == O_Var) vs.insert(x->aux); for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]); }
  return SUPP[e->id] = vector<int>(vs.begin(), vs.end());
}
static unsigned LSEED = 987654321; static long lsHits = 0, lsTries = 0;
// cheap search for a concrete witness of pc && c near an existing one (only ever used to avoid a solver call on the satisfiable side)
static bool localSearch(const vector<E> &pc, E c, const Asg &base, Asg &out, int tries) {
  const vector<int> &sv = supportOf(c); if (sv.empty()) return false; lsTries++;
  auto rnd = [&] { return (unsigned)rand_r(&LSEED); };
  Asg a;
  for (int t = 0; t < tries; t++) {
    a = base; int k = 1 + rnd() % (t < tries / 2 ? 1 : 3);
    for (int j = 0; j < k; j++) { int v = sv[rnd() % sv.size()]; const VarInfo &vi = VARS[v]; 
      auto cur = [&](int x) -> u128 { auto it = a.find(x); if (it != a.end()) return it->second; return VARS[x].fl ? fbits(VARS[x].lo, VARS[x].w) : VARS[x].ulo; };
      int o = sv[rnd() % sv.size()]; const VarInfo &oi = VARS[o];
      if (vi.fl) { double d = fval(cur(v), vi.w), x = d; switch (rnd() % 7) { case 0: x = vi.lo; break; case 1: x = vi.hi; break; case 2: x = vi.lo + (vi.hi - vi.lo) * (rnd() / (double)RAND_MAX); break; case 3: if (oi.fl) x = fval(cur(o), oi.w); break; case 4: x = d * (0.25 + 2.0 * (rnd() / (double)RAND_MAX)); break; case 5: x = std::round(d) + (double)(rnd() % 5) - 2; break; case 6: if (oi.fl) x = fval(cur(o), oi.w) * (1 + ((int)(rnd() % 3) - 1) * 0.01); break; }
        if (x < vi.lo) x = vi.lo; if (x > vi.hi) x = vi.hi; a[v] = fbits(x, vi.w); }
      else if (vi.w == 1) a[v] = !cur(v);
      else { u128 d = cur(v), x = d, span = vi.uhi - vi.ulo + 1; u128 big = ((u128)rnd() << 62) ^ ((u128)rnd() << 31) ^ rnd(); switch (rnd() % 7) { case 0: x = vi.ulo; break; case 1: x = vi.uhi; break; case 2: x = vi.ulo + (span ? big % span : big); break; case 3: if (!oi.fl) x = cur(o); break; case 4: x = d + (rnd() % 7) - 3; break; case 5: if (!oi.fl) x = cur(o) + (big >> (rnd() % 64)) % 100000; break; case 6: x = vi.ulo + (span ? (big >> (rnd() % 90)) % span : big >> (rnd() % 90)); break; }
        if (x < vi.ulo) x = vi.ulo; if (x > vi.uhi) x = vi.uhi; a[v] = x & maskw(vi.w); } }
    EV.begin(a); if (!EV.get(c)) continue; bool ok = true; for (E e : pc) if (!EV.get(e)) { ok = false; break; }
    if (ok) { out = a; lsHits++; return true; }
  }
  return false;
}
static bool anyFloat(State &S, E v);
static Mode pruneMode() { return (HFLAGS & HF_LIN) ? M_LIN : M_UF; }
// feasibility of pc && c ; fills witness
static int feasible_(State &S, E c, Asg &wit, bool &hasWit);
static int feasible(State &S, E c, Asg &wit, bool &hasWit) { double t0 = now(); int r = feasible_(S, c, wit, hasWit); if (getenv("VF_TRACE") && now() - t0 > 0.2) fprintf(stderr, "feas %.2f r=%d wit=%d swit=%d pc=%zu at %s : %s\n", now() - t0, r, hasWit, S.hasWit, S.pc.size(), loc(S.st.back().cf->code[S.st.back().pc].I).c_str(), estr(c, 7).c_str()); return r; }
static int feasible_(State &S, E c, Asg &wit, bool &hasWit) {
  hasWit = false;
  if (localSearch(S.pc, c, S.wit, wit, 400)) { hasWit = true; return 1; }
  Asg m; int r = ucheck(S.pc, {c}, FTO[0], &m);
  if (r == 0) return 0;
  if (r == 1) { if (evalAll(S.pc, {c}, m)) { wit = m; hasWit = true; return 1; } }
  if (!anyFloat(S, c)) return 1;
  Asg m2; int r2 = inc(M_LIN).check(S.pc, {c}, (HFLAGS & HF_LIN) ? 3 * FTO[1] : FTO[1], &m2);
  if (r2 == 1 && evalAll(S.pc, {c}, m2)) { wit = m2; hasWit = true; return 1; }
  if (r2 == 0 && (HFLAGS & HF_LIN)) return 0;
  return 1;
}
static void addPC(State &S, E c) { if (isC(c)) return; if (c->op == O_And) { addPC(S, c->k[0]); addPC(S, c->k[1]); return; } if (S.known.count(c->id)) return; S.pc.push_back(c); S.known[c->id] = true; E n = mkNot(c); S.known[n->id] = false; }
static int knownVal(State &S, E c) { auto it = S.known.find(c->id); if (it != S.known.end()) return it->second; if (c->op == O_And) { int a = knownVal(S, c->k[0]), b = knownVal(S, c->k[1]); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; } if (c->op == O_Or) { int a = knownVal(S, c->k[0]), b = knownVal(S, c->k[1]); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; } if (c->op == O_Not) { int a = knownVal(S, c->k[0]); return a < 0 ? -1 : !a; } return -1; }

static string inputsJson(State &S, const Asg &a) {
  EV.begin(a); std::ostringstream o; o << "["; bool f = true;
  for (auto &i : S.in) { u128 v = i.e ? EV.get(i.e) : i.c; if (!f) o << ","; f = false; o << "[\"" << i.kind << "\","; 
    if (i.kind == "f64") { double d = b2d((u64)v); char b[64]; snprintf(b, 64, "%.17g", d); if (std::isfinite(d)) o << b; else o << "\"" << b << "\""; } else o << (unsigned long long)v;
    if (i.kind == "rng") o << "," << i.k1 << "," << i.k2; o << "]"; }
  o << "]"; return o.str();
}
static string writeVec(State &S, const Asg &a, const string &tag) {
  string fn = TMPD + "/" + JENTRY + "_" + std::to_string(JCFG) + "_" + tag + ".vec"; std::ofstream f(fn); EV.begin(a);
  f << "entry " << JENTRY << "\ncfg " << JCFG << "\n";
  for (auto &i : S.in) { u128 v = i.e ? EV.get(i.e) : i.c; f << i.kind << " " << std::hex << (unsigned long long)v << std::dec; if (i.kind == "rng") f << " " << i.k1 << " " << i.k2; if (i.kind == "f64") f << " # " << b2d((u64)v); f << "\n"; }
  return fn;
}
static string runNative(const string &vec) {
  string cmd = "timeout 60 " + DRV + " " + SO + " " + vec + " 2>&1"; FILE *p = popen(cmd.c_str(), "r"); string out; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n); pclose(p); replays++; return out;
}
static bool contains(const string &a, const string &b) { return a.find(b) != string::npos; }
static string jesc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
// candidate: assignment that violates under IEEE; replay natively. true if reproduced
static bool confirm(State &S, const Asg &a, const string &what, const string &kind, E viol) {
  static int n = 0; string tag = "v" + std::to_string(getpid()) + "_" + std::to_string(n++); string vec = writeVec(S, a, tag); string out = runNative(vec);
  bool rep = kind == "panic" ? contains(out, "PANIC") : contains(out, "FAIL " + what);
  // any failure of the harness on this vector is a real violation
  if (!rep && (contains(out, "FAIL ") || (contains(out, "PANIC") && !contains(out, "PANIC-ALLOWED")))) rep = true;
  if (rep) { VIOLMSG.insert(what); VIOL.push_back("{\"what\":\"" + jesc(what) + "\",\"kind\":\"" + kind + "\",\"vec\":\"" + vec + "\",\"native\":\"" + jesc(out.substr(0, 600)) + "\",\"inputs\":" + inputsJson(S, a) + "}"); return true; }
  unlink(vec.c_str());
  SPUR.push_back(what + " :: native said " + out.substr(0, 120)); return false;
}
static void randomize(const vector<E> &roots, const Asg &base, Asg &out, unsigned &seed) {
  out = base; for (auto &kv : out) { const VarInfo &vi = VARS[kv.first]; if (!vi.fl) continue; double d = fval(kv.second, vi.w); unsigned r = rand_r(&seed) % 6; double x = d;
    if (r == 0) x = std::round(d); else if (r == 1) x = d * (1 + (rand_r(&seed) % 2001 - 1000) / 1e4); else if (r == 2) x = vi.lo + (vi.hi - vi.lo) * (rand_r(&seed) / (double)RAND_MAX); else if (r == 3) x = std::round(d * 100) / 100;
    if (x < vi.lo) x = vi.lo; if (x > vi.hi) x = vi.hi; kv.second = fbits(x, vi.w); }
  (void)roots;
}
static bool hasFloat(E e) {
  static std::unordered_map<uint32_t, bool> memo; auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  bool r = isFloatOp(e->op) || (e->op == O_Var && VARS[e->aux].fl) || e->op == O_FIsNan || e->op == O_FEq || e->op == O_FLt || e->op == O_FLe || e->op == O_FToU || e->op == O_FToS;
  for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = hasFloat(e->k[i]);
  return memo[e->id] = r;
}
static bool anyFloat(State &S, E v) { if (hasFloat(v)) return true; for (E e : S.pc) if (hasFloat(e)) return true; return false; }
// Decide pc => prop. alt = stronger violation conditions to try first for models. returns true if discharged or undecided
// the path condition excludes that b is zero
static bool knownNonzero(State &S, E b, int d = 4) {
  Iv v = fiv(b); if (v.nan) return false; if (v.lo > 0 || v.hi < 0) return true;
  E z = mkc(0, 64); auto is = [&](E c, int k) { return isC(c) ? (int)c->c == k : knownVal(S, c) == k; };
  if (is(mk2(O_FEq, 1, b, z), 0) || is(mk2(O_FLt, 1, z, b), 1) || is(mk2(O_FLe, 1, b, z), 0) || is(mk2(O_FLt, 1, b, z), 1) || is(mk2(O_FLe, 1, z, b), 0)) return true;
  if (d && b->op == O_FAdd && fiv(b->k[0]).lo >= 0 && fiv(b->k[1]).lo >= 0) return knownNonzero(S, b->k[0], d - 1) || knownNonzero(S, b->k[1], d - 1);
  return false;
}
static int knownOrder(State &S, E x, E y) {
  auto k = [&](E c) { return isC(c) ? (int)c->c : knownVal(S, c); };
  int lt = k(mk2(O_FLt, 1, x, y)), gt = k(mk2(O_FLt, 1, y, x));
  if (gt == 1) return 1; if (lt == 1) return 2;
  if (lt == 0) return 3; if (gt == 0) return 4;
  return 0;
}
// the same expression rebuilt with what the path condition says about its conditions, differences and divisors
static E norm(State &S, E root) {
  std::unordered_map<uint32_t, E> m; vector<E> st{root};
  while (!st.empty()) {
    E e = st.back(); if (m.count(e->id)) { st.pop_back(); continue; }
    if (m.size() > 20000) return root;
    bool ready = true; for (int i = 0; i < 3; i++) if (e->k[i] && !m.count(e->k[i]->id)) { st.push_back(e->k[i]); ready = false; }
    if (!ready) continue;
    st.pop_back();
    E k[3] = {0, 0, 0}; for (int i = 0; i < 3; i++) if (e->k[i]) k[i] = m[e->k[i]->id];
    bool ch = false; for (int i = 0; i < 3; i++) ch |= k[i] != e->k[i];
    E r = e;
    if (e->w == 1 && !isC(e)) { int kv = knownVal(S, e); if (kv >= 0) { m[e->id] = mkc(kv, 1); continue; } }
    if (e->op == O_Ite) r = mkIte(k[0], k[1], k[2]);
    else if (ch && (e->op == O_Const || e->op == O_Var)) {}
    else if (ch && e->op == O_Fma) r = mkFma(e->w, k[0], k[1], k[2]);
    else if (ch && e->op == O_Concat) r = mkConcat(k[0], k[1]);
    else if (ch && e->op == O_Extract) r = mkExtract(k[0], e->aux, e->w);
    else if (ch && k[1]) r = mk2(e->op, e->w, k[0], k[1], e->aux);
    else if (ch && k[0]) r = mk1(e->op, e->w, k[0], e->aux);
    if (r->w == 64 && r->op == O_FSub && r->aux == 0) { Iv v = fiv(r); if (!v.nan && v.lo < 0 && v.hi > 0) { int o = knownOrder(S, r->k[0], r->k[1]); if (!o && e->op == O_FSub) o = knownOrder(S, e->k[0], e->k[1]); if (o) r = mk2(O_FSub, 64, r->k[0], r->k[1], o); } }
    if (r->w == 64 && r->op == O_FDiv && r->aux == 0) { Iv y = fiv(r->k[1]); if (!y.nan && y.lo <= 0 && y.hi >= 0 && (knownNonzero(S, r->k[1]) || (e->op == O_FDiv && knownNonzero(S, e->k[1])))) r = mk2(O_FDiv, 64, r->k[0], r->k[1], 1); }
    if (r->w == 1 && !isC(r)) { int kv = knownVal(S, r); if (kv >= 0) r = mkc(kv, 1); }
    m[e->id] = r;
  }
  return m[root->id];
}
static void decide(State &S, E prop, const vector<E> &alt, const string &what, const string &kind) {
  E viol = mkNot(prop);
  auto tryModel = [&](Asg &m) { if (evalAll(S.pc, {viol}, m)) return confirm(S, m, what, kind, viol); return false; };
  if (VIOLMSG.count(what)) return;
  int kv = isC(prop) ? -1 : knownVal(S, prop); if (kv == 1) { chkTriv++; return; }
  if (S.hasWit && !isC(prop)) { EV.begin(S.wit); if (!EV.get(prop)) { if (confirm(S, S.wit, what, kind, viol)) return; } }
  if (S.hasWit && isC(prop)) { if (confirm(S, S.wit, what, kind, viol)) return; }
  int models = 0; bool sawSat = false; Asg last;
  auto runMode = [&](Mode m, const vector<E> &pc, E v, unsigned to) -> int { Asg a; int r = m == M_UF ? ucheck(pc, {v}, to, &a) : inc(m).check(pc, {v}, to, &a); if (r == 1) { sawSat = true; last = a; models++; if (tryModel(a)) return 2; } return r; };
  // UF : bit-precise
  int r = runMode(M_UF, S.pc, viol, TO[M_UF]); if (r == 0) { chkBy[M_UF]++; return; } if (r == 2) return;
  if (!isC(prop)) { E n = norm(S, prop); if (isC(n) && n->c) { chkBy[M_UF]++; return; } if (n != prop && !isC(n)) { r = runMode(M_UF, S.pc, mkNot(n), TO[M_UF]); if (r == 0) { chkBy[M_UF]++; return; } if (r == 2) return; } }
  // LIN / NRA : exact reals
  if (!anyFloat(S, viol)) { chkUndec++; if (UNDEC.size() < 20) UNDEC.push_back(what); return; }
  for (Mode m : {M_LIN, M_NRA}) {
    if (m == M_NRA && !alt.empty() && !isC(viol)) { int q = runMode(m, {}, alt.back(), TO[m]); if (q == 0) { chkBy[m]++; return; } }
    for (E v : alt) { int q = runMode(m, S.pc, v, TO[m]); if (q == 2) return; if (q == 0 && v == alt.back()) { chkBy[m]++; return; } }
    if (alt.empty()) { int q = runMode(m, S.pc, viol, TO[m]); if (q == 2) return; if (q == 0) { chkBy[m]++; return; } }
  }
  if (sawSat) { unsigned seed = 12345; vector<E> rt; for (int i = 0; i < 300; i++) { Asg b; randomize(rt, last, b, seed); if (evalAll(S.pc, {viol}, b)) { if (confirm(S, b, what, kind, viol)) return; } } }
  if (!(HFLAGS & HF_NOFP)) { r = runMode(M_FP, S.pc, viol, TO[M_FP]); if (r == 0) { chkBy[M_FP]++; return; } if (r == 2) return; }
  chkUndec++; if (UNDEC.size() < 20) UNDEC.push_back(what + (getenv("VF_DEBUG") ? "  " + estr(viol, 8) + (S.pc.empty() ? string() : " PC " + estr(S.pc.back(), 9)) : ""));
}
static void checkProp(State &S, E prop, const vector<E> &alt, const string &what) {
  chkTotal++; CHKMSG[what]++;
  if (isC(prop) && prop->c) { chkTriv++; return; }
  decide(S, prop, alt, what, "check");
}

// ---- execution --------------------------------------------------------------------------------------
static void endPath(State *S) { S->st.clear(); }
struct EndPath {}; struct Restart {};
struct Refork {}; // re-execute the current instruction
static map<string, long> FORKAT;
static State *forkState(State &S) { nForks++; if (getenv("VF_FORKS")) { string l; for (size_t i = S.st.size(), k = 0; i-- > 0 && k < 4; k++) { size_t pc = S.st[i].pc; if (k && pc) pc--; l += (k ? " || " : "") + loc(S.st[i].cf->code[pc].I); } FORKAT[l]++; } return new State(S); }

// returns concrete value of v, forking over alternatives
static u128 concretize(State &S, V &v, unsigned w, const char *why) {
  if (!v.e) return v.c;
  auto it = S.conc.find(v.e->id); if (it != S.conc.end()) return it->second;
  E e = v.e; Asg m; bool have = false;
  if (S.hasWit) { m = S.wit; have = true; }
  else { int r = ucheck(S.pc, {}, TO[M_UF], &m); if (r == 0) throw EndPath(); have = r == 1; }
  EV.begin(m); u128 val = EV.get(e); (void)have;
  E eq = mk2(O_Eq, 1, e, mkc(val, w));
  // alternatives
  State *T = forkState(S); Asg wit; bool hw; E ne = mkNot(eq);
  int fe = isC(ne, 0) ? 0 : feasible(*T, ne, wit, hw);
  if (fe) { T->hasWit = hw; if (hw) T->wit = wit; addPC(*T, ne); WORK.push_back(T); } else delete T;
  if (!isC(eq)) { if (!S.hasWit && fe) { Asg w2; bool h2; if (!feasible(S, eq, w2, h2)) throw EndPath(); S.hasWit = h2; if (h2) S.wit = w2; } addPC(S, eq); }
  S.conc[e->id] = val;
  return val;
}
// decide a symbolic condition: returns side for current state; pushes other
static bool branch(State &S, E c) {
  int k = knownVal(S, c); if (k >= 0) return k;
  int side = -1; Asg wt, wf; bool hwt = false, hwf = false; int ft = -1, ff = -1;
  if (S.hasWit) { EV.begin(S.wit); side = EV.get(c) ? 1 : 0; }
  if (side == 1) { ft = 1; wt = S.wit; hwt = true; } else if (side == 0) { ff = 1; wf = S.wit; hwf = true; }
  if (ft < 0) ft = feasible(S, c, wt, hwt);
  E n = mkNot(c);
  if (ff < 0) { if (ft == 0 && side < 0) ff = 1; else ff = feasible(S, n, wf, hwf); }
  if (ft && ff) {
    State *T = forkState(S); T->depth++; addPC(*T, n); T->hasWit = hwf; if (hwf) T->wit = wf; 
    addPC(S, c); S.hasWit = hwt; if (hwt) S.wit = wt; S.depth++;
    // T resumes at the same instruction: condition is now known
    WORK.push_back(T); return true;
  }
  if (ft) { S.known[c->id] = true; S.known[n->id] = false; return true; }
  if (ff) { S.known[c->id] = false; S.known[n->id] = true; return false; }
  throw EndPath();
}

static V getop(Frame &f, const Opd &o, int i = 0) { return o.slot >= 0 ? f.r[o.slot + i] : o.cv[i]; }
static V bin(Op op, const V &a, const V &b, unsigned w) { if (!a.e && !b.e) return vc(evalOp(op, w, 0, w, a.c, b.c, 0) & maskw(w)); return fromE(mk2(op, w, ex(a, w), ex(b, w))); }
static V cmp(Op op, const V &a, const V &b, unsigned w) { if (!a.e && !b.e) return vc(evalOp(op, 1, 0, w, a.c, b.c, 0)); return fromE(mk2(op, 1, ex(a, w), ex(b, w))); }
static V notv(const V &a) { return a.e ? fromE(mkNot(a.e)) : vc(!a.c); }
static V andv(const V &a, const V &b) { return bin(O_And, a, b, 1); }
static V orv(const V &a, const V &b) { return bin(O_Or, a, b, 1); }
static V un(Op op, const V &a, unsigned kw, unsigned w, int aux = 0) { if (!a.e) return vc(evalOp(op, w, aux, kw, a.c, 0, 0) & maskw(w)); return fromE(mk1(op, w, a.e, aux)); }
static V itev(const V &c, const V &a, const V &b, unsigned w) { if (!c.e) return c.c ? a : b; if (!a.e && !b.e && a.c == b.c) return a; return fromE(mkIte(c.e, ex(a, w), ex(b, w))); }
static V cast_(Op op, const V &a, unsigned kw, unsigned w) { // ZExt/SExt/Extract(trunc)
  if (kw == w) return a; if (!a.e) { if (op == O_Extract) return vc(a.c & maskw(w)); return vc(evalOp(op, w, 0, kw, a.c, 0, 0)); }
  if (op == O_Extract) return fromE(mkExtract(a.e, 0, w)); return fromE(mk1(op, w, a.e)); }
static V icmp(CmpInst::Predicate p, const V &a, const V &b, unsigned w) {
  switch (p) {
  case CmpInst::ICMP_EQ: return cmp(O_Eq, a, b, w); case CmpInst::ICMP_NE: return notv(cmp(O_Eq, a, b, w));
  case CmpInst::ICMP_ULT: return cmp(O_Ult, a, b, w); case CmpInst::ICMP_UGT: return cmp(O_Ult, b, a, w);
  case CmpInst::ICMP_ULE: return notv(cmp(O_Ult, b, a, w)); case CmpInst::ICMP_UGE: return notv(cmp(O_Ult, a, b, w));
  case CmpInst::ICMP_SLT: return cmp(O_Slt, a, b, w); case CmpInst::ICMP_SGT: return cmp(O_Slt, b, a, w);
  case CmpInst::ICMP_SLE: return notv(cmp(O_Slt, b, a, w)); case CmpInst::ICMP_SGE: return notv(cmp(O_Slt, a, b, w));
  default: throw Abort{"unsupported", "icmp"}; }
}
static V isnan_(const V &a, unsigned w) { return un(O_FIsNan, a, w, 1); }
static V fcmp(CmpInst::Predicate p, const V &a, const V &b, unsigned w) {
  auto uno = [&] { return orv(isnan_(a, w), isnan_(b, w)); };
  switch (p) {
  case CmpInst::FCMP_FALSE: return vc(0); case CmpInst::FCMP_TRUE: return vc(1);
  case CmpInst::FCMP_OEQ: return cmp(O_FEq, a, b, w); case CmpInst::FCMP_UNE: return notv(cmp(O_FEq, a, b, w));
  case CmpInst::FCMP_OLT: return cmp(O_FLt, a, b, w); case CmpInst::FCMP_OGT: return cmp(O_FLt, b, a, w);
  case CmpInst::FCMP_OLE: return cmp(O_FLe, a, b, w); case CmpInst::FCMP_OGE: return cmp(O_FLe, b, a, w);
  case CmpInst::FCMP_ULT: return notv(cmp(O_FLe, b, a, w)); case CmpInst::FCMP_UGT: return notv(cmp(O_FLe, a, b, w));
  case CmpInst::FCMP_ULE: return notv(cmp(O_FLt, b, a, w)); case CmpInst::FCMP_UGE: return notv(cmp(O_FLt, a, b, w));
  case CmpInst::FCMP_ONE: return orv(cmp(O_FLt, a, b, w), cmp(O_FLt, b, a, w)); case CmpInst::FCMP_UEQ: return notv(orv(cmp(O_FLt, a, b, w), cmp(O_FLt, b, a, w)));
  case CmpInst::FCMP_UNO: return uno(); case CmpInst::FCMP_ORD: return notv(uno());
  default: throw Abort{"unsupported", "fcmp"}; }
}
static V fmin_(const V &x, const V &y, unsigned w) { V m = itev(cmp(O_FLt, y, x, w), y, x, w); return itev(isnan_(x, w), y, m, w); }
static V fmax_(const V &x, const V &y, unsigned w) { V m = itev(cmp(O_FLt, x, y, w), y, x, w); return itev(isnan_(x, w), y, m, w); }
static bool again(State &S, const string &kind, V &v) { // an input the first process has already been given
  while (S.cur < S.in.size() && S.in[S.cur].kind == "rng") S.cur++;
  if (S.cur >= S.in.size()) return false;
  if (S.in[S.cur].kind != kind) throw Abort{"unsupported", "the second process asks for other inputs"};
  const In &i = S.in[S.cur++]; v = i.e ? V{0, i.e} : vc(i.c); return true;
}
static V freshVar(State &S, const string &kind, unsigned w, bool fl, double lo, double hi, u128 ulo, u128 uhi, u64 k1 = 0, u64 k2 = 0) {
  V old; if (S.proc && kind != "rng" && again(S, kind, old)) return old;
  VarInfo vi{kind, w, fl, lo, hi, ulo, uhi, kind == "rng" ? -1L : (long)S.in.size(), k1, k2}; E e = mkVar(vi); S.in.push_back(In{kind, e, 0, w, k1, k2});
  if (S.hasWit && !S.wit.count(e->aux)) { // deterministic diverse initial witness
    u64 h = (u64)(e->aux + 1) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; double t = (h >> 11) * (1.0 / 9007199254740992.0);
    if (fl) { double d = lo + (hi - lo) * t; if (!(d >= lo && d <= hi)) d = lo; S.wit[e->aux] = fbits(d, w); } else { u128 span = uhi - ulo + 1; S.wit[e->aux] = span ? ulo + (u128)h % span : (u128)h; }
  }
  return V{0, e};
}

static const std::unordered_map<string, int> FUN1{{"log", F_LOG}, {"log10", F_LOG10}, {"exp", F_EXP}, {"log2", F_LOG2}, {"exp2", F_EXP2}, {"sin", F_SIN}, {"cos", F_COS}, {"tan", F_TAN}, {"log1p", F_LOG1P}, {"expm1", F_EXPM1}, {"cbrt", F_CBRT}, {"tanh", F_TANH}, {"asin", F_ASIN}, {"acos", F_ACOS}, {"atan", F_ATAN}};
static const std::unordered_map<string, int> FUN2{{"pow", F_POW}, {"atan2", F_ATAN2}, {"hypot", F_HYPOT}};

static void doPanic(State &S, const string &what, const Instruction *I) {
  nPaths++;
  if (S.allowPanic) { nPanicOk++; throw EndPath(); }
  string msg = "panic: " + what + " at " + loc(I);
  // a panic is a violation if the path is feasible
  chkTotal++; decide(S, FALSE_, {}, msg, "panic"); throw EndPath();
}

static void pushCall(State &S, const Function *F, vector<V> &args, int dst, int n, int s0);
// external functions; returns true if handled. r = result slots
static bool external(State &S, Frame &f, CI &ci, const string &n, vector<V> &a, vector<V> &r) {
  const Instruction *I = ci.I;
  auto C = [&](int i) -> u64 { return (u64)concretize(S, a[i], 64, "ext"); };
  if (n.rfind("vf_", 0) == 0) {
    if (n == "vf_f64") { double lo = b2d(C(0)), hi = b2d(C(1)); r = {freshVar(S, "f64", 64, true, lo, hi, 0, ~(u64)0)}; if (lo == hi) r = {vc(d2b(lo))}; return true; }
    if (n == "vf_u64") { u64 lo = C(0), hi = C(1); if (lo == hi) { V o; if (!(S.proc && again(S, n.substr(3), o))) S.in.push_back(In{"u64", nullptr, lo, 64, 0, 0}); r = {vc(lo)}; return true; } r = {freshVar(S, "u64", 64, false, 0, 0, lo, hi)}; return true; }
    if (n == "vf_bool") { V v = freshVar(S, "bool", 1, false, 0, 0, 0, 1); r = {v}; return true; }
    if (n == "vf_choice") { V old; if (S.proc && again(S, "choice", old)) { r = {old}; return true; } u64 k = C(0); // fork over all values, DFS order
      State *base = &S; size_t pos = S.in.size(); (void)pos;
      for (u64 i = k; i-- > 1;) { State *T = forkState(*base); T->in.push_back(In{"choice", nullptr, i, 64, 0, 0}); Frame &tf = T->st.back(); tf.r[ci.dst] = vc(i); tf.pc++; WORK.push_back(T); }
      S.in.push_back(In{"choice", nullptr, 0, 64, 0, 0}); r = {vc(0)}; return true; }
    if (n == "vf_assume" || n == "vf_accept") { V c = a[0]; r = {vc(1)}; if (!c.e) { if (!c.c) { if (PINRNG && n == "vf_accept") { r = {vc(0)}; return true; } nAssume++; throw EndPath(); } return true; }
      int k = knownVal(S, c.e); if (k == 1) return true; if (k == 0) { nAssume++; throw EndPath(); }
      bool ok = false; if (S.hasWit) { EV.begin(S.wit); ok = EV.get(c.e); }
      if (!ok) { Asg w; bool hw; if (!feasible(S, c.e, w, hw)) { nAssume++; throw EndPath(); } S.hasWit = hw; if (hw) S.wit = w; }
      addPC(S, c.e); return true; }
    if (n == "vf_check") { string m = readStr(S, C(1), C(2)); checkProp(S, ex(a[0], 1), {}, m); return true; }
    if (n == "vf_close") { // a,b,msg,len : equal up to rounding
      string m = readStr(S, C(2), C(3)); E x = ex(a[0], 64), y = ex(a[1], 64);
      auto K = [&](double d) { return mkc(d2b(d), 64); };
      auto within = [&](double tol) { E d = mk1(O_FAbs, 64, mk2(O_FSub, 64, x, y)); E s = mk2(O_FAdd, 64, mk2(O_FAdd, 64, mk1(O_FAbs, 64, x), mk1(O_FAbs, 64, y)), K(1.0)); return mk2(O_FLe, 1, d, mk2(O_FMul, 64, s, K(tol))); };
      E nn = mkAnd1(mk1(O_FIsNan, 1, x), mk1(O_FIsNan, 1, y)); E eq = mk2(O_FEq, 1, x, y);
      if (x == y) { chkTotal++; CHKMSG[m]++; chkTriv++; return true; }
      E same = mkOr1(nn, eq);
      E prop = mkOr1(same, within(1e-6));
      // exact equality first (cheap in UF), then large / tolerance-level differences over the reals
      if (!isC(x) || !isC(y)) { int kv = knownVal(S, same); if (kv == 1) { chkTotal++; CHKMSG[m]++; chkTriv++; return true; } }
      chkTotal++; CHKMSG[m]++;
      if (isC(prop) && prop->c) { chkTriv++; return true; }
      if (!isC(same)) { int q = ucheck(S.pc, {mkNot(same)}, TO[M_UF], nullptr); if (q == 0) { chkBy[M_UF]++; return true; } }
      decide(S, prop, {mkNot(mkOr1(same, within(1e-2))), mkNot(mkOr1(same, within(1e-7)))}, m, "check"); return true; }
    if (n == "vf_le") { string m = readStr(S, C(2), C(3)); E x = ex(a[0], 64), y = ex(a[1], 64); auto K = [&](double d) { return mkc(d2b(d), 64); };
      E le = mk2(O_FLe, 1, x, y); if (isC(le) && le->c) { chkTotal++; CHKMSG[m]++; chkTriv++; return true; }
      auto slack = [&](double tol) { E s = mk2(O_FAdd, 64, mk2(O_FAdd, 64, mk1(O_FAbs, 64, x), mk1(O_FAbs, 64, y)), K(1.0)); return mkOr1(le, mk2(O_FLe, 1, x, mk2(O_FAdd, 64, y, mk2(O_FMul, 64, s, K(tol))))); };
      checkProp(S, slack(1e-6), {mkNot(slack(1e-2)), mkNot(slack(1e-7))}, m); return true; }
    if (n == "vf_cover") { string m = readStr(S, C(0), C(1)); if (S.hasWit) COVERS.insert(m); else S.covers.insert(m); return true; }
    if (n == "vf_allow_panic") { S.allowPanic = C(0) != 0; return true; }
    if (n == "vf_flags") { HFLAGS = (unsigned)C(0); return true; }
    if (n == "vf_limit") { u64 which = C(0), v = C(1); if (which == 0) MAXRNG = v; else if (which == 1) MAXDEPTH = v; else if (which == 2) PINRNG = v; else if (which >= 10 && which < 14) TO[which - 10] = v; else if (which == 20 || which == 21) FTO[which - 20] = v; return true; }
    if (n == "vf_rng_at") { u64 seed = C(0), pos = C(1);
      if (PINRNG) { u64 h = (seed * 0x9E3779B97F4A7C15ull) ^ (pos + 1) * 0xBF58476D1CE4E5B9ull; h ^= h >> 31; h *= 0x94D049BB133111EBull; r = {vc((uint32_t)(h >> 29))}; return true; }
      if (++S.rngDraws > MAXRNG) { nBound++; throw EndPath(); } r = {freshVar(S, "rng", 32, false, 0, 0, 0, 0xffffffffu, seed, pos)}; return true; }
    if (n == "vf_across") { // (ptr, words, msg, len): the same words come out of a second process given the same inputs
      u64 p = C(0), k = C(1); vector<V> v; for (u64 i = 0; i < k; i++) v.push_back(loadV(S, p + 8 * i, 64));
      if (!S.proc) { S.proc = 1; S.cur = 0; S.across = std::move(v); S.mem.clear(); S.lastR = nullptr; S.lastHold = nullptr; S.st.clear(); S.heap = 0x700000000000ull; S.rngDraws = 0; S.allowPanic = false; S.hashKey = 0;
        vector<V> args{vc(JCFG)}; pushCall(S, M->getFunction(JENTRY), args, -1, 0, -1); throw Restart(); }
      string m = readStr(S, C(2), C(3)); E same = mkc(v.size() == S.across.size(), 1);
      for (size_t i = 0; i < std::min(v.size(), S.across.size()); i++) same = mkAnd1(same, ex(cmp(O_Eq, v[i], S.across[i], 64), 1));
      checkProp(S, same, {}, m); return true; }
    if (n == "vf_second") { r = {vc(S.proc)}; return true; }
    if (n == "vf_is_concrete") { r = {vc(a[0].e ? 0 : 1)}; return true; }
    if (n == "vf_pick") { // concretise an integer by exploring every feasible value
      V v = a[0]; u128 c = concretize(S, v, 64, "pick"); r = {vc(c)}; return true; }
    if (n == "vf_debug") { fprintf(stderr, "DEBUG %s\n", a[0].e ? estr(a[0].e, 12).c_str() : hex((u64)a[0].c).c_str()); return true; }
    throw Abort{"unsupported", "intrinsic " + n};
  }
  if (n == "malloc" || n == "__rust_alloc" || n == "__rdl_alloc") { r = {vc(allocObj(S, C(0), n == "malloc" ? 16 : C(1), 1))}; return true; }
  if (n == "__rust_alloc_zeroed" || n == "__rdl_alloc_zeroed") { r = {vc(allocObj(S, C(0), C(1), 1))}; return true; }
  if (n == "calloc") { r = {vc(allocObj(S, C(0) * C(1), 16, 1))}; return true; }
  if (n == "posix_memalign") { u64 p = allocObj(S, C(2), C(1), 1); storeV(S, C(0), vc(p), 64); r = {vc(0)}; return true; }
  if (n == "aligned_alloc") { r = {vc(allocObj(S, C(1), C(0), 1))}; return true; }
  if (n == "free" || n == "__rust_dealloc" || n == "__rdl_dealloc") { u64 p = C(0); if (p) S.mem.erase(p); return true; }
  if (n == "realloc" || n == "__rust_realloc" || n == "__rdl_realloc") { u64 p = C(0), ns = n == "realloc" ? C(1) : C(3); u64 al = n == "realloc" ? 16 : C(2); u64 q = allocObj(S, ns, al, 1); if (p) { u64 os = robj(S, p, 0).size; copyMem(S, q, p, std::min(os, ns)); S.mem.erase(p); } r = {vc(q)}; return true; }
  if (n == "memcmp" || n == "bcmp") { u64 p = C(0), q = C(1), len = C(2); V res = vc(0); 
    for (u64 i = len; i-- > 0;) { V x = loadV(S, p + i, 8), y = loadV(S, q + i, 8); V lt = cmp(O_Ult, x, y, 8), eq = cmp(O_Eq, x, y, 8); res = itev(eq, res, itev(lt, vc(0xffffffffu), vc(1), 32), 32); } r = {res}; return true; }
  if (n == "strlen") { u64 p = C(0), i = 0; while (loadV(S, p + i, 8).c) i++; r = {vc(i)}; return true; }
  if (n == "memcpy" || n == "memmove") { copyMem(S, C(0), C(1), C(2)); r = {a[0]}; return true; }
  if (n == "getrandom") { u64 p = C(0), len = C(1); for (u64 i = 0; i < len; i++) storeV(S, p + i, vc((uint8_t)(17 * i + 3 + 101 * S.proc)), 8); r = {vc(len)}; return true; }
  if (n == "syscall") { u64 nr = C(0); if (nr == 318) { u64 p = C(1), len = C(2); for (u64 i = 0; i < len; i++) storeV(S, p + i, vc((uint8_t)(17 * i + 3 + 101 * S.proc)), 8); r = {vc(len)}; return true; } if (nr == 202) { r = {vc(0)}; return true; } throw Abort{"unsupported", "syscall " + std::to_string(nr)}; }
  if (n == "write") { r = {vc(C(2))}; return true; }
  if (n == "writev") { u64 p = C(1), k = C(2), t = 0; for (u64 i = 0; i < k; i++) t += (u64)loadV(S, p + 16 * i + 8, 64).c; r = {vc(t)}; return true; }
  if (n == "clock_gettime") { storeV(S, C(1), vc(1600000000), 64); storeV(S, C(1) + 8, vc(0), 64); r = {vc(0)}; return true; }
  if (n == "__cxa_thread_atexit_impl" || n == "atexit") { r = {vc(0)}; return true; }
  if (n == "pthread_key_create") { storeV(S, C(0), vc(1), 32); r = {vc(0)}; return true; }
  if (n == "pthread_setspecific" || n == "pthread_key_delete" || n == "pthread_mutex_lock" || n == "pthread_mutex_unlock" || n == "pthread_mutex_init" || n == "pthread_mutex_destroy" || n == "pthread_mutexattr_init" || n == "pthread_mutexattr_settype" || n == "pthread_mutexattr_destroy" || n == "sched_yield") { r = {vc(0)}; return true; }
  if (n == "pthread_getspecific") { r = {vc(0)}; return true; }
  if (n == "pthread_self") { r = {vc(1)}; return true; }
  if (n == "__errno_location") { static u64 e = 0; if (!S.mem.count(0x600000000000ull)) { auto o = std::make_shared<Obj>(); o->base = 0x600000000000ull; o->size = 8; o->d.resize(8); S.mem[o->base] = o; } (void)e; r = {vc(0x600000000000ull)}; return true; }
  if (n == "getenv" || n == "setenv" || n == "unsetenv") { r = {vc(0)}; return true; }
  { auto it = FUN1.find(n); if (it != FUN1.end()) { r = {un(O_Fun1, a[0], 64, 64, it->second)}; return true; } }
  { auto it = FUN2.find(n); if (it != FUN2.end()) { r = {a[0].e || a[1].e ? fromE(mk2(O_Fun2, 64, ex(a[0], 64), ex(a[1], 64), it->second)) : vc(evalOp(O_Fun2, 64, it->second, 64, a[0].c, a[1].c, 0))}; return true; } }
  if (n == "fmod") { r = {bin(O_FRem, a[0], a[1], 64)}; return true; }
  if (n == "floor") { r = {un(O_FFloor, a[0], 64, 64)}; return true; }
  if (n == "ceil") { r = {un(O_FCeil, a[0], 64, 64)}; return true; }
  if (n == "round") { r = {un(O_FRound, a[0], 64, 64)}; return true; }
  if (n == "trunc") { r = {un(O_FTrunc, a[0], 64, 64)}; return true; }
  if (n == "rint" || n == "roundeven" || n == "nearbyint") { r = {un(O_FRint, a[0], 64, 64)}; return true; }
  if (n == "abort" || n == "exit" || n == "_exit") doPanic(S, n, I);
  return false;
}
static V ovf(int iid, const V &a, const V &b, unsigned w, V &res) {
  // overflow flag through double-width arithmetic
  bool sg = iid == Intrinsic::sadd_with_overflow || iid == Intrinsic::ssub_with_overflow || iid == Intrinsic::smul_with_overflow;
  Op op = (iid == Intrinsic::sadd_with_overflow || iid == Intrinsic::uadd_with_overflow) ? O_Add : (iid == Intrinsic::ssub_with_overflow || iid == Intrinsic::usub_with_overflow) ? O_Sub : O_Mul;
  res = bin(op, a, b, w);
  if (!a.e && !b.e) {
    if (!sg) { if (op == O_Add) return vc((u128)(res.c) < a.c); if (op == O_Sub) return vc(a.c < b.c); if (w <= 64) return vc((a.c * b.c) > maskw(w)); return vc(a.c != 0 && (res.c / a.c) != b.c); }
    i128 x = sx(a.c, w), y = sx(b.c, w);
    if (w < 128) { if (op == O_Mul && w > 64) throw Abort{"unsupported", "smul128"}; i128 z = op == O_Add ? x + y : op == O_Sub ? x - y : x * y; return vc(z != sx(res.c, w)); }
    i128 z; bool o = op == O_Add ? __builtin_add_overflow(x, y, &z) : op == O_Sub ? __builtin_sub_overflow(x, y, &z) : __builtin_mul_overflow(x, y, &z); return vc(o);
  }
  E x = ex(a, w), y = ex(b, w);
  if (!sg) {
    u128 al, ah, bl, bh; urange(x, al, ah); urange(y, bl, bh); u128 m = maskw(w);
    if (op == O_Add) { if (ah <= m - bh) return vc(0); return fromE(mk2(O_Ult, 1, ex(res, w), x)); }
    if (op == O_Sub) return fromE(mk2(O_Ult, 1, x, y));
    if (ah == 0 || bh <= m / ah) return vc(0);
    if (isC(x) || isC(y)) { E k = isC(x) ? x : y, z = isC(x) ? y : x; if (!k->c) return vc(0); return fromE(mk2(O_Ult, 1, mkc(m / k->c, w), z)); }
    if (w > 64) throw Abort{"unsupported", "umul128 overflow"};
    E p = mk2(O_Mul, 2 * w, mk1(O_ZExt, 2 * w, x), mk1(O_ZExt, 2 * w, y)); return fromE(mkNot(mk2(O_Eq, 1, mkExtract(p, w, w), mkc(0, w))));
  }
  unsigned W = w < 64 ? 2 * w : (op == O_Mul ? 2 * w : w + 1); if (W > 128) W = 128;
  // ranges that cannot overflow
  { u128 al, ah, bl, bh; urange(x, al, ah); urange(y, bl, bh); u128 half = (u128)1 << (w - 1);
    if (ah < half && bh < half) { if (op == O_Sub) return vc(0); if (op == O_Add && ah + bh < half) return vc(0); if (op == O_Mul && (ah == 0 || bh <= (half - 1) / ah)) return vc(0); } }
  if (w == 128) { if (op == O_Mul) throw Abort{"unsupported", "smul128 overflow"};
    E zero = mkc(0, 128); E xs = mk2(O_Slt, 1, x, zero), ys = mk2(O_Slt, 1, y, zero), rs = mk2(O_Slt, 1, ex(res, w), zero);
    E same = mkNot(mk2(O_Xor, 1, xs, ys)); if (op == O_Sub) same = mkNot(same); return fromE(mkAnd1(same, mk2(O_Xor, 1, xs, rs))); }
  E p = mk2(op, W, mk1(O_SExt, W, x), mk1(O_SExt, W, y)); return fromE(mkNot(mk2(O_Eq, 1, p, mk1(O_SExt, W, mkExtract(p, 0, w)))));
}
static u128 bitrev(u128 v, unsigned w) { u128 r = 0; for (unsigned i = 0; i < w; i++) if ((v >> i) & 1) r |= (u128)1 << (w - 1 - i); return r; }
static V cntz(State &S, const V &a, unsigned w, bool lead) {
  if (!a.e) { if (!a.c) return vc(w); unsigned n = 0; if (lead) while (!((a.c >> (w - 1 - n)) & 1)) n++; else while (!((a.c >> n) & 1)) n++; return vc(n); }
  V r = vc(w); for (unsigned j = 0; j < w; j++) { unsigned i = lead ? j : w - 1 - j; V b = fromE(mkExtract(a.e, i, 1)); r = itev(b, vc(lead ? w - 1 - i : i), r, w); } return r;
}

static void enterBlock(State &S, Frame &f, int to) {
  CF *cf = f.cf; int from = f.blk; int pc = cf->bstart[to]; const BasicBlock *pb = nullptr;
  static vector<const BasicBlock *> dummy; vector<std::pair<int, V>> upd;
  int p = pc;
  while (cf->code[p].opc == Instruction::PHI) {
    if (!pb) { int k = 0; for (auto &B : *cf->F) { if (k == from) { pb = &B; break; } k++; } }
    auto *ph = cast<PHINode>(cf->code[p].I); const Value *v = ph->getIncomingValueForBlock(pb); CI &ci = cf->code[p]; cf->hit[p] = 1;
    if (auto *C = dyn_cast<Constant>(v)) { auto &cc = CCACHE[C]; if (!cc) cc = new vector<V>(constVals(C)); for (int i = 0; i < ci.nd; i++) upd.push_back({ci.dst + i, (*cc)[i]}); }
    else { int s = cf->slot[v]; for (int i = 0; i < ci.nd; i++) upd.push_back({ci.dst + i, f.r[s + i]}); }
    p++;
  }
  for (auto &u : upd) f.r[u.first] = u.second;
  f.blk = to; f.pc = p;
}
static DenseMap<const Function *, int> PANICFN;
static string rustName(const Function *F) { return demangle(F->getName().str()); }

static void pushCall(State &S, const Function *F, vector<V> &args, int dst, int n, int s0) {
  CF *cf = compile(F); if (S.st.size() > 400) throw Abort{"unsupported", "call depth"};
  Frame nf; nf.cf = cf; nf.r.assign(cf->nslots, vc(0)); for (size_t i = 0; i < args.size() && (int)i < cf->nslots; i++) nf.r[i] = args[i];
  nf.blk = 0; nf.pc = cf->bstart[0]; nf.retDst = dst; nf.retN = n; nf.retS0 = s0; S.st.push_back(std::move(nf));
}
static void finishCall(State &S, CI &ci, Frame &f, const vector<V> &r) {
  for (int i = 0; i < ci.nd && i < (int)r.size(); i++) f.r[ci.dst + i] = r[i];
  if (ci.s0 >= 0) enterBlock(S, f, ci.s0); else f.pc++;
}

static void doCall(State &S, Frame &f, CI &ci) {
  const CallBase *cb = cast<CallBase>(ci.I);
  const Function *F = ci.callee; vector<V> a, r; unsigned nargs = cb->arg_size();
  if (ci.ext == 1) { // inline asm
    auto *ia = cast<InlineAsm>(cb->getCalledOperand()); string as = ia->getAsmString();
    if (contains(as, "cpuid") || contains(as, "xgetbv")) { r.assign(ci.nd, vc(0)); return finishCall(S, ci, f, r); }
    if (as.empty()) { if (ci.nd && nargs) r = {getop(f, ci.ops[0])}; return finishCall(S, ci, f, r); }
    if (contains(as, "pause")) return finishCall(S, ci, f, r);
    throw Abort{"unsupported", "asm " + as};
  }
  if (!F) { V p = getop(f, ci.ops[nargs]); u64 addr = (u64)concretize(S, p, 64, "call"); auto it = FADDR.find(addr); if (it == FADDR.end()) throw Abort{"memory", "call of " + hex(addr)}; F = it->second; }
  for (unsigned i = 0; i < nargs; i++) for (int k = 0; k < ci.ops[i].n; k++) a.push_back(getop(f, ci.ops[i], k));
  int id = F->getIntrinsicID();
  if (!id) {
    if (F->doesNotReturn() || cb->doesNotReturn()) {
      string n = rustName(F); size_t h = n.rfind("::h"); if (h != string::npos && n.size() - h == 19) n = n.substr(0, h);
      if (contains(n, "panick") || contains(n, "_fail") || contains(n, "failed") || contains(n, "panic") || F->isDeclaration() || contains(n, "handle_alloc_error") || contains(n, "capacity_overflow") || contains(n, "abort")) doPanic(S, n, ci.I);
      // generic never-returning function: step into it, it will panic further down
    }
    string n = F->getName().str();
    if (F->isDeclaration() || n == "__rust_alloc" || n == "__rust_dealloc" || n == "__rust_realloc" || n == "__rust_alloc_zeroed" || n == "__rdl_alloc" || n == "__rdl_dealloc" || n == "__rdl_realloc" || n == "__rdl_alloc_zeroed") {
      if (!external(S, f, ci, n, a, r)) throw Abort{"unsupported", "external " + n};
      EXTRA.insert(n); return finishCall(S, ci, S.st.back(), r);
    }
    return pushCall(S, F, a, ci.dst, ci.nd, ci.s0);
  }
  // intrinsics
  const auto &L = ci.L ? *ci.L : leaves(cb->getType()); unsigned w = L.empty() ? 0 : L[0].w;
  auto map1 = [&](std::function<V(const V &)> g) { for (int i = 0; i < ci.nd; i++) r.push_back(g(a[i])); };
  auto map2 = [&](std::function<V(const V &, const V &)> g) { for (int i = 0; i < ci.nd; i++) r.push_back(g(a[i], a[i + ci.ops[0].n])); };
  unsigned aw = nargs && !cb->getArgOperand(0)->getType()->isMetadataTy() && leaves(cb->getArgOperand(0)->getType()).size() ? leaves(cb->getArgOperand(0)->getType())[0].w : 0;
  switch (id) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: if (ci.nd) r.assign(ci.nd, vc(0)); break;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::arithmetic_fence: r = {a[0]}; break;
  case Intrinsic::threadlocal_address: r = {a[0]}; break;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    if (a[1].e && !a[2].e && a[2].c >= 1 && a[2].c <= 8 && !S.conc.count(a[1].e->id)) { V t; unsigned tw = (unsigned)a[2].c * 8; if (tableLoad(S, a[1].e, tw, t)) { u64 d = (u64)concretize(S, a[0], 64, "m"); storeLeaf(wobj(S, d, a[2].c), d, t, tw); break; } }
    u64 d = (u64)concretize(S, a[0], 64, "m"), s = (u64)concretize(S, a[1], 64, "m"), n = (u64)concretize(S, a[2], 64, "m"); copyMem(S, d, s, n); break; }
  case Intrinsic::memset: { u64 d = (u64)concretize(S, a[0], 64, "m"), n = (u64)concretize(S, a[2], 64, "m"); if (n) { Obj &o = wobj(S, d, n); for (u64 i = 0; i < n; i++) storeLeaf(o, d + i, a[1], 8); } break; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    int k = ci.ops[0].n; vector<V> rs, os; for (int i = 0; i < k; i++) { V x; V o = ovf(id, a[i], a[i + k], w, x); rs.push_back(x); os.push_back(o); } r = rs; r.insert(r.end(), os.begin(), os.end()); break; }
  case Intrinsic::uadd_sat: map2([&](const V &x, const V &y) { V s; V o = ovf(Intrinsic::uadd_with_overflow, x, y, w, s); return itev(o, vc(maskw(w)), s, w); }); break;
  case Intrinsic::usub_sat: map2([&](const V &x, const V &y) { V s; V o = ovf(Intrinsic::usub_with_overflow, x, y, w, s); return itev(o, vc(0), s, w); }); break;
  case Intrinsic::umin: map2([&](const V &x, const V &y) { return itev(cmp(O_Ult, y, x, w), y, x, w); }); break;
  case Intrinsic::umax: map2([&](const V &x, const V &y) { return itev(cmp(O_Ult, x, y, w), y, x, w); }); break;
  case Intrinsic::smin: map2([&](const V &x, const V &y) { return itev(cmp(O_Slt, y, x, w), y, x, w); }); break;
  case Intrinsic::smax: map2([&](const V &x, const V &y) { return itev(cmp(O_Slt, x, y, w), y, x, w); }); break;
  case Intrinsic::abs: map1([&](const V &x) { return itev(cmp(O_Slt, x, vc(0), w), bin(O_Sub, vc(0), x, w), x, w); }); break;
  case Intrinsic::ctpop: map1([&](const V &x) { if (!x.e) return vc(__builtin_popcountll((u64)x.c) + __builtin_popcountll((u64)(x.c >> 64))); V s = vc(0); for (unsigned i = 0; i < w; i++) s = bin(O_Add, s, fromE(mk1(O_ZExt, w, mkExtract(x.e, i, 1))), w); return s; }); break;
  case Intrinsic::ctlz: map1([&](const V &x) { return cntz(S, x, w, true); }); break;
  case Intrinsic::cttz: map1([&](const V &x) { return cntz(S, x, w, false); }); break;
  case Intrinsic::bswap: map1([&](const V &x) { if (!x.e) { u128 v = 0; for (unsigned i = 0; i < w / 8; i++) v = (v << 8) | ((x.c >> (8 * i)) & 0xff); return vc(v); } E q = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x.e, 8 * i, 8); q = q ? mkConcat(q, b) : b; } return fromE(q); }); break;
  case Intrinsic::bitreverse: map1([&](const V &x) { if (x.e) throw Abort{"unsupported", "bitreverse"}; return vc(bitrev(x.c, w)); }); break;
  case Intrinsic::fshl: case Intrinsic::fshr: for (int i = 0; i < ci.nd; i++) { int k = ci.ops[0].n; V x = a[i], y = a[i + k], z = a[i + 2 * k]; unsigned s = (unsigned)(concretize(S, z, w, "fsh") % w);
      if (id == Intrinsic::fshr) s = (w - s) % w; bool full = (s == 0);
      if (full) r.push_back(id == Intrinsic::fshl ? x : y); else r.push_back(bin(O_Or, bin(O_Shl, x, vc(s), w), bin(O_LShr, y, vc(w - s), w), w)); } break;
  case Intrinsic::fabs: map1([&](const V &x) { return un(O_FAbs, x, w, w); }); break;
  case Intrinsic::floor: map1([&](const V &x) { return un(O_FFloor, x, w, w); }); break;
  case Intrinsic::ceil: map1([&](const V &x) { return un(O_FCeil, x, w, w); }); break;
  case Intrinsic::trunc: map1([&](const V &x) { return un(O_FTrunc, x, w, w); }); break;
  case Intrinsic::round: map1([&](const V &x) { return un(O_FRound, x, w, w); }); break;
  case Intrinsic::rint: case Intrinsic::roundeven: case Intrinsic::nearbyint: map1([&](const V &x) { return un(O_FRint, x, w, w); }); break;
  case Intrinsic::sqrt: map1([&](const V &x) { return un(O_FSqrt, x, w, w); }); break;
  case Intrinsic::minnum: case Intrinsic::minimum: map2([&](const V &x, const V &y) { return fmin_(x, y, w); }); break;
  case Intrinsic::maxnum: case Intrinsic::maximum: map2([&](const V &x, const V &y) { return fmax_(x, y, w); }); break;
  case Intrinsic::copysign: map2([&](const V &x, const V &y) { V ab = un(O_FAbs, x, w, w); if (!y.e) return (y.c >> (w - 1)) ? un(O_FNeg, ab, w, w) : ab; Iv v = fiv(y.e); if (!v.nan && v.lo > 0) return ab; if (!v.nan && v.hi < 0) return un(O_FNeg, ab, w, w); V sgn = fromE(mkExtract(y.e, w - 1, 1)); if (floaty(y.e)) sgn = cmp(O_FLt, y, vc(0), w); return itev(sgn, un(O_FNeg, ab, w, w), ab, w); }); break;
  case Intrinsic::fma: case Intrinsic::fmuladd: for (int i = 0; i < ci.nd; i++) { int k = ci.ops[0].n; if (id == Intrinsic::fmuladd) r.push_back(bin(O_FAdd, bin(O_FMul, a[i], a[i + k], w), a[i + 2 * k], w)); else r.push_back(fromE(mkFma(w, ex(a[i], w), ex(a[i + k], w), ex(a[i + 2 * k], w)))); } break;
  case Intrinsic::log: case Intrinsic::log10: case Intrinsic::log2: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::sin: case Intrinsic::cos: { int fn = id == Intrinsic::log ? F_LOG : id == Intrinsic::log10 ? F_LOG10 : id == Intrinsic::log2 ? F_LOG2 : id == Intrinsic::exp ? F_EXP : id == Intrinsic::exp2 ? F_EXP2 : id == Intrinsic::sin ? F_SIN : F_COS; map1([&](const V &x) { return un(O_Fun1, x, w, w, fn); }); break; }
  case Intrinsic::pow: map2([&](const V &x, const V &y) { if (x.e || y.e) { if (!y.e && fval(y.c, w) == 2.0) return bin(O_FMul, x, x, w); if (!y.e && fval(y.c, w) == 1.0) return x; return fromE(mk2(O_Fun2, w, ex(x, w), ex(y, w), F_POW)); } return vc(evalOp(O_Fun2, w, F_POW, w, x.c, y.c, 0)); }); break;
  case Intrinsic::powi: { int k = (int)(int32_t)(uint32_t)concretize(S, a[ci.ops[0].n], 32, "powi"); map1([&](const V &x) { V acc = vc(fbits(1.0, w)); V b = x; unsigned n = k < 0 ? -k : k; bool first = true; while (n) { if (n & 1) { acc = first ? b : bin(O_FMul, acc, b, w); first = false; } n >>= 1; if (n) b = bin(O_FMul, b, b, w); } if (k < 0) acc = bin(O_FDiv, vc(fbits(1.0, w)), acc, w); return acc; }); break; }
  case Intrinsic::fptoui_sat: map1([&](const V &x) { return un(O_FToU, x, aw, w); }); break;
  case Intrinsic::fptosi_sat: map1([&](const V &x) { return un(O_FToS, x, aw, w); }); break;
  case Intrinsic::is_fpclass: { unsigned mask = (unsigned)a[1].c; V x = a[0]; V res = vc(0); V nan = isnan_(x, aw); if (mask & 3) res = orv(res, nan);
    V ax = un(O_FAbs, x, aw, aw); V infc = vc(fbits(INF, aw)); V isinf = cmp(O_FEq, ax, infc, aw); V neg = cmp(O_FLt, x, vc(0), aw); V zero = cmp(O_FEq, x, vc(0), aw);
    if ((mask & 0x204) == 0x204) res = orv(res, isinf); else { if (mask & 4) res = orv(res, andv(isinf, neg)); if (mask & 0x200) res = orv(res, andv(isinf, notv(neg))); }
    unsigned fin = mask & 0x1f8; if (fin == 0x1f8) res = orv(res, notv(orv(nan, isinf))); else if (fin) {
      if ((fin & 0x60) == 0x60) res = orv(res, zero); else if (fin & 0x60) throw Abort{"unsupported", "fpclass signed zero"};
      V fn = notv(orv(orv(nan, isinf), zero)); V sub = cmp(O_FLt, ax, vc(fbits(aw == 64 ? 2.2250738585072014e-308 : 1.17549435e-38, aw)), aw);
      if (fin & 0x10) res = orv(res, andv(andv(fn, neg), sub)); if (fin & 0x8) res = orv(res, andv(andv(fn, neg), notv(sub))); if (fin & 0x80) res = orv(res, andv(andv(fn, notv(neg)), sub)); if (fin & 0x100) res = orv(res, andv(andv(fn, notv(neg)), notv(sub))); }
    r = {res}; break; }
  case Intrinsic::trap: case Intrinsic::ubsantrap: doPanic(S, "trap", ci.I); break;
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: { Op op = id == Intrinsic::vector_reduce_add ? O_Add : id == Intrinsic::vector_reduce_or ? O_Or : id == Intrinsic::vector_reduce_and ? O_And : id == Intrinsic::vector_reduce_xor ? O_Xor : O_Mul; V x = a[0]; for (size_t i = 1; i < a.size(); i++) x = bin(op, x, a[i], w); r = {x}; break; }
  case Intrinsic::vector_reduce_fadd: { V x = a[0]; for (size_t i = 1; i < a.size(); i++) x = bin(O_FAdd, x, a[i], w); r = {x}; break; }
  case Intrinsic::objectsize: r = {vc(maskw(w))}; break;
  case Intrinsic::is_constant: r = {vc(0)}; break;
  case Intrinsic::stacksave: r = {vc(0)}; break; case Intrinsic::stackrestore: break;
  default: throw Abort{"unsupported", "intrinsic " + F->getName().str()};
  }
  finishCall(S, ci, f, r);
}

static void step(State &S) {
  Frame &f = S.st.back(); CI &ci = f.cf->code[f.pc]; f.cf->hit[f.pc] = 1; const Instruction *I = ci.I; nSteps++; S.steps++;
  auto op = [&](int i, int k = 0) { return getop(f, ci.ops[i], k); };
  switch (ci.opc) {
  case Instruction::Ret: {
    vector<V> rv; if (!ci.ops.empty()) for (int k = 0; k < ci.ops[0].n; k++) rv.push_back(op(0, k));
    int dst = f.retDst, n = f.retN, s0 = f.retS0; for (u64 p : f.allocas) S.mem.erase(p);
    S.st.pop_back(); if (S.st.empty()) { nPaths++; throw EndPath(); }
    Frame &g = S.st.back(); for (int i = 0; i < n; i++) g.r[dst + i] = rv[i];
    if (s0 >= 0) enterBlock(S, g, s0); else g.pc++; return; }
  case Instruction::Br: {
    if (ci.s1 < 0) { enterBlock(S, f, ci.s0); return; }
    V c = op(0); bool t; if (!c.e) t = c.c; else t = branch(S, c.e);
    enterBlock(S, f, t ? ci.s0 : ci.s1); return; }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(I); V c = op(0); unsigned w = (*ci.L0)[0].w;
    if (!c.e) { for (auto &k : sw->cases()) { const APInt &a = k.getCaseValue()->getValue(); u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; if (v == c.c) { enterBlock(S, f, f.cf->bid[k.getCaseSuccessor()]); return; } } enterBlock(S, f, f.cf->bid[sw->getDefaultDest()]); return; }
    for (auto &k : sw->cases()) { E eq = mk2(O_Eq, 1, c.e, mkc(k.getCaseValue()->getValue().getRawData()[0], w)); if (isC(eq)) { if (eq->c) { enterBlock(S, f, f.cf->bid[k.getCaseSuccessor()]); return; } continue; } if (branch(S, eq)) { enterBlock(S, f, f.cf->bid[k.getCaseSuccessor()]); return; } }
    enterBlock(S, f, f.cf->bid[sw->getDefaultDest()]); return; }
  case Instruction::Unreachable: doPanic(S, "unreachable", I); return;
  case Instruction::Call: case Instruction::Invoke: doCall(S, f, ci); return;
  case Instruction::Alloca: { auto *al = cast<AllocaInst>(I); V n = op(0); u64 cnt = (u64)concretize(S, n, 64, "alloca"); u64 sz = DL->getTypeAllocSize(al->getAllocatedType()) * cnt; u64 p = allocObj(S, sz, al->getAlign().value(), 2); f.allocas.push_back(p); f.r[ci.dst] = vc(p); break; }
  case Instruction::Load: { V p = op(0); if (p.e && ci.nd == 1 && (*ci.L)[0].w <= 64 && (*ci.L)[0].w >= 8 && !S.conc.count(p.e->id) && tableLoad(S, p.e, (*ci.L)[0].w, f.r[ci.dst])) break;
    u64 a = (u64)concretize(S, p, 64, "load"); u64 sz = DL->getTypeStoreSize(I->getType());
    if (auto *vt = dyn_cast<FixedVectorType>(I->getType())) if ((*ci.L)[0].w < 8) { (void)vt; throw Abort{"unsupported", "bit vector load"}; }
    const Obj &o = robj(S, a, sz); for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = loadLeaf(o, a + (*ci.L)[i].off, (*ci.L)[i].w); break; }
  case Instruction::Store: { V p = op(1); u64 a = (u64)concretize(S, p, 64, "store"); u64 sz = DL->getTypeStoreSize(I->getOperand(0)->getType()); if (!sz) break; Obj &o = wobj(S, a, sz); for (int i = 0; i < ci.ops[0].n; i++) storeLeaf(o, a + (*ci.L0)[i].off, op(0, i), (*ci.L0)[i].w); break; }
  case Instruction::GetElementPtr: { if (ci.ext == 99) throw Abort{"unsupported", "vector gep"}; V p = op(0); p = bin(O_Add, p, vc((u64)ci.goff), 64);
    auto *g = cast<GetElementPtrInst>(I); (void)g; for (auto &gi : ci.gidx) { V ix = op(gi.first); unsigned iw; { // index width
          iw = 64; for (auto &o : I->operands()) { (void)o; } iw = leaves(I->getOperand(0)->getType())[0].w; }
        // find operand type width
        unsigned kw = 64; { int n = 0; for (auto it = gep_type_begin(g), en = gep_type_end(g); it != en; ++it) { if (!it.getStructTypeOrNull() && !isa<ConstantInt>(it.getOperand())) { n++; if (n == gi.first) { kw = it.getOperand()->getType()->getIntegerBitWidth(); break; } } } }
        (void)iw; ix = cast_(O_SExt, ix, kw, 64); p = bin(O_Add, p, bin(O_Mul, ix, vc((u64)gi.second), 64), 64); }
    f.r[ci.dst] = p; break; }
  case Instruction::Select: { int n = ci.nd; for (int i = 0; i < n; i++) { V c = op(0, ci.ops[0].n > 1 ? i : 0); if (c.e && !isC(c.e)) { int kv = knownVal(S, c.e); if (kv >= 0) { f.r[ci.dst + i] = op(kv ? 1 : 2, i); continue; } } f.r[ci.dst + i] = itev(c, op(1, i), op(2, i), (*ci.L)[i].w); } break; }
  case Instruction::ICmp: { auto p = cast<ICmpInst>(I)->getPredicate(); for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = icmp(p, op(0, i), op(1, i), (*ci.L0)[i].w); break; }
  case Instruction::FCmp: { auto p = cast<FCmpInst>(I)->getPredicate(); for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = fcmp(p, op(0, i), op(1, i), (*ci.L0)[i].w); break; }
#define BIN(LL, OO) case Instruction::LL: { vector<V> t; for (int i = 0; i < ci.nd; i++) t.push_back(bin(OO, op(0, i), op(1, i), (*ci.L)[i].w)); for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = t[i]; break; }
  BIN(Add, O_Add) BIN(Sub, O_Sub) BIN(Mul, O_Mul) BIN(And, O_And) BIN(Or, O_Or) BIN(Xor, O_Xor) BIN(Shl, O_Shl) BIN(LShr, O_LShr) BIN(AShr, O_AShr)
  case Instruction::FSub: { vector<V> t; for (int i = 0; i < ci.nd; i++) { V a = op(0, i), b = op(1, i); unsigned w = (*ci.L)[i].w;
      if (w == 64 && (a.e || b.e)) { E x = ex(a, w), y = ex(b, w); E r = mk2(O_FSub, w, x, y);
        if (r->op == O_FSub && r->aux == 0) { Iv v = fiv(r); if (!v.nan && v.lo < 0 && v.hi > 0) { int k = knownOrder(S, x, y); if (k) r = mk2(O_FSub, w, x, y, k); } }
        t.push_back(fromE(r)); continue; }
      t.push_back(bin(O_FSub, a, b, w)); }
    for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = t[i]; break; }
  case Instruction::FDiv: { vector<V> t; for (int i = 0; i < ci.nd; i++) { V a = op(0, i), b = op(1, i); unsigned w = (*ci.L)[i].w;
      if (b.e && w == 64) { Iv y = fiv(b.e); if (!y.nan && y.lo <= 0 && y.hi >= 0 && knownNonzero(S, b.e)) { E r = mk2(O_FDiv, w, ex(a, w), b.e, 1); t.push_back(fromE(r)); continue; } }
      t.push_back(bin(O_FDiv, a, b, w)); }
    for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = t[i]; break; }
  BIN(FAdd, O_FAdd) BIN(FMul, O_FMul) BIN(FRem, O_FRem)
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    Op o = ci.opc == Instruction::UDiv ? O_UDiv : ci.opc == Instruction::URem ? O_URem : ci.opc == Instruction::SDiv ? O_SDiv : O_SRem;
    for (int i = 0; i < ci.nd; i++) { V d = op(1, i); unsigned w = (*ci.L)[i].w; V z = cmp(O_Eq, d, vc(0), w); bool isz = z.e ? branch(S, z.e) : (bool)z.c; if (isz) doPanic(S, "division by zero", I); V x = op(0, i);
      if ((o == O_SDiv || o == O_SRem) && (x.e || d.e)) { // non-negative operands: unsigned
        E xe = ex(x, w), de = ex(d, w); u128 l, h, l2, h2; urange(xe, l, h); urange(de, l2, h2); u128 half = (u128)1 << (w - 1); if (h < half && h2 < half) { f.r[ci.dst + i] = bin(o == O_SDiv ? O_UDiv : O_URem, x, d, w); continue; } }
      f.r[ci.dst + i] = bin(o, x, d, w); } break; }
  case Instruction::FNeg: for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = un(O_FNeg, op(0, i), (*ci.L)[i].w, (*ci.L)[i].w); break;
  case Instruction::ZExt: for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = cast_(O_ZExt, op(0, i), (*ci.L0)[i].w, (*ci.L)[i].w); break;
  case Instruction::SExt: for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = cast_(O_SExt, op(0, i), (*ci.L0)[i].w, (*ci.L)[i].w); break;
  case Instruction::Trunc: for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = cast_(O_Extract, op(0, i), (*ci.L0)[i].w, (*ci.L)[i].w); break;
  case Instruction::PtrToInt: case Instruction::IntToPtr: for (int i = 0; i < ci.nd; i++) { unsigned kw = (*ci.L0)[i].w, w = (*ci.L)[i].w; f.r[ci.dst + i] = cast_(w > kw ? O_ZExt : O_Extract, op(0, i), kw, w); } break;
  case Instruction::UIToFP: for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = un(O_UToF, op(0, i), (*ci.L0)[i].w, (*ci.L)[i].w); break;
  case Instruction::SIToFP: for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = un(O_SToF, op(0, i), (*ci.L0)[i].w, (*ci.L)[i].w); break;
  case Instruction::FPToUI: for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = un(O_FToU, op(0, i), (*ci.L0)[i].w, (*ci.L)[i].w); break;
  case Instruction::FPToSI: for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = un(O_FToS, op(0, i), (*ci.L0)[i].w, (*ci.L)[i].w); break;
  case Instruction::FPExt: for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = un(O_FExt, op(0, i), 32, 64); break;
  case Instruction::FPTrunc: for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = un(O_FTruncF, op(0, i), 64, 32); break;
  case Instruction::BitCast: {
    int ns = ci.ops[0].n; if (ns == ci.nd && (*ci.L0)[0].w == (*ci.L)[0].w) { for (int i = 0; i < ns; i++) f.r[ci.dst + i] = op(0, i); break; }
    // concat (little endian) then split
    vector<V> bits; unsigned sw = (*ci.L0)[0].w, dw = (*ci.L)[0].w; unsigned tot = sw * ns;
    if (tot > 128) { // split/merge element-wise when sizes nest
      if (dw < sw) { int k = sw / dw; for (int i = 0; i < ns; i++) { V x = op(0, i); for (int j = 0; j < k; j++) f.r[ci.dst + i * k + j] = x.e ? fromE(mkExtract(x.e, j * dw, dw)) : vc((x.c >> (j * dw)) & maskw(dw)); } }
      else { int k = dw / sw; for (int i = 0; i < ci.nd; i++) { V acc = op(0, i * k); unsigned aw2 = sw; for (int j = 1; j < k; j++) { V x = op(0, i * k + j); if (!acc.e && !x.e) acc = vc(acc.c | (x.c << aw2)); else acc = fromE(mkConcat(ex(x, sw), ex(acc, aw2))); aw2 += sw; } f.r[ci.dst + i] = acc; } }
      break; }
    V acc = op(0, 0); unsigned aw2 = sw; for (int j = 1; j < ns; j++) { V x = op(0, j); if (!acc.e && !x.e) acc = vc(acc.c | (x.c << aw2)); else acc = fromE(mkConcat(ex(x, sw), ex(acc, aw2))); aw2 += sw; }
    for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = acc.e ? fromE(mkExtract(acc.e, i * dw, dw)) : vc((acc.c >> (i * dw)) & maskw(dw));
    break; }
  case Instruction::Freeze: case Instruction::AddrSpaceCast: for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = op(0, i); break;
  case Instruction::ExtractValue: { auto *ev = cast<ExtractValueInst>(I); Type *t = ev->getAggregateOperand()->getType(); int idx = 0; for (unsigned k : ev->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; j++) idx += leaves(st->getElementType(j)).size(); t = st->getElementType(k); } else { auto *at = cast<ArrayType>(t); idx += k * leaves(at->getElementType()).size(); t = at->getElementType(); } } for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = op(0, idx + i); break; }
  case Instruction::InsertValue: { auto *iv = cast<InsertValueInst>(I); Type *t = iv->getAggregateOperand()->getType(); int idx = 0; for (unsigned k : iv->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; j++) idx += leaves(st->getElementType(j)).size(); t = st->getElementType(k); } else { auto *at = cast<ArrayType>(t); idx += k * leaves(at->getElementType()).size(); t = at->getElementType(); } } for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = op(0, i); for (int i = 0; i < ci.ops[1].n; i++) f.r[ci.dst + idx + i] = op(1, i); break; }
  case Instruction::ExtractElement: { V ix = op(1); u64 k = (u64)concretize(S, ix, 64, "ee"); f.r[ci.dst] = op(0, (int)k); break; }
  case Instruction::InsertElement: { V ix = op(2); u64 k = (u64)concretize(S, ix, 64, "ie"); V x = op(1); for (int i = 0; i < ci.nd; i++) f.r[ci.dst + i] = op(0, i); f.r[ci.dst + k] = x; break; }
  case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(I); vector<V> t; int n0 = ci.ops[0].n; for (int m : sv->getShuffleMask()) t.push_back(m < 0 ? vc(0) : m < n0 ? op(0, m) : op(1, m - n0)); for (size_t i = 0; i < t.size(); i++) f.r[ci.dst + i] = t[i]; break; }
  case Instruction::Fence: break;
  case Instruction::AtomicRMW: { auto *rm = cast<AtomicRMWInst>(I); V p = op(0); u64 a = (u64)concretize(S, p, 64, "rmw"); unsigned w = (*ci.L)[0].w; V old = loadV(S, a, w), x = op(1), nv; switch (rm->getOperation()) { case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::Add: nv = bin(O_Add, old, x, w); break; case AtomicRMWInst::Sub: nv = bin(O_Sub, old, x, w); break; case AtomicRMWInst::And: nv = bin(O_And, old, x, w); break; case AtomicRMWInst::Or: nv = bin(O_Or, old, x, w); break; case AtomicRMWInst::Xor: nv = bin(O_Xor, old, x, w); break; default: throw Abort{"unsupported", "atomicrmw"}; } storeV(S, a, nv, w); f.r[ci.dst] = old; break; }
  case Instruction::AtomicCmpXchg: { V p = op(0); u64 a = (u64)concretize(S, p, 64, "cas"); unsigned w = (*ci.L)[0].w; V old = loadV(S, a, w); V eq = cmp(O_Eq, old, op(1), w); if (eq.e) throw Abort{"unsupported", "symbolic cmpxchg"}; if (eq.c) storeV(S, a, op(2), w); f.r[ci.dst] = old; f.r[ci.dst + 1] = eq; break; }
  default: throw Abort{"unsupported", string("instruction ") + I->getOpcodeName()};
  }
  f.pc++;
}

static string junoFunctions() {
  set<string> s;
  for (auto &kv : CFS) { CF *cf = kv.second; if (!cf) continue; for (size_t i = 0; i < cf->code.size(); i++) if (cf->hit[i]) { for (const DILocation *d = cf->code[i].I->getDebugLoc().get(); d; d = d->getInlinedAt()) { auto *sp = d->getScope()->getSubprogram(); if (!sp) continue; string f = sp->getFile() ? sp->getFile()->getDirectory().str() + "/" + sp->getFilename().str() : sp->getFilename().str(); if (contains(f, "/repo/juno")) { string n = demangle(sp->getLinkageName().str()); size_t h = n.rfind("::h"); if (h != string::npos && n.size() - h == 19) n = n.substr(0, h); if (n.size() > 110) n = n.substr(0, 110); s.insert(n); } } } }
  string o = "["; for (auto &x : s) o += (o.size() > 1 ? "," : "") + string("\"") + jesc(x) + "\""; return o + "]";
}

static void runJob(const string &entry, u64 cfg, double limit, const string &outf) {
  JENTRY = entry; JCFG = cfg; double t0 = now(); DEADLINE = t0 + limit; initExpr();
  const Function *F = M->getFunction(entry); string err; bool timedOut = false;
  if (!F) err = "no entry " + entry;
  else {
    State *S0 = new State; try { vector<V> args{vc(cfg)}; pushCall(*S0, F, args, -1, 0, -1); WORK.push_back(S0); } catch (Abort &a) { err = a.msg; }
    while (!WORK.empty()) {
      State *S = WORK.back(); WORK.pop_back(); CUR = S;
      try {
        for (;;) { try { step(*S); } catch (Restart &) {} if ((S->steps & 1023) == 0) { if (now() > DEADLINE) { timedOut = true; break; } if (S->steps > 200000000ull) throw Abort{"unsupported", "step limit"}; } }
      } catch (EndPath &) {
        if (S->st.empty()) { // completed path
          if (S->hasWit) { nPathsWit++; for (auto &c : S->covers) COVERS.insert(c);
            if (SAMPLES.size() < 3 && (nPaths % 7) == 1) SAMPLES.push_back(inputsJson(*S, S->wit));
            if (concordant < 12 && VIOL.empty() && (nPaths % 5) == 1) { string vec = writeVec(*S, S->wit, "w" + std::to_string(getpid())); string out = runNative(vec); unlink(vec.c_str());
              if (contains(out, "END ok")) concordant++; else if (contains(out, "FAIL ")) { VIOL.push_back("{\"what\":\"" + jesc(out.substr(0, 80)) + "\",\"kind\":\"native\",\"vec\":\"" + writeVec(*S, S->wit, "n" + std::to_string(getpid())) + "\",\"native\":\"" + jesc(out) + "\",\"inputs\":" + inputsJson(*S, S->wit) + "}"); }
              else UNSUP.push_back("engine/native disagree: " + out.substr(0, 200)); } } }
      } catch (Abort &a) {
        string where = S->st.empty() ? "" : loc(S->st.back().cf->code[S->st.back().pc].I) + " in " + rustName(S->st.back().cf->F);
        if (UNSUP.size() < 20) UNSUP.push_back(a.kind + ": " + a.msg + " at " + where);
        nPaths++;
      }
      delete S; if (timedOut) break;
      if (VIOL.size() >= 1) break; // one confirmed violation decides the job
      if (now() > DEADLINE) { timedOut = true; break; }
    }
  }
  std::ofstream o(outf); auto arr = [&](const vector<string> &v, bool raw) { string s = "["; for (auto &x : v) s += (s.size() > 1 ? "," : "") + (raw ? x : "\"" + jesc(x) + "\""); return s + "]"; };
  vector<string> cov(COVERS.begin(), COVERS.end()), exts(EXTRA.begin(), EXTRA.end());
  if (getenv("VF_FORKS")) for (auto &f : FORKAT) fprintf(stderr, "%ld forks at %s\n", f.second, f.first.c_str());
  o << "{\"entry\":\"" << entry << "\",\"cfg\":" << cfg << ",\"err\":\"" << jesc(err) << "\",\"timeout\":" << (timedOut ? "true" : "false") << ",\"wall\":" << now() - t0 << ",\"paths\":" << nPaths << ",\"paths_witnessed\":" << nPathsWit << ",\"forks\":" << nForks << ",\"steps\":" << nSteps << ",\"assume_pruned\":" << nAssume << ",\"bound_pruned\":" << nBound << ",\"panic_allowed\":" << nPanicOk
    << ",\"checks\":" << chkTotal << ",\"trivial\":" << chkTriv << ",\"by_uf\":" << chkBy[0] << ",\"by_lin\":" << chkBy[1] << ",\"by_nra\":" << chkBy[2] << ",\"by_fp\":" << chkBy[3] << ",\"undecided\":" << chkUndec << ",\"undec\":" << arr(UNDEC, false)
    << ",\"queries\":" << ST.queries << ",\"solver_s\":" << ST.solver_s << ",\"mode_s\":[" << ST.timeMode[0] << "," << ST.timeMode[1] << "," << ST.timeMode[2] << "," << ST.timeMode[3] << "],\"mode_q\":[" << ST.byMode[0] << "," << ST.byMode[1] << "," << ST.byMode[2] << "," << ST.byMode[3] << "]" << ",\"ls_tries\":" << lsTries << ",\"ls_hits\":" << lsHits << ",\"replays\":" << replays << ",\"concordant\":" << concordant << ",\"exprs\":" << ALL.size() << ",\"vars\":" << VARS.size()
    << ",\"covers\":" << arr(cov, false) << ",\"unsupported\":" << arr(UNSUP, false) << ",\"spurious\":" << arr(SPUR, false) << ",\"violations\":" << arr(VIOL, true) << ",\"samples\":" << arr(SAMPLES, true) << ",\"externals\":" << arr(exts, false) << ",\"msgs\":{";
  bool f1 = true; for (auto &kv : CHKMSG) { if (!f1) o << ","; f1 = false; o << "\"" << jesc(kv.first) << "\":" << kv.second; }
  o << "},\"functions\":" << junoFunctions() << "}\n"; o.close();
}

int main(int argc, char **argv) {
  string bc, jobs, outd; int J = 8; bool stopv = false; double budget = 1e9;
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&] { return string(argv[++i]); }; if (a == "--bc") bc = nx(); else if (a == "--so") SO = nx(); else if (a == "--driver") DRV = nx(); else if (a == "--jobs") jobs = nx(); else if (a == "--out") outd = nx(); else if (a == "--stop") stopv = true; else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "-j") J = atoi(nx().c_str()); }
  TMPD = outd;
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30)) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : rl.rlim_max; if (setrlimit(RLIMIT_STACK, &rl) == 0) execv("/proc/self/exe", argv); }
  LLVMContext C; auto mb = MemoryBuffer::getFile(bc); if (!mb) { fprintf(stderr, "cannot read %s\n", bc.c_str()); return 2; }
  auto me = parseBitcodeFile((*mb)->getMemBufferRef(), C); if (!me) { fprintf(stderr, "bad bitcode\n"); return 2; }
  M = me->get(); DL = &M->getDataLayout(); layoutGlobals();
  std::ifstream jf(jobs); string line; struct Job { string e; u64 c; double t; int n; }; vector<Job> js; int n = 0;
  while (std::getline(jf, line)) { std::istringstream is(line); Job j; if (is >> j.e >> j.c >> j.t) { j.n = n++; js.push_back(j); } }
  double tStart = now(); if (getenv("VF_SEED")) LSEED ^= (unsigned)atoi(getenv("VF_SEED")) * 2654435761u; bool stop = false;
  size_t next = 0; map<pid_t, std::pair<int, double>> live; 
  while (next < js.size() || !live.empty()) {
    while (next < js.size() && (int)live.size() < J) { Job &j = js[next]; pid_t p = fork(); if (p == 0) { setpgid(0, 0); double left = tStart + budget - now(); runJob(j.e, j.c, std::max(0.5, std::min(j.t, left)), outd + "/job" + std::to_string(j.n) + ".json"); _exit(0); } live[p] = {j.n, now() + j.t * 1.5 + 60}; next++; }
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) { auto it = live.find(p); if (it != live.end()) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { std::ofstream o(outd + "/job" + std::to_string(it->second.first) + ".json"); o << "{\"entry\":\"" << js[it->second.first].e << "\",\"cfg\":" << js[it->second.first].c << ",\"err\":\"worker died status " << st << "\"}\n"; } if (stopv && !stop) { std::ifstream rf(outd + "/job" + std::to_string(it->second.first) + ".json"); std::stringstream ss; ss << rf.rdbuf(); if (contains(ss.str(), "\"violations\":[{")) { stop = true; next = js.size(); for (auto &kv : live) if (kv.first != p) kv.second.second = std::min(kv.second.second, now() + 3); } }
      live.erase(it); } }
    else { double t = now(); for (auto &kv : live) if (t > kv.second.second) kill(-kv.first, SIGKILL); usleep(5000); }
  }
  return 0;
}
