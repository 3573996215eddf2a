// Symbolic executor for LLVM IR (clang-18, unoptimised) over machine.h
#include "machine.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/PostDominators.h>
using namespace llvm;

struct CInst {
  unsigned op; const Instruction *I; std::vector<int> a; int dst = -1; u32 w = 0; // dst width
  std::vector<std::pair<int, u64>> gep; u64 gepc = 0; // (operand, scale)
  int join = -1; // block at which the two sides of this branch meet again, if what lies between is small, acyclic and free of calls
  int t0 = -1, t1 = -1; std::vector<std::pair<u64,int>> cases; // branch targets (block index)
  std::string where, callee; int cfn = -1; u32 lanes = 0, ew = 0, iid = 0; u64 allocsz = 0, align = 1;
};
struct FnInfo {
  const Function *F; std::string name; std::vector<CInst> code; std::vector<int> bbstart; int nslots = 0; int nargs = 0;
  std::vector<Val> consts; bool ready = false;
};

struct IRExec : Exec {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout *DL;
  std::map<const Function *, FnInfo *> fns; std::vector<FnInfo *> fnlist; std::map<std::string, FnInfo *> byname;
  std::map<const GlobalValue *, u64> gaddr; std::map<u64, FnInfo *> fnaddr;
  u32 ptrw() override { return 64; }
  u64 inputBase(int i) override { return ((u64)(i + 1)) << 40; }
  IRExec(const std::string &bc) {
    SMDiagnostic err; M = parseIRFile(bc, err, ctx);
    if (!M) { fprintf(stderr, "cannot parse %s: %s\n", bc.c_str(), err.getMessage().str().c_str()); exit(3); }
    DL = &M->getDataLayout();
    u64 a = 0x100000000ull;
    for (auto &F : *M) { gaddr[&F] = a; FnInfo *fi = new FnInfo(); fi->F = &F; fi->name = F.getName().str(); fns[&F] = fi; byname[fi->name] = fi; fnlist.push_back(fi); fnaddr[a] = fi; a += 64; }
    a = 0x200000000ull;
    for (auto &g : M->globals()) { a = (a + 63) & ~63ull; gaddr[&g] = a; a += DL->getTypeAllocSize(g.getValueType()) + 4096; }
  }
  bool hasFn(const std::string &n) override { auto it = byname.find(n); return it != byname.end() && !it->second->F->isDeclaration(); }
  u32 width(Type *T) { if (T->isPointerTy()) return 64; if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements() * width(V->getElementType()); if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isVoidTy()) return 0; if (T->isStructTy() || T->isArrayTy()) { return DL->getTypeAllocSize(T) * 8; } if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; return DL->getTypeSizeInBits(T); }
  std::string loc(const Instruction *I) {
    std::string s = I->getFunction()->getName().str();
    if (const DebugLoc &d = I->getDebugLoc()) { s += ":" + std::to_string(d.getLine()); if (auto *sc = dyn_cast_or_null<DIScope>(d.getScope())) s = sc->getFilename().str() + ":" + std::to_string(d.getLine()) + " (" + I->getFunction()->getName().str() + ")"; }
    return s;
  }
  // ---- constants
  Val cst(const Constant *C) {
    Type *T = C->getType();
    if (auto *I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() <= 64) return Val(I->getBitWidth(), I->getZExtValue()); std::vector<Lit> b(I->getBitWidth()); for (u32 i = 0; i < b.size(); i++) b[i] = I->getValue()[i]; return Val(std::move(b)); }
    if (isa<ConstantPointerNull>(C)) return Val(64, 0);
    if (isa<UndefValue>(C)) { u32 w = width(T); return w <= 64 ? Val(w, 0) : Val(std::vector<Lit>(w, F0)); }
    if (isa<ConstantAggregateZero>(C)) { u32 w = width(T); return w <= 64 ? Val(w, 0) : Val(std::vector<Lit>(w, F0)); }
    if (auto *G = dyn_cast<GlobalValue>(C)) return Val(64, gaddr.at(G));
    if (auto *D = dyn_cast<ConstantDataVector>(C)) { std::vector<Lit> b; for (unsigned i = 0; i < D->getNumElements(); i++) { Val e = cst(D->getElementAsConstant(i)); for (u32 j = 0; j < e.w; j++) b.push_back(e.bit(j)); } return Val(std::move(b)); }
    if (auto *D = dyn_cast<ConstantVector>(C)) { std::vector<Lit> b; for (unsigned i = 0; i < D->getNumOperands(); i++) { Val e = cst(D->getOperand(i)); for (u32 j = 0; j < e.w; j++) b.push_back(e.bit(j)); } return Val(std::move(b)); }
    if (auto *E = dyn_cast<ConstantExpr>(C)) {
      if (E->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); if (cast<GEPOperator>(E)->accumulateConstantOffset(*DL, off)) return vadd(cst(E->getOperand(0)), Val(64, off.getZExtValue())); }
      if (E->getOpcode() == Instruction::PtrToInt || E->getOpcode() == Instruction::IntToPtr || E->getOpcode() == Instruction::BitCast) { Val v = cst(E->getOperand(0)); u32 w = width(T); return w <= v.w ? vtrunc(v, w) : vzext(v, w); }
    }
    if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantDataArray>(C)) { Bytes b(DL->getTypeAllocSize(T), cbyte(0)); init(b, 0, C); return bytesToVal(b); }
    if (auto *F = dyn_cast<ConstantFP>(C)) { return Val((u32)F->getType()->getPrimitiveSizeInBits(), F->getValueAPF().bitcastToAPInt().getZExtValue()); }
    std::string s; fprintf(stderr, "unsupported constant\n"); W.fail("unsupported constant"); return Val(width(T), 0);
  }
  void init(Bytes &d, u64 off, const Constant *C) {
    Type *T = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) { u64 es = D->getElementByteSize(); for (unsigned i = 0; i < D->getNumElements(); i++) init(d, off + i * es, D->getElementAsConstant(i)); return; }
    if (auto *S = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) init(d, off + L->getElementOffset(i), S->getOperand(i)); return; }
    if (auto *A = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) init(d, off + i * es, A->getOperand(i)); return; }
    Bytes v = valToBytes(cst(C)); for (size_t i = 0; i < v.size(); i++) d[off + i] = v[i];
  }
  void setup(State &s) override {
    for (auto &g : M->globals()) {
      if (g.getName().starts_with("llvm.")) continue;
      Obj o; o.base = gaddr[&g]; o.size = DL->getTypeAllocSize(g.getValueType()); o.name = g.getName().str(); o.cls = g.isConstant() ? C_CONST : g.isThreadLocal() ? C_TLS : C_GLOBAL; o.writable = !g.isConstant();
      o.d = std::make_shared<std::vector<Byte>>(o.size, cbyte(0));
      if (g.hasInitializer()) init(*o.d, 0, g.getInitializer());
      else if (o.name == "stdout" || o.name == "stderr") {} else W.fail("external global " + o.name);
      if (o.size) s.mem.add(o);
    }
    s.sp = 0x7f0000000000ull; s.heap = 0x600000000000ull;
  }
  // ---- compile
  void compile(FnInfo *fi) {
    if (fi->ready) return; fi->ready = true;
    const Function &F = *fi->F; DenseMap<const Value *, int> slot; DenseMap<const BasicBlock *, int> bbi; int n = 0;
    for (auto &A : F.args()) slot[&A] = n++;
    fi->nargs = n; int nb = 0;
    for (auto &B : F) { bbi[&B] = nb++; for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
    fi->nslots = n; fi->bbstart.resize(nb);
    std::map<const Constant *, int> cidx;
    auto opnd = [&](const Value *V) -> int {
      if (auto *C = dyn_cast<Constant>(V)) { auto it = cidx.find(C); if (it != cidx.end()) return it->second; int k = -(int)fi->consts.size() - 1; fi->consts.push_back(cst(C)); cidx[C] = k; return k; }
      auto it = slot.find(V); if (it == slot.end()) return INT32_MIN; return it->second;
    };
    for (auto &B : F) {
      fi->bbstart[bbi[&B]] = fi->code.size();
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        CInst c; c.op = I.getOpcode(); c.I = &I; c.where = loc(&I);
        if (!I.getType()->isVoidTy()) { c.dst = slot[&I]; c.w = width(I.getType()); }
        if (auto *P = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { c.a.push_back(bbi[P->getIncomingBlock(i)]); c.a.push_back(opnd(P->getIncomingValue(i))); } }
        else if (auto *Br = dyn_cast<BranchInst>(&I)) { if (Br->isConditional()) { c.a.push_back(opnd(Br->getCondition())); c.t0 = bbi[Br->getSuccessor(0)]; c.t1 = bbi[Br->getSuccessor(1)]; } else c.t0 = bbi[Br->getSuccessor(0)]; }
        else if (auto *S = dyn_cast<SwitchInst>(&I)) { c.a.push_back(opnd(S->getCondition())); c.t0 = bbi[S->getDefaultDest()]; for (auto &k : S->cases()) c.cases.push_back({k.getCaseValue()->getZExtValue(), bbi[k.getCaseSuccessor()]}); }
        else if (auto *Cl = dyn_cast<CallBase>(&I)) {
          for (auto &A : Cl->args()) c.a.push_back(A->getType()->isMetadataTy() ? INT32_MIN : opnd(A));
          if (auto *Fn = Cl->getCalledFunction()) { c.callee = Fn->getName().str(); c.iid = Fn->getIntrinsicID(); for (size_t i = 0; i < fnlist.size(); i++) if (fnlist[i]->F == Fn) c.cfn = i; }
          else c.a.push_back(opnd(Cl->getCalledOperand()));
        } else {
          for (auto &o : I.operands()) c.a.push_back(opnd(o));
          if (auto *GP = dyn_cast<GetElementPtrInst>(&I)) {
            unsigned k = 1;
            for (auto gi = gep_type_begin(GP); gi != gep_type_end(GP); ++gi, ++k) {
              if (StructType *ST = gi.getStructTypeOrNull()) { c.gepc += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); }
              else c.gep.push_back({c.a[k], DL->getTypeAllocSize(gi.getIndexedType())});
            }
            if (isa<VectorType>(GP->getType())) W.fail("vector gep");
          }
          if (auto *AI = dyn_cast<AllocaInst>(&I)) { c.allocsz = DL->getTypeAllocSize(AI->getAllocatedType()); c.align = AI->getAlign().value(); }
        }
        Type *T = I.getNumOperands() ? I.getOperand(0)->getType() : I.getType();
        if (auto *VT = dyn_cast<FixedVectorType>(T)) { c.lanes = VT->getNumElements(); c.ew = width(VT->getElementType()); }
        fi->code.push_back(std::move(c));
      }
    }
    joins(fi, bbi);
  }
  void start(State &s, const std::string &fn, const std::vector<Val> &args, int tag) override {
    FnInfo *fi = byname.at(fn); compile(fi); W.funcs.insert(fn);
    Frame f; f.f = fi; f.r.resize(fi->nslots); for (size_t i = 0; i < args.size() && (int)i < fi->nargs; i++) f.r[i] = args[i];
    f.boundary = true; f.tag = tag; f.objmark = s.mem.o.size(); f.sp = s.sp; s.st.push_back(std::move(f)); s.done = false; setPref(s);
  }
  // lane-wise helper
  template <class Fn> Val lanewise(u32 lanes, u32 ew, const Val &a, const Val &b, Fn fn) {
    if (!lanes) return fn(a, b);
    std::vector<Lit> r; for (u32 i = 0; i < lanes; i++) { Val v = fn(vextract(a, i * ew, ew), vextract(b, i * ew, ew)); for (u32 j = 0; j < v.w; j++) r.push_back(v.bit(j)); }
    return Val(std::move(r));
  }
  Val binop(unsigned op, const Val &a, const Val &b, State &s, const CInst &c) {
    switch (op) {
      case Instruction::Add: return vadd(a, b);
      case Instruction::Sub: return vsub(a, b);
      case Instruction::Mul: return vmul(a, b);
      case Instruction::And: return vand(a, b);
      case Instruction::Or: return vor(a, b);
      case Instruction::Xor: return vxor(a, b);
      case Instruction::Shl: return vshl(a, b);
      case Instruction::LShr: return vlshr(a, b);
      case Instruction::AShr: return vashr(a, b);
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
        if (!a.k || !b.k) if (W.ct && W.isSecret) { auto l = vbits(a), l2 = vbits(b); l.insert(l.end(), l2.begin(), l2.end()); if (G.support_any(l, W.isSecret, &W.publicNodes)) W.add("secret_div", c.where, "variable-time division on secret data", s, F0, "", l); }
        Val q, r;
        if (op == Instruction::UDiv || op == Instruction::URem) { if (!vudivrem(a, b, q, r)) { W.add("div0", c.where, "division by zero", s); s.done = s.aborted = true; return Val(a.w, 0); } return op == Instruction::UDiv ? q : r; }
        Lit sa = a.bit(a.w - 1), sb = b.bit(b.w - 1); Val aa = vite(sa, vneg(a), a), bb = vite(sb, vneg(b), b);
        if (!vudivrem(aa, bb, q, r)) { W.add("div0", c.where, "division by zero", s); s.done = s.aborted = true; return Val(a.w, 0); }
        if (op == Instruction::SDiv) return vite(G.Xor(sa, sb), vneg(q), q);
        return vite(sa, vneg(r), r);
      }
    }
    W.fail("unsupported operation " + c.where); return a;
  }
  Lit icmp(CmpInst::Predicate p, const Val &a, const Val &b) {
    switch (p) {
      case CmpInst::ICMP_EQ: return veq(a, b); case CmpInst::ICMP_NE: return inv(veq(a, b));
      case CmpInst::ICMP_ULT: return vult(a, b); case CmpInst::ICMP_UGE: return inv(vult(a, b));
      case CmpInst::ICMP_UGT: return vult(b, a); case CmpInst::ICMP_ULE: return inv(vult(b, a));
      case CmpInst::ICMP_SLT: return vslt(a, b); case CmpInst::ICMP_SGE: return inv(vslt(a, b));
      case CmpInst::ICMP_SGT: return vslt(b, a); case CmpInst::ICMP_SLE: return inv(vslt(b, a));
      default: W.fail("icmp predicate"); return F0;
    }
  }
  const Val &get(Frame &f, int o) { return o >= 0 ? f.r[o] : f.f->consts[-o - 1]; }
  static Val lane(const Val &v, u32 i, u32 w) { return vextract(v, i * w, w); }
  // returns false when unsupported
  bool intrinsic(State &s, Frame &f, CInst &c, Val &out) {
    const std::string &n = c.callee;
    auto A = [&](int i) -> const Val & { return get(f, c.a[i]); };
    Type *T = c.I->getType(); u32 lanes = 0, ew = c.w;
    if (auto *V = dyn_cast<FixedVectorType>(T)) { lanes = V->getNumElements(); ew = width(V->getElementType()); }
    auto has = [&](const char *p) { return n.rfind(p, 0) == 0; };
    if (has("llvm.lifetime") || has("llvm.dbg") || has("llvm.assume") || has("llvm.experimental.noalias") || has("llvm.donothing") || has("llvm.prefetch") || has("llvm.va_") || has("llvm.invariant")) { out = Val(c.w ? c.w : 1, 0); return true; }
    if (has("llvm.stacksave")) { out = Val(64, s.sp); return true; }
    if (has("llvm.stackrestore")) return true;
    if (has("llvm.expect") || has("llvm.threadlocal.address")) { out = A(0); return true; }
    if (has("llvm.is.constant")) { out = Val(1, 0); return true; }
    if (has("llvm.objectsize")) { out = Val(c.w, ~0ull); return true; }
    if (has("llvm.memcpy") || has("llvm.memmove")) { copy(s, A(0), A(1), A(2), c.where); return true; }
    if (has("llvm.memset")) { fill(s, A(0), A(1), A(2), c.where); return true; }
    if (has("llvm.bswap")) { std::vector<Lit> r(c.w); u32 L = lanes ? lanes : 1; for (u32 l = 0; l < L; l++) for (u32 i = 0; i < ew / 8; i++) for (int j = 0; j < 8; j++) r[l * ew + i * 8 + j] = A(0).bit(l * ew + (ew / 8 - 1 - i) * 8 + j); out = Val(std::move(r)); return true; }
    if (has("llvm.bitreverse")) { std::vector<Lit> r(c.w); u32 L = lanes ? lanes : 1; for (u32 l = 0; l < L; l++) for (u32 i = 0; i < ew; i++) r[l * ew + i] = A(0).bit(l * ew + ew - 1 - i); out = Val(std::move(r)); return true; }
    if (has("llvm.fshl") || has("llvm.fshr")) {
      bool left = has("llvm.fshl"); u32 L = lanes ? lanes : 1; std::vector<Lit> r;
      for (u32 l = 0; l < L; l++) {
        Val hi = lane(A(0), l, ew), lo = lane(A(1), l, ew), sh = lane(A(2), l, ew); Val v;
        if ((ew & (ew - 1)) == 0) sh = vand(sh, Val(ew, ew - 1)); else if (sh.k) sh = Val(ew, sh.c % ew); else return false;
        Val cat = vconcat(lo, hi); // 2*ew bits
        if (left) { Val t = vshl(cat, vzext(sh, 2 * ew)); v = vextract(t, ew, ew); } else { Val t = vlshr(cat, vzext(sh, 2 * ew)); v = vtrunc(t, ew); }
        for (u32 j = 0; j < ew; j++) r.push_back(v.bit(j));
      }
      out = Val(std::move(r)); return true;
    }
    if (has("llvm.umin") || has("llvm.umax") || has("llvm.smin") || has("llvm.smax")) {
      bool mx = n[6] == 'a' || n[7] == 'a'; bool sg = n[5] == 's'; mx = n.substr(6, 3) == "max";
      out = lanewise(lanes, ew, A(0), A(1), [&](const Val &x, const Val &y) { Lit lt = sg ? vslt(x, y) : vult(x, y); return mx ? vite(lt, y, x) : vite(lt, x, y); }); return true; }
    if (has("llvm.abs")) { Val z = A(0); out = lanewise(lanes, ew, A(0), A(0), [&](const Val &x, const Val &) { return vite(x.bit(ew - 1), vneg(x), x); }); return true; }
    if (has("llvm.usub.sat")) { out = lanewise(lanes, ew, A(0), A(1), [&](const Val &x, const Val &y) { return vite(vult(x, y), Val(ew, 0), vsub(x, y)); }); return true; }
    if (has("llvm.uadd.sat")) { out = lanewise(lanes, ew, A(0), A(1), [&](const Val &x, const Val &y) { Lit co; Val r(addc(vbits(x), vbits(y), F0, &co)); return vite(co, vnot(Val(ew, 0)), r); }); return true; }
    if (has("llvm.uadd.with.overflow") || has("llvm.usub.with.overflow")) {
      u32 w = width(c.I->getOperand(0)->getType()); Lit co; Val r = has("llvm.uadd") ? Val(addc(vbits(A(0)), vbits(A(1)), F0, &co)) : vsub(A(0), A(1)); Lit ov = has("llvm.uadd") ? co : vult(A(0), A(1));
      auto b = vbits(r); b.push_back(ov); while (b.size() < c.w) b.push_back(F0); (void)w; out = Val(std::move(b)); return true; }
    if (has("llvm.ctpop")) { u32 L = lanes ? lanes : 1; std::vector<Lit> r; for (u32 l = 0; l < L; l++) { Val acc(ew, 0); for (u32 i = 0; i < ew; i++) acc = vadd(acc, vzext(Val(A(0).bit(l * ew + i)), ew)); for (u32 j = 0; j < ew; j++) r.push_back(acc.bit(j)); } out = Val(std::move(r)); return true; }
    if (has("llvm.ctlz") || has("llvm.cttz")) { if (lanes) return false; bool lz = n[7] == 'l'; Val r(ew, ew); for (u32 i = 0; i < ew; i++) { u32 bitpos = lz ? i : ew - 1 - i; u32 cnt = lz ? ew - 1 - i : ew - 1 - i; r = vite(A(0).bit(bitpos), Val(ew, cnt), r); } out = r; return true; }
    if (has("llvm.masked.load")) { // ptr, align, mask, passthru
      std::vector<Lit> r; u64 p; bool u; if (!resolve(s, A(0), p, u) || !u) return false;
      for (u32 i = 0; i < lanes; i++) { Lit m = A(2).bit(i); Val pt = lane(A(3), i, ew), v = pt; if (m != F0) { v = bytesToVal(loadc(s, p + i * ew / 8, ew / 8, c.where)); if (m != T1) v = vite(m, v, pt); } for (u32 j = 0; j < ew; j++) r.push_back(v.bit(j)); }
      out = Val(std::move(r)); return true; }
    if (has("llvm.masked.store")) { // val, ptr, align, mask
      auto *V = cast<FixedVectorType>(c.I->getOperand(0)->getType()); u32 L = V->getNumElements(), e = width(V->getElementType()); u64 p; bool u; if (!resolve(s, A(1), p, u) || !u) return false;
      for (u32 i = 0; i < L; i++) { Lit m = A(3).bit(i); if (m == F0) continue; storec(s, p + i * e / 8, valToBytes(lane(A(0), i, e)), c.where, m); } return true; }
    if (has("llvm.vector.reduce.")) {
      auto *V = cast<FixedVectorType>(c.I->getOperand(0)->getType()); u32 L = V->getNumElements(), e = width(V->getElementType()); Val acc = lane(A(0), 0, e); std::string k = n.substr(19, n.find('.', 19) - 19);
      for (u32 i = 1; i < L; i++) { Val y = lane(A(0), i, e); if (k == "add") acc = vadd(acc, y); else if (k == "xor") acc = vxor(acc, y); else if (k == "or") acc = vor(acc, y); else if (k == "and") acc = vand(acc, y); else return false; }
      out = acc; return true; }
    if (has("llvm.x86.avx512.pternlog") || has("llvm.x86.avx512.mask.pternlog") || has("llvm.x86.avx512.maskz.pternlog")) {
      if (!A(3).k) return false; u32 imm = A(3).c; const Val &a = A(0), &b = A(1), &d = A(2); std::vector<Lit> r(c.w);
      u8 anf[8]; for (int i = 0; i < 8; i++) anf[i] = (imm >> i) & 1; for (int st = 1; st < 8; st <<= 1) for (int i = 0; i < 8; i++) if (i & st) anf[i] ^= anf[i ^ st];
      for (u32 i = 0; i < c.w; i++) { Lit x[3] = {d.bit(i), b.bit(i), a.bit(i)}; Lit acc = anf[0]; for (int m = 1; m < 8; m++) if (anf[m]) { Lit t = T1; for (int q = 0; q < 3; q++) if (m >> q & 1) t = G.And(t, x[q]); acc = G.Xor(acc, t); } r[i] = acc; }
      out = Val(std::move(r));
      if (n.find("mask") != std::string::npos) { const Val &mk = A(4); bool z = n.find("maskz") != std::string::npos; std::vector<Lit> q; for (u32 l = 0; l < lanes; l++) { Val v = vite(mk.bit(l), lane(out, l, ew), z ? Val(ew, 0) : lane(a, l, ew)); for (u32 j = 0; j < ew; j++) q.push_back(v.bit(j)); } out = Val(std::move(q)); }
      return true; }
    // variable shifts: llvm.x86.avx*.ps{l,r}lv.*, uniform: ps{l,r}l{i}.*
    if (has("llvm.x86.avx") || has("llvm.x86.sse") || has("llvm.x86.ssse")) {
      size_t p;
      auto shiftk = [&](char d, const Val &x, const Val &sh) { return d == 'l' ? vshl(x, sh) : vlshr(x, sh); };
      if ((p = n.find(".psllv")) != std::string::npos || (p = n.find(".psrlv")) != std::string::npos) { char d = n[p + 3]; out = lanewise(lanes, ew, A(0), A(1), [&](const Val &x, const Val &y) { return shiftk(d, x, y); }); return true; }
      if ((p = n.find(".psravd")) != std::string::npos || (p = n.find(".psrav")) != std::string::npos) { out = lanewise(lanes, ew, A(0), A(1), [&](const Val &x, const Val &y) { return vashr(x, y); }); return true; }
      if ((p = n.find(".pslli")) != std::string::npos || (p = n.find(".psrli")) != std::string::npos) { if (n.find(".dq") != std::string::npos) return false; char d = n[p + 3]; Val cnt = A(1); std::vector<Lit> r; for (u32 l = 0; l < lanes; l++) { Val sh = cnt.k ? Val(ew, cnt.c >= ew ? (ew == 64 ? 64 : ew) : cnt.c) : (cnt.w >= ew ? vtrunc(cnt, ew) : vzext(cnt, ew)); if (!cnt.k && cnt.w > ew) return false; Val v = shiftk(d, lane(A(0), l, ew), sh); for (u32 j = 0; j < ew; j++) r.push_back(v.bit(j)); } out = Val(std::move(r)); return true; }
      if ((p = n.find(".psll.")) != std::string::npos || (p = n.find(".psrl.")) != std::string::npos) { char d = n[p + 3]; Val cnt = vtrunc(A(1), 64); if (!cnt.k) return false; std::vector<Lit> r; for (u32 l = 0; l < lanes; l++) { Val v = shiftk(d, lane(A(0), l, ew), Val(ew, cnt.c >= ew ? ew : cnt.c)); if (cnt.c >= ew) v = Val(ew, 0); for (u32 j = 0; j < ew; j++) r.push_back(v.bit(j)); } out = Val(std::move(r)); return true; }
      if (n.find(".permvar.") != std::string::npos) { if (!A(1).allconst()) { return permsym(A(0), A(1), lanes, ew, out); } std::vector<Lit> r; for (u32 l = 0; l < lanes; l++) { Val ix = lane(A(1), l, ew); u64 k = 0; for (u32 j = 0; j < ew && j < 32; j++) k |= (u64)ix.bit(j) << j; k &= lanes - 1; for (u32 j = 0; j < ew; j++) r.push_back(A(0).bit(k * ew + j)); } out = Val(std::move(r)); return true; }
      if (n.find(".vpermi2var.") != std::string::npos) { std::vector<Lit> r; if (!A(1).allconst()) return false; for (u32 l = 0; l < lanes; l++) { u64 k = 0; for (u32 j = 0; j < ew && j < 32; j++) k |= (u64)A(1).bit(l * ew + j) << j; k &= 2 * lanes - 1; const Val &src = k >= lanes ? A(2) : A(0); for (u32 j = 0; j < ew; j++) r.push_back(src.bit((k & (lanes - 1)) * ew + j)); } out = Val(std::move(r)); return true; }
      if (n.find(".pshuf.b") != std::string::npos) { if (!A(1).allconst()) return false; std::vector<Lit> r; for (u32 l = 0; l < lanes; l++) { u64 k = 0; for (u32 j = 0; j < 8; j++) k |= (u64)A(1).bit(l * 8 + j) << j; for (u32 j = 0; j < 8; j++) r.push_back(k & 0x80 ? F0 : A(0).bit(((l & ~15u) + (k & 15)) * 8 + j)); } out = Val(std::move(r)); return true; }
    }
    return false;
  }
  bool permsym(const Val &, const Val &, u32, u32, Val &) { return false; }
  bool libcall(State &s, Frame &f, CInst &c, Val &out) {
    auto A = [&](int i) -> const Val & { return get(f, c.a[i]); };
    const std::string &n = c.callee;
    if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk") { copy(s, A(0), A(1), A(2), c.where); out = A(0); return true; }
    if (n == "memset" || n == "__memset_chk") { fill(s, A(0), A(1), A(2), c.where); out = A(0); return true; }
    if (n == "explicit_bzero" || n == "bzero") { fill(s, A(0), Val(8, 0), A(1), c.where); return true; }
    if (n == "memcmp" || n == "bcmp") {
      u64 x, y, l; bool u1, u2, u3; if (!resolve(s, A(0), x, u1) || !resolve(s, A(1), y, u2) || !resolve(s, A(2), l, u3) || !u1 || !u2 || !u3) return false;
      Bytes p = loadc(s, x, l, c.where), q = loadc(s, y, l, c.where); Val r(32, 0);
      for (int i = (int)l - 1; i >= 0; i--) { Val a = bytesToVal({p[i]}), b = bytesToVal({q[i]}); r = vite(veq(a, b), r, vite(vult(a, b), Val(32, (u64)-1), Val(32, 1))); }
      if (W.ct && W.isSecret) { std::vector<Lit> l2; for (auto &b : p) l2.insert(l2.end(), b.begin(), b.end()); for (auto &b : q) l2.insert(l2.end(), b.begin(), b.end()); if (G.support_any(l2, W.isSecret, &W.publicNodes)) W.add("secret_branch", c.where, "memcmp on secret data (early exit)", s, Val(r).bit(0), "memcmp"); }
      out = r; return true; }
    if (n == "malloc" || n == "calloc" || n == "aligned_alloc") {
      u64 sz, b = 1; bool u, u2 = true; if (!resolve(s, A(n == "aligned_alloc" ? 1 : 0), sz, u) || !u) return false; if (n == "calloc" && (!resolve(s, A(1), b, u2) || !u2)) return false; sz *= b; if (sz > 1 << 24) return false;
      Obj o; o.base = s.heap; s.heap += (sz + 8191) & ~4095ull; o.size = sz; o.name = "heap@" + c.where; o.cls = C_HEAP; Byte un; un.fill(UNINIT); o.d = std::make_shared<std::vector<Byte>>(sz, n == "calloc" ? cbyte(0) : un); if (sz) s.mem.add(o); fixmarks(s, o.base); out = Val(64, o.base); return true; }
    if (n == "free") { u64 p; bool u; if (!resolve(s, A(0), p, u) || !u) return false; if (p) { int k = s.mem.find(p); if (k >= 0 && s.mem.o[k].cls == C_HEAP) s.mem.o[k].alive = false; } return true; }
    if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "fputs" || n == "fwrite" || n == "fputc") { out = Val(c.w ? c.w : 1, 0); return true; }
    if (n == "abort" || n == "exit" || n == "__assert_fail" || n == "_exit") { s.done = s.aborted = true; s.why = n; return true; }
    return false;
  }
  void fixmarks(State &s, u64 base) { for (auto &f : s.st) if (f.objmark) { size_t m = f.objmark; if (m <= s.mem.o.size() && m > 0) { /* heap objects lie below the stack region: shift marks */ f.objmark++; } } }
  std::vector<State> run(State s0) override {
    std::vector<State> work, fin; work.push_back(std::move(s0));
    while (!work.empty()) {
      State s = std::move(work.back()); work.pop_back();
      if (++W.paths > W.maxpaths) { W.fail("path limit"); break; }
      setPref(s); runPath(s, work);
      fin.push_back(std::move(s));
      if (W.inconclusive && !W.symlen) break;
    }
    return fin;
  }
  void enter(State &s, Frame &f, int bb) { int from = f.prevbb; (void)from; jump(f, bb); }
  int curbb(Frame &f) { int lo = 0, hi = f.f->bbstart.size() - 1; while (lo < hi) { int m = (lo + hi + 1) / 2; if (f.f->bbstart[m] <= f.pc) lo = m; else hi = m - 1; } return lo; }
  void jump(Frame &f, int bb) { int cur = curbb(f); f.prevbb = cur; f.pc = f.f->bbstart[bb];
    // phis
    std::vector<std::pair<int, Val>> v; int p = f.pc;
    while (p < (int)f.f->code.size() && f.f->code[p].op == Instruction::PHI) { CInst &c = f.f->code[p]; for (size_t i = 0; i < c.a.size(); i += 2) if (c.a[i] == cur) { v.push_back({c.dst, get(f, c.a[i + 1])}); break; } p++; }
    for (auto &x : v) f.r[x.first] = std::move(x.second); f.pc = p; }
  bool touchesGlobal(State &s, Frame &f, CInst &c) {
    int o = c.op == Instruction::Load ? c.a[0] : c.op == Instruction::Store ? c.a[1] : -1; if (c.op != Instruction::Load && c.op != Instruction::Store) return false;
    const Val &a = get(f, o); if (!a.k) return false; int k = s.mem.find(a.c); return k >= 0 && s.mem.o[k].cls == C_GLOBAL;
  }
  int depth(State &s) override { int d = 0; for (size_t i = s.st.size(); i-- > 0 && !s.st[i].boundary;) d++; return d; }
  void leave(State &s) { // give up the function under test's current callee
    s.unwind = false; int d = depth(s); for (int i = 1; i < d; i++) s.st.pop_back(); u64 sp = s.st.back().sp;
    while (!s.mem.o.empty() && s.mem.o.back().cls == C_STACK && s.mem.o.back().base >= sp) s.mem.o.pop_back(); s.mem.last = 0; s.sp = sp; s.st.pop_back();
    Frame &g = s.st.back(); CInst &cc = g.f->code[g.pc]; if (cc.dst >= 0) { std::vector<Lit> b(cc.w); for (auto &l : b) l = G.var("beyond"); g.r[cc.dst] = Val(std::move(b)); } g.pc++;
  }
  bool presplit(State &s, Frame &f, CInst &c, std::vector<State> &work) {
    if (c.op == Instruction::Load) return split(s, get(f, c.a[0]), false, work, c.where);
    if (c.op == Instruction::Store) return split(s, get(f, c.a[1]), false, work, c.where);
    if (c.op == Instruction::Call && c.a.size() >= 3) {
      auto *cb = cast<CallBase>(c.I); auto *F = cb->getCalledFunction(); if (!F) return true; std::string n = F->getName().str(); bool cp = n.find("memcpy") != std::string::npos || n.find("memmove") != std::string::npos, st = n.find("memset") != std::string::npos; if (!cp && !st) return true;
      if (!split(s, get(f, c.a[2]), true, work, c.where) || !split(s, get(f, c.a[0]), false, work, c.where)) return false;
      if (cp && !split(s, get(f, c.a[1]), false, work, c.where)) return false;
    }
    return true;
  }
  // joins of branches: the immediate post-dominator, if the region before it is small, acyclic and free of calls
  void joins(FnInfo *fi, DenseMap<const BasicBlock *, int> &bbi) {
    std::vector<const BasicBlock *> bl; for (auto &B : *fi->F) bl.push_back(&B);
    PostDominatorTree PD(*const_cast<Function *>(fi->F));
    for (auto &c : fi->code) {
      if (c.op != Instruction::Br || c.a.empty()) continue;
      auto *N = PD.getNode(c.I->getParent()); if (!N || !N->getIDom() || !N->getIDom()->getBlock()) continue; const BasicBlock *J = N->getIDom()->getBlock();
      std::set<const BasicBlock *> seen, onpath; bool ok = true; size_t cnt = 0;
      std::function<void(const BasicBlock *)> visit = [&](const BasicBlock *B) {
        if (B == J || !ok) return; if (onpath.count(B) || B == c.I->getParent()) { ok = false; return; } if (!seen.insert(B).second) return; onpath.insert(B);
        for (auto &I : *B) { if (isa<DbgInfoIntrinsic>(I)) continue; if (auto *Cl = dyn_cast<CallBase>(&I)) { auto *F = Cl->getCalledFunction(); if (!F || !F->isIntrinsic()) ok = false; } if (isa<AllocaInst>(I) || isa<ReturnInst>(I) || isa<UnreachableInst>(I) || isa<SwitchInst>(I)) ok = false; if (++cnt > 400) ok = false; }
        for (auto *S : successors(B)) visit(S);
        onpath.erase(B);
      };
      for (auto *S : successors(c.I->getParent())) visit(S);
      if (ok) c.join = bbi[J];
    }
  }
  u64 merges = 0;
  // runs both sides of a branch to their join and makes one state of them; false: a and b (and what they forked, in work) go on separately
  bool mergeAt(State &a, State &b, const State &base, Lit l, int join, std::vector<State> &work) {
    size_t d = base.st.size(), w0 = work.size(); int pc = base.st.back().f->bbstart[join]; auto &code = base.st.back().f->code; while (pc < (int)code.size() && code[pc].op == Instruction::PHI) pc++;
    runPath(a, work, d, pc); runPath(b, work, d, pc);
    auto at = [&](State &s) { return !s.done && !s.unwind && !s.aborted && s.st.size() == d && s.st.back().pc == pc; };
    if (work.size() != w0 || !at(a) || !at(b)) return false;
    if (a.pc.size() != base.pc.size() + 1 || b.pc.size() != base.pc.size() + 1 || a.sp != b.sp || a.heap != b.heap || a.gaccess != b.gaccess || a.over != b.over || a.splits != b.splits || a.mem.o.size() != b.mem.o.size()) return false;
    std::vector<std::pair<size_t, std::shared_ptr<std::vector<Byte>>>> nm;
    for (size_t i = 0; i < a.mem.o.size(); i++) {
      Obj &x = a.mem.o[i], &y = b.mem.o[i]; if (x.base != y.base || x.size != y.size || x.alive != y.alive) return false;
      if (x.d == y.d) continue;
      auto m = std::make_shared<std::vector<Byte>>(*x.d); bool ch = false;
      for (size_t j = 0; j < m->size(); j++) for (int t = 0; t < 8; t++) { Lit p = (*x.d)[j][t], q = (*y.d)[j][t]; if (p == q) continue; if (p == UNINIT || q == UNINIT) return false; (*m)[j][t] = vite(l, Val(p), Val(q)).bit(0); ch = true; }
      if (ch) nm.push_back({i, m});
    }
    auto &ra = a.st.back().r; auto &rb = b.st.back().r;
    for (size_t i = 0; i < ra.size(); i++) if (ra[i].w == 64 && rb[i].w == 64 && ra[i].k && rb[i].k && ra[i].c != rb[i].c && (a.mem.find(ra[i].c) >= 0 || a.mem.find(rb[i].c) >= 0)) return false; // pointers to different places
    for (size_t i = 0; i < ra.size(); i++) { if (!ra[i].w) ra[i] = rb[i]; else if (rb[i].w && ra[i].w == rb[i].w) ra[i] = vite(l, ra[i], rb[i]); }
    for (auto &x : nm) a.mem.o[x.first].d = x.second;
    a.pc = base.pc; a.known = base.known; a.steps = std::max(a.steps, b.steps); merges++; return true;
  }
  void runPath(State &s, std::vector<State> &work, size_t stopDepth = 0, int stopPc = -1) {
    while (!s.done) {
      if (s.unwind) { leave(s); continue; }
      Frame &f = s.st.back(); if (stopPc >= 0 && s.st.size() <= stopDepth && (f.pc == stopPc || s.st.size() < stopDepth)) return;

      if (f.pc >= (int)f.f->code.size()) { W.fail("fell off " + f.f->name); s.done = s.aborted = true; return; }
      CInst &c = f.f->code[f.pc];
      if (++s.steps > W.maxsteps) { s.done = s.cut = true; s.why = "step limit"; W.add("nonterm", c.where, "step limit reached", s); return; }
      if ((s.steps & 0xfff) == 0 && W.deadline > 0 && now() > W.deadline) { W.fail("time limit"); s.done = s.cut = true; return; }
      if (W.onGlobalAccess && !s.preempted && touchesGlobal(s, f, c)) { size_t d = s.st.size(); if (W.onGlobalAccess(s)) { if (s.st.size() != d) continue; } }
      if (W.symlen && !presplit(s, f, c, work)) continue;
      switch (c.op) {
        case Instruction::PHI: f.pc++; continue;
        case Instruction::Alloca: {
          u64 cnt = 1; const Val &n = get(f, c.a[0]); bool u = true; if (!resolve(s, n, cnt, u) || !u) { W.fail("alloca size"); s.done = true; return; }
          u64 sz = c.allocsz * cnt; s.sp = (s.sp + std::max<u64>(c.align, 16) - 1) & ~(std::max<u64>(c.align, 16) - 1);
          Obj o; o.base = s.sp; o.size = sz; o.name = f.f->name + "." + (c.I->hasName() ? c.I->getName().str() : "tmp"); o.cls = C_STACK; Byte un; un.fill(UNINIT); o.d = std::make_shared<std::vector<Byte>>(sz, un);
          s.sp += ((sz + 15) & ~15ull) + 64; if (sz) s.mem.o.push_back(o); f.r[c.dst] = Val(64, o.base); f.pc++; break; }
        case Instruction::Load: { Val v = load(s, get(f, c.a[0]), (c.w + 7) / 8, c.where); Frame &g = s.st.back(); g.r[c.dst] = vtrunc(v, c.w); g.pc++; break; }
        case Instruction::Store: { const Val &v = get(f, c.a[0]); if (v.w % 8) store(s, get(f, c.a[1]), vzext(v, (v.w + 7) & ~7u), c.where); else store(s, get(f, c.a[1]), v, c.where); f.pc++; break; }
        case Instruction::GetElementPtr: {
          Val p = get(f, c.a[0]); u64 off = c.gepc; for (auto &g : c.gep) { const Val &ix = get(f, g.first); if (ix.k) off += (u64)ix.sval() * g.second; else { Val t = vsext(ix, 64); if (g.second != 1) t = vmul(Val(64, g.second), t); p = vadd(p, t); } }
          f.r[c.dst] = vadd(p, Val(64, off)); f.pc++; break; }
        case Instruction::Trunc: f.r[c.dst] = c.lanes ? castlanes(c, get(f, c.a[0]), 0) : vtrunc(get(f, c.a[0]), c.w); f.pc++; break;
        case Instruction::ZExt: f.r[c.dst] = c.lanes ? castlanes(c, get(f, c.a[0]), 1) : vzext(get(f, c.a[0]), c.w); f.pc++; break;
        case Instruction::SExt: f.r[c.dst] = c.lanes ? castlanes(c, get(f, c.a[0]), 2) : vsext(get(f, c.a[0]), c.w); f.pc++; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: { const Val &v = get(f, c.a[0]); f.r[c.dst] = c.w <= v.w ? vtrunc(v, c.w) : vzext(v, c.w); f.pc++; break; }
        case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: f.r[c.dst] = get(f, c.a[0]); f.pc++; break;
        case Instruction::ICmp: {
          const Val &a = get(f, c.a[0]), &b = get(f, c.a[1]); auto p = cast<ICmpInst>(c.I)->getPredicate();
          if (!c.lanes) f.r[c.dst] = Val(icmp(p, a, b));
          else f.r[c.dst] = lanewise(c.lanes, c.ew, a, b, [&](const Val &x, const Val &y) { return Val(icmp(p, x, y)); });
          f.pc++; break; }
        case Instruction::Select: {
          const Val &k = get(f, c.a[0]); if (k.w == 1 && !c.lanes) f.r[c.dst] = vite(k.bit(0), get(f, c.a[1]), get(f, c.a[2]));
          else { u32 L = k.w, e = c.w / L; std::vector<Lit> r; for (u32 i = 0; i < L; i++) { Val v = vite(k.bit(i), lane(get(f, c.a[1]), i, e), lane(get(f, c.a[2]), i, e)); for (u32 j = 0; j < e; j++) r.push_back(v.bit(j)); } f.r[c.dst] = Val(std::move(r)); }
          f.pc++; break; }
        case Instruction::ExtractElement: {
          const Val &v = get(f, c.a[0]), &i = get(f, c.a[1]); if (i.k) f.r[c.dst] = lane(v, i.c % c.lanes, c.ew); else { Val r = lane(v, 0, c.ew); for (u32 l = 1; l < c.lanes; l++) r = vite(veq(i, Val(i.w, l)), lane(v, l, c.ew), r); f.r[c.dst] = r; } f.pc++; break; }
        case Instruction::InsertElement: {
          auto r = vbits(get(f, c.a[0])); const Val &e = get(f, c.a[1]), &i = get(f, c.a[2]); 
          for (u32 l = 0; l < c.lanes; l++) { Lit m = veq(i, Val(i.w, l)); if (m == F0) continue; for (u32 j = 0; j < c.ew; j++) r[l * c.ew + j] = G.Mux(m, e.bit(j), r[l * c.ew + j]); }
          f.r[c.dst] = Val(std::move(r)); f.pc++; break; }
        case Instruction::ShuffleVector: {
          auto *SV = cast<ShuffleVectorInst>(c.I); const Val &a = get(f, c.a[0]), &b = get(f, c.a[1]); std::vector<Lit> r;
          for (int m : SV->getShuffleMask()) for (u32 j = 0; j < c.ew; j++) r.push_back(m < 0 ? F0 : (u32)m < c.lanes ? a.bit(m * c.ew + j) : b.bit((m - c.lanes) * c.ew + j));
          f.r[c.dst] = Val(std::move(r)); f.pc++; break; }
        case Instruction::ExtractValue: {
          auto *E = cast<ExtractValueInst>(c.I); u64 off = aggoff(E->getAggregateOperand()->getType(), E->getIndices()); f.r[c.dst] = vextract(get(f, c.a[0]), off * 8, c.w); f.pc++; break; }
        case Instruction::InsertValue: {
          auto *E = cast<InsertValueInst>(c.I); u64 off = aggoff(E->getAggregateOperand()->getType(), E->getIndices()); auto r = vbits(get(f, c.a[0])); const Val &v = get(f, c.a[1]); for (u32 j = 0; j < v.w; j++) r[off * 8 + j] = v.bit(j); f.r[c.dst] = Val(std::move(r)); f.pc++; break; }
        case Instruction::Br: {
          if (c.a.empty()) { jump(f, c.t0); break; }
          const Val &k = get(f, c.a[0]); Lit l = k.bit(0);
          if (l < 2) { jump(f, l ? c.t0 : c.t1); break; }
          State other; int d = branch(s, l, work, c.where, &other);
          if (d < 0) { s.done = s.aborted = true; s.why = "infeasible"; return; }
          if (d == 2) {
            if (c.join >= 0 && !W.symlen && !W.onGlobalAccess) {
              State base = s; base.pc.pop_back(); jump(other.st.back(), c.t1); jump(s.st.back(), c.t0);
              if (!mergeAt(s, other, base, l, c.join, work)) work.push_back(std::move(other));
              break;
            }
            jump(other.st.back(), c.t1); work.push_back(std::move(other)); jump(s.st.back(), c.t0);
          }
          else jump(s.st.back(), d ? c.t0 : c.t1);
          break; }
        case Instruction::Switch: {
          Val k = get(f, c.a[0]); 
          if (k.k) { int t = c.t0; for (auto &x : c.cases) if (x.first == k.c) t = x.second; jump(f, t); break; }
          bool taken = false;
          for (auto &x : c.cases) { Lit l = veq(k, Val(k.w, x.first)); if (l == F0) continue; State other; int d = branch(s, l, work, c.where, &other); if (d < 0) { s.done = s.aborted = true; return; } if (d == 1) { jump(s.st.back(), x.second); taken = true; break; } if (d == 2) { State t = s; jump(t.st.back(), x.second); work.push_back(std::move(t)); s = std::move(other); } }
          if (!taken) jump(s.st.back(), c.t0);
          break; }
        case Instruction::Ret: {
          Val v; bool hasv = !c.a.empty(); if (hasv) v = get(f, c.a[0]);
          bool bd = f.boundary; int tag = f.tag; size_t mark = f.objmark; u64 sp = f.sp;
          while (!s.mem.o.empty() && s.mem.o.back().cls == C_STACK && s.mem.o.back().base >= sp) s.mem.o.pop_back(); (void)mark; s.mem.last = 0;
          s.sp = sp; s.st.pop_back(); if (bd) setPref(s);
          if (bd) { if (hasv) { s.rets[tag] = v; s.ret = v; } if (s.st.empty()) { s.done = true; return; } break; }
          Frame &g = s.st.back(); CInst &cc = g.f->code[g.pc]; if (cc.dst >= 0 && hasv) g.r[cc.dst] = v; g.pc++; break; }
        case Instruction::Unreachable: { W.add("unreachable", c.where, "unreachable code reached", s); s.done = s.aborted = true; s.why = "unreachable"; return; }
        case Instruction::Call: {
          FnInfo *fi = nullptr;
          if (c.cfn >= 0) fi = fnlist[c.cfn];
          else if (c.callee.empty()) { u64 p; bool u; if (c.a.back() == INT32_MIN) {
              // an empty template is a barrier for the compiler: nothing, or its tied operand unchanged
              auto *IA = dyn_cast<InlineAsm>(cast<CallBase>(c.I)->getCalledOperand());
              if (IA && StringRef(IA->getAsmString()).trim().empty()) {
                StringRef k(IA->getConstraintString());
                if (c.dst < 0) { f.pc++; break; }
                if ((k.starts_with("=r,0") || k.starts_with("=&r,0") || k.starts_with("=rm,0") || k.starts_with("=x,0") || k.starts_with("=v,0")) && cast<CallBase>(c.I)->arg_size() >= 1 && !c.I->getType()->isStructTy()) { f.r[c.dst] = get(f, c.a[0]); f.pc++; break; }
              }
              W.fail("inline asm or unknown callee at " + c.where); s.done = s.aborted = true; return; } if (!resolve(s, get(f, c.a.back()), p, u) || !u || !fnaddr.count(p)) { W.fail("indirect call at " + c.where); s.done = s.aborted = true; return; } fi = fnaddr[p]; }
          if (fi && !fi->F->isDeclaration()) {
            compile(fi); W.funcs.insert(fi->name); Frame nf; nf.f = fi; nf.r.resize(fi->nslots); for (int i = 0; i < fi->nargs && i < (int)c.a.size(); i++) nf.r[i] = get(f, c.a[i]); nf.objmark = s.mem.o.size(); nf.sp = s.sp;
            if (s.st.size() > 200) { W.fail("recursion"); s.done = true; return; }
            s.st.push_back(std::move(nf)); break;
          }
          Val out; out.w = c.w; bool ok; std::string saved;
          if (fi && c.callee.empty()) { saved = c.callee; c.callee = fi->name; }
          if (c.callee.rfind("llvm.", 0) == 0) ok = intrinsic(s, f, c, out); else ok = libcall(s, f, c, out);
          if (!ok) { W.fail("unsupported call " + c.callee + " at " + c.where); s.done = s.aborted = true; return; }
          if (s.done) return;
          Frame &g = s.st.back(); if (c.dst >= 0) g.r[c.dst] = out; g.pc++; break; }
        default:
          if (c.I->isBinaryOp()) { Val r = lanewise(c.lanes, c.ew, get(f, c.a[0]), get(f, c.a[1]), [&](const Val &x, const Val &y) { return binop(c.op, x, y, s, c); }); f.r[c.dst] = r; f.pc++; break; }
          W.fail(std::string("unsupported instruction ") + c.I->getOpcodeName() + " at " + c.where); s.done = s.aborted = true; return;
      }
    }
  }
  u64 aggoff(Type *T, ArrayRef<unsigned> idx) { u64 off = 0; for (unsigned i : idx) { if (auto *S = dyn_cast<StructType>(T)) { off += DL->getStructLayout(S)->getElementOffset(i); T = S->getElementType(i); } else { T = cast<ArrayType>(T)->getElementType(); off += DL->getTypeAllocSize(T) * i; } } return off; }
  Val castlanes(CInst &c, const Val &v, int k) { u32 L = c.lanes, e = c.w / L; std::vector<Lit> r; for (u32 i = 0; i < L; i++) { Val x = lane(v, i, c.ew); x = k == 0 ? vtrunc(x, e) : k == 1 ? vzext(x, e) : vsext(x, e); for (u32 j = 0; j < e; j++) r.push_back(x.bit(j)); } return Val(std::move(r)); }
};
Exec *makeIR(const std::string &bc) { return new IRExec(bc); }
