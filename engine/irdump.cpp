// Dumps an LLVM module as JSON for the Python VC generator.  Purely syntactic: every instruction of every
// defined function is emitted; layout questions (struct offsets, constant initialisers) are resolved with the
// module's own DataLayout.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
using namespace llvm;
static const DataLayout* DL;
static std::string out;
static std::map<const Value*, int> num;
static void q(StringRef s) {
  out += '"';
  for (char c : s) { if (c == '"' || c == '\\') out += '\\'; if ((unsigned char)c < 32) { char b[8]; sprintf(b, "\\u%04x", (unsigned char)c); out += b; } else out += c; }
  out += '"';
}
static void n(long long v) { out += std::to_string(v); }
static void ty(Type* t) {
  if (t->isDoubleTy()) out += "\"d\"";
  else if (t->isFloatTy()) out += "\"f\"";
  else if (t->isX86_FP80Ty()) out += "\"x\"";
  else if (t->isPointerTy()) out += "\"p\"";
  else if (t->isIntegerTy()) { out += "\"i"; n(t->getIntegerBitWidth()); out += "\""; }
  else if (t->isVoidTy()) out += "\"v\"";
  else if (auto* s = dyn_cast<StructType>(t)) {
    out += "[\"s\"";
    auto* L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) { out += ",["; n(L->getElementOffset(i)); out += ","; ty(s->getElementType(i)); out += "]"; }
    out += "]";
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    out += "[\"s\"";
    auto sz = DL->getTypeAllocSize(a->getElementType());
    for (unsigned i = 0; i < a->getNumElements(); i++) { out += ",["; n(i * (long long)sz); out += ","; ty(a->getElementType()); out += "]"; }
    out += "]";
  } else if (auto* a = dyn_cast<FixedVectorType>(t)) {
    out += "[\"s\"";
    auto sz = DL->getTypeAllocSize(a->getElementType());
    for (unsigned i = 0; i < a->getNumElements(); i++) { out += ",["; n(i * (long long)sz); out += ","; ty(a->getElementType()); out += "]"; }
    out += "]";
  } else out += "\"?\"";
}
static void hexd(const APFloat& f) {
  APFloat g = f; bool li; g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
  uint64_t b = g.bitcastToAPInt().getZExtValue(); out += "\""; char s[32]; sprintf(s, "%016llx", (unsigned long long)b); out += s; out += "\"";
}
static void constant(const Constant* c);
static void val(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) { constant(c); return; }
  auto it = num.find(v);
  if (it == num.end()) { out += "[\"?\"]"; return; }
  n(it->second);
}
static void constant(const Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) {
    out += "[\"i\","; SmallString<40> s; i->getValue().toStringUnsigned(s); out += std::string(s.str()); out += ","; n(i->getBitWidth()); out += "]"; return; }
  if (auto* f = dyn_cast<ConstantFP>(c)) { out += "[\"f\","; hexd(f->getValueAPF()); out += "]"; return; }
  if (isa<ConstantPointerNull>(c)) { out += "[\"i\",0,64]"; return; }
  if (isa<UndefValue>(c)) { out += "[\"u\","; ty(c->getType()); out += "]"; return; }
  if (auto* f = dyn_cast<Function>(c)) { out += "[\"fn\","; q(f->getName()); out += "]"; return; }
  if (auto* g = dyn_cast<GlobalVariable>(c)) { out += "[\"g\","; q(g->getName()); out += ",0]"; return; }
  if (auto* a = dyn_cast<GlobalAlias>(c)) { constant(cast<Constant>(a->getAliasee()->stripPointerCasts())); return; }
  if (isa<ConstantAggregateZero>(c)) { out += "[\"z\","; ty(c->getType()); out += "]"; return; }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    if (auto* ge = dyn_cast<GEPOperator>(e)) {
      APInt off(64, 0);
      if (ge->accumulateConstantOffset(*DL, off)) {
        out += "[\"+\","; constant(cast<Constant>(ge->getPointerOperand())); out += ","; n(off.getSExtValue()); out += "]"; return; }
    }
    if (e->getOpcode() == Instruction::PtrToInt || e->getOpcode() == Instruction::IntToPtr || e->getOpcode() == Instruction::BitCast) { constant(e->getOperand(0)); return; }
    if (e->getOpcode() == Instruction::Sub || e->getOpcode() == Instruction::Add) { out += "[\"ce\",\""; out += e->getOpcodeName(); out += "\","; constant(e->getOperand(0)); out += ","; constant(e->getOperand(1)); out += "]"; return; }
    out += "[\"??\",\""; out += e->getOpcodeName(); out += "\"]"; return;
  }
  if (c->getType()->isAggregateType() || c->getType()->isVectorTy()) {
    unsigned N = 0; while (c->getAggregateElement(N)) N++;
    out += "[\"a\"";
    for (unsigned i = 0; i < N; i++) { out += ","; constant(c->getAggregateElement(i)); }
    out += "]"; return;
  }
  out += "[\"??\",\"const\"]";
}
static void init(const Constant* c, uint64_t off, bool& first) {
  if (isa<ConstantAggregateZero>(c) || c->isNullValue() || isa<UndefValue>(c)) return;  // zero-filled by default
  Type* t = c->getType();
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) init(c->getAggregateElement(i), off + L->getElementOffset(i), first); return; }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    uint64_t sz = DL->getTypeAllocSize(et); uint64_t N = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (uint64_t i = 0; i < N; i++) init(c->getAggregateElement(i), off + i * sz, first); return; }
  if (!first) out += ","; first = false;
  out += "["; n(off); out += ","; ty(t); out += ","; constant(c); out += "]";
}
static void ops(const Instruction& I) { for (auto& o : I.operands()) { out += ","; val(o.get()); } }
int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  out += "{\"globals\":{"; bool f1 = true;
  for (auto& g : M->globals()) {
    if (!f1) out += ","; f1 = false; q(g.getName()); out += ":{\"size\":"; n(g.getValueType()->isSized() ? (long long)DL->getTypeAllocSize(g.getValueType()) : 0);
    out += ",\"const\":"; out += g.isConstant() ? "1" : "0"; out += ",\"ext\":"; out += g.hasInitializer() ? "0" : "1"; out += ",\"init\":[";
    if (g.hasInitializer() && g.getName() != "llvm.used") { bool f = true; init(g.getInitializer(), 0, f); }
    out += "]}\n";
  }
  out += "},\"functions\":{"; f1 = true;
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    num.clear(); int k = 0;
    for (auto& a : F.args()) num[&a] = k++;
    int nargs = k;
    std::map<const BasicBlock*, int> bb; int b = 0;
    for (auto& B : F) { bb[&B] = b++; for (auto& I : B) if (!I.getType()->isVoidTy()) num[&I] = k++; }
    if (!f1) out += ","; f1 = false; q(F.getName()); out += ":{\"nargs\":"; n(nargs); out += ",\"va\":"; n(F.isVarArg()); out += ",\"nregs\":"; n(k); out += ",\"ret\":"; ty(F.getReturnType());
    out += ",\"argt\":["; { bool f = true; for (auto& a : F.args()) { if (!f) out += ","; f = false; ty(a.getType()); } } out += "]";
    out += ",\"byval\":["; { bool f = true; for (auto& a : F.args()) { if (!f) out += ","; f = false; n(a.hasByValAttr() ? (long long)DL->getTypeAllocSize(a.getParamByValType()) : 0); } } out += "]";
    out += ",\"blocks\":[";
    bool fb = true;
    for (auto& B : F) {
      if (!fb) out += ","; fb = false; out += "["; bool fi = true;
      for (auto& I : B) {
        if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing) continue; }
        if (!fi) out += ",\n"; fi = false;
        out += "["; q(I.getOpcodeName()); out += ","; if (I.getType()->isVoidTy()) out += "-1"; else n(num[&I]); out += ","; ty(I.getType());
        if (auto* A = dyn_cast<AllocaInst>(&I)) { out += ","; n(DL->getTypeAllocSize(A->getAllocatedType())); out += ","; val(A->getArraySize()); }
        else if (isa<LoadInst>(&I)) { ops(I); }
        else if (isa<StoreInst>(&I)) { out += ","; ty(I.getOperand(0)->getType()); ops(I); }
        else if (auto* G = dyn_cast<GEPOperator>(&I)) {
          MapVector<Value*, APInt> vo; APInt co(64, 0);
          if (!G->collectOffset(*DL, 64, vo, co)) { out += ",\"badgep\""; }
          else { out += ","; val(G->getPointerOperand()); out += ","; n(co.getSExtValue()); out += ",["; bool f = true; for (auto& p : vo) { if (!f) out += ","; f = false; out += "["; val(p.first); out += ","; n(p.second.getSExtValue()); out += ","; n(p.first->getType()->getIntegerBitWidth()); out += "]"; } out += "]"; }
        } else if (auto* C = dyn_cast<CmpInst>(&I)) { out += ","; q(CmpInst::getPredicateName(C->getPredicate())); out += ","; ty(C->getOperand(0)->getType()); ops(I); }
        else if (auto* P = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { out += ",["; n(bb[P->getIncomingBlock(i)]); out += ","; val(P->getIncomingValue(i)); out += "]"; } }
        else if (auto* Br = dyn_cast<BranchInst>(&I)) { if (Br->isConditional()) { out += ","; val(Br->getCondition()); out += ","; n(bb[Br->getSuccessor(0)]); out += ","; n(bb[Br->getSuccessor(1)]); } else { out += ","; n(bb[Br->getSuccessor(0)]); } }
        else if (auto* S = dyn_cast<SwitchInst>(&I)) { out += ","; val(S->getCondition()); out += ","; n(bb[S->getDefaultDest()]); out += ",["; bool f = true; for (auto& c : S->cases()) { if (!f) out += ","; f = false; out += "["; constant(c.getCaseValue()); out += ","; n(bb[c.getCaseSuccessor()]); out += "]"; } out += "]"; }
        else if (auto* CB = dyn_cast<CallBase>(&I)) {
          if (CB->isInlineAsm()) { out += ",[\"??\",\"asm\"]"; } else { out += ","; Value* cv = CB->getCalledOperand()->stripPointerCasts(); val(cv); }
          out += ",["; bool f = true; for (unsigned i = 0; i < CB->arg_size(); i++) { Value* a = CB->getArgOperand(i); if (a->getType()->isMetadataTy()) continue; if (!f) out += ","; f = false; val(a); } out += "]";
          if (auto* IV = dyn_cast<InvokeInst>(&I)) { out += ","; n(bb[IV->getNormalDest()]); out += ","; n(bb[IV->getUnwindDest()]); }
        } else if (auto* E = dyn_cast<ExtractValueInst>(&I)) { ops(I); out += ",["; bool f = true; for (auto i : E->indices()) { if (!f) out += ","; f = false; n(i); } out += "]"; }
        else if (auto* E = dyn_cast<InsertValueInst>(&I)) { ops(I); out += ",["; bool f = true; for (auto i : E->indices()) { if (!f) out += ","; f = false; n(i); } out += "]"; }
        else if (auto* K = dyn_cast<CastInst>(&I)) { out += ","; ty(K->getSrcTy()); ops(I); }
        else if (auto* SV = dyn_cast<ShuffleVectorInst>(&I)) { ops(I); out += ",["; bool f = true; for (int i : SV->getShuffleMask()) { if (!f) out += ","; f = false; n(i); } out += "]"; }
        else ops(I);
        out += "]";
      }
      out += "]";
    }
    out += "]}\n";
  }
  out += "},\"ctors\":[";
  if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) { auto* c = g->getInitializer(); bool f = true; for (unsigned i = 0; c->getAggregateElement(i); i++) { auto* e = c->getAggregateElement(i); auto* fn = dyn_cast<Function>(e->getAggregateElement(1)->stripPointerCasts()); if (!fn) continue; if (!f) out += ","; f = false; q(fn->getName()); } }
  out += "]}\n";
  fwrite(out.data(), 1, out.size(), stdout);
  return 0;
}
