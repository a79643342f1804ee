// irdump: prints a linked LLVM bitcode module as JSON lines for the Python rule engine.
// Line kinds: {"k":"type"...} {"k":"enum"...} {"k":"global"...} {"k":"func"...}
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;
namespace js = llvm::json;

static std::string q(StringRef s) {
  std::string out = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); out += b; }
    else out += (char)c;
  }
  return out + "\"";
}
static std::string tyStr(Type *t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str(); }
static std::string apStr(const APInt &v) { SmallString<32> s; v.toString(s, 10, true); return s.str().str(); }

static std::string diName(const DIType *t);
static std::string diScope(const DIScope *s) {
  if (!s) return "";
  std::string p;
  if (auto *n = dyn_cast<DINamespace>(s)) { p = diScope(n->getScope()); std::string m = n->getName().str(); if (m.empty()) m = "(anonymous)"; return p.empty() ? m : p + "::" + m; }
  if (auto *t = dyn_cast<DIType>(s)) return diName(t);
  if (auto *f = dyn_cast<DISubprogram>(s)) { p = diScope(f->getScope()); return (p.empty() ? "" : p + "::") + f->getName().str(); }
  return "";
}
static std::string diName(const DIType *t) {
  if (!t) return "void";
  if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str();
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diName(d->getBaseType()) + "*";
    case dwarf::DW_TAG_reference_type: return diName(d->getBaseType()) + "&";
    case dwarf::DW_TAG_rvalue_reference_type: return diName(d->getBaseType()) + "&&";
    case dwarf::DW_TAG_const_type: return "const " + diName(d->getBaseType());
    case dwarf::DW_TAG_volatile_type: return "volatile " + diName(d->getBaseType());
    case dwarf::DW_TAG_typedef: { auto *b = d->getBaseType(); return b ? diName(b) : "void"; }
    default: return diName(d->getBaseType());
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diName(c->getBaseType());
      for (auto *e : c->getElements()) if (auto *r = dyn_cast<DISubrange>(e)) {
        if (auto *ci = dyn_cast_if_present<ConstantInt *>(r->getCount())) s += "[" + apStr(ci->getValue()) + "]"; else s += "[]"; }
      return s;
    }
    std::string sc = diScope(c->getScope());
    std::string n = c->getName().str(); if (n.empty()) n = "(anon)";
    return sc.empty() ? n : sc + "::" + n;
  }
  if (auto *st = dyn_cast<DISubroutineType>(t)) {
    std::string s = "fn("; bool first = true;
    for (auto *e : st->getTypeArray()) { if (!first) s += ","; first = false; s += diName(e); }
    return s + ")";
  }
  return "?";
}

static std::string fileOf(const DIScope *s) {
  if (!s || !s->getFile()) return "";
  auto *f = s->getFile();
  std::string n = f->getFilename().str();
  if (!n.empty() && n[0] != '/' && !f->getDirectory().empty()) n = f->getDirectory().str() + "/" + n;
  return n;
}

static std::string gStem;
// names of internal symbols are made unique across units
static std::string gname(const GlobalValue &g) { std::string n = g.getName().str(); if (g.hasLocalLinkage()) n += "@" + gStem; return n; }
struct FDump {
  const Module &M; const DataLayout &DL; raw_ostream &O;
  DenseMap<const Value *, int> id; DenseMap<const BasicBlock *, int> bb;
  FDump(const Module &m, raw_ostream &o) : M(m), DL(m.getDataLayout()), O(o) {}
  std::string cst(const Constant *c, int depth = 0) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) return "i:" + apStr(ci->getValue());
    if (isa<ConstantPointerNull>(c)) return "null";
    if (isa<UndefValue>(c)) return "undef";
    if (auto *g = dyn_cast<GlobalValue>(c)) { if (auto *ga = dyn_cast<GlobalAlias>(g)) return cst(ga->getAliasee()); return "g:" + gname(*g); }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (auto *gep = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        if (gep->accumulateConstantOffset(DL, off)) {
          std::string b = cst(cast<Constant>(gep->getPointerOperand()), depth + 1);
          return off == 0 ? b : "ge:" + apStr(off) + ":" + b;
        }
      }
      if (ce->isCast()) return cst(ce->getOperand(0), depth + 1);
    }
    if (isa<ConstantAggregateZero>(c)) return "zero";
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
      std::string s = "v:["; for (unsigned i = 0; i < cd->getNumElements(); i++) { if (i) s += ","; s += cd->getElementType()->isIntegerTy() ? apStr(cd->getElementAsAPInt(i)) : std::string("f"); } return s + "]";
    }
    std::string s; raw_string_ostream o(s); c->printAsOperand(o, false); return "k:" + o.str().substr(0, 200);
  }
  std::string val(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return q(cst(c));
    auto it = id.find(v); if (it != id.end()) return std::to_string(it->second);
    if (auto *b = dyn_cast<BasicBlock>(v)) return "\"b:" + std::to_string(bb[b]) + "\"";
    if (isa<InlineAsm>(v)) return "\"asm\"";
    if (auto *m = dyn_cast<MetadataAsValue>(v)) { if (auto *s = dyn_cast<MDString>(m->getMetadata())) return q("md:" + s->getString().str()); return "\"md\""; }
    return "\"?\"";
  }
  std::string block(const BasicBlock *b) { return std::to_string(bb[b]); }
  void inst(const Instruction &I) {
    int ln = I.getDebugLoc() ? (int)I.getDebugLoc().getLine() : 0;
    std::string fl;
    auto hd = [&](const char *op) { O << "[\"" << op << "\"," << (id.count(&I) ? id[&I] : -1) << "," << ln; };
    if (auto *c = dyn_cast<CallBase>(&I)) {
      hd(isa<InvokeInst>(c) ? "invoke" : "call");
      O << "," << q(tyStr(c->getType())) << "," << val(c->getCalledOperand()) << ",[";
      for (unsigned i = 0; i < c->arg_size(); i++) { if (i) O << ","; O << val(c->getArgOperand(i)); }
      O << "],";
      if (auto *iv = dyn_cast<InvokeInst>(c)) O << block(iv->getNormalDest()) << "," << block(iv->getUnwindDest()); else O << "-1,-1";
      O << "," << (c->doesNotThrow() ? 1 : 0) << "," << (c->doesNotReturn() ? 1 : 0);
      O << ",[";
      bool f = true; for (unsigned i = 0; i < c->arg_size(); i++) if (c->paramHasAttr(i, Attribute::StructRet)) { if (!f) O << ","; O << i; f = false; }
      O << "]]";
    } else if (auto *br = dyn_cast<BranchInst>(&I)) {
      hd("br"); O << "," << (br->isConditional() ? val(br->getCondition()) : "null") << ",[";
      for (unsigned i = 0; i < br->getNumSuccessors(); i++) { if (i) O << ","; O << block(br->getSuccessor(i)); } O << "]]";
    } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
      hd("switch"); O << "," << val(sw->getCondition()) << "," << block(sw->getDefaultDest()) << ",["; bool f = true;
      for (auto &cs : sw->cases()) { if (!f) O << ","; f = false; O << "[" << apStr(cs.getCaseValue()->getValue()) << "," << block(cs.getCaseSuccessor()) << "]"; } O << "]]";
    } else if (auto *p = dyn_cast<PHINode>(&I)) {
      hd("phi"); O << "," << q(tyStr(p->getType())) << ",[";
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (i) O << ","; O << "[" << val(p->getIncomingValue(i)) << "," << block(p->getIncomingBlock(i)) << "]"; } O << "]]";
    } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
      hd("gep"); O << "," << q(tyStr(g->getSourceElementType())) << "," << val(g->getPointerOperand()) << ",[";
      bool f = true; for (auto &x : g->indices()) { if (!f) O << ","; f = false; O << val(x); } O << "],";
      APInt off(64, 0); if (g->accumulateConstantOffset(DL, off)) O << apStr(off); else O << "null";
      O << "," << DL.getTypeAllocSize(g->getSourceElementType()).getFixedValue();
      O << "]";
    } else if (auto *l = dyn_cast<LoadInst>(&I)) { hd("load"); O << "," << q(tyStr(l->getType())) << "," << val(l->getPointerOperand()) << "," << (l->isVolatile() ? 1 : 0) << "]"; }
    else if (auto *s = dyn_cast<StoreInst>(&I)) { hd("store"); O << "," << q(tyStr(s->getValueOperand()->getType())) << "," << val(s->getValueOperand()) << "," << val(s->getPointerOperand()) << "," << (s->isVolatile() ? 1 : 0) << "]"; }
    else if (auto *c = dyn_cast<CmpInst>(&I)) { hd("icmp"); O << "," << q(CmpInst::getPredicateName(c->getPredicate())) << "," << val(c->getOperand(0)) << "," << val(c->getOperand(1)) << "]"; }
    else if (auto *s = dyn_cast<SelectInst>(&I)) { hd("select"); O << "," << q(tyStr(s->getType())) << "," << val(s->getCondition()) << "," << val(s->getTrueValue()) << "," << val(s->getFalseValue()) << "]"; }
    else if (auto *a = dyn_cast<AllocaInst>(&I)) { hd("alloca"); O << "," << q(tyStr(a->getAllocatedType())) << "," << (isa<ConstantInt>(a->getArraySize()) ? (long long)(DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue() * cast<ConstantInt>(a->getArraySize())->getZExtValue()) : -1LL) << "]"; }
    else if (auto *r = dyn_cast<ReturnInst>(&I)) { hd("ret"); O << "," << (r->getReturnValue() ? val(r->getReturnValue()) : "null") << "]"; }
    else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
      hd("lpad"); O << "," << (lp->isCleanup() ? 1 : 0) << ",[";
      for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (i) O << ","; O << val(lp->getClause(i)); } O << "]]";
    } else if (isa<BinaryOperator>(I)) { hd(I.getOpcodeName()); O << "," << q(tyStr(I.getType())) << "," << val(I.getOperand(0)) << "," << val(I.getOperand(1)) << "]"; }
    else if (isa<CastInst>(I)) { hd("cast"); O << "," << q(I.getOpcodeName()) << "," << q(tyStr(I.getType())) << "," << val(I.getOperand(0)) << "," << q(tyStr(I.getOperand(0)->getType())) << "]"; }
    else if (isa<UnreachableInst>(I)) { hd("unreachable"); O << "]"; }
    else if (isa<ResumeInst>(I)) { hd("resume"); O << "]"; }
    else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { hd("extractvalue"); O << "," << val(ev->getOperand(0)) << "," << ev->getIndices()[0] << "]"; }
    else if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) { hd("x"); O << ",\"shufflevector\"," << q(tyStr(I.getType())) << "," << val(sv->getOperand(0)) << "," << val(sv->getOperand(1)) << ",["; bool f = true; for (int m : sv->getShuffleMask()) { if (!f) O << ","; f = false; O << m; } O << "]," << q(tyStr(sv->getOperand(0)->getType())) << "]"; }
    else { hd("x"); O << "," << q(I.getOpcodeName()) << "," << q(tyStr(I.getType())); for (auto &op : I.operands()) O << "," << val(op); O << "]"; }
  }
  static std::string scevStr(const SCEV *s) { std::string r; raw_string_ostream o(r); s->print(o); return o.str(); }
  void func(Function &F, FunctionAnalysisManager &FAM) {
    id.clear(); bb.clear();
    int n = 0; for (auto &a : F.args()) id[&a] = n++;
    int k = 0; for (auto &b : F) { bb[&b] = k++; for (auto &i : b) if (!i.getType()->isVoidTy()) id[&i] = n++; }
    std::string dem = demangle(F.getName());
    O << "{\"k\":\"func\",\"n\":" << q(gname(F)) << ",\"d\":" << q(dem);
    auto *sp = F.getSubprogram();
    if (sp) { O << ",\"f\":" << q(fileOf(sp)) << ",\"l\":" << sp->getLine();
      O << ",\"cls\":" << q(diScope(sp->getScope()));
      O << ",\"nm\":" << q(sp->getName());
      auto *d = sp->getDeclaration() ? sp->getDeclaration() : sp;
      O << ",\"virt\":" << (d->getVirtuality() ? 1 : 0) << ",\"acc\":" << (d->isPublic() ? "\"public\"" : d->isPrivate() ? "\"private\"" : d->isProtected() ? "\"protected\"" : "\"\"");
      O << ",\"sty\":[";
      bool f = true; if (sp->getType()) for (auto *e : sp->getType()->getTypeArray()) { if (!f) O << ","; f = false; O << q(diName(e)); } O << "]";
      // named locals / parameters
      O << ",\"pn\":{"; f = true; std::map<unsigned, std::string> pn;
      for (auto &b : F) for (auto &i : b) if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&i)) { auto *v = dv->getVariable(); if (v->getArg() && v->getScope()->getSubprogram() == sp && !dv->getDebugLoc()->getInlinedAt()) pn[v->getArg()] = v->getName().str(); }
      for (auto &x : pn) { if (!f) O << ","; f = false; O << "\"" << x.first << "\":" << q(x.second); } O << "}";
    }
    O << ",\"lk\":" << (F.hasLinkOnceLinkage() || F.hasWeakLinkage() ? "\"odr\"" : F.hasLocalLinkage() ? "\"local\"" : "\"ext\"");
    O << ",\"nothrow\":" << (F.doesNotThrow() ? 1 : 0) << ",\"rt\":" << q(tyStr(F.getReturnType()));
    O << ",\"na\":" << F.arg_size() << ",\"sret\":" << (F.hasStructRetAttr() ? 1 : 0) << ",\"at\":[";
    for (auto &a : F.args()) { if (a.getArgNo()) O << ","; O << q(tyStr(a.getType())); } O << "],\"b\":[";
    bool fb = true;
    for (auto &b : F) { if (!fb) O << ","; fb = false; O << "["; bool fi = true;
      for (auto &i : b) { if (isa<DbgInfoIntrinsic>(i)) continue; if (!fi) O << ","; fi = false; inst(i); } O << "]"; }
    O << "]";
    // loops with SCEV trip counts
    auto &LI = FAM.getResult<LoopAnalysis>(F);
    if (!LI.empty()) {
      for (auto &a : F.args()) a.setName("v" + std::to_string(id[&a]) + "_");
      for (auto &b : F) for (auto &i : b) if (!i.getType()->isVoidTy()) i.setName("v" + std::to_string(id[&i]) + "_");
      for (auto &b : F) b.setName("b" + std::to_string(bb[&b]) + "_");
      auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
      O << ",\"loops\":["; bool f = true;
      for (auto *L : LI.getLoopsInPreorder()) {
        if (!f) O << ","; f = false;
        O << "{\"h\":" << bb[L->getHeader()] << ",\"p\":" << (L->getParentLoop() ? bb[L->getParentLoop()->getHeader()] : -1) << ",\"bl\":[";
        bool g = true; for (auto *x : L->blocks()) { if (!g) O << ","; g = false; O << bb[x]; }
        const SCEV *bt = SE.getBackedgeTakenCount(L);
        O << "],\"bt\":" << q(isa<SCEVCouldNotCompute>(bt) ? "?" : scevStr(bt));
        O << ",\"ex\":["; g = true;
        SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex);
        for (auto *x : ex) { if (!g) O << ","; g = false; const SCEV *c = SE.getExitCount(L, x); O << "[" << bb[x] << "," << q(isa<SCEVCouldNotCompute>(c) ? "?" : scevStr(c)) << "]"; }
        O << "],\"iv\":["; g = true;
        for (auto *x : L->blocks()) if (LI.getLoopFor(x) == L) for (auto &i : *x) {
          if (i.getType()->isIntegerTy() || i.getType()->isPointerTy()) { if (!SE.isSCEVable(i.getType())) continue; if (isa<LoadInst>(i) || isa<CallBase>(i)) continue; const SCEV *s = SE.getSCEV(&i); if (isa<SCEVAddRecExpr>(s)) { if (!g) O << ","; g = false; O << "[" << id[&i] << "," << q(scevStr(s)) << "]"; } } }
        O << "]}";
      }
      O << "]";
    }
    O << "}\n";
  }
};

static void dumpTypes(Module &M, raw_ostream &O) {
  DebugInfoFinder DF; DF.processModule(M);
  std::set<std::string> seen;
  for (auto *t : DF.types()) {
    auto *c = dyn_cast<DICompositeType>(t); if (!c || c->isForwardDecl()) continue;
    std::string n = diName(c);
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      if (n.compare(0, 5, "CEX::") || !seen.insert("E" + n).second) continue;
      O << "{\"k\":\"enum\",\"n\":" << q(n) << ",\"f\":" << q(fileOf(c)) << ",\"l\":" << c->getLine() << ",\"u\":" << q(diName(c->getBaseType())) << ",\"e\":["; bool f = true;
      for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) { if (!f) O << ","; f = false; O << "[" << q(en->getName()) << "," << apStr(en->getValue()) << "]"; }
      O << "]}\n"; continue;
    }
    if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
    if (!seen.insert("T" + n).second) continue;
    bool cex = n.compare(0, 5, "CEX::") == 0;
    if (!cex && n.compare(0, 5, "std::")) continue;
    O << "{\"k\":\"type\",\"n\":" << q(n) << ",\"id\":" << q(c->getIdentifier()) << ",\"f\":" << q(cex ? fileOf(c) : "") << ",\"l\":" << c->getLine() << ",\"sz\":" << c->getSizeInBits() / 8 << ",\"m\":["; bool f = true;
    for (auto *e : c->getElements()) if (auto *d = dyn_cast_or_null<DIDerivedType>(e)) {
      if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
      if (!f) O << ","; f = false;
      const char *k = d->getTag() == dwarf::DW_TAG_inheritance ? "base" : d->isStaticMember() ? "static" : "field";
      O << "[" << q(k) << "," << q(d->getName()) << "," << q(diName(d->getBaseType())) << "," << d->getOffsetInBits() / 8 << "," << d->getSizeInBits() / 8 << "," << d->getLine() << "]";
    }
    O << "],\"fn\":["; f = true;
    if (cex) for (auto *e : c->getElements()) if (auto *s = dyn_cast_or_null<DISubprogram>(e)) {
      if (!f) O << ","; f = false;
      O << "[" << q(s->getName()) << "," << q(s->getLinkageName()) << "," << (s->getVirtuality() == dwarf::DW_VIRTUALITY_pure_virtual ? 2 : s->getVirtuality() ? 1 : 0) << "," << q(s->isPublic() ? "public" : s->isPrivate() ? "private" : s->isProtected() ? "protected" : "") << "," << (s->isDeleted() ? 1 : 0) << "," << (s->isArtificial() ? 1 : 0) << "," << s->getLine() << ",[";
      bool g = true; for (auto *e2 : s->getType()->getTypeArray()) { if (!g) O << ","; g = false; O << q(diName(e2)); } O << "]]";
    }
    O << "]}\n";
  }
}

static void dumpInit(const Constant *c, FDump &D, raw_ostream &O, int depth) {
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { O << "["; for (unsigned i = 0; i < ca->getNumOperands(); i++) { if (i) O << ","; dumpInit(ca->getOperand(i), D, O, depth + 1); } O << "]"; return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    if (cd->isString() || (cd->getElementByteSize() == 1 && cd->isCString())) { O << q("s:" + cd->getRawDataValues().str()); return; }
    O << "["; for (unsigned i = 0; i < cd->getNumElements(); i++) { if (i) O << ","; if (cd->getElementType()->isIntegerTy()) O << apStr(cd->getElementAsAPInt(i)); else O << "0"; } O << "]"; return; }
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) O << apStr(ci->getValue()); else O << q(apStr(ci->getValue())); return; }
  O << q(D.cst(c));
}

int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  gStem = argv[3];
  std::error_code ec; raw_fd_ostream O(argv[2], ec);
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  dumpTypes(*M, O);
  FDump D(*M, O);
  for (auto &F : *M) if (!F.isDeclaration()) { FunctionPassManager P; P.addPass(SROAPass(SROAOptions::PreserveCFG)); P.run(F, FAM); }
  for (auto &g : M->globals()) {
    StringRef n = g.getName();
    if (n.starts_with("llvm.") || !g.hasInitializer()) continue;
    O << "{\"k\":\"global\",\"n\":" << q(gname(g)) << ",\"d\":" << q(demangle(n)) << ",\"c\":" << (g.isConstant() ? 1 : 0) << ",\"ty\":" << q(tyStr(g.getValueType()));
    SmallVector<DIGlobalVariableExpression *, 1> gv; g.getDebugInfo(gv);
    if (!gv.empty()) { auto *v = gv[0]->getVariable(); O << ",\"dt\":" << q(diName(v->getType())) << ",\"sc\":" << q(diScope(v->getScope())) << ",\"l\":" << v->getLine() << ",\"f\":" << q(v->getFile() ? v->getFile()->getFilename() : ""); }
    SmallVector<MDNode *, 8> ts; g.getMetadata(LLVMContext::MD_type, ts);
    if (!ts.empty()) { O << ",\"types\":["; bool f = true; for (auto *t : ts) { auto *s = dyn_cast<MDString>(t->getOperand(1)); if (!s || s->getString().ends_with(".virtual")) continue; if (!f) O << ","; f = false; O << "[" << apStr(cast<ConstantInt>(cast<ConstantAsMetadata>(t->getOperand(0))->getValue())->getValue()) << "," << q(s->getString()) << "]"; } O << "]"; }
    if (g.hasInitializer()) { O << ",\"init\":"; dumpInit(g.getInitializer(), D, O, 0); }
    O << "}\n";
  }
  for (auto &F : *M) if (!F.isDeclaration()) D.func(F, FAM); else O << "{\"k\":\"decl\",\"n\":" << q(F.getName()) << ",\"d\":" << q(demangle(F.getName())) << ",\"nothrow\":" << (F.doesNotThrow() ? 1 : 0) << ",\"noret\":" << (F.doesNotReturn() ? 1 : 0) << "}\n";
  return 0;
}
