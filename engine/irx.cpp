// irx: normalises the LLVM IR of a driver translation unit and exports it as JSON.
//
//   irx IN.bc CONFIG OUT.json
//
// CONFIG lines:
//   opaque REGEX        demangled names never inlined (first matching rule wins)
//   inline REGEX        demangled names always inlined
//   pure REGEX          demangled names that only read memory through their arguments
//   exact FN ARG CLASS  in kept function FN, argument ARG points to an object whose dynamic type
//                       is exactly CLASS
//   keep REGEX          (mangled) functions to export; default ^drv_
//   nounroll            do not fully unroll loops
//   peel N              split the first N iterations off every loop left after full unrolling
//   onlyclass B C       every object reached through a B is a C (needs -fwhole-program-vtables type tests)
//   fresh               a driver starts in a new process: no function-local static is initialised yet (compile with -fno-threadsafe-statics)
//   split               access the fields of 64-bit pairs one by one
//   licm                hoist and promote memory out of loops before unrolling
//   peelany N           same, one iteration at a time for the first loop in execution order (partial evaluation of drivers with constant sizes)
//   peelcalls N         same, one iteration at a time and only for loops that hold unresolved virtual calls
//   replace FN REGEX    calls of functions with matching demangled names go to driver function FN
//
// Nothing is executed: the tool inlines, promotes memory to SSA, value-numbers, and dumps.
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/SCCIterator.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/Analysis/MemorySSA.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Support/JSON.h>
#include <llvm/Transforms/Utils/LoopPeel.h>
#include <llvm/Transforms/Utils/ValueMapper.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

#include "llvm/Support/CommandLine.h"
using namespace llvm;

struct Rule { int kind; std::string re; std::unique_ptr<Regex> rx; };
struct Exact { std::string fn; unsigned arg; std::string vt; };
static std::vector<Rule> inl_rules, pure_rules, argmem_rules, sink_rules;
static std::vector<Exact> exacts;
static std::string keep_re = "^drv_";
static bool unroll = true, keepassert = false, fresh = false;
static int peel = 0, peelcalls = 0, peelany = 0; static bool licm = false, split = false;
static std::vector<std::pair<std::string, std::string>> onlyclass;
static std::vector<std::pair<std::string, std::string>> replaces;

static std::string dem(StringRef n) { return demangle(n.str()); }

static std::string dumpTy(Type *t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str(); }

static bool isOpaque(const Function &F, const std::string &d) {
  for (auto &r : inl_rules) if (r.rx->match(d)) return r.kind == 0;
  return false;
}

// runs a function pipeline on the kept functions only, so that library bodies stay raw until inlined
static void runKept(Module &M, const std::string &p) {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager FPM;
  if (auto e = PB.parsePassPipeline(FPM, p)) { errs() << "bad pipeline: " << toString(std::move(e)) << "\n"; exit(3); }
  Regex keep(keep_re);
  for (auto &F : M) if (!F.isDeclaration() && keep.match(F.getName())) FPM.run(F, FAM);
}

static void runPipe(Module &M, const std::string &p) {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, p)) { errs() << "bad pipeline: " << toString(std::move(e)) << "\n"; exit(3); }
  MPM.run(M, MAM);
}

// splits one iteration off every outermost-first loop that holds an indirect call
static bool peelIndirect(Module &M, bool any = false) {
  runKept(M, "loop-simplify,lcssa");
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  Regex keep(keep_re); bool ch = false;
  for (auto &F : M) if (!F.isDeclaration() && keep.match(F.getName())) {
    auto &LI = FAM.getResult<LoopAnalysis>(F); auto &DT = FAM.getResult<DominatorTreeAnalysis>(F); auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F); auto &AC = FAM.getResult<AssumptionAnalysis>(F);
    Loop *pick = nullptr; ReversePostOrderTraversal<Function *> rpo(&F);
    for (auto *B : rpo) {
      Loop *L = LI.getLoopFor(B);
      if (!L || L->getHeader() != B || !canPeel(L)) continue;
      bool ind = any;
      for (auto *LB : L->blocks()) for (auto &I : *LB) if (auto *cb = dyn_cast<CallBase>(&I)) if (!cb->getCalledFunction() && !cb->isInlineAsm() && !isa<Function>(cb->getCalledOperand()->stripPointerCasts())) ind = true;
      if (ind) { pick = L; break; }
    }
    if (!pick) continue;
    ValueToValueMapTy VM;
    if (peelLoop(pick, 1, &LI, &SE, DT, &AC, true, VM)) ch = true;
  }
  return ch;
}

// loads of the vtable pointer of an object whose dynamic type is given
static bool applyExact(Module &M) {
  bool ch = false;
  auto &DL = M.getDataLayout();
  for (auto &e : exacts) {
    Function *F = M.getFunction(e.fn);
    if (!F || F->isDeclaration() || F->arg_size() <= e.arg) continue;
    GlobalVariable *VT = nullptr;
    for (auto &g : M.globals()) if (g.getName().starts_with("_ZTV") && dem(g.getName()) == "vtable for " + e.vt) VT = &g;
    if (!VT) { errs() << "irx: no vtable " << e.vt << "\n"; continue; }
    for (auto &I : instructions(*F)) {
      auto *L = dyn_cast<LoadInst>(&I);
      if (!L || !L->getType()->isPointerTy()) continue;
      APInt off(64, 0);
      Value *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
      if (b != F->getArg(e.arg)) continue;
      auto *cs = dyn_cast<ConstantStruct>(VT->getInitializer());
      if (!cs) continue;
      Constant *ap = nullptr; uint64_t base = 0;
      for (unsigned k = 0; k < cs->getNumOperands(); ++k) {
        auto *arr = dyn_cast<ConstantArray>(cs->getOperand(k));
        if (!arr) continue;
        int64_t top = 0; // offset-to-top of this sub-vtable
        if (auto *ce = dyn_cast<ConstantExpr>(arr->getOperand(0))) if (auto *ci = dyn_cast<ConstantInt>(ce->getOperand(0))) top = ci->getSExtValue();
        if (top == -off.getSExtValue())
          ap = ConstantExpr::getInBoundsGetElementPtr(Type::getInt8Ty(M.getContext()), VT, ConstantInt::get(Type::getInt64Ty(M.getContext()), base + 16));
        base += 8 * arr->getNumOperands();
      }
      if (!ap || L->use_empty()) continue;
      L->replaceAllUsesWith(ap);
      ch = true;
    }
  }
  // fold loads from constant vtables
  for (auto &F : M) for (auto &I : make_early_inc_range(instructions(F))) {
    auto *L = dyn_cast<LoadInst>(&I);
    if (!L || L->use_empty() || !isa<Constant>(L->getPointerOperand())) continue;
    if (Constant *c = ConstantFoldLoadFromConstPtr(cast<Constant>(L->getPointerOperand()), L->getType(), DL)) {
      L->replaceAllUsesWith(c); ch = true;
    }
  }
  return ch;
}

// a copy of neighbouring fields is done field by field
static void scalars(Type *t, uint64_t off, const DataLayout &DL, std::vector<std::pair<uint64_t, Type *>> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { if (st->isOpaque()) return; auto *sl = DL.getStructLayout(st); for (unsigned k = 0; k < st->getNumElements(); ++k) scalars(st->getElementType(k), off + sl->getElementOffset(k), DL, out); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { if (at->getNumElements() <= 16 && !at->getElementType()->isIntegerTy(8)) for (unsigned k = 0; k < at->getNumElements(); ++k) scalars(at->getElementType(), off + k * DL.getTypeAllocSize(at->getElementType()), DL, out); }
  else out.push_back({off, t});
}
static void splitCopies(Module &M) {
  auto &DL = M.getDataLayout();
  for (auto &F : M) for (auto &I : make_early_inc_range(instructions(F))) {
    auto *mc = dyn_cast<MemCpyInst>(&I);
    if (!mc || mc->isVolatile()) continue;
    auto *len = dyn_cast<ConstantInt>(mc->getLength());
    if (!len || len->getZExtValue() > 64) continue;
    uint64_t n = len->getZExtValue(); std::vector<std::pair<uint64_t, Type *>> sc;
    for (Value *v : {mc->getRawDest(), mc->getRawSource()}) {
      sc.clear();
      auto *g = dyn_cast<GEPOperator>(v);
      if (g && g->hasAllConstantIndices() && g->getNumIndices() > 1) {
        APInt off(64, 0); g->accumulateConstantOffset(DL, off); std::vector<std::pair<uint64_t, Type *>> all; scalars(g->getSourceElementType(), 0, DL, all); uint64_t o = off.getZExtValue();
        for (auto &e : all) if (e.first >= o && e.first < o + n) sc.push_back({e.first - o, e.second});
      } else if (auto *a = dyn_cast<AllocaInst>(v)) { scalars(a->getAllocatedType(), 0, DL, sc); while (!sc.empty() && sc.back().first >= n) sc.pop_back(); }
      bool okc = !sc.empty() && sc[0].first == 0; uint64_t end = 0;
      for (auto &e : sc) { uint64_t z = DL.getTypeStoreSize(e.second); if (e.first < end || e.first - end >= 8 || e.first + z > n) okc = false; end = e.first + z; }
      if (okc && n - end < 8) break;
      sc.clear();
    }
    if (sc.empty()) continue;
    IRBuilder<> B(mc); std::vector<Value *> vs; Type *I8 = B.getInt8Ty();
    for (auto &e : sc) vs.push_back(B.CreateAlignedLoad(e.second, B.CreateConstInBoundsGEP1_64(I8, mc->getRawSource(), e.first), Align(1)));
    for (unsigned k = 0; k < sc.size(); ++k) B.CreateAlignedStore(vs[k], B.CreateConstInBoundsGEP1_64(I8, mc->getRawDest(), sc[k].first), Align(1));
    mc->eraseFromParent();
  }
}

// pairs of 32-bit fields that are copied as one 64-bit word are accessed field by field again
// chains of constant address computations are shortened to one step from the object
static bool flattenGeps(Module &M) {
  auto &DL = M.getDataLayout(); Regex keep(keep_re); bool ch = false;
  for (auto &F : M) if (!F.isDeclaration() && keep.match(F.getName()))
    for (auto &B : F) for (auto &I : make_early_inc_range(B)) {
      auto *g = dyn_cast<GetElementPtrInst>(&I); if (!g || g->getType()->isVectorTy()) continue;
      auto *h = dyn_cast<GetElementPtrInst>(g->getPointerOperand()); if (!h) continue;
      APInt off(64, 0); if (!g->accumulateConstantOffset(DL, off) || !h->accumulateConstantOffset(DL, off)) continue;
      IRBuilder<> b(g); Value *v = h->getPointerOperand();
      if (!off.isZero()) { v = b.CreateInBoundsGEP(b.getInt8Ty(), v, b.getInt64(off.getSExtValue())); if (auto *ni = dyn_cast<GetElementPtrInst>(v)) ni->setIsInBounds(true); }
      g->replaceAllUsesWith(v); if (auto *vi = dyn_cast<Instruction>(v); vi && !off.isZero()) vi->takeName(g); g->eraseFromParent(); ch = true;
    }
  return ch;
}
static bool splitPacks(Module &M) {
  Regex keep(keep_re); bool ch = false; Type *I32 = Type::getInt32Ty(M.getContext()), *I64 = Type::getInt64Ty(M.getContext());
  for (auto &F : M) if (!F.isDeclaration() && keep.match(F.getName())) for (auto &I : make_early_inc_range(instructions(F))) {
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      if (L->getType() != I64 || L->isVolatile() || L->use_empty()) continue;
      bool halves = true, any = false;
      for (auto *u : L->users()) {
        auto *i = dyn_cast<Instruction>(u); bool ok = false;
        if (i && i->getOpcode() == Instruction::Trunc && i->getType() == I32) ok = any = true;
        if (i && i->getOpcode() == Instruction::LShr && i->getOperand(0) == L) if (auto *c = dyn_cast<ConstantInt>(i->getOperand(1))) ok = any = c->getZExtValue() == 32;
        if (!ok) halves = false;
      }
      if (!halves || !any) continue;
      IRBuilder<> B(L); Value *p = L->getPointerOperand();
      auto *lo = B.CreateAlignedLoad(I32, p, Align(4)); auto *hi = B.CreateAlignedLoad(I32, B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(M.getContext()), p, 4), Align(4));
      Value *h = B.CreateShl(B.CreateZExt(hi, I64), 32), *v = B.CreateOr(h, B.CreateZExt(lo, I64));
      for (auto *u : make_early_inc_range(L->users())) {
        auto *i = cast<Instruction>(u);
        if (i->getOpcode() == Instruction::Trunc) i->replaceAllUsesWith(lo);
      }
      L->replaceAllUsesWith(v); L->eraseFromParent(); ch = true;
    } else if (auto *S = dyn_cast<StoreInst>(&I)) {
      Value *v = S->getValueOperand(), *lo = nullptr, *hi = nullptr;
      if (v->getType() != I64 || S->isVolatile()) continue;
      IRBuilder<> B(S);
      if (auto *c = dyn_cast<ConstantInt>(v)) { if (S->getMetadata(LLVMContext::MD_tbaa) || !S->getDebugLoc()) continue; lo = ConstantInt::get(I32, c->getZExtValue() & 0xffffffffu); hi = ConstantInt::get(I32, c->getZExtValue() >> 32); if (!c->getZExtValue()) continue; }
      else if (auto *o = dyn_cast<BinaryOperator>(v)) {
        if (o->getOpcode() != Instruction::Or) continue;
        for (int k = 0; k < 2; ++k) {
          auto *z = dyn_cast<ZExtInst>(o->getOperand(k)); auto *sh = dyn_cast<BinaryOperator>(o->getOperand(1 - k));
          if (!z || !sh || z->getSrcTy() != I32 || sh->getOpcode() != Instruction::Shl) continue;
          auto *c = dyn_cast<ConstantInt>(sh->getOperand(1)); auto *z2 = dyn_cast<ZExtInst>(sh->getOperand(0));
          if (!c || c->getZExtValue() != 32 || !z2 || z2->getSrcTy() != I32) continue;
          lo = z->getOperand(0); hi = z2->getOperand(0);
        }
      }
      if (!lo) continue;
      Value *p = S->getPointerOperand();
      B.CreateAlignedStore(lo, p, Align(4)); B.CreateAlignedStore(hi, B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(M.getContext()), p, 4), Align(4));
      S->eraseFromParent(); ch = true;
    }
  }
  return ch;
}

// type tests name the static class of a virtual call; with onlyclass the callee's vtable is settled, then the tests go
static void applyOnlyClass(Module &M) {
  std::vector<CallInst *> tests;
  for (auto &F : M) if (F.getName() == "llvm.type.test" || F.getName() == "llvm.public.type.test") for (auto *u : F.users()) if (auto *ci = dyn_cast<CallInst>(u)) tests.push_back(ci);
  for (auto *ci : tests) {
    std::string cls;
    if (auto *mv = dyn_cast<MetadataAsValue>(ci->getArgOperand(1))) if (auto *ms = dyn_cast<MDString>(mv->getMetadata())) cls = dem(ms->getString());
    for (auto &oc : onlyclass) if (cls == "typeinfo name for " + oc.first) {
      GlobalVariable *VT = nullptr;
      for (auto &g : M.globals()) if (g.getName().starts_with("_ZTV") && dem(g.getName()) == "vtable for " + oc.second) VT = &g;
      auto *v = dyn_cast<LoadInst>(ci->getArgOperand(0));
      if (!VT || !v) { errs() << "irx: no vtable " << oc.second << "\n"; continue; }
      uint64_t ap = 16; SmallVector<MDNode *, 8> tys; VT->getMetadata(LLVMContext::MD_type, tys);
      for (auto *t : tys) if (auto *id = dyn_cast<MDString>(t->getOperand(1))) if (dem(id->getString()) == cls) { ap = cast<ConstantInt>(cast<ConstantAsMetadata>(t->getOperand(0))->getValue())->getZExtValue(); break; }
      v->replaceAllUsesWith(ConstantExpr::getInBoundsGetElementPtr(Type::getInt8Ty(M.getContext()), VT, ConstantInt::get(Type::getInt64Ty(M.getContext()), ap)));
    }
  }
  for (auto *ci : tests) {
    for (auto *u : make_early_inc_range(ci->users())) if (auto *as = dyn_cast<CallInst>(u)) if (as->getCalledFunction() && as->getCalledFunction()->getName() == "llvm.assume") as->eraseFromParent();
    ci->replaceAllUsesWith(ConstantInt::getTrue(M.getContext())); ci->eraseFromParent();
  }
}

static void setAttrs(Module &M) {
  // recursive functions are never inlined
  std::set<Function *> rec;
  { CallGraph CG(M);
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
      if (it.hasCycle()) for (auto *n : *it) if (n->getFunction()) rec.insert(n->getFunction()); }
  Regex keep(keep_re);
  for (auto &F : M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    std::string d = dem(F.getName());
    for (auto &r : pure_rules) if (r.rx->match(d)) {
      F.setMemoryEffects(MemoryEffects::argMemOnly(ModRefInfo::Ref));
      F.addFnAttr(Attribute::NoUnwind); F.addFnAttr(Attribute::WillReturn);
    }
    for (auto &r : sink_rules) if (r.rx->match(d)) { F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F.addFnAttr(Attribute::NoUnwind); F.addFnAttr(Attribute::WillReturn); }
    for (auto &r : argmem_rules) if (r.rx->match(d) && !F.onlyReadsMemory()) F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly());
    if (F.isDeclaration()) continue;
    if (keep.match(F.getName())) for (auto &a : F.args()) if (a.getType()->isPointerTy() && !a.hasNoAliasAttr()) a.addAttr(Attribute::NoAlias);
    bool op = isOpaque(F, d) || rec.count(&F) || keep.match(F.getName());
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline);
    F.removeFnAttr(Attribute::InlineHint);
    F.addFnAttr(op ? Attribute::NoInline : Attribute::AlwaysInline);
    if (!op) F.addFnAttr(Attribute::NoUnwind);
    if (F.hasComdat() || F.hasLinkOnceLinkage() || F.hasWeakLinkage()) { F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); }
  }
}

struct Exporter {
  Module &M; json::Array funcs; json::Object types; json::Object globals; json::Object decls;
  std::map<const MDNode *, std::string> tyid; std::vector<const DIType *> work; int nty = 0;
  Exporter(Module &m) : M(m) {}

  const DIType *strip(const DIType *t) {
    while (t) {
      auto *d = dyn_cast<DIDerivedType>(t);
      if (!d) break;
      switch (d->getTag()) {
      case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type:
        t = d->getBaseType(); continue;
      default: return t;
      }
    }
    return t;
  }
  std::string scopeName(const DIScope *s) {
    if (!s) return "";
    std::string p;
    if (auto *ns = dyn_cast<DINamespace>(s)) { p = scopeName(ns->getScope()); return p.empty() ? ns->getName().str() : p + "::" + ns->getName().str(); }
    if (auto *t = dyn_cast<DICompositeType>(s)) { p = scopeName(t->getScope()); return p.empty() ? t->getName().str() : p + "::" + t->getName().str(); }
    if (auto *sp = dyn_cast<DISubprogram>(s)) return sp->getName().str() + "()";
    return "";
  }
  std::map<std::string, const DICompositeType *> full;   // identifier -> definition
  const DICompositeType *resolve(const DICompositeType *c) {
    if (c->isForwardDecl() && !c->getIdentifier().empty()) { auto it = full.find(c->getIdentifier().str()); if (it != full.end()) return it->second; }
    return c;
  }
  json::Value tref(const DIType *t, int depth = 0) {
    t = strip(t);
    if (!t || depth > 6) return "void";
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      auto g = d->getTag();
      if (g == dwarf::DW_TAG_pointer_type || g == dwarf::DW_TAG_reference_type || g == dwarf::DW_TAG_rvalue_reference_type) {
        // record constness of the pointee
        bool cst = false; const DIType *q = d->getBaseType();
        while (q && isa<DIDerivedType>(q)) { auto *qd = cast<DIDerivedType>(q); if (qd->getTag() == dwarf::DW_TAG_const_type) { cst = true; q = qd->getBaseType(); } else if (qd->getTag() == dwarf::DW_TAG_typedef) q = qd->getBaseType(); else break; }
        return json::Object{{"ptr", tref(d->getBaseType(), depth + 1)}, {"const", cst}};
      }
      return json::Object{{"other", (int)g}};
    }
    if (auto *b = dyn_cast<DIBasicType>(t)) return json::Object{{"basic", b->getName().str()}, {"size", (int64_t)b->getSizeInBits() / 8}};
    if (auto *c0 = dyn_cast<DICompositeType>(t)) {
      auto *c = resolve(c0);
      auto it = tyid.find(c);
      if (it == tyid.end()) { it = tyid.emplace(c, "T" + std::to_string(nty++)).first; work.push_back(c); }
      return json::Object{{"t", it->second}};
    }
    return "void";
  }
  void drainTypes() {
    while (!work.empty()) {
      auto *c = cast<DICompositeType>(work.back()); work.pop_back();
      json::Object o;
      std::string nm = scopeName(c);
      o["name"] = nm; o["size"] = (int64_t)c->getSizeInBits() / 8; o["tag"] = (int)c->getTag(); o["decl"] = c->isForwardDecl();
      o["id"] = c->getIdentifier().str();
      json::Array mem, bases, enums;
      if (c->getTag() == dwarf::DW_TAG_array_type) o["elem"] = tref(c->getBaseType());
      for (auto *e : c->getElements()) {
        if (auto *d = dyn_cast_or_null<DIDerivedType>(e)) {
          if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
            mem.push_back(json::Object{{"n", d->getName().str()}, {"off", (int64_t)d->getOffsetInBits() / 8}, {"size", (int64_t)(d->getBaseType() ? d->getSizeInBits() / 8 : 0)}, {"ty", tref(d->getBaseType())}});
          else if (d->getTag() == dwarf::DW_TAG_inheritance)
            bases.push_back(json::Object{{"off", (int64_t)d->getOffsetInBits() / 8}, {"ty", tref(d->getBaseType())}, {"virt", d->isVirtual()}});
        } else if (auto *en = dyn_cast_or_null<DIEnumerator>(e)) enums.push_back(json::Object{{"n", en->getName().str()}, {"v", en->getValue().getSExtValue()}});
      }
      o["members"] = std::move(mem); o["bases"] = std::move(bases); o["enums"] = std::move(enums);
      types[tyid[c]] = std::move(o);
    }
  }
  json::Array sig(const DISubprogram *sp) {
    json::Array a;
    if (sp && sp->getType()) for (auto *t : sp->getType()->getTypeArray()) a.push_back(tref(t));
    return a;
  }

  std::map<const Value *, std::string> names; int nv = 0;
  json::Value cst(const Constant *c) {
    json::Object o;
    if (auto *i = dyn_cast<ConstantInt>(c)) {
      o["k"] = "int"; o["w"] = (int)i->getBitWidth();
      SmallString<32> s; i->getValue().toString(s, 10, i->getBitWidth() != 1); o["v"] = s.str().str(); return o; }
    if (auto *f = dyn_cast<ConstantFP>(c)) {
      o["k"] = "fp";
      if (f->isNaN()) { o["v"] = "nan"; return o; }
      if (f->isInfinity()) { o["v"] = f->isNegative() ? "-inf" : "inf"; return o; }
      APFloat a = f->getValueAPF(); bool li; a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
      char b[64]; snprintf(b, 64, "%a", a.convertToDouble()); o["v"] = std::string(b); return o; }
    if (isa<ConstantPointerNull>(c)) { o["k"] = "null"; return o; }
    if (auto *f = dyn_cast<Function>(c)) { o["k"] = "fn"; o["v"] = f->getName().str(); o["d"] = dem(f->getName()); return o; }
    if (auto *g = dyn_cast<GlobalVariable>(c)) { noteGlobal(g); o["k"] = "global"; o["v"] = g->getName().str(); return o; }
    if (isa<PoisonValue>(c) || isa<UndefValue>(c)) { o["k"] = "undef"; return o; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      APInt off(64, 0);
      auto *b = ce->stripAndAccumulateConstantOffsets(M.getDataLayout(), off, true);
      if (b != ce && isa<Constant>(b)) { o["k"] = "gaddr"; o["base"] = cst(cast<Constant>(b)); o["off"] = off.getSExtValue(); return o; }
    }
    if (c->isNullValue()) { o["k"] = "zero"; o["ty"] = dumpTy(c->getType()); return o; }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
      o["k"] = "agg"; json::Array a; for (auto &u : ca->operands()) a.push_back(cst(cast<Constant>(u))); o["e"] = std::move(a); return o; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
      if (cd->isString() || cd->getElementByteSize() == 1) { o["k"] = "str"; o["v"] = cd->getRawDataValues().str(); 
        for (char ch : cd->getRawDataValues()) if ((unsigned char)ch >= 128) { o["v"] = "<bin>"; break; } return o; }
      o["k"] = "agg"; json::Array a; for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(cst(cd->getElementAsConstant(i))); o["e"] = std::move(a); return o; }
    o["k"] = "const"; std::string s; raw_string_ostream os(s); c->print(os); o["v"] = os.str(); return o;
  }
  std::set<const GlobalVariable *> gseen;
  void noteGlobal(const GlobalVariable *g) {
    if (!gseen.insert(g).second) return;
    json::Object o; o["d"] = dem(g->getName()); o["const"] = g->isConstant(); o["decl"] = g->isDeclaration();
    if (g->hasInitializer()) o["init"] = cst(g->getInitializer());
    SmallVector<DIGlobalVariableExpression *, 2> gv; g->getDebugInfo(gv);
    if (!gv.empty()) { auto *v = gv[0]->getVariable(); o["ty"] = tref(v->getType()); o["line"] = (int)v->getLine(); o["file"] = v->getFile() ? v->getFile()->getFilename().str() : ""; o["scope"] = scopeName(v->getScope()); o["name"] = v->getName().str(); }
    globals[g->getName().str()] = std::move(o);
  }
  json::Value opnd(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return cst(c);
    if (isa<MetadataAsValue>(v)) {
      auto *md = cast<MetadataAsValue>(v)->getMetadata();
      if (auto *s = dyn_cast<MDString>(md)) return json::Object{{"k", "md"}, {"v", s->getString().str()}};
      return json::Object{{"k", "md"}, {"v", ""}};
    }
    auto it = names.find(v);
    if (it == names.end()) { if (isa<BasicBlock>(v)) return "bb"; if (isa<InlineAsm>(v)) return json::Object{{"k", "asm"}}; return json::Object{{"k", "?"}}; }
    return it->second;
  }
  json::Value loc(const DILocation *l) {
    json::Array a;
    while (l) {
      auto *sp = l->getScope()->getSubprogram();
      a.push_back(json::Array{l->getFilename().str(), (int)l->getLine(), sp ? (sp->getLinkageName().empty() ? sp->getName().str() : dem(sp->getLinkageName())) : ""});
      l = l->getInlinedAt();
    }
    return a;
  }
  void declInfo(const Function *f) {
    if (decls.find(f->getName()) != decls.end()) return;
    json::Object o; o["d"] = dem(f->getName()); o["decl"] = f->isDeclaration();
    o["ro"] = f->onlyReadsMemory(); o["rn"] = f->doesNotAccessMemory(); o["noret"] = f->doesNotReturn();
    if (auto *sp = f->getSubprogram()) { o["sig"] = sig(sp); o["file"] = sp->getFilename().str(); o["line"] = (int)sp->getLine(); }
    o["sret"] = f->hasStructRetAttr();
    decls[f->getName().str()] = std::move(o);
  }
  void fn(Function &F, FunctionAnalysisManager &FAM) {
    names.clear(); nv = 0;
    json::Object fo; fo["name"] = F.getName().str(); fo["d"] = dem(F.getName());
    if (auto *sp = F.getSubprogram()) { fo["sig"] = sig(sp); fo["file"] = sp->getFilename().str(); fo["line"] = (int)sp->getLine(); }
    fo["sret"] = F.hasStructRetAttr();
    json::Array args;
    for (auto &a : F.args()) { std::string n = "a" + std::to_string(a.getArgNo()); names[&a] = n; args.push_back(json::Object{{"n", n}, {"ty", dumpTy(a.getType())}, {"name", a.getName().str()}}); }
    fo["args"] = std::move(args);
    std::map<const BasicBlock *, int> bid; int nb = 0;
    for (auto &B : F) { bid[&B] = nb++; for (auto &I : B) if (!I.getType()->isVoidTy()) names[&I] = "v" + std::to_string(nv++); }
    auto &MSSA = FAM.getResult<MemorySSAAnalysis>(F).getMSSA();
    auto *walker = MSSA.getWalker();
    std::map<const MemoryAccess *, int> mid; int nm = 1;
    auto memid = [&](const MemoryAccess *m) -> int { if (MSSA.isLiveOnEntryDef(m)) return 0; auto it = mid.find(m); if (it == mid.end()) it = mid.emplace(m, nm++).first; return it->second; };
    auto &DL = M.getDataLayout();
    json::Array blocks;
    for (auto &B : F) {
      json::Object bo; json::Array ins, succ, preds;
      for (auto *s : successors(&B)) succ.push_back(bid[s]);
      for (auto *p : predecessors(&B)) preds.push_back(bid[p]);
      if (auto *mp = MSSA.getMemoryAccess(&B)) bo["memphi"] = memid(mp);
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl) continue; }
        json::Object o; o["op"] = I.getOpcodeName();
        if (names.count(&I)) o["n"] = names[&I];
        o["ty"] = dumpTy(I.getType());
        if (auto *l = I.getDebugLoc().get()) o["loc"] = loc(l);
        json::Array ops;
        if (auto *cb = dyn_cast<CallBase>(&I)) {
          for (auto &u : cb->args()) ops.push_back(opnd(u));
          Value *cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto *cf = dyn_cast<Function>(cv)) { o["callee"] = cf->getName().str(); declInfo(cf); }
          else o["target"] = opnd(cv);
          o["ro"] = cb->onlyReadsMemory(); o["rn"] = cb->doesNotAccessMemory(); o["noret"] = cb->doesNotReturn();
          json::Array rp; for (unsigned i = 0; i < cb->arg_size(); ++i) if (cb->onlyReadsMemory(i)) rp.push_back((int)i);
          o["roargs"] = std::move(rp);
        } else if (auto *ph = dyn_cast<PHINode>(&I)) {
          json::Array inc; for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) { ops.push_back(opnd(ph->getIncomingValue(i))); inc.push_back(bid[ph->getIncomingBlock(i)]); }
          o["inc"] = std::move(inc);
        } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          ops.push_back(opnd(g->getPointerOperand()));
          MapVector<Value *, APInt> vo; APInt co(64, 0);
          if (g->collectOffset(DL, 64, vo, co)) {
            o["coff"] = co.getSExtValue(); json::Array va;
            for (auto &p : vo) va.push_back(json::Array{opnd(p.first), p.second.getSExtValue()});
            o["voff"] = std::move(va);
          } else o["badgep"] = true;
          o["sty"] = dumpTy(g->getSourceElementType());
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) ops.push_back(opnd(br->getCondition()));
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(opnd(sw->getCondition())); json::Array cs;
          for (auto &c : sw->cases()) cs.push_back(json::Array{opnd(c.getCaseValue()), bid[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs); o["dflt"] = bid[sw->getDefaultDest()];
        } else {
          for (auto &u : I.operands()) ops.push_back(opnd(u));
          if (auto *c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
          if (auto *e = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : e->indices()) ix.push_back((int)i); o["idx"] = std::move(ix); }
          if (auto *e = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : e->indices()) ix.push_back((int)i); o["idx"] = std::move(ix); }
          if (auto *a = dyn_cast<AllocaInst>(&I)) { o["aty"] = dumpTy(a->getAllocatedType()); o["asz"] = (int64_t)DL.getTypeAllocSize(a->getAllocatedType()); 
            o["var"] = a->getName().str(); }
          if (auto *s = dyn_cast<StoreInst>(&I)) { o["sz"] = (int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType()); o["vty"] = dumpTy(s->getValueOperand()->getType()); }
          if (isa<LoadInst>(&I)) o["sz"] = (int64_t)DL.getTypeStoreSize(I.getType());
        }
        o["ops"] = std::move(ops);
        if (auto *ma = MSSA.getMemoryAccess(&I)) {
          if (isa<MemoryDef>(ma)) o["mdef"] = memid(ma);
          if (isa<MemoryUse>(ma)) o["mclob"] = memid(walker->getClobberingMemoryAccess(&I));
        }
        ins.push_back(std::move(o));
      }
      bo["id"] = bid[&B]; bo["ins"] = std::move(ins); bo["succ"] = std::move(succ); bo["preds"] = std::move(preds);
      blocks.push_back(std::move(bo));
    }
    json::Object chain;
    for (auto &B : F) if (auto *al = MSSA.getBlockAccesses(&B)) for (auto &ma : *al) {
      if (auto *md = dyn_cast<MemoryDef>(&ma)) chain[std::to_string(memid(md))] = memid(md->getDefiningAccess());
      else if (auto *mp = dyn_cast<MemoryPhi>(&ma)) { json::Array a; for (unsigned i = 0; i < mp->getNumIncomingValues(); ++i) a.push_back(json::Array{memid(mp->getIncomingValue(i)), bid[mp->getIncomingBlock(i)]}); chain[std::to_string(memid(mp))] = std::move(a); }
    }
    fo["mchain"] = std::move(chain);
    fo["blocks"] = std::move(blocks);
    funcs.push_back(std::move(fo));
  }
};

// a function-local static that nothing in the program writes keeps its initial value
static bool onlyRead(Value *v, unsigned d = 0) {
  if (d > 6) return false;
  for (auto *u : v->users()) {
    if (auto *l = dyn_cast<LoadInst>(u)) { if (l->isVolatile()) return false; continue; }
    if (isa<GetElementPtrInst>(u)) { if (!onlyRead(u, d + 1)) return false; continue; }
    if (auto *ce = dyn_cast<ConstantExpr>(u)) { if (ce->getOpcode() != Instruction::GetElementPtr || !onlyRead(ce, d + 1)) return false; continue; }
    if (auto *mt = dyn_cast<MemTransferInst>(u)) { if (mt->getRawSource() == v && mt->getRawDest() != v) continue; return false; }
    if (auto *ii = dyn_cast<IntrinsicInst>(u)) if (ii->isLifetimeStartOrEnd()) continue;
    return false;
  }
  return true;
}
static void readOnlyStatics(Module &M) {
  for (auto &g : M.globals()) if (!g.isConstant() && g.hasInitializer() && !g.isThreadLocal() && g.getName().starts_with("_ZZ") && onlyRead(&g)) g.setConstant(true);
}
int main(int argc, char **argv) {
  if (argc < 4) return 3;
  std::ifstream cf(argv[2]); std::string line;
  bool dump = false;
  std::set<std::string> alltypes; bool wantTypes = false, vtables = false;
  while (std::getline(cf, line)) {
    std::istringstream is(line); std::string k; is >> k; std::string rest; std::getline(is, rest);
    while (!rest.empty() && rest[0] == ' ') rest.erase(0, 1);
    if (k == "opaque") inl_rules.push_back({0, rest, std::make_unique<Regex>(rest)});
    else if (k == "inline") inl_rules.push_back({1, rest, std::make_unique<Regex>(rest)});
    else if (k == "pure") pure_rules.push_back({2, rest, std::make_unique<Regex>(rest)});
    else if (k == "argmem") argmem_rules.push_back({3, rest, std::make_unique<Regex>(rest)});
    else if (k == "sink") sink_rules.push_back({4, rest, std::make_unique<Regex>(rest)});
    else if (k == "keep") keep_re = rest;
    else if (k == "licm") licm = true;
    else if (k == "split") split = true;
    else if (k == "peel") peel = atoi(rest.c_str());
    else if (k == "peelany") peelany = atoi(rest.c_str());
    else if (k == "peelcalls") peelcalls = atoi(rest.c_str());
    else if (k == "replace") { auto sp = rest.find(' '); replaces.push_back({rest.substr(0, sp), rest.substr(sp + 1)}); }
    else if (k == "nounroll") unroll = false;
    else if (k == "keepassert") keepassert = true;
    else if (k == "fresh") fresh = true;
    else if (k == "dump") dump = true;
    else if (k == "vtables") vtables = true;
    else if (k == "onlyclass") { std::istringstream r(rest); std::string a, b; r >> a >> b; onlyclass.push_back({a, b}); }
    else if (k == "exact") { std::istringstream r(rest); Exact e; r >> e.fn >> e.arg; std::getline(r, e.vt); while (!e.vt.empty() && e.vt[0] == ' ') e.vt.erase(0, 1); exacts.push_back(e); }
  }
  for (auto &r : inl_rules) { std::string er; if (!r.rx->isValid(er)) { errs() << "bad regex " << r.re << ": " << er << "\n"; return 3; } }
  for (auto &r : sink_rules) { std::string er; if (!r.rx->isValid(er)) { errs() << "bad regex " << r.re << ": " << er << "\n"; return 3; } }
  for (auto &r : pure_rules) { std::string er; if (!r.rx->isValid(er)) { errs() << "bad regex " << r.re << ": " << er << "\n"; return 3; } }
  { const char *av[] = {"irx", "-unroll-threshold=40000", "-unroll-full-max-count=64", "-unroll-max-iteration-count-to-analyze=0", "-memssa-check-limit=10000", "-memdep-block-scan-limit=5000", "-memdep-block-number-limit=3000", "-earlycse-mssa-optimization-cap=100000", "-gvn-max-num-deps=1000", "-gvn-max-block-speculations=3000"}; cl::ParseCommandLineOptions(10, av); }
  if (peel) { std::string pc = "-unroll-force-peel-count=" + std::to_string(peel); const char *av[] = {"irx", pc.c_str()}; cl::ParseCommandLineOptions(2, av); }
  LLVMContext C; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, C);
  if (!M) { err.print("irx", errs()); return 3; }
  for (auto &a : make_early_inc_range(M->aliases())) if (auto *f = dyn_cast<Function>(a.getAliasee()->stripPointerCasts())) { a.replaceAllUsesWith(f); }
  for (auto &r : replaces) {
    Function *G = M->getFunction(r.first); Regex rx(r.second);
    if (!G) { errs() << "irx: no replacement function " << r.first << "\n"; continue; }
    for (auto &F : *M) if (&F != G && F.getFunctionType() == G->getFunctionType() && rx.match(dem(F.getName()))) F.replaceAllUsesWith(G);
  }
  if (!keepassert) for (auto &F : *M) if (F.getName() == "__assert_fail") for (auto *u : make_early_inc_range(F.users())) if (auto *ci = dyn_cast<CallInst>(u)) ci->eraseFromParent();
  if (fresh) { Regex keep(keep_re);
    for (auto &F : *M) if (!F.isDeclaration() && keep.match(F.getName()))
      for (auto &g : M->globals()) if (g.getName().starts_with("_ZGV") && g.hasInitializer()) { IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt()); B.CreateStore(g.getInitializer(), &g); } }
  applyOnlyClass(*M);
  setAttrs(*M);
  readOnlyStatics(*M);
  const std::string fcl = "simplifycfg,sroa<modify-cfg>,early-cse<memssa>,instsimplify,simplifycfg,gvn<no-pre;no-load-pre>,instsimplify,simplifycfg";
  runPipe(*M, "function(lowerinvoke),cgscc(function-attrs)");
  setAttrs(*M);
  auto settle = [&](int n) {
    Regex keep(keep_re); size_t last = 0;
    for (int r = 0, idle = 0; r < n && idle < (peelany ? 1 : 2); ++r) {
      runPipe(*M, "always-inline");
      runKept(*M, fcl);
      if (getenv("IRXV")) errs() << "  round " << r << " t " << clock() / 1000000.0 << "\n";
      bool ch = applyExact(*M);
      if (peelany) flattenGeps(*M);
      if (split && splitPacks(*M)) ch = true;
      size_t sz = 0;
      for (auto &F : *M) if (!F.isDeclaration() && keep.match(F.getName())) for (auto &I : instructions(F)) { ++sz; if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *cf = cb->getCalledFunction()) if (cf->hasFnAttribute(Attribute::AlwaysInline) && !cf->isDeclaration()) sz += 1000; }
      if (ch || sz != last) idle = 0; else ++idle;
      last = sz;
    }
  };
  if (split) splitCopies(*M);
  settle(40);
  readOnlyStatics(*M);
  auto csize = [&] { Regex keep(keep_re); size_t n = 0; for (auto &F : *M) if (!F.isDeclaration() && keep.match(F.getName())) for (auto &I : instructions(F)) { (void)I; ++n; } return n; };
  if (unroll) {
  const std::string ul = std::string("loop-simplify,lcssa,") + (licm ? "loop-mssa(licm<allowspeculation>)," : "") + "loop(loop-rotate<no-header-duplication>),loop-unroll<full-unroll-max=32;no-partial;no-runtime;no-upperbound;no-peeling;O3>,sroa<modify-cfg>,instsimplify,simplifycfg,gvn<no-pre;no-load-pre>,instsimplify,simplifycfg";
  for (int r = 0; r < 24; ++r) { size_t a = csize(); if (getenv("IRXV")) errs() << " unroll " << a << " t " << clock() / 1000000.0 << "\n"; runKept(*M, ul); settle(24); if (csize() == a) break; }
  for (int q = 0; q < peelcalls && peelIndirect(*M); ++q) {
    runKept(*M, "sroa<modify-cfg>,instsimplify,simplifycfg,gvn<no-pre;no-load-pre>,instsimplify,simplifycfg"); settle(24);
    for (int r = 0; r < 24; ++r) { size_t a = csize(); runKept(*M, ul); settle(24); if (csize() == a) break; }
  }
  for (int q = 0; q < peelany && peelIndirect(*M, true); ++q) {
    if (getenv("IRXV")) errs() << "peel " << q << " size " << csize() << " t " << clock() / 1000000.0 << "\n";
    settle(24);
    for (int r = 0; r < 24; ++r) { size_t a = csize(); runKept(*M, ul); if (csize() == a) break; settle(24); }
  }
  if (peel) {
    runKept(*M, "loop-simplify,lcssa,loop(loop-rotate<no-header-duplication>),loop-unroll<no-partial;peeling;no-runtime;no-upperbound;O3>,sroa<modify-cfg>,instsimplify,simplifycfg,gvn<no-pre;no-load-pre>,instsimplify,simplifycfg");
    settle(24);
    for (int r = 0; r < 24; ++r) { size_t a = csize(); runKept(*M, ul); settle(24); if (csize() == a) break; }
  }
  runKept(*M, fcl + ",adce");
  }
  if (dump) { std::error_code ec; raw_fd_ostream o(std::string(argv[3]) + ".ll", ec); M->print(o, nullptr); }
  Exporter X(*M);
  { DebugInfoFinder f; f.processModule(*M);
    for (auto *t : f.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (!c->isForwardDecl() && !c->getIdentifier().empty()) X.full[c->getIdentifier().str()] = c; 
    for (auto &kv : X.full) X.tref(kv.second); }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  Regex keep(keep_re);
  for (auto &F : *M) if (!F.isDeclaration() && keep.match(F.getName())) X.fn(F, FAM);
  json::Object vts;
  for (auto &g : M->globals()) if (g.getName().starts_with("_ZTV") && g.hasInitializer()) {
    json::Array outer;
    if (auto *cs = dyn_cast<ConstantStruct>(g.getInitializer()))
      for (auto &u : cs->operands()) { json::Array a; if (auto *ca = dyn_cast<ConstantArray>(u)) for (auto &e : ca->operands()) { auto *s = cast<Constant>(e)->stripPointerCasts(); if (auto *f = dyn_cast<Function>(s)) a.push_back(json::Array{f->getName().str(), dem(f->getName())}); else a.push_back(nullptr); } outer.push_back(std::move(a)); }
    SmallVector<MDNode *, 4> mds; g.getMetadata(LLVMContext::MD_type, mds);
    json::Array tm; for (auto *m : mds) { int64_t off = 0; if (auto *c = mdconst::dyn_extract<ConstantInt>(m->getOperand(0))) off = c->getSExtValue(); if (auto *s = dyn_cast<MDString>(m->getOperand(1))) tm.push_back(json::Array{s->getString().str(), off}); }
    vts[g.getName().str()] = json::Object{{"d", dem(g.getName())}, {"slots", std::move(outer)}, {"types", std::move(tm)}};
  }
  // every remaining global (for mutable-global / function-local static rules)
  for (auto &g : M->globals()) if (!g.getName().starts_with("_ZTV") && !g.getName().starts_with("_ZTI") && !g.getName().starts_with("_ZTS") && !g.getName().starts_with(".str")) X.noteGlobal(&g);
  X.drainTypes();
  json::Object root; root["functions"] = std::move(X.funcs); root["types"] = std::move(X.types); root["globals"] = std::move(X.globals); root["decls"] = std::move(X.decls); root["vtables"] = std::move(vts);
  std::error_code ec; raw_fd_ostream os(argv[3], ec);
  os << json::Value(std::move(root)) << "\n";
  return 0;
}
