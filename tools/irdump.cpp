// irdump: emits the optimised LLVM IR of one translation unit as JSON
// (functions, basic blocks, instructions, resolved constant offsets, source
// locations) for the analyses in /verif/lib.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> ids;

static std::string tyStr(Type *t) {
  std::string s; raw_string_ostream os(s);
  if (auto *st = dyn_cast<StructType>(t)) {
    os << "{";
    bool first = true;
    for (auto *e : st->elements()) { if (!first) os << ","; first = false; os << tyStr(e); }
    os << "}";
    return os.str();
  }
  t->print(os, false, true); return os.str();
}

static json::Value constVal(const Constant *c);

static json::Value operand(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
  if (isa<MetadataAsValue>(v)) return json::Object{{"k", "md"}};
  if (isa<InlineAsm>(v)) return json::Object{{"k", "asm"}};
  auto it = ids.find(v);
  return json::Object{{"k", "v"}, {"i", it == ids.end() ? -1 : it->second}};
}

static json::Value constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64)
      return json::Object{{"k", "i"}, {"w", (int)ci->getBitWidth()}, {"n", (int64_t)ci->getSExtValue()}};
    SmallString<40> s; ci->getValue().toStringSigned(s);
    return json::Object{{"k", "ibig"}, {"w", (int)ci->getBitWidth()}, {"n", std::string(s.str())}};
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APFloat f = cf->getValueAPF(); bool li;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    char buf[40]; snprintf(buf, sizeof buf, "%.17g", f.convertToDouble());
    return json::Object{{"k", "f"}, {"n", std::string(buf)}, {"t", tyStr(c->getType())}};
  }
  if (isa<PoisonValue>(c) || isa<UndefValue>(c)) return json::Object{{"k", "undef"}, {"t", tyStr(c->getType())}};
  if (isa<ConstantPointerNull>(c)) return json::Object{{"k", "null"}};
  if (auto *gv = dyn_cast<GlobalValue>(c)) return json::Object{{"k", "g"}, {"n", gv->getName().str()}};
  if (isa<ConstantAggregateZero>(c)) return json::Object{{"k", "zero"}, {"t", tyStr(c->getType())}, {"s", (int64_t)DL->getTypeStoreSize(c->getType())}};
  if (auto *ca = dyn_cast<ConstantDataSequential>(c)) {
    json::Array a; for (unsigned i = 0; i < ca->getNumElements(); ++i) a.push_back(constVal(ca->getElementAsConstant(i)));
    return json::Object{{"k", "agg"}, {"e", std::move(a)}, {"es", (int64_t)ca->getElementByteSize()}, {"t", tyStr(c->getType())}};
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    json::Array a; json::Array offs;
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
      a.push_back(constVal(cast<Constant>(ca->getOperand(i))));
      int64_t off = 0;
      if (auto *st = dyn_cast<StructType>(ca->getType())) off = DL->getStructLayout(st)->getElementOffset(i);
      else off = i * (int64_t)DL->getTypeAllocSize(ca->getOperand(i)->getType());
      offs.push_back(off);
    }
    return json::Object{{"k", "aggo"}, {"e", std::move(a)}, {"o", std::move(offs)}, {"t", tyStr(c->getType())}};
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off))
        return json::Object{{"k", "cgep"}, {"b", operand(gep->getPointerOperand())}, {"o", (int64_t)off.getSExtValue()}};
    }
    json::Array a; for (auto &o : ce->operands()) a.push_back(operand(o));
    return json::Object{{"k", "ce"}, {"op", ce->getOpcodeName()}, {"a", std::move(a)}, {"t", tyStr(c->getType())}};
  }
  return json::Object{{"k", "other"}, {"t", tyStr(c->getType())}};
}

static json::Value loc(const Instruction &I) {
  const DILocation *d = I.getDebugLoc();
  json::Array a;
  for (int n = 0; d && n < 24; d = d->getInlinedAt(), ++n) {
    std::string fn = d->getScope()->getSubprogram() ? d->getScope()->getSubprogram()->getName().str() : "";
    a.push_back(json::Array{d->getFilename().str(), (int64_t)d->getLine(), fn});
  }
  return a;
}

int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  json::OStream J(outs());
  J.objectBegin();
  J.attributeBegin("globals"); J.objectBegin();
  for (auto &g : M->globals()) {
    J.attributeBegin(g.getName());
    json::Object o{{"size", (int64_t)(g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0)}, {"const", g.isConstant()}};
    if (g.hasInitializer() && g.getName() != "llvm.global_ctors") o["init"] = constVal(g.getInitializer());
    J.value(std::move(o));
    J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  J.attributeBegin("functions"); J.objectBegin();
  for (auto &F : *M) {
    J.attributeBegin(F.getName()); J.objectBegin();
    J.attribute("dem", demangle(F.getName().str()));
    J.attribute("decl", F.isDeclaration());
    J.attribute("ret", tyStr(F.getReturnType()));
    J.attribute("noreturn", F.doesNotReturn());
    if (auto *sp = F.getSubprogram()) { J.attribute("file", sp->getFilename().str()); J.attribute("line", (int64_t)sp->getLine()); }
    if (!F.isDeclaration()) {
      ids.clear(); int n = 0;
      for (auto &A : F.args()) ids[&A] = n++;
      std::map<const BasicBlock *, int> bb; int nb = 0;
      for (auto &B : F) { bb[&B] = nb++; for (auto &I : B) ids[&I] = n++; }
      J.attribute("nargs", (int64_t)F.arg_size());
      J.attributeBegin("argt"); J.arrayBegin(); for (auto &A : F.args()) J.value(tyStr(A.getType())); J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("argattr"); J.arrayBegin();
      for (auto &A : F.args()) { std::string s; if (A.hasStructRetAttr()) s = "sret"; else if (A.hasByValAttr()) s = "byval"; J.value(s); }
      J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("blocks"); J.arrayBegin();
      for (auto &B : F) {
        J.arrayBegin();
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          json::Object o{{"i", ids[&I]}, {"op", I.getOpcodeName()}};
          if (!I.getType()->isVoidTy()) { o["t"] = tyStr(I.getType()); if (I.getType()->isSized()) o["ts"] = (int64_t)DL->getTypeStoreSize(I.getType()).getFixedValue(); }
          json::Array a;
          if (auto *p = dyn_cast<PHINode>(&I)) {
            for (unsigned k = 0; k < p->getNumIncomingValues(); ++k)
              a.push_back(json::Array{operand(p->getIncomingValue(k)), bb[p->getIncomingBlock(k)]});
          } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value *, APInt> vo; APInt co(64, 0);
            if (!g->getType()->isVectorTy() && g->collectOffset(*DL, 64, vo, co)) {
              a.push_back(operand(g->getPointerOperand()));
              o["co"] = (int64_t)co.getSExtValue();
              json::Array v; for (auto &e : vo) v.push_back(json::Array{operand(e.first), (int64_t)e.second.getSExtValue()});
              o["vo"] = std::move(v);
            }
          } else if (auto *br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) a.push_back(operand(br->getCondition()));
            json::Array s; for (unsigned k = 0; k < br->getNumSuccessors(); ++k) s.push_back(bb[br->getSuccessor(k)]); o["succ"] = std::move(s);
          } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            a.push_back(operand(sw->getCondition()));
            json::Array cs; for (auto &c : sw->cases()) cs.push_back(json::Array{operand(c.getCaseValue()), bb[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs); o["def"] = bb[sw->getDefaultDest()];
          } else if (auto *cb = dyn_cast<CallBase>(&I)) {
            for (auto &x : cb->args()) a.push_back(operand(x));
            o["callee"] = operand(cb->getCalledOperand());
            if (auto *iv = dyn_cast<InvokeInst>(&I)) o["succ"] = json::Array{bb[iv->getNormalDest()], bb[iv->getUnwindDest()]};
            if (cb->doesNotReturn()) o["noret"] = true;
          } else if (auto *c = dyn_cast<CmpInst>(&I)) {
            o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
            for (auto &x : I.operands()) a.push_back(operand(x));
          } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
            o["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();
            a.push_back(operand(al->getArraySize()));
          } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
            a.push_back(operand(ev->getAggregateOperand())); json::Array x; for (auto k : ev->indices()) x.push_back((int)k); o["idx"] = std::move(x);
          } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
            a.push_back(operand(iv->getAggregateOperand())); a.push_back(operand(iv->getInsertedValueOperand()));
            json::Array x; for (auto k : iv->indices()) x.push_back((int)k); o["idx"] = std::move(x);
          } else if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
            a.push_back(operand(sv->getOperand(0))); a.push_back(operand(sv->getOperand(1)));
            json::Array x; for (int k : sv->getShuffleMask()) x.push_back(k); o["mask"] = std::move(x);
          } else if (auto *st = dyn_cast<StoreInst>(&I)) {
            a.push_back(operand(st->getValueOperand())); a.push_back(operand(st->getPointerOperand()));
            o["st"] = tyStr(st->getValueOperand()->getType()); o["ss"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue();
          } else {
            for (auto &x : I.operands()) { if (isa<BasicBlock>(x)) continue; a.push_back(operand(x)); }
            if (auto *lp = dyn_cast<LandingPadInst>(&I)) { o["cleanup"] = lp->isCleanup(); }
            if (auto *cs = dyn_cast<CastInst>(&I)) o["from"] = tyStr(cs->getSrcTy());
          }
          o["a"] = std::move(a);
          o["l"] = loc(I);
          J.value(std::move(o));
        }
        J.arrayEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    }
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  J.objectEnd();
  return 0;
}
