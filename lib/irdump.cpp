// Dumps an LLVM module as JSON lines for the Python analyses.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
using namespace llvm;
typedef json::Value JV; typedef json::Array JA; typedef json::Object JO;
static const DataLayout *DL;
static std::string tystr(Type *t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str(); }
static std::map<const Value*, int> ids;
static JV val(const Value *v, int depth = 0);
static JV constv(const Constant *c, int depth) {
  if (auto *i = dyn_cast<ConstantInt>(c)) {
    if (i->getBitWidth() <= 64) return JA{"i", (int64_t)i->getSExtValue(), (int64_t)i->getBitWidth()};
    return JA{"u", tystr(c->getType())};
  }
  if (isa<ConstantPointerNull>(c)) return JA{"n"};
  if (isa<UndefValue>(c)) return JA{"u", tystr(c->getType())};
  if (auto *f = dyn_cast<Function>(c)) return JA{"f", f->getName()};
  if (auto *g = dyn_cast<GlobalVariable>(c)) return JA{"g", g->getName()};
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off))
        return JA{"ge", val(gep->getPointerOperand(), depth+1), (int64_t)off.getSExtValue()};
    }
    JA ops; for (auto &o : ce->operands()) ops.push_back(val(o.get(), depth+1));
    return JA{"ce", ce->getOpcodeName(), std::move(ops), tystr(c->getType())};
  }
  if (auto *a = dyn_cast<ConstantDataSequential>(c)) {
    if (a->isString() || a->isCString()) { 
      std::string s; for (char ch : a->getAsString()) { s += (unsigned char)ch < 0x80 ? ch : '?'; }
      return JA{"s", s}; }
    JA e; for (unsigned i = 0; i < a->getNumElements() && i < 4096; i++) e.push_back(val(a->getElementAsConstant(i), depth+1));
    return JA{"a", std::move(e)};
  }
  if (isa<ConstantAggregateZero>(c)) return JA{"z", tystr(c->getType())};
  if (auto *a = dyn_cast<ConstantAggregate>(c)) {
    JA e; for (auto &o : a->operands()) e.push_back(val(o.get(), depth+1));
    return JA{"a", std::move(e)};
  }
  return JA{"u", tystr(c->getType())};
}
static std::string dtname(const DIType *t, int d = 0) {
  if (!t) return "void";
  if (d > 6) return "?";
  if (!t->getName().empty()) return t->getName().str();
  if (auto *q = dyn_cast<DIDerivedType>(t)) {
    switch (q->getTag()) {
    case dwarf::DW_TAG_pointer_type: return dtname(q->getBaseType(), d+1) + " *";
    case dwarf::DW_TAG_const_type: return "const " + dtname(q->getBaseType(), d+1);
    case dwarf::DW_TAG_volatile_type: return dtname(q->getBaseType(), d+1);
    default: return "?";
    }
  }
  return "?";
}
static JV val(const Value *v, int depth) {
  if (auto *c = dyn_cast<Constant>(v)) return constv(c, depth);
  if (auto *b = dyn_cast<BasicBlock>(v)) return JA{"b", ids[b]};
  if (isa<MetadataAsValue>(v)) return JA{"m"};
  if (isa<InlineAsm>(v)) return JA{"asm"};
  auto it = ids.find(v);
  if (it == ids.end()) return JA{"?"};
  return JA{"v", it->second};
}
int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  JO root;
  JA globals;
  for (auto &g : M->globals()) {
    JO o; o["name"] = g.getName(); o["ty"] = tystr(g.getValueType()); o["const"] = g.isConstant();
    o["size"] = g.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g.getValueType()) : 0;
    o["local"] = g.hasLocalLinkage();
    if (g.hasInitializer()) o["init"] = constv(g.getInitializer(), 0);
    SmallVector<DIGlobalVariableExpression*, 2> dbg; g.getDebugInfo(dbg);
    if (!dbg.empty()) { auto *dv = dbg[0]->getVariable(); o["line"] = dv->getLine(); o["file"] = dv->getFilename(); o["dname"] = dv->getName(); }
    globals.push_back(std::move(o));
  }
  root["globals"] = std::move(globals);
  JA structs;
  for (auto *st : M->getIdentifiedStructTypes()) {
    if (st->isOpaque()) continue;
    JA el; auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) el.push_back(JA{tystr(st->getElementType(i)), (int64_t)sl->getElementOffset(i)});
    structs.push_back(JO{{"name", st->getName()}, {"el", std::move(el)}, {"size", (int64_t)sl->getSizeInBytes()}});
  }
  root["structs"] = std::move(structs);
  // debug-info struct member names
  JA dst; DebugInfoFinder F; F.processModule(*M);
  for (auto *t : F.types()) if (auto *ct = dyn_cast<DICompositeType>(t)) {
    if (ct->getTag() != dwarf::DW_TAG_structure_type && ct->getTag() != dwarf::DW_TAG_enumeration_type) continue;
    JA mem;
    for (auto *e : ct->getElements()) {
      if (auto *m = dyn_cast_or_null<DIDerivedType>(e)) {
        std::string bt; auto *b = m->getBaseType(); if (b) bt = b->getName().str();
        mem.push_back(JA{m->getName(), (int64_t)m->getOffsetInBits()/8, bt, (int64_t)m->getSizeInBits()/8});
      } else if (auto *en = dyn_cast_or_null<DIEnumerator>(e)) mem.push_back(JA{en->getName(), (int64_t)en->getValue().getSExtValue()});
    }
    dst.push_back(JO{{"name", ct->getName()}, {"tag", ct->getTag()==dwarf::DW_TAG_structure_type?"struct":"enum"}, {"file", ct->getFilename()}, {"line", ct->getLine()}, {"mem", std::move(mem)}});
  }
  root["dtypes"] = std::move(dst);
  JA funcs;
  for (auto &f : *M) {
    JO fo; fo["name"] = f.getName(); fo["decl"] = f.isDeclaration();
    fo["noreturn"] = f.doesNotReturn(); fo["local"] = f.hasLocalLinkage();
    fo["ro"] = f.onlyReadsMemory(); fo["rn"] = f.doesNotAccessMemory();
    fo["ret"] = tystr(f.getReturnType()); fo["vararg"] = f.isVarArg();
    if (auto *sp = f.getSubprogram()) { fo["file"] = sp->getFilename(); fo["line"] = sp->getLine(); fo["dname"] = sp->getName();
      JA pt; if (auto *ty = sp->getType()) for (auto *t : ty->getTypeArray()) { pt.push_back(t ? (t->getName().empty()? "*" : t->getName().str()) : std::string("void")); }
      fo["dtypes"] = std::move(pt);
      JA fp; if (auto *ty = sp->getType()) for (auto *t : ty->getTypeArray()) fp.push_back(dtname(t));
      fo["ptypes"] = std::move(fp); }
    ids.clear(); int n = 0;
    JA args;
    for (auto &a : f.args()) { ids[&a] = n; args.push_back(JA{n, tystr(a.getType()), a.getName()}); n++; }
    fo["args"] = std::move(args);
    int bn = 0;
    for (auto &b : f) { ids[&b] = bn++; for (auto &i : b) ids[&i] = n++; }
    JA blocks;
    for (auto &b : f) {
      JA ins;
      for (auto &i : b) {
        if (isa<DbgInfoIntrinsic>(i)) {
          if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
            JO o; o["op"] = "dbg"; o["id"] = ids[&i];
            if (dv->getVariable()) o["var"] = dv->getVariable()->getName();
            JA ops; if (dv->getNumVariableLocationOps() == 1) ops.push_back(val(dv->getVariableLocationOp(0)));
            o["ops"] = std::move(ops); ins.push_back(std::move(o));
          }
          continue;
        }
        JO o; o["op"] = i.getOpcodeName(); o["id"] = ids[&i];
        if (!i.getType()->isVoidTy()) o["ty"] = tystr(i.getType());
        JA ops;
        if (auto *ci = dyn_cast<CallBase>(&i)) {
          for (auto &a : ci->args()) ops.push_back(val(a.get()));
          o["callee"] = val(ci->getCalledOperand()->stripPointerCasts());
          if (ci->doesNotReturn()) o["nr"] = true;
          JA at; for (auto &a : ci->args()) at.push_back(tystr(a->getType()));
          o["aty"] = std::move(at);
        } else if (auto *p = dyn_cast<PHINode>(&i)) {
          JA in; for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { ops.push_back(val(p->getIncomingValue(k))); in.push_back(ids[p->getIncomingBlock(k)]); }
          o["in"] = std::move(in);
        } else if (auto *br = dyn_cast<BranchInst>(&i)) {
          if (br->isConditional()) { ops.push_back(val(br->getCondition())); o["succ"] = JA{ids[br->getSuccessor(0)], ids[br->getSuccessor(1)]}; }
          else o["succ"] = JA{ids[br->getSuccessor(0)]};
        } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
          ops.push_back(val(sw->getCondition()));
          JA cs; for (auto &c : sw->cases()) cs.push_back(JA{(int64_t)c.getCaseValue()->getSExtValue(), ids[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs); o["succ"] = JA{ids[sw->getDefaultDest()]};
        } else {
          for (auto &op : i.operands()) ops.push_back(val(op.get()));
        }
        if (auto *cmp = dyn_cast<CmpInst>(&i)) { o["pred"] = CmpInst::getPredicateName(cmp->getPredicate()); o["oty"] = tystr(cmp->getOperand(0)->getType()); }
        if (auto *g = dyn_cast<GetElementPtrInst>(&i)) { o["sty"] = tystr(g->getSourceElementType());
           o["esz"] = g->getSourceElementType()->isSized() ? (int64_t)DL->getTypeAllocSize(g->getSourceElementType()) : 0;
           if (g->getNumIndices() == 2) if (auto *at = dyn_cast<ArrayType>(g->getSourceElementType())) o["lsz"] = (int64_t)DL->getTypeAllocSize(at->getElementType());
           APInt off(64,0); if (g->accumulateConstantOffset(*DL, off)) o["off"] = (int64_t)off.getSExtValue(); }
        if (auto *ev = dyn_cast<ExtractValueInst>(&i)) { JA ix; for (unsigned k : ev->getIndices()) ix.push_back((int64_t)k); o["ix"] = std::move(ix); }
        if (auto *iv = dyn_cast<InsertValueInst>(&i)) { JA ix; for (unsigned k : iv->getIndices()) ix.push_back((int64_t)k); o["ix"] = std::move(ix); }
        if (auto *tb = i.getMetadata(LLVMContext::MD_tbaa)) if (tb->getNumOperands() >= 3) {
          auto *bt = dyn_cast_or_null<MDNode>(tb->getOperand(0)); auto *at = dyn_cast_or_null<MDNode>(tb->getOperand(1));
          auto *of = mdconst::dyn_extract_or_null<ConstantInt>(tb->getOperand(2));
          if (bt && at && of && bt->getNumOperands() && bt != at) if (auto *nm = dyn_cast_or_null<MDString>(bt->getOperand(0)))
            o["tbaa"] = JA{nm->getString(), (int64_t)of->getSExtValue()};
        }
        if (auto *a = dyn_cast<AllocaInst>(&i)) { o["aty"] = tystr(a->getAllocatedType()); o["asz"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()); }
        if (auto *st = dyn_cast<StoreInst>(&i)) { o["vty"] = tystr(st->getValueOperand()->getType()); o["vol"] = st->isVolatile(); }
        if (auto *ld = dyn_cast<LoadInst>(&i)) { o["vol"] = ld->isVolatile(); }
        if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&i)) { o["nsw"] = ob->hasNoSignedWrap(); }
        if (i.getOpcode() == Instruction::Trunc || i.getOpcode() == Instruction::ZExt || i.getOpcode() == Instruction::SExt) o["sty"] = tystr(i.getOperand(0)->getType());
        if (auto &dl = i.getDebugLoc()) { o["line"] = dl.getLine(); o["col"] = dl.getCol();
          if (auto *sc = dyn_cast<DIScope>(dl.getScope())) { auto fn = sc->getFilename(); if (f.getSubprogram() && fn != f.getSubprogram()->getFilename()) o["file"] = fn; } }
        o["ops"] = std::move(ops);
        ins.push_back(std::move(o));
      }
      blocks.push_back(std::move(ins));
    }
    fo["blocks"] = std::move(blocks);
    funcs.push_back(std::move(fo));
  }
  root["funcs"] = std::move(funcs);
  std::error_code ec; raw_fd_ostream out(argv[2], ec);
  out << JV(std::move(root));
  return 0;
}
