// irdump: LLVM bitcode -> JSON (one linked module), for the ggsa analyses.
// Pure syntax dump of the resolved program: functions, blocks, instructions,
// globals with initialisers, record layouts from the debug info.
#include "llvm/ADT/MapVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> Ids;
static std::map<std::string, int> Files;
static std::map<const BasicBlock *, int> BBs;

static std::string tyName(Type *T) {
  std::string s;
  raw_string_ostream os(s);
  if (auto *ST = dyn_cast<StructType>(T); ST && !ST->isLiteral()) {
    os << "%" << ST->getName();
  } else
    T->print(os, false, true);
  return os.str();
}
static json::Value tySz(Type *T) {
  if (!T->isSized())
    return 0;
  return (int64_t)DL->getTypeAllocSize(T).getFixedValue();
}

static json::Value val(const Value *V);

static json::Array flatten(const Constant *C) {
  // list of [offset, size, value]
  json::Array out;
  std::function<void(const Constant *, int64_t)> rec = [&](const Constant *C,
                                                           int64_t off) {
    Type *T = C->getType();
    if (isa<ConstantAggregateZero>(C)) {
      out.push_back(json::Array{off, tySz(T), json::Array{"z"}});
      return;
    }
    if (isa<UndefValue>(C))
      return;
    if (auto *DA = dyn_cast<ConstantDataSequential>(C)) {
      int64_t es = DL->getTypeAllocSize(DA->getElementType()).getFixedValue();
      for (unsigned i = 0; i < DA->getNumElements(); i++)
        rec(DA->getElementAsConstant(i), off + i * es);
      return;
    }
    if (auto *CA = dyn_cast<ConstantArray>(C)) {
      int64_t es =
          DL->getTypeAllocSize(CA->getType()->getElementType()).getFixedValue();
      for (unsigned i = 0; i < CA->getNumOperands(); i++)
        rec(CA->getOperand(i), off + i * es);
      return;
    }
    if (auto *CS = dyn_cast<ConstantStruct>(C)) {
      auto *SL = DL->getStructLayout(CS->getType());
      for (unsigned i = 0; i < CS->getNumOperands(); i++)
        rec(CS->getOperand(i), off + (int64_t)SL->getElementOffset(i));
      return;
    }
    out.push_back(json::Array{off, tySz(T), val(C)});
  };
  rec(C, 0);
  return out;
}

static json::Value val(const Value *V) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    if (CI->getBitWidth() <= 64)
      return json::Array{"i", (int64_t)CI->getBitWidth(), CI->getSExtValue()};
    SmallString<64> s;
    CI->getValue().toStringSigned(s);
    return json::Array{"I", (int64_t)CI->getBitWidth(), s.str().str()};
  }
  if (auto *CF = dyn_cast<ConstantFP>(V)) {
    APFloat F = CF->getValueAPF();
    bool li;
    F.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    double d = F.convertToDouble();
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    return json::Array{"f", std::string(b), tyName(V->getType())};
  }
  if (isa<ConstantPointerNull>(V))
    return json::Array{"n"};
  if (isa<UndefValue>(V))
    return json::Array{"u"};
  if (isa<ConstantAggregateZero>(V))
    return json::Array{"z"};
  if (auto *GV = dyn_cast<GlobalValue>(V))
    return json::Array{"g", GV->getName().str(), 0};
  if (auto *GO = dyn_cast<GEPOperator>(V); GO && isa<Constant>(V)) {
    APInt off(64, 0);
    if (GO->accumulateConstantOffset(*DL, off)) {
      json::Value b = val(GO->getPointerOperand());
      json::Array *ba = b.getAsArray();
      if (ba && (*ba)[0].getAsString() == StringRef("g"))
        return json::Array{"g", (*ba)[1],
                           (*ba)[2].getAsInteger().value() +
                               off.getSExtValue()};
    }
    return json::Array{"u"};
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(V))
    return json::Array{"agg", flatten(CA)};
  if (auto *CD = dyn_cast<ConstantDataSequential>(V))
    return json::Array{"agg", flatten(CD)};
  auto it = Ids.find(V);
  if (it != Ids.end())
    return json::Array{"l", it->second};
  if (isa<MetadataAsValue>(V))
    return json::Array{"m"};
  std::string s;
  raw_string_ostream os(s);
  V->print(os);
  return json::Array{"?", os.str()};
}

static int fileId(const DIFile *F) {
  std::string p = F ? F->getFilename().str() : "?";
  if (F && !p.empty() && p[0] != '/')
    p = F->getDirectory().str() + "/" + p;
  auto it = Files.find(p);
  if (it != Files.end())
    return it->second;
  int n = Files.size();
  Files[p] = n;
  return n;
}

static json::Value typeNameDI(const DIType *T) {
  if (!T)
    return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    std::string b = typeNameDI(D->getBaseType()).getAsString()->str();
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type:
      return b + "*";
    case dwarf::DW_TAG_reference_type:
      return b + "&";
    case dwarf::DW_TAG_rvalue_reference_type:
      return b + "&&";
    case dwarf::DW_TAG_const_type:
      return "const " + b;
    case dwarf::DW_TAG_typedef:
      return b;
    default:
      return b;
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type)
      return typeNameDI(C->getBaseType()).getAsString()->str() + "[]";
    std::string n = C->getName().str();
    const DIScope *S = C->getScope();
    while (S && (isa<DINamespace>(S) || isa<DICompositeType>(S))) {
      if (!S->getName().empty())
        n = S->getName().str() + "::" + n;
      S = S->getScope();
    }
    return n;
  }
  return T->getName().str();
}

int main(int argc, char **argv) {
  if (argc < 3) {
    errs() << "usage: irdump in.bc out.json\n";
    return 2;
  }
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) {
    Err.print("irdump", errs());
    return 2;
  }
  DL = &M->getDataLayout();
  json::Object root;

  json::Object gl;
  for (auto &G : M->globals()) {
    json::Object o;
    o["size"] = tySz(G.getValueType());
    o["const"] = G.isConstant();
    o["ty"] = tyName(G.getValueType());
    o["decl"] = G.isDeclaration();
    o["dem"] = demangle(G.getName().str());
    if (G.hasInitializer())
      o["init"] = flatten(G.getInitializer());
    gl[G.getName().str()] = std::move(o);
  }
  root["globals"] = std::move(gl);
  json::Object al;
  for (auto &A : M->aliases())
    al[A.getName().str()] = val(A.getAliasee());
  root["aliases"] = std::move(al);

  json::Object fl;
  for (auto &F : *M) {
    json::Object o;
    o["dem"] = demangle(F.getName().str());
    o["nounwind"] = F.doesNotThrow();
    o["noreturn"] = F.doesNotReturn();
    o["ret"] = tyName(F.getReturnType());
    o["retsz"] = F.getReturnType()->isVoidTy() ? json::Value(0)
                                               : tySz(F.getReturnType());
    o["vararg"] = F.isVarArg();
    o["linkage"] = (int)F.getLinkage();
    if (auto *SP = F.getSubprogram()) {
      o["line"] = (int64_t)SP->getLine();
      o["file"] = fileId(SP->getFile());
      o["name"] = SP->getName().str();
    }
    Ids.clear();
    BBs.clear();
    int n = 0;
    json::Array args;
    for (auto &A : F.args()) {
      Ids[&A] = n;
      json::Object a;
      a["id"] = n++;
      a["ty"] = tyName(A.getType());
      a["name"] = A.getName().str();
      if (A.hasStructRetAttr())
        a["sret"] = tySz(A.getParamStructRetType());
      if (A.hasByValAttr())
        a["byval"] = tySz(A.getParamByValType());
      args.push_back(std::move(a));
    }
    o["args"] = std::move(args);
    o["decl"] = F.isDeclaration();
    if (!F.isDeclaration()) {
      std::map<const Value *, std::string> vnames;
      int b = 0;
      for (auto &B : F) {
        BBs[&B] = b++;
        for (auto &I : B) {
          Ids[&I] = n++;
          if (auto *D = dyn_cast<DbgDeclareInst>(&I))
            if (D->getVariable() && D->getAddress())
              vnames[D->getAddress()] = D->getVariable()->getName().str();
        }
      }
      json::Array blocks;
      for (auto &B : F) {
        json::Array ins;
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(&I))
            continue;
          json::Object j;
          j["id"] = Ids[&I];
          j["o"] = I.getOpcodeName();
          j["t"] = tyName(I.getType());
          if (auto &L = I.getDebugLoc()) {
            j["ln"] = (int64_t)L.getLine();
            j["col"] = (int64_t)L.getCol();
            j["f"] = fileId(cast<DIScope>(L.getScope())->getFile());
          }
          json::Array ops;
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            j["size"] = tySz(A->getAllocatedType());
            j["aty"] = tyName(A->getAllocatedType());
            j["name"] = vnames.count(A) ? vnames[A] : A->getName().str();
            j["user"] = vnames.count(A) != 0;
            ops.push_back(val(A->getArraySize()));
          } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            auto *GO = cast<GEPOperator>(G);
            APInt off(64, 0);
            MapVector<Value *, APInt> vars;
            GO->collectOffset(*DL, 64, vars, off);
            ops.push_back(val(G->getPointerOperand()));
            j["off"] = off.getSExtValue();
            json::Array va;
            for (auto &p : vars)
              va.push_back(json::Array{val(p.first), p.second.getSExtValue(),
                                       tyName(p.first->getType())});
            j["vars"] = std::move(va);
            j["sty"] = tyName(G->getSourceElementType());
          } else if (auto *C = dyn_cast<CallBase>(&I)) {
            j["callee"] = val(C->getCalledOperand());
            for (auto &A : C->args())
              ops.push_back(val(A.get()));
            json::Array at;
            for (unsigned k = 0; k < C->arg_size(); k++)
              at.push_back(tyName(C->getArgOperand(k)->getType()));
            j["aty"] = std::move(at);
            j["nounwind"] = C->doesNotThrow();
            json::Array bv;
            for (unsigned k = 0; k < C->arg_size(); k++)
              if (C->isByValArgument(k))
                bv.push_back(json::Array{(int64_t)k, tySz(C->getParamByValType(k))});
            if (!bv.empty())
              j["byval"] = std::move(bv);
            if (auto *IV = dyn_cast<InvokeInst>(C)) {
              j["normal"] = BBs[IV->getNormalDest()];
              j["unwind"] = BBs[IV->getUnwindDest()];
            }
          } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
            if (Br->isConditional())
              ops.push_back(val(Br->getCondition()));
            json::Array s;
            for (unsigned si = 0; si < Br->getNumSuccessors(); ++si)
              s.push_back(BBs[Br->getSuccessor(si)]);
            j["succ"] = std::move(s);
          } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
            ops.push_back(val(Sw->getCondition()));
            json::Array s;
            for (auto &c : Sw->cases())
              s.push_back(json::Array{c.getCaseValue()->getSExtValue(),
                                      BBs[c.getCaseSuccessor()]});
            j["cases"] = std::move(s);
            j["def"] = BBs[Sw->getDefaultDest()];
          } else if (auto *P = dyn_cast<PHINode>(&I)) {
            json::Array s;
            for (unsigned k = 0; k < P->getNumIncomingValues(); k++)
              s.push_back(json::Array{val(P->getIncomingValue(k)),
                                      BBs[P->getIncomingBlock(k)]});
            j["in"] = std::move(s);
          } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
            j["cleanup"] = LP->isCleanup();
            json::Array s;
            for (unsigned k = 0; k < LP->getNumClauses(); k++)
              s.push_back(json::Array{LP->isCatch(k), val(LP->getClause(k))});
            j["clauses"] = std::move(s);
          } else {
            for (auto &Op : I.operands())
              ops.push_back(val(Op.get()));
            if (auto *Cm = dyn_cast<CmpInst>(&I))
              j["pred"] = CmpInst::getPredicateName(Cm->getPredicate()).str();
            if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
              json::Array s;
              for (auto k : EV->indices())
                s.push_back((int64_t)k);
              j["idx"] = std::move(s);
            }
            if (auto *EV = dyn_cast<InsertValueInst>(&I)) {
              json::Array s;
              for (auto k : EV->indices())
                s.push_back((int64_t)k);
              j["idx"] = std::move(s);
            }
            if (isa<CastInst>(&I) || isa<CmpInst>(&I) || isa<ReturnInst>(&I) ||
                isa<StoreInst>(&I))
              if (I.getNumOperands())
                j["st"] = tyName(I.getOperand(0)->getType());
            if (isa<StoreInst>(&I))
              j["sz"] = tySz(I.getOperand(0)->getType());
            if (isa<LoadInst>(&I))
              j["sz"] = tySz(I.getType());
          }
          j["a"] = std::move(ops);
          ins.push_back(std::move(j));
        }
        blocks.push_back(std::move(ins));
      }
      o["blocks"] = std::move(blocks);
    }
    fl[F.getName().str()] = std::move(o);
  }
  root["funcs"] = std::move(fl);

  DebugInfoFinder DF;
  DF.processModule(*M);
  json::Object recs;
  for (auto *T : DF.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || (C->getTag() != dwarf::DW_TAG_class_type &&
               C->getTag() != dwarf::DW_TAG_structure_type))
      continue;
    if (C->isForwardDecl() || C->getName().empty())
      continue;
    json::Array ms;
    for (auto *E : C->getElements())
      if (auto *D = dyn_cast_or_null<DIDerivedType>(E)) {
        if ((D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) ||
            D->getTag() == dwarf::DW_TAG_inheritance)
          ms.push_back(json::Array{D->getName().str(),
                                   (int64_t)D->getOffsetInBits() / 8,
                                   (int64_t)(D->getTag() == dwarf::DW_TAG_inheritance
                                       ? D->getBaseType()->getSizeInBits()
                                       : D->getSizeInBits()) / 8,
                                   typeNameDI(D->getBaseType())});
      }
    recs[typeNameDI(C).getAsString()->str()] =
        json::Object{{"size", (int64_t)C->getSizeInBits() / 8},
                     {"members", std::move(ms)}};
  }
  root["records"] = std::move(recs);
  json::Object enums;
  for (auto *T : DF.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->getTag() != dwarf::DW_TAG_enumeration_type ||
        C->getName().empty())
      continue;
    json::Object es;
    for (auto *E : C->getElements())
      if (auto *D = dyn_cast_or_null<DIEnumerator>(E))
        es[D->getName().str()] = D->getValue().getSExtValue();
    enums[typeNameDI(C).getAsString()->str()] = std::move(es);
  }
  root["enums"] = std::move(enums);
  json::Array fs;
  std::vector<std::string> fv(Files.size());
  for (auto &p : Files)
    fv[p.second] = p.first;
  for (auto &s : fv)
    fs.push_back(s);
  root["files"] = std::move(fs);

  std::error_code EC;
  raw_fd_ostream os(argv[2], EC);
  if (EC) {
    errs() << EC.message() << "\n";
    return 2;
  }
  os << json::Value(std::move(root));
  return 0;
}
