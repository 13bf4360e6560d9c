// irx: whole-program fact extractor used by the static checks in /verif.
//
// It takes LLVM bitcode of google/tcmalloc (compiled from the current source
// with -O1 -Xclang -disable-llvm-passes -g) and, for every function requested
// as a "root", dumps a canonical SSA control-flow graph as JSON:
//   * every callee that is not declared an "anchor" is inlined, so extracting
//     or merging helpers does not change the facts;
//   * locals, lambdas, RAII guards and small aggregates are promoted to SSA
//     values (mem2reg/SROA), so renaming and re-arranging locals does not
//     change the facts;
//   * struct field addresses are kept as named accesses (struct::field) taken
//     from the debug info, so that rules are stated over the program's own
//     fields and not over offsets.
// Nothing is executed and no path condition is solved.
#include <algorithm>
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/ReplaceConstant.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/CorrelatedValuePropagation.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/LowerExpectIntrinsic.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"

using namespace llvm;

static std::map<std::string, std::vector<DICompositeType*>> g_di;  // by IR name
static std::map<Function*, std::pair<StructType*, unsigned>> g_marker;
static std::map<std::pair<StructType*, unsigned>, Function*> g_marker_rev;
static std::map<Function*, std::pair<std::string, std::string>> g_marker_name;

static std::string StripTemplateArgs(const std::string& s) {
  std::string r;
  int d = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if (c == '<' && !(i >= 8 && s.compare(i - 8, 8, "operator") == 0)) {
      ++d;
      continue;
    }
    if (c == '>' && d > 0) {
      --d;
      continue;
    }
    if (d == 0) r += c;
  }
  return r;
}

static std::string ScopeName(const DIScope* s) {
  if (!s) return "";
  if (auto* ns = dyn_cast<DINamespace>(s)) {
    std::string p = ScopeName(ns->getScope());
    std::string n =
        ns->getName().empty() ? "(anonymous namespace)" : ns->getName().str();
    return p.empty() ? n : p + "::" + n;
  }
  if (auto* t = dyn_cast<DICompositeType>(s)) {
    std::string p = ScopeName(t->getScope());
    std::string n = t->getName().str();
    return p.empty() ? n : p + "::" + n;
  }
  return "";
}

static void CollectDI(Module& M) {
  DebugInfoFinder F;
  F.processModule(M);
  for (DIType* t : F.types()) {
    auto* c = dyn_cast<DICompositeType>(t);
    if (!c) continue;
    if (c->getTag() != dwarf::DW_TAG_class_type &&
        c->getTag() != dwarf::DW_TAG_structure_type &&
        c->getTag() != dwarf::DW_TAG_union_type)
      continue;
    if (c->isForwardDecl()) continue;
    g_di[StripTemplateArgs(ScopeName(c))].push_back(c);
  }
}

// "class.tcmalloc::X.12" -> "tcmalloc::X"
static std::string TypeBaseName(StructType* st) {
  if (!st->hasName()) return "";
  std::string n = st->getName().str();
  for (const char* p : {"class.", "struct.", "union."}) {
    if (n.rfind(p, 0) == 0) {
      n = n.substr(strlen(p));
      break;
    }
  }
  // trailing .NNN and .base
  while (true) {
    size_t d = n.rfind('.');
    if (d == std::string::npos) break;
    std::string tail = n.substr(d + 1);
    if (tail == "base" ||
        (!tail.empty() && std::all_of(tail.begin(), tail.end(), ::isdigit))) {
      n = n.substr(0, d);
      continue;
    }
    break;
  }
  // drop inline namespaces of libstdc++/absl for stability
  return n;
}

static std::pair<std::string, std::string> FieldName(const DataLayout& DL,
                                                     StructType* st,
                                                     unsigned idx) {
  std::string base = TypeBaseName(st);
  std::string key = StripTemplateArgs(base);
  uint64_t off = DL.getStructLayout(st)->getElementOffsetInBits(idx);
  uint64_t size = DL.getTypeSizeInBits(st);
  auto it = g_di.find(key);
  std::string field;
  if (it != g_di.end()) {
    DICompositeType* best = nullptr;
    for (auto* c : it->second)
      if (c->getSizeInBits() == size) {
        best = c;
        break;
      }
    auto find = [&](DICompositeType* c) {
      for (auto* e : c->getElements()) {
        auto* m = dyn_cast_or_null<DIDerivedType>(e);
        if (!m) continue;
        if (m->getTag() == dwarf::DW_TAG_member && !m->isStaticMember() &&
            m->getOffsetInBits() == off)
          return m->getName().empty() ? std::string("anon@") + utostr(off)
                                      : m->getName().str();
      }
      for (auto* e : c->getElements()) {
        auto* m = dyn_cast_or_null<DIDerivedType>(e);
        if (m && m->getTag() == dwarf::DW_TAG_inheritance &&
            m->getOffsetInBits() == off)
          return std::string("<base>");
      }
      return std::string();
    };
    if (best) field = find(best);
    for (auto* c : it->second) {
      if (!field.empty()) break;
      field = find(c);
    }
  }
  if (field.empty()) field = "#" + utostr(idx);
  return {key.empty() ? "anon" : key, field};
}

static Function* MarkerFor(Module& M, StructType* st, unsigned idx) {
  auto key = std::make_pair(st, idx);
  auto it = g_marker_rev.find(key);
  if (it != g_marker_rev.end()) return it->second;
  auto fn = FieldName(M.getDataLayout(), st, idx);
  auto* FT = FunctionType::get(PointerType::getUnqual(M.getContext()),
                               {PointerType::getUnqual(M.getContext())}, false);
  Function* F = Function::Create(FT, GlobalValue::ExternalLinkage,
                                 "__fld." + fn.first + "::" + fn.second + "." +
                                     utostr(g_marker_rev.size()),
                                 M);
  F->setDoesNotAccessMemory();
  F->setDoesNotThrow();
  F->setWillReturn();
  F->addFnAttr(Attribute::Speculatable);
  F->addFnAttr(Attribute::NoSync);
  F->addFnAttr(Attribute::NoFree);
  F->addFnAttr(Attribute::NoCallback);
  g_marker_rev[key] = F;
  g_marker[F] = key;
  g_marker_name[F] = fn;
  return F;
}

static bool IsMarker(const Value* v) {
  auto* c = dyn_cast<CallInst>(v);
  return c && c->getCalledFunction() && g_marker.count(c->getCalledFunction());
}

static void InsertMarkers(Module& M, Function& F) {
  SmallVector<GetElementPtrInst*, 64> geps;
  for (auto& I : instructions(F))
    if (auto* g = dyn_cast<GetElementPtrInst>(&I)) geps.push_back(g);
  for (auto* g : geps) {
    // Does any level index a struct?
    Type* T = g->getSourceElementType();
    if (g->getNumIndices() < 2) continue;
    if (g->getType()->isVectorTy()) continue;
    IRBuilder<> B(g);
    Value* cur = g->getPointerOperand();
    auto it = g->idx_begin();
    if (auto* ci = dyn_cast<ConstantInt>(it->get()); !ci || !ci->isZero())
      cur = B.CreateInBoundsGEP(T, cur, {it->get()});
    ++it;
    for (; it != g->idx_end(); ++it) {
      if (auto* st = dyn_cast<StructType>(T)) {
        unsigned idx = cast<ConstantInt>(it->get())->getZExtValue();
        if (st->hasName()) {
          auto* c = B.CreateCall(MarkerFor(M, st, idx), {cur});
          cur = c;
        } else {
          cur = B.CreateStructGEP(st, cur, idx);
        }
        T = st->getElementType(idx);
      } else {
        Value* zero = ConstantInt::get(Type::getInt64Ty(M.getContext()), 0);
        cur = B.CreateInBoundsGEP(T, cur, {zero, it->get()});
        T = cast<ArrayType>(T)->getElementType();
      }
    }
    g->replaceAllUsesWith(cur);
    g->eraseFromParent();
  }
}

static Value* BaseObject(Value* v) {
  for (int i = 0; i < 64; ++i) {
    if (IsMarker(v)) {
      v = cast<CallInst>(v)->getArgOperand(0);
    } else if (auto* g = dyn_cast<GEPOperator>(v)) {
      v = g->getPointerOperand();
    } else if (auto* b = dyn_cast<BitCastOperator>(v)) {
      v = b->getOperand(0);
    } else if (auto* ii = dyn_cast<IntrinsicInst>(v);
               ii && (ii->getIntrinsicID() == Intrinsic::launder_invariant_group ||
                      ii->getIntrinsicID() == Intrinsic::strip_invariant_group)) {
      v = ii->getArgOperand(0);
    } else {
      return v;
    }
  }
  return v;
}

static bool LowerAllocaMarkers(Function& F) {
  SmallVector<CallInst*, 64> cs;
  for (auto& I : instructions(F))
    if (IsMarker(&I)) {
      auto* c = cast<CallInst>(&I);
      Value* b = BaseObject(c);
      bool ok = isa<AllocaInst>(b);
      if (auto* ph = dyn_cast<PHINode>(b)) {
        ok = true;
        for (auto& in : ph->incoming_values())
          if (!isa<AllocaInst>(BaseObject(in))) ok = false;
      }
      if (ok) cs.push_back(c);
    }
  for (auto* c : cs) {
    auto [st, idx] = g_marker[c->getCalledFunction()];
    IRBuilder<> B(c);
    Value* g = B.CreateStructGEP(st, c->getArgOperand(0), idx);
    c->replaceAllUsesWith(g);
    c->eraseFromParent();
  }
  return !cs.empty();
}

struct Opts {
  std::vector<std::regex> roots, anchors, inlines;
  std::vector<std::string> roots_s;
  std::string in, out;
  unsigned max_ins = 60000;
  bool summary = false;
  bool list = false;
};

static std::string Dem(StringRef n) { return demangle(n.str()); }

static std::string LinkageDem(Function* F) { return Dem(F->getName()); }

static bool MatchAny(const std::vector<std::regex>& rs, const std::string& s) {
  for (auto& r : rs)
    if (std::regex_search(s, r)) return true;
  return false;
}

static void CleanBasic(Function& F) {
  SmallVector<Instruction*, 32> dead;
  for (auto& I : instructions(F)) {
    if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
      switch (ii->getIntrinsicID()) {
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::assume:
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value:
        case Intrinsic::dbg_label:
        case Intrinsic::dbg_assign:
        case Intrinsic::invariant_start:
        case Intrinsic::invariant_end:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::prefetch:
        case Intrinsic::donothing:
          dead.push_back(ii);
          break;
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
          ii->replaceAllUsesWith(ii->getArgOperand(0));
          dead.push_back(ii);
          break;
        default:
          break;
      }
    }
  }
  for (auto* i : dead) i->eraseFromParent();
}

template <typename P>
static void RunPass(Function& F, FunctionAnalysisManager& FAM, P p) {
  auto pa = p.run(F, FAM);
  FAM.invalidate(F, pa);
}

static void Prepare(Module& M, Function& F, FunctionAnalysisManager& FAM) {
  if (F.isDeclaration()) return;
  F.removeFnAttr(Attribute::OptimizeNone);
  F.removeFnAttr(Attribute::NoInline);
  F.removeFnAttr(Attribute::StackProtectStrong);
  CleanBasic(F);
  RunPass(F, FAM, LowerExpectIntrinsicPass());
  RunPass(F, FAM, PromotePass());
}

// ---------------------------------------------------------------- inlining --
static std::string FullInline(Module& M, Function& F, const Opts& O,
                              FunctionAnalysisManager& FAM,
                              std::map<std::string, std::string>& dem) {
  std::map<CallBase*, std::vector<Function*>> chain;
  std::string note;
  for (int round = 0; round < 8; ++round) {
    std::vector<CallBase*> work;
    for (auto& I : instructions(F))
      if (auto* c = dyn_cast<CallBase>(&I)) work.push_back(c);
    bool any = false;
    while (!work.empty()) {
      CallBase* c = work.back();
      work.pop_back();
      Function* callee = c->getCalledFunction();
      if (!callee) {
        // Calls through a constant with mismatched type
        callee = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
        if (!callee || callee->getFunctionType() != c->getFunctionType())
          continue;
      }
      if (auto* al = dyn_cast<GlobalAlias>(c->getCalledOperand())) {
        if (auto* f = dyn_cast<Function>(al->getAliaseeObject())) callee = f;
      }
      if (callee->isDeclaration() || callee->isIntrinsic()) continue;
      if (callee == &F) continue;
      if (callee->isVarArg()) continue;
      auto& dn = dem[callee->getName().str()];
      if (dn.empty()) dn = LinkageDem(callee);
      if (MatchAny(O.anchors, dn)) continue;
      auto ch = chain[c];
      if (std::find(ch.begin(), ch.end(), callee) != ch.end()) continue;
      if (ch.size() > 60) continue;
      if (F.getInstructionCount() > O.max_ins) {
        note = "size-limit";
        break;
      }
      ch.push_back(callee);
      chain.erase(c);
      InlineFunctionInfo IFI;
      if (c->getCalledFunction() != callee) c->setCalledFunction(callee);
      auto r = InlineFunction(*c, IFI);
      if (!r.isSuccess()) continue;
      any = true;
      for (CallBase* n : IFI.InlinedCallSites) {
        chain[n] = ch;
        work.push_back(n);
      }
    }
    CleanBasic(F);
    FAM.invalidate(F, PreservedAnalyses::none());
    bool ch2 = false;
    for (int k = 0; k < 6; ++k) {
      bool low = LowerAllocaMarkers(F);
      FAM.invalidate(F, PreservedAnalyses::none());
      RunPass(F, FAM, SROAPass(SROAOptions::ModifyCFG));
      RunPass(F, FAM, EarlyCSEPass(true));
      RunPass(F, FAM, SimplifyCFGPass(SimplifyCFGOptions()
                                          .hoistCommonInsts(false)
                                          .sinkCommonInsts(false)
                                          .speculateBlocks(false)));
      if (!low) break;
      ch2 = true;
    }
    // chain pointers may dangle after passes: rebuild by resetting.  Recursion
    // through function pointers is bounded by the number of rounds.
    chain.clear();
    if (!any && !ch2) break;
    // Prevent unbounded recursion unrolling: direct self-recursive chains are
    // re-examined each round, so only continue when new direct callees
    // appeared through SROA (function pointers).
    bool more = false;
    for (auto& I : instructions(F))
      if (auto* c = dyn_cast<CallBase>(&I)) {
        Function* callee = c->getCalledFunction();
        if (!callee || callee->isDeclaration() || callee == &F) continue;
        if (MatchAny(O.anchors, LinkageDem(callee))) continue;
        more = true;
      }
    if (!more) break;
    if (round >= 3) break;
  }
  CleanBasic(F);
  auto scfg = SimplifyCFGOptions()
                  .hoistCommonInsts(false)
                  .sinkCommonInsts(false)
                  .speculateBlocks(false);
  for (int k = 0; k < 2; ++k) {
    RunPass(F, FAM, InstCombinePass(InstCombineOptions().setMaxIterations(4)));
    CleanBasic(F);
    FAM.invalidate(F, PreservedAnalyses::none());
    RunPass(F, FAM, JumpThreadingPass());
    RunPass(F, FAM, SimplifyCFGPass(scfg));
    RunPass(F, FAM, EarlyCSEPass(true));
    RunPass(F, FAM, SROAPass(SROAOptions::ModifyCFG));
    RunPass(F, FAM, SimplifyCFGPass(scfg));
    RunPass(F, FAM, DCEPass());
  }
  FAM.invalidate(F, PreservedAnalyses::none());
  return note;
}

// -------------------------------------------------------------------- dump --
struct Dumper {
  Module& M;
  const DataLayout& DL;
  std::map<std::string, int> locs;
  json::Array locarr;
  std::map<std::string, std::string>& dem;

  Dumper(Module& m, std::map<std::string, std::string>& d)
      : M(m), DL(m.getDataLayout()), dem(d) {}

  std::string D(Function* f) {
    auto& s = dem[f->getName().str()];
    if (s.empty()) s = LinkageDem(f);
    return s;
  }

  static std::string TyS(Type* t) {
    std::string s;
    raw_string_ostream os(s);
    t->print(os, false, true);
    return os.str();
  }

  json::Value Loc(const DebugLoc& dl) {
    if (!dl) return nullptr;
    json::Array a;
    const DILocation* l = dl.get();
    int n = 0;
    while (l && n < 12) {
      auto* sp = l->getScope()->getSubprogram();
      a.push_back(json::Array{l->getFilename().str(), (int64_t)l->getLine(),
                              sp ? sp->getName().str() : ""});
      l = l->getInlinedAt();
      ++n;
    }
    return json::Value(std::move(a));
  }

  json::Value Op(Value* v, std::map<const Value*, int>& ids) {
    if (auto it = ids.find(v); it != ids.end())
      return json::Array{"v", it->second};
    if (auto* a = dyn_cast<Argument>(v))
      return json::Array{"a", (int64_t)a->getArgNo()};
    if (auto* ci = dyn_cast<ConstantInt>(v)) {
      if (ci->getBitWidth() <= 64)
        return json::Array{"c", ci->getSExtValue(), (int64_t)ci->getBitWidth()};
      SmallString<40> s;
      ci->getValue().toString(s, 10, true);
      return json::Array{"C", std::string(s.str()), (int64_t)ci->getBitWidth()};
    }
    if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
    if (auto* f = dyn_cast<Function>(v))
      return json::Array{"f", D(f), f->getName().str()};
    if (auto* g = dyn_cast<GlobalVariable>(v)) {
      json::Array a{"g", Dem(g->getName())};
      if (g->isConstant() && g->hasInitializer()) {
        if (auto* cda = dyn_cast<ConstantDataArray>(g->getInitializer());
            cda && cda->isString())
          a.push_back(cda->getAsString().str().substr(0, 200));
      }
      return json::Value(std::move(a));
    }
    if (auto* al = dyn_cast<GlobalAlias>(v))
      return json::Array{"g", Dem(al->getName())};
    if (isa<UndefValue>(v)) return json::Array{"u"};
    if (auto* fp = dyn_cast<ConstantFP>(v)) {
      SmallString<32> s;
      fp->getValueAPF().toString(s);
      return json::Array{"d", std::string(s.str())};
    }
    if (auto* ce = dyn_cast<ConstantExpr>(v)) {
      if (auto* g = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        if (g->accumulateConstantOffset(DL, off)) {
          return json::Array{"o", Op(g->getPointerOperand(), ids),
                             off.getSExtValue()};
        }
      }
      if (ce->getOpcode() == Instruction::PtrToInt ||
          ce->getOpcode() == Instruction::IntToPtr ||
          ce->getOpcode() == Instruction::BitCast)
        return Op(ce->getOperand(0), ids);
    }
    if (auto* md = dyn_cast<MetadataAsValue>(v)) return json::Array{"m"};
    std::string s;
    raw_string_ostream os(s);
    v->print(os);
    return json::Array{"x", os.str().substr(0, 300)};
  }

  json::Value Scev(const SCEV* s) {
    std::string t;
    raw_string_ostream os(t);
    s->print(os);
    return os.str();
  }

  json::Object DumpFn(Function& F, FunctionAnalysisManager& FAM,
                      const std::string& note, bool loops) {
    json::Object o;
    o["fn"] = F.getName().str();
    o["name"] = D(&F);
    o["note"] = note;
    if (auto* sp = F.getSubprogram()) {
      o["file"] = sp->getFilename().str();
      o["line"] = (int64_t)sp->getLine();
    }
    o["ret"] = TyS(F.getReturnType());
    json::Array args;
    for (auto& a : F.args())
      args.push_back(json::Array{a.getName().str(), TyS(a.getType())});
    o["args"] = std::move(args);
    std::map<const Value*, int> ids;
    std::map<const BasicBlock*, int> bid;
    int n = 0, b = 0;
    for (auto& BB : F) {
      bid[&BB] = b++;
      for (auto& I : BB) ids[&I] = n++;
    }
    json::Array blocks;
    for (auto& BB : F) {
      json::Object bo;
      json::Array ins;
      for (auto& I : BB) {
        json::Object io;
        io["i"] = ids[&I];
        io["l"] = Loc(I.getDebugLoc());
        if (!I.getType()->isVoidTy()) io["t"] = TyS(I.getType());
        std::string op = I.getOpcodeName();
        json::Array ops;
        if (IsMarker(&I)) {
          auto* c = cast<CallInst>(&I);
          op = "fld";
          auto& nm = g_marker_name[c->getCalledFunction()];
          io["S"] = nm.first;
          io["f"] = nm.second;
          ops.push_back(Op(c->getArgOperand(0), ids));
        } else if (auto* c = dyn_cast<CallBase>(&I)) {
          op = "call";
          for (auto& a : c->args()) ops.push_back(Op(a.get(), ids));
          if (c->isInlineAsm()) {
            auto* ia = cast<InlineAsm>(c->getCalledOperand());
            io["asm"] = ia->getAsmString();
            io["asmc"] = ia->getConstraintString();
          } else if (auto* f = c->getCalledFunction()) {
            io["callee"] = D(f);
            io["mangled"] = f->getName().str();
            if (f->isDeclaration()) io["decl"] = 1;
          } else if (auto* al = dyn_cast<GlobalAlias>(c->getCalledOperand())) {
            io["callee"] = Dem(al->getName());
          } else {
            io["cv"] = Op(c->getCalledOperand(), ids);
          }
          if (c->doesNotReturn()) io["nr"] = 1;
        } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          op = "gep";
          MapVector<Value*, APInt> vo;
          APInt co(DL.getIndexTypeSizeInBits(g->getType()), 0);
          io["e"] = TyS(g->getSourceElementType());
          ops.push_back(Op(g->getPointerOperand(), ids));
          if (cast<GEPOperator>(g)->collectOffset(DL, co.getBitWidth(), vo,
                                                  co)) {
            io["co"] = co.getSExtValue();
            json::Array va;
            for (auto& kv : vo)
              va.push_back(
                  json::Array{Op(kv.first, ids), kv.second.getSExtValue()});
            io["vo"] = std::move(va);
          } else {
            for (auto& x : g->indices()) ops.push_back(Op(x.get(), ids));
          }
        } else if (auto* p = dyn_cast<PHINode>(&I)) {
          json::Array in;
          for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) {
            ops.push_back(Op(p->getIncomingValue(k), ids));
            in.push_back(bid[p->getIncomingBlock(k)]);
          }
          io["in"] = std::move(in);
        } else if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) ops.push_back(Op(br->getCondition(), ids));
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(Op(sw->getCondition(), ids));
          json::Array cs;
          for (auto& k : sw->cases())
            cs.push_back(json::Array{k.getCaseValue()->getSExtValue(),
                                     bid[k.getCaseSuccessor()]});
          io["cases"] = std::move(cs);
          io["def"] = bid[sw->getDefaultDest()];
        } else {
          for (auto& x : I.operands()) {
            if (isa<BasicBlock>(x.get())) continue;
            ops.push_back(Op(x.get(), ids));
          }
          if (auto* cm = dyn_cast<CmpInst>(&I))
            io["p"] = CmpInst::getPredicateName(cm->getPredicate()).str();
          if (auto* ld = dyn_cast<LoadInst>(&I)) {
            if (ld->isAtomic()) io["ord"] = toIRString(ld->getOrdering());
            if (ld->isVolatile()) io["vol"] = 1;
          }
          if (auto* st = dyn_cast<StoreInst>(&I)) {
            if (st->isAtomic()) io["ord"] = toIRString(st->getOrdering());
            io["st"] = TyS(st->getValueOperand()->getType());
            if (st->isVolatile()) io["vol"] = 1;
          }
          if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
            io["ord"] = toIRString(cx->getSuccessOrdering());
            io["ordf"] = toIRString(cx->getFailureOrdering());
            io["weak"] = cx->isWeak();
          }
          if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) {
            io["ord"] = toIRString(rm->getOrdering());
            io["rop"] = AtomicRMWInst::getOperationName(rm->getOperation()).str();
          }
          if (auto* fe = dyn_cast<FenceInst>(&I)) {
            io["ord"] = toIRString(fe->getOrdering());
            io["ss"] = (int64_t)fe->getSyncScopeID();
          }
          if (auto* al = dyn_cast<AllocaInst>(&I))
            io["at"] = TyS(al->getAllocatedType());
          if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
            json::Array ix;
            for (unsigned k : ev->indices()) ix.push_back((int64_t)k);
            io["ix"] = std::move(ix);
          }
          if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
            json::Array ix;
            for (unsigned k : iv->indices()) ix.push_back((int64_t)k);
            io["ix"] = std::move(ix);
          }
          if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) {
            if (ob->hasNoUnsignedWrap()) io["nuw"] = 1;
            if (ob->hasNoSignedWrap()) io["nsw"] = 1;
          }
        }
        io["op"] = op;
        if (!ops.empty()) io["o"] = std::move(ops);
        ins.push_back(std::move(io));
      }
      bo["ins"] = std::move(ins);
      json::Array su;
      for (auto* s : successors(&BB)) su.push_back(bid[s]);
      bo["succ"] = std::move(su);
      blocks.push_back(std::move(bo));
    }
    o["blocks"] = std::move(blocks);
    if (loops) {
      auto& LI = FAM.getResult<LoopAnalysis>(F);
      auto& SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
      json::Array la;
      for (auto* L : LI.getLoopsInPreorder()) {
        json::Object lo;
        lo["header"] = bid[L->getHeader()];
        json::Array lb;
        for (auto* B : L->blocks()) lb.push_back(bid[B]);
        lo["blocks"] = std::move(lb);
        lo["btc"] = Scev(SE.getBackedgeTakenCount(L));
        json::Array ph;
        for (auto& P : L->getHeader()->phis()) {
          if (!SE.isSCEVable(P.getType())) continue;
          const SCEV* s = SE.getSCEV(&P);
          if (auto* ar = dyn_cast<SCEVAddRecExpr>(s)) {
            json::Object po;
            po["i"] = ids[&P];
            po["start"] = Scev(ar->getStart());
            po["step"] = Scev(ar->getStepRecurrence(SE));
            ph.push_back(std::move(po));
          }
        }
        lo["ivs"] = std::move(ph);
        la.push_back(std::move(lo));
      }
      o["loops"] = std::move(la);
    }
    return o;
  }
};

static std::vector<std::string> ReadLines(const std::string& p) {
  std::vector<std::string> r;
  std::ifstream f(p);
  std::string s;
  while (std::getline(f, s)) {
    if (s.empty() || s[0] == '#') continue;
    r.push_back(s);
  }
  return r;
}

int main(int argc, char** argv) {
  Opts O;
  bool all_defined = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--in") O.in = next();
    else if (a == "--out") O.out = next();
    else if (a == "--roots") {
      for (auto& s : ReadLines(next())) {
        O.roots.emplace_back(s);
        O.roots_s.push_back(s);
      }
    } else if (a == "--anchors") {
      for (auto& s : ReadLines(next())) O.anchors.emplace_back(s);
    } else if (a == "--summary") O.summary = true;
    else if (a == "--list") O.list = true;
    else if (a == "--max") O.max_ins = std::stoul(next());
    else if (a == "--all") all_defined = true;
    else {
      errs() << "unknown option " << a << "\n";
      return 2;
    }
  }
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(O.in, Err, Ctx);
  if (!M) {
    Err.print("irx", errs());
    return 2;
  }
  std::map<std::string, std::string> dem;
  if (O.list) {
    for (auto& F : *M)
      if (!F.isDeclaration()) outs() << F.getName() << "\t" << LinkageDem(&F) << "\n";
    return 0;
  }
  // Roots.
  std::vector<Function*> roots;
  std::vector<std::vector<std::string>> matched(O.roots_s.size());
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    std::string d = LinkageDem(&F);
    dem[F.getName().str()] = d;
    bool hit = all_defined;
    for (size_t k = 0; k < O.roots.size(); ++k)
      if (std::regex_search(d, O.roots[k])) {
        hit = true;
        matched[k].push_back(d);
      }
    if (hit) roots.push_back(&F);
  }
  CollectDI(*M);

  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

  // Expand constant-expression GEPs on globals so that they become markers.
  {
    SmallVector<Constant*, 64> gs;
    for (auto& G : M->globals()) gs.push_back(&G);
    convertUsersOfConstantsToInstructions(gs);
  }
  // Reachable set from the roots (address-taken functions included).
  std::set<Function*> reach;
  {
    std::vector<Function*> w(roots.begin(), roots.end());
    for (auto* f : w) reach.insert(f);
    while (!w.empty()) {
      Function* f = w.back();
      w.pop_back();
      auto add = [&](Function* g) {
        if (!g->isDeclaration() && reach.insert(g).second) w.push_back(g);
      };
      for (auto& I : instructions(*f))
        for (auto& x : I.operands()) {
          Value* v = x->stripPointerCasts();
          if (auto* g = dyn_cast<Function>(v)) add(g);
          else if (auto* al = dyn_cast<GlobalAlias>(v)) {
            if (auto* g2 = dyn_cast<Function>(al->getAliaseeObject())) add(g2);
          }
        }
    }
  }
  for (auto* F : reach) {
    Prepare(*M, *F, FAM);
    InsertMarkers(*M, *F);
    FAM.invalidate(*F, PreservedAnalyses::none());
  }
  std::error_code EC;
  raw_fd_ostream os(O.out.empty() ? "-" : O.out, EC);
  Dumper Du(*M, dem);
  {
    json::Object h;
    h["kind"] = "header";
    json::Array ma;
    for (size_t k = 0; k < O.roots_s.size(); ++k) {
      json::Array x;
      for (auto& s : matched[k]) x.push_back(s);
      ma.push_back(json::Array{O.roots_s[k], std::move(x)});
    }
    h["roots"] = std::move(ma);
    h["defined"] = (int64_t)dem.size();
    h["reach"] = (int64_t)reach.size();
    os << json::Value(std::move(h)) << "\n";
  }
  if (O.summary) {
    for (auto* F : roots) {
      for (int k = 0; k < 3; ++k) {
        bool low = LowerAllocaMarkers(*F);
        FAM.invalidate(*F, PreservedAnalyses::none());
        RunPass(*F, FAM, SROAPass(SROAOptions::ModifyCFG));
        if (!low) break;
      }
      RunPass(*F, FAM, EarlyCSEPass(true));
      os << json::Value(Du.DumpFn(*F, FAM, "", false)) << "\n";
    }
    return 0;
  }
  // Each root is inlined in a clone, so that roots do not see one another's
  // transformed bodies.
  for (auto* F : roots) {
    ValueToValueMapTy VM;
    Function* C = CloneFunction(F, VM);
    C->setLinkage(GlobalValue::InternalLinkage);
    C->setComdat(nullptr);
    dem[C->getName().str()] = dem[F->getName().str()];
    std::string note = FullInline(*M, *C, O, FAM, dem);
    auto o = Du.DumpFn(*C, FAM, note, true);
    o["fn"] = F->getName().str();
    os << json::Value(std::move(o)) << "\n";
    FAM.clear(*C, C->getName());
    C->eraseFromParent();
  }
  return 0;
}
