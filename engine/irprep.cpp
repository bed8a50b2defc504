// irprep: normalises one bitcode/.ll module and dumps it as JSON for the
// Python dataflow engine.
//
//   irprep IN.bc OUT.json KEEP.txt [OUT.ll]
//
// KEEP.txt: one regular expression per line, matched against demangled
// function names.  Matching functions are turned into declarations (they are
// interpreted by a library model in the engine); every other function with a
// body is inlined as far as possible.  Lines starting with '!' exempt names
// from an earlier match.  No loop transformation is ever run: helper
// extraction, renamed locals, for/while rewrites and early returns all
// normalise away, while control flow and effects stay those of the source.
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Local.h"
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static std::string demangled(StringRef n) { return demangle(n.str()); }

// qualified name with the leading return type removed
static std::string qualified(const std::string &d) {
  int depth = 0;
  size_t start = 0;
  for (size_t i = 0; i < d.size(); ++i) {
    if (d.compare(i, 8, "operator") == 0 && (i == 0 || !(isalnum(d[i - 1]) || d[i - 1] == '_'))) {
      i += 8;
      if (d.compare(i, 2, "()") == 0) i += 2;
      else while (i < d.size() && strchr("<>=-+*/%!&|^~,[]", d[i])) {
        if (d[i] == '<' && d.compare(i, 2, "<<") && d.compare(i, 2, "<=") && d[i-1] != 'r' && d[i-1] != '<') break;
        ++i;
      }
      if (d.compare(i, 2, " <") == 0) ++i;
      --i;
      continue;
    }
    char c = d[i];
    if (c == '<' || c == '[' || c == '{') ++depth;
    else if (c == '>' || c == ']' || c == '}') --depth;
    else if (c == '(' && depth == 0) {
      if (d.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; }
      break;
    }
    else if (c == ' ' && depth == 0) start = i + 1;
  }
  while (start < d.size() && (d[start] == '*' || d[start] == '&')) ++start;
  return d.substr(start);
}

// the bytes of a constant made of i8 only (strings, also split into packed structs)
static bool byteString(const Constant *C, std::string &out) {
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    if (!CD->isString()) return false;
    out += CD->getAsString();
    return true;
  }
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    if (CI->getBitWidth() != 8) return false;
    out += (char)CI->getZExtValue();
    return true;
  }
  if (isa<ConstantAggregateZero>(C)) {
    if (auto *AT = dyn_cast<ArrayType>(C->getType()); AT && AT->getElementType()->isIntegerTy(8)) { out.append(AT->getNumElements(), 0); return true; }
    return false;
  }
  if (auto *ST = dyn_cast<StructType>(C->getType()); ST && isa<ConstantStruct>(C)) {
    if (!ST->isPacked()) return false;
    for (unsigned i = 0; i != C->getNumOperands(); ++i)
      if (!byteString(cast<Constant>(C->getOperand(i)), out)) return false;
    return C->getNumOperands() != 0;
  }
  return false;
}

struct Dumper {
  Module &M;
  const DataLayout &DL;
  json::OStream &J;
  std::map<const Value *, int> ids;
  std::map<const BasicBlock *, int> bids;
  Dumper(Module &m, json::OStream &j) : M(m), DL(m.getDataLayout()), J(j) {}

  std::string ty(Type *T) {
    std::string s;
    raw_string_ostream o(s);
    T->print(o, false, true);
    return o.str();
  }

  void constant(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      if (CI->getBitWidth() <= 64) {
        J.attribute("k", "i");
        J.attribute("w", (int64_t)CI->getBitWidth());
        J.attribute("v", CI->getSExtValue());
        return;
      }
      SmallString<64> S;
      CI->getValue().toStringSigned(S);
      J.attribute("k", "big");
      J.attribute("v", S.str());
      return;
    }
    if (isa<ConstantPointerNull>(C)) { J.attribute("k", "null"); return; }
    if (isa<UndefValue>(C)) { J.attribute("k", "undef"); return; }
    if (isa<ConstantAggregateZero>(C)) { J.attribute("k", "zero"); J.attribute("ty", ty(C->getType())); return; }
    if (auto *F = dyn_cast<ConstantFP>(C)) {
      SmallString<64> S;
      F->getValueAPF().toString(S);
      J.attribute("k", "fp");
      J.attribute("v", S.str());
      return;
    }
    if (auto *G = dyn_cast<GlobalAlias>(C)) { constant(G->getAliasee()); return; }
    if (auto *G = dyn_cast<GlobalValue>(C)) {
      J.attribute("k", "g");
      J.attribute("name", G->getName());
      return;
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (auto *GO = dyn_cast<GEPOperator>(CE)) {
        APInt off(64, 0);
        if (GO->accumulateConstantOffset(DL, off)) {
          J.attribute("k", "ptradd");
          J.attributeBegin("base");
          operand(GO->getPointerOperand());
          J.attributeEnd();
          J.attribute("off", off.getSExtValue());
          return;
        }
      }
      J.attribute("k", "ce");
      J.attribute("op", CE->getOpcodeName());
      J.attributeBegin("ops");
      J.array([&] { for (auto &O : CE->operands()) operand(O.get()); });
      J.attributeEnd();
      return;
    }
    if (isa<ConstantAggregate>(C) || isa<ConstantDataSequential>(C)) {
      J.attribute("k", "agg");
      J.attribute("ty", ty(C->getType()));
      J.attributeBegin("ops");
      J.array([&] {
        unsigned n = isa<ConstantDataSequential>(C) ? cast<ConstantDataSequential>(C)->getNumElements() : C->getNumOperands();
        for (unsigned i = 0; i < n && i < 4096; ++i) operand(C->getAggregateElement(i));
      });
      J.attributeEnd();
      return;
    }
    J.attribute("k", "other");
    J.attribute("ty", ty(C->getType()));
  }
  void operand(const Value *V) {
    J.object([&] {
      if (auto *C = dyn_cast<Constant>(V)) constant(C);
      else if (isa<MetadataAsValue>(V)) J.attribute("k", "md");
      else if (auto *B = dyn_cast<BasicBlock>(V)) { J.attribute("k", "b"); J.attribute("id", bids[B]); }
      else if (isa<InlineAsm>(V)) J.attribute("k", "asm");
      else { J.attribute("k", "r"); J.attribute("id", ids[V]); }
    });
  }

  void loc(const Instruction &I) {
    auto L = I.getDebugLoc();
    if (!L) return;
    J.attributeBegin("loc");
    J.array([&] {
      for (const DILocation *D = L.get(); D; D = D->getInlinedAt())
        J.array([&] {
          J.value(D->getFilename());
          J.value((int64_t)D->getLine());
          auto *S = D->getScope()->getSubprogram();
          J.value(S ? S->getName() : "");
        });
    });
    J.attributeEnd();
  }

  void gepLike(const GEPOperator *G) {
    // byte offset = const + sum(index*scale)
    int64_t c = 0;
    std::vector<std::pair<const Value *, int64_t>> var;
    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
      const Value *Idx = it.getOperand();
      if (StructType *ST = it.getStructTypeOrNull()) {
        c += (int64_t)DL.getStructLayout(ST)->getElementOffset((unsigned)cast<ConstantInt>(Idx)->getZExtValue());
      } else {
        int64_t sz = (int64_t)DL.getTypeAllocSize(it.getIndexedType()).getFixedValue();
        if (auto *CI = dyn_cast<ConstantInt>(Idx)) c += CI->getSExtValue() * sz;
        else var.push_back({Idx, sz});
      }
    }
    J.attributeBegin("base");
    operand(G->getPointerOperand());
    J.attributeEnd();
    J.attribute("off", c);
    J.attributeBegin("idx");
    J.array([&] {
      for (auto &[v, s] : var) J.array([&] { operand(v); J.value(s); });
    });
    J.attributeEnd();
  }

  void layout(Type *T, int64_t base, int depth = 0) {
    // flattened leaves: [offset, size, type]
    if (depth > 8) return;
    if (auto *S = dyn_cast<StructType>(T)) {
      if (S->isOpaque()) return;
      auto *L = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); ++i) layout(S->getElementType(i), base + (int64_t)L->getElementOffset(i), depth + 1);
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      int64_t sz = (int64_t)DL.getTypeAllocSize(A->getElementType());
      for (unsigned i = 0; i < A->getNumElements() && i < 256; ++i) layout(A->getElementType(), base + sz * (int64_t)i, depth + 1);
    } else {
      J.array([&] { J.value(base); J.value((int64_t)DL.getTypeStoreSize(T).getFixedValue()); J.value(ty(T)); });
    }
  }

  void inst(const Instruction &I) {
    J.object([&] {
      J.attribute("id", ids[&I]);
      J.attribute("op", I.getOpcodeName());
      J.attribute("ty", ty(I.getType()));
      if (I.getType()->isSized() && !I.getType()->isVoidTy())
        J.attribute("sz", (int64_t)DL.getTypeStoreSize(I.getType()).getFixedValue());
      if (I.getType()->isIntegerTy()) J.attribute("w", (int64_t)I.getType()->getIntegerBitWidth());
      loc(I);
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { gepLike(cast<GEPOperator>(G)); return; }
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        J.attribute("aty", ty(A->getAllocatedType()));
        J.attribute("asz", (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue());
        J.attribute("name", A->getName());
        J.attributeBegin("lay");
        J.array([&] { layout(A->getAllocatedType(), 0); });
        J.attributeEnd();
        return;
      }
      if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attributeBegin("in");
        J.array([&] {
          for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
            J.array([&] { J.value(bids[P->getIncomingBlock(i)]); operand(P->getIncomingValue(i)); });
        });
        J.attributeEnd();
        return;
      }
      if (auto *S = dyn_cast<SwitchInst>(&I)) {
        J.attributeBegin("c");
        operand(S->getCondition());
        J.attributeEnd();
        J.attribute("def", bids[S->getDefaultDest()]);
        J.attributeBegin("cases");
        J.array([&] { for (auto &C : S->cases()) J.array([&] { J.value(C.getCaseValue()->getSExtValue()); J.value(bids[C.getCaseSuccessor()]); }); });
        J.attributeEnd();
        return;
      }
      if (auto *B = dyn_cast<BranchInst>(&I)) {
        if (B->isConditional()) { J.attributeBegin("c"); operand(B->getCondition()); J.attributeEnd(); }
        J.attributeBegin("succ");
        J.array([&] { for (unsigned i = 0; i < B->getNumSuccessors(); ++i) J.value(bids[B->getSuccessor(i)]); });
        J.attributeEnd();
        return;
      }
      if (auto *C = dyn_cast<CmpInst>(&I)) {
        J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      }
      if (auto *C = dyn_cast<CallBase>(&I)) {
        const Value *Cal = C->getCalledOperand()->stripPointerCasts();
        if (auto *GA = dyn_cast<GlobalAlias>(Cal)) Cal = GA->getAliaseeObject();
        if (auto *F = dyn_cast<Function>(Cal)) {
          J.attribute("callee", F->getName());
        } else {
          J.attributeBegin("fn");
          operand(Cal);
          J.attributeEnd();
        }
        J.attribute("nounwind", C->doesNotThrow());
        J.attribute("noreturn", C->doesNotReturn());
        J.attributeBegin("args");
        J.array([&] { for (auto &A : C->args()) operand(A.get()); });
        J.attributeEnd();
        J.attributeBegin("argty");
        J.array([&] { for (auto &A : C->args()) J.value(ty(A->getType())); });
        J.attributeEnd();
        J.attributeBegin("byval");
        J.array([&] { for (unsigned i = 0; i < C->arg_size(); ++i) {
            Type *T = C->isByValArgument(i) ? C->getParamByValType(i) : (C->paramHasAttr(i, Attribute::StructRet) ? C->getParamStructRetType(i) : nullptr);
            J.value(T ? (int64_t)DL.getTypeAllocSize(T).getFixedValue() : 0);
        } });
        J.attributeEnd();
        if (auto *V = dyn_cast<InvokeInst>(C)) {
          J.attribute("norm", bids[V->getNormalDest()]);
          J.attribute("unw", bids[V->getUnwindDest()]);
        }
        return;
      }
      if (auto *L = dyn_cast<LandingPadInst>(&I)) {
        J.attribute("cleanup", L->isCleanup());
        J.attributeBegin("clauses");
        J.array([&] { for (unsigned i = 0; i < L->getNumClauses(); ++i) operand(L->getClause(i)); });
        J.attributeEnd();
        return;
      }
      if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
        J.attributeBegin("ix"); J.array([&] { for (auto x : E->indices()) J.value((int64_t)x); }); J.attributeEnd();
      }
      if (auto *E = dyn_cast<InsertValueInst>(&I)) {
        J.attributeBegin("ix"); J.array([&] { for (auto x : E->indices()) J.value((int64_t)x); }); J.attributeEnd();
      }
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        J.attribute("ssz", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue());
        J.attribute("sty", ty(S->getValueOperand()->getType()));
        J.attribute("volatile", S->isVolatile());
        J.attribute("atomic", S->isAtomic());
      }
      if (auto *S = dyn_cast<LoadInst>(&I)) {
        J.attribute("volatile", S->isVolatile());
        J.attribute("atomic", S->isAtomic());
      }
      if (auto *R = dyn_cast<AtomicRMWInst>(&I)) J.attribute("rmw", AtomicRMWInst::getOperationName(R->getOperation()));
      J.attributeBegin("ops");
      J.array([&] { for (auto &O : I.operands()) operand(O.get()); });
      J.attributeEnd();
      if (I.getNumOperands() > 0) J.attribute("opty", ty(I.getOperand(0)->getType()));
    });
  }

  void run() {
    J.object([&] {
      J.attributeBegin("functions");
      J.array([&] {
        for (auto &F : M) {
          J.object([&] {
            J.attribute("name", F.getName());
            J.attribute("dem", qualified(demangled(F.getName())));
            J.attribute("decl", F.isDeclaration());
            J.attribute("readnone", F.doesNotAccessMemory());
            J.attribute("readonly", F.onlyReadsMemory());
            J.attribute("nounwind", F.doesNotThrow());
            if (auto *S = F.getSubprogram()) { J.attribute("file", S->getFilename()); J.attribute("line", (int64_t)S->getLine()); }
            if (F.isDeclaration()) return;
            ids.clear(); bids.clear();
            int n = 0;
            J.attributeBegin("args");
            J.array([&] { for (auto &A : F.args()) { ids[&A] = n++; J.object([&] {
                J.attribute("id", ids[&A]); J.attribute("name", A.getName()); J.attribute("ty", ty(A.getType()));
                J.attribute("sret", A.hasStructRetAttr());
                if (A.hasByValAttr()) J.attribute("byval", (int64_t)DL.getTypeAllocSize(A.getParamByValType()).getFixedValue());
            }); } });
            J.attributeEnd();
            int b = 0;
            for (auto &BB : F) { bids[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
            J.attributeBegin("blocks");
            J.array([&] {
              for (auto &BB : F) J.array([&] {
                for (auto &I : BB) {
                  if (isa<DbgInfoIntrinsic>(&I)) continue;
                  inst(I);
                }
              });
            });
            J.attributeEnd();
          });
        }
      });
      J.attributeEnd();
      J.attributeBegin("globals");
      J.array([&] {
        for (auto &G : M.globals()) {
          J.object([&] {
            J.attribute("name", G.getName());
            J.attribute("dem", demangled(G.getName()));
            J.attribute("const", G.isConstant());
            J.attribute("tls", G.isThreadLocal());
            if (G.getValueType()->isSized()) J.attribute("size", (int64_t)DL.getTypeAllocSize(G.getValueType()).getFixedValue());
            J.attributeBegin("lay");
            J.array([&] { if (G.getValueType()->isSized()) layout(G.getValueType(), 0); });
            J.attributeEnd();
            if (G.hasInitializer()) {
              std::string bytes;
              if (G.isConstant() && byteString(G.getInitializer(), bytes)) {
                std::string hex;
                static const char *H = "0123456789abcdef";
                for (unsigned char c : bytes) { hex += H[c >> 4]; hex += H[c & 15]; }
                J.attribute("str", hex);
              } else { J.attributeBegin("init"); operand(G.getInitializer()); J.attributeEnd(); }
            }
          });
        }
      });
      J.attributeEnd();
    });
  }
};

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: irprep IN OUT.json KEEP.txt [OUT.ll]\n"; return 2; }
  {
    const char *opts[] = {"irprep", "-inline-threshold=100000000", "-inlinehint-threshold=100000000", "-inlinecold-threshold=100000000",
      "-locally-hot-callsite-threshold=100000000", "-inline-cost-full=false", "-enable-nonnull-arg-prop=false",
      "-two-entry-phi-node-folding-threshold=0", "-speculate-one-expensive-inst=false", "-phi-node-folding-threshold=0", "-bonus-inst-threshold=0",
      "-recursive-inline-max-stacksize=1000000", "-instcombine-maxarray-size=0"};
    cl::ParseCommandLineOptions(sizeof(opts) / sizeof(*opts), opts);
  }
  LLVMContext C;
  SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("irprep", errs()); return 2; }
  std::vector<std::pair<bool, std::regex>> keep;
  {
    std::ifstream in(argv[3]);
    std::string l;
    while (std::getline(in, l)) {
      if (l.empty() || l[0] == '#') continue;
      bool neg = l[0] == '!';
      keep.push_back({!neg, std::regex(neg ? l.substr(1) : l, std::regex::ECMAScript | std::regex::optimize)});
    }
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    auto d = qualified(demangled(F.getName()));
    bool k = false;
    for (auto &[pos, re] : keep) if (std::regex_search(d, re)) k = pos;
    F.removeFnAttr(Attribute::OptimizeNone);
    if (k) {
      F.deleteBody();
      F.setComdat(nullptr);
      F.setLinkage(GlobalValue::ExternalLinkage);
    } else {
      F.removeFnAttr(Attribute::NoInline);
      F.removeFnAttr(Attribute::Cold);
      F.removeFnAttr(Attribute::InlineHint);
      // force
      bool selfrec = false;
      for (auto *U : F.users())
        if (auto *CB = dyn_cast<CallBase>(U); CB && CB->getFunction() == &F) selfrec = true;
      if (!selfrec && !F.hasFnAttribute("irprep-noinline")) F.addFnAttr(Attribute::AlwaysInline);
    }
  }
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  const char *simp = "simplifycfg<bonus-inst-threshold=0;no-forward-switch-cond;no-switch-to-lookup;keep-loops;no-hoist-common-insts;no-sink-common-insts;no-switch-range-to-icmp>";
  // every std/harness/utl body becomes always-inline except roots (roots have no callers)
  std::string p = std::string("function(lower-expect,") + simp + ",sroa<preserve-cfg>,early-cse,instsimplify),"
    "always-inline,function(" + simp + ",sroa<preserve-cfg>,early-cse,instsimplify," + simp + ",adce)," 
    "always-inline,function(sroa<preserve-cfg>,early-cse,instsimplify," + simp + ",adce),globaldce";
  if (auto Err = PB.parsePassPipeline(MPM, p)) { errs() << toString(std::move(Err)) << "\n"; return 2; }
  MPM.run(*M, MAM);
  if (argc > 4) {
    std::error_code ec;
    raw_fd_ostream o(argv[4], ec);
    M->print(o, nullptr);
  }
  std::error_code ec;
  raw_fd_ostream o(argv[2], ec);
  json::OStream J(o);
  Dumper D(*M, J);
  D.run();
  return 0;
}
