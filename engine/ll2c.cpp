// ll2c: translate LLVM-18 IR (the code clang produces from /repo's real sources
// plus a harness) to C accepted by CBMC.  Nothing is written by hand per function:
// the text CBMC verifies is generated from the bitcode on every run.
//
// usage: ll2c in.bc outdir [-noinline] [-stub mangled=stubname]...
//   For every function with a global  __vp_opts_<h>  in the module, writes
//   outdir/<h>.c and outdir/<h>.json.
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/ADT/SCCIterator.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/Analysis/CaptureTracking.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/LoopSimplify.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <fstream>
#include <functional>
#include <map>
#include <regex>
#include <set>
#include <sstream>
using namespace llvm;
using std::string;

static Module *M;
static const DataLayout *DL;
static string dem(StringRef n) { return demangle(n.str()); }
[[noreturn]] static void die(const string &s) {
  errs() << "ll2c: " << s << "\n";
  exit(3);
}
template <class T> static string pr(const T &v) {
  string s;
  raw_string_ostream o(s);
  v.print(o);
  return s;
}
static string cident(StringRef n) {
  string r;
  for (char c : n)
    r += (isalnum((unsigned char)c) || c == '_') ? c : '_';
  return r;
}
static string jesc(const string &s) {
  string r;
  for (char c : s) {
    if (c == '"' || c == '\\')
      r += '\\';
    if ((unsigned char)c < 32)
      r += ' ';
    else
      r += c;
  }
  return r;
}

// ------------------------------------------------------------------ throw collapse
// A block from which every path ends in a throw, and whose calls only build the
// exception object (message strings, type printing), is replaced by a direct throw
// of the same type with the same unwind destination.  Dropped: the message text.
static std::set<string> droppedCalls;
static bool isThrowCall(const Instruction *I, const CallBase **out = nullptr) {
  if (auto *c = dyn_cast<CallBase>(I))
    if (auto *f = c->getCalledFunction())
      if (f->getName() == "__cxa_throw" || f->getName() == "__vp_throw") {
        if (out)
          *out = c;
        return true;
      }
  return false;
}
static std::map<const Function *, Value *> alwaysThrows; // function -> typeinfo

static bool libThrow(StringRef n, string &ti) {
  // libstdc++ helpers that only throw
  static const std::map<string, string> m = {
      {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"},
      {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
      {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"},
      {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
      {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
      {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
      {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
      {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"},
      {"__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"},
      {"__cxa_bad_cast", "_ZTISt8bad_cast"}};
  auto it = m.find(n.str());
  if (it == m.end())
    return false;
  ti = it->second;
  return true;
}
static GlobalVariable *tiGlobal(const string &n) {
  if (auto *g = M->getGlobalVariable(n, true))
    return g;
  return new GlobalVariable(*M, PointerType::getUnqual(M->getContext()), true, GlobalValue::ExternalLinkage, nullptr, n);
}
static bool benignCall(const CallBase *c) {
  if (isa<IntrinsicInst>(c)) {
    auto id = cast<IntrinsicInst>(c)->getIntrinsicID();
    return id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::memcpy ||
           id == Intrinsic::memset || id == Intrinsic::expect || id == Intrinsic::dbg_value ||
           id == Intrinsic::dbg_declare || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume;
  }
  const Function *f = c->getCalledFunction();
  if (!f)
    return false;
  StringRef n = f->getName();
  if (n.starts_with("__cxa_") || n == "__vp_throw" || n.starts_with("_ZSt") || n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") ||
      n.starts_with("_ZNSa") || n.starts_with("_ZNSs") || n.starts_with("_ZNSo") || n.starts_with("_ZNSi") || n.starts_with("_Zls") || n == "strlen" ||
      n.starts_with("_Znw") || n.starts_with("_ZdlPv") || n.starts_with("_ZN9__gnu_cxx") || n.starts_with("_ZNK9__gnu_cxx"))
    return true;
  if (alwaysThrows.count(f))
    return true;
  static const std::regex re("^(.* )?(dynd::(ndt::|nd::)?([a-z_0-9]*(error|exception)|dynd_exception|error_mode[a-z_]*)::~?[a-z_0-9]+\\(.*|"
                             "dynd::ndt::operator<<\\(.*|dynd::operator<<\\(.*|operator<<\\(.*|dynd::nd::operator<<.*|"
                             "dynd::(ndt::)?print_[a-z_]*\\(.*|dynd::intrusive_ptr<.*>::~?[a-z_]*\\(.*|"
                             "dynd::ndt::type::~?type\\(.*|dynd::ndt::type dynd::ndt::make_type<.*|dynd::ndt::make_type<.*|"
                             "dynd::intrusive_ptr_re.*|dynd::ndt::type::[a-z_]*\\(.*|dynd::ndt::traits<.*>::equivalent\\(.*|"
                             "dynd::string::(begin|end)\\(\\).*|dynd::ndt::base_type::[a-z_]*\\(.*|dynd::ndt::.*::get_[a-z_]*\\(.*|"
                             "dynd::[a-z_0-9]*<.*>::operator.*|dynd::operator<<.*)");
  return std::regex_match(dem(n), re);
}
// every throw inside the region that starts at B; gathers type infos and calls
static bool regionBenign(BasicBlock *B, const std::map<BasicBlock *, bool> &inev, std::set<Value *> &tis,
                         std::set<string> &calls, BasicBlock::iterator from) {
  std::set<BasicBlock *> seen;
  std::vector<BasicBlock *> wl;
  bool first = true;
  wl.push_back(B);
  while (!wl.empty()) {
    auto *b = wl.back();
    wl.pop_back();
    if (!seen.insert(b).second && !first)
      continue;
    for (auto it = first ? from : b->begin(); it != b->end(); ++it) {
      Instruction &I = *it;
      const CallBase *tc;
      if (isThrowCall(&I, &tc)) {
        if (tc->getCalledFunction()->getName() == "__vp_throw")
          tis.insert(tc->getArgOperand(0)->stripPointerCasts());
        else
          tis.insert(tc->getArgOperand(1)->stripPointerCasts());
        continue;
      }
      if (auto *c = dyn_cast<CallBase>(&I)) {
        if (auto *f = c->getCalledFunction()) {
          string t;
          if (libThrow(f->getName(), t)) {
            tis.insert(tiGlobal(t));
            continue;
          }
          if (alwaysThrows.count(f)) {
            tis.insert(alwaysThrows[f]);
            continue;
          }
        }
        if (!benignCall(c))
          return false;
        if (auto *f = c->getCalledFunction())
          if (!f->isIntrinsic())
            calls.insert(dem(f->getName()));
      }
      if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) return false;
      if (auto *s = dyn_cast<StoreInst>(&I)) {
        auto *o = getUnderlyingObject(s->getPointerOperand());
        if (!isa<AllocaInst>(o) && !isa<CallBase>(o))
          return false;
      }
    }
    first = false;
    auto *t = b->getTerminator();
    if (auto *iv = dyn_cast<InvokeInst>(t)) {
      if (iv->getNormalDest() && !isThrowCall(iv))
        wl.push_back(iv->getNormalDest());
    } else
      for (auto *s : successors(b))
        wl.push_back(s);
  }
  return true;
}
static FunctionCallee vpThrow() {
  auto &C = M->getContext();
  auto fc = M->getOrInsertFunction("__vp_throw", FunctionType::get(Type::getVoidTy(C), {PointerType::getUnqual(C)}, false));
  cast<Function>(fc.getCallee())->addFnAttr(Attribute::NoReturn);
  return fc;
}
static bool collapseThrows(Function &F) {
  bool changed = false;
  std::map<BasicBlock *, bool> inev;
  std::set<BasicBlock *> ehBlocks;
  for (auto &B : F)
    if (B.isLandingPad())
      ehBlocks.insert(&B);
  for (auto &B : F)
    inev[&B] = true;
  auto callThrows = [&](Instruction &I) {
    if (isThrowCall(&I))
      return true;
    if (auto *c = dyn_cast<CallBase>(&I))
      if (auto *f = c->getCalledFunction()) {
        string t;
        return libThrow(f->getName(), t) || alwaysThrows.count(f) > 0;
      }
    return false;
  };
  bool it = true;
  while (it) {
    it = false;
    for (auto &B : F) {
      if (!inev[&B])
        continue;
      bool r = false, thr = false;
      for (auto &I : B)
        if (callThrows(I))
          thr = true;
      auto *t = B.getTerminator();
      if (thr)
        r = true;
      else if (isa<ReturnInst>(t) || isa<ResumeInst>(t) || isa<UnreachableInst>(t))
        r = false;
      else if (auto *iv = dyn_cast<InvokeInst>(t))
        r = inev[iv->getNormalDest()];
      else {
        r = true;
        for (auto *s : successors(&B))
          r = r && inev[s];
      }
      if (!r) {
        inev[&B] = false;
        it = true;
      }
    }
  }
  // candidate heads: inevitable, not landing pads, first call position
  std::vector<BasicBlock *> rpo;
  for (auto *B : ReversePostOrderTraversal<Function *>(&F))
    rpo.push_back(B);
  std::set<BasicBlock *> dead;
  for (auto *B : rpo) {
    if (!inev[B] || dead.count(B) || B->isLandingPad())
      continue;
    // find the first instruction that is a benign call
    for (auto p = B->getFirstNonPHIOrDbg()->getIterator(); p != B->end(); ++p) {
      auto *c = dyn_cast<CallBase>(&*p);
      if (!c || isa<IntrinsicInst>(c))
        continue;
      std::set<Value *> tis;
      std::set<string> calls;
      if (!regionBenign(B, inev, tis, calls, p)) {
        continue;
      }
      if (tis.empty())
        break;
      // unwind destination: that of the first invoke met along normal flow
      BasicBlock *lp = nullptr;
      bool directCallMayThrow = false;
      {
        std::set<BasicBlock *> seen;
        BasicBlock *b = B;
        auto q = p;
        while (b && seen.insert(b).second) {
          for (; q != b->end(); ++q) {
            if (auto *iv = dyn_cast<InvokeInst>(&*q)) {
              lp = iv->getUnwindDest();
              goto found;
            }
            if (auto *cc = dyn_cast<CallInst>(&*q))
              if (!isa<IntrinsicInst>(cc) && !cc->doesNotThrow()) {
                directCallMayThrow = true;
                goto found;
              }
          }
          auto *t = b->getTerminator();
          if (t->getNumSuccessors() == 0)
            break;
          b = t->getSuccessor(0);
          q = b->begin();
        }
      found:;
      }
      (void)directCallMayThrow;
      for (auto &s : calls)
        droppedCalls.insert(s);
      Value *ti = *tis.begin();
      if (tis.size() > 1) { // deterministic choice by name
        for (auto *v : tis)
          if (v->getName() < ti->getName())
            ti = v;
      }
      // remove the tail of B from p, detach successors
      std::vector<BasicBlock *> succs(succ_begin(B), succ_end(B));
      std::map<PHINode *, Value *> lpPhi;
      BasicBlock *lpPredOld = nullptr;
      if (lp) { // remember phi values for the landing pad from the original invoke block
        for (auto *pb : predecessors(lp)) {
          auto *iv = dyn_cast<InvokeInst>(pb->getTerminator());
          (void)iv;
        }
        // the block holding the first invoke
        std::set<BasicBlock *> seen;
        BasicBlock *b = B;
        while (b && seen.insert(b).second) {
          if (auto *iv = dyn_cast<InvokeInst>(b->getTerminator()))
            if (iv->getUnwindDest() == lp) {
              lpPredOld = b;
              break;
            }
          if (b->getTerminator()->getNumSuccessors() == 0)
            break;
          b = b->getTerminator()->getSuccessor(0);
        }
        if (!lpPredOld) {
          errs() << "ll2c: warn: no lp pred\n";
          break;
        }
        for (auto &ph : lp->phis())
          lpPhi[&ph] = ph.getIncomingValueForBlock(lpPredOld);
      }
      // values from the removed part used in lp phis -> replace by poison
      auto inRemoved = [&](Value *v) {
        auto *I = dyn_cast<Instruction>(v);
        if (!I)
          return false;
        if (I->getParent() == B)
          return !I->comesBefore(&*p) ;
        DominatorTree DT(F);
        return !DT.dominates(I->getParent(), B);
      };
      for (auto &kv : lpPhi)
        if (inRemoved(kv.second))
          kv.second = PoisonValue::get(kv.second->getType());
      for (auto *s : succs)
        s->removePredecessor(B, true);
      while (&B->back() != &*p) {
        auto *I = &B->back();
        if (!I->use_empty())
          I->replaceAllUsesWith(PoisonValue::get(I->getType()));
        I->eraseFromParent();
      }
      {
        auto *I = &*p;
        if (!I->use_empty())
          I->replaceAllUsesWith(PoisonValue::get(I->getType()));
        I->eraseFromParent();
      }
      IRBuilder<> bld(B);
      if (lp) {
        auto *un = BasicBlock::Create(M->getContext(), "unr", &F);
        bld.CreateInvoke(vpThrow(), un, lp, {ti});
        IRBuilder<>(un).CreateUnreachable();
        for (auto &ph : lp->phis())
          if (ph.getBasicBlockIndex(B) < 0)
            ph.addIncoming(lpPhi[&ph], B);
      } else {
        bld.CreateCall(vpThrow(), {ti});
        bld.CreateUnreachable();
      }
      changed = true;
      break;
    }
  }
  if (changed)
    EliminateUnreachableBlocks(F);
  // does the function always throw?
  auto *e = &F.getEntryBlock();
  if (auto *t = dyn_cast<UnreachableInst>(e->getTerminator())) {
    (void)t;
    for (auto &I : *e)
      if (auto *c = dyn_cast<CallInst>(&I))
        if (c->getCalledFunction() && c->getCalledFunction()->getName() == "__vp_throw") {
          bool onlyThat = true;
          for (auto &J : *e)
            if (&J != c && (J.mayWriteToMemory()))
              onlyThat = false;
          if (onlyThat)
            alwaysThrows[&F] = c->getArgOperand(0);
        }
  }
  return changed;
}

// ------------------------------------------------------------------ C emission
struct Emit {
  std::ostringstream types, protos, globs, body;
  std::map<Type *, string> tname; unsigned ntname = 0;
  // option "ptrbuf": raw byte buffers held in objects ([8k x i8]) are declared as arrays of pointers,
  // so that the back end keeps the pointers stored in them typed (addressing is by byte offset anyway)
  bool ptrbuf = false;
  unsigned ptrBuf(Type *t) {
    auto *at = dyn_cast<ArrayType>(t);
    if (!ptrbuf || !at || !at->getElementType()->isIntegerTy(8)) return 0;
    uint64_t n = at->getNumElements();
    return n >= 8 && n % 8 == 0 && n <= 512 ? n / 8 : 0;
  }
  std::set<Function *> doneF, queuedF;
  std::vector<Function *> wl;
  std::set<GlobalVariable *> seenG, preSeen; // preSeen: every global the harness reaches (first pass)
  std::vector<GlobalVariable *> gl;
  std::map<FunctionType *, string> dispatch;
  std::vector<FunctionType *> dispTypes;
  std::set<string> externs, underContract;
  std::set<Function *> addrTaken;
  std::set<std::pair<string, string>> tiPairs;
  bool cut = false;
  int loopCount = 0, cutLoops = 0;
  std::map<string, string> fname;
  std::set<string> stubs;
  std::ostringstream ghostsJson;

  string cty(Type *t) {
    if (t->isVoidTy())
      return "void";
    if (t->isPointerTy())
      return "ptr";
    if (auto *it = dyn_cast<IntegerType>(t)) {
      unsigned n = it->getBitWidth();
      if (n == 1)
        return "_Bool";
      if (n == 8 || n == 16 || n == 32 || n == 64 || n == 128)
        return "u" + std::to_string(n);
      auto &s = tname[t];
      if (s.empty()) {
        s = "bv" + std::to_string(n);
        types << "typedef unsigned __CPROVER_bitvector[" << n << "] bv" << n << ";\n";
        types << "typedef signed __CPROVER_bitvector[" << n << "] sbv" << n << ";\n";
      }
      return s;
    }
    if (t->isFloatTy())
      return "float";
    if (t->isDoubleTy())
      return "double";
    if (t->isX86_FP80Ty())
      return "long double";
    if (t->isFP128Ty())
      return "__float128";
    auto &s = tname[t];
    if (!s.empty())
      return s;
    if (auto *st = dyn_cast<StructType>(t)) {
      string nm = "S" + std::to_string(++ntname);
      s = "struct " + nm;
      string b;
      if (st->isOpaque())
        die("opaque struct");
      for (unsigned i = 0; i < st->getNumElements(); i++) {
        Type *et = st->getElementType(i);
        string e = cmem(et);
        if (unsigned k = ptrBuf(et)) {
          string nm = "P" + std::to_string(++ntname);
          types << "struct " << nm << " { ptr e[" << k << "]; };\n";
          e = "struct " + nm;
        }
        b += "  " + e + " f" + std::to_string(i) + ";\n";
      }
      if (st->getNumElements() == 0)
        b = "";
      types << "struct " << nm << " {\n" << b << "}" << (st->isPacked() ? " __attribute__((packed))" : "") << ";\n";
      tname[t] = "struct " + nm;
      return tname[t];
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      string e = cmem(at->getElementType());
      string nm = "A" + std::to_string(++ntname);
      types << "struct " << nm << " { " << e << " e[" << std::max<uint64_t>(at->getNumElements(), 1) << "]; };\n";
      tname[t] = "struct " + nm;
      return tname[t];
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      string e = cmem(vt->getElementType());
      string nm = "V" + std::to_string(++ntname);
      types << "struct " << nm << " { " << e << " e[" << vt->getNumElements() << "]; };\n";
      tname[t] = "struct " + nm;
      return tname[t];
    }
    die("type " + pr(*t));
  }
  // in-memory type
  string cmem(Type *t) {
    if (t->isIntegerTy(1))
      return "u8";
    if (t->isIntegerTy()) {
      unsigned n = t->getIntegerBitWidth();
      if (!(n == 8 || n == 16 || n == 32 || n == 64 || n == 128)) {
        if (n % 8 == 0) return cty(t);
        die("odd int in memory");
      }
    }
    return cty(t);
  }
  string scty(Type *t) {
    unsigned n = t->getIntegerBitWidth();
    if (n == 8 || n == 16 || n == 32 || n == 64 || n == 128)
      return "s" + std::to_string(n);
    cty(t);
    return "sbv" + std::to_string(n);
  }

  string fn(Function *f) {
    string n = f->getName().str();
    auto it = fname.find(n);
    if (it != fname.end())
      return it->second;
    string c = cident(n);
    if (!f->isDeclaration() && !StringRef(n).starts_with("__vp_") )
      c = "F_" + c;
    else
      c = "X_" + c;
    fname[n] = c;
    return c;
  }
  void need(Function *f) {
    if (queuedF.insert(f).second)
      wl.push_back(f);
  }
  string gname(GlobalVariable *g) {
    if (seenG.insert(g).second)
      gl.push_back(g);
    return "G_" + cident(g->getName());
  }

  string intc(const APInt &a, Type *t) {
    unsigned n = a.getBitWidth();
    if (n == 1)
      return a.isZero() ? "0" : "1";
    string c = cty(t);
    SmallString<64> s;
    if (n <= 64) {
      a.toStringUnsigned(s);
      return "((" + c + ")" + s.str().str() + (n > 32 ? "ull" : "u") + ")";
    }
    // wide
    string r = "((" + c + ")0";
    for (unsigned i = 0; i * 64 < n; i++) {
      uint64_t w = a.extractBitsAsZExtValue(std::min(64u, n - i * 64), i * 64);
      r += "|((" + c + ")" + std::to_string(w) + "ull<<" + std::to_string(i * 64) + ")";
    }
    return r + ")";
  }
  string zero(Type *t) {
    if (t->isPointerTy())
      return "((ptr)0)";
    if (t->isIntegerTy())
      return "((" + cty(t) + ")0)";
    if (t->isFloatingPointTy())
      return "((" + cty(t) + ")0)";
    return "(" + cty(t) + "){0}";
  }
  string fpc(const ConstantFP *c) {
    APInt b = c->getValueAPF().bitcastToAPInt();
    if (c->getType()->isFloatTy())
      return "vp_bf(" + std::to_string(b.getZExtValue()) + "u)";
    if (c->getType()->isDoubleTy())
      return "vp_bd(" + std::to_string(b.getZExtValue()) + "ull)";
    if (c->getType()->isX86_FP80Ty()) {
      bool li;
      APFloat f = c->getValueAPF();
      f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
      if (li)
        return "((long double)vp_unsupported_fp80())";
      return "((long double)vp_bd(" + std::to_string(f.bitcastToAPInt().getZExtValue()) + "ull))";
    }
    die("fp const");
  }
  // static initialiser / constant expression
  string konst(Constant *c, bool init = false) {
    if (auto *ci = dyn_cast<ConstantInt>(c))
      return intc(ci->getValue(), c->getType());
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
      if (init) {
        // static initialisers: exact hex float
        const APFloat &f = cf->getValueAPF();
        if (f.isFinite()) {
          char buf[128];
          double d = cf->getType()->isX86_FP80Ty() ? 0.0 : (cf->getType()->isFloatTy() ? (double)f.convertToFloat() : f.convertToDouble());
          snprintf(buf, sizeof buf, "%a", d);
          return string(buf) + (cf->getType()->isFloatTy() ? "f" : "");
        }
        if (f.isInfinity())
          return f.isNegative() ? "(-__builtin_inff())" : "__builtin_inff()";
        return "(0.0f/0.0f)";
      }
      return fpc(cf);
    }
    if (isa<ConstantPointerNull>(c))
      return "((ptr)0)";
    if (isa<UndefValue>(c)) { // also poison
      if (init)
        return c->getType()->isAggregateType() ? "{0}" : zero(c->getType());
      return undefv(c->getType());
    }
    if (auto *f = dyn_cast<Function>(c)) {
      need(f);
      addrTaken.insert(f);
      return "((ptr)&" + fn(f) + ")";
    }
    if (auto *g = dyn_cast<GlobalVariable>(c))
      return "((ptr)&" + gname(g) + ")";
    if (auto *ga = dyn_cast<GlobalAlias>(c))
      return konst(ga->getAliasee(), init);
    if (isa<ConstantAggregateZero>(c))
      return init ? "{0}" : zero(c->getType());
    if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
      string r = isa<ArrayType>(c->getType()) || isa<VectorType>(c->getType()) ? "{{" : "{";
      for (unsigned i = 0; i < cds->getNumElements(); i++)
        r += (i ? "," : "") + konst(cds->getElementAsConstant(i), init);
      r += "}}";
      return init ? r : "(" + cty(c->getType()) + ")" + r;
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
      bool arr = !isa<ConstantStruct>(c);
      string r = arr ? "{{" : "{";
      for (unsigned i = 0; i < ca->getNumOperands(); i++)
        r += (i ? "," : "") + konst(cast<Constant>(ca->getOperand(i)), init);
      if (ca->getNumOperands() == 0) r += "";
      r += arr ? "}}" : "}";
      return init ? r : "(" + cty(c->getType()) + ")" + r;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
          die("gep const");
        return "(" + konst(ce->getOperand(0), init) + "+(" + std::to_string(off.getSExtValue()) + "ll))";
      }
      case Instruction::BitCast:
      case Instruction::AddrSpaceCast:
        return konst(ce->getOperand(0), init);
      case Instruction::PtrToInt:
        return "((" + cty(ce->getType()) + ")(u64)" + konst(ce->getOperand(0), init) + ")";
      case Instruction::IntToPtr:
        return "((ptr)(u64)" + konst(ce->getOperand(0), init) + ")";
      case Instruction::Trunc:
        if (ce->getType()->isIntegerTy(1)) return "((_Bool)(" + konst(ce->getOperand(0), init) + "&1))";
        return "((" + cty(ce->getType()) + ")" + konst(ce->getOperand(0), init) + ")";
      case Instruction::ZExt:
        return "((" + cty(ce->getType()) + ")" + konst(ce->getOperand(0), init) + ")";
      case Instruction::Add:
        return "((" + cty(ce->getType()) + ")(" + konst(ce->getOperand(0), init) + "+" + konst(ce->getOperand(1), init) + "))";
      case Instruction::Sub:
        return "((" + cty(ce->getType()) + ")(" + konst(ce->getOperand(0), init) + "-" + konst(ce->getOperand(1), init) + "))";
      case Instruction::And:
        return "((" + cty(ce->getType()) + ")(" + konst(ce->getOperand(0), init) + "&" + konst(ce->getOperand(1), init) + "))";
      case Instruction::ICmp: {
        auto *cmp = ce;
        string p = cmp->getPredicate() == CmpInst::ICMP_EQ ? "==" : cmp->getPredicate() == CmpInst::ICMP_NE ? "!=" : "";
        if (p.empty())
          die("icmp constexpr");
        return "((_Bool)(" + konst(ce->getOperand(0), init) + p + konst(ce->getOperand(1), init) + "))";
      }
      default:
        die("constexpr " + pr(*ce));
      }
    }
    die("const " + pr(*c));
  }
  std::set<string> undefTypes;
  string undefv(Type *t) {
    string c = cty(t);
    string n = "vp_undef_" + cident(c);
    if (undefTypes.insert(n).second)
      types << c << " " << n << "(void){ " << c << " x; return x; }\n";
    return n + "()";
  }

  // ---- per function
  Function *F = nullptr;
  std::map<Value *, string> vn;
  std::map<BasicBlock *, string> bn;
  std::ostringstream o;
  std::ostringstream decls;
  int tmpn = 0;
  LoopInfo *LI = nullptr;

  string val(Value *v) {
    if (auto *c = dyn_cast<Constant>(v))
      return konst(c);
    auto it = vn.find(v);
    if (it != vn.end())
      return it->second;
    if (auto *a = dyn_cast<AllocaInst>(v)) {
      return vn[a];
    }
    if (isa<MetadataAsValue>(v))
      return "0";
    die("value? " + pr(*v) + " in " + F->getName().str());
  }
  string loc(Instruction *I) {
    string r;
    if (auto &d = I->getDebugLoc()) {
      auto *l = d.get();
      StringRef f = l->getFilename();
      auto p = f.rfind("/repo/");
      (void)p;
      r = f.str() + ":" + std::to_string(l->getLine());
    }
    return r;
  }
  string fdem() {
    string d = dem(F->getName());
    if (d.size() > 140)
      d = d.substr(0, 140) + "...";
    return jesc(d);
  }
  static bool isCallNoThrow(CallBase *c) { return c->doesNotThrow(); }
  string retDefault() {
    Type *t = F->getReturnType();
    if (t->isVoidTy())
      return "return;";
    return "return " + undefv(t) + ";";
  }
  // edge from block a to b : phi copies + goto
  void edge(BasicBlock *a, BasicBlock *b, const string &ind) {
    std::vector<std::pair<string, string>> cp;
    for (auto &p : b->phis()) {
      Value *iv = p.getIncomingValueForBlock(a);
      if (isa<PoisonValue>(iv) || isa<UndefValue>(iv)) {
        cp.push_back({vn[&p], undefv(p.getType())});
        continue;
      }
      string s = val(iv);
      if (s != vn[&p])
        cp.push_back({vn[&p], s});
    }
    o << ind << "{ ";
    for (auto &kv : cutL)
      if (kv.second->contains(a) && !kv.second->contains(b))
        o << "vp_cut_depth--; ";
    if (cp.size() == 1)
      o << cp[0].first << " = " << cp[0].second << "; ";
    else {
      int k = 0;
      for (auto &p : b->phis()) {
        for (auto &c : cp)
          if (c.first == vn[&p]) {
            o << cty(p.getType()) << " t" << k << " = " << c.second << "; ";
            k++;
          }
      }
      k = 0;
      for (auto &p : b->phis())
        for (auto &c : cp)
          if (c.first == vn[&p]) {
            o << c.first << " = t" << k << "; ";
            k++;
          }
    }
    if (cut && cutL.count(b)) {
      Loop *L = cutL[b];
      if (L->contains(a))
        o << "goto " << bn[b] << "_latch; }\n";
      else
        o << "goto " << bn[b] << "_pre; }\n";
    } else
      o << "goto " << bn[b] << "; }\n";
  }

  // ------------------------------------------------------------ loop cutting
  std::map<BasicBlock *, Loop *> cutL;
  std::vector<string> ghostCells;           // C lvalues of ghost cells, u64
  string stepFn, invFn;
  int candId = 0;
  std::ostringstream candJson;
  // memory cells (allocas of this function) written in the loop
  struct Cell {
    string lv; // u64 rvalue expression
    string hv; // havoc statement
    string nm;
    unsigned bits;
  };
  std::set<Function *> writesSeen;
  void collectWrites(Instruction &I, std::set<Value *> &objs, bool &unknown, std::set<Function *> &seen) {
    if (auto *s = dyn_cast<StoreInst>(&I)) {
      SmallVector<const Value *, 4> os;
      getUnderlyingObjects(s->getPointerOperand(), os);
      for (auto *ob : os) {
        if (isa<AllocaInst>(ob) || isa<GlobalVariable>(ob))
          objs.insert(const_cast<Value *>(ob));
        else
          unknown = true;
      }
    } else if (auto *mi = dyn_cast<MemIntrinsic>(&I)) {
      SmallVector<const Value *, 4> os;
      getUnderlyingObjects(mi->getDest(), os);
      for (auto *ob : os) {
        if (isa<AllocaInst>(ob) || isa<GlobalVariable>(ob))
          objs.insert(const_cast<Value *>(ob));
        else
          unknown = true;
      }
    } else if (auto *c = dyn_cast<CallBase>(&I)) {
      std::vector<Function *> cs;
      if (auto *f = c->getCalledFunction())
        cs.push_back(f);
      else {
        for (auto &g : *M)
          if (g.hasAddressTaken() && g.getFunctionType() == c->getFunctionType())
            cs.push_back(&g);
      }
      for (auto *f : cs) {
        if (f->isDeclaration())
          continue;
        if (!seen.insert(f).second)
          continue;
        for (auto &J : instructions(f)) {
          // allocas of the callee itself are its own business
          std::set<Value *> ob2;
          collectWrites(J, ob2, unknown, seen);
          for (auto *v : ob2)
            if (isa<GlobalVariable>(v))
              objs.insert(v);
        }
      }
      // pointer arguments that are allocas escape into callees
      for (auto &a : c->args())
        if (a->getType()->isPointerTy()) {
          SmallVector<const Value *, 4> os;
          getUnderlyingObjects(a, os);
          for (auto *ob : os)
            if (isa<AllocaInst>(ob)) {
              bool ro = false;
              if (auto *f = c->getCalledFunction())
                ro = f->onlyReadsMemory();
              if (isa<IntrinsicInst>(c) && cast<IntrinsicInst>(c)->isLifetimeStartOrEnd())
                ro = true;
              if (!ro)
                escaped.insert(const_cast<Value *>(ob));
            }
        }
    }
  }
  std::set<Value *> escaped;
  void flatten(const string &base, Type *t, std::vector<std::pair<string, Type *>> &out, unsigned lim) {
    if (out.size() > lim)
      return;
    if (auto *st = dyn_cast<StructType>(t)) {
      for (unsigned i = 0; i < st->getNumElements(); i++)
        flatten(base + ".f" + std::to_string(i), st->getElementType(i), out, lim);
    } else if (unsigned k = base.find('.') == string::npos ? 0 : ptrBuf(t)) {
      for (unsigned i = 0; i < k && out.size() <= lim; i++)
        out.push_back({base + ".e[" + std::to_string(i) + "]", PointerType::get(t->getContext(), 0)});
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
      for (unsigned i = 0; i < at->getNumElements() && out.size() <= lim; i++)
        flatten(base + ".e[" + std::to_string(i) + "]", at->getElementType(), out, lim);
    } else
      out.push_back({base, t});
  }
  void emitCutHeader(BasicBlock *B) {
    Loop *L = cutL[B];
    string id = bn[B];
    std::set<Value *> objs;
    bool unknown = false;
    std::set<Function *> seen;
    escaped.clear();
    for (auto *b : L->blocks())
      for (auto &I : *b)
        collectWrites(I, objs, unknown, seen);
    // allocas whose address is passed to a call in the loop: conservatively written
    // unless the callee is only the harness' stub taking arrays of pointers (still havoced)
    struct V {
      string e;  // expression as u64 (sign ext)
      string e0; // saved
      string h;  // havoc
      string nm;
      bool ghost;
      bool isp;
    };
    std::vector<V> vs;
    auto asu = [&](const string &e, Type *t) -> string {
      if (t->isPointerTy())
        return "(u64)" + e;
      if (t->isIntegerTy(1))
        return "(u64)" + e;
      return "(u64)(s64)(" + scty(t) + ")" + e;
    };
    std::ostringstream hav;
    for (auto &p : B->phis()) {
      string n = vn[&p];
      hav << "    " << n << " = " << undefv(p.getType()) << ";\n";
      if (p.getType()->isPointerTy() || (p.getType()->isIntegerTy() && p.getType()->getIntegerBitWidth() <= 64))
        vs.push_back({asu(n, p.getType()), "", "", p.hasName() ? p.getName().str() : n, false, p.getType()->isPointerTy()});
    }
    std::set<Value *> all = objs;
    for (auto *v : escaped)
      all.insert(v);
    if (unknown) {
      // a store through an unknown pointer may reach any local or global whose address was captured
      for (auto &I : instructions(*B->getParent()))
        if (isa<AllocaInst>(I) && PointerMayBeCaptured(&I, true, true))
          all.insert(&I);
      for (auto &g : M->globals())
        if (!g.isConstant() && !g.isDeclaration() && !g.getName().starts_with("__vp_") && !g.getName().starts_with("_ZT") && PointerMayBeCaptured(&g, true, true) && preSeen.count(&g))
          all.insert(&g);
    }
    for (auto *v : all) {
      string base;
      Type *t;
      bool ghost = false;
      if (auto *a = dyn_cast<AllocaInst>(v)) {
        if (L->contains(a->getParent()))
          continue;
        base = vn[a].substr(7, vn[a].size() - 8); // "((ptr)&X)" -> X
        t = a->getAllocatedType();
      } else {
        auto *g = cast<GlobalVariable>(v);
        if (g->isConstant()) continue;
        base = gname(g);
        t = g->getValueType();
        ghost = g->getName().contains("g_vp");
      }
      std::vector<std::pair<string, Type *>> cells;
      flatten(base, t, cells, 40);
      if (cells.size() > 40) {
        hav << "    __CPROVER_havoc_object(&" << base << ");\n";
        continue;
      }
      for (auto &c : cells) {
        hav << "    " << c.first << " = " << (c.second->isIntegerTy(1) ? string("vp_undef__Bool()") : undefv(c.second)) << ";\n";
        if (c.second->isPointerTy() || (c.second->isIntegerTy() && c.second->getIntegerBitWidth() <= 64))
          vs.push_back({asu(c.first, c.second), "", "", c.first, ghost, c.second->isPointerTy()});
      }
    }
    if (unknown) {
      // unknown stores: only into declared regions (checked at each store), havoc those
      if (!sparse)
        hav << "    vp_region_havoc();\n";
      else { // the whole heap
        hav << "    vp_sparse_havoc();\n";
        for (int i = 0; i < 6; i++)
          vs.push_back({"(u64)vp_tv[" + std::to_string(i) + "]", "", "", "heap byte " + std::to_string(i), false, false});
        for (int i = 0; i < 6; i++)
          vs.push_back({"vp_hdr[" + std::to_string(i) + "]", "", "", "heap word " + std::to_string(i), false, false});
      }
    }
    // candidates
    std::vector<string> conds, names;
    for (size_t i = 0; i < vs.size(); i++) {
      vs[i].e0 = id + "_s" + std::to_string(i);
      decls << "  u64 " << vs[i].e0 << ";\n";
    }
    auto cand = [&](const string &c, const string &n) {
      conds.push_back(c);
      names.push_back(n);
    };
    for (size_t i = 0; i < vs.size(); i++) {
      cand("(" + vs[i].e + ")==" + vs[i].e0, vs[i].nm + " unchanged");
      if (!vs[i].isp && !vs[i].ghost) {
        cand("(s64)(" + vs[i].e + ")>=(s64)" + vs[i].e0, vs[i].nm + " >= init");
        cand("(s64)(" + vs[i].e + ")<=(s64)" + vs[i].e0, vs[i].nm + " <= init");
        cand("(s64)(" + vs[i].e + ")>=0", vs[i].nm + " >= 0");
      }
      for (size_t j = 0; j < i; j++) {
        if (vs[i].isp != vs[j].isp)
          continue;
        bool mix = vs[i].ghost != vs[j].ghost;
        bool pp = !vs[i].ghost && !vs[j].ghost;
        if (vs[i].isp) {
          if (vs[i].ghost && vs[j].ghost) {
            cand("(" + vs[i].e + ")<(" + vs[j].e + ")", vs[i].nm + "<" + vs[j].nm);
            cand("(" + vs[j].e + ")<(" + vs[i].e + ")", vs[j].nm + "<" + vs[i].nm);
          }
          if (mix)
            cand("(" + vs[i].e + ")==(" + vs[j].e + ")", vs[i].nm + "==" + vs[j].nm);
        } else if (mix || pp) {
          cand("((" + vs[i].e + ")-(" + vs[j].e + "))==(" + vs[i].e0 + "-" + vs[j].e0 + ")", vs[i].nm + "-" + vs[j].nm + " const");
          cand("((" + vs[i].e + ")+(" + vs[j].e + "))==(" + vs[i].e0 + "+" + vs[j].e0 + ")", vs[i].nm + "+" + vs[j].nm + " const");
        }
      }
    }
    int base = candId;
    candId += conds.size();
    for (size_t i = 0; i < names.size(); i++)
      candJson << (base + i ? ",\n" : "") << "\"" << jesc(names[i] + " @loop " + fdem()) << "\"";
    cutLoops++;
    o << id << "_pre:;\n";
    for (auto &v : vs)
      o << "    " << v.e0 << " = " << v.e << ";\n";
    for (size_t i = 0; i < conds.size(); i++)
      o << "    VP_CAND_ASSERT(" << base + i << ", " << conds[i] << ", \"base\");\n";
    if (!invFn.empty())
      o << "    __CPROVER_assert(" << invFn << "(), \"loop invariant holds on entry: " << fdem() << "\");\n";
    o << hav.str();
    for (size_t i = 0; i < conds.size(); i++)
      o << "    VP_CAND_ASSUME(" << base + i << ", " << conds[i] << ");\n";
    if (!invFn.empty())
      o << "    __CPROVER_assume(" << invFn << "());\n";
    o << "    vp_cut_depth++; vp_nfresh=0;\n    goto " << id << ";\n";
    o << id << "_latch:;\n";
    if (!stepFn.empty())
      o << "    " << stepFn << "();\n";
    for (size_t i = 0; i < conds.size(); i++)
      o << "    VP_CAND_ASSERT(" << base + i << ", " << conds[i] << ", \"step\");\n";
    if (!invFn.empty())
      o << "    __CPROVER_assert(" << invFn << "(), \"loop invariant preserved: " << fdem() << "\");\n";
    o << "    __CPROVER_assume(0);\n";
    o << id << ":;\n";
  }

  // ------------------------------------------------------------ calls
  bool region = false, sparse = false;
  bool localOnly(Value *p) {
    SmallVector<const Value *, 4> os;
    getUnderlyingObjects(p, os);
    for (auto *ob : os)
      if (!isa<AllocaInst>(ob) && !isa<GlobalVariable>(ob))
        return false;
    return true;
  }
  // read of a value of C type T through p (heap memory is sparse under option "sparse")
  string rd(const string &T, const string &p, Value *pv) {
    if (!sparse || localOnly(pv))
      return "*(" + T + "*)(" + p + ")";
    string w = "vp_sld(" + p + ",sizeof(" + T + "))", c;
    if (T == "float")
      c = "vp_bf((u32)" + w + ")";
    else if (T == "double")
      c = "vp_bd(" + w + ")";
    else
      c = "(" + T + ")" + w;
    return "__CPROVER_DYNAMIC_OBJECT(" + p + ")?" + c + ":*(" + T + "*)(" + p + ")";
  }
  string wr(const string &T, const string &p, const string &v, Value *pv) {
    if (!sparse || localOnly(pv))
      return "*(" + T + "*)(" + p + ") = " + v + ";";
    string u = T == "float" ? "vp_fb(" + v + ")" : T == "double" ? "vp_db(" + v + ")" : "(u64)" + v;
    return "if(__CPROVER_DYNAMIC_OBJECT(" + p + ")) vp_sst(" + p + "," + u + ",sizeof(" + T + ")); else *(" + T + "*)(" + p + ") = " + v + ";";
  }
  string args(CallBase *c, unsigned from = 0) {
    string r;
    for (unsigned i = from; i < c->arg_size(); i++) {
      Value *a = c->getArgOperand(i);
      string s;
      if (isa<PoisonValue>(a) || isa<UndefValue>(a))
        s = undefv(a->getType());
      else
        s = val(a);
      if (c->isByValArgument(i)) {
        Type *t = c->getParamByValType(i);
        string tn = "bv_" + std::to_string(tmpn++);
        decls << "  " << cty(t) << " " << tn << ";\n";
        o << "    " << tn << " = *(" << cty(t) << "*)" << s << ";\n";
        s = "((ptr)&" + tn + ")";
      }
      r += (i > from ? ", " : "") + s;
    }
    return r;
  }
  string strArg(Value *v) {
    v = v->stripPointerCasts();
    StringRef s;
    if (getConstantStringInfo(v, s))
      return jesc(s.str());
    return "?";
  }
  void assign(Instruction *I, const string &e) { o << "    " << vn[I] << " = " << e << ";\n"; }

  bool intrinsic(CallBase *c) {
    auto *f = c->getCalledFunction();
    if (!f || !f->isIntrinsic())
      return false;
    auto A = [&](unsigned i) { return val(c->getArgOperand(i)); };
    Type *t = c->getType();
    auto T = [&]() { return cty(t); };
    auto id = f->getIntrinsicID();
    switch (id) {
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_assign:
    case Intrinsic::dbg_label:
    case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_start:
    case Intrinsic::donothing:
    case Intrinsic::prefetch:
    case Intrinsic::stackrestore:
      if (!t->isVoidTy() && !c->use_empty())
        assign(c, zero(t));
      return true;
    case Intrinsic::stacksave:
      assign(c, "((ptr)0)");
      return true;
    case Intrinsic::expect:
      assign(c, A(0));
      return true;
    case Intrinsic::is_constant:
      assign(c, "0");
      return true;
    case Intrinsic::objectsize:
      assign(c, "((" + T() + ")-1)");
      return true;
    case Intrinsic::memcpy:
    case Intrinsic::memmove: {
      auto *mi = cast<MemTransferInst>(c);
      if (auto *n = dyn_cast<ConstantInt>(mi->getLength())) {
        uint64_t len = n->getZExtValue();
        if (len <= 256) {
          // element-wise, all loads before all stores (correct for memmove as well)
          string p = "mc" + std::to_string(tmpn++);
          string d = val(mi->getDest()), s = val(mi->getSource());
          o << "    {";
          uint64_t off = 0;
          std::vector<std::pair<uint64_t, int>> ch;
          unsigned al = std::min<uint64_t>(std::min<uint64_t>(mi->getDestAlign().valueOrOne().value(), mi->getSourceAlign().valueOrOne().value()), 8);
          (void)al;
          while (off < len) {
            int w = len - off >= 8 ? 8 : len - off >= 4 ? 4 : len - off >= 2 ? 2 : 1;
            ch.push_back({off, w});
            off += w;
          }
          for (auto &k : ch)
            o << " " << (k.second == 8 ? "ptr" : "u" + std::to_string(k.second * 8)) << " " << p << "_" << k.first << " = "
              << rd(k.second == 8 ? "ptr" : "u" + std::to_string(k.second * 8), "(" + s + "+" + std::to_string(k.first) + ")", mi->getSource()) << ";";
          for (auto &k : ch) {
            if (region)
              storeCheck(mi->getDest(), d + "+" + std::to_string(k.first), k.second, c);
            o << " " << wr(k.second == 8 ? "ptr" : "u" + std::to_string(k.second * 8), "(" + d + "+" + std::to_string(k.first) + ")", p + "_" + std::to_string(k.first), mi->getDest());
          }
          o << " }\n";
          return true;
        }
      }
      if (region)
        storeCheckN(mi->getDest(), val(mi->getDest()), val(mi->getLength()), c);
      o << "    vp_" << (id == Intrinsic::memcpy ? "memcpy" : "memmove") << "(" << A(0) << "," << A(1) << "," << A(2) << ");\n";
      return true;
    }
    case Intrinsic::memset: {
      auto *mi = cast<MemSetInst>(c);
      if (auto *n = dyn_cast<ConstantInt>(mi->getLength()))
        if (n->getZExtValue() <= 256) {
          uint64_t len = n->getZExtValue(), off = 0;
          string d = A(0), b = A(1);
          o << "    {";
          bool z = isa<ConstantInt>(mi->getValue()) && cast<ConstantInt>(mi->getValue())->isZero();
          while (off < len) {
            int w = len - off >= 8 ? 8 : len - off >= 4 ? 4 : len - off >= 2 ? 2 : 1;
            if (region)
              storeCheck(mi->getDest(), d + "+" + std::to_string(off), w, c);
            string W = "u" + std::to_string(w * 8), A_ = "(" + d + "+" + std::to_string(off) + ")";
            if (z && w == 8)
              o << " " << wr("ptr", A_, "(ptr)0", mi->getDest());
            else
              o << " " << wr(W, A_, "(" + W + ")((" + W + ")" + b + " * (" + W + ")0x0101010101010101ull)", mi->getDest());
            off += w;
          }
          o << " }\n";
          return true;
        }
      if (region)
        storeCheckN(mi->getDest(), val(mi->getDest()), val(mi->getLength()), c);
      o << "    vp_memset(" << A(0) << "," << A(1) << "," << A(2) << ");\n";
      return true;
    }
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::smul_with_overflow:
    case Intrinsic::umul_with_overflow: {
      Type *it = c->getArgOperand(0)->getType();
      bool s = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      string op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow)   ? "plus"
                  : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? "minus"
                                                                                                 : "mult";
      string sy = op == "plus" ? "+" : op == "minus" ? "-" : "*";
      string ct = s ? scty(it) : cty(it);
      unsigned w = it->getIntegerBitWidth();
      cty(t);
      o << "    " << vn[c] << ".f0 = (" << cty(it) << ")((" << (w < 32 ? "u32" : cty(it)) << ")" << A(0) << sy << "(" << (w < 32 ? "u32" : cty(it)) << ")" << A(1) << ");\n";
      if (w < 32) {
        string w64 = s ? "s64" : "s64";
        o << "    { s64 w_ = (s64)(" << ct << ")" << A(0) << sy << "(s64)(" << ct << ")" << A(1) << "; " << vn[c] << ".f1 = w_ != (s64)(" << ct << ")w_; }\n";
      } else
        o << "    " << vn[c] << ".f1 = __CPROVER_overflow_" << op << "((" << ct << ")" << A(0) << ",(" << ct << ")" << A(1) << ");\n";
      return true;
    }
    case Intrinsic::umax:
      assign(c, "(" + A(0) + ">" + A(1) + "?" + A(0) + ":" + A(1) + ")");
      return true;
    case Intrinsic::umin:
      assign(c, "(" + A(0) + "<" + A(1) + "?" + A(0) + ":" + A(1) + ")");
      return true;
    case Intrinsic::smax:
      assign(c, "((" + scty(t) + ")" + A(0) + ">(" + scty(t) + ")" + A(1) + "?" + A(0) + ":" + A(1) + ")");
      return true;
    case Intrinsic::smin:
      assign(c, "((" + scty(t) + ")" + A(0) + "<(" + scty(t) + ")" + A(1) + "?" + A(0) + ":" + A(1) + ")");
      return true;
    case Intrinsic::abs:
      assign(c, "((" + scty(t) + ")" + A(0) + "<0?(" + T() + ")(0-" + A(0) + "):" + A(0) + ")");
      return true;
    case Intrinsic::usub_sat:
      assign(c, "(" + A(0) + ">" + A(1) + "?(" + T() + ")(" + A(0) + "-" + A(1) + "):(" + T() + ")0)");
      return true;
    case Intrinsic::uadd_sat:
      assign(c, "((" + T() + ")(" + A(0) + "+" + A(1) + ")<" + A(0) + "?(" + T() + ")-1:(" + T() + ")(" + A(0) + "+" + A(1) + "))");
      return true;
    case Intrinsic::bswap: {
      unsigned w = t->getIntegerBitWidth();
      string r = "(" + T() + ")(";
      for (unsigned i = 0; i < w / 8; i++)
        r += string(i ? "|" : "") + "((((" + T() + ")" + A(0) + ">>" + std::to_string(8 * i) + ")&0xff)<<" + std::to_string(w - 8 - 8 * i) + ")";
      assign(c, r + ")");
      return true;
    }
    case Intrinsic::ctlz:
    case Intrinsic::cttz:
    case Intrinsic::ctpop: {
      unsigned w = t->getIntegerBitWidth();
      string nm = id == Intrinsic::ctlz ? "clz" : id == Intrinsic::cttz ? "ctz" : "pop";
      if (w > 64)
        die("wide bit intrinsic");
      assign(c, "(" + T() + ")vp_" + nm + "((u64)" + A(0) + "," + std::to_string(w) + ")");
      return true;
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
      unsigned w = t->getIntegerBitWidth();
      string W = std::to_string(w);
      string s = "((u32)(" + A(2) + "%" + W + "))";
      if (id == Intrinsic::fshl)
        assign(c, "(" + s + "==0?" + A(0) + ":(" + T() + ")((" + T() + ")(" + A(0) + "<<" + s + ")|(" + T() + ")(" + A(1) + ">>(" + W + "-" + s + "))))");
      else
        assign(c, "(" + s + "==0?" + A(1) + ":(" + T() + ")((" + T() + ")(" + A(0) + "<<(" + W + "-" + s + "))|(" + T() + ")(" + A(1) + ">>" + s + ")))");
      return true;
    }
    case Intrinsic::fabs:
      assign(c, t->isFloatTy() ? "fabsf(" + A(0) + ")" : t->isDoubleTy() ? "fabs(" + A(0) + ")" : "fabsl(" + A(0) + ")");
      return true;
    case Intrinsic::floor:
      assign(c, t->isFloatTy() ? "floorf(" + A(0) + ")" : "floor(" + A(0) + ")");
      return true;
    case Intrinsic::ceil:
      assign(c, t->isFloatTy() ? "ceilf(" + A(0) + ")" : "ceil(" + A(0) + ")");
      return true;
    case Intrinsic::trunc:
      assign(c, t->isFloatTy() ? "truncf(" + A(0) + ")" : "trunc(" + A(0) + ")");
      return true;
    case Intrinsic::fmuladd:
      assign(c, "(" + A(0) + "*" + A(1) + "+" + A(2) + ")");
      return true;
    case Intrinsic::copysign:
      assign(c, t->isFloatTy() ? "copysignf(" + A(0) + "," + A(1) + ")" : "copysign(" + A(0) + "," + A(1) + ")");
      return true;
    case Intrinsic::is_fpclass: {
      unsigned m = cast<ConstantInt>(c->getArgOperand(1))->getZExtValue();
      string x = A(0), r = "0";
      if (m & 3)
        r += "||(" + x + "!=" + x + ")";
      bool f32 = c->getArgOperand(0)->getType()->isFloatTy();
      string MX = f32 ? "0x1.fffffep127f" : "0x1.fffffffffffffp1023", MN = f32 ? "0x1p-126f" : "0x1p-1022";
      if (m & 4) r += "||(" + x + "< -" + MX + ")";
      if (m & 512) r += "||(" + x + ">" + MX + ")";
      if (m & 8) r += "||(" + x + "<= -" + MN + "&&" + x + ">= -" + MX + ")";
      if (m & 256) r += "||(" + x + ">= " + MN + "&&" + x + "<= " + MX + ")";
      if (m & 16) r += "||(" + x + "<0&&" + x + "> -" + MN + ")";
      if (m & 128) r += "||(" + x + ">0&&" + x + "< " + MN + ")";
      if ((m & 0x60) == 0x60) r += "||(" + x + "==0)";
      else if (m & 0x20) r += "||(" + x + "==0&&1/" + x + "<0)";
      else if (m & 0x40) r += "||(" + x + "==0&&1/" + x + ">0)";
      assign(c, r);
      return true;
    }
    case Intrinsic::ubsantrap: {
      unsigned k = cast<ConstantInt>(c->getArgOperand(0))->getZExtValue();
      o << "    __CPROVER_assert(0, \"UB check " << k << " in " << fdem() << "\"); __CPROVER_assume(0);\n";
      return true;
    }
    case Intrinsic::trap:
      o << "    __CPROVER_assert(0, \"trap in " << fdem() << "\"); __CPROVER_assume(0);\n";
      return true;
    case Intrinsic::eh_typeid_for: {
      auto *ti = c->getArgOperand(0)->stripPointerCasts();
      assign(c, "(u32)vp_tid(" + val(ti) + ")");
      tids.insert(cast<GlobalVariable>(ti));
      return true;
    }
    default:
      die("intrinsic " + f->getName().str());
    }
  }
  std::set<GlobalVariable *> tids;

  void storeCheckN(Value *p, const string &a, const string &n, Instruction *I) {
    SmallVector<const Value *, 4> os;
    getUnderlyingObjects(p, os);
    for (auto *ob : os)
      if (!isa<AllocaInst>(ob) && !isa<GlobalVariable>(ob)) {
        if (!sparse)
          o << "    vp_region_check(" << a << ", " << n << ");\n";
        return;
      }
  }
  void storeCheck(Value *p, const string &a, int n, Instruction *I) { storeCheckN(p, a, std::to_string(n), I); }

  void call(CallBase *c) {
    if (intrinsic(c))
      return;
    Function *f = c->getCalledFunction();
    if (!f)
      if (auto *ga = dyn_cast<GlobalAlias>(c->getCalledOperand()->stripPointerCasts()))
        f = dyn_cast<Function>(ga->getAliasee());
    if (!f)
      f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
    string lhs = c->getType()->isVoidTy() ? "" : vn[c] + " = ";
    bool mayThrow = !c->doesNotThrow();
    if (c->isInlineAsm()) {
      o << "    __CPROVER_assert(0, \"inline asm reached in " << fdem() << "\");\n";
      return;
    }
    if (f) {
      StringRef n = f->getName();
      if (n == "__vp_assert") {
        o << "    __CPROVER_assert(" << val(c->getArgOperand(0)) << ", \"" << strArg(c->getArgOperand(1)) << "\");\n";
        return;
      }
      if (n == "__vp_cover") {
        o << "    VP_COVER(" << val(c->getArgOperand(0)) << ", \"" << strArg(c->getArgOperand(1)) << "\");\n";
        return;
      }
      if (n == "__vp_assume") {
        o << "    __CPROVER_assume(" << val(c->getArgOperand(0)) << ");\n";
        return;
      }
      if (n == "__vp_throw") {
        o << "    __exc = 1; __exc_ti = " << val(c->getArgOperand(0)) << "; __exc_obj = (ptr)&__exc_buf;\n";
        tiUse(c->getArgOperand(0));
        afterThrow(c);
        return;
      }
      if (n == "__cxa_throw") {
        o << "    __exc = 1; __exc_ti = " << val(c->getArgOperand(1)) << "; __exc_obj = " << val(c->getArgOperand(0)) << ";\n";
        tiUse(c->getArgOperand(1));
        afterThrow(c);
        return;
      }
      string lt;
      if (libThrow(n, lt) && f->isDeclaration()) {
        auto *g = tiGlobal(lt);
        o << "    __exc = 1; __exc_ti = " << konst(g) << "; __exc_obj = (ptr)&__exc_buf;\n";
        tiUse(g);
        afterThrow(c);
        return;
      }
      if (n == "__cxa_rethrow") {
        o << "    __exc = 1;\n";
        afterThrow(c);
        return;
      }
      need(f);
      string a = args(c);
      // argument count mismatch (K&R style) is not expected
      o << "    " << lhs << fn(f) << "(" << a << ");\n";
      if (!f->isDeclaration() || true)
        mayThrow = mayThrow && !f->doesNotThrow();
    } else {
      FunctionType *ft = c->getFunctionType();
      auto &d = dispatch[ft];
      if (d.empty()) {
        d = "DISP" + std::to_string(dispTypes.size());
        dispTypes.push_back(ft);
      }
      string a = args(c);
      o << "    " << lhs << d << "(" << val(c->getCalledOperand()) << (a.empty() ? "" : ", ") << a << ");\n";
    }
    if (mayThrow) {
      if (isa<InvokeInst>(c))
        ; // handled by the invoke terminator
      else
        o << "    if(__exc) " << retDefault() << "\n";
    }
  }
  void tiUse(Value *v) {
    if (auto *g = dyn_cast<GlobalVariable>(v->stripPointerCasts()))
      tids.insert(g);
  }
  void afterThrow(CallBase *c) {
    if (!isa<InvokeInst>(c))
      o << "    " << retDefault() << "\n";
  }

  string bin(Instruction *I) {
    string a = val(I->getOperand(0)), b = val(I->getOperand(1));
    Type *t = I->getType();
    if (t->isVectorTy())
      return vecop(I);
    string T = cty(t);
    unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : 0;
    string U = w && w < 32 && w != 1 ? "u32" : T;
    switch (I->getOpcode()) {
    case Instruction::Add:
      if (w == 1)
        return "(" + a + "!=" + b + ")";
      return "(" + T + ")((" + U + ")" + a + "+(" + U + ")" + b + ")";
    case Instruction::Sub:
      if (w == 1)
        return "(" + a + "!=" + b + ")";
      return "(" + T + ")((" + U + ")" + a + "-(" + U + ")" + b + ")";
    case Instruction::Mul:
      if (w == 1)
        return "(" + a + "&&" + b + ")";
      if ((w == 64 || w == 32) && !isa<Constant>(I->getOperand(0)) && !isa<Constant>(I->getOperand(1))) return "VP_MUL" + std::to_string(w) + "(" + a + "," + b + ")";
      return "(" + T + ")((" + U + ")" + a + "*(" + U + ")" + b + ")";
    case Instruction::UDiv:
      if ((w == 64 || w == 32) && !isa<Constant>(I->getOperand(1))) return "VP_UDIV" + std::to_string(w) + "(" + a + "," + b + ")";
      return "(" + T + ")(" + a + "/" + b + ")";
    case Instruction::URem:
      if ((w == 64 || w == 32) && !isa<Constant>(I->getOperand(1))) return "VP_UREM" + std::to_string(w) + "(" + a + "," + b + ")";
      return "(" + T + ")(" + a + "%" + b + ")";
    case Instruction::SDiv:
      if ((w == 64 || w == 32) && !isa<Constant>(I->getOperand(1))) return "VP_SDIV" + std::to_string(w) + "(" + a + "," + b + ")";
      return "(" + T + ")((" + scty(t) + ")" + a + "/(" + scty(t) + ")" + b + ")";
    case Instruction::SRem:
      if ((w == 64 || w == 32) && !isa<Constant>(I->getOperand(1))) return "VP_SREM" + std::to_string(w) + "(" + a + "," + b + ")";
      return "(" + T + ")((" + scty(t) + ")" + a + "%(" + scty(t) + ")" + b + ")";
    case Instruction::And:
      return "(" + T + ")(" + a + "&" + b + ")";
    case Instruction::Or:
      return "(" + T + ")(" + a + "|" + b + ")";
    case Instruction::Xor:
      return "(" + T + ")(" + a + "^" + b + ")";
    case Instruction::Shl:
      return "(" + T + ")((" + U + ")" + a + "<<" + b + ")";
    case Instruction::LShr:
      return "(" + T + ")(" + a + ">>" + b + ")";
    case Instruction::AShr:
      return "(" + T + ")((" + scty(t) + ")" + a + ">>" + b + ")";
    case Instruction::FAdd:
      return (t->isFloatTy() ? "VP_F32(add," : t->isDoubleTy() ? "VP_F64(add," : "VP_FOP(add,") + string("+,") + a + "," + b + ")";
    case Instruction::FSub:
      return (t->isFloatTy() ? "VP_F32(sub," : t->isDoubleTy() ? "VP_F64(sub," : "VP_FOP(sub,") + string("-,") + a + "," + b + ")";
    case Instruction::FMul:
      return (t->isFloatTy() ? "VP_F32(mul," : t->isDoubleTy() ? "VP_F64(mul," : "VP_FOP(mul,") + string("*,") + a + "," + b + ")";
    case Instruction::FDiv:
      // division by a power of two is the exact multiplication by its inverse
      if (auto *cf = dyn_cast<ConstantFP>(I->getOperand(1))) {
        APFloat inv(0.0);
        if (cf->getValueAPF().getExactInverse(&inv)) return a + "*" + val(ConstantFP::get(t, inv));
      }
      return (t->isFloatTy() ? "VP_F32(div,/," : t->isDoubleTy() ? "VP_F64(div,/," : "VP_FOP(div,/,") + a + "," + b + ")";
    case Instruction::FRem:
      return t->isFloatTy() ? "X_fmodf(" + a + "," + b + ")" : "X_fmod(" + a + "," + b + ")";
    }
    die("binop");
  }
  string vecop(Instruction *I) { die("vector op " + pr(*I)); }

  string cmp(CmpInst *I) {
    string a = val(I->getOperand(0)), b = val(I->getOperand(1));
    Type *t = I->getOperand(0)->getType();
    if (t->isVectorTy())
      return vecop(I);
    if (isa<ICmpInst>(I)) {
      bool p = t->isPointerTy();
      string su = p ? "(u64)" : "", ss = p ? "(s64)" : "";
      if (!p && I->isSigned())
        ss = t->isIntegerTy(1) ? "-(int)" : "(" + scty(t) + ")";
      switch (I->getPredicate()) {
      case CmpInst::ICMP_EQ:
        return a + "==" + b;
      case CmpInst::ICMP_NE:
        return a + "!=" + b;
      case CmpInst::ICMP_UGT:
        return su + a + ">" + su + b;
      case CmpInst::ICMP_UGE:
        return su + a + ">=" + su + b;
      case CmpInst::ICMP_ULT:
        return su + a + "<" + su + b;
      case CmpInst::ICMP_ULE:
        return su + a + "<=" + su + b;
      case CmpInst::ICMP_SGT:
        return ss + a + ">" + ss + b;
      case CmpInst::ICMP_SGE:
        return ss + a + ">=" + ss + b;
      case CmpInst::ICMP_SLT:
        return ss + a + "<" + ss + b;
      case CmpInst::ICMP_SLE:
        return ss + a + "<=" + ss + b;
      default:
        die("icmp");
      }
    }
    switch (I->getPredicate()) {
    case CmpInst::FCMP_OEQ:
      return a + "==" + b;
    case CmpInst::FCMP_OGT:
      return a + ">" + b;
    case CmpInst::FCMP_OGE:
      return a + ">=" + b;
    case CmpInst::FCMP_OLT:
      return a + "<" + b;
    case CmpInst::FCMP_OLE:
      return a + "<=" + b;
    case CmpInst::FCMP_ONE:
      return "(" + a + "<" + b + "||" + a + ">" + b + ")";
    case CmpInst::FCMP_ORD:
      return "(" + a + "==" + a + "&&" + b + "==" + b + ")";
    case CmpInst::FCMP_UNO:
      return "(" + a + "!=" + a + "||" + b + "!=" + b + ")";
    case CmpInst::FCMP_UEQ:
      return "!(" + a + "<" + b + "||" + a + ">" + b + ")";
    case CmpInst::FCMP_UGT:
      return "!(" + a + "<=" + b + ")";
    case CmpInst::FCMP_UGE:
      return "!(" + a + "<" + b + ")";
    case CmpInst::FCMP_ULT:
      return "!(" + a + ">=" + b + ")";
    case CmpInst::FCMP_ULE:
      return "!(" + a + ">" + b + ")";
    case CmpInst::FCMP_UNE:
      return a + "!=" + b;
    case CmpInst::FCMP_TRUE:
      return "1";
    case CmpInst::FCMP_FALSE:
      return "0";
    default:
      die("fcmp");
    }
  }
  string castx(CastInst *I) {
    Value *v = I->getOperand(0);
    string a = val(v);
    Type *s = v->getType(), *d = I->getType();
    string D = cty(d);
    switch (I->getOpcode()) {
    case Instruction::Trunc:
      if (d->isIntegerTy(1))
        return "(_Bool)(" + a + "&1)";
      return "(" + D + ")" + a;
    case Instruction::ZExt:
      return "(" + D + ")" + a;
    case Instruction::SExt:
      if (s->isIntegerTy(1))
        return a + "?(" + D + ")-1:(" + D + ")0";
      return "(" + D + ")(" + scty(d) + ")(" + scty(s) + ")" + a;
    case Instruction::FPTrunc:
    case Instruction::FPExt:
      return "(" + D + ")" + a;
    case Instruction::FPToUI:
      if (d->isIntegerTy(1))
        return "(" + a + ">=1)";
      return "(" + D + ")" + a;
    case Instruction::FPToSI:
      return "(" + D + ")(" + scty(d) + ")" + a;
    case Instruction::UIToFP:
      if (s->isIntegerTy(64) && (d->isFloatTy() || d->isDoubleTy())) return string(d->isFloatTy() ? "VP_U2F32(" : "VP_U2F64(") + a + ")";
      return "(" + D + ")" + a;
    case Instruction::SIToFP:
      if (s->isIntegerTy(64) && (d->isFloatTy() || d->isDoubleTy())) return string(d->isFloatTy() ? "VP_S2F32(" : "VP_S2F64(") + a + ")";
      return s->isIntegerTy(1) ? "(" + D + ")-(int)" + a : "(" + D + ")(" + scty(s) + ")" + a;
    case Instruction::PtrToInt:
      return "(" + D + ")(u64)" + a;
    case Instruction::IntToPtr:
      return "(ptr)(u64)" + a;
    case Instruction::BitCast: {
      if (s == d || (s->isPointerTy() && d->isPointerTy()))
        return a;
      if (s->isFloatTy() && d->isIntegerTy(32))
        return "vp_fb(" + a + ")";
      if (s->isDoubleTy() && d->isIntegerTy(64))
        return "vp_db(" + a + ")";
      if (s->isIntegerTy(32) && d->isFloatTy())
        return "vp_bf(" + a + ")";
      if (s->isIntegerTy(64) && d->isDoubleTy())
        return "vp_bd(" + a + ")";
      // vector <-> scalar through memory
      string S = cty(s);
      string x = "bc" + std::to_string(tmpn++);
      decls << "  union { " << S << " a; " << D << " b; } " << x << ";\n";
      o << "    " << x << ".a = " << a << ";\n";
      return x + ".b";
    }
    case Instruction::AddrSpaceCast:
      return a;
    default:
      die("cast");
    }
  }
  string gep(GetElementPtrInst *g) {
    string r = val(g->getPointerOperand());
    int64_t off = 0;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      Value *ix = it.getOperand();
      if (auto *st = it.getStructTypeOrNull()) {
        off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
      } else {
        uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(ix))
          off += ci->getSExtValue() * (int64_t)sz;
        else {
          string i = "(s64)(" + scty(ix->getType()) + ")" + val(ix);
          r += sz == 1 ? "+" + i : "+" + i + "*" + std::to_string(sz) + "ll";
        }
      }
    }
    if (off)
      r += off > 0 ? "+" + std::to_string(off) + "ll" : "-" + std::to_string(-off) + "ll";
    return r;
  }
  string ixpath(Type *t, ArrayRef<unsigned> ix) {
    string r;
    for (unsigned i : ix) {
      if (auto *st = dyn_cast<StructType>(t)) {
        r += ".f" + std::to_string(i);
        t = st->getElementType(i);
      } else {
        r += ".e[" + std::to_string(i) + "]";
        t = cast<ArrayType>(t)->getElementType();
      }
    }
    return r;
  }
  void inst(Instruction &I) {
    if (isa<PHINode>(I) || isa<AllocaInst>(I) || isa<DbgInfoIntrinsic>(I))
      return;
    if (auto *b = dyn_cast<BinaryOperator>(&I))
      return assign(&I, bin(b));
    if (auto *c = dyn_cast<CmpInst>(&I))
      return assign(&I, cmp(c));
    if (auto *c = dyn_cast<CastInst>(&I)) {
      string s = castx(c);
      return assign(&I, s);
    }
    switch (I.getOpcode()) {
    case Instruction::FNeg:
      return assign(&I, "-" + val(I.getOperand(0)));
    case Instruction::Freeze:
      return assign(&I, val(I.getOperand(0)));
    case Instruction::GetElementPtr:
      return assign(&I, gep(cast<GetElementPtrInst>(&I)));
    case Instruction::Load: {
      auto *l = cast<LoadInst>(&I);
      string p = val(l->getPointerOperand());
      if (l->getType()->isIntegerTy(1))
        return assign(&I, "(_Bool)((" + rd("u8", p, l->getPointerOperand()) + ")&1)");
      return assign(&I, rd(cmem(l->getType()), p, l->getPointerOperand()));
    }
    case Instruction::Store: {
      auto *s = cast<StoreInst>(&I);
      string p = val(s->getPointerOperand());
      if (region)
        storeCheck(s->getPointerOperand(), p, DL->getTypeStoreSize(s->getValueOperand()->getType()), &I);
      string v = isa<UndefValue>(s->getValueOperand()) ? undefv(s->getValueOperand()->getType()) : val(s->getValueOperand());
      o << "    " << wr(cmem(s->getValueOperand()->getType()), p, v, s->getPointerOperand()) << "\n";
      return;
    }
    case Instruction::Select: {
      auto *s = cast<SelectInst>(&I);
      return assign(&I, val(s->getCondition()) + "?" + val(s->getTrueValue()) + ":" + val(s->getFalseValue()));
    }
    case Instruction::ExtractValue: {
      auto *e = cast<ExtractValueInst>(&I);
      return assign(&I, val(e->getAggregateOperand()) + ixpath(e->getAggregateOperand()->getType(), e->getIndices()));
    }
    case Instruction::InsertValue: {
      auto *e = cast<InsertValueInst>(&I);
      Value *a = e->getAggregateOperand();
      if (!isa<UndefValue>(a))
        o << "    " << vn[&I] << " = " << val(a) << ";\n";
      o << "    " << vn[&I] << ixpath(e->getType(), e->getIndices()) << " = " << val(e->getInsertedValueOperand()) << ";\n";
      return;
    }
    case Instruction::ExtractElement: {
      return assign(&I, val(I.getOperand(0)) + ".e[" + val(I.getOperand(1)) + "]");
    }
    case Instruction::InsertElement: {
      if (!isa<UndefValue>(I.getOperand(0)))
        o << "    " << vn[&I] << " = " << val(I.getOperand(0)) << ";\n";
      o << "    " << vn[&I] << ".e[" << val(I.getOperand(2)) << "] = " << val(I.getOperand(1)) << ";\n";
      return;
    }
    case Instruction::ShuffleVector: {
      auto *s = cast<ShuffleVectorInst>(&I);
      unsigned n = cast<FixedVectorType>(s->getOperand(0)->getType())->getNumElements();
      string a = isa<UndefValue>(s->getOperand(0)) ? "" : val(s->getOperand(0));
      string b = isa<UndefValue>(s->getOperand(1)) ? "" : val(s->getOperand(1));
      for (unsigned i = 0; i < s->getShuffleMask().size(); i++) {
        int m = s->getShuffleMask()[i];
        if (m < 0)
          continue;
        string src = (unsigned)m < n ? a : b;
        if (src.empty())
          continue;
        o << "    " << vn[&I] << ".e[" << i << "] = " << src << ".e[" << (unsigned)m % n << "];\n";
      }
      return;
    }
    case Instruction::AtomicRMW: {
      auto *a = cast<AtomicRMWInst>(&I);
      string T = cty(a->getType()), p = val(a->getPointerOperand()), v = val(a->getValOperand());
      if (region)
        storeCheck(a->getPointerOperand(), p, DL->getTypeStoreSize(a->getType()), &I);
      assign(&I, rd(T, p, a->getPointerOperand()));
      string op = a->getOperation() == AtomicRMWInst::Add    ? "+"
                  : a->getOperation() == AtomicRMWInst::Sub  ? "-"
                  : a->getOperation() == AtomicRMWInst::Xchg ? ""
                                                             : "?";
      if (op == "?")
        die("atomicrmw");
      if (op.empty())
        o << "    " << wr(T, p, v, a->getPointerOperand()) << "\n";
      else
        o << "    " << wr(T, p, "(" + T + ")(" + vn[&I] + op + v + ")", a->getPointerOperand()) << "\n";
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto *a = cast<AtomicCmpXchgInst>(&I);
      string T = cty(a->getCompareOperand()->getType()), p = val(a->getPointerOperand());
      o << "    " << vn[&I] << ".f0 = " << rd(T, p, a->getPointerOperand()) << ";\n";
      o << "    " << vn[&I] << ".f1 = " << vn[&I] << ".f0 == " << val(a->getCompareOperand()) << ";\n";
      o << "    if(" << vn[&I] << ".f1) { " << wr(T, p, val(a->getNewValOperand()), a->getPointerOperand()) << " }\n";
      return;
    }
    case Instruction::Fence:
      return;
    case Instruction::Call:
      return call(cast<CallBase>(&I));
    case Instruction::LandingPad: {
      auto *lp = cast<LandingPadInst>(&I);
      bool catchAll = false;
      string s;
      o << "    " << vn[&I] << ".f0 = __exc_obj; " << vn[&I] << ".f1 = 0;\n";
      o << "    ";
      for (unsigned i = 0; i < lp->getNumClauses() && !catchAll; i++) {
        if (lp->isCatch(i)) {
          auto *cl = lp->getClause(i)->stripPointerCasts();
          if (isa<ConstantPointerNull>(cl)) {
            catchAll = true;
            o << "{ " << vn[&I] << ".f1 = 1; }";
          } else {
            o << "if(vp_exc_match(__exc_ti, " << val(cl) << ")) { " << vn[&I] << ".f1 = (u32)vp_tid(" << val(cl) << "); } else ";
            tids.insert(cast<GlobalVariable>(cl));
          }
        }
      }
      if (!catchAll) {
        if (lp->isCleanup())
          o << "{}";
        else
          o << "{ " << retDefault() << " }";
      }
      o << "\n    __exc = 0;\n";
      return;
    }
    }
    if (I.isTerminator())
      return term(I);
    die("inst " + pr(I));
  }
  void term(Instruction &I) {
    BasicBlock *B = I.getParent();
    if (auto *r = dyn_cast<ReturnInst>(&I)) {
      if (r->getReturnValue())
        o << "    return " << (isa<UndefValue>(r->getReturnValue()) ? undefv(F->getReturnType()) : val(r->getReturnValue())) << ";\n";
      else
        o << "    return;\n";
      return;
    }
    if (auto *b = dyn_cast<BranchInst>(&I)) {
      if (b->isUnconditional())
        return edge(B, b->getSuccessor(0), "    ");
      o << "    if(" << val(b->getCondition()) << ")\n";
      edge(B, b->getSuccessor(0), "      ");
      o << "    else\n";
      edge(B, b->getSuccessor(1), "      ");
      return;
    }
    if (auto *s = dyn_cast<SwitchInst>(&I)) {
      for (auto c : s->cases()) {
        o << "    if(" << val(s->getCondition()) << "==" << konst(c.getCaseValue()) << ")\n";
        edge(B, c.getCaseSuccessor(), "      ");
      }
      edge(B, s->getDefaultDest(), "    ");
      return;
    }
    if (auto *iv = dyn_cast<InvokeInst>(&I)) {
      call(iv);
      if (!iv->doesNotThrow()) {
        o << "    if(__exc)\n";
        edge(B, iv->getUnwindDest(), "      ");
      }
      edge(B, iv->getNormalDest(), "    ");
      return;
    }
    if (isa<ResumeInst>(I)) {
      o << "    __exc = 1; " << retDefault() << "\n";
      return;
    }
    if (isa<UnreachableInst>(I)) {
      // reached only after a noreturn call; reaching it otherwise is UB
      Instruction *p = I.getPrevNonDebugInstruction();
      bool afterCall = p && isa<CallBase>(p);
      if (!afterCall)
        o << "    __CPROVER_assert(0, \"unreachable reached in " << fdem() << "\");\n";
      o << "    __CPROVER_assume(0); " << retDefault() << "\n";
      return;
    }
    if (auto *ib = dyn_cast<IndirectBrInst>(&I)) {
      (void)ib;
      die("indirectbr");
    }
    die("term " + pr(I));
  }
  string sig(Function *f, bool names) {
    string r = cty(f->getReturnType()) + " " + fn(f) + "(";
    bool first = true;
    unsigned i = 0;
    for (auto &a : f->args()) {
      r += (first ? "" : ", ") + cty(a.getType()) + (names ? " a" + std::to_string(i) : "");
      first = false;
      i++;
    }
    if (f->isVarArg())
      r += first ? "" : ", ...";
    else if (first)
      r += "void";
    return r + ")";
  }
  std::regex cutRe;
  bool cutAll = false;
  void func(Function *f) {
    F = f;
    vn.clear();
    bn.clear();
    o.str("");
    decls.str("");
    cutL.clear();
    unsigned i = 0;
    for (auto &a : f->args())
      vn[&a] = "a" + std::to_string(i++);
    int k = 0;
    for (auto &B : *f) {
      bn[&B] = "b" + std::to_string(k++);
    }
    k = 0;
    for (auto &I : instructions(f)) {
      if (auto *al = dyn_cast<AllocaInst>(&I)) {
        string n = "L" + std::to_string(k++);
        string t = cmem(al->getAllocatedType());
        if (al->isArrayAllocation()) {
          if (auto *ci = dyn_cast<ConstantInt>(al->getArraySize())) {
            decls << "  " << t << " " << n << "[" << ci->getZExtValue() << "];\n";
            vn[al] = "((ptr)&" + n + ")";
            continue;
          }
          die("dynamic alloca in " + f->getName().str());
        }
        decls << "  " << t << " " << n << ";\n";
        vn[al] = "((ptr)&" + n + ")";
        continue;
      }
      if (I.getType()->isVoidTy())
        continue;
      string n = "v" + std::to_string(k++);
      vn[&I] = n;
      decls << "  " << cty(I.getType()) << " " << n << ";\n";
    }
    DominatorTree DT(*f);
    LoopInfo li(DT);
    LI = &li;
    bool doCut = cut && (cutAll || std::regex_search(dem(f->getName()), cutRe) || std::regex_search(f->getName().str(), cutRe));
    for (auto *L : li.getLoopsInPreorder()) {
      loopCount++;
      if (doCut && !f->getName().contains("__vp_") )
        cutL[L->getHeader()] = L;
    }
    for (auto &B : *f) {
      if (cutL.count(&B))
        emitCutHeader(&B);
      else
        o << bn[&B] << ":;\n";
      for (auto &I : B)
        inst(I);
    }
    body << "/* " << fdem() << " */\n" << sig(f, true) << "\n{\n" << decls.str() << o.str() << "}\n\n";
  }
};

static std::vector<string> split(const string &s, char c) {
  std::vector<string> r;
  std::stringstream ss(s);
  string x;
  while (std::getline(ss, x, c))
    if (!x.empty())
      r.push_back(x);
  return r;
}

// class hierarchy from typeinfo initialisers
static void tiBases(GlobalVariable *g, std::set<GlobalVariable *> &out) {
  if (!out.insert(g).second)
    return;
  if (!g->hasInitializer())
    return;
  auto *ca = dyn_cast<ConstantAggregate>(g->getInitializer());
  if (!ca)
    return;
  for (unsigned i = 2; i < ca->getNumOperands(); i++)
    if (auto *b = dyn_cast<GlobalVariable>(ca->getOperand(i)->stripPointerCasts()))
      if (b->getName().starts_with("_ZTI"))
        tiBases(b, out);
}
static const std::map<string, std::vector<string>> stdBases = {
    {"_ZTISt14overflow_error", {"_ZTISt13runtime_error", "_ZTISt9exception"}},
    {"_ZTISt11range_error", {"_ZTISt13runtime_error", "_ZTISt9exception"}},
    {"_ZTISt15underflow_error", {"_ZTISt13runtime_error", "_ZTISt9exception"}},
    {"_ZTISt13runtime_error", {"_ZTISt9exception"}},
    {"_ZTISt11logic_error", {"_ZTISt9exception"}},
    {"_ZTISt16invalid_argument", {"_ZTISt11logic_error", "_ZTISt9exception"}},
    {"_ZTISt12domain_error", {"_ZTISt11logic_error", "_ZTISt9exception"}},
    {"_ZTISt12length_error", {"_ZTISt11logic_error", "_ZTISt9exception"}},
    {"_ZTISt12out_of_range", {"_ZTISt11logic_error", "_ZTISt9exception"}},
    {"_ZTISt9bad_alloc", {"_ZTISt9exception"}},
    {"_ZTISt20bad_array_new_length", {"_ZTISt9bad_alloc", "_ZTISt9exception"}},
    {"_ZTISt8bad_cast", {"_ZTISt9exception"}},
};

int main(int argc, char **argv) {
  LLVMContext C;
  SMDiagnostic err;
  if (argc < 3)
    die("usage");
  auto mod = parseIRFile(argv[1], err, C);
  if (!mod) {
    err.print("ll2c", errs());
    return 3;
  }
  M = mod.get();
  DL = &M->getDataLayout();
  string outdir = argv[2];
  string only;
  string prefix;
  for (int i = 3; i < argc; i++) {
    if (string(argv[i]) == "-only")
      only = argv[++i];
    else if (string(argv[i]) == "-prefix")
      prefix = argv[++i];
  }

  // harness list
  std::map<string, string> opts;
  std::set<string> keep;
  for (auto &g : M->globals())
    if (g.getName().starts_with("__vp_opts_") && g.hasInitializer()) {
      string h = g.getName().substr(10).str();
      if (!StringRef(h).starts_with(prefix))
        continue;
      StringRef s;
      if (getConstantStringInfo(&g, s))
        opts[h] = s.str();
      else opts[h] = "";
      keep.insert(h);
    }
  std::map<string, std::map<string, string>> hopt;
  for (auto &kv : opts)
    for (auto &w : split(kv.second, ' ')) {
      auto p = w.find('=');
      hopt[kv.first][w.substr(0, p)] = p == string::npos ? "1" : w.substr(p + 1);
    }
  for (auto &kv : hopt)
    for (auto k : {"step", "inv"})
      if (kv.second.count(k))
        keep.insert(kv.second[k]);
  // stubs: __vp_stub_<mangled> replaces <mangled>
  std::set<string> stubbed;
  {
    std::vector<Function *> fs;
    for (auto &f : *M)
      if (f.getName().starts_with("__vp_stub_") && !f.isDeclaration())
        fs.push_back(&f);
    for (auto *f : fs) {
      string tgt = f->getName().substr(10).str();
      if (auto *t = M->getFunction(tgt)) {
        f->removeFnAttr(Attribute::AlwaysInline);
        t->replaceAllUsesWith(f);
        stubbed.insert(tgt);
      }
    }
  }
  if (auto *g = M->getGlobalVariable("llvm.global_ctors"))
    g->eraseFromParent();
  if (auto *g = M->getGlobalVariable("llvm.global_dtors"))
    g->eraseFromParent();
  if (auto *g = M->getGlobalVariable("llvm.used"))
    g->eraseFromParent();
  if (auto *g = M->getGlobalVariable("llvm.compiler.used"))
    g->eraseFromParent();
  for (auto &f : *M) {
    f.removeFnAttr(Attribute::OptimizeNone);
    f.removeFnAttr(Attribute::NoInline);
  }
  for (auto &f : *M) if (f.getName().starts_with("__vp_")) f.addFnAttr(Attribute::NoInline);
  for (auto &k : keep)
    if (auto *f = M->getFunction(k)) {
      f->addFnAttr(Attribute::NoInline);
    }

  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  auto run = [&](const char *p) {
    ModulePassManager mpm;
    if (auto e = PB.parsePassPipeline(mpm, p))
      die("pipeline " + toString(std::move(e)));
    mpm.run(*M, MAM);
    MAM.clear();
    FAM.clear();
    CGAM.clear();
    LAM.clear();
  };
  internalizeModule(*M, [&](const GlobalValue &g) { return keep.count(g.getName().str()) > 0; });
  run("elim-avail-extern,globaldce,function(sroa,early-cse,simplifycfg)");
  // throw collapse, bottom-up, iterate because always-throws may cascade
  for (int it = 0; it < 4; it++) {
    bool ch = false;
    for (auto &f : *M)
      if (!f.isDeclaration())
        ch |= collapseThrows(f);
    if (!ch)
      break;
  }
  if (verifyModule(*M, &errs()))
    die("module broken after collapse");
  run("globaldce");
  // functions of the repository reachable from each harness (before inlining)
  std::map<string, std::set<string>> reachFns;
  for (auto &kv : opts) {
    Function *h = M->getFunction(kv.first);
    if (!h)
      continue;
    std::set<const Function *> seen;
    std::vector<const Function *> wl{h};
    std::set<const Value *> seenC;
    while (!wl.empty()) {
      auto *f = wl.back();
      wl.pop_back();
      if (!seen.insert(f).second)
        continue;
      std::function<void(const Value *)> vis = [&](const Value *v) {
        if (auto *ff = dyn_cast<Function>(v)) {
          wl.push_back(ff);
          return;
        }
        if (isa<Constant>(v) && seenC.insert(v).second) {
          if (auto *g = dyn_cast<GlobalVariable>(v)) {
            if (g->hasInitializer())
              vis(g->getInitializer());
          } else
            for (auto &o : cast<Constant>(v)->operands())
              vis(o.get());
        }
      };
      for (auto &I : instructions(f))
        for (auto &o : I.operands())
          vis(o.get());
    }
    for (auto *f : seen)
      if (!f->isDeclaration() && f != h) {
        string d = dem(f->getName());
        if (d.find("dynd") != string::npos || d.find("utf8::") != string::npos)
          if (!StringRef(f->getName()).starts_with("__vp_"))
            reachFns[kv.first].insert(d.substr(0, 200));
      }
  }
  run("function(sroa,early-cse,simplifycfg,instsimplify,dce),function-attrs,cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify,dce,simplifycfg),function(loop-simplify,lcssa,loop-mssa(loop-rotate),loop(indvars,loop-unroll-full),sroa,early-cse,simplifycfg,instsimplify,dce,simplifycfg),cgscc(function-attrs),rpo-function-attrs,globaldce,function(loop-simplify,lcssa)");
  if (getenv("LL2C_DUMP")) {
    std::error_code ec;
    raw_fd_ostream of(outdir + "/dump.ll", ec);
    M->print(of, nullptr);
  }

  for (auto &kv : opts) {
    if (!only.empty() && only != kv.first)
      continue;
    Function *h = M->getFunction(kv.first);
    if (!h)
      die("harness function missing " + kv.first);
    auto &ho = hopt[kv.first];
    std::set<GlobalVariable *> preSeen;
    for (int pass = ho.count("cut") ? 0 : 1; pass < (ho.count("cut") ? 3 : 2); pass++) { // 0: collect globals, 1: cut loops, 2: plain loops (counterexample search)
    Emit e;
    e.preSeen = preSeen;
    e.sparse = ho.count("sparse");
    e.ptrbuf = ho.count("ptrbuf");
    if (ho.count("cut") && pass < 2) {
      e.cut = true;
      if (ho["cut"] == "all" || ho["cut"] == "1")
        e.cutAll = true;
      else
        e.cutRe = std::regex(ho["cut"]);
      e.region = true;
      if (ho.count("step")) {
        auto *f = M->getFunction(ho["step"]);
        if (!f)
          die("step fn missing");
        e.need(f);
        e.stepFn = e.fn(f);
      }
      if (ho.count("inv")) {
        auto *f = M->getFunction(ho["inv"]);
        if (!f)
          die("inv fn missing");
        e.need(f);
        e.invFn = e.fn(f);
      }
    }
    std::set<string> extUsed;
    string havocExt;
    e.need(h);
    std::set<string> model;
    size_t i = 0, gi = 0;
    std::ostringstream gdefs;
    std::vector<Function *> decl;
    // iterate to closure (globals' initialisers may need functions)
    std::ostringstream gi_out;
    std::set<FunctionType *> emittedDisp;
    for (;;) {
      bool prog = false;
      while (i < e.wl.size()) {
        prog = true;
        Function *f = e.wl[i++];
        if (f->isDeclaration()) {
          decl.push_back(f);
          continue;
        }
        e.protos << e.sig(f, false) << ";\n";
        e.func(f);
      }
      while (gi < e.gl.size()) {
        prog = true;
        auto *g = e.gl[gi++];
        string n = "G_" + cident(g->getName());
        Type *t = g->getValueType();
        bool ti = g->getName().starts_with("_ZTI");
        if (ti) { // identity only
          gi_out << "char " << n << "[8];\n";
          e.globs << "extern char " << n << "[8];\n";
          continue;
        }
        if (!g->hasInitializer()) {
          string ty = t->isSized() ? e.cmem(t) : "struct {char c[64];}";
          if (isa<StructType>(t) && cast<StructType>(t)->isOpaque())
            ty = "char *";
          e.globs << "extern " << ty << " " << n << ";\n";
          gi_out << ty << " " << n << "; /* external */\n";
          if (t->isSized() && !g->getName().starts_with("_ZTV"))
            havocExt += "  __CPROVER_havoc_object(&" + n + ");\n";
          extUsed.insert("global " + dem(g->getName()));
          continue;
        }
        string ty = e.cmem(t);
        string in = e.konst(g->getInitializer(), true);
        e.globs << "extern " << ty << " " << n << ";\n";
        gi_out << ty << " " << n << " = " << in << ";\n";
      }
      if (!prog)
        break;
    }
    if (pass == 0) {
      preSeen = e.seenG;
      continue;
    }
    // address-taken functions matching indirect call types may need emission: done by need() in konst.
    // dispatchers
    std::ostringstream disp;
    for (size_t d = 0; d < e.dispTypes.size(); d++) {
      auto *ft = e.dispTypes[d];
      string nm = e.dispatch[ft];
      string s = e.cty(ft->getReturnType()) + " " + nm + "(ptr fp";
      string a;
      for (unsigned k = 0; k < ft->getNumParams(); k++) {
        s += ", " + e.cty(ft->getParamType(k)) + " a" + std::to_string(k);
        a += (k ? ", a" : "a") + std::to_string(k);
      }
      s += ")";
      e.protos << s << ";\n";
      disp << s << "\n{\n";
      for (auto *f : e.addrTaken)
        if (f->getFunctionType() == ft) {
          disp << "  if(fp==(ptr)&" << e.fn(f) << ") " << (ft->getReturnType()->isVoidTy() ? "{ " : "return ") << e.fn(f) << "(" << a << ");"
               << (ft->getReturnType()->isVoidTy() ? " return; }" : "") << "\n";
        }
      disp << "  __CPROVER_assert(0, \"indirect call target unknown\"); __CPROVER_assume(0);\n";
      if (!ft->getReturnType()->isVoidTy())
        disp << "  return " << e.undefv(ft->getReturnType()) << ";\n";
      disp << "}\n";
    }
    // external declarations
    std::ostringstream ext;
    static const std::set<string> modelled = {
#define X(n) #n,
#include "models.inc"
#undef X
    };
    for (auto *f : decl) {
      string n = f->getName().str();
      if (f->isIntrinsic())
        continue;
      if (modelled.count(n)) {
        e.protos << e.sig(f, false) << ";\n";
        model.insert(n);
        continue;
      }
      if (StringRef(n).starts_with("nd_")) {
        e.protos << e.sig(f, false) << ";\n";
        model.insert(n);
        continue;
      }
      string d = dem(n);
      extUsed.insert(d);
      e.protos << e.sig(f, false) << ";\n";
      ext << e.sig(f, true) << "\n{ __CPROVER_assert(0, \"unmodelled external function reached: " << jesc(d) << "\"); __CPROVER_assume(0);"
          << (f->getReturnType()->isVoidTy() ? "" : " return " + e.undefv(f->getReturnType()) + ";") << " }\n";
    }
    // exception matching
    std::ostringstream exm;
    exm << "static u32 vp_tid(ptr t){\n";
    {
      int k = 2;
      for (auto *g : e.tids)
        exm << "  if(t==(ptr)&G_" << cident(g->getName()) << ") return " << k++ << ";\n";
      exm << "  return 1; }\nstatic _Bool vp_exc_match(ptr t, ptr c){\n  if(t==c) return 1;\n";
      for (auto *g : e.tids) {
        std::set<GlobalVariable *> bs;
        tiBases(g, bs);
        std::set<string> bn;
        for (auto *b : bs) {
          bn.insert(b->getName().str());
          auto it = stdBases.find(b->getName().str());
          if (it != stdBases.end())
            for (auto &x : it->second)
              bn.insert(x);
        }
        for (auto *c : e.tids)
          if (c != g && bn.count(c->getName().str()))
            exm << "  if(t==(ptr)&G_" << cident(g->getName()) << " && c==(ptr)&G_" << cident(c->getName()) << ") return 1;\n";
      }
      exm << "  return 0; }\n";
      for (auto *g : e.tids)
        if (!e.seenG.count(g)) {
          e.globs << "extern char G_" << cident(g->getName()) << "[8];\n";
          gi_out << "char G_" << cident(g->getName()) << "[8];\n";
        }
    }
    std::ofstream of(outdir + "/" + kv.first + (pass == 2 ? ".unw.c" : ".c"));
    of << (e.sparse ? "#define VP_SPARSE 1\n" : "") << "#include \"vp_prelude.h\"\n";
    of << e.types.str() << "\n" << e.globs.str() << "\n" << e.protos.str() << "\n" << gi_out.str() << "\n";
    for (auto &m : model)
      of << "#define USE_" << cident(m) << " 1\n";
    of << "#include \"vp_models.h\"\n";
    of << exm.str() << ext.str() << disp.str() << e.body.str();
    of << "int main(void){\n" << havocExt << "  " << e.fn(h) << "(); VP_END(); return 0; }\n";
    of.close();
    if (pass == 2)
      continue;
    std::ofstream js(outdir + "/" + kv.first + ".json");
    js << "{\"harness\":\"" << kv.first << "\",\"opts\":\"" << jesc(kv.second) << "\",\n\"externs\":[";
    bool first = true;
    for (auto &x : extUsed) {
      js << (first ? "" : ",") << "\"" << jesc(x) << "\"";
      first = false;
    }
    js << "],\n\"models\":[";
    first = true;
    for (auto &x : model) {
      js << (first ? "" : ",") << "\"" << jesc(x) << "\"";
      first = false;
    }
    js << "],\n\"stubs\":[";
    first = true;
    for (auto &x : stubbed) {
      js << (first ? "" : ",") << "\"" << jesc(dem(x)) << "\"";
      first = false;
    }
    js << "],\n\"functions\":[";
    first = true;
    for (auto &x : reachFns[kv.first]) {
      js << (first ? "" : ",") << "\"" << jesc(x) << "\"";
      first = false;
    }
    js << "],\n\"dropped\":[";
    first = true;
    for (auto &x : droppedCalls) {
      js << (first ? "" : ",") << "\"" << jesc(x) << "\"";
      first = false;
    }
    js << "],\n\"loops\":" << e.loopCount << ",\"cut_loops\":" << e.cutLoops << ",\"cands\":[" << e.candJson.str() << "]}\n";
  }
  }
  return 0;
}
