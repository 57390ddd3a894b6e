// Dumps every numeric array initialiser of a module: one JSON line per global
//   {"name":..,"file":..,"function":..,"type":"double|x86_fp80|i64..","dims":[..],"const":bool,"values":["..."]}
// Floating-point values are printed exactly enough to be read back (hexadecimal for double, 25 digits for long double).
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
static void walk(const Constant *C, Type *T, std::vector<std::string> &out) {
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    for (uint64_t i = 0; i < AT->getNumElements(); i++) {
      Constant *e = C->getAggregateElement((unsigned) i);
      if (!e) { out.push_back("?"); return; }
      walk(e, AT->getElementType(), out);
    }
    return;
  }
  if (auto *ST = dyn_cast<StructType>(T)) {  // an array whose rows end in zeros
    for (unsigned i = 0; i < ST->getNumElements(); i++) walk(C->getAggregateElement(i), ST->getElementType(i), out);
    return;
  }
  if (isa<ConstantAggregateZero>(C) || C->isNullValue()) { out.push_back("0"); return; }
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    if (T->isDoubleTy()) { char b[64]; snprintf(b, 64, "%a", F->getValueAPF().convertToDouble()); out.push_back(b); return; }
    SmallString<64> s; F->getValueAPF().toString(s, 25, 0); out.push_back(std::string(s.str())); return;
  }
  if (auto *I = dyn_cast<ConstantInt>(C)) { SmallString<64> s; I->getValue().toString(s, 10, false); out.push_back(std::string(s.str())); return; }
  out.push_back("?");
}
int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  for (int a = 1; a < argc; a++) {
    auto M = parseIRFile(argv[a], err, ctx);
    if (!M) { err.print(argv[0], errs()); return 2; }
    for (auto &G : M->globals()) {
      if (!G.hasInitializer()) continue;
      Type *T = G.getValueType();
      std::vector<uint64_t> dims; Type *E = T;
      while (auto *AT = dyn_cast<ArrayType>(E)) { dims.push_back(AT->getNumElements()); E = AT->getElementType(); }
      if (isa<StructType>(E)) {  // flattened; only homogeneous numeric contents are of interest
        bool arr = false; Type *leaf = nullptr; bool ok = true;
        std::vector<Type *> st{E};
        while (!st.empty()) { Type *t = st.back(); st.pop_back();
          if (auto *a = dyn_cast<ArrayType>(t)) { arr = true; st.push_back(a->getElementType()); }
          else if (auto *q = dyn_cast<StructType>(t)) for (auto *e : q->elements()) st.push_back(e);
          else if (!leaf) leaf = t; else if (leaf != t) ok = false; }
        if (!ok || !arr || !leaf || !leaf->isFloatingPointTy()) continue;
        E = leaf; dims.clear(); dims.push_back(0);
      }
      if (dims.empty() || E->isIntegerTy(8) || !(E->isFloatingPointTy() || E->isIntegerTy())) continue;
      bool zero = G.getInitializer()->isNullValue();
      std::set<std::string> users;
      for (auto *U : G.users()) { std::vector<const User *> st{U}; while (!st.empty()) { auto *u = st.back(); st.pop_back(); if (auto *I = dyn_cast<Instruction>(u)) users.insert(I->getFunction()->getName().str()); else if (isa<Constant>(u)) for (auto *v : u->users()) st.push_back(v); } }
      bool written = false;
      for (auto *U : G.users()) if (auto *SI = dyn_cast<StoreInst>(U)) if (SI->getPointerOperand() == &G) written = true;
      std::vector<std::string> v;
      if (!zero) walk(G.getInitializer(), T, v);
      outs() << "{\"name\":\"" << G.getName() << "\",\"file\":\"" << M->getSourceFileName() << "\",\"type\":\"" << *E << "\",\"const\":" << (G.isConstant() ? "true" : "false") << ",\"written\":" << (written ? "true" : "false") << ",\"zero\":" << (zero ? "true" : "false") << ",\"dims\":[";
      for (size_t i = 0; i < dims.size(); i++) outs() << (i ? "," : "") << dims[i];
      outs() << "],\"users\":["; bool f = true; for (auto &u : users) { outs() << (f ? "" : ",") << "\"" << u << "\""; f = false; }
      outs() << "],\"values\":["; for (size_t i = 0; i < v.size(); i++) outs() << (i ? "," : "") << "\"" << v[i] << "\"";
      outs() << "]}\n";
    }
  }
}
