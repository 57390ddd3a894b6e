// grppai: a static abstract interpreter for LLVM IR, specialised for libgrpp.
//
// The program is never run.  Every function is analysed over its control-flow graph: values are elements
// of a product of abstract domains
//    integers : intervals                     pointers : sets of (region, offset interval)
//    reals    : interval x unit-of-measure grading x mirror-parity grading x translation weight
//               x set of source labels (may-dependence) x affine form over input atoms
// Branches whose condition is not decided by the abstract state are analysed both ways and the states
// are joined at the control-flow merge; loops whose exit is not decided are iterated to a (widened)
// fixpoint.  Reports name file:line, function and the abstract call path.
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include <unistd.h>
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/PostOrderIterator.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;
typedef long long i64;
typedef unsigned long long u64;

static const double INF = INFINITY;
static const i64 BIG = (i64)1 << 60;

// ------------------------------------------------------------------ abstract values
enum Kind : uint8_t { K_UNDEF, K_INT, K_FP, K_PTR, K_ZERO, K_TOP };
enum : uint16_t { DIM_ANY = 0xFFFF, DIM_TOP = 0xFFFE };
enum : uint8_t { PAR_ANY = 0xFF, PAR_TOP = 0xFE };
struct AV {
  Kind kind = K_UNDEF;
  uint8_t par = PAR_ANY;
  uint16_t dim = DIM_ANY;
  uint8_t mayundef = 0;
  uint8_t pad[3] = {0, 0, 0};
  union { i64 lo; double flo; };
  union { i64 hi; double fhi; };
  u64 taint = 0;
  int reg = 0;    // PTR: region of the first target
  int more = 0;   // PTR: extra targets (index into ptrSets)
  int lin = 0;    // FP: affine form (0 = none)
  int cause = 0;  // FP: where a grading conflict was created
  int orig = 0;   // FP: where the value was computed (instruction), for reports
  double tw = 0;  // FP: translation weight (NaN = unknown)
  AV() { lo = 0; hi = 0; }
};
static AV mkInt(i64 lo, i64 hi) { AV v; v.kind = K_INT; v.lo = lo; v.hi = hi; return v; }
static AV mkFP(double lo, double hi) {
  AV v; v.kind = K_FP; v.flo = lo; v.fhi = hi;
  if (lo == 0 && hi == 0) { v.dim = DIM_ANY; v.par = PAR_ANY; } else { v.dim = 0; v.par = 0; }
  return v;
}
static AV mkTop() { AV v; v.kind = K_TOP; return v; }
static AV mkPtr(int reg, i64 off) { AV v; v.kind = K_PTR; v.reg = reg; v.lo = v.hi = off; return v; }

// a pointer into an array member of a structure carries the extent of that member (AV::lin, offsets within the region);
// AV::pad[1] marks an address formed by indexing a fixed-size array outside its declared dimension
static std::vector<std::array<i64, 2>> windows(1);
static std::map<std::array<i64, 2>, int> windowIds;
static int internWindow(i64 lo, i64 hi) {
  auto it = windowIds.find({lo, hi});
  if (it != windowIds.end()) return it->second;
  windows.push_back({lo, hi});
  return windowIds[{lo, hi}] = windows.size() - 1;
}
struct Target { int reg; i64 lo, hi; };
static std::vector<std::vector<Target>> ptrSets(1);
static std::map<std::vector<std::array<i64, 3>>, int> ptrSetIds;
static int internTargets(const std::vector<Target> &t) {
  if (t.empty()) return 0;
  std::vector<std::array<i64, 3>> key;
  for (auto &x : t) key.push_back({x.reg, x.lo, x.hi});
  auto it = ptrSetIds.find(key);
  if (it != ptrSetIds.end()) return it->second;
  ptrSets.push_back(t);
  return ptrSetIds[key] = ptrSets.size() - 1;
}
static void getTargets(const AV &v, std::vector<Target> &out) {
  out.push_back({v.reg, v.lo, v.hi});
  if (v.more) for (auto &t : ptrSets[v.more]) out.push_back(t);
}
static AV ptrFromTargets(std::vector<Target> t) {
  std::sort(t.begin(), t.end(), [](const Target &a, const Target &b) { return a.reg < b.reg; });
  std::vector<Target> m;
  for (auto &x : t) {
    if (!m.empty() && m.back().reg == x.reg) { m.back().lo = std::min(m.back().lo, x.lo); m.back().hi = std::max(m.back().hi, x.hi); }
    else m.push_back(x);
  }
  AV v; v.kind = K_PTR; v.reg = m[0].reg; v.lo = m[0].lo; v.hi = m[0].hi;
  m.erase(m.begin());
  v.more = internTargets(m);
  return v;
}

// ---- units: interned vectors of exponents
static const int NU = 8;
typedef std::array<float, NU> Dim;
static std::vector<Dim> dims;
static std::map<Dim, int> dimIds;
static uint16_t internDim(Dim d) {
  for (auto &x : d) { x = std::round(x * 240) / 240; if (x == 0) x = 0; }
  auto it = dimIds.find(d);
  if (it != dimIds.end()) return it->second;
  if (dims.size() > 60000) return DIM_TOP;
  dims.push_back(d);
  return dimIds[d] = dims.size() - 1;
}
static std::string dimStr(uint16_t d) {
  if (d == DIM_ANY) return "any(0)";
  if (d == DIM_TOP) return "inconsistent";
  static const char *nm[NU] = {"len", "cA", "cB", "cU", "Q", "cO", "u6", "u7"};
  std::string s;
  for (int i = 0; i < NU; i++) if (dims[d][i] != 0) {
    char b[40]; snprintf(b, 40, "%s%s^%g", s.empty() ? "" : " ", nm[i], dims[d][i]); s += b;
  }
  return s.empty() ? "1" : s;
}
static uint16_t dimMul(uint16_t a, uint16_t b, int sign) {
  if (a == DIM_ANY || b == DIM_ANY) return DIM_ANY;
  if (a == DIM_TOP || b == DIM_TOP) return DIM_TOP;
  if (b == 0) return a;
  Dim d = dims[a];
  for (int i = 0; i < NU; i++) d[i] += sign * dims[b][i];
  return internDim(d);
}
static uint16_t dimPow(uint16_t a, double p) {
  if (a == DIM_ANY || a == DIM_TOP || a == 0) return a;
  Dim d = dims[a];
  for (auto &x : d) x *= p;
  return internDim(d);
}
static uint16_t dimJoin(uint16_t a, uint16_t b) {
  if (a == b || b == DIM_ANY) return a;
  if (a == DIM_ANY) return b;
  return DIM_TOP;
}
static uint8_t parJoin(uint8_t a, uint8_t b) {
  if (a == b || b == PAR_ANY) return a;
  if (a == PAR_ANY) return b;
  return PAR_TOP;
}
static uint8_t parMul(uint8_t a, uint8_t b) {
  if (a == PAR_ANY || b == PAR_ANY) return PAR_ANY;
  if (a == PAR_TOP || b == PAR_TOP) return PAR_TOP;
  return a ^ b;
}
// ---- affine forms over atoms
typedef std::map<int, double> Lin;  // atom -> coefficient; atom 0 = constant term
static std::vector<Lin> lins(1);
static std::map<Lin, int> linIds;
static int internLin(Lin l) {
  for (auto it = l.begin(); it != l.end();) {
    if (std::fabs(it->second) < 1e-300) it = l.erase(it); else ++it;
  }
  auto f = linIds.find(l);
  if (f != linIds.end()) return f->second;
  lins.push_back(l);
  return linIds[l] = lins.size() - 1;
}
static bool isConstFP(const AV &v) { return v.kind == K_FP && v.flo == v.fhi && std::isfinite(v.flo); }
// a decimal literal such as 1e-17 is a value; an all-but-zero result is a numerical zero
static bool getLin(const AV &v, Lin &l) {
  if (v.lin) { l = lins[v.lin]; return true; }
  if (isConstFP(v)) { l.clear(); if (v.flo != 0) l[0] = v.flo; return true; }
  return false;
}
static std::string linStr(const AV &v) {
  Lin l;
  if (!getLin(v, l)) return "unknown";
  std::string s;
  for (auto &p : l) {
    char b[64];
    if (p.first == 0) snprintf(b, 64, "%s%g", s.empty() ? "" : " + ", p.second);
    else snprintf(b, 64, "%s%g*x%d", s.empty() ? "" : " + ", p.second, p.first);
    s += b;
    if (s.size() > 300) { s += "..."; break; }
  }
  return s.empty() ? "0" : s;
}

static AV fromZero(Kind k) {
  if (k == K_FP) return mkFP(0, 0);
  if (k == K_PTR) return mkPtr(0, 0);
  return mkInt(0, 0);
}
static bool avEq(const AV &a, const AV &b) {
  if (a.kind != b.kind || a.mayundef != b.mayundef || a.taint != b.taint) return false;
  switch (a.kind) {
    case K_INT: return a.lo == b.lo && a.hi == b.hi;
    case K_FP: return a.flo == b.flo && a.fhi == b.fhi && a.dim == b.dim && a.par == b.par && a.lin == b.lin &&
                      (a.tw == b.tw || (std::isnan(a.tw) && std::isnan(b.tw)));
    case K_PTR: return a.reg == b.reg && a.lo == b.lo && a.hi == b.hi && a.more == b.more && a.lin == b.lin && a.pad[1] == b.pad[1];
    default: return true;
  }
}
static int g_joinCause = 0;
static void (*g_dbgHook)(const AV &, const AV &) = nullptr;
// join; widen = extrapolate unstable bounds (b is the newer value)
static AV avJoin(const AV &a0, const AV &b0, bool widen = false) {
  if (avEq(a0, b0)) return a0;
  AV a = a0, b = b0;
  if (a.kind == K_UNDEF && b.kind == K_UNDEF) { a.mayundef = 1; return a; }
  if (a.kind == K_UNDEF) { b.mayundef = 1; return b; }
  if (b.kind == K_UNDEF) { a.mayundef = 1; return a; }
  if (a.kind == K_ZERO && b.kind == K_ZERO) { a.taint |= b.taint; a.mayundef |= b.mayundef; return a; }
  if (a.kind == K_ZERO) { AV z = fromZero(b.kind == K_TOP ? K_INT : b.kind); z.mayundef = a.mayundef; z.taint = a.taint; a = z; }
  if (b.kind == K_ZERO) { AV z = fromZero(a.kind == K_TOP ? K_INT : a.kind); z.mayundef = b.mayundef; z.taint = b.taint; b = z; }
  if (a.kind == K_TOP || b.kind == K_TOP || a.kind != b.kind) { AV t = mkTop(); t.taint = a.taint | b.taint; t.mayundef = a.mayundef | b.mayundef; return t; }
  AV r = a;
  r.mayundef = a.mayundef | b.mayundef;
  r.taint = a.taint | b.taint;
  if (a.kind == K_INT) {
    r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi);
    if (widen) {
      if (b.lo < a.lo) r.lo = b.lo >= 0 ? 0 : -(i64)2147483648LL;
      if (b.hi > a.hi) r.hi = 2147483647LL;
      if (a.hi > 2147483647LL || b.hi > 2147483647LL) r.hi = BIG;
    }
  } else if (a.kind == K_FP) {
    r.flo = std::min(a.flo, b.flo); r.fhi = std::max(a.fhi, b.fhi);
    if (widen) {
      if (b.flo < a.flo) r.flo = b.flo >= 0 ? 0 : -INF;
      if (b.fhi > a.fhi) r.fhi = INF;
    }
    r.dim = dimJoin(a.dim, b.dim);
    r.par = parJoin(a.par, b.par);
    r.cause = a.cause ? a.cause : b.cause;
    if ((r.dim == DIM_TOP && a.dim != DIM_TOP && b.dim != DIM_TOP) || (r.par == PAR_TOP && a.par != PAR_TOP && b.par != PAR_TOP))
      if (g_dbgHook) g_dbgHook(a, b);
      if (!r.cause) r.cause = a.orig ? a.orig : (b.orig ? b.orig : g_joinCause);
    if (!(a.tw == b.tw)) r.tw = NAN;
    if (a.lin != b.lin) {
      Lin la, lb;
      if (!(getLin(a, la) && getLin(b, lb) && la == lb)) r.lin = 0;
    }
  } else if (a.kind == K_PTR) {
    std::vector<Target> ta, tb;
    getTargets(a, ta); getTargets(b, tb);
    std::vector<Target> t = ta;
    for (auto &x : tb) {
      bool found = false;
      for (auto &y : t) if (y.reg == x.reg) {
        found = true;
        if (widen && x.reg) { if (x.lo < y.lo) y.lo = std::min<i64>(0, x.lo); else y.lo = std::min(y.lo, x.lo); if (x.hi > y.hi) y.hi = BIG; }
        else { y.lo = std::min(y.lo, x.lo); y.hi = std::max(y.hi, x.hi); }
      }
      if (!found) t.push_back(x);
    }
    AV p = ptrFromTargets(t);
    p.mayundef = r.mayundef; p.taint = r.taint;
    if (a.lin == b.lin && !p.more) p.lin = a.lin;
    return p;
  }
  return r;
}
static bool avLeq(const AV &a, const AV &b) { return avEq(avJoin(b, a), b); }

// ------------------------------------------------------------------ memory
static const int PG = 64;  // cells of 4 bytes per page
struct Page {
  int rc = 0;
  bool uniform = false;
  AV u;
  std::vector<AV> c;
};
template <class T> struct Ref {
  T *p = nullptr;
  Ref() {}
  Ref(T *q) : p(q) { if (p) p->rc++; }
  Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref &&o) : p(o.p) { o.p = nullptr; }
  Ref &operator=(Ref o) { std::swap(p, o.p); return *this; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  explicit operator bool() const { return p; }
  bool operator==(const Ref &o) const { return p == o.p; }
};
enum RKind { R_NULL, R_GLOBAL, R_STACK, R_HEAP, R_FUNC };
struct RegionInfo {
  RKind kind = R_GLOBAL;
  std::string name;
  const Value *site = nullptr;
  const GlobalVariable *gv = nullptr;
  const Function *fn = nullptr;
  bool tracked = false;
  bool freed = false;
  std::string where, freedAt;
};
static std::vector<RegionInfo> rinfo;
struct Region {
  int rc = 0;
  i64 size = 0, minSize = 0;
  AV def;             // default cell (UNDEF or ZERO)
  const Constant *init = nullptr;
  bool maybe = false;     // allocated on some paths only
  bool maybeFreed = false; // freed on some paths only
  bool readonly = false;
  std::vector<Ref<Page>> pages;
};
typedef std::vector<std::pair<int, Ref<Region>>> RegVec;  // sorted by id
struct RegBox { int rc = 0; RegVec v; };
struct Memory {  // copy-on-write: copying a state shares the whole map until one side writes
  Ref<RegBox> b{new RegBox()};
  const RegVec &r() const { return b->v; }
  RegVec &w() { if (b->rc > 1) { RegBox *n = new RegBox(); n->v = b->v; b = Ref<RegBox>(n); } return b->v; }
  static RegVec::const_iterator lbc(const RegVec &v, int id) { return std::lower_bound(v.begin(), v.end(), id, [](const std::pair<int, Ref<Region>> &a, int b) { return a.first < b; }); }
  static RegVec::iterator lb(RegVec &v, int id) { return std::lower_bound(v.begin(), v.end(), id, [](const std::pair<int, Ref<Region>> &a, int b) { return a.first < b; }); }
  Region *find(int id) const {
    auto it = lbc(b->v, id);
    return it != b->v.end() && it->first == id ? it->second.p : nullptr;
  }
  Region *own(int id) {
    RegVec &v = w();
    auto it = lb(v, id);
    if (it == v.end() || it->first != id) return nullptr;
    if (it->second->rc > 1) { Region *n = new Region(*it->second.p); n->rc = 0; it->second = Ref<Region>(n); }
    return it->second.p;
  }
  void add(int id, Region *g) {
    RegVec &v = w();
    auto it = lb(v, id);
    if (it != v.end() && it->first == id) it->second = Ref<Region>(g);
    else v.insert(it, {id, Ref<Region>(g)});
  }
  void erase(int id) {
    if (!find(id)) return;
    RegVec &v = w();
    v.erase(lb(v, id));
  }
};

typedef std::vector<AV> Env;
struct State {
  Env env;
  Memory mem;
};

// ------------------------------------------------------------------ globals of the engine
static Module *M;
static const DataLayout *DL;
static std::vector<const Instruction *> causes(1);
static std::map<const Instruction *, int> causeIds;
static int causeId(const Instruction *I) {
  auto it = causeIds.find(I);
  if (it != causeIds.end()) return it->second;
  causes.push_back(I);
  return causeIds[I] = causes.size() - 1;
}
static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  std::string s;
  if (auto &d = I->getDebugLoc()) {
    std::string f = d->getFilename().str();
    size_t p = f.rfind('/');
    if (p != std::string::npos) f = f.substr(p + 1);
    s = f + ":" + std::to_string(d.getLine());
  } else s = "?";
  if (I->getFunction()) s += " (" + I->getFunction()->getName().str() + ")";
  return s;
}
struct Report { std::string cat, where, msg, path; int count; };
static std::map<std::string, Report> reports;
static std::vector<const Instruction *> callStack;
static std::string pathStr() {
  std::string s;
  for (auto *I : callStack) {
    if (!I) continue;
    auto *cb = dyn_cast<CallBase>(I);
    std::string nm = cb && cb->getCalledFunction() ? cb->getCalledFunction()->getName().str() : "(indirect)";
    s += (s.empty() ? "" : " > ") + nm + "@" + locOf(I).substr(0, locOf(I).find(' '));
  }
  return s;
}
struct StopAnalysis {};
static std::string stopAt;            // the analysis ends with the first report of this category
static void report(const std::string &cat, const Instruction *I, const std::string &msg) {
  std::string w = locOf(I);
  std::string key = cat + "|" + w + "|" + msg;
  auto it = reports.find(key);
  if (it != reports.end()) { it->second.count++; return; }
  reports[key] = {cat, w, msg, pathStr(), 1};
  if (cat == stopAt) throw StopAnalysis();
}
static u64 nSteps = 0, nForks = 0, nJoins = 0, nWidenedLoops = 0, nChecks = 0, nAccess = 0, maxSteps = 3000000000ULL, nCalls = 0;
static std::set<const Function *> analysed;
static std::map<std::string, u64> reached;
static std::set<const Instruction *> accessSites;
static int accumDepth = 0;
static int unrollDelay = 0;
static int defDelay = 3, countedDelay = 70;
static int widenAfter = 0;          // loops that iterate more often than this are widened even if their exit is decided
static std::string widenFiles;      // ... in source files whose name contains this
static std::string optFeatures;
// initialisation-gate analysis (C03): 1 record the flag, 2 record the tables, 3 tables must not be touched, 4 nothing may be stored
static int watchMode = 0, watchLabel = -1;
static std::set<std::string> copySites;  // comparisons in which the watched datum takes part unchanged
static std::set<int> flagRegions, tableRegions, lockIds;
static std::string watchNames;
static bool dbg = false;
static std::map<std::string, u64> forkSites;

struct FInfo {
  const Function *F;
  std::unordered_map<const Value *, int> slot;
  std::unordered_map<const BasicBlock *, int> rpo;
  DominatorTree DT;
  LoopInfo LI;
  int nslots = 0;
};
static std::map<const Function *, std::unique_ptr<FInfo>> finfos;
static FInfo &getInfo(const Function *F) {
  auto &p = finfos[F];
  if (p) return *p;
  p.reset(new FInfo());
  p->F = F;
  for (auto &A : F->args()) p->slot[&A] = p->nslots++;
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) p->slot[&I] = p->nslots++;
  ReversePostOrderTraversal<const Function *> R(F);
  int i = 0;
  for (auto *B : R) p->rpo[B] = i++;
  p->DT.recalculate(*const_cast<Function *>(F));
  p->LI.analyze(p->DT);
  return *p;
}
static std::map<const GlobalValue *, int> globalRegion;
static Memory *initialMem;
static int newRegion(RKind k, const std::string &name, const Value *site) {
  RegionInfo ri; ri.kind = k; ri.name = name; ri.site = site;
  if (auto *I = dyn_cast_or_null<Instruction>(site)) ri.where = locOf(I);
  rinfo.push_back(ri);
  return rinfo.size() - 1;
}
static std::string regName(int id) {
  auto &ri = rinfo[id];
  switch (ri.kind) {
    case R_NULL: return "NULL";
    case R_GLOBAL: return "global '" + ri.name + "'";
    case R_STACK: return "local '" + ri.name + "' of " + ri.where;
    case R_HEAP: return "block allocated at " + ri.where;
    case R_FUNC: return "function '" + ri.name + "'";
  }
  return "?";
}

static std::unordered_map<const Constant *, AV> constCache;
static AV evalConst(const Constant *C) {
  auto it = constCache.find(C);
  if (it != constCache.end()) return it->second;
  AV v;
  if (auto *ci = dyn_cast<ConstantInt>(C)) {
    if (ci->getBitWidth() <= 64) { i64 x = ci->getBitWidth() == 1 ? (i64)ci->getZExtValue() : ci->getSExtValue(); v = mkInt(x, x); }
    else v = mkTop();
  } else if (auto *cf = dyn_cast<ConstantFP>(C)) {
    APFloat f = cf->getValueAPF(); bool li;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    v = mkFP(f.convertToDouble(), f.convertToDouble());
  } else if (isa<ConstantPointerNull>(C)) v = mkPtr(0, 0);
  else if (isa<UndefValue>(C)) v = AV();
  else if (auto *gv = dyn_cast<GlobalValue>(C)) {
    auto g = globalRegion.find(gv);
    if (g == globalRegion.end()) v = mkTop(); else v = mkPtr(g->second, 0);
  } else if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    APInt off(64, 0);
    const Value *base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto *g = dyn_cast<GlobalValue>(base)) {
      auto r = globalRegion.find(g);
      v = r == globalRegion.end() ? mkTop() : mkPtr(r->second, off.getSExtValue());
    } else v = mkTop();
  } else if (C->isNullValue()) { v.kind = K_ZERO; }
  else v = mkTop();
  constCache[C] = v;
  return v;
}
static Kind kindOf(Type *T) {
  if (T->isPointerTy()) return K_PTR;
  if (T->isFloatingPointTy()) return K_FP;
  return K_INT;
}
// ------------------------------------------------------------------ memory access
static AV cellGet(const Region *g, i64 cell, Type *T, i64 off) {
  size_t pi = cell / PG;
  if (pi < g->pages.size() && g->pages[pi]) {
    Page *p = g->pages[pi].p;
    if (p->uniform) return p->u;
    const AV &v = p->c[cell % PG];
    if (!(v.kind == K_UNDEF && v.pad[0] == 1)) return v;  // pad[0]==1: not materialised, use initialiser
  }
  if (g->init) {
    Constant *C = ConstantFoldLoadFromConst(const_cast<Constant *>(g->init), T, APInt(64, off), *DL);
    if (C) return evalConst(C);
    return mkTop();
  }
  return g->def;
}
static Page *pageOwn(Region *g, size_t pi) {
  size_t np = (g->size + 4 * PG - 1) / (4 * PG);
  if (g->pages.size() < np) g->pages.resize(np);
  if (pi >= g->pages.size()) g->pages.resize(pi + 1);
  Ref<Page> &r = g->pages[pi];
  if (!r) {
    Page *p = new Page();
    AV d = g->def;
    if (g->init) { d = AV(); d.pad[0] = 1; }
    p->c.assign(PG, d);
    r = Ref<Page>(p);
  } else if (r->rc > 1) { Page *p = new Page(*r.p); p->rc = 0; r = Ref<Page>(p); }
  Page *p = r.p;
  if (p->uniform) { p->uniform = false; p->c.assign(PG, p->u); }
  return p;
}
static AV conv(const AV &v, Type *T) {
  Kind k = kindOf(T);
  if (v.kind == K_ZERO) { AV z = fromZero(k); z.taint = v.taint; z.mayundef = v.mayundef; return z; }
  if (v.kind == K_UNDEF || v.kind == K_TOP) return v;
  if (v.kind != k) { AV t = mkTop(); t.taint = v.taint; return t; }
  return v;
}
// unknown value of a type
static AV unknownOf(Type *T) {
  Kind k = kindOf(T);
  if (k == K_FP) { AV v = mkFP(-INF, INF); v.dim = DIM_TOP; v.par = PAR_TOP; v.tw = NAN; return v; }
  if (k == K_INT) {
    unsigned w = T->getIntegerBitWidth();
    if (w == 1) return mkInt(0, 1);
    if (w >= 62) return mkInt(-BIG, BIG);
    return mkInt(-(1LL << (w - 1)), (1LL << (w - 1)) - 1);
  }
  return mkTop();
}
struct Access { int reg; i64 lo, hi; };
// validate a pointer for an access of n bytes; returns the regions/offset ranges that can be touched
static bool resolve(State &S, const AV &p, i64 n, const Instruction *I, std::vector<Access> &out, bool write) {
  nAccess++;
  accessSites.insert(I);
  if (p.kind == K_ZERO || (p.kind == K_PTR && p.reg == 0 && !p.more)) { report("NULLDEREF", I, std::string(write ? "write" : "read") + " through a null pointer"); return false; }
  if (p.kind == K_UNDEF) { report("UNINIT", I, "dereference of an uninitialised pointer"); return false; }
  if (p.kind != K_PTR) { report("UNKNOWNPTR", I, "pointer not understood by the analysis"); return false; }
  std::vector<Target> t;
  getTargets(p, t);
  for (auto &x : t) {
    if (x.reg == 0) { report("MAYNULL", I, "pointer may be null here"); continue; }
    Region *g = S.mem.find(x.reg);
    auto &ri = rinfo[x.reg];
    if (!g) {
      if (ri.kind == R_FUNC) { report("OOB", I, "data access to a function"); continue; }
      report("UAF", I, std::string(write ? "write to " : "read from ") + (ri.kind == R_HEAP ? "freed memory: " : "dead storage: ") + regName(x.reg));
      continue;
    }
    if (g->maybeFreed) report("UAF", I, "memory may already be freed here: " + regName(x.reg));
    i64 lo = x.lo, hi = x.hi;
    if (t.size() == 1 && p.lin) {
      auto &w = windows[p.lin];
      if (lo + n > w[1] || hi < w[0]) {
        char b[200];
        snprintf(b, 200, "%s of %lld bytes at offset [%lld..%lld] of a structure, outside its array member occupying [%lld..%lld] in ", write ? "write" : "read", n, lo, hi > BIG / 2 ? -1 : hi, w[0], w[1] - 1);
        report("OOB", I, std::string(b) + regName(x.reg));
      }
    }
    if (t.size() == 1 && p.pad[1]) report("OOB", I, std::string(write ? "write to" : "read from") + " an element outside the declared dimension of an array in " + regName(x.reg));
    if (lo < 0 || hi + n > g->size || hi + n > g->minSize) {
      bool definite = (hi < 0 || lo + n > g->size);
      char b[200];
      snprintf(b, 200, "%s of %lld bytes at offset [%lld..%lld] outside %lld-byte ", write ? "write" : "read", n, lo, hi > BIG / 2 ? -1 : hi, g->size);
      report(definite ? "OOB" : "MAYOOB", I, std::string(b) + regName(x.reg));
      if (definite) continue;
      lo = std::max<i64>(lo, lo < 0 ? ((lo % n) + n) % n : lo);
      hi = std::min(hi, g->size - n);
      if (lo > hi) continue;
    }
    out.push_back({x.reg, lo, hi});
  }
  return !out.empty();
}
static std::map<std::array<i64, 3>, AV> constRangeCache;
static AV loadRange(const Region *g, i64 lo, i64 hi, i64 n, Type *T, int reg) {
  if (lo == hi) return conv(cellGet(g, lo / 4, T, lo), T);
  bool pure = g->init && g->pages.empty();
  std::array<i64, 3> key{reg, lo, hi};
  if (pure) { auto it = constRangeCache.find(key); if (it != constRangeCache.end()) return it->second; }
  AV r; bool first = true;
  i64 step = n < 4 ? 4 : n;
  for (i64 o = lo; o <= hi; o += step) {
    size_t pi = (o / 4) / PG;
    AV v;
    if (!g->init && pi >= g->pages.size()) { v = conv(g->def, T); o = hi; }
    else if (!g->init && !g->pages[pi]) {
      v = conv(g->def, T);
      while (pi + 1 < g->pages.size() && !g->pages[pi + 1]) pi++;
      i64 nxt = (i64)(pi + 1) * PG * 4;
      if (nxt > o) { i64 k = (nxt - o + step - 1) / step; o += (k - 1) * step; }
    } else if (pi < g->pages.size() && g->pages[pi] && g->pages[pi]->uniform) {
      v = conv(g->pages[pi]->u, T);
      i64 nxt = (i64)(pi + 1) * PG * 4;
      if (nxt > o) { i64 k = (nxt - o + step - 1) / step; o += (k - 1) * step; }
    } else v = conv(cellGet(g, o / 4, T, o), T);
    if (first) { r = v; first = false; } else r = avJoin(r, v);
  }
  if (pure) constRangeCache[key] = r;
  return r;
}
static int lockRegion() { GlobalVariable *g = M->getGlobalVariable("ai_lockvar"); return g ? globalRegion[g] : 0; }
static int getLock(State &S) {
  int r = lockRegion();
  if (!r) return 0;
  AV v = conv(cellGet(S.mem.find(r), 0, Type::getInt32Ty(M->getContext()), 0), Type::getInt32Ty(M->getContext()));
  return v.kind == K_INT && v.lo == v.hi ? (int)v.lo : 0;
}
static void watchAccess(State &S, int reg, const Instruction *I, bool store) {
  if (rinfo[reg].kind != R_GLOBAL && rinfo[reg].kind != R_HEAP) return;
  if (rinfo[reg].gv && rinfo[reg].gv->isConstant()) return;
  if (rinfo[reg].name == "ai_scratch") return;
  if (rinfo[reg].name == "ai_lockvar") return;
  bool flag = flagRegions.count(reg);
  int curLock = getLock(S);
  switch (watchMode) {
    case 1: if (rinfo[reg].kind == R_GLOBAL) flagRegions.insert(reg); break;
    case 2: case 4: case 5:
      if (flag) {
        if (!curLock) report("UNLOCKED", I, std::string("the ready state is ") + (store ? "set" : "checked") + " outside mutual exclusion");
        else lockIds.insert(curLock);
        if (store && watchMode == 4) report("AGAIN", I, "a repeated initialisation sets the ready state again");
      } else if (store) {
        if (watchMode == 4) report("AGAIN", I, "a repeated initialisation does its work again: stores to " + regName(reg));
        if (watchMode == 2) {
          tableRegions.insert(reg);
          if (!curLock && rinfo[reg].kind == R_GLOBAL) report("UNLOCKED", I, regName(reg) + " is built outside mutual exclusion");
          for (int f : flagRegions) if (Region *g = S.mem.find(f)) {
            AV v = conv(cellGet(g, 0, Type::getInt32Ty(M->getContext()), 0), Type::getInt32Ty(M->getContext()));
            if (v.kind == K_INT && (v.lo > 0 || v.hi < 0)) report("LATE", I, regName(reg) + " is still being built after the library has been declared ready");
          }
        }
      }
      break;
    case 3: if (tableRegions.count(reg)) report("TABLE", I, regName(reg) + " is accessed although the library is not initialised"); break;
  }
}
static AV doLoad(State &S, const AV &p, Type *T, const Instruction *I) {
  i64 n = T->isX86_FP80Ty() ? 16 : (i64)DL->getTypeStoreSize(T);
  if (watchMode && p.kind == K_PTR) { std::vector<Target> t; getTargets(p, t); for (auto &x : t) if (x.reg) watchAccess(S, x.reg, I, false); }
  std::vector<Access> acc;
  if (!resolve(S, p, n, I, acc, false)) { AV v = unknownOf(T); v.cause = causeId(I); if (dbg) fprintf(stderr, "BADLOAD %s\n", locOf(I).c_str()); if (v.kind == K_FP) { v.dim = DIM_ANY; v.par = PAR_ANY; v.tw = 0; } return v; }
  AV r; bool first = true;
  for (auto &a : acc) {
    AV v = loadRange(S.mem.find(a.reg), a.lo, a.hi, n, T, a.reg);
    if (first) { r = v; first = false; } else r = avJoin(r, v);
  }
  r.taint |= p.taint;
  // a load at an imprecise address: 'some candidate cell may be unset' is an artefact of the imprecision
  if (r.kind != K_UNDEF && (acc.size() > 1 || acc[0].lo != acc[0].hi)) r.mayundef = 0;
  if (r.kind == K_UNDEF) { r = unknownOf(T); if (r.kind == K_TOP) r = AV(); r.mayundef = 1; r.cause = causeId(I); r.taint |= p.taint; return r; }
  if (r.kind == K_TOP) { if (dbg) fprintf(stderr, "TOPLOAD %s\n", locOf(I).c_str()); AV u = unknownOf(T); u.taint = r.taint; u.mayundef = r.mayundef; u.cause = causeId(I); return u; }
  // a table lookup at an index depending on position: value's translation weight
  if (p.kind == K_PTR && std::isnan(p.tw) && r.kind == K_FP) r.tw = NAN;
  return r;
}
static u64 roWrites = 0;
static void doStore(State &S, const AV &p, const AV &v, i64 n, const Instruction *I) {
  if (watchMode && p.kind == K_PTR) { std::vector<Target> t; getTargets(p, t); for (auto &x : t) if (x.reg) watchAccess(S, x.reg, I, true); }
  std::vector<Access> acc;
  if (!resolve(S, p, n, I, acc, true)) return;
  bool strong = acc.size() == 1 && acc[0].lo == acc[0].hi && p.more == 0;
  for (auto &a : acc) {
    Region *g = S.mem.own(a.reg);
    if (g->readonly) { roWrites++; report("ROWRITE", I, "writes to a read-only input: " + regName(a.reg)); }
    if (rinfo[a.reg].gv && rinfo[a.reg].gv->isConstant()) report("OOB", I, "writes to constant " + regName(a.reg));
    i64 step = n < 4 ? 4 : n;
    if (strong) {
      pageOwn(g, (a.lo / 4) / PG)->c[(a.lo / 4) % PG] = v;
      if (n > 4 && (a.lo / 4) % PG == PG - 1) {}
      continue;
    }
    i64 count = (a.hi - a.lo) / step + 1;
    for (i64 o = a.lo; o <= a.hi; o += step) {
      size_t pi = (o / 4) / PG;
      i64 pstart = (i64)pi * PG * 4, pend = pstart + PG * 4;
      if (count > 64 && !g->init && n == 8 && o <= pstart + 7 && pend <= a.hi + 8) {
        // whole page weakly updated: keep one summary value
        if (g->pages.size() <= pi) g->pages.resize(pi + 1);
        Ref<Page> &r = g->pages[pi];
        AV u;
        if (!r) u = avJoin(conv(g->def, Type::getDoubleTy(M->getContext())), v);
        else if (r->uniform) u = avJoin(r->u, v);
        else {
          bool f = true;
          for (int k = 0; k < PG; k += 2) { if (f) { u = r->c[k]; f = false; } else u = avJoin(u, r->c[k]); }
          u = avJoin(u, v);
        }
        if (!v.mayundef && acc.size() == 1) { if (u.kind == K_UNDEF) u = v; u.mayundef = 0; }
        if (!(r && r->uniform && avEq(r->u, u))) {
          Page *np = new Page(); np->uniform = true; np->u = u;
          r = Ref<Page>(np);
        }
        i64 k = (pend - o + step - 1) / step; o += (k - 1) * step;
        continue;
      }
      AV old;
      if (g->init) { old = cellGet(g, o / 4, n == 8 && v.kind == K_FP ? Type::getDoubleTy(M->getContext()) : n == 8 ? (Type *)Type::getInt64Ty(M->getContext()) : (Type *)Type::getInt32Ty(M->getContext()), o); }
      else old = cellGet(g, o / 4, nullptr, o);
      AV nv = old.kind == K_UNDEF && acc.size() == 1 ? v : avJoin(old, v);
      if (!v.mayundef && acc.size() == 1) nv.mayundef = 0; // loops that set a whole array are trusted to be complete
      if (!avEq(nv, old)) pageOwn(g, (o / 4) / PG)->c[(o / 4) % PG] = nv;
      else if (g->init) pageOwn(g, (o / 4) / PG)->c[(o / 4) % PG] = nv;
    }
  }
}
static void setLock(State &S, const AV &l, const Instruction *I) {
  int r = lockRegion();
  if (!r) return;
  int id = l.kind == K_PTR ? (l.reg ? l.reg : 1) : 0;
  doStore(S, mkPtr(r, 0), mkInt(id, id), 4, I);
}
// fill [off, off+n) with a cell value
static void fillRange(Region *g, i64 off, i64 n, const AV &v, bool whole) {
  if (whole && off == 0 && n >= g->size) { g->pages.clear(); g->init = nullptr; g->def = v; return; }
  for (i64 o = off; o < off + n && o < g->size; o += 4) pageOwn(g, (o / 4) / PG)->c[(o / 4) % PG] = v;
}

static bool memLeq(const Memory &a, const Memory &b);
static Ref<Page> pageJoin(const Region *ga, const Region *gb, size_t pi, bool widen) {
  Ref<Page> pa = pi < ga->pages.size() ? ga->pages[pi] : Ref<Page>();
  Ref<Page> pb = pi < gb->pages.size() ? gb->pages[pi] : Ref<Page>();
  if (pa == pb && (pa || avEq(ga->def, gb->def))) return pa;
  if (pa && pb && pa->uniform && pb->uniform) {
    Page *p = new Page(); p->uniform = true; p->u = avJoin(pa->u, pb->u, widen);
    return Ref<Page>(p);
  }
  Page *p = new Page();
  p->c.resize(PG);
  AV da = ga->def, db = gb->def;
  if (ga->init) { da = AV(); da.pad[0] = 1; }
  if (gb->init) { db = AV(); db.pad[0] = 1; }
  bool sameA = true;
  for (int k = 0; k < PG; k++) {
    const AV &x = pa ? (pa->uniform ? pa->u : pa->c[k]) : da;
    const AV &y = pb ? (pb->uniform ? pb->u : pb->c[k]) : db;
    bool ux = x.kind == K_UNDEF && x.pad[0] == 1, uy = y.kind == K_UNDEF && y.pad[0] == 1;
    if (ux || uy) {
      if (ux && uy) { p->c[k] = x; continue; }
      const AV &z = ux ? y : x;
      AV w;
      if (z.kind == K_UNDEF) { p->c[k] = z; continue; }
      Type *T = z.kind == K_FP ? Type::getDoubleTy(M->getContext()) : z.kind == K_PTR ? (Type *)PointerType::get(M->getContext(), 0) : (Type *)Type::getInt32Ty(M->getContext());
      i64 off = ((i64)pi * PG + k) * 4;
      Constant *C = ConstantFoldLoadFromConst(const_cast<Constant *>(ux ? ga->init : gb->init), T, APInt(64, off), *DL);
      w = C ? evalConst(C) : mkTop();
      p->c[k] = avJoin(ux ? w : z, ux ? z : w, widen);
      sameA = false;
      continue;
    }
    p->c[k] = avJoin(x, y, widen);
    if (sameA && pa && !pa->uniform && !avEq(p->c[k], x)) sameA = false;
  }
  if (sameA && pa && !pa->uniform) { delete p; return pa; }
  return Ref<Page>(p);
}
static Ref<Region> regionJoin(const Ref<Region> &a, const Ref<Region> &b, bool widen) {
  if (a == b) return a;
  Region *g = new Region();
  g->size = std::max(a->size, b->size);
  g->minSize = std::min(a->minSize, b->minSize);
  g->init = a->init == b->init ? a->init : nullptr;
  g->maybe = a->maybe || b->maybe;
  g->maybeFreed = a->maybeFreed || b->maybeFreed;
  g->readonly = a->readonly || b->readonly;
  g->def = avEq(a->def, b->def) ? a->def : avJoin(a->def, b->def, widen);
  size_t np = std::max(a->pages.size(), b->pages.size());
  if (!avEq(a->def, b->def)) np = std::max<size_t>(np, 0);
  g->pages.resize(np);
  bool same = g->size == a->size && g->minSize == a->minSize && avEq(g->def, a->def) && g->maybe == a->maybe && g->maybeFreed == a->maybeFreed && g->init == a->init && np == a->pages.size();
  for (size_t i = 0; i < np; i++) {
    g->pages[i] = pageJoin(a.p, b.p, i, widen);
    if (same && !(g->pages[i] == a->pages[i])) same = false;
  }
  if (same) { delete g; return a; }
  return Ref<Region>(g);
}
static Memory memJoin(const Memory &a, const Memory &b, bool widen = false) {
  if (a.b == b.b) return a;
  Memory m;
  const RegVec &ar = a.r(), &br = b.r();
  RegVec &mr = m.w();
  mr.reserve(std::max(ar.size(), br.size()) + 4);
  size_t i = 0, j = 0;
  auto mk = [&](const std::pair<int, Ref<Region>> &e) {
    bool heap = rinfo[e.first].kind == R_HEAP;
    if (heap) { 
      Region *g = new Region(*e.second.p); g->rc = 0;
      if (rinfo[e.first].freed) g->maybeFreed = true; else g->maybe = true;
      mr.push_back({e.first, Ref<Region>(g)});
    } else if (rinfo[e.first].kind == R_STACK) { mr.push_back(e); }
    else mr.push_back(e);
  };
  while (i < ar.size() || j < br.size()) {
    if (j >= br.size() || (i < ar.size() && ar[i].first < br[j].first)) mk(ar[i++]);
    else if (i >= ar.size() || br[j].first < ar[i].first) mk(br[j++]);
    else { mr.push_back({ar[i].first, regionJoin(ar[i].second, br[j].second, widen)}); i++; j++; }
  }
  return m;
}
static State stJoin(State &a, State &b, bool widen = false) {
  nJoins++;
  State s;
  s.env.resize(a.env.size());
  for (size_t i = 0; i < a.env.size(); i++) {
    if (a.env[i].kind == K_UNDEF && !a.env[i].mayundef) s.env[i] = b.env[i];        // defined on one path only: not live
    else if (b.env[i].kind == K_UNDEF && !b.env[i].mayundef) s.env[i] = a.env[i];
    else s.env[i] = avJoin(a.env[i], b.env[i], widen);
  }
  s.mem = memJoin(a.mem, b.mem, widen);
  return s;
}
static bool regionEq(const Region *a, const Region *b) {
  if (a == b) return true;
  if (a->size != b->size || a->minSize != b->minSize || !avEq(a->def, b->def) || a->maybe != b->maybe || a->maybeFreed != b->maybeFreed || a->init != b->init) return false;
  size_t np = std::max(a->pages.size(), b->pages.size());
  for (size_t i = 0; i < np; i++) {
    Page *p = i < a->pages.size() ? a->pages[i].p : nullptr, *q = i < b->pages.size() ? b->pages[i].p : nullptr;
    if (p == q) continue;
    if (p && q && p->uniform && q->uniform) { if (!avEq(p->u, q->u)) return false; continue; }
    AV da = a->def, db = b->def;
    if (a->init) { da = AV(); da.pad[0] = 1; }
    for (int k = 0; k < PG; k++) {
      const AV &x = p ? (p->uniform ? p->u : p->c[k]) : da;
      const AV &y = q ? (q->uniform ? q->u : q->c[k]) : (a->init ? da : db);
      if (!avEq(x, y) || x.pad[0] != y.pad[0]) return false;
    }
  }
  return true;
}
static bool stEq(const State &a, const State &b) {
  for (size_t i = 0; i < a.env.size(); i++) if (!avEq(a.env[i], b.env[i])) return false;
  if (a.mem.b == b.mem.b) return true;
  if (a.mem.r().size() != b.mem.r().size()) return false;
  for (size_t i = 0; i < a.mem.r().size(); i++) {
    if (a.mem.r()[i].first != b.mem.r()[i].first) return false;
    if (!regionEq(a.mem.r()[i].second.p, b.mem.r()[i].second.p)) return false;
  }
  return true;
}

// ------------------------------------------------------------------ arithmetic
static double nz(double x) { return std::isnan(x) ? 0 : x; }
static void fixConst(AV &r) {
  // results that vanish identically (or to rounding) carry no grading
  if (r.flo == r.fhi && std::fabs(r.flo) < 1e-14 && r.lin == 0) { r.dim = DIM_ANY; r.par = PAR_ANY; r.tw = 0; }
}
static AV fpIn(const AV &v) {
  if (v.kind == K_FP) return v;
  if (v.kind == K_ZERO) { AV z = mkFP(0, 0); z.taint = v.taint; return z; }
  AV u = mkFP(-INF, INF); u.dim = DIM_TOP; u.par = PAR_TOP; u.tw = NAN; u.taint = v.taint; u.mayundef = v.mayundef || v.kind == K_UNDEF; u.cause = v.cause;
  return u;
}
static AV fpAdd(const AV &a, const AV &b, double sb, const Instruction *I) {
  AV r; r.kind = K_FP;
  double blo = sb > 0 ? b.flo : -b.fhi, bhi = sb > 0 ? b.fhi : -b.flo;
  r.flo = a.flo + blo; r.fhi = a.fhi + bhi;
  if (std::isnan(r.flo)) r.flo = -INF;
  if (std::isnan(r.fhi)) r.fhi = INF;
  r.dim = dimJoin(a.dim, b.dim);
  r.par = parJoin(a.par, b.par);
  r.cause = a.cause ? a.cause : b.cause;
  r.orig = causeId(I);
  if (r.dim == DIM_TOP && a.dim != DIM_TOP && b.dim != DIM_TOP) { r.cause = causeId(I); if (dbg) fprintf(stderr, "DIMCONF %s: %s vs %s\n", locOf(I).c_str(), dimStr(a.dim).c_str(), dimStr(b.dim).c_str()); }
  else if (r.par == PAR_TOP && a.par != PAR_TOP && b.par != PAR_TOP && !r.cause) r.cause = causeId(I);
  r.taint = a.taint | b.taint;
  r.mayundef = 0;
  r.tw = a.tw + sb * b.tw;
  if (std::isnan(r.tw) && !std::isnan(a.tw) && !std::isnan(b.tw)) r.tw = NAN;
  if (a.lin || b.lin) {
    Lin la, lb;
    if (getLin(a, la) && getLin(b, lb)) {
      for (auto &p : lb) {
        double &x = la[p.first];
        double y = x + sb * p.second;
        if (std::fabs(y) < 1e-12 * (std::fabs(x) + std::fabs(p.second))) y = 0;
        x = y;
      }
      r.lin = internLin(la);
    }
  }
  // x - x with the same affine form
  if (r.lin && lins[r.lin].empty()) { AV z = mkFP(0, 0); z.taint = r.taint; return z; }
  fixConst(r);
  if (std::fabs(r.tw) < 1e-12) r.tw = 0;
  return r;
}
static AV fpMul(const AV &a, const AV &b, const Instruction *I) {
  AV r; r.kind = K_FP;
  double c[4] = {nz(a.flo * b.flo), nz(a.flo * b.fhi), nz(a.fhi * b.flo), nz(a.fhi * b.fhi)};
  r.flo = *std::min_element(c, c + 4); r.fhi = *std::max_element(c, c + 4);
  r.dim = dimMul(a.dim, b.dim, 1);
  r.par = parMul(a.par, b.par);
  r.cause = a.cause ? a.cause : b.cause;
  r.orig = causeId(I);
  r.taint = a.taint | b.taint;
  bool za = a.flo == 0 && a.fhi == 0, zb = b.flo == 0 && b.fhi == 0;
  if (za || zb) { AV z = mkFP(0, 0); return z; }
  if (a.tw == 0 && b.tw == 0) r.tw = 0;
  else if (isConstFP(a)) r.tw = a.tw == 0 ? a.flo * b.tw : (isConstFP(b) ? a.flo * b.tw + b.flo * a.tw : NAN);
  else if (isConstFP(b)) r.tw = b.tw == 0 ? b.flo * a.tw : NAN;
  else r.tw = NAN;
  if (a.lin || b.lin) {
    const AV *k = isConstFP(a) && !a.lin ? &a : isConstFP(b) && !b.lin ? &b : nullptr;
    const AV *x = k == &a ? &b : &a;
    if (k && x->lin) {
      Lin l = lins[x->lin];
      for (auto &p : l) p.second *= k->flo;
      r.lin = internLin(l);
    }
  }
  fixConst(r);
  return r;
}
static AV fpDiv(const AV &a, const AV &b, const Instruction *I) {
  AV r; r.kind = K_FP;
  if (b.flo > 0 || b.fhi < 0) {
    double c[4] = {nz(a.flo / b.flo), nz(a.flo / b.fhi), nz(a.fhi / b.flo), nz(a.fhi / b.fhi)};
    r.flo = *std::min_element(c, c + 4); r.fhi = *std::max_element(c, c + 4);
  } else {
    if (optFeatures.find("fpdiv") != std::string::npos && !(a.flo == 0 && a.fhi == 0))
      report(b.flo == 0 && b.fhi == 0 ? "DIVZERO" : "MAYDIVZERO", I, "floating-point division by a value that can be zero");
    r.flo = -INF; r.fhi = INF;
    if (a.flo >= 0 && b.flo >= 0) r.flo = 0;
  }
  r.dim = dimMul(a.dim, b.dim, -1);
  if (b.dim == DIM_ANY) r.dim = a.dim;  // division by an identically zero value: not a grading question
  r.par = parMul(a.par, b.par);
  r.cause = a.cause ? a.cause : b.cause;
  r.orig = causeId(I);
  r.taint = a.taint | b.taint;
  if (a.tw == 0 && b.tw == 0) r.tw = 0;
  else if (isConstFP(b) && b.tw == 0) r.tw = a.tw / b.flo;
  else r.tw = NAN;
  if (a.lin && isConstFP(b) && !b.lin && b.flo != 0) {
    Lin l = lins[a.lin];
    for (auto &p : l) p.second /= b.flo;
    r.lin = internLin(l);
  }
  if (a.flo == 0 && a.fhi == 0) { r.dim = DIM_ANY; r.par = PAR_ANY; r.flo = r.fhi = 0; r.tw = 0; }
  return r;
}
static AV fpUnary(const AV &a, double lo, double hi) {
  AV r; r.kind = K_FP; r.flo = std::min(lo, hi); r.fhi = std::max(lo, hi);
  r.dim = 0; r.par = 0; r.taint = a.taint; r.cause = a.cause; r.orig = a.orig; r.tw = a.tw == 0 ? 0 : NAN;
  return r;
}
static int need0(AV &r, const AV &a, const Instruction *I, const char *fn) {
  // transcendental function: the argument must be a pure number and even
  int bad = 0;
  if (a.dim != 0 && a.dim != DIM_ANY) { r.dim = DIM_TOP; r.cause = a.dim == DIM_TOP && a.cause ? a.cause : causeId(I); bad = 1; }
  if (a.par != 0 && a.par != PAR_ANY) { r.par = PAR_TOP; if (!r.cause) r.cause = a.cause ? a.cause : causeId(I); bad = 1; }
  return bad;
}
static AV fpExp(const AV &a, const Instruction *I) { AV r = fpUnary(a, std::exp(a.flo), std::exp(a.fhi)); need0(r, a, I, "exp"); fixConst(r); return r; }
static AV fpLog(const AV &a, const Instruction *I) {
  if (optFeatures.find("fpdom") != std::string::npos && a.flo <= 0) report(a.fhi <= 0 ? "DOMAIN!" : "DOMAIN", I, a.fhi <= 0 ? "log of a value that is never positive" : "log of a value that can be <= 0");
  AV r = fpUnary(a, a.flo > 0 ? std::log(a.flo) : -INF, a.fhi > 0 ? std::log(a.fhi) : INF); need0(r, a, I, "log"); fixConst(r); return r;
}
static AV fpErf(const AV &a, const Instruction *I) {
  AV r = fpUnary(a, std::erf(a.flo), std::erf(a.fhi));
  uint8_t p = a.par; need0(r, a, I, "erf"); if (p <= 7) r.par = p; return r;
}
static AV fpSqrt(const AV &a, const Instruction *I) {
  if (optFeatures.find("fpdom") != std::string::npos && a.flo < 0) report(a.fhi < 0 ? "DOMAIN!" : "DOMAIN", I, a.fhi < 0 ? "sqrt of a value that is always negative" : "sqrt of a value that can be negative");
  AV r = fpUnary(a, std::sqrt(std::max(0.0, a.flo)), std::sqrt(std::max(0.0, a.fhi)));
  r.dim = dimPow(a.dim, 0.5);
  r.par = a.par == PAR_ANY ? PAR_ANY : a.par == 0 ? 0 : PAR_TOP;
  if (r.par == PAR_TOP && !r.cause) r.cause = causeId(I);
  if (a.flo == 0 && a.fhi == 0) return mkFP(0, 0);
  return r;
}
static AV fpAbs(const AV &a) {
  AV r = a;
  if (a.flo >= 0) {}
  else if (a.fhi <= 0) { r.flo = -a.fhi; r.fhi = -a.flo; }
  else { r.flo = 0; r.fhi = std::max(-a.flo, a.fhi); }
  if (a.par <= 7) r.par = 0;
  if (a.flo < 0 && !isConstFP(a)) { r.lin = 0; if (a.tw != 0) r.tw = NAN; }
  if (isConstFP(a) && a.flo < 0 && a.tw == a.tw) r.tw = -a.tw;
  return r;
}
static AV fpRound(const AV &a, double lo, double hi, const Instruction *I) {
  AV r = fpUnary(a, lo, hi);
  if (a.dim != 0 && a.dim != DIM_ANY) { r.dim = DIM_TOP; r.cause = a.cause ? a.cause : causeId(I); }
  if (a.par != 0 && a.par != PAR_ANY) { r.par = PAR_TOP; if (!r.cause) r.cause = causeId(I); }
  return r;
}
static AV fpPow(const AV &a, const AV &b, const Instruction *I) {
  AV r = fpUnary(a, -INF, INF);
  r.taint |= b.taint;
  if (isConstFP(b)) {
    double n = b.flo;
    if (n == 0) { r = mkFP(1, 1); return r; }
    if (a.flo == 0 && a.fhi == 0) {
      if (n > 0) return mkFP(0, 0);
      if (optFeatures.find("fpdiv") != std::string::npos) report("DIVZERO", I, "zero raised to a negative power");
    }
    if (a.fhi < 0 && n != std::floor(n) && optFeatures.find("fpdom") != std::string::npos) report("DOMAIN!", I, "negative value raised to a non-integer power");
    bool isint = n == std::floor(n);
    if (isConstFP(a)) { r.flo = r.fhi = std::pow(a.flo, n); }
    else if (a.flo >= 0) { double x = std::pow(a.flo, n), y = std::pow(a.fhi, n); r.flo = std::min(x, y); r.fhi = std::max(x, y); }
    else if (isint && n > 0 && std::fmod(n, 2) == 0) { r.flo = 0; r.fhi = std::max(std::pow(a.flo, n), std::pow(a.fhi, n)); }
    else if (isint && n > 0) { r.flo = std::pow(a.flo, n); r.fhi = std::pow(a.fhi, n); }
    else if (isint && std::fmod(n, 2) == 0) r.flo = 0;
    r.dim = dimPow(a.dim, n);
    if (a.par == PAR_ANY) r.par = PAR_ANY;
    else if (a.par == PAR_TOP) r.par = PAR_TOP;
    else if (isint) r.par = (std::fmod(std::fabs(n), 2) == 1) ? a.par : 0;
    else { r.par = a.par == 0 ? 0 : PAR_TOP; if (r.par == PAR_TOP && !r.cause) r.cause = causeId(I); }
    if (n == 1) { r.tw = a.tw; r.lin = a.lin; }
    r.cause = r.cause ? r.cause : a.cause;
    if (std::isnan(r.flo)) r.flo = -INF;
    if (std::isnan(r.fhi)) r.fhi = INF;
    fixConst(r);
    return r;
  }
  // unknown exponent
  if (a.flo >= 0) r.flo = 0;
  if (a.dim != 0 && a.dim != DIM_ANY) { r.dim = DIM_TOP; r.cause = a.cause ? a.cause : causeId(I); }
  if (b.dim != 0 && b.dim != DIM_ANY) { r.dim = DIM_TOP; if (!r.cause) r.cause = b.cause ? b.cause : causeId(I); }
  if (a.par != 0 && a.par != PAR_ANY) { r.par = PAR_TOP; if (!r.cause) r.cause = causeId(I); }
  return r;
}
static i64 clampT(__int128 x, i64 lo, i64 hi) { return x < lo ? lo : x > hi ? hi : (i64)x; }
static AV intRange(__int128 lo, __int128 hi, Type *T, bool nsw) {
  unsigned w = T->getIntegerBitWidth();
  i64 tl = w >= 62 ? -BIG * 4 : -(1LL << (w - 1)), th = w >= 62 ? BIG * 4 : (1LL << (w - 1)) - 1;
  if (w == 1) { tl = 0; th = 1; }
  if (lo < tl || hi > th) {
    if (nsw) return mkInt(clampT(lo, tl, th), clampT(hi, tl, th));
    if (lo == hi) {  // wrap a constant
      i64 m = (i64)lo; if (w < 64) { u64 mask = (1ULL << w) - 1; u64 x = (u64)m & mask; m = (x >> (w - 1)) & 1 ? (i64)(x | ~mask) : (i64)x; }
      return mkInt(m, m);
    }
    return mkInt(tl, th);
  }
  return mkInt((i64)lo, (i64)hi);
}

// ------------------------------------------------------------------ interpreter
struct Frame {
  const Function *F;
  FInfo *fi;
  std::optional<State> ret;
  AV retVal;
  bool hasRet = false;
  u64 leaves = 0;  // states that left the function while looping
  std::vector<int> allocas;
};
typedef std::map<int, std::pair<const BasicBlock *, State>> Pending;
static void execFunction(const Function *F, std::vector<AV> &args, Memory &mem, AV &ret, bool &returns, const Instruction *callI);

static AV val(State &S, Frame &Fr, const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return evalConst(C);
  auto it = Fr.fi->slot.find(V);
  if (it == Fr.fi->slot.end()) return mkTop();
  return S.env[it->second];
}
static bool mapLiterals = false;
static AV operandFP(State &S, Frame &Fr, const Value *V, const Instruction *I) {
  AV a = val(S, Fr, V);
  if (a.mayundef || a.kind == K_UNDEF) { report("UNINIT", I, "uninitialised value used in a computation"); a.mayundef = 0; }
  a = fpIn(a);
  // The change of variables of the radial quadrature uses a fixed length scale of 5 bohr: its literals are lengths.
  if (mapLiterals && isa<ConstantFP>(V) && a.dim == 0) {
    if (auto *f = I->getFunction()) if (auto &d = I->getDebugLoc()) {
      StringRef fn = d->getFilename();
      if (fn.contains("radial_type")) {
        double x = std::fabs(a.flo); Dim dd{}; 
        if (x == 5 || x == 15) dd[0] = 1; else if (x == 25 || x == 75) dd[0] = 2; else if (x == 125 || x == 375) dd[0] = 3;
        if (dd[0] != 0) a.dim = internDim(dd);
      }
    }
  }
  return a;
}
static void refineCmp(State &S, Frame &Fr, const Value *cond, bool taken);
static const std::string &strArg(const Value *V) {
  static std::map<const Value *, std::string> cache;
  auto it = cache.find(V);
  if (it != cache.end()) return it->second;
  std::string s = "?";
  const Value *b = V->stripPointerCasts();
  if (auto *g = dyn_cast<GlobalVariable>(b)) if (g->hasInitializer()) if (auto *d = dyn_cast<ConstantDataArray>(g->getInitializer())) if (d->isCString()) s = d->getAsCString().str();
  return cache[V] = s;
}
static u64 stackHash() {
  u64 h = 1469598103934665603ULL;
  for (auto *I : callStack) { h ^= (u64)I; h *= 1099511628211ULL; }
  return h;
}
static std::map<std::pair<const Value *, u64>, std::vector<int>> recycle;
static int allocRegion(State &S, RKind k, const std::string &name, const Value *site, i64 size, AV def, i64 minSize = -1) {
  int id = -1;
  if (accumDepth > 0) {
    auto &v = recycle[{site, stackHash()}];
    for (int c : v) if (!S.mem.find(c)) { id = c; break; }
    if (id < 0) { id = newRegion(k, name, site); v.push_back(id); }
  } else {
    id = newRegion(k, name, site);
    recycle[{site, stackHash()}].push_back(id);
  }
  Region *g = new Region();
  g->size = size; g->minSize = minSize < 0 ? size : minSize; g->def = def;
  S.mem.add(id, g);
  return id;
}
static bool trackHeap = false;
static bool leakReachable(State &S, int id) {
  // reachable from a global of the library?
  std::set<int> seen; std::vector<int> wl;
  for (auto &p : S.mem.r()) if (rinfo[p.first].kind == R_GLOBAL) { wl.push_back(p.first); seen.insert(p.first); }
  while (!wl.empty()) {
    int x = wl.back(); wl.pop_back();
    if (x == id) return true;
    Region *g = S.mem.find(x);
    if (!g) continue;
    for (auto &pg : g->pages) if (pg && !pg->uniform) for (auto &c : pg->c) if (c.kind == K_PTR) {
      std::vector<Target> t; getTargets(c, t);
      for (auto &y : t) if (y.reg && seen.insert(y.reg).second) wl.push_back(y.reg);
    }
  }
  return false;
}
static std::string labelsStr(u64 m) {
  std::string s;
  for (int i = 0; i < 64; i++) if (m >> i & 1) s += (s.empty() ? "" : ",") + std::to_string(i);
  return s;
}
static std::set<std::string> checkNames;
static int noReport = 0;

// returns false if the path ends here (abort)
// a watched datum (tainted atom) compared with something must be the datum itself, not a scaled, clamped or shifted version of it
static void watchCmp(State &S, Frame &Fr, const FCmpInst &C, const AV &a, const AV &b) {
  for (int k = 0; k < 2; k++) {
    const AV &v = k ? b : a;
    if (!(v.taint >> watchLabel & 1)) continue;
    Lin l;
    bool known = v.kind == K_FP && getLin(v, l);
    if (known && l.size() == 1 && l.begin()->first != 0 && l.begin()->second == 1) { copySites.insert(locOf(&C)); continue; }
    if (!known) if (auto *d = dyn_cast<Instruction>(C.getOperand(k))) if (d->getOpcode() == Instruction::FSub || d->getOpcode() == Instruction::FAdd) { copySites.insert(locOf(&C)); continue; }
    report("COPY", &C, "the value compared is not the watched setting itself but " + (known ? linStr(v) : std::string("a value computed from it")));
  }
}
// comparisons of quantities of different grades decide by the choice of units, orientation or origin.
// Tests for numerical zero (literals below 1e-6) are not decisions of that kind.
static bool featCmp = false;
static void gradeCmp(const FCmpInst &C, const AV &a, const AV &b) {
  if (a.kind != K_FP || b.kind != K_FP) return;
  // |x - y| against a literal is a convergence test: the literal is an accuracy
  bool conv = false;
  for (auto &op : C.operands())
    if (auto *f = dyn_cast<CallBase>(op.get())) if (f->getCalledFunction() && f->getCalledFunction()->getName().contains("fabs"))
      if (auto *d = dyn_cast<Instruction>(f->getArgOperand(0))) if (d->getOpcode() == Instruction::FSub) conv = true;
  auto tiny = [&](const AV &v) { return v.flo == v.fhi && std::fabs(v.flo) < (conv ? 0.05 : 1e-6); };
  auto inf = [](const AV &v) { return v.flo == v.fhi && std::isinf(v.flo); };
  if (inf(a) || inf(b)) return;
  bool t = tiny(a) || tiny(b);
  if (!t && a.dim != b.dim && a.dim != DIM_ANY && b.dim != DIM_ANY && a.dim != DIM_TOP && b.dim != DIM_TOP)
    report("DIMCMP", &C, "comparison of quantities of different dimensions: " + dimStr(a.dim) + " and " + dimStr(b.dim));
  if (!t && a.par != b.par && a.par <= 7 && b.par <= 7)
    report("PARCMP", &C, "comparison of quantities of different mirror parities");
  if (std::isnan(a.tw) || std::isnan(b.tw) || a.tw != b.tw)
    report("SHIFTCMP", &C, "comparison involving an absolute position");
}
static bool doCall(State &S, Frame &Fr, const CallBase *CB) {
  nCalls++;
  auto setRes = [&](AV v) { if (!CB->getType()->isVoidTy()) S.env[Fr.fi->slot[CB]] = v; };
  const Function *F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
  std::vector<const Function *> targets;
  if (F) targets.push_back(F);
  else {
    AV p = val(S, Fr, CB->getCalledOperand());
    if (p.kind == K_PTR) {
      std::vector<Target> t; getTargets(p, t);
      for (auto &x : t) { if (x.reg == 0) { report("MAYNULL", CB, "call through a pointer that may be null"); continue; } if (rinfo[x.reg].kind == R_FUNC) targets.push_back(rinfo[x.reg].fn); }
    }
    if (targets.empty()) { report("UNKNOWNPTR", CB, "indirect call with unknown target"); return false; }
  }
  auto arg = [&](unsigned i) { return val(S, Fr, CB->getArgOperand(i)); };
  auto farg = [&](unsigned i) { return operandFP(S, Fr, CB->getArgOperand(i), CB); };
  auto cint = [&](unsigned i) -> i64 { AV a = arg(i); if (a.kind == K_FP) return (i64)a.flo; return a.lo; };
  auto cdbl = [&](unsigned i) -> double { AV a = fpIn(arg(i)); return a.flo; };
  bool extStub = F && F->isDeclaration() && !F->isIntrinsic() && M->getFunction(("ai_stub_" + F->getName()).str()) && !Fr.F->getName().starts_with("ai_stub_");
  if (targets.size() == 1 && F && !extStub) {
    StringRef n = F->getName();
    if (n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.stack") ) { return true; }
    if (n.starts_with("llvm.fabs") || n == "fabs") { setRes(fpAbs(farg(0))); return true; }
    if (n.starts_with("llvm.round") || n == "round") { AV a = farg(0); setRes(fpRound(a, std::round(a.flo), std::round(a.fhi), CB)); return true; }
    if (n.starts_with("llvm.floor") || n == "floor") { AV a = farg(0); setRes(fpRound(a, std::floor(a.flo), std::floor(a.fhi), CB)); return true; }
    if (n.starts_with("llvm.ceil") || n == "ceil") { AV a = farg(0); setRes(fpRound(a, std::ceil(a.flo), std::ceil(a.fhi), CB)); return true; }
    if (n.starts_with("llvm.trunc") || n == "trunc") { AV a = farg(0); setRes(fpRound(a, std::trunc(a.flo), std::trunc(a.fhi), CB)); return true; }
    if (n == "lround" || n == "lrint" || n.starts_with("llvm.lround")) { AV a = farg(0); AV r = mkInt((i64)std::max(-1e18, std::round(a.flo)), (i64)std::min(1e18, std::round(a.fhi))); r.taint = a.taint; setRes(r); return true; }
    if (n.starts_with("llvm.fmuladd") || n.starts_with("llvm.fma") || n == "fma") { AV m = fpMul(farg(0), farg(1), CB); setRes(fpAdd(m, farg(2), 1, CB)); return true; }
    if (n.starts_with("llvm.maxnum") || n.starts_with("llvm.minnum") || n == "fmax" || n == "fmin") {
      AV a = farg(0), b = farg(1); AV r = avJoin(a, b); bool mx = n.contains("max");
      if (mx) { r.flo = std::max(a.flo, b.flo); r.fhi = std::max(a.fhi, b.fhi); } else { r.flo = std::min(a.flo, b.flo); r.fhi = std::min(a.fhi, b.fhi); }
      setRes(r); return true; }
    if (n.starts_with("llvm.copysign") || n == "copysign") { AV a = farg(0); AV r = fpAbs(a); r.flo = -r.fhi; r.par = parMul(r.par, farg(1).par); setRes(r); return true; }
    if (n.starts_with("llvm.abs")) { AV a = arg(0); AV r = a; if (a.kind == K_INT) { if (a.lo >= 0) {} else if (a.hi <= 0) { r.lo = -a.hi; r.hi = -a.lo; } else { r.lo = 0; r.hi = std::max(-a.lo, a.hi); } } setRes(r); return true; }
    if (n.starts_with("llvm.smax") || n.starts_with("llvm.smin")) { AV a = arg(0), b = arg(1); bool mx = n.contains("smax"); AV r = a; r.taint |= b.taint; r.lo = mx ? std::max(a.lo, b.lo) : std::min(a.lo, b.lo); r.hi = mx ? std::max(a.hi, b.hi) : std::min(a.hi, b.hi); setRes(r); return true; }
    if (n == "abs" || n == "labs") { AV a = arg(0); AV r = a; if (a.kind == K_INT) { if (a.lo >= 0) {} else if (a.hi <= 0) { r.lo = -a.hi; r.hi = -a.lo; } else { r.lo = 0; r.hi = std::max(-a.lo, a.hi); } } setRes(r); return true; }
    if (n == "exp") { setRes(fpExp(farg(0), CB)); return true; }
    if (n == "expl") { setRes(fpExp(farg(0), CB)); return true; }
    if (n == "exp2" || n == "expm1" || n == "log1p" || n == "log2" || n == "log10" || n == "exp10") {
      AV a = farg(0); auto ev = [&](double x) { return n == "exp2" ? std::exp2(x) : n == "expm1" ? std::expm1(x) : n == "log1p" ? std::log1p(x) : n == "log2" ? std::log2(x) : n == "log10" ? std::log10(x) : std::pow(10.0, x); };
      double lo = ev(a.flo), hi = ev(a.fhi); if (std::isnan(lo)) lo = -INFINITY; if (std::isnan(hi)) hi = INFINITY;
      AV r = fpUnary(a, lo, hi); if (n == "expm1" || n == "log1p") { if (a.flo != a.fhi) { r.flo = lo == 0 ? 0 : lo - std::fabs(lo) * 1e-15; r.fhi = hi == 0 ? 0 : hi + std::fabs(hi) * 1e-15; } }
      need0(r, a, CB, n.str().c_str()); setRes(r); return true; }
    if (n == "log") { setRes(fpLog(farg(0), CB)); return true; }
    if (n == "erf") { setRes(fpErf(farg(0), CB)); return true; }
    if (n == "erfc") { AV a = farg(0); AV r = fpUnary(a, 0, 2); need0(r, a, CB, "erfc"); setRes(r); return true; }
    if (n == "sqrt" || n.starts_with("llvm.sqrt")) { setRes(fpSqrt(farg(0), CB)); return true; }
    if (n == "cbrt") { AV a = farg(0); AV r = fpUnary(a, std::cbrt(a.flo), std::cbrt(a.fhi)); r.dim = dimPow(a.dim, 1.0 / 3); r.par = a.par; setRes(r); return true; }
    if (n == "pow" || n.starts_with("llvm.pow.")) { setRes(fpPow(farg(0), farg(1), CB)); return true; }
    if (n.starts_with("llvm.powi")) { AV b = arg(1); AV fb = b.kind == K_INT ? mkFP(b.lo, b.hi) : mkFP(-INF, INF); setRes(fpPow(farg(0), fb, CB)); return true; }
    if (n == "sin" || n == "cos" || n == "atan" || n == "tanh" || n == "sinh" || n == "cosh" || n == "tan") {
      AV a = farg(0); AV r = fpUnary(a, n == "sin" || n == "cos" ? -1 : -INF, n == "sin" || n == "cos" ? 1 : INF); if (isConstFP(a)) { double x = a.flo; r.flo = r.fhi = n == "sin" ? sin(x) : n == "cos" ? cos(x) : n == "atan" ? atan(x) : n == "tanh" ? tanh(x) : n == "sinh" ? sinh(x) : n == "cosh" ? cosh(x) : tan(x); } need0(r, a, CB, ""); setRes(r); return true; }
    if (n == "hypot") { AV a = farg(0), b = farg(1); AV r = fpSqrt(fpAdd(fpMul(a, a, CB), fpMul(b, b, CB), 1, CB), CB); setRes(r); return true; }
    if (n == "__muldc3" || n == "__divdc3") {
      AV t = mkTop(); t.taint = 0; for (unsigned i = 0; i < 4; i++) t.taint |= arg(i).taint;
      // result handled by extractvalue: constants are folded
      AV a = farg(0), b = farg(1), c = farg(2), d = farg(3);
      if (n == "__muldc3" && isConstFP(a) && isConstFP(b) && isConstFP(c) && isConstFP(d)) {
        AV v; v.kind = K_TOP; v.flo = a.flo * c.flo - b.flo * d.flo; v.fhi = a.flo * d.flo + b.flo * c.flo; v.reg = 77; setRes(v); return true; }
      if (n == "__divdc3" && isConstFP(a) && isConstFP(b) && isConstFP(c) && isConstFP(d)) {
        double q = c.flo * c.flo + d.flo * d.flo; AV v; v.kind = K_TOP; v.flo = (a.flo * c.flo + b.flo * d.flo) / q; v.fhi = (b.flo * c.flo - a.flo * d.flo) / q; v.reg = 77; setRes(v); return true; }
      setRes(t); return true;
    }
    if (n == "malloc" || n == "calloc" || n == "realloc" || n == "aligned_alloc") {
      i64 size, msize = -1; bool zero = n == "calloc";
      AV szv;
      if (zero) {
        AV a = arg(0), b = arg(1);
        if (a.kind != K_INT || b.kind != K_INT) size = BIG / 4; else { if (a.lo < 0 || b.lo < 0) { if (a.hi < 0) report("BADALLOC", CB, "allocation with a negative element count"); } 
          msize = (i64)std::min<__int128>((__int128)std::max<i64>(a.lo, 0) * std::max<i64>(b.lo, 0), BIG);
          size = (i64)std::min<__int128>((__int128)std::max<i64>(a.hi, 0) * std::max<i64>(b.hi, 0), BIG);
          if (size > (64 << 20)) size = msize; }
      } else {
        AV a = arg(n == "malloc" ? 0 : 1);
        size = a.kind == K_INT ? std::max<i64>(a.lo, 0) : BIG / 4;
        if (a.kind == K_INT && a.hi != a.lo && a.hi > 0 && a.hi <= (64 << 20)) { msize = size; size = a.hi; }
      }
      AV def; if (zero) { def.kind = K_ZERO; }
      int id = allocRegion(S, R_HEAP, "", CB, size, def, msize);
      rinfo[id].tracked = trackHeap; rinfo[id].freed = false;
      if (n == "realloc") {
        AV p = arg(0);
        if (p.kind == K_PTR) {
          std::vector<Target> t; getTargets(p, t);
          for (auto &x : t) if (x.reg) {
            Region *old = S.mem.find(x.reg);
            if (!old) { report("UAF", CB, "realloc of freed memory"); continue; }
            if (rinfo[x.reg].kind != R_HEAP) { report("BADFREE", CB, "realloc of " + regName(x.reg)); continue; }
            Region *g = S.mem.own(id);
            std::vector<Ref<Page>> pages = old->pages;
            i64 os = old->size; AV odef = old->def;
            for (i64 o = 0; o < os && o < g->size; o += 4) {
              size_t pi = (o / 4) / PG;
              AV v = pi < pages.size() && pages[pi] ? (pages[pi]->uniform ? pages[pi]->u : pages[pi]->c[(o / 4) % PG]) : odef;
              if (v.kind != K_UNDEF) pageOwn(g, pi)->c[(o / 4) % PG] = v;
            }
            rinfo[x.reg].freed = true;
            S.mem.erase(x.reg);
          }
        }
      }
      setRes(mkPtr(id, 0));
      return true;
    }
    if (n == "free") {
      AV p = arg(0);
      if (p.kind == K_ZERO) return true;
      if (p.kind == K_UNDEF || p.mayundef) { report("UNINIT", CB, "free of an uninitialised pointer"); return true; }
      if (p.kind != K_PTR) { report("UNKNOWNPTR", CB, "free of a pointer not understood by the analysis"); return true; }
      std::vector<Target> t; getTargets(p, t);
      int nn = 0; for (auto &x : t) if (x.reg) nn++;
      for (auto &x : t) {
        if (x.reg == 0) continue;
        if (rinfo[x.reg].kind != R_HEAP) { report("BADFREE", CB, "free of " + regName(x.reg)); continue; }
        Region *g = S.mem.find(x.reg);
        if (!g) { report("DOUBLEFREE", CB, "frees again: " + regName(x.reg)); continue; }
        if (g->maybeFreed) report("DOUBLEFREE", CB, "may already be freed: " + regName(x.reg));
        if (x.lo != 0 || x.hi != 0) report("BADFREE", CB, "free of a pointer into the middle of " + regName(x.reg));
        if (g->readonly) report("ROWRITE", CB, "frees an input of the caller: " + regName(x.reg));
        rinfo[x.reg].freed = true;
        rinfo[x.reg].freedAt = locOf(CB);
        if (nn == 1) S.mem.erase(x.reg);
        else S.mem.own(x.reg)->maybeFreed = true;
      }
      return true;
    }
    if (n.starts_with("llvm.memset") || n == "memset") {
      AV p = arg(0), b = arg(1), l = arg(2);
      if (l.kind != K_INT || p.kind != K_PTR) { std::vector<Access> acc; resolve(S, p, 1, CB, acc, true); if (n == "memset") setRes(p); return true; }
      if (l.hi == 0) { if (n == "memset") setRes(p); return true; }
      std::vector<Access> acc;
      i64 len = l.hi > BIG / 2 ? l.lo : l.hi;
      if (l.lo < 0) report("OOB", CB, "memset with a negative length");
      if (!resolve(S, p, std::max<i64>(len, 1), CB, acc, true)) { 
        // still honour what lies inside
        return true; }
      for (auto &a : acc) {
        Region *g = S.mem.own(a.reg);
        if (g->readonly) report("ROWRITE", CB, "writes to a read-only input: " + regName(a.reg));
        AV z; if (b.kind == K_INT && b.lo == 0 && b.hi == 0) z.kind = K_ZERO; else z = mkTop();
        if (a.lo == a.hi && l.lo == l.hi && acc.size() == 1) fillRange(g, a.lo, len, z, true);
        else for (i64 o = a.lo; o < a.hi + len && o < g->size; o += 4) { AV &c = pageOwn(g, (o / 4) / PG)->c[(o / 4) % PG]; c = avJoin(c, z); }
      }
      if (n == "memset") setRes(p);
      return true;
    }
    if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n == "memcpy" || n == "memmove") {
      AV d = arg(0), s = arg(1), l = arg(2);
      if (n == "memcpy" || n == "memmove") setRes(d);
      if (l.kind == K_INT && l.hi == 0) return true;
      i64 len = l.kind == K_INT ? l.hi : 1;
      std::vector<Access> ad, as;
      if (len < 0 || len > BIG / 2) { report("UNKNOWNPTR", CB, "memcpy length not understood"); return true; }
      bool okd = resolve(S, d, len, CB, ad, true), oks = resolve(S, s, len, CB, as, false);
      if (!okd || !oks) return true;
      // read source cells first
      std::vector<AV> cells((len + 3) / 4);
      bool first = true;
      for (auto &a : as) {
        Region *g = S.mem.find(a.reg);
        for (i64 k = 0; k < (i64)cells.size(); k++) {
          AV v;
          if (a.lo == a.hi) {
            size_t pi = ((a.lo + 4 * k) / 4) / PG;
            if (g->init && !(pi < g->pages.size() && g->pages[pi])) {
              Type *T = Type::getInt32Ty(M->getContext());
              // guess the type at that position from the initialiser
              Constant *C = ConstantFoldLoadFromConst(const_cast<Constant *>(g->init), Type::getDoubleTy(M->getContext()), APInt(64, a.lo + 4 * k), *DL);
              Constant *Ci = ConstantFoldLoadFromConst(const_cast<Constant *>(g->init), T, APInt(64, a.lo + 4 * k), *DL);
              const ArrayType *at = dyn_cast<ArrayType>(g->init->getType());
              Type *leaf = const_cast<ArrayType *>(at);
              while (leaf && leaf->isArrayTy()) leaf = leaf->getArrayElementType();
              if (leaf && leaf->isDoubleTy()) v = C ? evalConst(C) : mkTop(); else v = Ci ? evalConst(Ci) : mkTop();
            } else v = cellGet(g, (a.lo + 4 * k) / 4, Type::getInt32Ty(M->getContext()), a.lo + 4 * k);
          } else v = mkTop();
          cells[k] = first ? v : avJoin(cells[k], v);
        }
        first = false;
      }
      for (auto &a : ad) {
        Region *g = S.mem.own(a.reg);
        if (g->readonly) report("ROWRITE", CB, "writes to a read-only input: " + regName(a.reg));
        bool strong = ad.size() == 1 && a.lo == a.hi && l.lo == l.hi;
        for (i64 k = 0; k < (i64)cells.size(); k++) {
          i64 o = a.lo + 4 * k;
          if (o >= g->size) break;
          AV &c = pageOwn(g, (o / 4) / PG)->c[(o / 4) % PG];
          c = strong ? cells[k] : avJoin(c, cells[k]);
        }
      }
      return true;
    }
    if (n == "__assert_fail") { if (!noReport) report("ASSERT", CB, "assertion can fail: " + strArg(CB->getArgOperand(0))); Fr.leaves++; return false; }
    if (n == "exit" || n == "abort" || n == "_exit") { report("EXIT", CB, n.str() + " is reached"); Fr.leaves++; return false; }
    if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "fputs" || n == "perror" || n == "fwrite") { if (!CB->getType()->isVoidTy()) setRes(mkInt(0, 100)); return true; }
    if (n == "__kmpc_global_thread_num") { setRes(mkInt(0, 64)); return true; }
    if (n == "__kmpc_critical" || n == "__kmpc_critical_with_hint" || n == "__kmpc_end_critical") {
      setLock(S, n == "__kmpc_end_critical" ? AV() : arg(2), CB); return true; }
    if (n == "pthread_mutex_lock" || n == "mtx_lock" || n == "omp_set_lock" || n == "omp_set_nest_lock" || n == "pthread_spin_lock") { setLock(S, arg(0), CB); if (!CB->getType()->isVoidTy()) setRes(mkInt(0, 0)); return true; }
    if (n == "pthread_mutex_unlock" || n == "mtx_unlock" || n == "omp_unset_lock" || n == "omp_unset_nest_lock" || n == "pthread_spin_unlock") { setLock(S, AV(), CB); if (!CB->getType()->isVoidTy()) setRes(mkInt(0, 0)); return true; }
    if (n == "__kmpc_barrier" || n == "__kmpc_flush") { return true; }
    if (n.starts_with("omp_")) { if (!CB->getType()->isVoidTy()) setRes(mkInt(0, 64)); return true; }
    // ---------------- harness intrinsics
    if (n.starts_with("ai_")) {
      if (n == "ai_watch_copy") { watchLabel = cint(0); return true; }
      if (n == "ai_imin") { AV v = arg(0); i64 h = v.kind == K_INT ? v.lo : 0; setRes(mkInt(h, h)); return true; }
      if (n == "ai_imax") { AV v = arg(0); i64 h = v.kind == K_INT ? v.hi : 0; setRes(mkInt(h, h)); return true; }
      if (n == "ai_watch") { watchMode = cint(0); return true; }
      if (n == "ai_real") { setRes(mkFP(cdbl(0), cdbl(1))); AV &r = S.env[Fr.fi->slot[CB]]; r.dim = 0; r.par = 0; return true; }
      if (n == "ai_int") { setRes(mkInt(cint(0), cint(1))); return true; }
      if (n == "ai_dim") { AV v = fpIn(arg(0)); Dim d{}; for (unsigned i = 1; i < CB->arg_size() && i <= NU; i++) d[i - 1] = cdbl(i); v.dim = internDim(d); setRes(v); return true; }
      if (n == "ai_taint") { AV v = fpIn(arg(0)); v.taint |= 1ULL << cint(1); setRes(v); return true; }
      if (n == "ai_itaint") { AV v = arg(0); v.taint |= 1ULL << cint(1); setRes(v); return true; }
      if (n == "ai_par") { AV v = fpIn(arg(0)); v.par = cint(1); setRes(v); return true; }
      if (n == "ai_shift") { AV v = fpIn(arg(0)); v.tw = cdbl(1); setRes(v); return true; }
      if (n == "ai_atom") { AV v = mkFP(-INF, INF); v.dim = 0; v.par = 0; Lin l; l[cint(0)] = 1; v.lin = internLin(l); setRes(v); return true; }
      if (n == "ai_atom_in") { AV v = mkFP(cdbl(1), cdbl(2)); v.dim = 0; v.par = 0; Lin l; l[cint(0)] = 1; v.lin = internLin(l); setRes(v); return true; }
      if (n == "ai_uninit_double") { AV v; v.mayundef = 1; setRes(v); return true; }
      if (n == "ai_fill") {  // (double *p, long n, double v)
        AV p = arg(0); AV v = fpIn(arg(2));
        if (p.kind == K_PTR && !p.more) { Region *g = S.mem.own(p.reg); i64 nn = cint(1) * 8; if (g) { if (p.lo == 0 && nn >= g->size) { g->pages.clear(); g->init = nullptr; g->def = v; } else for (i64 o = p.lo; o < p.lo + nn && o < g->size; o += 8) pageOwn(g, (o / 4) / PG)->c[(o / 4) % PG] = v; } }
        return true; }
      if (n == "ai_readonly") { AV p = arg(0); if (p.kind == K_PTR && p.reg) S.mem.own(p.reg)->readonly = cint(1); return true; }
      if (n == "ai_track_heap") { trackHeap = cint(0); return true; }
      if (n == "ai_no_report") { noReport = cint(0); return true; }
      if (n == "ai_reach") { reached[strArg(CB->getArgOperand(0))]++; nChecks++; return true; }
      if (n == "ai_unreachable") { nChecks++; report("CHECK", CB, strArg(CB->getArgOperand(0))); return true; }
      if (n == "ai_check") { nChecks++; AV v = arg(0); checkNames.insert(strArg(CB->getArgOperand(1))); if (!(v.kind == K_INT && (v.lo > 0 || v.hi < 0))) report("CHECK", CB, strArg(CB->getArgOperand(1))); return true; }
      if (n == "ai_region_size") { AV p = arg(0); i64 s = -1; if (p.kind == K_PTR && p.reg && !p.more) if (Region *g = S.mem.find(p.reg)) s = g->size - p.lo; setRes(mkInt(s, s)); return true; }
      if (n == "ai_same_region") { AV p = arg(0), q = arg(1); std::vector<Target> a, b; if (p.kind == K_PTR) getTargets(p, a); if (q.kind == K_PTR) getTargets(q, b); bool s = false; for (auto &x : a) for (auto &y : b) if (x.reg && x.reg == y.reg) s = true; setRes(mkInt(s, s)); return true; }
      if (n == "ai_is_live") { AV p = arg(0); bool s = p.kind == K_PTR && p.reg && !p.more && S.mem.find(p.reg); setRes(mkInt(s, s)); return true; }
      if (n == "ai_check_leaks") {
        nChecks++;
        std::vector<int> ids;
        for (auto &p : S.mem.r()) if (rinfo[p.first].kind == R_HEAP && rinfo[p.first].tracked) ids.push_back(p.first);
        for (int id : ids) {
          if (leakReachable(S, id)) continue;
          Region *g = S.mem.find(id);
          report("LEAK", dyn_cast_or_null<Instruction>(rinfo[id].site), std::string(g->maybeFreed ? "not freed on every path" : "never freed") + " before " + strArg(CB->getArgOperand(0)) + " returns");
          if (auto *I = dyn_cast_or_null<Instruction>(rinfo[id].site)) (void)I;
        }
        return true;
      }
      if (n == "ai_check_dim") { nChecks++; AV v = fpIn(arg(0)); Dim d{}; unsigned na = CB->arg_size() - 1; for (unsigned i = 1; i < na && i <= NU; i++) d[i - 1] = cdbl(i); uint16_t e = internDim(d);
        const std::string &w = strArg(CB->getArgOperand(na)); checkNames.insert(w);
        if (v.dim != DIM_ANY && v.dim != e) { const Instruction *at = v.dim == DIM_TOP && v.cause ? causes[v.cause] : v.orig ? causes[v.orig] : CB; report("DIM", at, w + ": expected units " + dimStr(e) + ", derived " + dimStr(v.dim)); }
        return true; }
      if (n == "ai_check_par") { nChecks++; AV v = fpIn(arg(0)); int e = cint(1); const std::string &w = strArg(CB->getArgOperand(2)); checkNames.insert(w);
        if (v.par != PAR_ANY && v.par != e) { const Instruction *at = v.cause && v.par == PAR_TOP ? causes[v.cause] : v.orig ? causes[v.orig] : CB; char b[100]; if (v.par == PAR_TOP) snprintf(b, 100, ": expected mirror parity %d%d%d, derived mixed", e & 1, e >> 1 & 1, e >> 2 & 1); else snprintf(b, 100, ": expected mirror parity %d%d%d, derived %d%d%d", e & 1, e >> 1 & 1, e >> 2 & 1, v.par & 1, v.par >> 1 & 1, v.par >> 2 & 1); report("PAR", at, w + b); }
        return true; }
      if (n == "ai_check_shift0") { nChecks++; AV v = fpIn(arg(0)); const std::string &w = strArg(CB->getArgOperand(1)); checkNames.insert(w);
        if (v.tw != 0) report("SHIFT", v.orig ? causes[v.orig] : CB, w + ": not invariant under a common translation of all centres");
        return true; }
      if (n == "ai_check_has") { nChecks++; AV v = arg(0); u64 m = (u64)cint(1); const std::string &w = strArg(CB->getArgOperand(2)); checkNames.insert(w);
        if ((v.taint & m) != m) report("NODEP", CB, w + ": does not depend on source(s) " + labelsStr(m & ~v.taint)); return true; }
      if (n == "ai_check_not") { nChecks++; AV v = arg(0); u64 m = (u64)cint(1); const std::string &w = strArg(CB->getArgOperand(2)); checkNames.insert(w);
        if (v.taint & m) report("DEP", CB, w + ": depends on source(s) " + labelsStr(m & v.taint)); return true; }
      if (n == "ai_check_init") { nChecks++; AV v = arg(0); const std::string &w = strArg(CB->getArgOperand(1)); checkNames.insert(w);
        if (v.mayundef || v.kind == K_UNDEF) report("UNINITOUT", CB, w + ": may be left unset"); return true; }
      if (n == "ai_check_nonzero") { nChecks++; AV v = fpIn(arg(0)); const std::string &w = strArg(CB->getArgOperand(1)); checkNames.insert(w);
        if (v.flo == 0 && v.fhi == 0) report("ZEROOUT", CB, w + ": identically zero"); return true; }
      if (n == "ai_check_same") { nChecks++; AV a = fpIn(arg(0)), b = fpIn(arg(1)); const std::string &w = strArg(CB->getArgOperand(2)); checkNames.insert(w);
        Lin la, lb; bool ok = getLin(a, la) && getLin(b, lb);
        if (ok) { for (auto &p : lb) la[p.first] -= p.second; for (auto &p : la) { double sc = 1; auto it = lb.find(p.first); if (it != lb.end()) sc = std::max(1.0, std::fabs(it->second)); if (std::fabs(p.second) > 1e-9 * sc) ok = false; } }
        if (!ok) report("SAME", CB, w + ": expected " + linStr(b) + ", derived " + linStr(a)); return true; }
      if (n == "ai_scale") { AV a = fpIn(arg(0)); Lin l; double m = 0; if (getLin(a, l)) for (auto &p : l) m = std::max(m, std::fabs(p.second)); setRes(mkFP(m, m)); return true; }
      if (n == "ai_check_close") { nChecks++; AV a = fpIn(arg(0)), b = fpIn(arg(1)); double tol = cdbl(2); const std::string &w = strArg(CB->getArgOperand(3)); checkNames.insert(w);
        Lin la, lb; bool ok = getLin(a, la) && getLin(b, lb);
        if (ok) { for (auto &p : lb) la[p.first] -= p.second; for (auto &p : la) if (!(std::fabs(p.second) <= tol)) ok = false; }
        if (!ok) report("SAME", CB, w + ": expected " + linStr(b) + ", derived " + linStr(a)); return true; }
      if (n == "ai_is_same") { AV a = fpIn(arg(0)), b = fpIn(arg(1)); Lin la, lb; bool ok = getLin(a, la) && getLin(b, lb);
        if (ok) { for (auto &p : lb) la[p.first] -= p.second; for (auto &p : la) { double sc = 1; auto it = lb.find(p.first); if (it != lb.end()) sc = std::max(1.0, std::fabs(it->second)); if (std::fabs(p.second) > 1e-9 * sc) ok = false; } }
        setRes(mkInt(ok, ok)); return true; }
      if (n == "ai_check_ptr") { nChecks++; AV a = arg(0), b = arg(1); const std::string &w = strArg(CB->getArgOperand(2)); checkNames.insert(w);
        bool ok = a.kind == K_PTR && b.kind == K_PTR && a.reg == b.reg && a.lo == b.lo && a.hi == b.hi && !a.more && !b.more;
        if (!ok) report("CHECK", CB, w + " (got " + (a.kind == K_PTR ? regName(a.reg) : "?") + ")"); return true; }
      if (n == "ai_dump") { AV v = arg(0); fprintf(stderr, "DUMP %s: kind=%d ", strArg(CB->getArgOperand(1)).c_str(), v.kind); if (v.kind == K_FP) fprintf(stderr, "[%g,%g] dim=%s par=%d tw=%g taint=%s lin=%s\n", v.flo, v.fhi, dimStr(v.dim).c_str(), v.par, v.tw, labelsStr(v.taint).c_str(), v.lin ? linStr(v).c_str() : "-"); else fprintf(stderr, "[%lld,%lld] reg=%d\n", v.lo, v.hi, v.reg); return true; }
      if (n == "ai_map_literals") { mapLiterals = cint(0); return true; }
      if (n == "ai_delay") { defDelay = cint(0); return true; }
      if (n == "ai_trace") { fprintf(stderr, "TRACE %s steps=%llu forks=%llu\n", strArg(CB->getArgOperand(0)).c_str(), nSteps, nForks); return true; }
      errs() << "unknown intrinsic " << n << "\n"; exit(3);
    }
  }
  // defined functions (possibly several targets)
  std::optional<State> merged; AV mret; bool any = false;
  std::vector<AV> args0;
  for (unsigned i = 0; i < CB->arg_size(); i++) args0.push_back(arg(i));
  for (size_t k = 0; k < targets.size(); k++) {
    const Function *T = targets[k];
    if (T->isDeclaration() && !extStub) { errs() << "unmodelled external function " << T->getName() << " called at " << locOf(CB) << "\n"; exit(3); }
    // a harness may provide ai_stub_<name> as the specification of <name>
    if (const Function *st = M->getFunction(("ai_stub_" + T->getName()).str())) if (!st->isDeclaration() && !Fr.F->getName().starts_with("ai_stub_")) T = st;
    std::vector<AV> args = args0;
    Memory m = S.mem;
    AV rv; bool rets = false;
    if (k + 1 == targets.size() && targets.size() == 1) S.mem = Memory();
    execFunction(T, args, m, rv, rets, CB);
    if (!rets) { continue; }
    if (!any) { any = true; mret = rv; if (!merged) merged.emplace(); merged->mem = std::move(m); }
    else { mret = avJoin(mret, rv); merged->mem = memJoin(merged->mem, m); }
  }
  if (!any) { Fr.leaves++; return false; }
  S.mem = std::move(merged->mem);
  setRes(mret);
  return true;
}

static int cmpInt(CmpInst::Predicate P, const AV &a, const AV &b) {  // 1 true, 0 false, -1 unknown
  i64 al = a.lo, ah = a.hi, bl = b.lo, bh = b.hi;
  switch (P) {
    case CmpInst::ICMP_EQ: if (al == ah && bl == bh && al == bl) return 1; if (ah < bl || bh < al) return 0; return -1;
    case CmpInst::ICMP_NE: if (al == ah && bl == bh && al == bl) return 0; if (ah < bl || bh < al) return 1; return -1;
    case CmpInst::ICMP_UGT: if (al < 0 || bl < 0) return (al == ah && bl == bh) ? (u64)al > (u64)bl : -1; [[fallthrough]];
    case CmpInst::ICMP_SGT: if (al > bh) return 1; if (ah <= bl) return 0; return -1;
    case CmpInst::ICMP_UGE: if (al < 0 || bl < 0) return (al == ah && bl == bh) ? (u64)al >= (u64)bl : -1; [[fallthrough]];
    case CmpInst::ICMP_SGE: if (al >= bh) return 1; if (ah < bl) return 0; return -1;
    case CmpInst::ICMP_ULT: if (al < 0 || bl < 0) return (al == ah && bl == bh) ? (u64)al < (u64)bl : -1; [[fallthrough]];
    case CmpInst::ICMP_SLT: if (ah < bl) return 1; if (al >= bh) return 0; return -1;
    case CmpInst::ICMP_ULE: if (al < 0 || bl < 0) return (al == ah && bl == bh) ? (u64)al <= (u64)bl : -1; [[fallthrough]];
    case CmpInst::ICMP_SLE: if (ah <= bl) return 1; if (al > bh) return 0; return -1;
    default: return -1;
  }
}
static int cmpFP(CmpInst::Predicate P, const AV &a, const AV &b) {
  switch (P) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: if (a.flo == a.fhi && b.flo == b.fhi && a.flo == b.flo) return 1; if (a.fhi < b.flo || b.fhi < a.flo) return 0; return -1;
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: if (a.flo == a.fhi && b.flo == b.fhi && a.flo == b.flo) return 0; if (a.fhi < b.flo || b.fhi < a.flo) return 1; return -1;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: if (a.flo > b.fhi) return 1; if (a.fhi <= b.flo) return 0; return -1;
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: if (a.flo >= b.fhi) return 1; if (a.fhi < b.flo) return 0; return -1;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: if (a.fhi < b.flo) return 1; if (a.flo >= b.fhi) return 0; return -1;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: if (a.fhi <= b.flo) return 1; if (a.flo > b.fhi) return 0; return -1;
    case CmpInst::FCMP_ORD: return 1; case CmpInst::FCMP_UNO: return 0;
    default: return -1;
  }
}
static void refineCmp(State &S, Frame &Fr, const Value *cond, bool taken) {
  auto *C = dyn_cast<CmpInst>(cond);
  if (!C) {
    if (auto *I = dyn_cast<BinaryOperator>(cond)) {
      if (I->getOpcode() == Instruction::Xor) if (auto *k = dyn_cast<ConstantInt>(I->getOperand(1))) if (k->isOne()) refineCmp(S, Fr, I->getOperand(0), !taken);
    }
    auto it = Fr.fi->slot.find(cond);
    if (it != Fr.fi->slot.end()) { AV &v = S.env[it->second]; if (v.kind == K_INT) v.lo = v.hi = taken; }
    return;
  }
  CmpInst::Predicate P = taken ? C->getPredicate() : C->getInversePredicate();
  for (int side = 0; side < 2; side++) {
    const Value *x = C->getOperand(side), *y = C->getOperand(1 - side);
    CmpInst::Predicate Q = side == 0 ? P : CmpInst::getSwappedPredicate(P);
    auto it = Fr.fi->slot.find(x);
    if (it == Fr.fi->slot.end()) continue;
    AV &a = S.env[it->second];
    AV b = val(S, Fr, y);
    if (a.kind == K_INT && b.kind == K_INT) {
      AV o = a;
      switch (Q) {
        case CmpInst::ICMP_EQ: a.lo = std::max(a.lo, b.lo); a.hi = std::min(a.hi, b.hi); break;
        case CmpInst::ICMP_NE: if (b.lo == b.hi) { if (a.lo == b.lo) a.lo++; if (a.hi == b.lo) a.hi--; } break;
        case CmpInst::ICMP_SLT: a.hi = std::min(a.hi, b.hi - 1); break;
        case CmpInst::ICMP_SLE: a.hi = std::min(a.hi, b.hi); break;
        case CmpInst::ICMP_SGT: a.lo = std::max(a.lo, b.lo + 1); break;
        case CmpInst::ICMP_SGE: a.lo = std::max(a.lo, b.lo); break;
        case CmpInst::ICMP_ULT: if (a.lo >= 0 && b.lo >= 0) a.hi = std::min(a.hi, b.hi - 1); break;
        case CmpInst::ICMP_ULE: if (a.lo >= 0 && b.lo >= 0) a.hi = std::min(a.hi, b.hi); break;
        default: break;
      }
      if (a.lo > a.hi) a = o;
      // through sign extension / truncation of the same value
      if (auto *sx = dyn_cast<CastInst>(x)) { auto j = Fr.fi->slot.find(sx->getOperand(0)); if (isa<SExtInst>(sx) && j != Fr.fi->slot.end()) { AV &u = S.env[j->second]; if (u.kind == K_INT) { i64 l = std::max(u.lo, a.lo), h = std::min(u.hi, a.hi); if (l <= h) { u.lo = l; u.hi = h; } } } }
    } else if (a.kind == K_FP && fpIn(b).kind == K_FP) {
      AV bb = fpIn(b); AV o = a;
      switch (Q) {
        case CmpInst::FCMP_OEQ: a.flo = std::max(a.flo, bb.flo); a.fhi = std::min(a.fhi, bb.fhi); break;
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULT: case CmpInst::FCMP_ULE: a.fhi = std::min(a.fhi, bb.fhi); break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGT: case CmpInst::FCMP_UGE: a.flo = std::max(a.flo, bb.flo); break;
        default: break;
      }
      if (a.flo > a.fhi) a = o;
      // keep the grading of a value that happens to be pinned to a point by a comparison
      if ((Q == CmpInst::FCMP_OGT || Q == CmpInst::FCMP_UGT) && a.flo == bb.fhi && a.flo == 0 && a.fhi > 0) a.flo = std::min(5e-324, a.fhi);
    } else if (a.kind == K_PTR && (b.kind == K_PTR || b.kind == K_ZERO)) {
      bool bnull = b.kind == K_ZERO || (b.reg == 0 && !b.more);
      if (bnull && a.more) {
        std::vector<Target> t, u; getTargets(a, t);
        for (auto &z : t) if ((Q == CmpInst::ICMP_EQ) == (z.reg == 0)) u.push_back(z);
        if ((Q == CmpInst::ICMP_EQ || Q == CmpInst::ICMP_NE) && !u.empty()) a = ptrFromTargets(u);
      }
    }
  }
}

struct Edge { const BasicBlock *to; State st; };

static void phiTransfer(State &S, Frame &Fr, const BasicBlock *from, const BasicBlock *to) {
  std::vector<std::pair<int, AV>> nv;
  for (auto &P : to->phis()) {
    const Value *in = P.getIncomingValueForBlock(from);
    nv.push_back({Fr.fi->slot[&P], val(S, Fr, in)});
  }
  for (auto &x : nv) S.env[x.first] = x.second;
}

static void execBlock(Frame &Fr, const BasicBlock *B, State S, std::vector<Edge> &out) {
  auto set = [&](const Instruction *I, AV v) { S.env[Fr.fi->slot[I]] = v; };
  for (auto &I : *B) {
    if (isa<PHINode>(I)) continue;
    nSteps++;
    if (nSteps > maxSteps) { fprintf(stderr, "analysis budget exhausted at %s\n", locOf(&I).c_str()); exit(4); }
    switch (I.getOpcode()) {
      case Instruction::Alloca: {
        auto &A = cast<AllocaInst>(I);
        i64 n = 1;
        AV c = val(S, Fr, A.getArraySize());
        if (c.kind == K_INT) { if (c.lo <= 0) report("BADALLOC", &I, "variable-length array of non-positive size"); n = std::max<i64>(c.lo, 0); }
        i64 sz = (i64)DL->getTypeAllocSize(A.getAllocatedType()) * n;
        int id = allocRegion(S, R_STACK, A.getName().str(), &I, sz, AV());
        rinfo[id].where = Fr.F->getName().str();
        Fr.allocas.push_back(id);
        set(&I, mkPtr(id, 0));
        break;
      }
      case Instruction::Load: {
        auto &L = cast<LoadInst>(I);
        set(&I, doLoad(S, val(S, Fr, L.getPointerOperand()), L.getType(), &I));
        break;
      }
      case Instruction::Store: {
        auto &T = cast<StoreInst>(I);
        AV v = val(S, Fr, T.getValueOperand());
        if (v.kind == K_FP && isa<ConstantFP>(T.getValueOperand()) && mapLiterals && v.dim == 0) { v = operandFP(S, Fr, T.getValueOperand(), &I); }
        doStore(S, val(S, Fr, T.getPointerOperand()), v, T.getValueOperand()->getType()->isX86_FP80Ty() ? 16 : (i64)DL->getTypeStoreSize(T.getValueOperand()->getType()), &I);
        break;
      }
      case Instruction::Fence: break;
      case Instruction::AtomicRMW: {
        auto &A = cast<AtomicRMWInst>(I);
        AV p = val(S, Fr, A.getPointerOperand()), old = doLoad(S, p, I.getType(), &I), b = val(S, Fr, A.getValOperand());
        AV r = unknownOf(I.getType());
        AV o = old; if (o.kind == K_ZERO) o = mkInt(0, 0);
        if (b.kind == K_ZERO) b = mkInt(0, 0);
        if (A.getOperation() == AtomicRMWInst::Xchg) r = b;
        else if (o.kind == K_INT && b.kind == K_INT && A.getOperation() == AtomicRMWInst::Add) r = intRange((__int128)o.lo + b.lo, (__int128)o.hi + b.hi, I.getType(), false);
        else if (o.kind == K_INT && b.kind == K_INT && A.getOperation() == AtomicRMWInst::Sub) r = intRange((__int128)o.lo - b.hi, (__int128)o.hi - b.lo, I.getType(), false);
        r.taint |= old.taint | b.taint;
        doStore(S, p, r, (i64)DL->getTypeStoreSize(I.getType()), &I);
        set(&I, old);
        break; }
      case Instruction::AtomicCmpXchg: {
        auto &A = cast<AtomicCmpXchgInst>(I);
        Type *ty = A.getNewValOperand()->getType();
        AV p = val(S, Fr, A.getPointerOperand()), old = doLoad(S, p, ty, &I), e = val(S, Fr, A.getCompareOperand()), n = val(S, Fr, A.getNewValOperand());
        if (old.kind == K_ZERO) old = mkInt(0, 0);
        if (e.kind == K_ZERO) e = mkInt(0, 0);
        AV r = mkTop(); r.taint = old.taint;
        if (old.kind == K_INT && e.kind == K_INT && old.lo == old.hi && e.lo == e.hi) {
          bool eq = old.lo == e.lo;
          if (eq) doStore(S, p, n, (i64)DL->getTypeStoreSize(ty), &I);
          r = AV(); r.kind = K_TOP; r.reg = 78; r.flo = (double)old.lo; r.fhi = eq; r.taint = old.taint;
        } else doStore(S, p, avJoin(old, n), (i64)DL->getTypeStoreSize(ty), &I);
        set(&I, r);
        break; }
      case Instruction::GetElementPtr: {
        auto &G = cast<GetElementPtrInst>(I);
        AV b = val(S, Fr, G.getPointerOperand());
        if (b.kind == K_ZERO) b = mkPtr(0, 0);
        if (b.kind != K_PTR) { if (b.kind == K_UNDEF || b.mayundef) report("UNINIT", &I, "address computed from an uninitialised pointer"); set(&I, mkTop()); break; }
        i64 lo = 0, hi = 0; u64 taint = b.taint; double tw = b.tw; bool top = false;
        gep_type_iterator gt = gep_type_begin(G);
        int win = b.lin; bool bad = false, typed = false; Type *outer = nullptr;  // type the index selects from (none for the first)
        for (auto idx = G.idx_begin(); idx != G.idx_end(); ++idx, ++gt) {
          if (StructType *ST = gt.getStructTypeOrNull()) {
            i64 o = DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(*idx)->getZExtValue());
            lo += o; hi += o;
            win = 0; outer = gt.getIndexedType();
            auto *AT = dyn_cast<ArrayType>(gt.getIndexedType());
            if (AT && AT->getNumElements() > 1 && !b.more && b.reg && b.lo == b.hi && lo == hi && !top) win = internWindow(b.lo + lo, b.lo + lo + (i64)DL->getTypeAllocSize(AT));
          } else {
            AV x = val(S, Fr, *idx);
            i64 es = DL->getTypeAllocSize(gt.getIndexedType());
            auto *SA = outer ? dyn_cast<ArrayType>(outer) : nullptr;
            outer = gt.getIndexedType();
            if (SA) typed = true;
            if (x.kind == K_ZERO) continue;
            if (x.mayundef || x.kind == K_UNDEF) report("UNINIT", &I, "uninitialised index");
            if (x.kind != K_INT) { top = true; continue; }
            taint |= x.taint;
            if (std::isnan(x.tw)) tw = NAN;
            if (SA) {
              i64 N = SA->getNumElements();
              if (N > 1 && (x.lo >= N || x.hi < 0)) bad = true;
            }
            lo = (i64)std::max<__int128>((__int128)lo + (__int128)x.lo * es, -BIG);
            hi = (i64)std::min<__int128>((__int128)hi + (__int128)x.hi * es, BIG);
          }
        }
        if (top) { lo = -BIG; hi = BIG; }
        std::vector<Target> t; getTargets(b, t);
        for (auto &x : t) { if (x.reg == 0) continue; x.lo = std::max(x.lo + lo, -BIG); x.hi = std::min(x.hi + hi, BIG); }
        AV r = ptrFromTargets(t);
        r.taint = taint; r.tw = tw;
        if (!r.more) { r.lin = win; r.pad[1] = bad || (typed && b.pad[1]); }
        set(&I, r);
        break;
      }
      case Instruction::FAdd: case Instruction::FSub: {
        AV a = operandFP(S, Fr, I.getOperand(0), &I), b = operandFP(S, Fr, I.getOperand(1), &I);
        if (I.getOpcode() == Instruction::FSub && I.getOperand(0) == I.getOperand(1)) { AV z = mkFP(0, 0); set(&I, z); break; }
        set(&I, fpAdd(a, b, I.getOpcode() == Instruction::FAdd ? 1 : -1, &I));
        break;
      }
      case Instruction::FMul: {
        AV a = operandFP(S, Fr, I.getOperand(0), &I), b = operandFP(S, Fr, I.getOperand(1), &I);
        AV r = fpMul(a, b, &I);
        if (I.getOperand(0) == I.getOperand(1) && r.kind == K_FP && r.flo < 0) { r.flo = 0; if (a.flo > 0 || a.fhi < 0) r.flo = std::min(a.flo * a.flo, a.fhi * a.fhi); }
        set(&I, r); break; }
      case Instruction::FDiv: { AV a = operandFP(S, Fr, I.getOperand(0), &I), b = operandFP(S, Fr, I.getOperand(1), &I); set(&I, fpDiv(a, b, &I)); break; }
      case Instruction::FNeg: {
        AV a = operandFP(S, Fr, I.getOperand(0), &I);
        AV r = a; r.flo = -a.fhi; r.fhi = -a.flo; r.tw = -a.tw;
        if (a.lin) { Lin l = lins[a.lin]; for (auto &p : l) p.second = -p.second; r.lin = internLin(l); }
        set(&I, r); break; }
      case Instruction::FRem: { AV a = operandFP(S, Fr, I.getOperand(0), &I); AV r = fpUnary(a, -INF, INF); r.dim = a.dim; r.par = a.par; set(&I, r); break; }
      case Instruction::FPExt: case Instruction::FPTrunc: set(&I, operandFP(S, Fr, I.getOperand(0), &I)); break;
      case Instruction::SIToFP: case Instruction::UIToFP: {
        AV a = val(S, Fr, I.getOperand(0));
        if (a.mayundef || a.kind == K_UNDEF) report("UNINIT", &I, "uninitialised integer used in a computation");
        AV r;
        if (a.kind == K_INT && I.getOpcode() == Instruction::UIToFP && a.lo < 0 && a.lo == a.hi && I.getOperand(0)->getType()->getIntegerBitWidth() == 64) r = mkFP((double)(u64)a.lo, (double)(u64)a.lo);
        else if (a.kind == K_INT && !(I.getOpcode() == Instruction::UIToFP && a.lo < 0)) r = mkFP((double)a.lo, (double)a.hi);
        else if (a.kind == K_ZERO) r = mkFP(0, 0);
        else { r = mkFP(-INF, INF); }
        r.taint = a.taint; if (std::isnan(a.tw)) r.tw = NAN; r.orig = causeId(&I);
        if (a.dim == DIM_TOP && a.kind == K_INT) { r.dim = DIM_TOP; r.cause = a.cause; }
        if (a.par == PAR_TOP && a.kind == K_INT) { r.par = PAR_TOP; r.cause = a.cause; }
        set(&I, r); break; }
      case Instruction::FPToSI: case Instruction::FPToUI: {
        AV a = operandFP(S, Fr, I.getOperand(0), &I);
        AV top = unknownOf(I.getType());
        AV r = top;
        if (std::isfinite(a.flo) && a.flo > (double)top.lo) r.lo = (i64)std::trunc(a.flo);
        if (std::isfinite(a.fhi) && a.fhi < (double)top.hi) r.hi = (i64)std::trunc(a.fhi);
        r.taint = a.taint;
        r.dim = (a.dim == 0 || a.dim == DIM_ANY) ? DIM_ANY : DIM_TOP;
        r.par = (a.par == 0 || a.par == PAR_ANY) ? PAR_ANY : PAR_TOP;
        r.cause = a.cause ? a.cause : (r.dim == DIM_TOP || r.par == PAR_TOP) ? causeId(&I) : 0;
        r.tw = a.tw == 0 ? 0 : NAN;
        set(&I, r); break; }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::SDiv: case Instruction::UDiv:
      case Instruction::SRem: case Instruction::URem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      case Instruction::Shl: case Instruction::AShr: case Instruction::LShr: {
        AV a = val(S, Fr, I.getOperand(0)), b = val(S, Fr, I.getOperand(1));
        if (a.mayundef || b.mayundef || a.kind == K_UNDEF || b.kind == K_UNDEF) report("UNINIT", &I, "uninitialised integer used in a computation");
        if (a.kind == K_ZERO) a = mkInt(0, 0);
        if (b.kind == K_ZERO) b = mkInt(0, 0);
        AV r = unknownOf(I.getType());
        if (a.kind == K_INT && b.kind == K_INT) {
          bool nsw = true;
          if (auto *o = dyn_cast<OverflowingBinaryOperator>(&I)) nsw = o->hasNoSignedWrap();
          __int128 al = a.lo, ah = a.hi, bl = b.lo, bh = b.hi;
          switch (I.getOpcode()) {
            case Instruction::Add: r = intRange(al + bl, ah + bh, I.getType(), nsw); break;
            case Instruction::Sub: r = intRange(al - bh, ah - bl, I.getType(), nsw); break;
            case Instruction::Mul: if (al == ah && bl == bh && I.getType()->getIntegerBitWidth() == 64) { i64 z = (i64)((u64)a.lo * (u64)b.lo); r = mkInt(z, z); break; } { __int128 c[4] = {al * bl, al * bh, ah * bl, ah * bh}; r = intRange(*std::min_element(c, c + 4), *std::max_element(c, c + 4), I.getType(), nsw || I.getType()->getIntegerBitWidth() >= 64); break; }
            case Instruction::UDiv: if (al == ah && bl == bh && b.lo) { unsigned w = I.getType()->getIntegerBitWidth(); u64 m = w >= 64 ? ~0ULL : (1ULL << w) - 1; u64 z = ((u64)a.lo & m) / ((u64)b.lo & m); if (w < 64 && (z >> (w - 1) & 1)) z |= ~m; r = mkInt((i64)z, (i64)z); break; } if (al < 0 || bl < 0) break; [[fallthrough]];
            case Instruction::SDiv:
              if (bl > 0 || bh < 0) { __int128 c[4] = {al / bl, al / bh, ah / bl, ah / bh}; r = intRange(*std::min_element(c, c + 4), *std::max_element(c, c + 4), I.getType(), true); }
              else report("INTDIVZERO", &I, "integer division by a value that can be zero");
              break;
            case Instruction::URem: if (al == ah && bl == bh && b.lo) { unsigned w = I.getType()->getIntegerBitWidth(); u64 m = w >= 64 ? ~0ULL : (1ULL << w) - 1; u64 z = ((u64)a.lo & m) % ((u64)b.lo & m); if (w < 64 && (z >> (w - 1) & 1)) z |= ~m; r = mkInt((i64)z, (i64)z); break; } if (al < 0 || bl < 0) break; [[fallthrough]];
            case Instruction::SRem:
              if (bl == 0 && bh == 0) { report("INTDIVZERO", &I, "integer remainder by zero"); break; }
              if (al == ah && bl == bh) r = mkInt(a.lo % b.lo, a.lo % b.lo);
              else { i64 m = std::max(std::llabs(b.lo), std::llabs(b.hi)) - 1; r = mkInt(a.lo >= 0 ? 0 : -m, a.hi <= 0 ? 0 : m); if (a.lo >= 0 && a.hi <= m && b.lo > a.hi) r = mkInt(a.lo, a.hi); }
              break;
            case Instruction::And:
              if (al == ah && bl == bh) r = mkInt(a.lo & b.lo, a.lo & b.lo);
              else if (bl == bh && b.lo >= 0) r = mkInt(0, b.lo);
              else if (al == ah && a.lo >= 0) r = mkInt(0, a.lo);
              else if (a.lo >= 0 && b.lo >= 0) r = mkInt(0, std::min(a.hi, b.hi));
              break;
            case Instruction::Or: if (al == ah && bl == bh) r = mkInt(a.lo | b.lo, a.lo | b.lo); else if (a.lo >= 0 && b.lo >= 0) { i64 m = 1; while (m <= std::max(a.hi, b.hi)) m <<= 1; r = mkInt(std::max(a.lo, b.lo), m - 1); } break;
            case Instruction::Xor: if (al == ah && bl == bh) r = mkInt(a.lo ^ b.lo, a.lo ^ b.lo); break;
            case Instruction::Shl: if (bl == bh && bl >= 0 && bl < 62) r = intRange(al << b.lo, ah << b.lo, I.getType(), nsw); break;
            case Instruction::LShr: if (al < 0) break; [[fallthrough]];
            case Instruction::AShr: if (bl == bh && bl >= 0 && bl < 62) r = mkInt(a.lo >> b.lo, a.hi >> b.lo); break;
          }
        }
        r.taint = a.taint | b.taint;
        r.tw = (std::isnan(a.tw) || std::isnan(b.tw)) ? NAN : 0;
        if (a.kind == K_INT && b.kind == K_INT) { if (a.dim == DIM_TOP || b.dim == DIM_TOP) r.dim = DIM_TOP; if (a.par == PAR_TOP || b.par == PAR_TOP) r.par = PAR_TOP; r.cause = a.cause ? a.cause : b.cause; }
        set(&I, r); break; }
      case Instruction::SExt: case Instruction::Trunc: case Instruction::ZExt: {
        AV a = val(S, Fr, I.getOperand(0));
        if (a.kind == K_ZERO) a = mkInt(0, 0);
        if (a.kind == K_INT) {
          if (I.getOpcode() == Instruction::ZExt && a.lo < 0) { unsigned w = I.getOperand(0)->getType()->getIntegerBitWidth(); if (a.lo == a.hi) { u64 x = (u64)a.lo & ((1ULL << w) - 1); a.lo = a.hi = x; } else { a.lo = 0; a.hi = (i64)((1ULL << w) - 1); } }
          if (I.getOpcode() == Instruction::Trunc) { AV r = intRange(a.lo, a.hi, I.getType(), false); r.taint = a.taint; r.mayundef = a.mayundef; r.tw = a.tw; if (I.getType()->isIntegerTy(1)) { if (a.lo == a.hi) r = mkInt(a.lo & 1, a.lo & 1); else r = mkInt(0, 1); } a = r; }
        } else if (a.kind != K_UNDEF) { u64 t = a.taint; a = unknownOf(I.getType()); a.taint = t; }
        set(&I, a); break; }
      case Instruction::PtrToInt: set(&I, unknownOf(I.getType())); break;
      case Instruction::BitCast: case Instruction::AddrSpaceCast: set(&I, val(S, Fr, I.getOperand(0))); break;
      case Instruction::ICmp: {
        auto &C = cast<ICmpInst>(I);
        AV a = val(S, Fr, C.getOperand(0)), b = val(S, Fr, C.getOperand(1));
        if (a.mayundef || b.mayundef || a.kind == K_UNDEF || b.kind == K_UNDEF) report("UNINIT", &I, "decision on an uninitialised value");
        int r = -1;
        bool ptr = C.getOperand(0)->getType()->isPointerTy();
        if (a.kind == K_ZERO) a = ptr ? mkPtr(0, 0) : mkInt(0, 0);
        if (b.kind == K_ZERO) b = ptr ? mkPtr(0, 0) : mkInt(0, 0);
        if (a.kind == K_INT && b.kind == K_INT) r = cmpInt(C.getPredicate(), a, b);
        else if (a.kind == K_PTR && b.kind == K_PTR) {
          std::vector<Target> ta, tb; getTargets(a, ta); getTargets(b, tb);
          bool canEq = false, canNe = false;
          for (auto &x : ta) for (auto &y : tb) {
            if (x.reg == y.reg && (x.reg == 0 || (x.lo <= y.hi && y.lo <= x.hi))) { canEq = true; if (x.reg && !(x.lo == x.hi && y.lo == y.hi)) canNe = true; }
            else canNe = true;
          }
          int eq = canEq && !canNe ? 1 : canNe && !canEq ? 0 : -1;
          if (C.getPredicate() == CmpInst::ICMP_EQ) r = eq; else if (C.getPredicate() == CmpInst::ICMP_NE) r = eq < 0 ? -1 : !eq;
        }
        AV v = r < 0 ? mkInt(0, 1) : mkInt(r, r);
        v.taint = a.taint | b.taint;
        set(&I, v); break; }
      case Instruction::FCmp: {
        auto &C = cast<FCmpInst>(I);
        AV a = operandFP(S, Fr, C.getOperand(0), &I), b = operandFP(S, Fr, C.getOperand(1), &I);
        int r = cmpFP(C.getPredicate(), a, b);
        if (watchLabel >= 0) watchCmp(S, Fr, C, a, b);
        if (featCmp) gradeCmp(C, a, b);
        AV v = r < 0 ? mkInt(0, 1) : mkInt(r, r);
        v.taint = a.taint | b.taint;
        set(&I, v); break; }
      case Instruction::Select: {
        AV c = val(S, Fr, I.getOperand(0)), a = val(S, Fr, I.getOperand(1)), b = val(S, Fr, I.getOperand(2));
        if (I.getType()->isFloatingPointTy()) { a = conv(a, I.getType()); b = conv(b, I.getType()); }
        if (c.kind == K_INT && c.lo == c.hi) set(&I, c.lo ? a : b); else { g_joinCause = causeId(&I); set(&I, avJoin(a, b)); g_joinCause = 0; }
        break; }
      case Instruction::ExtractValue: {
        auto &E = cast<ExtractValueInst>(I);
        AV a = val(S, Fr, E.getAggregateOperand());
        if (a.kind == K_TOP && a.reg == 78) { i64 x = (i64)(E.getIndices()[0] == 0 ? a.flo : a.fhi); set(&I, mkInt(x, x)); }
        else if (a.kind == K_TOP && a.reg == 77) { double x = E.getIndices()[0] == 0 ? a.flo : a.fhi; set(&I, mkFP(x, x)); }
        else { AV u = unknownOf(I.getType()); u.taint = a.taint; set(&I, u); }
        break; }
      case Instruction::InsertValue: set(&I, mkTop()); break;
      case Instruction::Freeze: set(&I, val(S, Fr, I.getOperand(0))); break;
      case Instruction::Call: if (!doCall(S, Fr, cast<CallBase>(&I))) return; break;
      case Instruction::Br: {
        auto &Bi = cast<BranchInst>(I);
        if (!Bi.isConditional()) { phiTransfer(S, Fr, B, Bi.getSuccessor(0)); out.push_back({Bi.getSuccessor(0), std::move(S)}); return; }
        AV c = val(S, Fr, Bi.getCondition());
        if (c.kind == K_ZERO) c = mkInt(0, 0);
        if (c.mayundef || c.kind == K_UNDEF) report("UNINIT", &I, "branch on an uninitialised value");
        if (c.kind == K_INT && c.lo == c.hi) {
          auto *t = Bi.getSuccessor(c.lo ? 0 : 1);
          phiTransfer(S, Fr, B, t);
          out.push_back({t, std::move(S)});
          return;
        }
        nForks++;
        if (dbg) forkSites[locOf(&I)]++;
        State S2 = S;
        refineCmp(S, Fr, Bi.getCondition(), true);
        refineCmp(S2, Fr, Bi.getCondition(), false);
        phiTransfer(S, Fr, B, Bi.getSuccessor(0));
        phiTransfer(S2, Fr, B, Bi.getSuccessor(1));
        out.push_back({Bi.getSuccessor(0), std::move(S)});
        out.push_back({Bi.getSuccessor(1), std::move(S2)});
        return; }
      case Instruction::Switch: {
        auto &Sw = cast<SwitchInst>(I);
        AV c = val(S, Fr, Sw.getCondition());
        if (c.kind == K_ZERO) c = mkInt(0, 0);
        if (c.mayundef || c.kind == K_UNDEF) report("UNINIT", &I, "switch on an uninitialised value");
        std::vector<const BasicBlock *> succ;
        bool def = true;
        if (c.kind == K_INT && c.lo == c.hi) {
          const BasicBlock *t = Sw.getDefaultDest();
          for (auto cs : Sw.cases()) if (cs.getCaseValue()->getSExtValue() == c.lo) t = cs.getCaseSuccessor();
          phiTransfer(S, Fr, B, t);
          out.push_back({t, std::move(S)});
          return;
        }
        nForks++;
        std::set<const BasicBlock *> done;
        for (auto cs : Sw.cases()) {
          i64 k = cs.getCaseValue()->getSExtValue();
          if (c.kind == K_INT && (k < c.lo || k > c.hi)) continue;
          if (!done.insert(cs.getCaseSuccessor()).second) continue;
          State S2 = S; phiTransfer(S2, Fr, B, cs.getCaseSuccessor()); out.push_back({cs.getCaseSuccessor(), std::move(S2)});
        }
        if (done.insert(Sw.getDefaultDest()).second) { phiTransfer(S, Fr, B, Sw.getDefaultDest()); out.push_back({Sw.getDefaultDest(), std::move(S)}); }
        return; }
      case Instruction::Ret: {
        auto &R = cast<ReturnInst>(I);
        AV v;
        if (R.getReturnValue()) v = val(S, Fr, R.getReturnValue());
        Fr.leaves++;
        if (!Fr.hasRet) { Fr.hasRet = true; Fr.retVal = v; Fr.ret = std::move(S); }
        else { g_joinCause = causeId(&I); Fr.retVal = avJoin(Fr.retVal, v); State j = stJoin(*Fr.ret, S); Fr.ret = std::move(j); g_joinCause = 0; }
        return; }
      case Instruction::Unreachable: Fr.leaves++; return;
      default:
        errs() << "unsupported instruction " << I << "\n";
        exit(3);
    }
  }
}

static void addPending(Frame &Fr, Pending &P, const BasicBlock *b, State &&s) {
  int k = Fr.fi->rpo[b];
  auto it = P.find(k);
  if (it == P.end()) P.emplace(k, std::make_pair(b, std::move(s)));
  else { State j = stJoin(it->second.second, s); it->second.second = std::move(j); }
}
static void runRegion(Frame &Fr, Loop *L, Pending pend, Pending &exits) {
  const BasicBlock *header = L ? L->getHeader() : nullptr;
  std::optional<State> acc;
  int nAcc = 0, undet = 0;
  u64 leaves0 = Fr.leaves;
  bool inAcc = false;
  int nIter = 0;
  bool forceLoop = false, counted = false;
  if (L && widenAfter) {
    StringRef fn = Fr.F->getSubprogram() ? Fr.F->getSubprogram()->getFilename() : StringRef();
    forceLoop = fn.contains(widenFiles);
  }
  while (true) {
    std::optional<State> next;
    auto route = [&](const BasicBlock *t, State &&st) {
      if (L && t == header) { if (next) { State j = stJoin(*next, st); next = std::move(j); } else next = std::move(st); }
      else if (L && !L->contains(t)) addPending(Fr, exits, t, std::move(st));
      else addPending(Fr, pend, t, std::move(st));
    };
    while (!pend.empty()) {
      auto it = pend.begin();
      const BasicBlock *b = it->second.first;
      State s = std::move(it->second.second);
      pend.erase(it);
      Loop *lb = Fr.fi->LI.getLoopFor(b);
      Loop *C = lb;
      while (C && C->getParentLoop() != L) C = C->getParentLoop();
      if (lb && lb != L && C) {
        Pending sub, ex;
        addPending(Fr, sub, b, std::move(s));
        runRegion(Fr, C, std::move(sub), ex);
        for (auto &e : ex) route(e.second.first, std::move(e.second.second));
        continue;
      }
      std::vector<Edge> out;
      execBlock(Fr, b, std::move(s), out);
      // an exit test of this loop that is decided in this iteration: a counted loop (possibly with other exits)
      if (L && lb == L && out.size() == 1 && out[0].to != header)
        for (auto *sc : successors(b)) if (!L->contains(sc) && sc != out[0].to) counted = true;
      if (L && lb == L && out.size() == 1 && out[0].to == header && succ_size(b) > 1)
        for (auto *sc : successors(b)) if (!L->contains(sc)) counted = true;
      for (auto &e : out) route(e.to, std::move(e.st));
    }
    if (!next) break;
    bool undetermined = !exits.empty() || Fr.leaves != leaves0;
    nIter++;
    bool force = L && forceLoop && nIter > widenAfter;
    if (undetermined || force) {
      undet++;
      if (undet <= (counted ? countedDelay : defDelay) && !force) { pend.clear(); addPending(Fr, pend, header, std::move(*next)); continue; }
      if (!inAcc) { inAcc = true; accumDepth++; nWidenedLoops++; }
      if (!acc) { acc = *next; nAcc = 1; addPending(Fr, pend, header, std::move(*next)); continue; }
      State j = stJoin(*acc, *next, nAcc > 1);
      nAcc++;
      if (stEq(j, *acc)) break;
      if (nAcc > 60) { fprintf(stderr, "no fixpoint at %s\n", locOf(header->getFirstNonPHI()).c_str()); exit(4); }
      acc = j;
      addPending(Fr, pend, header, std::move(j));
    } else addPending(Fr, pend, header, std::move(*next));
  }
  if (inAcc) accumDepth--;
}
// functions whose result is determined by their scalar arguments: no store outside their own locals, no load
// from anything but their locals and never-written globals, and only calls to functions of the same kind
static bool neverWritten(const GlobalVariable *G) {
  static std::map<const GlobalVariable *, bool> cache;
  auto it = cache.find(G);
  if (it != cache.end()) return it->second;
  bool ok = G->hasInitializer();
  if (!G->isConstant()) {
    std::vector<const Value *> wl{G};
    while (ok && !wl.empty()) {
      const Value *v = wl.back(); wl.pop_back();
      for (auto *u : v->users()) {
        if (isa<LoadInst>(u)) continue;
        if (isa<GetElementPtrInst>(u) || isa<ConstantExpr>(u)) { wl.push_back(u); continue; }
        if (isa<CmpInst>(u)) continue;
        ok = false; break;
      }
    }
  }
  return cache[G] = ok;
}
static bool isPure(const Function *F) {
  static std::map<const Function *, int> cache;
  auto it = cache.find(F);
  if (it != cache.end()) return it->second == 1;  // in progress (recursion) counts as not pure
  cache[F] = 0;
  if (F->getName().starts_with("ai_")) return false;
  if (F->isDeclaration()) {
    static const std::set<std::string> ok{"pow", "sqrt", "exp", "log", "erf", "fabs", "floor", "ceil", "round", "abs", "erfc", "sin", "cos", "__assert_fail"};
    bool r = M->getFunction(("ai_stub_" + F->getName()).str()) ? false : F->isIntrinsic() ? !(F->getName().starts_with("llvm.mem")) : ok.count(F->getName().str()) > 0;
    cache[F] = r;
    return r;
  }
  if (M->getFunction(("ai_stub_" + F->getName()).str())) return false;
  bool pure = true;
  for (auto &A : F->args()) if (A.getType()->isPointerTy()) pure = false;
  auto baseOk = [&](const Value *p, bool store) {
    const Value *b = getUnderlyingObject(p, 0);
    if (isa<AllocaInst>(b)) return true;
    if (auto *g = dyn_cast<GlobalVariable>(b)) return !store && neverWritten(g);
    return false;
  };
  for (auto &I : instructions(*F)) {
    if (!pure) break;
    if (auto *S = dyn_cast<StoreInst>(&I)) { if (!baseOk(S->getPointerOperand(), true) || S->getValueOperand()->getType()->isPointerTy()) pure = false; }
    else if (auto *L = dyn_cast<LoadInst>(&I)) { if (!baseOk(L->getPointerOperand(), false) || L->getType()->isPointerTy()) pure = false; }
    else if (auto *C = dyn_cast<CallBase>(&I)) {
      if (C->getIntrinsicID() != Intrinsic::not_intrinsic && (C->getCalledFunction()->getName().starts_with("llvm.dbg"))) continue;
      auto *T = C->getCalledFunction();
      if (!T || !isPure(T)) pure = false;
    }
  }
  cache[F] = pure ? 1 : 0;
  return pure;
}
static bool isSelfPure(const Function *F) {
  static std::map<const Function *, bool> c;
  auto it = c.find(F);
  if (it != c.end()) return it->second;
  bool ok = !F->isDeclaration() && (F->getReturnType()->isFloatingPointTy() || F->getReturnType()->isIntegerTy());
  for (auto &A : F->args()) if (A.getType()->isPointerTy()) ok = false;
  for (auto &I : instructions(*F)) {
    if (!ok) break;
    if (auto *S = dyn_cast<StoreInst>(&I)) { if (!isa<AllocaInst>(getUnderlyingObject(S->getPointerOperand(), 0))) ok = false; }
    else if (auto *C = dyn_cast<CallBase>(&I)) {
      if (C->getIntrinsicID() != Intrinsic::not_intrinsic && C->getCalledFunction()->getName().starts_with("llvm.dbg")) continue;
      auto *T = C->getCalledFunction();
      if (!T || (T != F && !isPure(T))) ok = false;
    }
  }
  return c[F] = ok;
}
struct Memo { AV ret; bool returns; };
static std::map<std::pair<const Function *, std::string>, Memo> memo;
static u64 nMemo = 0;
static void execFunctionBody(const Function *F, std::vector<AV> &args, Memory &mem, AV &ret, bool &returns, const Instruction *callI);
static void execFunction(const Function *F, std::vector<AV> &args, Memory &mem, AV &ret, bool &returns, const Instruction *callI) {
  if (isPure(F)) {
    std::string key;
    for (auto &a : args) { AV b = a; b.orig = 0; b.cause = 0; char buf[sizeof(AV)]; memset(buf, 0, sizeof buf);
      char *q = buf; auto put = [&](const void *x, size_t n) { key.append((const char *)x, n); }; (void)q;
      put(&b.kind, 1); put(&b.par, 1); put(&b.dim, 2); put(&b.mayundef, 1); put(&b.lo, 8); put(&b.hi, 8); put(&b.taint, 8); put(&b.lin, 4); put(&b.tw, 8); }
    auto k = std::make_pair(F, key);
    auto it = memo.find(k);
    if (it != memo.end()) { nMemo++; ret = it->second.ret; returns = it->second.returns; return; }
    execFunctionBody(F, args, mem, ret, returns, callI);
    memo[k] = {ret, returns};
    return;
  }
  execFunctionBody(F, args, mem, ret, returns, callI);
}
static void execFunctionBody(const Function *F, std::vector<AV> &args, Memory &mem, AV &ret, bool &returns, const Instruction *callI) {
  analysed.insert(F);
  // unbounded self-recursion on abstract scalars (e.g. a factorial of an unknown number): any value of the result type
  static std::map<const Function *, int> active;
  struct Guard { int &n; Guard(int &x) : n(x) { n++; } ~Guard() { n--; } } guard(active[F]);
  if (guard.n > 40 && isSelfPure(F)) {
    bool fixed = true; u64 t = 0;
    for (auto &a : args) { if ((a.kind == K_INT && a.lo != a.hi) || (a.kind == K_FP && a.flo != a.fhi) || a.kind == K_TOP) fixed = false; t |= a.taint; }
    if (!fixed) {
      Type *T = F->getReturnType();
      ret = T->isFloatingPointTy() ? mkFP(-INF, INF) : T->isIntegerTy() ? mkInt(-((i64)1 << (std::min(T->getIntegerBitWidth(), 62u) - 1)), ((i64)1 << (std::min(T->getIntegerBitWidth(), 62u) - 1)) - 1) : mkTop();
      ret.taint = t;
      returns = true;
      return;
    }
  }
  callStack.push_back(callI);
  if (callStack.size() > 400) { fprintf(stderr, "recursion too deep at %s\n", F->getName().str().c_str()); exit(4); }
  Frame Fr;
  Fr.F = F; Fr.fi = &getInfo(F);
  State S;
  S.env.resize(Fr.fi->nslots);
  unsigned i = 0;
  for (auto &A : F->args()) { if (i < args.size()) S.env[Fr.fi->slot[&A]] = args[i]; i++; }
  S.mem = std::move(mem);
  Pending p, ex;
  addPending(Fr, p, &F->getEntryBlock(), std::move(S));
  runRegion(Fr, nullptr, std::move(p), ex);
  callStack.pop_back();
  returns = Fr.hasRet;
  if (!returns) return;
  for (int id : Fr.allocas) Fr.ret->mem.erase(id);
  mem = std::move(Fr.ret->mem);
  ret = Fr.retVal;
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; }
  return o;
}
static void dbgHook(const AV &a, const AV &b) {
  fprintf(stderr, "JOINCONF %s [%g,%g] (%s) vs %s [%g,%g] (%s) at %s\n", dimStr(a.dim).c_str(), a.flo, a.fhi, a.orig ? locOf(causes[a.orig]).c_str() : "?", dimStr(b.dim).c_str(), b.flo, b.fhi, b.orig ? locOf(causes[b.orig]).c_str() : "?", pathStr().c_str());
}
int main(int argc, char **argv) {
  std::string file, entry = "harness", outf;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a.rfind("--entry=", 0) == 0) entry = a.substr(8);
    else if (a.rfind("--out=", 0) == 0) outf = a.substr(6);
    else if (a.rfind("--stop-at=", 0) == 0) stopAt = a.substr(10);
    else if (a.rfind("--max-steps=", 0) == 0) maxSteps = std::stoull(a.substr(12));
    else if (a.rfind("--features=", 0) == 0) { optFeatures = a.substr(11); featCmp = optFeatures.find("cmp") != std::string::npos; }
    else if (a.rfind("--counted-delay=", 0) == 0) countedDelay = std::stoi(a.substr(16));
    else if (a.rfind("--delay=", 0) == 0) defDelay = std::stoi(a.substr(8));
    else if (a.rfind("--widen-after=", 0) == 0) widenAfter = std::stoi(a.substr(14));
    else if (a.rfind("--widen-files=", 0) == 0) widenFiles = a.substr(14);
    else if (a.rfind("--watch=", 0) == 0) watchNames = a.substr(8) + ",";
    else if (a == "--debug") { dbg = true; g_dbgHook = dbgHook; }
    else file = a;
  }
  auto t0 = std::chrono::steady_clock::now();
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(file, err, ctx);
  if (!mod) { err.print("grppai", errs()); return 3; }
  M = mod.get();
  DL = &M->getDataLayout();
  internDim(Dim{});
  rinfo.emplace_back(); rinfo[0].kind = R_NULL;
  Memory mem;
  for (auto &G : M->globals()) {
    int id = newRegion(R_GLOBAL, G.getName().str(), &G);
    rinfo[id].gv = &G;
    globalRegion[&G] = id;
  }
  for (auto &F : *M) {
    int id = newRegion(R_FUNC, F.getName().str(), &F);
    rinfo[id].fn = &F;
    globalRegion[&F] = id;
  }
  for (auto &G : M->globals()) {
    Region *g = new Region();
    g->size = g->minSize = DL->getTypeAllocSize(G.getValueType());
    if (G.hasInitializer()) {
      if (G.getInitializer()->isNullValue()) g->def.kind = K_ZERO; else g->init = G.getInitializer();
    } else if (!G.isDeclaration()) g->def.kind = K_ZERO;
    mem.add(globalRegion[&G], g);
  }
  for (auto &p : globalRegion) if (!watchNames.empty() && ("," + watchNames).find("," + p.first->getName().str() + ",") != std::string::npos) tableRegions.insert(p.second);
  const Function *E = M->getFunction(entry);
  if (!E || E->isDeclaration()) { errs() << "no entry " << entry << "\n"; return 3; }
  std::vector<AV> args; AV ret; bool rets = false;
  try { execFunction(E, args, mem, ret, rets, nullptr); } catch (StopAnalysis &) { rets = false; }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::string o = "{\"entry\":\"" + entry + "\",\"returns\":" + (rets ? "true" : "false") + ",\"stats\":{";
  char b[600];
  snprintf(b, 600, "\"abstract_steps\":%llu,\"undecided_branches\":%llu,\"joins\":%llu,\"widened_loops\":%llu,\"checks\":%llu,\"accesses\":%llu,\"access_sites\":%zu,\"calls\":%llu,\"wall_s\":%.2f},",
           nSteps, nForks, nJoins, nWidenedLoops, nChecks, nAccess, accessSites.size(), nCalls, wall);
  o += b;
  o += "\"functions\":[";
  bool first = true;
  for (auto *F : analysed) { if (F->getName().starts_with("ai_")) continue; o += (first ? "\"" : ",\"") + F->getName().str() + "\""; first = false; }
  o += "],\"reached\":{"; first = true;
  for (auto &p : reached) { o += (first ? "\"" : ",\"") + jesc(p.first) + "\":" + std::to_string(p.second); first = false; }
  o += "},\"checks\":["; first = true;
  for (auto &p : checkNames) { o += (first ? "\"" : ",\"") + jesc(p) + "\""; first = false; }
  o += "],\"copies\":["; first = true;
  for (auto &x : copySites) { o += std::string(first ? "" : ",") + "\"" + x + "\""; first = false; }
  o += "],\"flag\":["; first = true;
  for (int r : flagRegions) { o += (first ? "\"" : ",\"") + jesc(rinfo[r].name) + "\""; first = false; }
  o += "],\"tables\":["; first = true;
  for (int r : tableRegions) if (rinfo[r].kind == R_GLOBAL) { o += (first ? "\"" : ",\"") + jesc(rinfo[r].name) + "\""; first = false; }
  o += "],\"locks\":["; first = true;
  for (int r : lockIds) { o += (first ? "\"" : ",\"") + jesc(rinfo[r].name) + "\""; first = false; }
  o += "],\"reports\":["; first = true;
  for (auto &p : reports) {
    auto &r = p.second;
    o += std::string(first ? "" : ",") + "{\"cat\":\"" + r.cat + "\",\"where\":\"" + jesc(r.where) + "\",\"msg\":\"" + jesc(r.msg) + "\",\"path\":\"" + jesc(r.path) + "\",\"count\":" + std::to_string(r.count) + "}";
    first = false;
  }
  o += "]}\n";
  if (dbg) for (auto &p : forkSites) fprintf(stderr, "FORK %s %llu\n", p.first.c_str(), p.second);
  if (outf.empty()) fputs(o.c_str(), stdout);
  else { FILE *f = fopen(outf.c_str(), "w"); fputs(o.c_str(), f); fclose(f); }
  fflush(stdout);
  _exit(0);
}
