// Interprocedural effect and ownership analysis over LLVM IR.
//
// For a root routine the whole call tree is cloned per call path; a field-sensitive, flow-insensitive (inclusion
// based) points-to relation is computed in which memory the root receives from its caller is represented by
// symbolic objects (one per parameter and dereference path).  Every store, block copy, fill and release of every
// path is then classified by the owner of the memory it touches.
//
//   effects module.bc roots.txt out.json
//   roots.txt: one root per line:  name
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;
using std::map; using std::set; using std::string; using std::vector;

static const long ANY = -1;
enum Kind { KParam, KGlobal, KGlobalExt, KHeap, KStack, KFunc, KConst };
struct Obj {
    Kind kind; int param = -1; int depth = 0; string name; const Value *site = nullptr; int ctx = -1;
    map<long, set<int>> cells; map<long, int> child; bool constant = false;
};
struct Loc { int obj; long off; };
static vector<Obj> objs;
static vector<Loc> locs;
static map<std::pair<int, long>, int> locId;
static int L(int o, long off) {
    auto k = std::make_pair(o, off);
    auto it = locId.find(k);
    if (it != locId.end()) return it->second;
    locs.push_back({o, off});
    return locId[k] = (int)locs.size() - 1;
}
struct Ctx { const Function *f; int parent; const CallBase *cs; int depth; std::unordered_map<const Value *, set<int>> pts; set<int> ret; map<std::pair<const CallBase *, const Function *>, int> callees; };
static vector<Ctx *> ctxs;
static map<const Value *, int> globObj;
static map<std::pair<int, const Value *>, int> siteObj;
static Module *M;
static const DataLayout *DL;
static bool changed, truncated;
static set<string> unknownExternal;
static vector<const Function *> addrTaken;

static int newObj(Kind k, const string &n) { objs.emplace_back(); objs.back().kind = k; objs.back().name = n; return (int)objs.size() - 1; }
static bool add(set<int> &d, const set<int> &s) { bool c = false; for (int x : s) c |= d.insert(x).second; if (c) changed = true; return c; }
static bool add1(set<int> &d, int x) { bool c = d.insert(x).second; if (c) changed = true; return c; }

static void initCells(int o, const Constant *C, long off);
static int objOfGlobal(const GlobalVariable *G) {
    auto it = globObj.find(G);
    if (it != globObj.end()) return it->second;
    int o = newObj(G->isConstant() ? KConst : KGlobal, G->getName().str());
    objs[o].constant = G->isConstant();
    globObj[G] = o;
    if (G->hasInitializer()) initCells(o, G->getInitializer(), 0);
    return o;
}
static int objOfFunc(const Function *F) {
    auto it = globObj.find(F);
    if (it != globObj.end()) return it->second;
    int o = newObj(KFunc, F->getName().str());
    objs[o].site = F;
    globObj[F] = o;
    return o;
}
static void constPts(const Constant *C, set<int> &out, long addoff = 0) {
    if (auto *F = dyn_cast<Function>(C)) { out.insert(L(objOfFunc(F), 0)); return; }
    if (auto *G = dyn_cast<GlobalVariable>(C)) { out.insert(L(objOfGlobal(G), addoff)); return; }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        if (auto *GE = dyn_cast<GEPOperator>(CE)) {
            APInt off(64, 0);
            bool ok = GE->accumulateConstantOffset(*DL, off);
            set<int> base;
            constPts(cast<Constant>(GE->getPointerOperand()), base);
            for (int b : base) out.insert(L(locs[b].obj, ok && locs[b].off != ANY ? locs[b].off + off.getSExtValue() : ANY));
            return;
        }
        for (auto &op : CE->operands()) if (auto *c = dyn_cast<Constant>(op)) constPts(c, out);
    }
}
static void initCells(int o, const Constant *C, long off) {
    if (C->getType()->isPointerTy()) {
        set<int> p; constPts(C, p);
        for (int x : p) objs[o].cells[off].insert(x);
        return;
    }
    if (isa<ConstantAggregate>(C)) {
        if (auto *ST = dyn_cast<StructType>(C->getType())) {
            auto *SL = DL->getStructLayout(ST);
            for (unsigned i = 0; i < C->getNumOperands(); i++) initCells(o, cast<Constant>(C->getOperand(i)), off + (long)SL->getElementOffset(i));
        } else {
            Type *ET = isa<ArrayType>(C->getType()) ? cast<ArrayType>(C->getType())->getElementType() : cast<VectorType>(C->getType())->getElementType();
            long sz = (long)DL->getTypeAllocSize(ET);
            for (unsigned i = 0; i < C->getNumOperands(); i++) initCells(o, cast<Constant>(C->getOperand(i)), off + (long)i * sz);
        }
    }
}
static bool interesting(Type *T) { return T->isPointerTy() || T->isIntegerTy(64) || T->isAggregateType(); }

static set<int> &P(int c, const Value *V) {
    static set<int> tmp;
    if (auto *C = dyn_cast<Constant>(V)) { tmp.clear(); constPts(C, tmp); return tmp; }
    return ctxs[c]->pts[V];
}
static int extChild(int o, long off) {
    auto it = objs[o].child.find(off);
    if (it != objs[o].child.end()) return it->second;
    if (objs[o].depth >= 5) return o;
    Kind k = objs[o].kind == KParam ? KParam : KGlobalExt;
    int p = objs[o].param, d = objs[o].depth;
    string n = objs[o].name + (off == ANY ? "[*]" : "[+" + std::to_string(off) + "]");
    int c = newObj(k, n);
    objs[c].param = p; objs[c].depth = d + 1;
    objs[o].child[off] = c;
    return c;
}
static void loadFrom(int loc, set<int> &out, bool ptr) {
    int o = locs[loc].obj; long off = locs[loc].off;
    if (objs[o].kind == KFunc) return;
    if (off == ANY) { for (auto &kv : objs[o].cells) out.insert(kv.second.begin(), kv.second.end()); }
    else {
        auto it = objs[o].cells.find(off);
        if (it != objs[o].cells.end()) out.insert(it->second.begin(), it->second.end());
        it = objs[o].cells.find(ANY);
        if (it != objs[o].cells.end()) out.insert(it->second.begin(), it->second.end());
    }
    if (ptr && (objs[o].kind == KParam || objs[o].kind == KGlobal || objs[o].kind == KGlobalExt)) out.insert(L(extChild(o, off), 0));
}
static void storeTo(int loc, const set<int> &v) {
    int o = locs[loc].obj;
    if (objs[o].kind == KFunc) return;
    add(objs[o].cells[locs[loc].off], v);
}
static int siteObject(int c, const Value *V, Kind k) {
    auto key = std::make_pair(c, V);
    auto it = siteObj.find(key);
    if (it != siteObj.end()) return it->second;
    int o = newObj(k, k == KHeap ? "heap" : "stack");
    objs[o].site = V; objs[o].ctx = c;
    return siteObj[key] = o;
}
static size_t maxCtx = 400000;
static int calleeCtx(int c, const CallBase *cs, const Function *F) {
    auto key = std::make_pair(cs, F);
    auto it = ctxs[c]->callees.find(key);
    if (it != ctxs[c]->callees.end()) return it->second;
    for (int p = c; p >= 0; p = ctxs[p]->parent)
        if (ctxs[p]->f == F) return ctxs[c]->callees[key] = p;      // recursion folds into the enclosing activation
    if (ctxs.size() > maxCtx) { truncated = true; return -1; }
    ctxs.push_back(new Ctx{F, c, cs, ctxs[c]->depth + 1, {}, {}, {}});
    changed = true;
    return ctxs[c]->callees[key] = (int)ctxs.size() - 1;
}
static void bind(int c, const CallBase *cs, const Function *F, int shift) {
    int n = calleeCtx(c, cs, F);
    if (n < 0) return;
    unsigned i = 0;
    for (auto &A : F->args()) {
        long k = (long)i++ + shift;
        if (k < 0 || k >= (long)cs->arg_size()) continue;
        if (interesting(cs->getArgOperand(k)->getType())) { set<int> s = P(c, cs->getArgOperand(k)); add(ctxs[n]->pts[&A], s); }
    }
    if (interesting(cs->getType())) add(ctxs[c]->pts[cs], ctxs[n]->ret);
}
static void copyCells(int dl, int sl, long n) {
    int d = locs[dl].obj, s = locs[sl].obj; long doff = locs[dl].off, soff = locs[sl].off;
    if (objs[d].kind == KFunc || objs[s].kind == KFunc) return;
    bool ext = objs[s].kind == KParam || objs[s].kind == KGlobal || objs[s].kind == KGlobalExt;
    if (d == s) return;
    if (ext && soff != ANY && doff != ANY && n >= 0 && n <= 512) {
        // a struct copied out of caller memory: every pointer-sized slot may carry a caller pointer
        for (long k = 0; k + 8 <= n; k += 8) { set<int> v; loadFrom(L(s, soff + k), v, true); add(objs[d].cells[doff + k], v); }
        return;
    }
    map<long, set<int>> src = objs[s].cells;
    for (auto &kv : src) {
        if (kv.first == ANY || soff == ANY || doff == ANY) { if (!kv.second.empty()) add(objs[d].cells[ANY], kv.second); }
        else if (kv.first >= soff && (n < 0 || kv.first < soff + n)) add(objs[d].cells[doff + kv.first - soff], kv.second);
    }
    if (ext && objs[s].depth < 3 && n < 0) { /* element copies of unknown length: numbers or pointers to caller data */
        set<int> v; loadFrom(L(s, ANY), v, false); add(objs[d].cells[ANY], v);
    }
}
static bool nameIn(StringRef n, std::initializer_list<const char *> l) { for (auto x : l) if (n == x) return true; return false; }

static vector<const Function *> targets(int c, const CallBase *cs) {
    vector<const Function *> r;
    if (auto *F = cs->getCalledFunction()) { r.push_back(F); return r; }
    set<int> s = P(c, cs->getCalledOperand());
    set<const Function *> seen;
    bool ext = s.empty();
    for (int l : s) {
        auto &o = objs[locs[l].obj];
        if (o.kind == KFunc) seen.insert(cast<Function>(o.site));
        else ext = true;
    }
    if (ext) for (auto *F : addrTaken) if (F->getFunctionType() == cs->getFunctionType()) seen.insert(F);
    return {seen.begin(), seen.end()};
}

static void visit(int c) {
    const Function *F = ctxs[c]->f;
    for (auto &I : instructions(F)) {
        if (auto *A = dyn_cast<AllocaInst>(&I)) { add1(ctxs[c]->pts[A], L(siteObject(c, A, KStack), 0)); continue; }
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            APInt off(64, 0);
            bool ok = G->accumulateConstantOffset(*DL, off);
            set<int> b = P(c, G->getPointerOperand());
            auto &d = ctxs[c]->pts[G];
            for (int x : b) {
                long o2 = ok && locs[x].off != ANY ? locs[x].off + off.getSExtValue() : ANY;
                if (o2 != ANY && off != 0 && !locId.count({locs[x].obj, o2})) {
                    // a pointer advanced around a loop: after a few steps its offset is arbitrary
                    int same = 0;
                    for (int y : d) same += locs[y].obj == locs[x].obj;
                    if (same >= 12) o2 = ANY;
                }
                add1(d, L(locs[x].obj, o2));
            }
            continue;
        }
        if (auto *Ld = dyn_cast<LoadInst>(&I)) {
            if (!interesting(Ld->getType())) continue;
            set<int> b = P(c, Ld->getPointerOperand()), v;
            for (int x : b) loadFrom(x, v, Ld->getType()->isPointerTy());
            add(ctxs[c]->pts[Ld], v);
            continue;
        }
        if (auto *S = dyn_cast<StoreInst>(&I)) {
            if (!interesting(S->getValueOperand()->getType())) continue;
            set<int> v = P(c, S->getValueOperand());
            if (v.empty()) continue;
            set<int> b = P(c, S->getPointerOperand());
            for (int x : b) storeTo(x, v);
            continue;
        }
        if (auto *R = dyn_cast<ReturnInst>(&I)) {
            if (R->getReturnValue() && interesting(R->getReturnValue()->getType())) { set<int> v = P(c, R->getReturnValue()); add(ctxs[c]->ret, v); }
            continue;
        }
        if (auto *CB = dyn_cast<CallBase>(&I)) {
            if (isa<DbgInfoIntrinsic>(CB)) continue;
            if (auto *MT = dyn_cast<MemTransferInst>(CB)) {
                set<int> d = P(c, MT->getRawDest()), s = P(c, MT->getRawSource());
                long n = isa<ConstantInt>(MT->getLength()) ? (long)cast<ConstantInt>(MT->getLength())->getZExtValue() : -1;
                for (int x : d) for (int y : s) copyCells(x, y, n);
                continue;
            }
            for (auto *T : targets(c, CB)) {
                if (!T->isDeclaration()) { bind(c, CB, T, 0); continue; }
                StringRef n = T->getName();
                if (nameIn(n, {"malloc", "calloc", "aligned_alloc", "valloc", "memalign", "strdup"})) add1(ctxs[c]->pts[CB], L(siteObject(c, CB, KHeap), 0));
                else if (nameIn(n, {"realloc", "reallocarray"})) {
                    int o = siteObject(c, CB, KHeap);
                    add1(ctxs[c]->pts[CB], L(o, 0));
                    set<int> s = P(c, CB->getArgOperand(0));
                    for (int y : s) if (locs[y].obj != o) copyCells(L(o, 0), y, -1);
                } else if (nameIn(n, {"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"})) {
                    set<int> d = P(c, CB->getArgOperand(0)), s = P(c, CB->getArgOperand(1));
                    for (int x : d) for (int y : s) copyCells(x, y, -1);
                    add(ctxs[c]->pts[CB], d);
                } else if (n.starts_with("__kmpc_fork_call")) {
                    set<int> s = P(c, CB->getArgOperand(2));
                    for (int y : s) if (objs[locs[y].obj].kind == KFunc) bind(c, CB, cast<Function>(objs[locs[y].obj].site), 1);
                } else if (CB->getType()->isPointerTy()) {
                    // a library function returning one of its pointer arguments
                    for (auto &a : CB->args()) if (a->getType()->isPointerTy()) { set<int> d = P(c, a); add(ctxs[c]->pts[CB], d); }
                }
            }
            continue;
        }
        if (!interesting(I.getType())) continue;
        // phi, select, casts, integer arithmetic, aggregates: union of the operands
        auto isPass = isa<PHINode>(I) || isa<SelectInst>(I) || isa<CastInst>(I) || isa<BinaryOperator>(I) || isa<ExtractValueInst>(I) || isa<InsertValueInst>(I) || isa<FreezeInst>(I);
        if (isPass) for (auto &op : I.operands()) if (interesting(op->getType())) {
            set<int> s = P(c, op);
            if (isa<BinaryOperator>(I)) { for (int x : s) add1(ctxs[c]->pts[&I], L(locs[x].obj, ANY)); }
            else add(ctxs[c]->pts[&I], s);
        }
    }
}
static string where(const Instruction *I) {
    string f = I->getFunction()->getName().str();
    if (auto &d = I->getDebugLoc()) return d->getFilename().str().substr(d->getFilename().rfind('/') + 1) + ":" + std::to_string(d.getLine()) + "(" + f + ")";
    return f;
}
static string path(int c) {
    string s = ctxs[c]->f->getName().str();
    for (int p = ctxs[c]->parent; p >= 0; p = ctxs[p]->parent) s = ctxs[p]->f->getName().str() + " > " + s;
    return s;
}
static string esc(const string &s) { string o; for (char ch : s) { if (ch == '"' || ch == '\\') o += '\\'; o += ch; } return o; }

struct Rep { string cat, what, where, path; int param, depth; };
static void classify(int c, const Instruction *I, const Value *ptr, const char *op, vector<Rep> &out, long &n) {
    n++;
    for (int l : P(c, ptr)) {
        auto &o = objs[locs[l].obj];
        string off = locs[l].off == ANY ? "[*]" : "+" + std::to_string(locs[l].off);
        if (o.kind == KParam) out.push_back({string(op) + "-PARAM", o.name + off, where(I), path(c), o.param, o.depth});
        else if (o.kind == KGlobal || o.kind == KConst) out.push_back({string(op) + "-GLOBAL", o.name, where(I), path(c), -1, 0});
        else if (o.kind == KGlobalExt) out.push_back({string(op) + "-GLOBAL", o.name, where(I), path(c), -1, o.depth});
        else if (o.kind == KHeap && strcmp(op, "FREE") == 0) {}
        else if (o.kind == KStack && strcmp(op, "FREE") == 0) out.push_back({"FREE-STACK", "", where(I), path(c), -1, 0});
    }
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    LLVMContext C;
    SMDiagnostic err;
    auto mod = parseIRFile(argv[1], err, C);
    if (!mod) { err.print("effects", errs()); return 2; }
    M = mod.get();
    DL = &M->getDataLayout();
    for (auto &F : *M) if (F.hasAddressTaken() && !F.isDeclaration()) addrTaken.push_back(&F);
    std::ifstream in(argv[2]);
    FILE *out = fopen(argv[3], "w");
    fprintf(out, "{\"roots\":[");
    string root; bool firstRoot = true;
    while (std::getline(in, root)) {
        if (root.empty()) continue;
        auto *F = M->getFunction(root);
        objs.clear(); locs.clear(); locId.clear(); globObj.clear(); siteObj.clear();
        for (auto *x : ctxs) delete x;
        ctxs.clear(); truncated = false;
        if (!firstRoot) fprintf(out, ",");
        firstRoot = false;
        if (!F || F->isDeclaration()) { fprintf(out, "\n{\"root\":\"%s\",\"missing\":1}", root.c_str()); continue; }
        ctxs.push_back(new Ctx{F, -1, nullptr, 0, {}, {}, {}});
        int i = 0;
        for (auto &A : F->args()) {
            if (A.getType()->isPointerTy()) {
                int o = newObj(KParam, "arg" + std::to_string(i));
                objs[o].param = i;
                ctxs[0]->pts[&A].insert(L(o, 0));
            }
            i++;
        }
        int rounds = 0;
        do { changed = false; for (size_t k = 0; k < ctxs.size(); k++) visit((int)k); rounds++; } while (changed && rounds < 150);
        // report
        vector<Rep> reps; long stores = 0, insts = 0; set<string> fns; set<string> exts; map<string, string> extWhere;
        vector<std::pair<int, string>> escapes;
        for (size_t c = 0; c < ctxs.size(); c++) {
            fns.insert(ctxs[c]->f->getName().str());
            for (auto &I : instructions(ctxs[c]->f)) {
                insts++;
                if (auto *S = dyn_cast<StoreInst>(&I)) classify(c, S, S->getPointerOperand(), "WRITE", reps, stores);
                else if (auto *X = dyn_cast<AtomicRMWInst>(&I)) classify(c, X, X->getPointerOperand(), "WRITE", reps, stores);
                else if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) classify(c, X, X->getPointerOperand(), "WRITE", reps, stores);
                else if (auto *MI = dyn_cast<MemIntrinsic>(&I)) classify(c, MI, MI->getRawDest(), "WRITE", reps, stores);
                else if (auto *CB = dyn_cast<CallBase>(&I)) {
                    if (isa<DbgInfoIntrinsic>(CB)) continue;
                    for (auto *T : targets(c, CB)) if (T->isDeclaration() && !T->isIntrinsic()) {
                        StringRef n = T->getName();
                        exts.insert(n.str());
                        if (!extWhere.count(n.str())) extWhere[n.str()] = where(CB) + "|" + path(c);
                        if (nameIn(n, {"free", "cfree"})) classify(c, CB, CB->getArgOperand(0), "FREE", reps, stores);
                        else if (nameIn(n, {"realloc", "reallocarray"})) classify(c, CB, CB->getArgOperand(0), "FREE", reps, stores);
                        else if (nameIn(n, {"memcpy", "memmove", "memset", "__memcpy_chk", "__memset_chk", "__memmove_chk", "bzero", "strcpy", "strncpy", "strcat", "strncat", "sprintf", "snprintf", "vsnprintf"})) classify(c, CB, CB->getArgOperand(0), "WRITE", reps, stores);
                        else if (n.starts_with("__kmpc") || n.starts_with("omp_") || nameIn(n, {"printf", "fprintf", "puts", "fputs", "fputc", "putchar", "fflush", "perror", "fwrite", "__assert_fail", "exit", "abort", "malloc", "calloc"})) {}
                        else {
                            for (unsigned k = 0; k < CB->arg_size(); k++) {
                                if (!CB->getArgOperand(k)->getType()->isPointerTy()) continue;
                                if (CB->onlyReadsMemory() || CB->onlyReadsMemory(k) || T->onlyReadsMemory()) continue;
                                classify(c, CB, CB->getArgOperand(k), "WRITE", reps, stores);
                            }
                        }
                    }
                }
            }
        }
        // pointers to caller memory (or to anything of this call's stack) kept in global storage
        for (size_t o = 0; o < objs.size(); o++)
            if (objs[o].kind == KGlobal || objs[o].kind == KGlobalExt)
                for (auto &kv : objs[o].cells) for (int l : kv.second) {
                    auto &t = objs[locs[l].obj];
                    if (t.kind == KParam || t.kind == KStack || t.kind == KHeap) reps.push_back({"KEPT", objs[o].name + " holds " + t.name, "", F->getName().str(), t.param, t.depth});
                }
        // storage of the result shared with caller memory, and caller memory made to refer to other caller memory
        set<int> seen; vector<int> todo;
        for (int l : ctxs[0]->ret) todo.push_back(locs[l].obj);
        long reach = 0;
        while (!todo.empty()) {
            int o = todo.back(); todo.pop_back();
            if (!seen.insert(o).second) continue;
            reach++;
            if (objs[o].kind == KParam) { reps.push_back({"RESULT-SHARES", objs[o].name, "", F->getName().str(), objs[o].param, objs[o].depth}); continue; }
            if (objs[o].kind == KGlobal || objs[o].kind == KGlobalExt) { reps.push_back({"RESULT-SHARES-GLOBAL", objs[o].name, "", F->getName().str(), -1, 0}); continue; }
            if (objs[o].kind == KStack) reps.push_back({"RESULT-STACK", "", objs[o].site ? where(cast<Instruction>(objs[o].site)) : "", F->getName().str(), -1, 0});
            for (auto &kv : objs[o].cells) for (int l : kv.second) todo.push_back(locs[l].obj);
        }
        // objects handed out through an out-pointer must not share storage with another parameter
        for (size_t o = 0; o < objs.size(); o++) if (objs[o].kind == KParam) {
            set<int> sn; vector<int> td;
            for (auto &kv : objs[o].cells) for (int l : kv.second) if (objs[locs[l].obj].kind == KHeap) td.push_back(locs[l].obj);
            while (!td.empty()) {
                int q = td.back(); td.pop_back();
                if (!sn.insert(q).second) continue;
                if (objs[q].kind == KParam) { if (objs[q].param != objs[o].param) reps.push_back({"OUT-SHARES", objs[o].name + " refers to " + objs[q].name, "", F->getName().str(), objs[o].param, objs[q].param}); continue; }
                for (auto &kv : objs[q].cells) for (int l : kv.second) td.push_back(locs[l].obj);
            }
        }
        for (size_t o = 0; o < objs.size(); o++)
            if (objs[o].kind == KParam)
                for (auto &kv : objs[o].cells) for (int l : kv.second) {
                    auto &t = objs[locs[l].obj];
                    if (t.kind == KParam || t.kind == KHeap || t.kind == KStack) reps.push_back({"PARAM-HOLDS", objs[o].name + "+" + std::to_string(kv.first) + " holds " + t.name, "", F->getName().str(), objs[o].param, t.kind == KParam ? t.param : -1});
                }
        fprintf(out, "\n{\"root\":\"%s\",\"contexts\":%zu,\"rounds\":%d,\"truncated\":%d,\"stores\":%ld,\"instructions\":%ld,\"objects\":%zu,\"result_objects\":%ld,\"functions\":[", root.c_str(), ctxs.size(), rounds, (int)(truncated || rounds >= 150), stores, insts, objs.size(), reach);
        bool f1 = true;
        for (auto &x : fns) { fprintf(out, "%s\"%s\"", f1 ? "" : ",", x.c_str()); f1 = false; }
        fprintf(out, "],\"externals\":{");
        f1 = true;
        for (auto &x : extWhere) { fprintf(out, "%s\"%s\":\"%s\"", f1 ? "" : ",", x.first.c_str(), esc(x.second).c_str()); f1 = false; }
        fprintf(out, "},\"reports\":[");
        set<string> dedup; f1 = true;
        for (auto &r : reps) {
            string k = r.cat + r.what + r.where;
            if (!dedup.insert(k).second) continue;
            fprintf(out, "%s\n {\"cat\":\"%s\",\"what\":\"%s\",\"where\":\"%s\",\"path\":\"%s\",\"param\":%d,\"depth\":%d}", f1 ? "" : ",", r.cat.c_str(), esc(r.what).c_str(), esc(r.where).c_str(), esc(r.path).c_str(), r.param, r.depth);
            f1 = false;
        }
        fprintf(out, "]}");
    }
    fprintf(out, "\n]}\n");
    fclose(out);
    return 0;
}
