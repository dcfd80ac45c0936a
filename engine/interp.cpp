#include "interp.h"
bool polyInfeasible(const Env &e);
bool polyEntails(const Form &f, const Env &e, int seconds);
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
using namespace llvm;
Interp *IP = nullptr;

static std::string locOf(const Instruction *I) {
  std::string s = I->getFunction()->getName().str();
  if (const DebugLoc &d = I->getDebugLoc()) {
    std::string file;
    if (auto *sc = dyn_cast_or_null<DIScope>(d.getScope())) file = sc->getFilename().str();
    size_t p = file.rfind('/'); if (p != std::string::npos) file = file.substr(p + 1);
    s += "@" + file + ":" + std::to_string(d.getLine());
  }
  return s;
}
std::string Interp::where() {
  if (inAsm) return whereAsm;
  std::string s = curI ? locOf(curI) : "";
  return s;
}
static int widthOf(Type *t) { return t->isIntegerTy() ? (int)t->getIntegerBitWidth() : 64; }

struct Frame {
  Function *F;
  std::unordered_map<const Value *, int> *idx;
  std::vector<Val> ssa;
};
struct FnInfo {
  std::unordered_map<const Value *, int> idx;
  std::unordered_map<const BasicBlock *, const BasicBlock *> ipdom; // null = exit
  std::shared_ptr<DominatorTree> dt; std::shared_ptr<LoopInfo> li;
  Loop *loopOf(const BasicBlock *b) { if (!li) { dt = std::make_shared<DominatorTree>(*const_cast<Function *>(b->getParent())); li = std::make_shared<LoopInfo>(*dt); } return li->getLoopFor(b); }
};
static std::unordered_map<const Function *, FnInfo> fnInfo;

static FnInfo &info(Function *F) {
  auto it = fnInfo.find(F);
  if (it != fnInfo.end()) return it->second;
  FnInfo &fi = fnInfo[F];
  int n = 0;
  for (auto &a : F->args()) fi.idx[&a] = n++;
  for (auto &b : *F) for (auto &i : b) fi.idx[&i] = n++;
  // immediate post-dominators over the blocks that can reach a return
  std::vector<BasicBlock *> bs; std::unordered_map<const BasicBlock *, int> bi;
  for (auto &b : *F) { bi[&b] = bs.size(); bs.push_back(&b); }
  int N = bs.size(), EXIT = N;
  std::vector<std::vector<int>> succ(N + 1);
  std::vector<char> live(N + 1, 0); live[EXIT] = 1;
  for (int i = 0; i < N; i++) {
    Instruction *t = bs[i]->getTerminator();
    if (isa<ReturnInst>(t)) succ[i].push_back(EXIT);
    for (unsigned s = 0; s < t->getNumSuccessors(); s++) succ[i].push_back(bi[t->getSuccessor(s)]);
  }
  for (bool ch = true; ch;) { ch = false; for (int i = 0; i < N; i++) if (!live[i]) for (int s : succ[i]) if (live[s]) { live[i] = 1; ch = true; break; } }
  std::vector<std::vector<char>> pd(N + 1, std::vector<char>(N + 1, 1));
  for (int j = 0; j <= N; j++) pd[EXIT][j] = (j == EXIT);
  for (bool ch = true; ch;) {
    ch = false;
    for (int i = N - 1; i >= 0; i--) {
      if (!live[i]) continue;
      std::vector<char> nw(N + 1, 1); bool any = false;
      for (int s : succ[i]) if (live[s]) { any = true; for (int j = 0; j <= N; j++) nw[j] &= pd[s][j]; }
      if (!any) continue;
      nw[i] = 1;
      if (nw != pd[i]) { pd[i] = nw; ch = true; }
    }
  }
  for (int i = 0; i < N; i++) {
    if (!live[i]) { fi.ipdom[bs[i]] = nullptr; continue; }
    // the strict post-dominator with the largest post-dominator set
    int best = -1, bc = -1;
    for (int j = 0; j <= N; j++) if (j != i && pd[i][j]) { int c = 0; for (int k = 0; k <= N; k++) c += pd[j][k]; if (c > bc) { bc = c; best = j; } }
    fi.ipdom[bs[i]] = (best < 0 || best == EXIT) ? nullptr : bs[best];
  }
  return fi;
}

void Interp::initGlobal(int obj, int64_t off, const Constant *c) {
  const DataLayout &DL = mod->getDataLayout();
  Type *T = c->getType();
  if (isa<UndefValue>(c)) return;
  if (isa<ConstantAggregateZero>(c) || (isa<ConstantInt>(c) && false)) {
    if (auto *at = dyn_cast<ArrayType>(T)) { int64_t es = DL.getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) initGlobal(obj, off + i * es, Constant::getNullValue(at->getElementType())); return; }
    if (auto *st = dyn_cast<StructType>(T)) { auto *sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(obj, off + sl->getElementOffset(i), Constant::getNullValue(st->getElementType(i))); return; }
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    int es = cd->getElementByteSize();
    for (unsigned i = 0; i < cd->getNumElements(); i++) M->write(obj, off + (int64_t)i * es, es, cInt(cd->getElementAsAPInt(i).getSExtValue(), es * 8));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { int64_t es = DL.getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(obj, off + i * es, ca->getOperand(i)); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL.getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(obj, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  Val v = constVal(c);
  M->write(obj, off, DL.getTypeStoreSize(T), v);
}
// May the module write the object v points to? An address that leaves the module counts only for objects without contents of their own.
static bool mayWrite(const Value *v, bool scratch, std::set<const Value *> &seen) {
  if (!seen.insert(v).second) return false;
  for (auto *u : v->users()) {
    if (isa<LoadInst>(u) || isa<ICmpInst>(u)) continue;
    if (auto *st = dyn_cast<StoreInst>(u)) { if (st->getPointerOperand() == v || scratch) return true; continue; }
    if (auto *cb = dyn_cast<CallBase>(u)) {
      for (unsigned i = 0; i < cb->arg_size(); i++) {
        if (cb->getArgOperand(i) != v) continue;
        const Function *f = cb->getCalledFunction();
        if (auto *mi = dyn_cast<MemIntrinsic>(cb)) { if (mi->getRawDest() == v) return true; continue; }
        if (f && !f->isDeclaration() && i < f->arg_size()) { if (mayWrite(f->getArg(i), scratch, seen)) return true; continue; }
        if (scratch) return true;
      }
      continue;
    }
    if (isa<GetElementPtrInst>(u) || isa<PHINode>(u) || isa<SelectInst>(u) || isa<CastInst>(u) || isa<ConstantExpr>(u)) { if (mayWrite(u, scratch, seen)) return true; continue; }
    if (scratch) return true;
  }
  return false;
}
// contents left by earlier calls: any value
static void anyContents(Mem *M, const DataLayout &DL, int obj, int64_t off, Type *T) {
  if (auto *at = dyn_cast<ArrayType>(T)) { for (uint64_t i = 0; i < at->getNumElements(); i++) anyContents(M, DL, obj, off + (int64_t)(i * DL.getTypeAllocSize(at->getElementType())), at->getElementType()); }
  else if (auto *st = dyn_cast<StructType>(T)) { for (unsigned i = 0; i < st->getNumElements(); i++) anyContents(M, DL, obj, off + (int64_t)(uint64_t)DL.getStructLayout(st)->getElementOffset(i), st->getElementType(i)); }
  else if (T->isIntegerTy() && T->getIntegerBitWidth() <= 64) { int w = T->getIntegerBitWidth(); int sw = 8 * (int)DL.getTypeStoreSize(T); Itv r = w < 8 ? urange(w) : srange(w); M->write(obj, off, sw / 8, mkInt(C->opaque(r, "static"), r, sw)); }
}
int Interp::globalObj(const GlobalVariable *g) {
  auto it = globals.find(g);
  if (it != globals.end()) return it->second;
  const DataLayout &DL = mod->getDataLayout();
  int64_t size = DL.getTypeAllocSize(g->getValueType());
  int o = M->newObj(g->getName().str(), size);
  globals[g] = o;
  auto *sl = M->log; M->log = nullptr;
  std::set<const Value *> seen;
  if (statics && g->hasInitializer() && !g->isConstant() && mayWrite(g, g->getInitializer()->isNullValue(), seen)) anyContents(M, DL, o, 0, g->getValueType());
  else if (g->hasInitializer()) initGlobal(o, 0, g->getInitializer());
  else { // external (stderr, stdout, ...)
    int s = M->newObj("ext:" + g->getName().str(), 1);
    if (size == 8) M->write(o, 0, 8, mkPtr(s, 0));
  }
  M->log = sl;
  M->objs[o].ro = g->isConstant();
  M->objs[o].lib = true; M->objs[o].global = true;
  M->objs[o].wr = M->objs[o].rd = false;
  return o;
}
Val Interp::constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getValue().getSignificantBits() > 64) { const APInt &v = ci->getValue(); if (v.getBitWidth() > 128) throw Fatal("wide constant"); APInt x = v.sextOrTrunc(128); return cInt((i128)((((unsigned __int128)x.extractBitsAsZExtValue(64, 64)) << 64) | x.extractBitsAsZExtValue(64, 0)), ci->getBitWidth()); } return cInt((i128)ci->getSExtValue(), ci->getBitWidth()); }
  if (isa<ConstantPointerNull>(c)) return mkPtr(-1, 0);
  if (isa<UndefValue>(c)) { Val v; v.w = widthOf(c->getType()); return v; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) return mkPtr(globalObj(g), 0);
  if (auto *f = dyn_cast<Function>(c)) { Val v; v.kind = V_FN; v.fn = (void *)f; return v; }
  if (auto *ge = dyn_cast<GEPOperator>(c)) {
    Val b = constVal(cast<Constant>(ge->getPointerOperand()));
    APInt off(64, 0);
    if (!ge->accumulateConstantOffset(mod->getDataLayout(), off)) throw Fatal("constant gep");
    b.f.k += off.getSExtValue(); b.iv = {b.f.k, b.f.k};
    return b;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::BitCast) return constVal(ce->getOperand(0));
  }
  if (c->isNullValue() && c->getType()->isIntegerTy()) return cInt(0, widthOf(c->getType()));
  throw Fatal("unsupported constant");
}
std::string Interp::cstring(const Val &p) {
  std::string s;
  if (p.kind != V_PTR || p.obj < 0 || !p.f.isConst()) return s;
  Obj &o = M->objs[p.obj];
  for (int64_t i = (int64_t)p.f.k; i < o.size; i++) {
    if (o.sz[i] != 1 || !o.at[i]->isConst()) return s + "<?>";
    int ch = (int)(o.at[i]->f.k & 255);
    if (!ch) break;
    s += (char)ch;
  }
  return s;
}

enum St { S_REACHED, S_RET, S_DEAD };
struct Reach { BasicBlock *prev = nullptr; bool phisDone = false; };

struct Runner {
  Interp &ip; Frame &fr; FnInfo &fi;
  Val ret;
  Val get(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return ip.constVal(c);
    auto it = fi.idx.find(v);
    if (it == fi.idx.end()) throw Fatal("unknown value");
    return fr.ssa[it->second];
  }
  void set(const Value *v, const Val &x) { fr.ssa[fi.idx[v]] = x; }
  void arithAlarm(const Instruction &I, const char *what) {
    M->alarm("overflow", std::string("signed overflow possible in ") + what);
  }
  St run(BasicBlock *cur, BasicBlock *prev, const BasicBlock *stop, Reach &re, bool phisDone = false);
  bool loopHead(BasicBlock *h, bool back, const std::vector<std::pair<PHINode *, Val>> &in);
  Val exec(Instruction &I, bool &dead);
};

static void revertLog(std::vector<UndoRec> &log, size_t from, std::vector<UndoRec> *redo) {
  // redo receives the final values of the changed cells
  if (redo) {
    std::set<std::pair<int, int64_t>> seen;
    for (size_t i = from; i < log.size(); i++) {
      if (log[i].what == 0) {
        if (!seen.insert({log[i].obj, log[i].off}).second) continue;
        Obj &o = M->objs[log[i].obj];
        redo->push_back({log[i].obj, log[i].off, o.sz[log[i].off], o.at[log[i].off], 0});
      } else redo->push_back({log[i].obj, 0, (uint8_t)M->objs[log[i].obj].freed, nullptr, 1});
    }
  }
  for (size_t i = log.size(); i > from; i--) {
    UndoRec &r = log[i - 1];
    Obj &o = M->objs[r.obj];
    if (r.what == 0) { o.sz[r.off] = r.sz; o.at[r.off] = r.v; }
    else o.freed = r.sz;
  }
  log.resize(from);
}

static bool writesMemory(const Function *F, std::set<const Function *> &seen) {
  if (!seen.insert(F).second) return false;
  if (F->isDeclaration()) return !F->getName().starts_with("llvm.dbg") && !F->getName().starts_with("llvm.lifetime");
  for (auto &b : *F) for (auto &i : b) {
    if (isa<StoreInst>(i)) return true;
    if (auto *cb = dyn_cast<CallBase>(&i)) { auto *G = cb->getCalledFunction(); if (!G || writesMemory(G, seen)) return true; }
  }
  return false;
}
static Form redForm(const Form &x) { Itv iv = C->bound(x); Form q = C->floorDiv(x, iv, 4096); return C->canon(fadd(fscale(x, 3), q, -12289)); }
// On entry: forget the loop variables and assume the invariants that hold initially.  On a back edge: keep those that are inductive;
// the path ends there (its continuation is covered by the assumption).  Returns false when the path ends.
bool Runner::loopHead(BasicBlock *h, bool back, const std::vector<std::pair<PHINode *, Val>> &in) {
  LoopInv::L &L = ip.inv.loops[h];
  std::vector<PHINode *> ph; std::vector<Form> v; std::vector<Itv> vi;
  // flags: two-valued loop variables keep their initial value in the summary; iterations that change them are followed
  bool leave = false;
  if (!back) { for (auto &p : in) if (p.second.kind == V_INT && p.second.isConst() && (p.second.f.k == 0 || p.second.f.k == 1) && widthOf(p.first->getType()) <= 32 && !(L.flag.count(p.first) && L.flag[p.first] < 0)) L.flag[p.first] = (int)(i128)p.second.f.k; }
  else for (auto &p : in) {
    auto it = L.flag.find(p.first); if (it == L.flag.end() || it->second < 0) continue;
    Itv vi; Form fv = p.second.kind == V_INT ? toSigned(p.second, &vi) : Form((i128)0); vi = meet(vi, C->bound(fv));
    if (p.second.kind != V_INT || vi.lo < 0 || vi.hi > 1) { it->second = -1; ip.inv.changed = true; throw LoopRestart(); }
    if (vi.lo == vi.hi) { if (vi.lo != it->second) leave = true; continue; }
    // both values possible: the continuation with the flag changed after the summary of the others
    Env e0 = C->env; i128 keepv = it->second;
    if (C->addCons(C->env, fv, {keepv, keepv})) { std::vector<std::pair<PHINode *, Val>> in2 = in; for (auto &q : in2) if (q.first == p.first) q.second = cInt(keepv, widthOf(p.first->getType())); loopHead(h, true, in2); }
    C->env = e0;
    if (!C->addCons(C->env, fv, {1 - keepv, 1 - keepv})) return false;
    set(p.first, cInt(1 - keepv, widthOf(p.first->getType())));
    return true;
  }
  if (leave) return true;
  for (auto &p : in) if (p.second.kind == V_INT && !(L.flag.count(p.first) && L.flag[p.first] >= 0)) { ph.push_back(p.first); Itv i; v.push_back(toSigned(p.second, &i)); vi.push_back(i); }
  size_t k = ph.size();
  if (!back) {
    std::set<const Function *> seen;
    for (auto *b : fi.loopOf(h)->blocks()) for (auto &i : *b) {
      if (isa<StoreInst>(i)) throw Fatal("store in a loop bounded by data");
      if (auto *cb = dyn_cast<CallBase>(&i)) { auto *G = cb->getCalledFunction(); if (!G || (!G->getName().starts_with("llvm.dbg") && writesMemory(G, seen))) throw Fatal("call with effects in a loop bounded by data"); }
    }
    if (L.old.empty()) { L.inc.assign(k, 1); L.dec.assign(k, 1); }
    L.init = v;
  }
  // the templates, as claims "form >= 0" over the values of the loop variables
  auto claims = [&](const std::vector<Form> &x, std::vector<Form> &out) {
    auto ge = [&](const Form &f) { out.push_back(C->canon(f)); };
    for (size_t i = 0; i < k; i++) {
      for (auto &A : ip.inv.anchors) { ge(fadd(x[i], A, -1)); ge(fadd(A, x[i], -1)); }
    }
    for (size_t i = 0; i < k; i++) { ge(fadd(x[i], L.init[i], -1)); ge(fadd(L.init[i], x[i], -1)); }
    for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) {
      if (i == j) continue;
      // blocks of equal quotient: those before (after) the block of x are settled
      if (ip.inv.hasBlock) for (auto W : ip.inv.scales) for (int below = 0; below < 2; below++) {
        Form wx = C->canon(fscale(x[i], W)), q = C->floorDiv(wx, C->bound(wx), 4096), d = below ? fadd(q, ip.inv.block, -1) : fadd(ip.inv.block, q, -1); d.k -= 1;
        Form s = C->ge0(C->canon(d), C->bound(d)), e = fadd(x[j], ip.inv.ghosts[0].second, -1);
        if (ip.inv.dir >= 0) ge(C->ite(s, e, Form((i128)0)));
        if (ip.inv.dir <= 0) ge(C->ite(s, fscale(e, -1), Form((i128)0)));
      }
      for (auto W : ip.inv.scales) { Form e = fadd(redForm(fscale(x[i], W)), x[j], -1); ge(e); ge(fscale(e, -1)); }
      for (auto &g : ip.inv.ghosts) for (int below = 0; below < 2; below++) for (int strict = 0; strict < 2; strict++) {
        Form d = below ? fadd(x[i], g.first, -1) : fadd(g.first, x[i], -1); d.k -= strict; // z < x (z <= x), or z > x (z >= x)
        Form s = C->ge0(d, C->bound(d));
        Form e = fadd(x[j], g.second, -1);
        if (ip.inv.dir >= 0) ge(C->ite(s, e, Form((i128)0)));
        if (ip.inv.dir <= 0) ge(C->ite(s, fscale(e, -1), Form((i128)0)));
      }
    }
  };
  std::vector<Form> cl; claims(v, cl);
  if (L.dead.size() != cl.size()) { L.dead.assign(cl.size(), 0); L.n = cl.size(); }
  for (size_t i = 0; i < cl.size(); i++) {
    if (L.dead[i]) continue;
    ip.inv.claims++;
    if (!polyEntails(cl[i], C->env, 30)) { L.dead[i] = 1; if (back) ip.inv.changed = true; if (getenv("INVDBG")) fprintf(stderr, "%s drop %zu %s\n", back ? "back" : "init", i, C->show(cl[i]).c_str()); }
  }
  if (back) {
    L.backs++;
    for (size_t i = 0; i < k && i < L.old.size(); i++) {
      Form d = fadd(v[i], L.old[i], -1); d.k -= 1;
      if (L.inc[i] && !polyEntails(d, C->env, 30)) L.inc[i] = 0;
      d = fadd(L.old[i], v[i], -1); d.k -= 1;
      if (L.dec[i] && !polyEntails(d, C->env, 30)) L.dec[i] = 0;
    }
    return false;
  }
  std::vector<Form> f; L.old.clear();
  for (size_t i = 0; i < k; i++) { Itv r = srange(widthOf(ph[i]->getType())); f.push_back(C->opaque(r, "loop")); }
  // constant bounds first: those of the quantities the variables are compared with
  size_t c = 0;
  for (size_t i = 0; i < k; i++) for (auto &A : ip.inv.anchors) {
    Itv b = C->bound(A);
    if (!L.dead[c++]) C->addCons(C->env, f[i], {b.lo, BIG});
    if (!L.dead[c++]) C->addCons(C->env, f[i], {-BIG, b.hi});
  }
  std::vector<Form> cf; claims(f, cf);
  bool ok = true;
  for (size_t i = 0; i < cf.size(); i++) if (!L.dead[i]) ok &= C->addCons(C->env, cf[i], {0, BIG});
  for (size_t i = 0; i < k; i++) set(ph[i], mkInt(f[i], C->bound(f[i]), widthOf(ph[i]->getType())));
  for (auto &p : in) if (L.flag.count(p.first) && L.flag[p.first] >= 0) set(p.first, cInt(L.flag[p.first], widthOf(p.first->getType())));
  for (auto &p : in) if (p.second.kind != V_INT) { if (p.second.kind != V_UNDEF) throw Fatal("pointer carried by a loop bounded by data"); set(p.first, p.second); }
  L.old = f;
  return ok;
}

St Runner::run(BasicBlock *cur, BasicBlock *prev, const BasicBlock *stop, Reach &re, bool phisDone) {
  for (;;) {
    if (cur == stop) { re.prev = prev; re.phisDone = phisDone; return S_REACHED; }
    if (!phisDone) {
      std::vector<std::pair<PHINode *, Val>> pv;
      for (auto &ph : cur->phis()) pv.push_back({&ph, get(ph.getIncomingValueForBlock(prev))});
      for (auto &p : pv) set(p.first, p.second);
    }
    phisDone = false;
    if (ip.inv.active && ip.inv.loops.count(cur)) {
      std::vector<std::pair<PHINode *, Val>> in;
      for (auto &ph : cur->phis()) in.push_back({&ph, get(&ph)});
      if (!loopHead(cur, fi.loopOf(cur)->contains(prev), in)) return S_DEAD;
    }
    BasicBlock *next = nullptr;
    for (auto &I : *cur) {
      if (isa<PHINode>(I)) continue;
      if (++M->steps > M->stepLimit) { ip.curI = &I; M->alarm("nonterm", "step limit reached: the loop may not terminate"); throw Fatal("step limit"); }
      ip.curI = &I;
      if (auto *br = dyn_cast<BranchInst>(&I)) {
        if (br->isUnconditional()) { next = br->getSuccessor(0); break; }
        Val c = get(br->getCondition());
        if (c.kind == V_UNDEF) { M->alarm("uninit", "branch on an undefined value"); throw Fatal("branch on undefined value"); }
        if (c.isConst()) { next = br->getSuccessor(c.f.k ? 0 : 1); break; }
        // data-dependent branch: analyse both sides up to the post-dominator, then join
        ip.nSymBranches++;
        if (ip.inv.active) if (Loop *lp = fi.loopOf(cur)) {
          bool exits = false; for (auto *s : successors(cur)) exits |= !lp->contains(s);
          if (exits && !ip.inv.loops.count(lp->getHeader())) { ip.inv.loops[lp->getHeader()]; throw LoopRestart(); }
        }
        if (++ip.symDepth > 200) { M->alarm("nonterm", "data-dependent loop not bounded by the analysis"); throw Fatal("data-dependent loop"); }
        const BasicBlock *P = fi.ipdom[cur];
        std::vector<UndoRec> mylog; std::vector<UndoRec> *outer = M->log;
        std::vector<Val> ssa0 = fr.ssa; Env env0 = C->env;
        St st[2]; Reach rr[2]; std::vector<Val> ssa[2]; std::vector<UndoRec> redo[2]; Env envs[2]; Val rets[2];
        const int nobj0 = (int)M->objs.size();
        size_t nOut = ip.out.size(); std::vector<OutRec> outs[2];
        for (int a = 0; a < 2; a++) {
          C->env = env0; fr.ssa = ssa0;
          M->log = &mylog;
          i128 want = a == 0 ? 1 : 0;
          if (!C->addCons(C->env, c.f, {want, want})) st[a] = S_DEAD;
          else st[a] = run(br->getSuccessor(a), cur, P, rr[a]);
          envs[a] = C->env; ssa[a] = fr.ssa; rets[a] = ret;
          outs[a].assign(ip.out.begin() + std::min(nOut, ip.out.size()), ip.out.end()); ip.out.resize(std::min(nOut, ip.out.size()));
          revertLog(mylog, 0, &redo[a]);
        }
        M->log = outer; ip.symDepth--;
        auto apply = [&](std::vector<UndoRec> &rd) {
          for (auto &r : rd) { if (r.what == 0) M->setCell(r.obj, r.off, r.sz, r.v); else { if (M->log) M->log->push_back({r.obj, 0, (uint8_t)M->objs[r.obj].freed, nullptr, 1}); M->objs[r.obj].freed = r.sz; } }
        };
        if (st[0] == S_DEAD && st[1] == S_DEAD) return S_DEAD;
        if (st[0] == S_DEAD || st[1] == S_DEAD) {
          int a = st[0] == S_DEAD ? 1 : 0;
          apply(redo[a]); fr.ssa = ssa[a]; C->env = envs[a];
          ip.out.insert(ip.out.end(), outs[a].begin(), outs[a].end());
          if (st[a] == S_RET) { ret = rets[a]; return S_RET; }
          cur = const_cast<BasicBlock *>(P); prev = rr[a].prev; phisDone = rr[a].phisDone;
          next = nullptr; goto again;
        }
        C->env = env0;
        // what one side has learnt beyond the branch condition (a path of it ended in exit) holds whenever that side was taken
        for (int a = 0; a < 2; a++) {
          Env base = env0; C->addCons(base, c.f, {a == 0, a == 0});
          auto keep = [&](const Form &f, Itv iv) {
            if (f.t.empty()) return;
            i128 k = iv.lo > -BIG ? iv.lo : iv.hi; Form kf(k);
            Form g = a == 0 ? C->ite(c.f, f, kf) : C->ite(c.f, kf, f);
            C->addCons(C->env, g, iv);
          };
          for (auto &o : envs[a].over) {
            bool same = false;
            for (auto &b : base.over) if (b.first == o.first && b.second.lo == o.second.lo && b.second.hi == o.second.hi) same = true;
            if (!same) keep(C->atomForm(o.first), o.second);
          }
          for (auto &o : envs[a].cons) {
            bool same = false;
            for (auto &b : base.cons) if (b.first == o.first && b.second.lo == o.second.lo && b.second.hi == o.second.hi) same = true;
            if (!same) keep(o.first, o.second);
          }
        }
        for (int a = 0; a < 2; a++) ip.out.insert(ip.out.end(), outs[a].begin(), outs[a].end());
        {
          // join memory
          std::map<std::pair<int, int64_t>, std::pair<UndoRec *, UndoRec *>> m;
          for (auto &r : redo[0]) if (r.what == 0) m[{r.obj, r.off}].first = &r;
          for (auto &r : redo[1]) if (r.what == 0) m[{r.obj, r.off}].second = &r;
          for (auto &e : m) {
            Obj &o = M->objs[e.first.first]; int64_t off = e.first.second;
            uint8_t s0 = e.second.first ? e.second.first->sz : o.sz[off], s1 = e.second.second ? e.second.second->sz : o.sz[off];
            std::shared_ptr<const Val> v0 = e.second.first ? e.second.first->v : o.at[off], v1 = e.second.second ? e.second.second->v : o.at[off];
            if (s0 != s1) {
              if ((s0 == 0 || s1 == 0) && e.first.first >= nobj0) { M->setCell(e.first.first, off, s0 ? s0 : s1, s0 ? v0 : v1); continue; } // object allocated on that side
              if (s0 == 0 || s1 == 0) { // written on one side only and undefined on the other
                uint8_t s = s0 ? s0 : s1; Val u; u.w = s * 8;
                M->setCell(e.first.first, off, s, std::make_shared<Val>(u));
                continue;
              }
              throw Fatal("join of memory with different layouts");
            }
            if (s0 == 0) { M->setCell(e.first.first, off, 0, nullptr); continue; }
            if (v0 == v1) { M->setCell(e.first.first, off, s0, v0); continue; }
            M->setCell(e.first.first, off, s0, std::make_shared<Val>(vIte(c.f, *v0, *v1)));
          }
          std::map<int, int> fr0, fr1;
          for (auto &r : redo[0]) if (r.what == 1) fr0[r.obj] = r.sz;
          for (auto &r : redo[1]) if (r.what == 1) fr1[r.obj] = r.sz;
          for (auto &x : fr0) { if (!fr1.count(x.first) && x.first < nobj0) M->alarm("leak", "object " + M->objs[x.first].name + " released on one branch only"); M->objs[x.first].freed = true; }
          for (auto &x : fr1) { if (!fr0.count(x.first) && x.first < nobj0) M->alarm("leak", "object " + M->objs[x.first].name + " released on one branch only"); M->objs[x.first].freed = true; }
        }
        if (st[0] == S_RET && st[1] == S_RET) {
          if (fr.F->getReturnType()->isVoidTy()) return S_RET;
          ret = vIte(c.f, rets[0], rets[1]);
          return S_RET;
        }
        if (st[0] != st[1]) throw Fatal("irregular control flow");
        {
          std::vector<std::pair<PHINode *, Val>> pv;
          for (auto &ph : const_cast<BasicBlock *>(P)->phis()) {
            Val v[2];
            for (int a = 0; a < 2; a++) {
              fr.ssa = ssa[a];
              v[a] = rr[a].phisDone ? get(&ph) : get(ph.getIncomingValueForBlock(rr[a].prev));
            }
            pv.push_back({&ph, vIte(c.f, v[0], v[1])});
          }
          fr.ssa = ssa[0];
          for (size_t i = 0; i < fr.ssa.size(); i++) {
            const Val &x = ssa[0][i], &y = ssa[1][i];
            if (x.kind == y.kind && x.f == y.f && x.obj == y.obj && x.fn == y.fn) { if (x.kind == V_INT) fr.ssa[i].iv = hull(x.iv, y.iv); continue; }
            if (x.kind == V_UNDEF) { fr.ssa[i] = x; continue; }
            if (y.kind == V_UNDEF) { fr.ssa[i] = y; continue; }
            if (x.kind == V_PTR && (y.kind != V_PTR || x.obj != y.obj)) { Val u; u.w = 64; fr.ssa[i] = u; continue; }
            fr.ssa[i] = vIte(c.f, x, y);
          }
          for (auto &p : pv) set(p.first, p.second);
        }
        prev = rr[0].prev; cur = const_cast<BasicBlock *>(P); phisDone = true;
        goto again;
      }
      if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        Val c = get(sw->getCondition());
        if (!c.isConst()) throw Fatal("switch on data");
        Val u = c; next = sw->getDefaultDest();
        for (auto &cs : sw->cases()) if (cInt(cs.getCaseValue()->getSExtValue(), c.w).f.k == u.f.k) next = cs.getCaseSuccessor();
        break;
      }
      if (auto *r = dyn_cast<ReturnInst>(&I)) { if (r->getReturnValue()) ret = get(r->getReturnValue()); return S_RET; }
      if (isa<UnreachableInst>(I)) return S_DEAD;
      bool dead = false;
      Val v = exec(I, dead);
      if (dead) return S_DEAD;
      if (!I.getType()->isVoidTy()) set(&I, v);
    }
    prev = cur; cur = next;
    continue;
  again:;
  }
}

Val Runner::exec(Instruction &I, bool &dead) {
  const DataLayout &DL = ip.mod->getDataLayout();
  if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
    Val a = get(bo->getOperand(0)), b = get(bo->getOperand(1));
    int w = widthOf(I.getType());
    bool nsw = false, o = false;
    if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) nsw = ob->hasNoSignedWrap();
    // pointer arithmetic through integers is not supported
    Val r;
    auto shamt = [&](bool &bad) -> int {
      bad = false;
      Itv ib; Form fb = toUnsigned(b, &ib);
      if (!fb.isConst()) { bad = true; return 0; }
      if (fb.k >= w) { M->alarm("shift", "shift amount " + str128(fb.k) + " not below the width " + std::to_string(w)); return w; }
      return (int)fb.k;
    };
    switch (bo->getOpcode()) {
    case Instruction::Add: r = vAdd(a, b, w, nsw ? &o : nullptr); if (o) arithAlarm(I, "addition"); return r;
    case Instruction::Sub: r = vSub(a, b, w, nsw ? &o : nullptr); if (o) arithAlarm(I, "subtraction"); return r;
    case Instruction::Mul: r = vMul(a, b, w, nsw ? &o : nullptr); if (o) arithAlarm(I, "multiplication"); return r;
    case Instruction::And: return vAnd(a, b, w);
    case Instruction::Or: return vOr(a, b, w);
    case Instruction::Xor: return vXor(a, b, w);
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      if (a.kind == V_UNDEF || b.kind == V_UNDEF) { Val u; u.w = w; return u; }
      bool bad; int k = shamt(bad);
      if (bad) {
        Itv ib; toUnsigned(b, &ib);
        if (ib.hi >= w) M->alarm("shift", "shift amount may reach the width");
        if (ib.hi - ib.lo <= 70 && ib.hi < w) {
          std::vector<std::pair<i128, Form>> alts; Itv u = {BIG, -BIG};
          for (i128 v = ib.lo; v <= ib.hi; v++) {
            Val t = bo->getOpcode() == Instruction::Shl ? vShl(a, (int)v, w) : bo->getOpcode() == Instruction::LShr ? vLshr(a, (int)v, w) : vAshr(a, (int)v, w);
            Itv ti; Form tf = toSigned(t, &ti); alts.push_back({v, tf}); u = hull(u, ti);
          }
          Form f = C->makeCase(b.f, alts);
          return wrapTo(f, meet(u, C->bound(f)), w);
        }
        return mkInt(C->opaque(srange(w), "shift"), srange(w), w);
      }
      if (bo->getOpcode() == Instruction::Shl) { r = vShl(a, k, w, nsw ? &o : nullptr); if (o) arithAlarm(I, "left shift"); return r; }
      if (bo->getOpcode() == Instruction::LShr) return vLshr(a, k, w);
      return vAshr(a, k, w);
    }
    case Instruction::SDiv: return vDivRem(a, b, w, true, false);
    case Instruction::UDiv: return vDivRem(a, b, w, false, false);
    case Instruction::SRem: return vDivRem(a, b, w, true, true);
    case Instruction::URem: return vDivRem(a, b, w, false, true);
    default: throw Fatal("unsupported operator " + std::string(I.getOpcodeName()));
    }
  }
  switch (I.getOpcode()) {
  case Instruction::SExt: return vSext(get(I.getOperand(0)), widthOf(I.getType()));
  case Instruction::ZExt: return vZext(get(I.getOperand(0)), widthOf(I.getType()));
  case Instruction::Trunc: return vTrunc(get(I.getOperand(0)), widthOf(I.getType()));
  case Instruction::BitCast: case Instruction::Freeze: return get(I.getOperand(0));
  case Instruction::PtrToInt: { Val p = get(I.getOperand(0)); return p; }
  case Instruction::IntToPtr: return get(I.getOperand(0));
  case Instruction::ICmp: return vCmp(cast<ICmpInst>(I).getPredicate(), get(I.getOperand(0)), get(I.getOperand(1)));
  case Instruction::Select: {
    Val c = get(I.getOperand(0));
    if (c.kind == V_UNDEF) { M->alarm("uninit", "select on an undefined value"); Val u; u.w = widthOf(I.getType()); return u; }
    return vIte(c.f, get(I.getOperand(1)), get(I.getOperand(2)));
  }
  case Instruction::Alloca: {
    auto &A = cast<AllocaInst>(I);
    Val n = get(A.getArraySize());
    if (!n.isConst()) throw Fatal("alloca of symbolic size");
    int64_t size = (int64_t)DL.getTypeAllocSize(A.getAllocatedType()) * (int64_t)n.f.k;
    int o = M->newObj(std::string("local:") + I.getName().str(), size);
    M->objs[o].stack = true; M->objs[o].lib = true;
    return mkPtr(o, 0);
  }
  case Instruction::Load: {
    Val p = get(I.getOperand(0)); int sz = DL.getTypeStoreSize(I.getType());
    Val v = M->load(p, sz);
    if (I.getType()->isPointerTy() && v.kind == V_INT && v.isConst() && v.f.k == 0) return mkPtr(-1, 0);
    if (I.getType()->isIntegerTy() && v.kind == V_INT && v.w != widthOf(I.getType())) v = widthOf(I.getType()) < v.w ? vTrunc(v, widthOf(I.getType())) : vZext(v, widthOf(I.getType()));
    return v;
  }
  case Instruction::Store: {
    Val v = get(I.getOperand(0)), p = get(I.getOperand(1)); int sz = DL.getTypeStoreSize(I.getOperand(0)->getType());
    if (v.kind == V_INT && v.w < sz * 8) v = vZext(v, sz * 8);
    M->store(p, sz, v);
    return Val();
  }
  case Instruction::GetElementPtr: {
    auto &G = cast<GetElementPtrInst>(I);
    Val p = get(G.getPointerOperand());
    if (p.kind != V_PTR) return p;
    Form off = p.f;
    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
      if (StructType *st = it.getStructTypeOrNull()) { off.k += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); continue; }
      int64_t es = DL.getTypeAllocSize(it.getIndexedType());
      Val ix = get(it.getOperand());
      if (ix.kind == V_UNDEF) { M->alarm("uninit", "undefined index"); return ix; }
      Itv ii; Form fx = toSigned(ix, &ii);
      off = fadd(off, fx, es);
    }
    p.f = off; p.iv = off.isConst() ? Itv{off.k, off.k} : C->bound(off);
    return p;
  }
  case Instruction::ExtractValue: {
    Val a = get(I.getOperand(0));
    auto &E = cast<ExtractValueInst>(I);
    if (a.kind == V_PTR && a.obj >= 0) { // aggregate kept in a scratch object: 16 bytes per field
      return M->read(a.obj, 16 * E.getIndices()[0], M->objs[a.obj].sz[16 * E.getIndices()[0]]);
    }
    throw Fatal("extractvalue");
  }
  case Instruction::Call: {
    auto &cb = cast<CallBase>(I);
    if (isa<DbgInfoIntrinsic>(I)) return Val();
    if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
      switch (II->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: return Val();
      case Intrinsic::memcpy: case Intrinsic::memmove: {
        Val d = get(cb.getArgOperand(0)), s = get(cb.getArgOperand(1)), n = get(cb.getArgOperand(2));
        if (!n.isConst()) throw Fatal("memcpy of symbolic size");
        int64_t a, b;
        if (n.f.k > 0 && M->check(s, (int64_t)n.f.k, false, b) && M->check(d, (int64_t)n.f.k, true, a)) M->copyBytes(d.obj, a, s.obj, b, (int64_t)n.f.k);
        return Val();
      }
      case Intrinsic::memset: {
        Val d = get(cb.getArgOperand(0)), c = get(cb.getArgOperand(1)), n = get(cb.getArgOperand(2));
        if (!n.isConst() || !c.isConst()) throw Fatal("memset of symbolic size");
        int64_t a;
        if (n.f.k > 0 && M->check(d, (int64_t)n.f.k, true, a)) {
          int64_t i = 0;
          i128 b = c.f.k & 255;
          for (; i + 4 <= n.f.k; i += 4) M->write(d.obj, a + i, 4, cInt(b * 0x01010101, 32));
          for (; i < n.f.k; i++) M->write(d.obj, a + i, 1, cInt(b, 8));
        }
        return Val();
      }
      case Intrinsic::abs: { Val x = get(cb.getArgOperand(0)); Itv iv; Form f = toSigned(x, &iv); Val z = vGe0(f, iv); return vIte(z.f, x, vSub(cInt(0, x.w), x, x.w)); }
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
        Val a = get(cb.getArgOperand(0)), b = get(cb.getArgOperand(1));
        bool s = II->getIntrinsicID() == Intrinsic::smax || II->getIntrinsicID() == Intrinsic::smin;
        bool mx = II->getIntrinsicID() == Intrinsic::smax || II->getIntrinsicID() == Intrinsic::umax;
        Val c = vCmp(s ? 39 : 35, a, b);
        return mx ? vIte(c.f, a, b) : vIte(c.f, b, a);
      }
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
        Val a = get(cb.getArgOperand(0)), b = get(cb.getArgOperand(1)); int w = a.w;
        auto id = II->getIntrinsicID();
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        Itv ia, ib; Form fa = sg ? toSigned(a, &ia) : toUnsigned(a, &ia), fb = sg ? toSigned(b, &ib) : toUnsigned(b, &ib);
        Form f; Itv iv;
        if (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) { f = fadd(fa, fb); iv = addItv(ia, ib); }
        else if (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) { f = fadd(fa, fb, -1); iv = addItv(ia, {-ib.hi, -ib.lo}); }
        else { f = C->mul(fa, ia, fb, ib); iv = mulItv(ia, ib); }
        f = C->canon(f); iv = meet(iv, C->bound(f));
        Itv R = sg ? srange(w) : urange(w);
        // overflow flag = not (f >= lo and f <= hi)
        Form g1 = f; g1.k -= R.lo; Form g2 = fscale(f, -1); g2.k += R.hi;
        Val lo = vGe0(g1, addItv(iv, {-R.lo, -R.lo})), hi = vGe0(g2, addItv({-iv.hi, -iv.lo}, {R.hi, R.hi}));
        Val ok = vAnd(lo, hi, 1); Val ov = vXor(ok, cInt(1, 1), 1);
        Val r;
        if (ov.isConst() && ov.f.k == 0) r = mkInt(f, meet(iv, R), w);
        else { // keep the exact form on the non-overflowing side: result is only meaningful there for typical uses
          r = wrapTo(f, iv, w);
          Val exact; exact.kind = V_INT; exact.w = w; exact.f = f; exact.iv = meet(iv, R);
          r = vIte(ov.f, r, exact);
        }
        int o = M->newObj("pair", 32); M->objs[o].lib = true; M->objs[o].stack = true;
        M->write(o, 0, w / 8, r); M->write(o, 16, 1, ov);
        return mkPtr(o, 0);
      }
      default: throw Fatal("unsupported intrinsic " + II->getCalledFunction()->getName().str());
      }
    }
    std::vector<Val> args;
    for (auto &a : cb.args()) args.push_back(get(a));
    Function *F = cb.getCalledFunction();
    if (!F) {
      Val fv = get(cb.getCalledOperand());
      if (fv.kind != V_FN) throw Fatal("indirect call through unknown pointer");
      F = (Function *)fv.fn;
    }
    const Instruction *save = ip.curI;
    ip.callstack.push_back(&I);
    CallRes r;
    std::string nm = F->getName().str();
    if (ip.contracts.count(nm)) r = ip.external("contract:" + nm, args, &cb);
    else if (ip.shadow && ip.shadowCall(nm, args, r)) {}
    else if (!F->isDeclaration()) r = ip.callFn(F, args);
    else if (ip.as && asmHas(ip.as, nm)) { r = asmCall(ip.as, nm, args); }
    else r = ip.external(nm, args, &cb);
    ip.callstack.pop_back();
    ip.curI = save;
    if (r.dead) dead = true;
    return r.ret;
  }
  default: break;
  }
  throw Fatal(std::string("unsupported instruction ") + I.getOpcodeName());
}

CallRes Interp::callFn(Function *F, const std::vector<Val> &args) {
  if (++depth > 60) throw Fatal("call depth");
  fnsSeen.insert(F->getName().str());
  FnInfo &fi = info(F);
  Frame fr; fr.F = F; fr.ssa.resize(fi.idx.size());
  int i = 0;
  for (auto &a : F->args()) { if (i < (int)args.size()) { Val v = args[i]; if (v.kind == V_INT && a.getType()->isIntegerTy() && v.w != widthOf(a.getType())) v = v.w > widthOf(a.getType()) ? vTrunc(v, widthOf(a.getType())) : vSext(v, widthOf(a.getType())); fr.ssa[fi.idx[&a]] = v; } i++; }
  Runner r{*this, fr, fi, Val()};
  Reach re;
  size_t objs0 = M->objs.size();
  St st = r.run(&F->getEntryBlock(), nullptr, nullptr, re);
  // locals die
  for (size_t o = objs0; o < M->objs.size(); o++) {
    Obj &ob = M->objs[o];
    if (ob.stack && !ob.heap && ob.name.compare(0, 6, "local:") == 0 && !ob.freed) { if (M->log) M->log->push_back({(int)o, 0, 0, nullptr, 1}); ob.freed = true; }
  }
  depth--;
  CallRes cr; cr.dead = st == S_DEAD; cr.ret = r.ret;
  return cr;
}
CallRes Interp::callByName(const std::string &fn, const std::vector<Val> &args) {
  if (mod) {
    Function *F = mod->getFunction(fn);
    if (F && !F->isDeclaration()) return callFn(F, args);
  }
  if (as && asmHas(as, fn)) return asmCall(as, fn, args);
  throw Fatal("no such function: " + fn);
}

void Interp::addFact(const std::vector<Form> &conds, const std::vector<Form> &claims) {
  for (auto &d : conds) { Form dc = C->canon(d); Itv b = C->bound(dc); if (b.lo >= 0) continue; if (b.hi < 0) return; if (!polyEntails(dc, C->env, 10)) { pending.push_back({conds, claims}); return; } }
  for (auto &e : claims) { ghostFacts++; C->addCons(C->env, C->canon(e), {0, BIG}); }
}
CallRes Interp::external(const std::string &name, const std::vector<Val> &args, const CallBase *cb) {
  CallRes r;
  int w = cb && cb->getType()->isIntegerTy() ? widthOf(cb->getType()) : 32;
  auto opq = [&](Itv iv, const char *n) { return mkInt(C->opaque(iv, n), iv, w); };
  if (name == "malloc" || name == "calloc") {
    Val n = args[0];
    if (name == "calloc") n = vMul(args[0], args[1], 64);
    if (!n.isConst()) throw Fatal("allocation of symbolic size");
    int o = M->newObj("heap:" + where(), (int64_t)n.f.k);
    M->objs[o].heap = true; M->objs[o].lib = true;
    if (name == "calloc") for (int64_t i = 0; i < n.f.k; i++) M->write(o, i, 1, cInt(0, 8));
    r.ret = mkPtr(o, 0); // allocation failure ends in exit(1) in this code base: see assumptions
    return r;
  }
  if (name == "free") {
    const Val &p = args[0];
    if (p.kind == V_PTR && p.obj < 0) return r;
    if (p.kind != V_PTR || !p.f.isConst() || p.f.k != 0 || !M->objs[p.obj].heap) { M->alarm("bad-free", "free of something that is not a heap object"); return r; }
    Obj &o = M->objs[p.obj];
    if (o.freed) M->alarm("double-free", "object released twice: " + o.name);
    if (o.ro) M->alarm("write-const", "constant object released: " + o.name);
    if (M->log) M->log->push_back({p.obj, 0, (uint8_t)o.freed, nullptr, 1});
    o.freed = true;
    return r;
  }
  if (name == "exit" || name == "abort" || name == "_exit" || name == "__assert_fail") {
    std::string code = args.empty() ? "" : args[0].isConst() ? str128(args[0].f.k) : "?";
    if (shadow || !polyInfeasible(C->env)) events.push_back(name + "(" + code + ")");
    r.dead = true; return r;
  }
  if (name == "printf" || name == "fprintf" || name == "puts" || name == "putchar" || name == "fputs" || name == "fputc" || name == "fputc" || name == "fwrite" || name == "fflush" || name == "fprintf" || name == "putc") {
    if (trackOut) {
      OutRec o; o.fn = name; o.stream = -1; o.may = M->log != nullptr;
      size_t i = 0;
      if (name == "fprintf") { if (args[0].kind == V_PTR) o.stream = args[0].obj; i = 1; }
      if (name == "printf") o.stream = -2;
      if (name == "fputs" || name == "fputc" || name == "putc") { if (args[1].kind == V_PTR) o.stream = args[1].obj; }
      if (name == "fputc" || name == "putc") { o.fmt = args[0].isConst() ? std::string(1, (char)args[0].f.k) : "<?>"; }
      else if (name == "fwrite") { o.stream = args[3].kind == V_PTR ? args[3].obj : -1; o.fmt = cstring(args[0]); if (args[1].isConst() && args[2].isConst()) o.fmt = o.fmt.substr(0, (size_t)(args[1].f.k * args[2].f.k)); else o.fmt = "<?>"; }
      else o.fmt = cstring(args[i]);
      for (size_t k = i + 1; k < args.size(); k++) { if (args[k].kind == V_UNDEF) M->alarm("uninit", "value written to a file is not defined"); o.args.push_back(args[k]); }
      if (name == "fprintf" || name == "printf" || name == "fputs" || name == "fputc" || name == "putc" || name == "fwrite") out.push_back(o);
    }
    r.ret = opq({-1, 2147483647}, name.c_str());
    return r;
  }
  if (name == "snprintf") {
    // formats with constant arguments only
    std::string fmt = cstring(args[2]); std::string s; size_t ai = 3; bool bad = false;
    for (size_t i = 0; i < fmt.size(); i++) {
      if (fmt[i] != '%') { s += fmt[i]; continue; }
      size_t j = i + 1; while (j < fmt.size() && !isalpha((unsigned char)fmt[j]) && fmt[j] != '%') j++;
      while (j < fmt.size() && (fmt[j] == 'l' || fmt[j] == 'h' || fmt[j] == 'z')) j++;
      if (fmt[j] == '%') s += '%';
      else if (fmt[j] == 's') s += cstring(args[ai++]);
      else if (fmt[j] == 'u' || fmt[j] == 'd') { Val v = args[ai++]; if (!v.isConst()) { bad = true; break; } s += str128(v.f.k); }
      else bad = true;
      i = j;
    }
    if (bad && openEnds && args[1].isConst()) { r.ret = opq({0, args[1].f.k - 1}, "snprintf"); return r; }
    if (bad || !args[1].isConst()) throw Fatal("snprintf with symbolic arguments");
    int64_t cap = (int64_t)args[1].f.k, off;
    int64_t n = std::min<int64_t>(cap - 1, s.size());
    if (cap > 0 && M->check(args[0], n + 1, true, off)) { for (int64_t i = 0; i < n; i++) M->write(args[0].obj, off + i, 1, cInt((signed char)s[i], 8)); M->write(args[0].obj, off + n, 1, cInt(0, 8)); }
    r.ret = cInt(s.size(), 32);
    return r;
  }
  if (name == "fopen") {
    std::string path = openEnds ? "..." : cstring(args[0]), mode = cstring(args[1]);
    // what the path to this point established about powers of the formal root: atoms with one value left and a known residue
    std::string facts;
    for (auto &o : C->env.over) if (o.second.lo == o.second.hi) { CongP c = C->congOf(C->atomForm(o.first)); if (c && c->v.empty() && c->k && mexp(c->k)) facts += " " + std::to_string(mcoef(c->k)) + "^" + std::to_string(mexp(c->k)) + "=" + str128(o.second.lo); }
    for (auto &o : C->env.cons) if (o.second.lo == o.second.hi) { CongP c = C->congOf(o.first); if (c && c->v.empty() && c->k && mexp(c->k)) facts += " " + std::to_string(mcoef(c->k)) + "^" + std::to_string(mexp(c->k)) + "=" + str128(o.second.lo); }
    events.push_back("fopen(" + path + "," + mode + ")" + facts);
    if (openEnds) { r.dead = true; return r; }
    int o = M->newObj("file:" + path, 1); M->objs[o].lib = true; M->objs[o].stack = true;
    r.ret = mkPtr(o, 0); return r;
  }
  if (name == "fclose") { if (args[0].kind == V_PTR && args[0].obj >= 0) events.push_back("fclose(" + M->objs[args[0].obj].name + ")"); r.ret = cInt(0, 32); return r; }
  if (name == "atol" || name == "atoi" || name == "strtol") {
    // argument strings carry their numeric value as a cell of the argument object
    if (args[0].kind == V_PTR && args[0].obj >= 0 && M->objs[args[0].obj].interval) {
      Val v = M->objs[args[0].obj].shadow;
      if (w == 32) v = vTrunc(v, 32);
      r.ret = v; return r;
    }
    r.ret = opq(srange(w), "atol"); return r;
  }
  if (name == "random" || name == "rand") { r.ret = opq({0, 2147483647}, "random"); return r; }
  if (name.compare(0, 9, "contract:") == 0) {
    std::string fn = name.substr(9), kind = contracts[fn];
    if (kind == "inverse" || kind == "inverse-ret") {
      // bool inverse(x, q, *inv) or inverse(x, q): contract used for table generators (x in 1..q-1, q = 12289)
      Val x = args[0].w == 64 ? args[0] : vZext(args[0], 64);
      if (args.size() > 1 && args[1].kind == V_INT && (!args[1].isConst() || args[1].f.k != QMOD)) throw Fatal("inverse with an unexpected modulus");
      Itv xb = C->bound(x.f);
      if (xb.lo < 0 || xb.hi >= QMOD) throw Fatal("inverse of a value outside 0..12288");
      CongP c = C->congOf(x.f);
      if (!c) throw Fatal("inverse of a value with unknown residue");
      // c must be a monomial k*X^e in a ring space, or a constant
      int64_t k; CongP ci;
      auto inv = [](int64_t a) { int64_t r = 1, e = QMOD - 2; a %= QMOD; while (e) { if (e & 1) r = r * a % QMOD; a = a * a % QMOD; e >>= 1; } return r; };
      if (!Ctx::cIsMono(c)) throw Fatal("inverse of a value whose residue is not a monomial");
      if (c->k == 0) { r.ret = cInt(0, w); return r; }
      auto m = std::make_shared<Cong>(); m->k = C->mk(inv(mcoef(c->k)), -mexp(c->k)); ci = m;
      Form f; Itv iv = {1, QMOD - 1};
      if (Ctx::cIsConst(ci, &k)) { f = Form(k); iv = {k, k}; }
      else f = C->input(iv, ci, "inv");
      if (kind == "inverse-ret") { r.ret = mkInt(f, iv, w); return r; }
      M->store(args.back(), 4, mkInt(f, iv, 32));
      r.ret = cInt(1, w);
      return r;
    }
    if (kind == "ct-step" || kind == "gs-step") {
      // bound on both outputs of a butterfly with weight w whose inputs are within b
      if (args.size() != 2 || args[0].kind != V_INT || args[1].kind != V_INT) throw Fatal("unexpected arguments of " + fn);
      bool gs = kind[0] == 'g'; Itv ib, iw; Form b = toSigned(args[0], &ib), w = toSigned(args[1], &iw);
      ib = meet(ib, C->bound(b)); iw = meet(iw, C->bound(w)); contractCalls++;
      if (ib.lo < 0 && !polyEntails(b, C->env, 30)) M->alarm("precondition", fn + " is not shown to be called with a bound >= 0");
      ib.lo = std::max<i128>(ib.lo, 0);
      Itv pr = mulItv({-2 * ib.hi, 2 * ib.hi}, iw); if (pr.hi > ((i128)1 << 62) || pr.lo < -((i128)1 << 62)) M->alarm("overflow", "product of the arguments of " + fn + " may exceed 62 bits");
      Itv ir = {0, 2 * ib.hi + 3 * 4095 + (std::max(pr.hi, -pr.lo) >> 12) + 1};
      Form R = C->opaque(ir, "bound");
      for (auto &g : ghosts) if (g.step) {
        Form dw = C->canon(fadd(g.w, w, -1)); if (!dw.isConst() || dw.k != 0) continue;
        std::vector<Form> claims;
        std::vector<Form> outs = gs ? std::vector<Form>{fadd(g.x, g.y), g.v} : std::vector<Form>{fadd(g.x, g.v), fadd(g.x, g.v, -1)};
        for (auto &o : outs) for (int sg = -1; sg <= 1; sg += 2) claims.push_back(fadd(R, o, sg));
        addFact({fadd(b, g.x), fadd(b, g.x, -1), fadd(b, g.y), fadd(b, g.y, -1)}, claims);
      }
      r.ret = mkInt(R, ir, 64);
      return r;
    }
    if (kind == "max-mul" || kind == "min-mul" || kind == "max-mul-interval" || kind == "min-mul-interval") {
      // extremum of v(x, w) over a <= x <= b and w given (low <= w <= high): attained, and not exceeded by the declared values
      bool mx = kind[1] == 'a', ivl = kind.size() > 8; size_t np = ivl ? 6 : 4;
      if (args.size() != np) throw Fatal("unexpected number of arguments of " + fn);
      Itv ia, ib, il, ih; for (size_t i = 0; i < (ivl ? 4u : 3u); i++) if (args[i].kind != V_INT) throw Fatal("unexpected argument of " + fn);
      Form a = toSigned(args[0], &ia), b = toSigned(args[1], &ib), lo = toSigned(args[2], &il), hi = lo; ih = il;
      if (ivl) hi = toSigned(args[3], &ih);
      ia = meet(ia, C->bound(a)); ib = meet(ib, C->bound(b)); il = meet(il, C->bound(lo)); ih = meet(ih, C->bound(hi));
      if (!polyEntails(fadd(b, a, -1), C->env, 30)) M->alarm("precondition", fn + " is not shown to be called with a <= b");
      if (ivl && !polyEntails(fadd(hi, lo, -1), C->env, 30)) M->alarm("precondition", fn + " is not shown to be called with low <= high");
      contractCalls++;
      Itv ix = {ia.lo, std::max(ia.lo, ib.hi)}, iw = {il.lo, std::max(il.lo, ih.hi)}, ip = mulItv(ix, iw), L62 = {-((i128)1 << 62), ((i128)1 << 62)};
      if (ip.lo < L62.lo || ip.hi > L62.hi) M->alarm("overflow", "product of the arguments of " + fn + " may exceed 62 bits");
      Form x = C->opaque(ix, "extremum"), w = lo;
      C->addCons(C->env, fadd(x, a, -1), {0, BIG}); C->addCons(C->env, fadd(b, x, -1), {0, BIG});
      if (ivl) { w = C->opaque(iw, "extremum"); C->addCons(C->env, fadd(w, lo, -1), {0, BIG}); C->addCons(C->env, fadd(hi, w, -1), {0, BIG}); }
      Form R; Itv ir;
      if (w.isConst()) { R = redForm(C->canon(fscale(x, w.k))); ir = C->bound(R); }
      else { auto fl = [](i128 v) { return v >> 12; }; ir = {-fl(ip.hi), 3 * 4095 - fl(ip.lo)}; R = C->opaque(ir, "red"); }
      for (auto &g : ghosts) {
        std::vector<Form> conds = {fadd(g.z, a, -1), fadd(b, g.z, -1)};
        if (ivl) { conds.push_back(fadd(g.w, lo, -1)); conds.push_back(fadd(hi, g.w, -1)); }
        else { Form d = C->canon(fadd(g.w, w, -1)); if (!d.isConst() || d.k != 0) continue; }
        addFact(conds, {mx ? fadd(R, g.v, -1) : fadd(g.v, R, -1)});
      }
      M->store(args[ivl ? 4 : 3], 8, mkInt(x, ix, 64));
      if (ivl) M->store(args[5], 8, mkInt(w, C->bound(w), 64));
      r.ret = mkInt(R, ir, 64);
      return r;
    }
  }
  throw Fatal("call to unmodelled function " + name);
}

// ---- interval library summaries: each interval object carries the concrete value it stands for
static Val redVal(const Val &x) { // 3*(x & 4095) - (x >> 12), 64 bit
  Val lo = vAnd(x, cInt(4095, 64), 64), hi = vAshr(x, 12, 64);
  return vSub(vMul(lo, cInt(3, 64), 64), hi, 64);
}
static Val remq(const Val &x) {
  Val r = vDivRem(x, cInt(QMOD, 64), 64, true, true);
  Val neg = vCmp(40, r, cInt(0, 64));
  return vIte(neg.f, vAdd(r, cInt(QMOD, 64), 64), r);
}
// the documented function of one value behind each unary interval operation
bool specOp(const std::string &k, const Val &x, Val &r) {
  if (k == "neg") r = vSub(cInt(0, 64), x, 64);
  else if (k == "red") r = redVal(x);
  else if (k == "red_twice") r = redVal(redVal(x));
  else if (k == "normal") r = remq(x);
  else if (k == "normal_inv3") r = remq(vMul(remq(x), cInt(8193, 64), 64));
  else if (k == "shift") { Val c = vCmp(38, x, cInt(6144, 64)); r = vIte(c.f, vSub(x, cInt(QMOD, 64), 64), x); }
  else if (k == "correct") { Val c = vCmp(40, x, cInt(0, 64)), d = vCmp(39, x, cInt(QMOD, 64)); r = vIte(c.f, vAdd(x, cInt(QMOD, 64), 64), vIte(d.f, vSub(x, cInt(QMOD, 64), 64), x)); }
  else return false;
  return true;
}
// bounds of an interval object: any, or of the class chosen (1 within 32 bits, 2 lower bound below, 3 upper bound above, 4 both, 5 a mixture)
void Interp::intervalBounds(int o) {
  int c = itvClass; uint64_t k = itvCount++;
  if (c == 5) c = 1 + (int)((((k + 1) * 0x9E3779B97F4A7C15ull) >> 40) % 4);
  if (itvOnly >= 0 && c) c = (int64_t)k == itvOnly ? c : 1;
  Itv f = srange(64), lo = f, hi = f; const i128 L = itvLo, H = itvHi;
  if (c == 1) { lo = hi = {L, H}; } else if (c == 2) { lo.hi = L - 1; hi.hi = H; } else if (c == 3) { lo.lo = L; hi.lo = H + 1; } else if (c == 4) { lo.hi = L - 1; hi.lo = H + 1; }
  Form a = C->opaque(lo, "min"), b = C->opaque(hi, "max");
  itvAtoms[a.t[0].a] = {o, 0}; itvAtoms[b.t[0].a] = {o, 1}; itvClasses[o] = c;
  M->write(o, 0, 8, mkInt(a, lo, 64)); M->write(o, 8, 8, mkInt(b, hi, 64));
}
bool Interp::shadowCall(const std::string &name, const std::vector<Val> &args, CallRes &r) {
  auto mk = [&](const Val &v) {
    int o = M->newObj("interval:" + name + ":" + where(), 16);
    Obj &ob = M->objs[o]; ob.heap = true; ob.interval = true; ob.lib = true; ob.shadow = storeNorm(v);
    auto *sl = M->log; M->log = nullptr;
    intervalBounds(o);
    M->log = sl; ob.wr = false;
    r.ret = mkPtr(o, 0);
    return true;
  };
  auto sh = [&](size_t i) -> Val {
    const Val &p = args[i];
    if (p.kind != V_PTR || p.obj < 0 || !M->objs[p.obj].interval) { M->alarm("bad-interval", "argument of " + name + " is not an interval object"); throw Fatal("bad interval argument"); }
    if (M->objs[p.obj].freed) M->alarm("use-after-free", "argument of " + name + " was released: " + M->objs[p.obj].name);
    return M->objs[p.obj].shadow;
  };
  auto s64 = [&](size_t i) { return vSext(args[i], 64); };
  if (name == "point") return mk(s64(0));
  if (name == "add") return mk(vAdd(sh(0), sh(1), 64));
  if (name == "sub") return mk(vSub(sh(0), sh(1), 64));
  if (name == "red_mul") return mk(redVal(vMul(sh(0), sh(1), 64)));
  if (name == "red_scale") return mk(redVal(vMul(s64(0), sh(1), 64)));
  if (name == "correct" && args.size() != 1) return false; // the name is shared with an array routine
  { static const std::set<std::string> un = {"neg", "red", "red_twice", "normal", "normal_inv3", "shift", "correct"};
    if (un.count(name)) { Val v; if (specOp(name, sh(0), v)) return mk(v); } }
  if (name == "delete_interval") {
    const Val &p = args[0];
    if (p.kind != V_PTR || p.obj < 0 || !M->objs[p.obj].heap) { M->alarm("bad-free", "release of something that is not an interval"); return true; }
    Obj &o = M->objs[p.obj];
    if (o.freed) M->alarm("double-free", "interval released twice: " + o.name);
    if (o.ro) M->alarm("write-const", "caller's constant interval released: " + o.name);
    if (M->log) M->log->push_back({p.obj, 0, (uint8_t)o.freed, nullptr, 1});
    o.freed = true;
    return true;
  }
  return false;
}
void interpClearInfo() { fnInfo.clear(); }
