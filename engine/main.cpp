// Command driver of the abstract interpreter: one command per line on stdin, answers on stdout.
#include "interp.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
extern bool gAbiGarbage;
extern std::map<std::string, int> gCpuZero;
extern std::vector<std::string> gAsmPaths;
void interpClearInfo();
bool polyEntails(const Form &f, const Env &e, int seconds = 90);
bool polyInfeasible(const Env &e);
bool specOp(const std::string &k, const Val &x, Val &r);

static std::map<std::string, Val> vars;
static void freshRun() {
  delete C; delete M; C = new Ctx; M = new Mem;
  M->where = [] { return IP->where(); };
  IP->resetRun(); IP->shadow = false; IP->trackOut = IP->openEnds = false; IP->statics = true; IP->itvClass = 0; IP->itvOnly = -1; IP->itvLo = -2147483648ll; IP->itvHi = 2147483647ll; IP->itvCount = 0; IP->itvAtoms.clear(); IP->itvClasses.clear(); IP->contracts.clear(); IP->ghosts.clear(); IP->pending.clear(); IP->contractCalls = IP->ghostFacts = 0; IP->inv = LoopInv();
  gAbiGarbage = false; gCoarse = false; gCpuZero.clear(); gAsmPaths.clear(); vars.clear();
  if (IP->as) asmReset(IP->as);
}
static int objOf(const std::string &n) {
  auto it = M->names.find(n);
  if (it != M->names.end()) return it->second;
  if (IP->mod) if (auto *g = IP->mod->getGlobalVariable(n, true)) { int o = IP->globalObj(g); M->names[n] = o; return o; }
  throw Fatal("no such object " + n);
}
static int spaceOf(const std::string &n) {
  for (size_t i = 0; i < C->spaces.size(); i++) if (C->spaces[i].name == n) return i;
  return -1;
}
static Val argVal(const std::string &t) {
  if (t == "null") return mkPtr(-1, 0);
  if (t[0] == '@') {
    size_t p = t.find('+'); std::string n = t.substr(1, p == std::string::npos ? p : p - 1);
    return mkPtr(objOf(n), p == std::string::npos ? 0 : parse128(t.substr(p + 1)));
  }
  if (t[0] == '$') { auto it = vars.find(t.substr(1)); if (it == vars.end()) throw Fatal("no variable " + t); return it->second; }
  if (t[0] == 'i') { size_t c = t.find(':'); return cInt(parse128(t.substr(c + 1)), atoi(t.c_str() + 1)); }
  throw Fatal("bad argument " + t);
}
// linear expressions over variables: tokens like 3*$x -1*$y 5
static Form exprForm(std::istringstream &is) {
  Form f; std::string t;
  while (is >> t) {
    if (t == ";") break;
    size_t st = t.find('*');
    if (t.find('$') == std::string::npos) { f.k += parse128(t); continue; }
    i128 c = st == std::string::npos ? 1 : parse128(t.substr(0, st));
    Val v = argVal(st == std::string::npos ? t : t.substr(st + 1));
    Itv iv; Form g = toSigned(v, &iv);
    f = fadd(f, g, c);
  }
  return f;
}
static CongP symCong(int sp, int idx) {
  auto c = std::make_shared<Cong>();
  c->v.push_back({symId(sp, idx), 1});
  return c;
}
static std::string describe(const Val &v) {
  if (v.kind == V_UNDEF) return "undef";
  if (v.kind == V_PTR) return v.obj < 0 ? "null" : "ptr " + M->objs[v.obj].name + " " + (v.f.isConst() ? str128(v.f.k) : "?");
  if (v.kind == V_FN) return "fn";
  Itv b = meet(v.iv, C->bound(v.f));
  return "int " + str128(b.lo) + " " + str128(b.hi);
}
static void writeVec(FILE *f, const CongP &c, int sp, int n) {
  std::vector<uint32_t> z(n, 0);
  if (c) for (auto &s : c->v) if ((int)(s.s >> 20) == sp && (int)(s.s & 0xfffff) < n) z[s.s & 0xfffff] = s.c;
  fwrite(z.data(), 4, n, f);
}
static int64_t clip(i128 v) { i128 L = ((i128)1) << 62; return (int64_t)(v > L ? L : v < -L ? -L : v); }

// congruent modulo Q and both in one window of Q consecutive integers: equal
static bool sameResidueAndWindow(const Form &a, Itv x, const Form &b, Itv y) {
  x = meet(x, C->bound(a)); y = meet(y, C->bound(b));
  CongP p = C->congOf(a), q = C->congOf(b);
  if (!p || !q || p->k != q->k || p->v.size() != q->v.size()) return false;
  for (size_t i = 0; i < p->v.size(); i++) if (p->v[i].s != q->v[i].s || p->v[i].c != q->v[i].c) return false;
  if (std::max(x.hi, y.hi) - std::min(x.lo, y.lo) < QMOD) return true;
  // still wide: is the difference between -Q+1 and Q-1?
  Form d = fadd(a, b, -1);
  return polyEntails(fadd(Form((i128)QMOD - 1), d, -1), C->env) && polyEntails(fadd(Form((i128)QMOD - 1), d, 1), C->env);
}

int main() {
  IP = new Interp; C = new Ctx; M = new Mem;
  M->where = [] { return IP->where(); };
  std::string line; std::vector<Env> saved;
  auto t0 = std::chrono::steady_clock::now();
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string cmd; is >> cmd;
    if (cmd.empty() || cmd[0] == '#') continue;
    try {
      if (cmd == "quit") break;
      if (cmd == "module") {
        std::string p; is >> p;
        IP->mod.reset(); interpClearInfo();
        IP->lctx = std::make_unique<llvm::LLVMContext>();
        llvm::SMDiagnostic d; IP->mod = llvm::parseIRFile(p, d, *IP->lctx);
        if (!IP->mod) { printf("ERR cannot read module %s: %s\n", p.c_str(), d.getMessage().str().c_str()); continue; }
        IP->resetRun(); printf("ok\n");
      } else if (cmd == "asm") { std::string a, b; is >> a >> b; IP->as = asmLoad(a, b); printf("ok\n"); }
      else if (cmd == "reset") { freshRun(); printf("ok\n"); }
      else if (cmd == "space") { std::string n; int k; is >> n >> k; C->spaces.push_back({n, k}); printf("ok\n"); }
      else if (cmd == "root") { is >> C->monoN; printf("ok\n"); } // formal root X with X^N = -1
      else if (cmd == "arr") { std::string n; int e; int64_t c; is >> n >> e >> c; M->names[n] = M->newObj(n, e * c); printf("ok\n"); }
      else if (cmd == "sym") {
        std::string n, lo, hi, sp; int e, c, off = 0; is >> n >> e >> c >> lo >> hi >> sp; is >> off;
        int o = M->newObj(n, (int64_t)e * c); M->names[n] = o; int s = sp == "-" ? -1 : spaceOf(sp);
        if (sp != "-" && s < 0) throw Fatal("no space " + sp);
        Itv iv = {parse128(lo), parse128(hi)};
        for (int i = 0; i < c; i++) M->write(o, (int64_t)i * e, e, mkInt(C->input(iv, s < 0 ? nullptr : symCong(s, off + i), n + "[" + std::to_string(i) + "]"), iv, e * 8));
        M->objs[o].wr = false; printf("ok\n");
      } else if (cmd == "mono") { // mono NAME elt lo hi c:e c:e ...   entries congruent to c*X^e; "?" = any value; "-" = uninitialised
        std::string n, lo, hi, t; int e; is >> n >> e >> lo >> hi;
        Itv iv = {parse128(lo), parse128(hi)};
        std::vector<Val> vs; int i = 0;
        while (is >> t) {
          if (t == "-") { Val u; u.w = e * 8; vs.push_back(u); i++; continue; }
          std::shared_ptr<Cong> cg;
          if (t != "?") { cg = std::make_shared<Cong>(); cg->k = C->mk(atoll(t.c_str()), atoll(t.c_str() + t.find(':') + 1)); }
          // a constant residue and a range narrower than Q determine the value
          if (cg && !mexp(cg->k) && iv.hi - iv.lo < QMOD) {
            i128 v = iv.lo + (((i128)mcoef(cg->k) - iv.lo) % QMOD + QMOD) % QMOD;
            if (v <= iv.hi) { vs.push_back(cInt(v, e * 8)); i++; continue; }
          }
          vs.push_back(mkInt(C->input(iv, cg, n + "[" + std::to_string(i++) + "]"), iv, e * 8));
        }
        int o = M->newObj(n, (int64_t)e * vs.size()); M->names[n] = o;
        for (size_t k = 0; k < vs.size(); k++) if (vs[k].kind != V_UNDEF) M->write(o, (int64_t)k * e, e, vs[k]);
        M->objs[o].wr = false; printf("ok\n");
      } else if (cmd == "const") { // "-" leaves an entry uninitialised
        std::string n, t; int e; is >> n >> e; std::vector<std::string> ts; while (is >> t) ts.push_back(t);
        int o = M->newObj(n, (int64_t)e * ts.size()); M->names[n] = o;
        for (size_t i = 0; i < ts.size(); i++) if (ts[i] != "-") M->write(o, (int64_t)i * e, e, cInt(parse128(ts[i]), e * 8));
        M->objs[o].wr = false; printf("ok\n");
      } else if (cmd == "cstr") { std::string n, h; is >> n >> h; std::string s; for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), 0, 16); int o = M->newObj(n, s.size() + 1); M->names[n] = o; for (size_t i = 0; i < s.size(); i++) M->write(o, i, 1, cInt((signed char)s[i], 8)); M->write(o, s.size(), 1, cInt(0, 8)); printf("ok\n"); }
      else if (cmd == "argnum") { std::string n, v; is >> n >> v; int o = M->newObj(n, 64); M->names[n] = o; M->objs[o].interval = true; M->objs[o].shadow = argVal(v); printf("ok\n"); }
      else if (cmd == "ptrs") { std::string n, t; is >> n; std::vector<Val> vs; while (is >> t) vs.push_back(argVal(t)); int o = M->newObj(n, 8 * vs.size()); M->names[n] = o; for (size_t i = 0; i < vs.size(); i++) M->write(o, 8 * i, 8, vs[i]); M->objs[o].wr = false; printf("ok\n"); }
      else if (cmd == "shadowobj") { // shadowobj NAME $var : interval object standing for the value
        std::string n, v; is >> n >> v; int o = M->newObj(n, 16); M->names[n] = o; Obj &ob = M->objs[o]; ob.heap = true; ob.interval = true; ob.shadow = argVal(v);
        IP->intervalBounds(o); ob.wr = ob.rd = false; printf("ok\n");
      }
      else if (cmd == "shadowarr") { // shadowarr NAME SRC elt count rw|ro : array of pointers to interval objects standing for the cells of SRC
        std::string n, q, m; int e; int64_t c; is >> n >> q >> e >> c >> m; int so = objOf(q); std::vector<int> os; bool rd = M->objs[so].rd;
        for (int64_t i = 0; i < c; i++) {
          Val v = M->read(so, i * e, e, true); int o = M->newObj(n + "[" + std::to_string(i) + "]", 16); M->names[n + "#" + std::to_string(i)] = o;
          IP->intervalBounds(o);
          Obj &ob = M->objs[o]; ob.heap = true; ob.interval = true; ob.shadow = v.kind == V_INT ? storeNorm(vSext(v, 64)) : v; ob.ro = m == "ro"; ob.wr = ob.rd = false; os.push_back(o);
        }
        M->objs[so].rd = rd;
        int ao = M->newObj(n, 8 * c); M->names[n] = ao; for (int64_t i = 0; i < c; i++) M->write(ao, 8 * i, 8, mkPtr(os[i], 0)); M->objs[ao].wr = false; if (m == "ro") M->objs[ao].ro = true; printf("ok\n"); }
      else if (cmd == "eqshadow") { // eqshadow NAME SRC elt count : slots whose interval is not shown to stand for the cell of SRC
        std::string n, q; int e; int64_t c; is >> n >> q >> e >> c; int ao = objOf(n), so = objOf(q); std::vector<int64_t> bad;
        for (int64_t i = 0; i < c; i++) {
          Val p = M->read(ao, 8 * i, 8, true), v = M->read(so, i * e, e, true); bool ok = false;
          if (p.kind == V_PTR && p.obj >= 0 && p.f.isConst() && p.f.k == 0 && M->objs[p.obj].interval && !M->objs[p.obj].freed && M->objs[p.obj].shadow.kind == V_INT && v.kind == V_INT) {
            Itv x, y; Form fp = toSigned(M->objs[p.obj].shadow, &x), fv = toSigned(v, &y); ok = C->equalForms(fp, fv) || sameResidueAndWindow(fp, x, fv, y);
          }
          if (!ok) bad.push_back(i);
        }
        printf("%zu", bad.size()); for (size_t i = 0; i < bad.size() && i < 20; i++) printf(" %lld", (long long)bad[i]); printf("\n"); }
      else if (cmd == "copy") { // copy NAME SRC : object with the same abstract contents
        std::string n, q; is >> n >> q; int so = objOf(q); int64_t sz = M->objs[so].size; int o = M->newObj(n, sz); M->names[n] = o;
        M->copyBytes(o, 0, so, 0, sz); M->objs[o].wr = M->objs[o].rd = false; M->objs[so].rd = false; printf("ok\n"); }
      else if (cmd == "gather") { // gather DST SRC elt i0 i1 ... : DST[k] = SRC[ik]
        std::string n, q; int e; int64_t i; is >> n >> q >> e; int so = objOf(q); std::vector<Val> vs; while (is >> i) vs.push_back(M->read(so, i * e, e, true));
        int o = M->newObj(n, (int64_t)e * vs.size()); M->names[n] = o; for (size_t k = 0; k < vs.size(); k++) if (vs[k].kind != V_UNDEF) M->write(o, (int64_t)k * e, e, vs[k]); M->objs[o].wr = false; printf("ok\n"); }
      else if (cmd == "specmap") { // specmap DST elt KIND SRC1 elt1 [SRC2 elt2 | $scalar] : elementwise definition, count from SRC1
        // KIND: red, red2, mulred (red of product), id, shift, norm...: the documented integer function of each element
        std::string n, kind, a, b; int e, ea, eb = 0; is >> n >> e >> kind >> a >> ea; is >> b >> eb;
        int so = objOf(a); int64_t cnt = M->objs[so].size / ea; std::vector<Val> vs;
        auto red = [&](const Form &x) { Itv iv = C->bound(x); Form q = C->floorDiv(x, iv, 4096); return C->canon(fadd(fscale(x, 3), q, -12289)); };
        for (int64_t i = 0; i < cnt; i++) {
          Val u = M->read(so, i * ea, ea, true); Itv iu; Form x = toSigned(u, &iu);
          if (kind == "mulred" || kind == "mul") {
            Val v = b[0] == '$' ? argVal(b) : M->read(objOf(b), i * eb, eb, true); Itv iv; Form y = toSigned(v, &iv);
            x = C->mul(x, meet(iu, C->bound(x)), y, meet(iv, C->bound(y)));
          }
          if (kind == "red" || kind == "mulred") x = red(x);
          else if (kind == "red2") x = red(red(x));
          vs.push_back(mkInt(x, C->bound(x), e * 8));
        }
        int o = M->newObj(n, (int64_t)e * cnt); M->names[n] = o; for (size_t k = 0; k < vs.size(); k++) M->write(o, (int64_t)k * e, e, vs[k]); M->objs[o].wr = false; printf("ok\n"); }
      else if (cmd == "fnloc") { std::string n; is >> n; std::string r = "?"; if (IP->mod) if (auto *F = IP->mod->getFunction(n)) { if (auto *sp = F->getSubprogram()) r = sp->getFilename().str() + ":" + std::to_string(sp->getLine()); else if (!F->isDeclaration()) r = "defined"; else r = "declared"; } if ((r == "?" || r == "declared") && IP->as && asmHas(IP->as, n)) r = "ntt_asm.S"; printf("%s\n", r.c_str()); }
      else if (cmd == "assumemul") { // assumemul lo hi A eltA B eltB|$scalar : every elementwise product lies in [lo,hi]
        std::string lo, hi, a, b; int ea, eb = 0; is >> lo >> hi >> a >> ea >> b >> eb; int so = objOf(a); int64_t cnt = M->objs[so].size / ea; bool ok = true;
        for (int64_t i = 0; i < cnt; i++) {
          Val u = M->read(so, i * ea, ea, true), v = b[0] == '$' ? argVal(b) : M->read(objOf(b), i * eb, eb, true); Itv iu, iv; Form x = toSigned(u, &iu), y = toSigned(v, &iv);
          Form m = C->mul(x, iu, y, iv); ok &= C->addCons(C->env, m, {parse128(lo), parse128(hi)});
        }
        printf("%s\n", ok ? "ok" : "infeasible"); }
      else if (cmd == "consts") { // integer constants compared against, or used as arithmetic operands, in a function and its callees
        std::string n; is >> n; std::set<const llvm::Function *> seen; std::vector<const llvm::Function *> wl; std::set<int64_t> cs;
        if (auto *F = IP->mod ? IP->mod->getFunction(n) : nullptr) wl.push_back(F);
        while (!wl.empty()) { auto *F = wl.back(); wl.pop_back(); if (!seen.insert(F).second) continue;
          for (auto &B : *F) for (auto &I : B) for (auto &op : I.operands()) {
            if (auto *ci = llvm::dyn_cast<llvm::ConstantInt>(op.get())) { if (ci->getBitWidth() <= 64) cs.insert(ci->getSExtValue()); }
            else if (auto *G = llvm::dyn_cast<llvm::Function>(op.get())) wl.push_back(G); } }
        printf("%zu", cs.size()); for (auto v : cs) printf(" %lld", (long long)v); printf("\n"); }
      else if (cmd == "heapobj") { std::string n; int64_t c; is >> n >> c; int o = M->newObj(n, c); M->names[n] = o; M->objs[o].heap = true; printf("ok\n"); }
      else if (cmd == "ro") { std::string n; while (is >> n) M->objs[objOf(n)].ro = true; printf("ok\n"); }
      else if (cmd == "var") { // var NAME width lo hi [space idx]
        std::string n, lo, hi, sp; int w, idx = 0; is >> n >> w >> lo >> hi; Itv iv = {parse128(lo), parse128(hi)}; CongP cg;
        if (is >> sp && sp != "-") { is >> idx; cg = symCong(spaceOf(sp), idx); }
        vars[n] = mkInt(C->input(iv, cg, n), iv, w); printf("ok\n");
      }
      else if (cmd == "cell") { std::string n, o; int64_t off; int e; is >> n >> o >> off >> e; vars[n] = M->read(objOf(o), off, e, true); printf("%s\n", describe(vars[n]).c_str()); }
      else if (cmd == "setcell") { std::string o, v; int64_t off; int e; is >> o >> off >> e >> v; M->write(objOf(o), off, e, argVal(v)); M->objs[objOf(o)].wr = false; printf("ok\n"); }
      else if (cmd == "shadow") { std::string n, o; is >> n >> o; Val p = argVal(o); vars[n] = M->objs[p.obj].shadow; printf("%s freed=%d\n", describe(vars[n]).c_str(), (int)M->objs[p.obj].freed); }
      else if (cmd == "let") { std::string n; is >> n; int w; is >> w; Form f = exprForm(is); vars[n] = mkInt(f, C->bound(f), w); printf("%s\n", describe(vars[n]).c_str()); }
      else if (cmd == "assume") { std::string lo, hi; is >> lo >> hi; Form f = exprForm(is); bool ok = C->addCons(C->env, f, {lo == "-" ? -BIG : parse128(lo), hi == "-" ? BIG : parse128(hi)}); printf("%s\n", ok ? "ok" : "infeasible"); }
      else if (cmd == "bound") { Form f = exprForm(is); Itv b = C->boundE(f, C->env, 0, 8); printf("int %s %s\n", str128(b.lo).c_str(), str128(b.hi).c_str()); }
      else if (cmd == "spec") { std::string n, k, v; is >> n >> k >> v; Val r; if (!specOp(k, argVal(v), r)) throw Fatal("no such function " + k); vars[n] = r; printf("%s\n", describe(r).c_str()); }
      else if (cmd == "entails") { Form f = exprForm(is); printf("%s\n", polyEntails(f, C->env) ? "yes" : "no"); } // the expression is >= 0
      else if (cmd == "env") { std::string t; for (auto &o : C->env.over) t += " {" + C->show(C->atomForm(o.first)) + " in " + str128(o.second.lo) + ".." + str128(o.second.hi) + "}"; for (auto &o : C->env.cons) t += " {" + C->show(o.first) + " in " + str128(o.second.lo) + ".." + str128(o.second.hi) + "}"; printf("%s\n", t.c_str()); }
      else if (cmd == "feasible") { printf("%s\n", polyInfeasible(C->env) ? "no" : "yes"); }
      else if (cmd == "show") { std::string v; is >> v; printf("%s\n", C->show(argVal(v).f).c_str()); }
      else if (cmd == "set") {
        std::string k, v; is >> k >> v;
        if (k == "shadow") IP->shadow = v == "1"; else if (k == "garbage") gAbiGarbage = v == "1"; else if (k == "itvclass") IP->itvClass = atoi(v.c_str()); else if (k == "itvonly") IP->itvOnly = atoll(v.c_str()); else if (k == "itvrange") { IP->itvLo = atoll(v.c_str()); is >> v; IP->itvHi = atoll(v.c_str()); } else if (k == "statics") IP->statics = v == "1"; else if (k == "openends") IP->openEnds = v == "1"; else if (k == "trackout") IP->trackOut = v == "1";
        else if (k == "steps") M->stepLimit = strtoull(v.c_str(), 0, 0);
        else if (k == "coarse") gCoarse = v == "1";
        else if (k == "cpuzero") { int b; is >> b; gCpuZero.clear(); if (v != "-") gCpuZero[v] = b; }
        else if (k == "contract") { std::string kind; is >> kind; IP->contracts[v] = kind; }
        printf("ok\n");
      } else if (cmd == "call") {
        std::string fn, t, dst; is >> fn; std::vector<Val> a; while (is >> t) { if (t == "->") { is >> dst; break; } a.push_back(argVal(t)); }
        auto c0 = std::chrono::steady_clock::now();
        CallRes r = IP->callByName(fn, a);
        double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - c0).count();
        if (!dst.empty()) vars[dst] = r.ret;
        printf("%s time %.3f\n", r.dead ? "dead" : describe(r.ret).c_str(), s);
      } else if (cmd == "inv") { // inv anchor EXPR | inv ghost $z $value | inv scale W | inv clear
        std::string k; is >> k;
        if (k == "clear") IP->inv = LoopInv(); else if (k == "anchor") IP->inv.anchors.push_back(exprForm(is));
        else if (k == "ghost") { std::string z, v; is >> z >> v; Itv i; Form fz = toSigned(argVal(z), &i), fv = toSigned(argVal(v), &i); IP->inv.ghosts.push_back({fz, fv}); }
        else if (k == "block") { Form a = exprForm(is); IP->inv.block = C->floorDiv(a, C->bound(a), 4096); IP->inv.hasBlock = true; }
        else if (k == "dir") is >> IP->inv.dir;
        else if (k == "scale") { std::string w; is >> w; IP->inv.scales.push_back(parse128(w)); }
        printf("ok\n");
      } else if (cmd == "ghost") { // ghost $z $w $value [$x $y] | ghost clear
        std::string z, w, v; is >> z; if (z == "clear") IP->ghosts.clear(); else { is >> w >> v; Itv i; Form fz = toSigned(argVal(z), &i), fw = toSigned(argVal(w), &i), fv = toSigned(argVal(v), &i); Interp::Ghost g; g.z = fz; g.w = fw; g.v = fv; std::string x, y; if (is >> x >> y) { g.x = toSigned(argVal(x), &i); g.y = toSigned(argVal(y), &i); g.step = true; } IP->ghosts.push_back(g); }
        printf("ok\n");
      } else if (cmd == "inst") { // facts of earlier calls whose conditions hold now
        auto p = IP->pending; IP->pending.clear(); for (auto &f : p) IP->addFact(f.conds, f.claims); size_t k = p.size() - IP->pending.size(); IP->pending = p; printf("%zu\n", k);
      } else if (cmd == "contracts") { printf("%llu %llu\n", (unsigned long long)IP->contractCalls, (unsigned long long)IP->ghostFacts);
      } else if (cmd == "push") { saved.push_back(C->env); printf("ok\n"); }
      else if (cmd == "pop") { C->env = saved.back(); saved.pop_back(); printf("ok\n");
      } else if (cmd == "callinv") { // call with inductive invariants for loops bounded by data
        std::string fn, t, dst; is >> fn; std::vector<Val> a; while (is >> t) { if (t == "->") { is >> dst; break; } a.push_back(argVal(t)); }
        Mem m0 = *M; Env e0 = C->env; auto ev0 = IP->events; int rounds = 0; CallRes r;
        IP->inv.active = true; IP->inv.loops.clear();
        for (;;) {
          *M = m0; C->env = e0; IP->events = ev0; IP->depth = IP->symDepth = 0; IP->inv.changed = false; rounds++;
          for (auto &l : IP->inv.loops) { l.second.backs = 0; l.second.old.clear(); }
          if (rounds > 60) { IP->inv.active = false; throw Fatal("loop invariants do not stabilise"); }
          try { r = IP->callByName(fn, a); } catch (LoopRestart &) { continue; } catch (Fatal &) { if (IP->inv.changed) continue; IP->inv.active = false; throw; }
          if (!IP->inv.changed) break;
        }
        IP->inv.active = false;
        if (!dst.empty()) vars[dst] = r.ret;
        int loops = 0, term = 0, kept = 0; for (auto &l : IP->inv.loops) { loops++; bool ok = l.second.backs == 0; for (auto x : l.second.inc) ok |= x; for (auto x : l.second.dec) ok |= x; term += ok; for (auto d : l.second.dead) kept += !d; }
        printf("%s loops %d terminating %d invariants %d rounds %d claims %llu\n", r.dead ? "dead" : describe(r.ret).c_str(), loops, term, kept, rounds, (unsigned long long)IP->inv.claims);
      } else if (cmd == "alarms") {
        printf("%zu\n", M->alarms.size());
        for (auto &a : M->alarms) printf("%s\t%s\t%s\n", a.kind.c_str(), a.where.c_str(), a.text.c_str());
      } else if (cmd == "dump") { // dump NAME elt count path space n  [space n]
        std::string n, path, sp; int e, c, k; is >> n >> e >> c >> path; int o = objOf(n);
        std::vector<std::pair<int, int>> sps; while (is >> sp >> k) { int s = spaceOf(sp); sps.push_back({s, k}); }
        FILE *f = fopen(path.c_str(), "wb"); if (!f) throw Fatal("cannot write " + path);
        // header per cell: lo, hi (int64), known (int64: 0 undef, 1 int without residue, 2 int with residue), const part
        std::vector<CongP> cs(c);
        for (int i = 0; i < c; i++) {
          int64_t h[4] = {0, 0, 0, 0};
          if ((int64_t)(i + 1) * e <= M->objs[o].size) {
            bool rd = M->objs[o].rd; Val v = M->read(o, (int64_t)i * e, e, true); M->objs[o].rd = rd;
            if (v.kind == V_INT) {
              Itv iv; Form fm = toSigned(v, &iv); iv = meet(iv, C->bound(fm)); h[0] = clip(iv.lo); h[1] = clip(iv.hi);
              cs[i] = C->congOf(fm); h[2] = cs[i] ? 2 : 1; h[3] = cs[i] ? cs[i]->k : 0;
              if (cs[i]) for (auto &s : cs[i]->v) { bool known = false; for (auto &q : sps) if (q.first == (int)(s.s >> 20)) known = true; if (!known) h[2] = 3; }
            }
          }
          fwrite(h, 8, 4, f);
        }
        for (int i = 0; i < c; i++) for (auto &q : sps) writeVec(f, cs[i], q.first, q.second);
        fclose(f); printf("ok\n");
      } else if (cmd == "prodsyms") { // prodsyms path spaceA n spaceB m
        std::string path, a, b; int n, m; is >> path >> a >> n >> b >> m;
        int sa = spaceOf(a), sb = spaceOf(b); FILE *f = fopen(path.c_str(), "wb");
        int K = C->prodSyms.size(), bad = 0; std::vector<uint16_t> ka(K), kb(K);
        auto only = [&](const CongP &c, int s) { for (auto &x : c->v) if ((int)(x.s >> 20) != s) return false; return true; };
        for (int i = 0; i < K; i++) {
          CongP x = C->prodSyms[i].first, y = C->prodSyms[i].second;
          if (!(only(x, sa) && only(y, sb))) { if (only(y, sa) && only(x, sb)) std::swap(x, y); else bad++; }
          if (x->k || y->k) bad++;
          writeVec(f, x, sa, n); writeVec(f, y, sb, m);
        }
        fclose(f); printf("%d %d\n", K, bad);
      } else if (cmd == "eq") { // eq A offA B offB elt count : indices whose values are not provably equal
        std::string a, b; int64_t oa, ob; int e, c; is >> a >> oa >> b >> ob >> e >> c; int x = objOf(a), y = objOf(b); std::vector<int> bad; 
        for (int i = 0; i < c; i++) {
          Val u = M->read(x, oa + (int64_t)i * e, e, true), v = M->read(y, ob + (int64_t)i * e, e, true);
          if (u.kind != V_INT || v.kind != V_INT) { bad.push_back(i); continue; }
          Itv iu, iw; Form fu = toSigned(u, &iu), fv = toSigned(v, &iw);
          if (!C->equalForms(fu, fv)) bad.push_back(i);
        }
        printf("%zu", bad.size()); for (size_t i = 0; i < bad.size() && i < 20; i++) printf(" %d", bad[i]); printf("\n");
      } else if (cmd == "eqv") { std::string a, b; is >> a >> b; Val u = argVal(a), v = argVal(b); bool ok = false; if (u.kind == V_INT && v.kind == V_INT) { Itv iu, iv; Form fu = toSigned(u, &iu), fv = toSigned(v, &iv); ok = C->equalForms(fu, fv); } printf("%d\n", (int)ok); }
      else if (cmd == "touch") { std::string n; is >> n; Obj &o = M->objs[objOf(n)]; printf("rd=%d wr=%d freed=%d\n", (int)o.rd, (int)o.wr, (int)o.freed); }
      else if (cmd == "slots") { // slots NAME count : targets of an array of pointers
        std::string n; int c; is >> n >> c; int o = objOf(n); printf("%d", c);
        for (int i = 0; i < c; i++) { Val v = M->read(o, 8 * i, 8, true); if (v.kind == V_PTR && v.obj >= 0 && v.f.isConst() && v.f.k == 0) printf(" %d:%d", v.obj, (int)M->objs[v.obj].freed); else printf(" -1:0"); }
        printf("\n");
      } else if (cmd == "slotvar") { std::string v, n; int i; is >> v >> n >> i; Val p = M->read(objOf(n), 8 * i, 8, true); vars[v] = p; printf("%s\n", describe(p).c_str()); }
      else if (cmd == "bindslot") { std::string nm, n; int i; is >> nm >> n >> i; Val p = M->read(objOf(n), 8 * i, 8, true); if (p.kind != V_PTR || p.obj < 0) { printf("bad\n"); } else { M->names[nm] = p.obj; printf("ok %d\n", p.obj); } }
      else if (cmd == "bindvar") { std::string nm, v; is >> nm >> v; Val p = argVal(v); if (p.kind != V_PTR || p.obj < 0) printf("bad\n"); else { M->names[nm] = p.obj; printf("ok %d\n", p.obj); } }
      else if (cmd == "heap") { // live heap objects
        int live = 0, total = 0; std::string s; for (size_t i = 0; i < M->objs.size(); i++) if (M->objs[i].heap && !M->objs[i].gone) { total++; if (!M->objs[i].freed) { live++; if (live <= 4000) s += " " + std::to_string(i); } }
        printf("%d %d%s\n", total, live, s.c_str());
      } else if (cmd == "objname") { int i; is >> i; printf("%s\n", M->objs[i].name.c_str()); }
      else if (cmd == "written") { // objects not library-owned that were written
        std::string s; for (auto &o : M->objs) if (o.wr && (o.global || (!o.lib && !o.stack))) s += " " + o.name; printf("%s\n", s.c_str()); }
      else if (cmd == "events") { printf("%zu\n", IP->events.size()); for (auto &e : IP->events) printf("%s\n", e.c_str()); }
      else if (cmd == "paths") { printf("%zu\n", gAsmPaths.size()); for (auto &e : gAsmPaths) printf("%s\n", e.c_str()); }
      else if (cmd == "outitv") { // numbers printed, in order: constants, and bounds of interval objects as m|M object:class
        std::string r; size_t cnt = 0;
        for (auto &o : IP->out) for (auto &v : o.args) {
          if (v.kind != V_INT) continue;
          cnt++;
          if (v.isConst()) { r += " " + str128(v.f.k); continue; }
          auto it = v.f.k == 0 && v.f.t.size() == 1 && v.f.t[0].c == 1 ? IP->itvAtoms.find(v.f.t[0].a) : IP->itvAtoms.end();
          if (it == IP->itvAtoms.end()) r += " ?"; else r += std::string(it->second.second ? " M" : " m") + std::to_string(it->second.first) + ":" + std::to_string(IP->itvClasses[it->second.first]) + (o.may ? ":1" : ":0");
        }
        printf("%zu%s\n", cnt, r.c_str());
      } else if (cmd == "out") { // output trace
        printf("%zu\n", IP->out.size());
        for (auto &o : IP->out) {
          std::string fm; for (unsigned char ch : o.fmt) { char b[8]; snprintf(b, 8, "%02x", ch); fm += b; }
          printf("%s %s %s", o.fn.c_str(), o.stream >= 0 ? M->objs[o.stream].name.c_str() : o.stream == -2 ? "stdout" : "?", fm.empty() ? "-" : fm.c_str());
          for (auto &v : o.args) {
            if (v.kind == V_PTR) { std::string s = IP->cstring(v), h; for (unsigned char ch : s) { char b[8]; snprintf(b, 8, "%02x", ch); h += b; } printf(" s%s", h.c_str()); continue; }
            if (v.kind != V_INT) { printf(" ?"); continue; }
            Itv iv; Form f = toSigned(v, &iv); CongP c = C->congOf(f);
            printf(" i%s:%s:", str128(iv.lo).c_str(), str128(iv.hi).c_str());
            if (!c) printf("?");
            else if (!c->v.empty()) printf("?"); else printf("%d^%d", (int)mcoef(c->k), mexp(c->k));
          }
          printf("\n");
        }
      } else if (cmd == "fnsig") { // defined functions with their types: name:ret(arg,...)
        std::string s; auto ty = [](llvm::Type *t) { return t->isIntegerTy() ? "i" + std::to_string(t->getIntegerBitWidth()) : t->isPointerTy() ? std::string("p") : t->isVoidTy() ? std::string("v") : std::string("?"); };
        if (IP->mod) for (auto &f : *IP->mod) if (!f.isDeclaration()) { s += " " + f.getName().str() + ":" + ty(f.getReturnType()) + "("; bool first = true; for (auto &a : f.args()) { if (!first) s += ","; first = false; s += ty(a.getType()); } s += ")"; }
        printf("%s\n", s.c_str());
      } else if (cmd == "fns") { std::string s; if (IP->mod) for (auto &f : *IP->mod) if (!f.isDeclaration()) { s += " "; s += f.getName().str(); } printf("%s\n", s.c_str()); }
      else if (cmd == "globals") { std::string s; if (IP->mod) for (auto &g : IP->mod->globals()) { s += " " + g.getName().str() + ":" + (g.hasInitializer() ? std::to_string((int64_t)IP->mod->getDataLayout().getTypeAllocSize(g.getValueType())) : "ext") + ":" + (g.isConstant() ? "c" : "v"); } printf("%s\n", s.c_str()); }
      else if (cmd == "gvals") { std::string n; int e; is >> n >> e; int o = objOf(n); int64_t c = M->objs[o].size / e; printf("%lld", (long long)c); for (int64_t i = 0; i < c; i++) { Val v = M->read(o, i * e, e, true); printf(" %s", v.isConst() ? str128(v.f.k).c_str() : "?"); } printf("\n"); }
      else if (cmd == "stats") {
        std::string fs; for (auto &f : IP->fnsSeen) fs += " " + f;
        printf("steps=%llu loads=%llu stores=%llu arith=%llu atoms=%zu bounds=%llu splits=%llu symbr=%d asm=%s fns=%zu%s\n", (unsigned long long)M->steps, (unsigned long long)M->nLoads, (unsigned long long)M->nStores, (unsigned long long)M->nArith, C->atoms.size(), (unsigned long long)C->nBounds, (unsigned long long)C->nSplits, IP->nSymBranches, IP->as ? asmInfo(IP->as).substr(0, asmInfo(IP->as).find(' ')).c_str() : "0", IP->fnsSeen.size(), fs.c_str());
      } else printf("ERR unknown command %s\n", cmd.c_str());
    } catch (Fatal &e) {
      printf("FATAL %s @ %s\n", e.what(), IP->where().c_str());
    } catch (std::exception &e) {
      printf("FATAL internal: %s\n", e.what());
    }
    fflush(stdout);
  }
  (void)t0;
  _exit(0);
}
