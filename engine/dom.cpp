#include "dom.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <set>
#include <stdexcept>

const i128 BIG = ((i128)1) << 120;
Ctx *C = nullptr;

std::string str128(i128 v) {
  if (v == 0) return "0";
  bool neg = v < 0;
  unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
  std::string s;
  while (u) { s += char('0' + (int)(u % 10)); u /= 10; }
  if (neg) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}
i128 parse128(const std::string &s) {
  i128 v = 0; bool neg = false;
  for (char c : s) { if (c == '-') neg = true; else if (c >= '0' && c <= '9') v = v * 10 + (c - '0'); }
  return neg ? -v : v;
}
i128 mulSat(i128 a, i128 b) {
  if (a == 0 || b == 0) return 0;
  i128 r;
  if (a >= BIG || a <= -BIG || b >= BIG || b <= -BIG) return ((a < 0) != (b < 0)) ? -BIG : BIG;
  if (__builtin_mul_overflow(a, b, &r)) return ((a < 0) != (b < 0)) ? -BIG : BIG;
  return sat(r);
}
i128 floordiv(i128 a, i128 b) { i128 q = a / b; if (a % b != 0 && a < 0) q--; return q; }
i128 ceildiv(i128 a, i128 b) { return -floordiv(-a, b); }
Itv scaleItv(Itv a, i128 c) {
  if (c >= 0) return {mulSat(a.lo, c), mulSat(a.hi, c)};
  return {mulSat(a.hi, c), mulSat(a.lo, c)};
}
Itv mulItv(Itv a, Itv b) {
  i128 p[4] = {mulSat(a.lo, b.lo), mulSat(a.lo, b.hi), mulSat(a.hi, b.lo), mulSat(a.hi, b.hi)};
  return {*std::min_element(p, p + 4), *std::max_element(p, p + 4)};
}
static inline i128 cmul128(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r)) throw std::runtime_error("coefficient overflow"); return r; }
static inline i128 cadd128(i128 a, i128 b) { i128 r; if (__builtin_add_overflow(a, b, &r)) throw std::runtime_error("coefficient overflow"); return r; }
Form fadd(const Form &a, const Form &b, i128 cb) {
  Form r;
  r.k = cadd128(a.k, cmul128(cb, b.k));
  if (cb == 0) { r.t = a.t; return r; }
  r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].a < b.t[j].a)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].a < a.t[i].a) { r.t.push_back({b.t[j].a, cmul128(b.t[j].c, cb)}); j++; }
    else { i128 c = cadd128(a.t[i].c, cmul128(cb, b.t[j].c)); if (c) r.t.push_back({a.t[i].a, c}); i++; j++; }
  }
  return r;
}
Form fscale(const Form &a, i128 c) {
  Form r;
  if (c == 0) return r;
  r.k = cmul128(a.k, c); r.t = a.t;
  for (auto &x : r.t) x.c = cmul128(x.c, c);
  return r;
}
// no coefficient of f*c (nor of g*d) comes near the end of the 128-bit range
static bool scalable(const Form &f, i128 c) {
  i128 L = (((i128)1) << 110) / (c < 0 ? -c : c ? c : 1);
  if (f.k > L || f.k < -L) return false;
  for (auto &x : f.t) if (x.c > L || x.c < -L) return false;
  return true;
}
static i128 gcd128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }

std::string Ctx::keyOf(const Form &f) {
  std::string s;
  s.resize(16 + f.t.size() * 20);
  char *p = &s[0];
  memcpy(p, &f.k, 16); p += 16;
  for (auto &x : f.t) { memcpy(p, &x.a, 4); memcpy(p + 4, &x.c, 16); p += 20; }
  return s;
}
AtomId Ctx::newAtom(AKind k, Itv iv) {
  atoms.emplace_back();
  atoms.back().kind = k; atoms.back().iv = iv;
  return atoms.size() - 1;
}
Form Ctx::input(Itv iv, CongP c, const std::string &name) {
  AtomId a = newAtom(A_INPUT, iv);
  atoms[a].cong = c; atoms[a].name = name;
  return atomForm(a);
}
Form Ctx::opaque(Itv iv, const std::string &why) {
  if (iv.lo == iv.hi) return Form(iv.lo);
  AtomId a = newAtom(A_OPAQUE, iv);
  atoms[a].name = why;
  return atomForm(a);
}
static i128 formGcd(const Form &f) { i128 g = 0; for (auto &x : f.t) g = gcd128(g, x.c); return g; }

// split f = g*prim + k, leading coefficient of prim positive, gcd 1
static void primitive(const Form &f, Form &prim, i128 &g) {
  g = formGcd(f);
  if (f.t[0].c < 0) g = -g;
  prim.k = 0; prim.t = f.t;
  for (auto &x : prim.t) x.c /= g;
}

Form Ctx::name(const Form &f, Itv iv) {
  if (f.t.size() <= 1) return f;
  Form prim; i128 g;
  primitive(f, prim, g);
  std::string key = keyOf(prim);
  auto it = aliasMap.find(key);
  AtomId a;
  if (it != aliasMap.end()) a = it->second;
  else {
    // interval of prim, valid without the path condition
    Env e0;
    Itv b = boundE(prim, e0, 0, 0);
    if (env.empty()) {
      Itv s = {addSat(iv.lo, -f.k), addSat(iv.hi, -f.k)};
      if (g > 0) s = {ceildiv(s.lo, g), floordiv(s.hi, g)};
      else s = {ceildiv(-s.hi, -g), floordiv(-s.lo, -g)};
      b = meet(b, s);
    }
    a = newAtom(A_ALIAS, b);
    atoms[a].def = prim;
    atoms[a].cong = congOf(prim);
    aliasMap[key] = a;
  }
  Form r; r.k = f.k; r.t.push_back({a, g});
  return r;
}

Form Ctx::canon(Form f) {
  if (f.t.size() < 3) return f;
  for (int round = 0; round < 4; round++) {
    bool ch = false;
    for (auto &x : f.t) {
      Atom &h = atoms[x.a];
      const Form *df = nullptr;
      if (h.kind == A_FLOOR || h.kind == A_EQZ || h.kind == A_CASE || h.kind == A_MUL) df = &h.def;
      if (!df) continue;
      for (int w = 0; w < 2; w++) {
        if (w == 1) { if (h.kind == A_MUL) df = &h.def2; else break; }
        if (df->t.size() != 1) continue;
        AtomId T = df->t[0].a;
        if (atoms[T].kind != A_ALIAS) continue;
        const Form &t = atoms[T].def;
        i128 c = f.coef(t.t[0].a);
        if (c == 0 || c % t.t[0].c) continue;
        c /= t.t[0].c;
        bool ok = true;
        for (auto &y : t.t) if (f.coef(y.a) != c * y.c) { ok = false; break; }
        if (!ok) continue;
        Form tt; tt.t.push_back({T, 1});
        f = fadd(fadd(f, t, -c), tt, c);
        ch = true;
        break;
      }
      if (ch) break;
    }
    if (!ch) break;
  }
  return f;
}

extern const i128 SIGND; const i128 SIGND = ((i128)1) << 100; // canonical divisor of a sign test

Form Ctx::floorDiv(const Form &f0, Itv iv, i128 d) {
  if (d == 1) return f0;
  if (f0.isConst()) return Form(floordiv(f0.k, d));
  if (iv.lo > -BIG && iv.hi < BIG && floordiv(iv.lo, d) == floordiv(iv.hi, d)) return Form(floordiv(iv.lo, d));
  // pull out multiples of d
  Form out, f;
  if (d != SIGND) {
    f.k = f0.k;
    for (auto &x : f0.t) {
      i128 q = x.c / d; // keep remainder small
      if (x.c % d == 0) out.t.push_back({x.a, q});
      else f.t.push_back(x);
    }
    i128 kq = floordiv(f.k, d);
    if (kq != 0) { out.k += kq; f.k -= kq * d; }
  } else f = f0;
  if (f.t.empty()) { out.k += floordiv(f.k, d); return out; }
  Itv fv = out.t.empty() ? Itv{addSat(iv.lo, -out.k * d), addSat(iv.hi, -out.k * d)} : bound(f);
  if (d != SIGND) fv = meet(fv, bound(f));
  Itv q = divItv(fv, d);
  if (q.lo == q.hi) { out.k += q.lo; return out; }
  // sign test?
  if (d != SIGND && fv.lo >= -d && fv.hi < d) d = SIGND;
  i128 g = formGcd(f);
  if (d == SIGND) {
    if (g > 1) { i128 k = floordiv(f.k, g); Form p; p.k = k; p.t = f.t; for (auto &x : p.t) x.c /= g; f = p; fv = meet({floordiv(fv.lo, g), floordiv(fv.hi, g)}, bound(f)); }
  } else {
    i128 gg = gcd128(g, d);
    if (gg > 1) {
      i128 k = floordiv(f.k, gg); Form p; p.k = k; p.t = f.t; for (auto &x : p.t) x.c /= gg;
      f = p; d /= gg; fv = meet({floordiv(fv.lo, gg), floordiv(fv.hi, gg)}, bound(f));
      if (d == 1) return fadd(out, f);
      return fadd(out, floorDiv(f, fv, d));
    }
  }
  // floor(floor(t/a)/b) = floor(t/(ab))
  if (f.t.size() == 1 && atoms[f.t[0].a].kind == A_FLOOR) {
    const Atom &h = atoms[f.t[0].a];
    if (h.d != SIGND) {
      if (d == SIGND) { // h*c + k >= 0
        if (f.t[0].c == 1) { // floor(def/hd) >= -k  <=> def >= -k*hd
          Form g2 = h.def; g2.k += f.k * h.d;
          return fadd(out, floorDiv(g2, bound(g2), SIGND));
        }
        if (f.t[0].c == -1) { // -h + k >= 0 <=> h <= k <=> def < (k+1)*hd <=> (k+1)*hd - 1 - def >= 0
          Form g2 = fscale(h.def, -1); g2.k += (f.k + 1) * h.d - 1;
          return fadd(out, floorDiv(g2, bound(g2), SIGND));
        }
      } else if (f.t[0].c == 1) {
        Form g2 = h.def; g2.k += f.k * h.d;
        return fadd(out, floorDiv(g2, bound(g2), d * h.d));
      }
    }
  }
  // opposite sign tests share an atom: floor(-x/oo) for sign: -x >= 0 <=> not (x-1 >= 0)
  if (d == SIGND && f.t[0].c < 0) {
    // f >= 0 <=> not(-f-1 >= 0): floor(f/oo) = -1 - floor((-f-1)/oo)
    Form g2 = fscale(f, -1); g2.k -= 1;
    Form h = floorDiv(g2, {addSat(-fv.hi, -1), addSat(-fv.lo, -1)}, SIGND);
    Form r(-1); r = fadd(r, h, -1);
    return fadd(out, r);
  }
  Form nf = name(f, fv);
  std::string key = keyOf(nf); key.append((const char *)&d, 16);
  auto it = floorMap.find(key);
  AtomId a;
  if (it != floorMap.end()) a = it->second;
  else {
    Itv b;
    if (env.empty()) b = divItv(fv, d);
    else { Env e0; Itv u = boundE(nf, e0, 0, 2); b = divItv(u, d); }
    a = newAtom(A_FLOOR, b);
    atoms[a].def = nf; atoms[a].d = d;
    floorMap[key] = a;
  }
  Form h; h.t.push_back({a, 1});
  if (!env.empty()) { Itv r = range(a, env, 0); r = meet(r, divItv(fv, d)); if (r.lo == r.hi) { out.k += r.lo; return out; } }
  return fadd(out, h);
}
Form Ctx::ge0(const Form &f, Itv iv) {
  if (iv.lo >= 0) return Form(1);
  if (iv.hi < 0) return Form((i128)0);
  Form h = floorDiv(f, iv, SIGND);
  h.k += 1;
  return h;
}
Form Ctx::eqz(const Form &f, Itv iv) {
  if (f.isConst()) return Form(f.k == 0 ? 1 : 0);
  if (iv.lo > 0 || iv.hi < 0) return Form((i128)0);
  Form g = f;
  i128 gc = formGcd(g);
  if (gc > 1) { if (g.k % gc) return Form((i128)0); g.k /= gc; for (auto &x : g.t) x.c /= gc; iv = {ceildiv(iv.lo, gc), floordiv(iv.hi, gc)}; }
  if (iv.lo == 0) { Form h = g; h.k -= 1; return fadd(Form(1), ge0(h, {-1, iv.hi - 1}), -1); }
  if (iv.hi == 0) { Form h = fscale(g, -1); h.k -= 1; return fadd(Form(1), ge0(h, {-1, -iv.lo - 1}), -1); }
  // residue argument
  CongP c = congOf(g);
  if (cIsMono(c) && c->k != 0) return Form((i128)0); // the formal root is a unit
  if (g.t[0].c < 0) { g = fscale(g, -1); iv = {-iv.hi, -iv.lo}; }
  Form nf = name(g, iv);
  std::string key = keyOf(nf);
  auto it = eqzMap.find(key);
  AtomId a;
  if (it != eqzMap.end()) a = it->second;
  else { a = newAtom(A_EQZ, {0, 1}); atoms[a].def = nf; eqzMap[key] = a; }
  return atomForm(a);
}
Form Ctx::mul(const Form &a0, Itv ia, const Form &b0, Itv ib) {
  if (a0.isConst()) return canon(fscale(b0, a0.k));
  if (b0.isConst()) return canon(fscale(a0, b0.k));
  for (int s = 0; s < 2; s++) {
    const Form &x = s ? b0 : a0, &y = s ? a0 : b0; Itv ix = s ? ib : ia;
    if (ix.hi - ix.lo <= 3) {
      std::vector<std::pair<i128, Form>> alts;
      for (i128 v = ix.lo; v <= ix.hi; v++) alts.push_back({v, fscale(y, v)});
      return makeCase(x, alts);
    }
  }
  Form a = name(a0, ia), b = name(b0, ib);
  // (g1*A+k1)*(g2*B+k2)
  Form A, B; A.t.push_back({a.t[0].a, 1}); B.t.push_back({b.t[0].a, 1});
  i128 g1 = a.t[0].c, g2 = b.t[0].c, k1 = a.k, k2 = b.k;
  if (A.t[0].a > B.t[0].a) std::swap(A, B);
  std::string key = keyOf(A) + keyOf(B);
  auto it = mulMap.find(key);
  AtomId m;
  if (it != mulMap.end()) m = it->second;
  else {
    Itv ra = atoms[A.t[0].a].iv, rb = atoms[B.t[0].a].iv;
    Itv r = mulItv(ra, rb);
    if (A.t[0].a == B.t[0].a && r.lo < 0) r.lo = 0;
    CongP cg = cmul(atomCong(A.t[0].a), atomCong(B.t[0].a));
    m = newAtom(A_MUL, r);
    atoms[m].def = A; atoms[m].def2 = B; atoms[m].cong = cg;
    mulMap[key] = m;
  }
  Form r; r.k = k1 * k2;
  r = fadd(r, atomForm(m), g1 * g2);
  if (k2) r = fadd(r, fadd(a, Form(-k1)), k2);   // g1*A*k2
  if (k1) r = fadd(r, fadd(b, Form(-k2)), k1);
  return canon(r);
}
Form Ctx::makeCase(const Form &sel0, std::vector<std::pair<i128, Form>> alts) {
  if (sel0.isConst()) { for (auto &a : alts) if (a.first == sel0.k) return a.second; return alts.empty() ? Form() : alts[0].second; }
  if (alts.size() == 1) return alts[0].second;
  bool same = true;
  for (auto &a : alts) if (a.second != alts[0].second) same = false;
  if (same) return alts[0].second;
  Form sel = name(sel0, bound(sel0));
  // normalise the selector to a bare atom
  if (sel.t[0].c != 1 || sel.k != 0) {
    i128 g = sel.t[0].c, k = sel.k; std::vector<std::pair<i128, Form>> n;
    for (auto &a : alts) { i128 v = a.first - k; if (v % g) continue; n.push_back({v / g, a.second}); }
    std::sort(n.begin(), n.end(), [](auto &x, auto &y) { return x.first < y.first; });
    alts = n;
    Form s; s.t.push_back({sel.t[0].a, 1});
    return makeCase(s, alts);
  }
  AtomId S = sel.t[0].a;
  // affine in the selector (constant step)?
  bool aff = true; Form step;
  for (size_t i = 1; i < alts.size(); i++) {
    Form d = fadd(alts[i].second, alts[i - 1].second, -1);
    i128 dv = alts[i].first - alts[i - 1].first;
    if (!d.isConst() || d.k % dv) { aff = false; break; }
    d.k /= dv;
    if (i == 1) step = d; else if (d.k != step.k) { aff = false; break; }
  }
  if (aff) {
    Form r = alts[0].second;
    r.k -= alts[0].first * step.k;
    return canon(fadd(r, atomForm(S), step.k));
  }
  // factor out the alternative at selector value 0 (or the first)
  size_t bi = 0;
  for (size_t i = 0; i < alts.size(); i++) if (alts[i].first == 0) bi = i;
  Form base = alts[bi].second;
  std::vector<std::pair<i128, Form>> n;
  for (auto &a : alts) n.push_back({a.first, fadd(a.second, base, -1)});
  // common scale
  std::string key = keyOf(sel);
  for (auto &a : n) { key.append((const char *)&a.first, 16); key += "|"; key += keyOf(a.second); key += ";"; }
  auto it = caseMap.find(key);
  AtomId a;
  if (it != caseMap.end()) a = it->second;
  else {
    Itv r = {BIG, -BIG}; CongP cg; bool first = true, cok = true;
    for (auto &al : n) {
      Env e0;
      if (!addCons(e0, sel, {al.first, al.first})) continue;
      Itv b = boundE(al.second, e0, 0, 2);
      if (b.empty()) continue;
      r = hull(r, b);
      CongP c = congOf(al.second);
      if (first) cg = c; else if (cok && !(c && cg && ceq(c, cg))) cok = false;
      if (!c) cok = false;
      first = false;
    }
    if (r.empty()) r = {-BIG, BIG};
    a = newAtom(A_CASE, r);
    atoms[a].def = sel; atoms[a].alts = n; if (cok && !first) atoms[a].cong = cg;
    caseMap[key] = a;
  }
  return canon(fadd(base, atomForm(a)));
}
Form Ctx::ite(const Form &cond, const Form &a, const Form &b) {
  if (cond.isConst()) return cond.k ? a : b;
  std::vector<std::pair<i128, Form>> alts; alts.push_back({0, b}); alts.push_back({1, a});
  return makeCase(cond, alts);
}

bool Ctx::addCons(Env &e, const Form &f, Itv iv, int depth) {
  if (iv.empty()) return false;
  if (f.isConst()) return f.k >= iv.lo && f.k <= iv.hi;
  Form prim; i128 g;
  primitive(f, prim, g);
  Itv r = {addSat(iv.lo, -f.k), addSat(iv.hi, -f.k)};
  if (iv.lo <= -BIG) r.lo = -BIG;
  if (iv.hi >= BIG) r.hi = BIG;
  if (g > 0) r = {r.lo <= -BIG ? -BIG : ceildiv(r.lo, g), r.hi >= BIG ? BIG : floordiv(r.hi, g)};
  else r = {r.hi >= BIG ? -BIG : ceildiv(-r.hi, -g), r.lo <= -BIG ? BIG : floordiv(-r.lo, -g)};
  if (r.empty()) return false;
  if (prim.t.size() == 1) {
    AtomId a = prim.t[0].a;
    Itv cur = range(a, e, 3);
    Itv m = meet(cur, r);
    if (m.empty()) return false;
    bool found = false;
    for (auto &o : e.over) if (o.first == a) { o.second = meet(o.second, m); found = true; if (o.second.empty()) return false; }
    if (!found) e.over.push_back({a, m});
    if (depth < 6) {
      const Atom A = atoms[a];
      if (A.kind == A_FLOOR) {
        Itv di = {m.lo <= -BIG ? -BIG : mulSat(m.lo, A.d), m.hi >= BIG ? BIG : addSat(mulSat(m.hi, A.d), A.d - 1)};
        if (A.d == SIGND) { if (m.lo == 0) di = {0, BIG}; else if (m.hi == -1) di = {-BIG, -1}; else di = {-BIG, BIG}; }
        if (!addCons(e, A.def, di, depth + 1)) return false;
      } else if (A.kind == A_ALIAS) {
        if (!addCons(e, A.def, m, depth + 1)) return false;
      } else if (A.kind == A_EQZ) {
        if (m.lo == 1) { if (!addCons(e, A.def, {0, 0}, depth + 1)) return false; }
        else if (m.hi == 0) {
          Itv b = boundE(A.def, e, 2, 0);
          if (b.lo == 0) { if (!addCons(e, A.def, {1, BIG}, depth + 1)) return false; }
          else if (b.hi == 0) { if (!addCons(e, A.def, {-BIG, -1}, depth + 1)) return false; }
        }
      } else if (A.kind == A_CASE) {
        // keep only selector values whose alternative meets m
        Itv sv = range(A.def.t[0].a, e, 3);
        i128 lo = BIG, hi = -BIG;
        for (auto &al : A.alts) {
          if (al.first < sv.lo || al.first > sv.hi) continue;
          Itv b = meet(boundE(al.second, e, 2, 0), m);
          if (b.empty()) continue;
          lo = std::min(lo, al.first); hi = std::max(hi, al.first);
        }
        if (lo > hi) return false;
        if (lo > sv.lo || hi < sv.hi) if (!addCons(e, A.def, {lo, hi}, depth + 1)) return false;
        if (lo == hi) for (auto &al : A.alts) if (al.first == lo) if (!addCons(e, al.second, m, depth + 1)) return false;
      }
    }
    return true;
  }
  Itv b = boundE(prim, e, 3, 0);
  if (meet(b, r).empty()) return false;
  if (inside(b, r)) return true; // nothing new
  for (auto &c : e.cons) if (c.first == prim) { c.second = meet(c.second, r); return !c.second.empty(); }
  e.cons.push_back({prim, meet(r, b)});
  auto it = aliasMap.find(keyOf(prim));
  if (it != aliasMap.end()) {
    AtomId a = it->second; bool found = false;
    for (auto &o : e.over) if (o.first == a) { o.second = meet(o.second, r); found = true; if (o.second.empty()) return false; }
    if (!found) { Itv m = meet(atoms[a].iv, r); if (m.empty()) return false; e.over.push_back({a, m}); }
  }
  // bound single atoms by the constraint
  if (depth < 3 && prim.t.size() <= 4) {
    for (auto &x : prim.t) {
      Form rest = prim; rest.t.erase(std::remove_if(rest.t.begin(), rest.t.end(), [&](const Term &y) { return y.a == x.a; }), rest.t.end());
      Itv rb = boundE(rest, e, 3, 0); // x*c in r - rest
      Itv xr = {r.lo <= -BIG || rb.hi >= BIG ? -BIG : addSat(r.lo, -rb.hi), r.hi >= BIG || rb.lo <= -BIG ? BIG : addSat(r.hi, -rb.lo)};
      Form xf; xf.t.push_back({x.a, x.c});
      Itv cur = scaleItv(range(x.a, e, 3), x.c);
      if (inside(cur, xr)) continue;
      if (!addCons(e, xf, xr, depth + 2)) return false;
    }
  }
  return true;
}

Itv Ctx::range(AtomId a, const Env &e, int depth) {
  Itv r = atoms[a].iv;
  if (e.empty()) return r;
  for (auto &o : e.over) if (o.first == a) r = meet(r, o.second);
  if (depth >= 3 || r.lo == r.hi) return r;
  const Atom &A = atoms[a];
  switch (A.kind) {
  case A_FLOOR: { Itv b = boundE(A.def, e, depth + 1, 0); if (!b.empty()) r = meet(r, divItv(b, A.d)); break; }
  case A_ALIAS: { Itv b = boundE(A.def, e, depth + 1, 0); r = meet(r, b); break; }
  case A_EQZ: { Itv b = boundE(A.def, e, depth + 1, 0); if (b.lo > 0 || b.hi < 0) r = meet(r, {0, 0}); else if (b.lo == 0 && b.hi == 0) r = meet(r, {1, 1}); break; }
  case A_MUL: r = meet(r, mulItv(range(A.def.t[0].a, e, depth + 1), range(A.def2.t[0].a, e, depth + 1))); break;
  case A_CASE: {
    Itv sv = range(A.def.t[0].a, e, depth + 1); Itv u = {BIG, -BIG};
    for (auto &al : A.alts) { if (al.first < sv.lo || al.first > sv.hi) continue; Itv b = boundE(al.second, e, depth + 1, 0); if (!b.empty()) u = hull(u, b); }
    if (!u.empty()) r = meet(r, u);
    break; }
  default: break;
  }
  return r;
}

static bool shares(const Form &a, const Form &b) {
  size_t i = 0, j = 0;
  while (i < a.t.size() && j < b.t.size()) {
    if (a.t[i].a == b.t[j].a) return true;
    if (a.t[i].a < b.t[j].a) i++; else j++;
  }
  return false;
}

Itv Ctx::boundE(const Form &f, const Env &e, int depth, int split) {
  if (f.isConst()) return {f.k, f.k};
  std::string ck;
  bool cache = e.empty() && depth == 0;
  if (cache) { ck = keyOf(f); ck += (char)split; auto it = boundCache.find(ck); if (it != boundCache.end()) return it->second; }
  nBounds++;
  Itv best = {f.k, f.k};
  for (auto &x : f.t) best = addItv(best, scaleItv(range(x.a, e, depth), x.c));
  if (depth < 3) {
    // constraints
    for (size_t ci = 0; ci < e.cons.size(); ci++) {
      const Form &t = e.cons[ci].first;
      if (!shares(f, t)) continue;
      for (auto &p : t.t) {
        i128 c = f.coef(p.a);
        if (c == 0 || c % p.c) continue;
        c /= p.c;
        if (!scalable(t, c)) continue;
        Form rest = fadd(f, t, -c);
        if (rest.t.size() > f.t.size() + 2) continue;
        Env e2 = e; e2.cons.erase(e2.cons.begin() + ci);
        Itv cv = e.cons[ci].second;
        Itv cand = addItv(scaleItv(cv, c), boundE(rest, e2, depth + 1, 0));
        if (cv.lo <= -BIG && c > 0) cand.lo = -BIG;
        if (cv.hi >= BIG && c > 0) cand.hi = BIG;
        if (cv.lo <= -BIG && c < 0) cand.hi = BIG;
        if (cv.hi >= BIG && c < 0) cand.lo = -BIG;
        best = meet(best, cand);
        if (rest.isConst()) break;
      }
      if (best.empty()) return best;
    }
    // floor elimination
    for (auto &x : f.t) {
      const Atom &h = atoms[x.a];
      if (h.kind == A_FLOOR && h.d != SIGND) {
        Form rest = f;
        rest.t.erase(std::remove_if(rest.t.begin(), rest.t.end(), [&](const Term &y) { return y.a == x.a; }), rest.t.end());
        if (!shares(rest, h.def)) {
          // other floors of the same argument?
          bool rel = false;
          for (auto &y : rest.t) if (atoms[y.a].kind == A_FLOOR && shares(atoms[y.a].def, h.def)) rel = true;
          if (!rel) continue;
        }
        if (!scalable(rest, h.d) || !scalable(h.def, x.c)) continue;
        Form F = fadd(fscale(rest, h.d), h.def, x.c);
        Itv b = boundE(F, e, depth + 1, 0);
        Itv rr = scaleItv({0, h.d - 1}, -x.c);
        b = addItv(b, rr);
        if (b.lo > -BIG && b.hi < BIG) best = meet(best, {ceildiv(b.lo, h.d), floordiv(b.hi, h.d)});
      } else if (h.kind == A_ALIAS) {
        Form rest = f;
        rest.t.erase(std::remove_if(rest.t.begin(), rest.t.end(), [&](const Term &y) { return y.a == x.a; }), rest.t.end());
        if (!shares(rest, h.def)) continue;
        Form F = fadd(rest, h.def, x.c);
        best = meet(best, boundE(F, e, depth + 1, 0));
      } else if (h.kind == A_CASE) {
        Itv sv = range(h.def.t[0].a, e, depth + 1);
        if (sv.lo == sv.hi) {
          for (auto &al : h.alts) if (al.first == sv.lo) {
            Form rest = f;
            rest.t.erase(std::remove_if(rest.t.begin(), rest.t.end(), [&](const Term &y) { return y.a == x.a; }), rest.t.end());
            best = meet(best, boundE(fadd(rest, al.second, x.c), e, depth + 1, 0));
            break;
          }
        }
      }
      if (best.empty()) return best;
    }
  }
  // case split
  if (split > 0 && !best.point()) {
    AtomId s = 0; bool have = false;
    for (int pass = 0; pass < 2 && !have; pass++)
      for (auto it = f.t.rbegin(); it != f.t.rend() && !have; ++it) {
        const Atom &h = atoms[it->a];
        if (pass == 0 && h.kind == A_CASE) {
          Itv sv = range(h.def.t[0].a, e, 1);
          if (sv.lo != sv.hi && sv.hi - sv.lo <= 8) { s = h.def.t[0].a; have = true; }
        } else if (pass == 1 && (h.kind == A_FLOOR || h.kind == A_EQZ)) {
          Itv sv = range(it->a, e, 1);
          if (sv.lo == sv.hi || sv.hi - sv.lo > 8) continue;
          bool rel = f.t.size() > 1 && shares(f, h.def);
          if (!rel) for (auto &y : f.t) {
            if (y.a == it->a) continue;
            const Atom &g = atoms[y.a];
            if (g.kind != A_INPUT && g.kind != A_OPAQUE && (shares(g.def, h.def) || g.def.coef(it->a) != 0)) { rel = true; break; }
            if (h.def.t.size() == 1 && atoms[h.def.t[0].a].kind == A_ALIAS && atoms[h.def.t[0].a].def.coef(y.a) != 0) { rel = true; break; }
          }
          if (rel) { s = it->a; have = true; }
        }
      }
    if (have) {
      nSplits++;
      Itv sv = range(s, e, 1);
      Itv u = {BIG, -BIG};
      for (i128 v = sv.lo; v <= sv.hi; v++) {
        Env e2 = e;
        Form sf; sf.t.push_back({s, 1});
        if (!addCons(e2, sf, {v, v})) continue;
        Form g; g.k = f.k;
        for (auto &x : f.t) {
          if (x.a == s) g.k += x.c * v;
          else if (atoms[x.a].kind == A_CASE && atoms[x.a].def.t[0].a == s) {
            bool ok = false;
            for (auto &al : atoms[x.a].alts) if (al.first == v) { g = fadd(g, al.second, x.c); ok = true; }
            if (!ok) { Form t1; t1.t.push_back(x); g = fadd(g, t1); }
          } else { Form t1; t1.t.push_back(x); g = fadd(g, t1); }
        }
        Itv b = boundE(g, e2, 0, split - 1);
        if (b.empty()) continue;
        u = hull(u, b);
      }
      if (!u.empty()) best = meet(best, u);
      else best = {1, 0};
    }
  }
  if (cache) { if (boundCache.size() > 2000000) boundCache.clear(); boundCache[ck] = best; }
  return best;
}
Itv Ctx::bound(const Form &f) { return boundE(f, env, 0, 4); }

Form Ctx::expandAll(const Form &f) {
  Form r = f;
  for (int it = 0; it < 10000; it++) {
    bool ch = false;
    for (auto &x : r.t) if (atoms[x.a].kind == A_ALIAS) {
      i128 c = x.c; AtomId a = x.a;
      Form t; t.t.push_back({a, c});
      r = fadd(fadd(r, t, -1), atoms[a].def, c);
      ch = true; break;
    }
    if (!ch) break;
  }
  return r;
}
Form Ctx::normalForm(const Form &f) {
  Form r; r.k = f.k;
  auto fresh = [&](const std::string &key) { auto it = nfIds.find(key); if (it != nfIds.end()) return it->second; AtomId id = nfIds.size(); nfIds[key] = id; return id; };
  auto one = [&](AtomId id) { Form x; x.t.push_back({id, 1}); return x; };
  std::vector<Term> acc; i128 ksum = 0;
  for (auto &x : f.t) {
    auto it = nfMemo.find(x.a);
    if (it == nfMemo.end()) {
      const Atom A = atoms[x.a];
      Form g;
      std::string key;
      switch (A.kind) {
      case A_INPUT: case A_OPAQUE: key = "I"; key.append((const char *)&x.a, 4); g = one(fresh(key)); break;
      case A_ALIAS: g = normalForm(A.def); break;
      case A_FLOOR: {
        Form d = normalForm(A.def);
        if (A.d == SIGND && !d.t.empty() && d.t[0].c < 0) { // floor(f/oo) = -1 - floor((-f-1)/oo)
          Form m = fscale(d, -1); m.k -= 1;
          key = "S" + keyOf(m); g = fscale(one(fresh(key)), -1); g.k -= 1;
        } else if (A.d == SIGND) { key = "S" + keyOf(d); g = one(fresh(key)); }
        else { key = "F"; key.append((const char *)&A.d, 16); key += keyOf(d); g = one(fresh(key)); }
        break; }
      case A_EQZ: { Form d = normalForm(A.def); if (!d.t.empty() && d.t[0].c < 0) d = fscale(d, -1); key = "E" + keyOf(d); g = one(fresh(key)); break; }
      case A_MUL: {
        Form p = normalForm(A.def), q = normalForm(A.def2); i128 c = 1;
        for (Form *h : {&p, &q}) if (!h->t.empty() && h->k == 0) { Form pr; i128 gg; primitive(*h, pr, gg); *h = pr; c *= gg; }
        std::string a = keyOf(p), b = keyOf(q); if (b < a) std::swap(a, b);
        uint64_t la = a.size(); key = "M"; key.append((const char *)&la, 8); key += a + b; g = fscale(one(fresh(key)), c); break; }
      case A_CASE: {
        Form d = normalForm(A.def); key = "C" + keyOf(d);
        for (auto &al : A.alts) { key += "|"; key.append((const char *)&al.first, 16); key += keyOf(normalForm(al.second)); }
        g = one(fresh(key)); break; }
      }
      it = nfMemo.emplace(x.a, g).first;
    }
    const Form &g = it->second;
    ksum += g.k * x.c;
    for (auto &y : g.t) acc.push_back({y.a, y.c * x.c});
  }
  r.k += ksum;
  std::sort(acc.begin(), acc.end(), [](const Term &p, const Term &q) { return p.a < q.a; });
  for (auto &y : acc) {
    if (!r.t.empty() && r.t.back().a == y.a) r.t.back().c += y.c; else { if (!r.t.empty() && r.t.back().c == 0) r.t.pop_back(); r.t.push_back(y); }
  }
  if (!r.t.empty() && r.t.back().c == 0) r.t.pop_back();
  return r;
}
bool Ctx::equalForms(const Form &a, const Form &b, int) {
  if (a == b) return true;
  if (normalForm(a) == normalForm(b)) return true;
  Form d = fadd(a, b, -1);
  if (d.isConst()) return d.k == 0;
  // expand aliases one layer at a time until the difference vanishes
  for (int it = 0; it < 12; it++) {
    // expand the highest alias
    int hi = -1;
    for (size_t i = 0; i < d.t.size(); i++) if (atoms[d.t[i].a].kind == A_ALIAS) hi = i;
    if (hi < 0) break;
    i128 c = d.t[hi].c; AtomId al = d.t[hi].a;
    Form t; t.t.push_back({al, c});
    d = fadd(fadd(d, t, -1), atoms[al].def, c);
    if (d.isConst()) return d.k == 0;
    if (d.t.size() > 200) break;
  }
  Itv bb = bound(d);
  if (bb.lo == 0 && bb.hi == 0) return true;
  // equal residues and a difference smaller than the modulus
  Itv ba = bound(a), bc = bound(b);
  bb = meet(bb, {addSat(ba.lo, -bc.hi), addSat(ba.hi, -bc.lo)});
  if (bb.lo > -QMOD && bb.hi < QMOD) {
    CongP ca = congOf(a), cb = congOf(b);
    if (ca && cb && ceq(ca, cb)) return true;
  }
  return false;
}

// ---- congruences
Mono Ctx::mk(int64_t c, int64_t e) const {
  c %= QMOD; if (c < 0) c += QMOD;
  if (monoN) { e %= 2 * monoN; if (e < 0) e += 2 * monoN; if (e >= monoN) { e -= monoN; c = (QMOD - c) % QMOD; } }
  if (c == 0) return 0;
  return (Mono)c | (Mono)e << 14;
}
bool Ctx::madd(Mono a, Mono b, Mono &r) const {
  if (!a) { r = b; return true; }
  if (!b) { r = a; return true; }
  if (mexp(a) != mexp(b)) return false;
  uint32_t c = mcoef(a) + mcoef(b); if (c >= QMOD) c -= QMOD;
  r = c ? (c | (a & ~16383u)) : 0;
  return true;
}
Mono Ctx::mmul(Mono a, Mono b) const {
  if (!a || !b) return 0;
  uint32_t c = (uint32_t)mcoef(a) * (uint32_t)mcoef(b) % 12289u;
  int e = mexp(a) + mexp(b);
  if (!e) return c;
  if (monoN && e >= monoN) { e -= monoN; c = 12289u - c; }
  return c | (Mono)e << 14;
}
CongP Ctx::cconst(int64_t k) { auto c = std::make_shared<Cong>(); c->k = mint(k); return c; }
bool Ctx::cIsConst(const CongP &a, int64_t *k) {
  if (!a->v.empty() || mexp(a->k)) return false;
  if (k) *k = mcoef(a->k);
  return true;
}
bool Ctx::ceq(const CongP &a, const CongP &b) {
  if (a == b) return true;
  if (!a || !b || a->k != b->k || a->v.size() != b->v.size()) return false;
  for (size_t i = 0; i < a->v.size(); i++) if (a->v[i].s != b->v[i].s || a->v[i].c != b->v[i].c) return false;
  return true;
}
CongP Ctx::cadd(const CongP &a, const CongP &b, Mono cb) {
  if (!a || !b) return nullptr;
  if (cb == 0) return a;
  auto r = std::make_shared<Cong>();
  if (!madd(a->k, mmul(b->k, cb), r->k)) return nullptr;
  size_t i = 0, j = 0, na = a->v.size(), nb = b->v.size();
  r->v.reserve(na + nb);
  while (i < na || j < nb) {
    if (j == nb || (i < na && a->v[i].s < b->v[j].s)) r->v.push_back(a->v[i++]);
    else if (i == na || b->v[j].s < a->v[i].s) { r->v.push_back({b->v[j].s, mmul(b->v[j].c, cb)}); j++; }
    else { Mono m; if (!madd(a->v[i].c, mmul(b->v[j].c, cb), m)) return nullptr; if (m) r->v.push_back({a->v[i].s, m}); i++; j++; }
  }
  if (r->v.capacity() > r->v.size() + 16) r->v.shrink_to_fit();
  return r;
}
CongP Ctx::cmul(const CongP &a, const CongP &b) {
  if (!a || !b) return nullptr;
  if (cIsMono(a)) return cadd(cconst(0), b, a->k);
  if (cIsMono(b)) return cadd(cconst(0), a, b->k);
  if (prodSpace < 0) { spaces.push_back({"prod", 0}); prodSpace = spaces.size() - 1; }
  const CongP &x = a.get() < b.get() ? a : b, &y = a.get() < b.get() ? b : a;
  uintptr_t px[2] = {(uintptr_t)x.get(), (uintptr_t)y.get()};
  std::string key((const char *)px, sizeof px);
  int id;
  auto it = prodMap.find(key);
  if (it != prodMap.end()) id = it->second;
  else { id = prodSyms.size(); prodSyms.push_back({a, b}); prodMap[key] = id; spaces[prodSpace].n = id + 1; }
  if (id >= 1 << 20) return nullptr;
  auto r = std::make_shared<Cong>();
  r->v.push_back({symId(prodSpace, id), 1});
  return r;
}
CongP Ctx::atomCong(AtomId a) { return atoms[a].cong; }
CongP Ctx::congOf(const Form &f) {
  for (auto &x : f.t) if (x.c % QMOD != 0 && !atoms[x.a].cong) return nullptr;
  if (f.t.size() == 1 && f.t[0].c == 1 && f.k == 0) return atoms[f.t[0].a].cong;
  CongP r = cconst((int64_t)(f.k % QMOD));
  for (auto &x : f.t) { Mono c = mint(x.c); if (!c) continue; r = cadd(r, atoms[x.a].cong, c); if (!r) return nullptr; }
  return r;
}
std::string Ctx::show(const Form &f, int depth) {
  std::string s;
  for (auto &x : f.t) {
    if (!s.empty()) s += " + ";
    if (x.c != 1) s += str128(x.c) + "*";
    const Atom &A = atoms[x.a];
    switch (A.kind) {
    case A_INPUT: s += A.name; break;
    case A_OPAQUE: s += "?" + A.name; break;
    case A_FLOOR: s += depth > 3 ? "floor(..)" : A.d == SIGND ? "neg(" + show(A.def, depth + 1) + ")" : "floor((" + show(A.def, depth + 1) + ")/" + str128(A.d) + ")"; break;
    case A_ALIAS: s += depth > 3 ? "(..)" : "(" + show(A.def, depth + 1) + ")"; break;
    case A_EQZ: s += depth > 3 ? "eqz(..)" : "eqz(" + show(A.def, depth + 1) + ")"; break;
    case A_MUL: s += depth > 3 ? "mul(..)" : "(" + show(A.def, depth + 1) + ")*(" + show(A.def2, depth + 1) + ")"; break;
    case A_CASE: {
      s += "case(" + (depth > 3 ? std::string("..") : show(A.def, depth + 1));
      if (depth <= 3) for (auto &al : A.alts) s += "; " + str128(al.first) + "->" + show(al.second, depth + 1);
      s += ")"; break; }
    }
  }
  if (f.k != 0 || s.empty()) { if (!s.empty()) s += " + "; s += str128(f.k); }
  return s;
}
