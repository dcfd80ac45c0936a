// Entailment in the polyhedral part of the domain: path constraints and the definitions of atoms are linear
// inequalities; a claim f >= 0 holds when its integer negation is refuted by Fourier-Motzkin elimination with
// integer tightening, after splitting on the finitely many cases of selector atoms.
#include "dom.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <chrono>
#include <algorithm>
#include <map>
#include <set>
#include <cstdlib>
#include <cstdio>
extern const i128 SIGND;
namespace {
typedef std::map<AtomId, i128> Row;
struct Lin { Row t; i128 k = 0; }; // sum + k >= 0
i128 gcd(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
const i128 LIM = ((i128)1) << 124;
bool mulOk(i128 a, i128 b, i128 &r) { return !__builtin_mul_overflow(a, b, &r) && r < LIM && r > -LIM; }
bool comb(const Lin &p, i128 a, const Lin &q, i128 b, Lin &r) { // a*p + b*q, a,b > 0
  i128 x, y;
  r.t.clear();
  if (!mulOk(p.k, a, x) || !mulOk(q.k, b, y)) return false;
  r.k = x + y;
  for (auto &e : p.t) { if (!mulOk(e.second, a, x)) return false; r.t[e.first] = x; }
  for (auto &e : q.t) { if (!mulOk(e.second, b, y)) return false; i128 &c = r.t[e.first]; c += y; if (c >= LIM || c <= -LIM) return false; if (c == 0) r.t.erase(e.first); }
  return true;
}
void tighten(Lin &l) {
  i128 g = 0;
  for (auto &e : l.t) g = gcd(g, e.second);
  if (g > 1) { for (auto &e : l.t) e.second /= g; l.k = floordiv(l.k, g); }
}
struct Sys {
  std::vector<Lin> ge;
  void add(const Form &f, i128 s, i128 k) { // s*f + k >= 0
    Lin l; if (!mulOk(f.k, s, l.k)) return;
    l.k += k;
    for (auto &x : f.t) { i128 c; if (!mulOk(x.c, s, c)) return; l.t[x.a] = c; }
    ge.push_back(l);
  }
  void range(const Form &f, Itv iv) {
    if (iv.lo > -BIG) add(f, 1, -iv.lo);
    if (iv.hi < BIG) add(f, -1, iv.hi);
  }
};
// Farkas: multipliers l >= 0 with sum l*row = 0 and sum l*constant = -1, by exact simplex (phase 1, Bland's rule)
typedef boost::multiprecision::cpp_rational Rat;
bool lpRefute(const std::vector<Lin> &v) {
  std::map<AtomId, size_t> id; for (auto &l : v) for (auto &e : l.t) id.emplace(e.first, id.size());
  size_t n = id.size() + 1, m = v.size();
  if (m > 600 || n > 150) return false;
  auto rat = [](i128 x) { bool ng = x < 0; unsigned __int128 u = ng ? -(unsigned __int128)x : x; boost::multiprecision::cpp_int c = (uint64_t)(u >> 64); c <<= 64; c += (uint64_t)u; return Rat(ng ? -c : c); };
  std::vector<std::vector<Rat>> T(n, std::vector<Rat>(m + 1)); // rows: equations, last column: right-hand side (>= 0); artificial basis
  for (size_t j = 0; j < m; j++) { for (auto &e : v[j].t) T[id[e.first]][j] = rat(e.second); T[n - 1][j] = rat(-v[j].k); }
  T[n - 1][m] = 1;
  std::vector<Rat> z(m + 1); std::vector<size_t> basis(n, (size_t)-1);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= m; j++) z[j] += T[i][j]; // maximise the decrease of the artificial sum
  for (int it = 0; it < 3000; it++) {
    if (z[m] == 0) return true;
    size_t c = m; for (size_t j = 0; j < m; j++) if (z[j] > 0) { c = j; break; }
    if (c == m) return false;
    size_t r = n; Rat best;
    for (size_t i = 0; i < n; i++) if (T[i][c] > 0) { Rat q = T[i][m] / T[i][c]; if (r == n || q < best || (q == best && basis[i] > basis[r])) { r = i; best = q; } }
    if (r == n) return false;
    Rat p = T[r][c]; for (auto &x : T[r]) if (x != 0) x /= p;
    for (size_t i = 0; i < n; i++) if (i != r && T[i][c] != 0) { Rat f = T[i][c]; for (size_t j = 0; j <= m; j++) if (T[r][j] != 0) T[i][j] -= f * T[r][j]; }
    if (z[c] != 0) { Rat f = z[c]; for (size_t j = 0; j <= m; j++) if (T[r][j] != 0) z[j] -= f * T[r][j]; }
    basis[r] = c;
  }
  return false;
}
bool refute(std::vector<Lin> v, size_t cap) {
  std::vector<Lin> first;
  for (;;) {
    // normalise, drop duplicates (keep the tightest)
    std::map<std::vector<std::pair<AtomId, i128>>, i128> best;
    for (auto &l : v) {
      tighten(l);
      if (l.t.empty()) { if (l.k < 0) return true; continue; }
      std::vector<std::pair<AtomId, i128>> key(l.t.begin(), l.t.end());
      auto it = best.find(key);
      if (it == best.end()) best.emplace(key, l.k); else it->second = std::min(it->second, l.k);
    }
    // opposite rows: contradiction or equality
    for (auto &b : best) {
      auto neg = b.first; for (auto &e : neg) e.second = -e.second;
      auto it = best.find(neg);
      if (it != best.end() && b.second + it->second < 0) return true;
    }
    if (best.empty()) return false;
    v.clear();
    for (auto &b : best) { Lin l; l.t = Row(b.first.begin(), b.first.end()); l.k = b.second; v.push_back(l); }
    if (first.empty()) first = v;
    // equality with a unit coefficient: substitute
    int ei = -1; AtomId ev = 0; i128 ec = 0;
    for (size_t i = 0; i < v.size() && ei < 0; i++) {
      auto neg = std::vector<std::pair<AtomId, i128>>(v[i].t.begin(), v[i].t.end()); for (auto &e : neg) e.second = -e.second;
      auto it = best.find(neg);
      if (it == best.end() || v[i].k + it->second != 0) continue;
      for (auto &e : v[i].t) if (e.second == 1 || e.second == -1) { ei = i; ev = e.first; ec = e.second; break; }
    }
    if (ei >= 0) {
      Lin eq = v[ei]; std::vector<Lin> w;
      for (auto &l : v) {
        auto it = l.t.find(ev);
        if (it == l.t.end()) { w.push_back(l); continue; }
        i128 c = it->second; Lin r, e2 = eq;
        // l - (c/ec)*eq
        i128 s = -c * ec; if (s < 0) { for (auto &e : e2.t) e.second = -e.second; e2.k = -e2.k; s = -s; }
        if (comb(l, 1, e2, s, r)) w.push_back(r);
      }
      v.swap(w); continue;
    }
    // the cheapest variable among those whose elimination is exact over the integers (one side has unit coefficients)
    struct Cnt { size_t p = 0, n = 0; bool up = true, un = true; };
    std::map<AtomId, Cnt> cnt;
    for (auto &l : v) for (auto &e : l.t) { Cnt &c = cnt[e.first]; if (e.second > 0) { c.p++; c.up &= e.second == 1; } else { c.n++; c.un &= e.second == -1; } }
    AtomId bv = 0; size_t bc = (size_t)-1;
    for (auto &c : cnt) { size_t k = c.second.p * c.second.n; if (!(c.second.up || c.second.un)) k += 1000000; if (k < bc) { bc = k; bv = c.first; } }
    std::vector<Lin> pos, neg, w;
    for (auto &l : v) { auto it = l.t.find(bv); if (it == l.t.end()) w.push_back(l); else (it->second > 0 ? pos : neg).push_back(l); }
    if (w.size() + pos.size() * neg.size() > cap) return lpRefute(first);
    for (auto &p : pos) for (auto &q : neg) {
      i128 a = p.t[bv], b = -q.t[bv], g = gcd(a, b); Lin r;
      if (comb(p, b / g, q, a / g, r)) w.push_back(r);
    }
    v.swap(w);
  }
}
struct Prover {
  std::map<AtomId, i128> fix; // selector values decided so far
  const Env &env; std::vector<Form> goals; // claims to refute: all conjoined (each >= 0)
  uint64_t nodes = 0, limit = 4000;
  std::chrono::steady_clock::time_point stop = std::chrono::steady_clock::now() + std::chrono::seconds(90);
  Prover(const Env &e) : env(e) {}
  bool isSel(AtomId a) { auto &A = C->atoms[a]; return A.kind == A_EQZ || (A.kind == A_FLOOR && A.d == SIGND); }
  // the constraints that share an atom, directly or through others, with the goals (all of them without goals)
  std::vector<std::pair<const Form *, Itv>> facts; std::vector<Form> overForms; bool sliced = false;
  void slice() {
    if (sliced) return;
    sliced = true; overForms.reserve(env.over.size());
    std::vector<std::pair<const Form *, Itv>> all;
    for (auto &o : env.over) { Form f; f.t.push_back({o.first, 1}); overForms.push_back(f); all.push_back({&overForms.back(), o.second}); }
    for (auto &c : env.cons) all.push_back({&c.first, c.second});
    if (goals.empty()) { facts = all; return; }
    auto closure = [](const Form &f0, std::set<AtomId> &seen) {
      std::vector<AtomId> wl; auto push = [&](const Form &f) { for (auto &x : f.t) if (seen.insert(x.a).second) wl.push_back(x.a); };
      push(f0);
      while (!wl.empty()) { AtomId a = wl.back(); wl.pop_back(); const Atom &A = C->atoms[a]; if (A.kind == A_FLOOR || A.kind == A_ALIAS || A.kind == A_EQZ || A.kind == A_CASE) { push(A.def); for (auto &al : A.alts) push(al.second); } }
    };
    std::vector<std::set<AtomId>> cl(all.size()); std::map<AtomId, std::vector<size_t>> by;
    for (size_t i = 0; i < all.size(); i++) { closure(*all[i].first, cl[i]); for (auto a : cl[i]) by[a].push_back(i); }
    std::set<AtomId> seen; for (auto &g : goals) closure(g, seen);
    std::vector<AtomId> wl(seen.begin(), seen.end()); std::vector<bool> in(all.size());
    while (!wl.empty()) { AtomId a = wl.back(); wl.pop_back(); for (auto i : by[a]) if (!in[i]) { in[i] = true; for (auto b : cl[i]) if (seen.insert(b).second) wl.push_back(b); } }
    for (size_t i = 0; i < all.size(); i++) if (in[i]) facts.push_back(all[i]);
  }
  // builds the system for the current assignment; returns the selectors still open
  bool build(Sys &s, std::vector<AtomId> &open) {
    std::set<AtomId> seen; std::vector<AtomId> wl, order;
    auto push = [&](const Form &f) { for (auto &x : f.t) if (seen.insert(x.a).second) wl.push_back(x.a); };
    for (auto &g : goals) { s.add(g, 1, 0); push(g); }
    slice();
    for (auto &c : facts) s.range(*c.first, c.second);
    std::vector<AtomId> late; std::vector<bool> used(facts.size());
    // what the goals depend on first, then the facts about it, then the rest
    for (size_t i = 0, phase = 0;; i++) {
      while (i >= wl.size() && phase < 3) {
        phase++;
        if (phase == 1) { auto g = seen; for (size_t k = 0; k < facts.size(); k++) { bool hit = false; for (auto &x : facts[k].first->t) hit |= g.count(x.a) > 0; if (hit) { used[k] = true; push(*facts[k].first); } } }
        if (phase == 2) for (size_t k = 0; k < facts.size(); k++) if (!used[k]) push(*facts[k].first);
      }
      if (i >= wl.size()) break;
      AtomId a = wl[i]; const Atom A = C->atoms[a]; Form f; f.t.push_back({a, 1});
      Itv iv = A.iv;
      auto fx = fix.find(a);
      if (fx != fix.end()) { i128 v = A.kind == A_EQZ && fx->second == 2 ? 0 : fx->second; iv = meet(iv, {v, v}); }
      if (iv.empty()) return false;
      s.range(f, iv);
      switch (A.kind) {
      case A_FLOOR:
        push(A.def);
        if (A.d == SIGND) {
          if (fx == fix.end()) { if (iv.lo != iv.hi) open.push_back(a); else { if (iv.lo == 0) s.add(A.def, 1, 0); else s.add(A.def, -1, -1); } }
          else if (fx->second == 0) s.add(A.def, 1, 0); else s.add(A.def, -1, -1);
        } else {
          s.add(fadd(A.def, f, -A.d), 1, 0); s.add(fadd(A.def, f, -A.d), -1, A.d - 1);
          if (fx == fix.end() && iv.hi > iv.lo && iv.hi - iv.lo <= 4) late.push_back(a);
        }
        break;
      case A_ALIAS: push(A.def); s.add(fadd(A.def, f, -1), 1, 0); s.add(fadd(A.def, f, -1), -1, 0); break;
      case A_EQZ:
        push(A.def);
        // value 1: def = 0; value 0 with def > 0: decision 0; value 0 with def < 0: decision 2
        if (fx == fix.end()) open.push_back(a);
        break;
      case A_CASE: {
        push(A.def);
        if (A.def.t.size() == 1 && A.def.k == 0 && A.def.t[0].c == 1) {
          AtomId sl = A.def.t[0].a; auto fs = fix.find(sl); i128 val = 0; bool have = fs != fix.end();
          if (have) val = fs->second == 2 && C->atoms[sl].kind == A_EQZ ? 0 : fs->second;
          if (have) { for (auto &al : A.alts) if (al.first == val) { s.add(fadd(al.second, f, -1), 1, 0); s.add(fadd(al.second, f, -1), -1, 0); push(al.second); } }
          else if (!isSel(sl)) { Itv sv = C->atoms[sl].iv; if (sv.hi - sv.lo <= 8) late.push_back(sl); }
        }
        break; }
      default: break;
      }
    }
    for (auto a : late) if (!fix.count(a)) open.push_back(a);
    return true;
  }
  bool run() {
    if (++nodes > limit || std::chrono::steady_clock::now() > stop) return false;
    Sys s; std::vector<AtomId> open;
    if (!build(s, open)) return true;
    // decided equality selectors
    for (auto &fx : fix) {
      const Atom &A = C->atoms[fx.first];
      if (A.kind == A_EQZ) { if (fx.second == 1) { s.add(A.def, 1, 0); s.add(A.def, -1, 0); } else if (fx.second == 0) s.add(A.def, 1, -1); else s.add(A.def, -1, -1); }
    }
    if (refute(s.ge, 3000)) return true;
    // once, before the first split of a large problem: selectors with one possible value
    if (nodes == 1 && open.size() >= 6) {
      for (int round = 0; round < 4; round++) {
        size_t before = fix.size();
        for (auto a : open) {
          if (fix.count(a) || std::chrono::steady_clock::now() > stop) continue;
          const Atom &A = C->atoms[a]; if (!(A.kind == A_FLOOR && A.d == SIGND)) continue;
          bool out[2]; for (int v = 0; v < 2; v++) { Sys t = s; if (v == 0) t.add(A.def, 1, 0); else t.add(A.def, -1, -1); out[v] = refute(t.ge, 400); }
          if (out[0] && out[1]) return true;
          if (out[0]) fix[a] = -1; else if (out[1]) fix[a] = 0;
        }
        if (fix.size() == before) break;
        s = Sys(); open.clear(); if (!build(s, open)) return true;
        if (refute(s.ge, 3000)) return true;
      }
    }
    // a selector reached from the goals first
    for (auto a : open) {
      if (fix.count(a)) continue;
      const Atom &A = C->atoms[a]; std::vector<i128> vals;
      if (A.kind == A_EQZ) vals = {0, 1, 2}; else for (i128 v = A.iv.lo; v <= A.iv.hi; v++) vals.push_back(v);
      bool all = true;
      for (auto v : vals) { fix[a] = v; if (!run()) { all = false; break; } }
      fix.erase(a);
      return all;
    }
    // all cases decided: floors of ordered arguments are ordered
    {
      std::set<AtomId> fl;
      for (auto &l : s.ge) for (auto &e : l.t) if (C->atoms[e.first].kind == A_FLOOR && C->atoms[e.first].d != SIGND) fl.insert(e.first);
      if (fl.size() <= 12) {
        bool more = true; std::set<std::pair<AtomId, AtomId>> done;
        for (int round = 0; round < 3 && more; round++) {
          more = false;
          for (auto a : fl) for (auto b : fl) {
            if (a == b || C->atoms[a].d != C->atoms[b].d || done.count({a, b})) continue;
            // the least k in -3..3 with def_a <= def_b + k*d, and with a <= b + k, if any
            i128 d = C->atoms[a].d; Form df = fadd(C->atoms[b].def, C->atoms[a].def, -1), ff = fadd(C->atomForm(b), C->atomForm(a), -1);
            auto least = [&](const Form &g, i128 d) -> i128 {
              auto holds = [&](i128 j) {
                Sys t; for (auto &l : s.ge) if (l.t.size() <= 2) t.ge.push_back(l); // the simple facts first
                t.add(g, -1, -1 - j * d); if (refute(t.ge, 3000)) return true;
                t = s; t.add(g, -1, -1 - j * d); return refute(t.ge, 3000); };
              if (holds(0)) { i128 k = 0; while (k > -3 && holds(k - 1)) k--; return k; }
              for (i128 j = 1; j <= 3; j++) if (holds(j)) return j;
              return 4;
            };
            i128 k = least(df, d), k2 = least(ff, 1);
            if (k == 4 && k2 == 4) continue;
            done.insert({a, b}); more = true;
            if (k < 4) s.add(df, 1, k * d);
            k2 = std::min(k, k2);
            if (k2 < 4) s.add(ff, 1, k2);
          }
          if (more && refute(s.ge, 3000)) return true;
        }
      }
    }
    if (getenv("POLYDBG")) { std::set<AtomId> fl; for (auto &l : s.ge) for (auto &e : l.t) if (C->atoms[e.first].kind == A_FLOOR && C->atoms[e.first].d != SIGND) fl.insert(e.first); fprintf(stderr, "floors:"); for (auto a : fl) fprintf(stderr, " %u:%s/%s", a, "", str128(C->atoms[a].d).c_str()); fprintf(stderr, "\n"); fprintf(stderr, "--- open leaf\n"); for (auto &fx : fix) fprintf(stderr, " fix %s = %s\n", C->show(C->atomForm(fx.first)).c_str(), str128(fx.second).c_str());
      for (auto &l : s.ge) { fprintf(stderr, "  "); for (auto &e : l.t) fprintf(stderr, "%s*%c%u ", str128(e.second).c_str(), "xfacmeo"[C->atoms[e.first].kind], e.first); fprintf(stderr, "+ %s >= 0\n", str128(l.k).c_str()); } }
    return false;
  }
};
} // namespace
// f >= 0 on every state of the environment?
bool polyEntails(const Form &f, const Env &e, int seconds) {
  Prover p(e); p.stop = std::chrono::steady_clock::now() + std::chrono::seconds(seconds); p.goals.push_back(fadd(Form((i128)-1), f, -1)); // -f - 1 >= 0
  return p.run();
}
bool polyInfeasible(const Env &e) { Prover p(e); return p.run(); }
