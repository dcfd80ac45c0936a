// Abstract domain: interval x linear form over definitional atoms x congruence modulo Q.
// Nothing here executes the analysed program: values are abstract, merges are joins.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
#include <deque>

typedef __int128 i128;
typedef uint32_t AtomId;
static const int64_t QMOD = 12289;

std::string str128(i128 v);
i128 parse128(const std::string &s);

struct Itv {
  i128 lo, hi;
  bool empty() const { return lo > hi; }
  bool point() const { return lo == hi; }
};
extern const i128 BIG; // saturation
inline i128 sat(i128 v) { return v > BIG ? BIG : v < -BIG ? -BIG : v; }
i128 mulSat(i128 a, i128 b);
inline i128 addSat(i128 a, i128 b) { return sat(a + b); }
i128 floordiv(i128 a, i128 b); // b > 0
i128 ceildiv(i128 a, i128 b);
inline Itv meet(Itv a, Itv b) { return {a.lo > b.lo ? a.lo : b.lo, a.hi < b.hi ? a.hi : b.hi}; }
inline Itv hull(Itv a, Itv b) { return {a.lo < b.lo ? a.lo : b.lo, a.hi > b.hi ? a.hi : b.hi}; }
inline bool inside(Itv a, Itv b) { return a.lo >= b.lo && a.hi <= b.hi; }
Itv scaleItv(Itv a, i128 c);
// +-BIG stand for infinities: they absorb, outwards
inline Itv addItv(Itv a, Itv b) {
  return {a.lo <= -BIG || b.lo <= -BIG ? -BIG : addSat(a.lo, b.lo), a.hi >= BIG || b.hi >= BIG ? BIG : addSat(a.hi, b.hi)};
}
inline Itv divItv(Itv a, i128 d) { return {a.lo <= -BIG ? -BIG : floordiv(a.lo, d), a.hi >= BIG ? BIG : floordiv(a.hi, d)}; }
inline Itv negItv(Itv a) { return {-a.hi, -a.lo}; }
Itv mulItv(Itv a, Itv b);

struct Term { AtomId a; i128 c; bool operator==(const Term &o) const { return a == o.a && c == o.c; } };
struct Form {
  i128 k = 0;
  std::vector<Term> t; // sorted by atom id
  Form() {}
  explicit Form(i128 c) : k(c) {}
  bool isConst() const { return t.empty(); }
  i128 coef(AtomId a) const { for (auto &x : t) if (x.a == a) return x.c; return 0; }
  bool operator==(const Form &o) const { return k == o.k && t == o.t; }
  bool operator!=(const Form &o) const { return !(*this == o); }
};
Form fadd(const Form &a, const Form &b, i128 cb = 1); // a + cb*b
Form fscale(const Form &a, i128 c);

// Residues modulo Q: k + sum of coefficients times symbols. A coefficient is a monomial c*X^e, where X is
// a formal root with X^monoN = -1 (monoN = 0: no formal root, e = 0). Packed as c | e << 14; 0 is zero.
typedef uint32_t Mono;
struct CT { uint32_t s; Mono c; };
struct Cong {
  Mono k = 0;
  std::vector<CT> v; // sorted by symbol
};
typedef std::shared_ptr<const Cong> CongP;
inline int64_t mcoef(Mono m) { return m & 16383; }
inline int mexp(Mono m) { return m >> 14; }

struct Space { std::string name; int n; };
inline uint32_t symId(int space, int idx) { return (uint32_t)space << 20 | idx; }

enum AKind { A_INPUT, A_FLOOR, A_ALIAS, A_CASE, A_MUL, A_EQZ, A_OPAQUE };
struct Atom {
  AKind kind;
  Itv iv;
  CongP cong;
  Form def, def2;   // FLOOR: floor(def/d); ALIAS: def; MUL: def*def2; EQZ: def==0; CASE: selector in def
  i128 d = 0;
  std::vector<std::pair<i128, Form>> alts; // CASE
  std::string name;
};

struct Env {
  std::vector<std::pair<AtomId, Itv>> over;
  std::vector<std::pair<Form, Itv>> cons; // multi-atom primitive forms
  bool empty() const { return over.empty() && cons.empty(); }
};

struct Ctx {
  std::deque<Atom> atoms;
  std::vector<Space> spaces;
  std::unordered_map<std::string, AtomId> floorMap, aliasMap, caseMap, mulMap, eqzMap;
  std::unordered_map<std::string, Itv> boundCache;
  std::vector<std::pair<CongP, CongP>> prodSyms;
  std::unordered_map<std::string, int> prodMap;
  int prodSpace = -1;
  int monoN = 0;
  Mono mk(int64_t c, int64_t e) const;
  bool madd(Mono a, Mono b, Mono &r) const;
  Mono mmul(Mono a, Mono b) const;
  Env env; // current path condition
  uint64_t nBounds = 0, nSplits = 0;

  AtomId newAtom(AKind k, Itv iv);
  Form atomForm(AtomId a) { Form f; f.t.push_back({a, 1}); return f; }
  Form input(Itv iv, CongP c, const std::string &name);
  Form opaque(Itv iv, const std::string &why);

  // naming: f = g*A + k with A a single atom
  Form name(const Form &f, Itv iv);
  Form canon(Form f); // contraction of alias definitions shared with floor atoms
  Form floorDiv(const Form &f, Itv iv, i128 d);
  Form ge0(const Form &f, Itv iv);
  Form eqz(const Form &f, Itv iv);
  Form mul(const Form &a, Itv ia, const Form &b, Itv ib);
  Form makeCase(const Form &sel, std::vector<std::pair<i128, Form>> alts);
  Form ite(const Form &cond, const Form &a, const Form &b); // cond in {0,1}

  bool addCons(Env &e, const Form &f, Itv iv, int depth = 0);
  Itv range(AtomId a, const Env &e, int depth);
  Itv boundE(const Form &f, const Env &e, int depth, int split);
  Itv bound(const Form &f);             // under ctx env
  bool equalForms(const Form &a, const Form &b, int depth = 0);
  Form expandAll(const Form &f);
  // structural normal form: aliases expanded, nested definitions renamed to canonical ids
  Form normalForm(const Form &f);
  std::unordered_map<AtomId, Form> nfMemo;
  std::unordered_map<std::string, AtomId> nfIds;

  CongP congOf(const Form &f);
  CongP atomCong(AtomId a);
  CongP cconst(int64_t k);
  CongP cadd(const CongP &a, const CongP &b, Mono cb);
  CongP cmul(const CongP &a, const CongP &b);
  static bool ceq(const CongP &a, const CongP &b);
  static bool cIsConst(const CongP &a, int64_t *k);
  static bool cIsMono(const CongP &a) { return a && a->v.empty(); }
  Mono mint(i128 k) const { int64_t r = (int64_t)(k % QMOD); if (r < 0) r += QMOD; return (Mono)r; }
  std::string show(const Form &f, int depth = 0);
  std::string keyOf(const Form &f);
};
extern Ctx *C;
