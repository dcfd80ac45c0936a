#include "val.h"
#include <algorithm>
Mem *M = nullptr;

// integers wider than 64 bits are handled as long as their values stay far from wrapping around
static const int WIDE = 118;
static i128 pow2(int w) { return ((i128)1) << (w > 64 ? WIDE : w); }
Itv srange(int w) { if (w == 1) return {0, 1}; i128 h = pow2(w) / 2; return {-h, h - 1}; }
Itv urange(int w) { return {0, pow2(w) - 1}; }
Val cInt(i128 k, int w) {
  Val v; v.kind = V_INT; v.w = w;
  i128 m = pow2(w);
  if (w > 64 && (k >= m / 2 || k < -m / 2)) throw Fatal("integer of more than 64 bits out of reach");
  k %= m; if (k < 0) k += m;
  if (w > 1 && k >= m / 2) k -= m;
  v.f = Form(k); v.iv = {k, k};
  return v;
}
Val simplify(Val v) {
  if (v.kind != V_INT) return v;
  if (v.f.isConst()) return cInt(v.f.k, v.w);
  if (v.iv.empty()) { v.iv = C->bound(v.f); }
  if (v.iv.lo == v.iv.hi) return cInt(v.iv.lo, v.w);
  if (v.iv.hi - v.iv.lo < QMOD) {
    CongP c = C->congOf(v.f); int64_t k;
    if (c && Ctx::cIsConst(c, &k)) {
      i128 r = v.iv.lo + (((k - v.iv.lo) % QMOD) + QMOD) % QMOD;
      if (r + QMOD > v.iv.hi && r <= v.iv.hi) return cInt(r, v.w);
    }
  }
  size_t n = v.f.t.size();
  if (n > 8) {
    if (n > 24 || C->congOf(v.f)) v.f = C->name(v.f, v.iv);
  }
  return v;
}
Val mkInt(const Form &f, Itv iv, int w) {
  Val v; v.kind = V_INT; v.w = w; v.f = f; v.iv = iv;
  return simplify(v);
}
static bool fits(Itv iv, int w) { return inside(iv, srange(w)) || inside(iv, urange(w)); }
Val wrapTo(const Form &f0, Itv iv, int w) {
  if (f0.isConst()) return cInt(f0.k, w);
  Form f = C->canon(f0);
  if (!fits(iv, w) || f.t.size() > 1) iv = meet(iv, C->bound(f));
  if (fits(iv, w)) return mkInt(f, iv, w);
  if (w > 64) throw Fatal("integer of more than 64 bits out of reach");
  // reduce coefficients modulo 2^w
  i128 m = pow2(w); Form g; bool ch = false;
  g.k = f.k % m; if (g.k != f.k) ch = true;
  if (g.k >= m / 2) g.k -= m; if (g.k < -m / 2) g.k += m;
  for (auto &x : f.t) {
    i128 c = x.c % m; if (c > m / 2) c -= m; if (c < -m / 2) c += m;
    if (c != x.c) ch = true;
    if (c) g.t.push_back({x.a, c});
  }
  if (ch || g.k != f.k) {
    if (g.isConst()) return cInt(g.k, w);
    Itv b = C->bound(g);
    if (fits(b, w)) return mkInt(g, b, w);
    f = g; iv = b;
  }
  Form h = f; h.k += m / 2;
  Form q = C->floorDiv(h, addItv(iv, {m / 2, m / 2}), m);
  Form r = C->canon(fadd(f, q, -m));
  Itv b = meet(C->bound(r), {-(m / 2), m / 2 - 1});
  if (w == 1) return mkInt(C->opaque({0, 1}, "wrap1"), {0, 1}, 1);
  return mkInt(r, b, w);
}
Form toSigned(const Val &v, Itv *ivp) {
  Itv s = srange(v.w);
  if (v.kind != V_INT) throw Fatal("integer operation on a non-integer value");
  if (inside(v.iv, s)) { *ivp = v.iv; return v.f; }
  i128 m = ((i128)1) << v.w;
  if (v.iv.lo >= m / 2 && v.iv.hi < m) { Form r = v.f; r.k -= m; *ivp = {v.iv.lo - m, v.iv.hi - m}; return r; }
  Form h = v.f; h.k += m / 2;
  Form q = C->floorDiv(h, addItv(v.iv, {m / 2, m / 2}), m);
  Form r = C->canon(fadd(v.f, q, -m));
  *ivp = meet(C->bound(r), s);
  return r;
}
Form toUnsigned(const Val &v, Itv *ivp) {
  Itv s = urange(v.w);
  if (v.kind != V_INT) throw Fatal("integer operation on a non-integer value");
  if (inside(v.iv, s)) { *ivp = v.iv; return v.f; }
  i128 m = ((i128)1) << v.w;
  if (v.iv.hi < 0 && v.iv.lo >= -m) { Form r = v.f; r.k += m; *ivp = {v.iv.lo + m, v.iv.hi + m}; return r; }
  Form q = C->floorDiv(v.f, v.iv, m);
  Form r = C->canon(fadd(v.f, q, -m));
  *ivp = meet(C->bound(r), s);
  return r;
}
static Val undef(int w) { Val v; v.w = w; return v; }
#define UND(a, b) if ((a).kind == V_UNDEF || (b).kind == V_UNDEF) return undef(w);
#define ARITH M->nArith++;
bool polyEntails(const Form &f, const Env &e, int seconds);
// may f leave the signed range?  Path conditions that relate several quantities are consulted only when its interval does not settle it
static bool leaves(const Form &f, Itv &iv, int w) {
  Itv s = srange(w);
  if (inside(iv, s)) return false;
  if (C->env.empty() || M->known("overflow")) return true;
  if (iv.hi > s.hi) { if (!polyEntails(fadd(Form(s.hi), f, -1), C->env, 10)) return true; iv.hi = s.hi; }
  if (iv.lo < s.lo) { if (!polyEntails(fadd(f, Form(-s.lo)), C->env, 10)) return true; iv.lo = s.lo; }
  return false;
}
Val vAdd(const Val &a, const Val &b, int w, bool *ovf) {
  UND(a, b) ARITH
  if (ovf) {
    Itv ia, ib; Form fa = toSigned(a, &ia), fb = toSigned(b, &ib);
    Form f = C->canon(fadd(fa, fb)); Itv iv = addItv(ia, ib);
    if (!inside(iv, srange(w)) || f.t.size() > 1) iv = meet(iv, C->bound(f));
    *ovf = leaves(f, iv, w);
    return wrapTo(f, iv, w);
  }
  return wrapTo(fadd(a.f, b.f), addItv(a.iv, b.iv), w);
}
Val vSub(const Val &a, const Val &b, int w, bool *ovf) {
  UND(a, b) ARITH
  if (ovf) {
    Itv ia, ib; Form fa = toSigned(a, &ia), fb = toSigned(b, &ib);
    Form f = C->canon(fadd(fa, fb, -1)); Itv iv = addItv(ia, {-ib.hi, -ib.lo});
    if (!inside(iv, srange(w)) || f.t.size() > 1) iv = meet(iv, C->bound(f));
    *ovf = leaves(f, iv, w);
    return wrapTo(f, iv, w);
  }
  return wrapTo(fadd(a.f, b.f, -1), addItv(a.iv, {-b.iv.hi, -b.iv.lo}), w);
}
Val vMul(const Val &a, const Val &b, int w, bool *ovf) {
  UND(a, b) ARITH
  Itv ia = a.iv, ib = b.iv; Form fa = a.f, fb = b.f;
  if (ovf || !(a.isConst() || b.isConst())) { fa = toSigned(a, &ia); fb = toSigned(b, &ib); }
  if (!ovf && !(a.isConst() || b.isConst()) && w < 64) {
    // prefer the representation with small magnitude: unsigned values already in u-range keep it
    if (inside(a.iv, urange(w)) && inside(b.iv, urange(w))) { fa = a.f; ia = a.iv; fb = b.f; ib = b.iv; }
  }
  Form f = C->mul(fa, ia, fb, ib);
  Itv iv = meet(mulItv(ia, ib), C->bound(f));
  if (ovf) *ovf = leaves(f, iv, w);
  return wrapTo(f, iv, w);
}
static bool smallVal(const Val &v, i128 lim) { return v.kind == V_INT && !v.f.isConst() && v.iv.hi - v.iv.lo <= lim; }
// apply op for every value of the small operand x
static Val caseOp(const Val &x, int w, std::function<Val(const Val &)> op) {
  std::vector<std::pair<i128, Form>> alts; Itv u = {BIG, -BIG};
  for (i128 v = x.iv.lo; v <= x.iv.hi; v++) {
    // the alternative is only needed when feasible
    Val r = op(cInt(v, x.w));
    if (r.kind == V_UNDEF) return undef(w);
    Itv i; Form f = toSigned(r, &i);
    alts.push_back({v, f}); u = hull(u, i);
  }
  Form f = C->makeCase(x.f, alts);
  return wrapTo(f, meet(u, C->bound(f)), w);
}
static Val andConst(const Val &x, i128 m, int w) {
  // m taken as an unsigned w-bit mask
  if (w > 64 && (m < 0 || x.iv.lo < 0) && m != -1) throw Fatal("mask of more than 64 bits");
  i128 full = pow2(w) - 1;
  m &= full;
  if (m == 0) return cInt(0, w);
  if (m == full) return x;
  if (smallVal(x, 3)) return caseOp(x, w, [&](const Val &c) { i128 k = c.f.k & full; return cInt(k & m, w); });
  Form r; bool top = false;
  for (int k = 0; k < w;) {
    if (!((m >> k) & 1)) { k++; continue; }
    int l = k; while (l < w && ((m >> l) & 1)) l++;
    Form a = C->floorDiv(x.f, x.iv, ((i128)1) << k);
    r = fadd(r, a, ((i128)1) << k);
    if (l < w) { Form b = C->floorDiv(x.f, x.iv, ((i128)1) << l); r = fadd(r, b, -(((i128)1) << l)); }
    else top = true;
    k = l;
  }
  r = C->canon(r);
  Itv iv = C->bound(r);
  if (!top) iv = meet(iv, {0, m});
  return wrapTo(r, iv, w);
}
// an otherwise unknown bitwise result whose sign bit follows from those of the operands
static Val signSplit(const Form &neg, Itv iv, int w) {
  Itv lo = {iv.lo, -1}, hi = {0, iv.hi};
  Form n = C->opaque(lo, "bits"), p = C->opaque(hi, "bits");
  return mkInt(C->ite(neg, n, p), iv, w);
}
static Form negBit(const Val &v) { Itv i; Form f = toSigned(v, &i); return fadd(Form(1), C->ge0(f, i), -1); }
Val vAnd(const Val &a, const Val &b, int w) {
  UND(a, b) ARITH
  if (a.isConst() && b.isConst()) return cInt(a.f.k & b.f.k, w);
  if (b.isConst()) return andConst(a, b.f.k, w);
  if (a.isConst()) return andConst(b, a.f.k, w);
  if (a.f == b.f) return a;
  if (smallVal(a, 3)) return caseOp(a, w, [&](const Val &c) { return vAnd(c, b, w); });
  if (smallVal(b, 3)) return caseOp(b, w, [&](const Val &c) { return vAnd(a, c, w); });
  Itv iv = srange(w);
  if (a.iv.lo >= 0 && b.iv.lo >= 0) iv = {0, std::min(a.iv.hi, b.iv.hi)};
  else if (a.iv.lo >= 0) iv = {0, a.iv.hi};
  else if (b.iv.lo >= 0) iv = {0, b.iv.hi};
  if (w >= 32 && iv.lo < 0 && iv.hi >= 0) { // negative when both operands are
    Form na = negBit(a), nb = negBit(b);
    return signSplit(C->ite(na, nb, Form((i128)0)), iv, w);
  }
  return mkInt(C->opaque(iv, "and"), iv, w);
}
Val vOr(const Val &a, const Val &b, int w) {
  UND(a, b)
  if (a.isConst() && b.isConst()) return cInt(a.f.k | b.f.k, w);
  if (a.f == b.f) return a;
  if (w >= 32 && !a.isConst() && !b.isConst() && !smallVal(a, 3) && !smallVal(b, 3)) {
    Itv ia, ib; toSigned(a, &ia); toSigned(b, &ib);
    if ((ia.lo < 0 && ia.hi >= 0) || (ib.lo < 0 && ib.hi >= 0)) { Form na = negBit(a), nb = negBit(b); return signSplit(C->ite(na, Form((i128)1), nb), srange(w), w); }
  }
  Val n = vAnd(a, b, w); // a|b = a + b - (a&b)
  Itv ia, ib, in; Form fa = toSigned(a, &ia), fb = toSigned(b, &ib), fn = toSigned(n, &in);
  Form f = C->canon(fadd(fadd(fa, fb), fn, -1));
  Itv iv = C->bound(f);
  if (a.iv.lo >= 0 && b.iv.lo >= 0) { iv.lo = std::max(iv.lo, std::max(a.iv.lo, b.iv.lo)); i128 t = 1; while (t <= a.iv.hi || t <= b.iv.hi) t <<= 1; iv.hi = std::min(iv.hi, t - 1); }
  return wrapTo(f, iv, w);
}
Val vXor(const Val &a, const Val &b, int w) {
  UND(a, b)
  if (a.isConst() && b.isConst()) return cInt(a.f.k ^ b.f.k, w);
  if (a.f == b.f) return cInt(0, w);
  for (int s = 0; s < 2; s++) {
    const Val &x = s ? a : b, &y = s ? b : a;
    if (w > 1 && x.isConst() && x.f.k == -1) { Form f = fscale(y.f, -1); f.k -= 1; return wrapTo(f, {-y.iv.hi - 1, -y.iv.lo - 1}, w); }
    if (w == 1 && x.isConst() && x.f.k == 1) { Form f = fscale(y.f, -1); f.k += 1; return mkInt(f, {1 - y.iv.hi, 1 - y.iv.lo}, 1); }
  }
  if (w >= 32 && !a.isConst() && !b.isConst() && !smallVal(a, 3) && !smallVal(b, 3)) {
    Itv ia, ib; toSigned(a, &ia); toSigned(b, &ib);
    if ((ia.lo < 0 && ia.hi >= 0) || (ib.lo < 0 && ib.hi >= 0)) { Form na = negBit(a), nb = negBit(b); return signSplit(C->ite(na, fadd(Form(1), nb, -1), nb), srange(w), w); }
  }
  Val n = vAnd(a, b, w);
  Itv ia, ib, in; Form fa = toSigned(a, &ia), fb = toSigned(b, &ib), fn = toSigned(n, &in);
  Form f = C->canon(fadd(fadd(fa, fb), fn, -2));
  Itv iv = C->bound(f);
  if (w == 1) iv = meet(iv, {0, 1});
  else if (a.iv.lo >= 0 && b.iv.lo >= 0) { i128 t = 1; while (t <= a.iv.hi || t <= b.iv.hi) t <<= 1; iv = meet(iv, {0, t - 1}); }
  return wrapTo(f, iv, w);
}
Val vShl(const Val &a, int k, int w, bool *ovf) {
  if (a.kind == V_UNDEF) return undef(w);
  ARITH
  if (k >= w) { if (ovf) *ovf = true; return cInt(0, w); }
  Itv iv = a.iv; Form f = a.f;
  if (ovf) { f = toSigned(a, &iv); }
  f = fscale(f, ((i128)1) << k); iv = scaleItv(iv, ((i128)1) << k);
  if (ovf) *ovf = !inside(meet(iv, C->bound(f)), srange(w));
  return wrapTo(f, iv, w);
}
Val vLshr(const Val &a, int k, int w) {
  if (a.kind == V_UNDEF) return undef(w);
  ARITH
  if (k >= w) return cInt(0, w);
  Itv iv; Form f = toUnsigned(a, &iv);
  i128 d = ((i128)1) << k;
  Form q = C->floorDiv(f, iv, d);
  return wrapTo(q, {floordiv(iv.lo, d), floordiv(iv.hi, d)}, w);
}
Val vAshr(const Val &a, int k, int w) {
  if (a.kind == V_UNDEF) return undef(w);
  ARITH
  if (k >= w) k = w - 1;
  Itv iv; Form f = toSigned(a, &iv);
  i128 d = ((i128)1) << k;
  Form q = C->floorDiv(f, iv, d);
  return wrapTo(q, {floordiv(iv.lo, d), floordiv(iv.hi, d)}, w);
}
Val vSext(const Val &a, int w) { if (a.kind == V_UNDEF) return undef(w); if (a.w == 1) { Form f = fscale(a.f, -1); return mkInt(f, {-a.iv.hi, -a.iv.lo}, w); } Itv iv; Form f = toSigned(a, &iv); return mkInt(f, iv, w); }
Val vZext(const Val &a, int w) { if (a.kind == V_UNDEF) return undef(w); Itv iv; Form f = toUnsigned(a, &iv); return mkInt(f, iv, w); }
Val vTrunc(const Val &a, int w) { if (a.kind == V_UNDEF) return undef(w); if (w == 1) return vAnd(a, cInt(1, a.w), a.w).isConst() ? cInt(vAnd(a, cInt(1, a.w), a.w).f.k, 1) : [&] { Val t = vAnd(a, cInt(1, a.w), a.w); return mkInt(t.f, meet(t.iv, {0, 1}), 1); }(); return wrapTo(a.f, a.iv, w); }

Val vDivRem(const Val &a, const Val &b, int w, bool sgn, bool rem) {
  UND(a, b) ARITH
  Itv ia, ib; Form fa = sgn ? toSigned(a, &ia) : toUnsigned(a, &ia), fb = sgn ? toSigned(b, &ib) : toUnsigned(b, &ib);
  if (ib.lo <= 0 && ib.hi >= 0) {
    M->alarm("div-zero", "divisor may be zero: [" + str128(ib.lo) + "," + str128(ib.hi) + "]");
    if (fb.isConst()) return undef(w);
  }
  if (!fb.isConst()) {
    if (smallVal(b, 3)) return caseOp(b, w, [&](const Val &c) { return c.f.k == 0 ? cInt(0, w) : vDivRem(a, c, w, sgn, rem); });
    if (sgn && ia.lo == srange(w).lo && ib.lo <= -1 && ib.hi >= -1) M->alarm("overflow", "INT_MIN / -1");
    Itv iv = sgn ? srange(w) : urange(w);
    i128 mb = std::max(ib.hi < 0 ? -ib.hi : ib.hi, ib.lo < 0 ? -ib.lo : ib.lo) - 1;
    if (mb < 0) mb = 0;
    if (rem) iv = {ia.lo >= 0 ? 0 : -mb, ia.hi <= 0 ? 0 : mb};
    else { i128 ma = std::max(ia.hi < 0 ? -ia.hi : ia.hi, ia.lo < 0 ? -ia.lo : ia.lo); iv = {-ma, ma}; if (ia.lo >= 0 && ib.lo > 0) iv.lo = 0; }
    return wrapTo(C->opaque(iv, "div"), iv, w);
  }
  i128 d = fb.k;
  if (fa.isConst()) { i128 q = fa.k / d; return cInt(rem ? fa.k - q * d : q, w); }
  i128 ad = d < 0 ? -d : d;
  if (sgn && d == -1 && ia.lo == srange(w).lo) M->alarm("overflow", "INT_MIN / -1");
  // truncating division by ad
  Form q;
  Form na = fscale(fa, -1); Itv nia = {-ia.hi, -ia.lo};
  if (ia.lo >= 0) q = C->floorDiv(fa, ia, ad);
  else if (ia.hi <= 0) q = fscale(C->floorDiv(na, nia, ad), -1);
  else {
    Form c = C->ge0(fa, ia);
    Form qp = C->floorDiv(fa, ia, ad), qn = fscale(C->floorDiv(na, nia, ad), -1);
    q = C->ite(c, qp, qn);
  }
  if (!rem) {
    if (d < 0) q = fscale(q, -1);
    Itv iv = C->bound(q);
    if (ia.lo >= 0 || ia.hi <= 0 || true) {
      Itv t = {ia.lo / ad, ia.hi / ad}; if (d < 0) t = {-t.hi, -t.lo};
      iv = meet(iv, t);
    }
    return wrapTo(q, iv, w);
  }
  Form r = C->canon(fadd(fa, q, -ad));
  Itv iv = meet(C->bound(r), {ia.lo >= 0 ? 0 : -(ad - 1), ia.hi <= 0 ? 0 : ad - 1});
  return wrapTo(r, iv, w);
}
Val vIte(const Form &cond, const Val &a, const Val &b) {
  if (cond.isConst()) return cond.k ? a : b;
  if (a.kind == V_UNDEF && b.kind == V_UNDEF) return a;
  if (a.kind == V_UNDEF || b.kind == V_UNDEF) return undef(a.w);
  if (a.kind == V_PTR && b.kind == V_PTR && a.obj == b.obj) { Val r = a; r.f = C->ite(cond, a.f, b.f); r.iv = C->bound(r.f); return r; }
  if (a.kind != V_INT || b.kind != V_INT) {
    if (a.kind == b.kind && a.fn == b.fn && a.obj == b.obj) return a;
    if (a.kind == V_PTR && b.kind == V_PTR && a.obj >= 0 && b.obj >= 0 && a.f.isConst() && b.f.isConst() && M->objs[a.obj].size == M->objs[b.obj].size && a.f.k == b.f.k)
      return mkPtr(M->joinObjs(cond, a.obj, b.obj), a.f.k);
    throw Fatal("join of incompatible pointers");
  }
  int w = a.w;
  if (a.f == b.f) { Val r = a; r.iv = hull(a.iv, b.iv); return r; }
  Itv ia, ib; Form fa, fb;
  if (inside(a.iv, urange(w)) && inside(b.iv, urange(w))) { fa = a.f; fb = b.f; ia = a.iv; ib = b.iv; }
  else { fa = toSigned(a, &ia); fb = toSigned(b, &ib); }
  Form f = C->ite(cond, fa, fb);
  return wrapTo(f, meet(hull(ia, ib), C->bound(f)), w);
}
Val vGe0(const Form &f, Itv iv) { Form g = C->ge0(f, iv); return mkInt(g, meet({0, 1}, C->bound(g)), 1); }
Val vCmp(int pred, const Val &a, const Val &b) {
  // 32 eq 33 ne 34 ugt 35 uge 36 ult 37 ule 38 sgt 39 sge 40 slt 41 sle
  if (a.kind == V_PTR || b.kind == V_PTR) {
    if (a.kind == V_PTR && b.kind == V_PTR) {
      if (pred == 32 || pred == 33) {
        bool eq;
        if (a.obj != b.obj) eq = false;
        else { Form d = fadd(a.f, b.f, -1); if (!d.isConst()) throw Fatal("comparison of symbolic pointers"); eq = d.k == 0; }
        return cInt((pred == 32) == eq, 1);
      }
      if (a.obj == b.obj) {
        Form d = fadd(a.f, b.f, -1); if (!d.isConst()) throw Fatal("comparison of symbolic pointers");
        bool r = pred == 34 ? d.k > 0 : pred == 35 ? d.k >= 0 : pred == 36 ? d.k < 0 : d.k <= 0;
        return cInt(r, 1);
      }
    }
    throw Fatal("unsupported pointer comparison");
  }
  if (a.kind == V_UNDEF || b.kind == V_UNDEF) { Val v; v.w = 1; return v; }
  Itv ia, ib; Form fa, fb;
  bool s = pred >= 38 || pred <= 33;
  if (pred <= 33 && inside(a.iv, urange(a.w)) && inside(b.iv, urange(b.w))) s = false;
  if (s) { fa = toSigned(a, &ia); fb = toSigned(b, &ib); }
  else { fa = toUnsigned(a, &ia); fb = toUnsigned(b, &ib); }
  Form d = C->canon(fadd(fa, fb, -1)); Itv di = meet(addItv(ia, {-ib.hi, -ib.lo}), C->bound(d));
  switch (pred) {
  case 32: { Form e = C->eqz(d, di); return mkInt(e, meet({0, 1}, C->bound(e)), 1); }
  case 33: { Form e = fadd(Form(1), C->eqz(d, di), -1); return mkInt(e, meet({0, 1}, C->bound(e)), 1); }
  case 35: case 39: return vGe0(d, di);
  case 34: case 38: { d.k -= 1; return vGe0(d, {di.lo - 1, di.hi - 1}); }
  case 36: case 40: { Form e = fscale(d, -1); e.k -= 1; return vGe0(e, {-di.hi - 1, -di.lo - 1}); }
  case 37: case 41: { Form e = fscale(d, -1); return vGe0(e, {-di.hi, -di.lo}); }
  }
  throw Fatal("bad predicate");
}

// ---------------------------------------------------------------- memory
Val mkPtr(int obj, i128 off) { Val v; v.kind = V_PTR; v.w = 64; v.obj = obj; v.f = Form(off); v.iv = {off, off}; return v; }
void Mem::alarm(const std::string &kind, const std::string &text, const std::string &w) {
  std::string wh = w.empty() && where ? where() : w;
  std::string key = kind + "|" + wh;
  if (!alarmKeys.insert(key).second) return;
  if (alarms.size() < 200) alarms.push_back({kind, wh, text});
}
int Mem::newObj(const std::string &name, int64_t size) {
  objs.emplace_back();
  Obj &o = objs.back();
  o.name = name; o.size = size;
  o.sz.assign(size, 0); o.at.resize(size);
  return objs.size() - 1;
}
void Mem::setCell(int obj, int64_t off, uint8_t s, std::shared_ptr<const Val> v) {
  Obj &o = objs[obj];
  if (log) log->push_back({obj, off, o.sz[off], o.at[off], 0});
  o.sz[off] = s; o.at[off] = v;
}
static Val extractBytes(const Val &v, int size, int from, int len) {
  // bytes [from, from+len) of a size-byte value, as an unsigned quantity of 8*len bits
  if (v.kind == V_UNDEF) { Val u; u.w = 8 * len; return u; }
  if (v.kind != V_INT) throw Fatal("partial access to a pointer");
  Itv iv; Form f = toSigned(v, &iv);
  Form q = C->floorDiv(f, iv, ((i128)1) << (8 * from));
  Itv qi = {floordiv(iv.lo, ((i128)1) << (8 * from)), floordiv(iv.hi, ((i128)1) << (8 * from))};
  return wrapTo(q, qi, 8 * len);
}
Val Mem::read(int obj, int64_t off, int size, bool quiet) {
  Obj &o = objs[obj];
  nLoads++;
  o.rd = true;
  if (o.sz[off] == size) return *o.at[off];
  // compose from pieces
  int64_t pos = off; Form f; bool und = false; int sh = 0;
  auto parts = std::make_shared<std::vector<std::pair<int, Val>>>();
  while (pos < off + size) {
    int64_t st = pos; int back = 0;
    while (st >= 0 && back < 8 && o.sz[st] == 0) { st--; back++; }
    if (st < 0 || o.sz[st] == 0 || st + o.sz[st] <= pos) { und = true; break; }
    const Val &cv = *o.at[st];
    int from = pos - st, len = std::min<int64_t>(o.sz[st] - from, off + size - pos);
    Val piece = (from == 0 && len == o.sz[st]) ? cv : extractBytes(cv, o.sz[st], from, len);
    if (piece.kind == V_UNDEF) { und = true; break; }
    if (piece.kind != V_INT) throw Fatal("partial access to a pointer");
    Itv iv; Form g;
    if (pos + len == off + size) { g = toSigned(piece, &iv); }
    else g = toUnsigned(piece, &iv);
    parts->push_back({len, piece});
    f = fadd(f, g, ((i128)1) << sh);
    sh += 8 * len; pos += len;
  }
  if (und) {
    Val v; v.w = size * 8;
    if (!quiet) alarm("uninit", "read of uninitialised bytes of " + o.name + " at offset " + std::to_string(off));
    return v;
  }
  f = C->canon(f);
  Val packed = wrapTo(f, C->bound(f), size * 8);
  if (parts->size() > 1) packed.parts = parts;
  return packed;
}
void Mem::write(int obj, int64_t off, int size, const Val &v) {
  if (v.parts && v.kind == V_INT && v.w == 8 * size) { int64_t p = off; for (auto &x : *v.parts) { write(obj, p, x.first, x.second); p += x.first; } return; }
  Obj &o = objs[obj];
  nStores++;
  o.wr = true;
  if (o.sz[off] == size) { setCell(obj, off, size, std::make_shared<Val>(v)); return; }
  // split overlapped cells
  int64_t b = std::max<int64_t>(0, off - 7);
  for (int64_t s = b; s < off + size; s++) {
    if (!o.sz[s]) continue;
    int64_t e = s + o.sz[s];
    if (e <= off) continue;
    int csz = o.sz[s];
    std::shared_ptr<const Val> cv = o.at[s];
    setCell(obj, s, 0, nullptr);
    if (s < off) { Val p = extractBytes(*cv, csz, 0, off - s); setCell(obj, s, off - s, std::make_shared<Val>(p)); }
    if (e > off + size) { Val p = extractBytes(*cv, csz, off + size - s, e - off - size); setCell(obj, off + size, e - off - size, std::make_shared<Val>(p)); }
  }
  setCell(obj, off, size, std::make_shared<Val>(v));
}
bool Mem::check(const Val &p, int64_t size, bool wr, int64_t &off) {
  if (p.kind == V_UNDEF) { alarm("uninit", "access through an uninitialised pointer"); return false; }
  if (p.kind != V_PTR) { alarm("oob", "access through a non-pointer value"); return false; }
  if (p.obj < 0) { alarm("oob", "access through a null pointer"); return false; }
  Obj &o = objs[p.obj];
  if (!p.f.isConst()) {
    alarm("data-address", std::string("address depends on data: ") + o.name + "[" + C->show(p.f) + "]");
    Itv b = C->bound(p.f);
    if (b.lo < 0 || b.hi + size > o.size) alarm("oob", std::string(wr ? "write" : "read") + " of " + o.name + " at offset in [" + str128(b.lo) + "," + str128(b.hi) + "], size of array " + std::to_string(o.size));
    return false;
  }
  off = (int64_t)p.f.k;
  if (o.gone) throw Fatal("access to an object through a pointer that was joined with another: " + o.name);
  if (o.freed) { alarm("use-after-free", "access to released object " + o.name); return false; }
  if (off < 0 || off + size > o.size) {
    alarm("oob", std::string(wr ? "write of " : "read of ") + std::to_string(size) + " bytes at offset " + std::to_string(off) + " of " + o.name + " (size " + std::to_string(o.size) + ")");
    return false;
  }
  if (wr && o.ro) { alarm("write-const", "write to constant object " + o.name + " at offset " + std::to_string(off)); return false; }
  return true;
}
// the finitely many offsets a data-dependent address can have (empty when there are too many)
static std::vector<i128> offsets(const Val &p, size_t cap) {
  std::vector<i128> r; Itv b = meet(p.iv, C->bound(p.f)); i128 g = 0;
  for (auto &x : p.f.t) { i128 a = x.c < 0 ? -x.c : x.c; while (a) { i128 t = g % a; g = a; a = t; } }
  if (b.lo <= -BIG || b.hi >= BIG || (b.hi - b.lo) / g > (i128)cap) return r;
  i128 k = b.lo + (((p.f.k - b.lo) % g) + g) % g;
  for (; k <= b.hi; k += g) r.push_back(k);
  if (r.size() > cap) r.clear();
  return r;
}
Val Mem::load(const Val &p, int size) {
  int64_t off;
  if (p.kind == V_PTR && p.obj >= 0 && !p.f.isConst()) {
    std::vector<i128> ks = offsets(p, 64); Obj &o = objs[p.obj];
    if (!ks.empty() && ks[0] >= 0 && ks.back() + size <= o.size && !o.freed && !o.gone) {
      alarm("data-address", std::string("address depends on data: ") + o.name + "[" + C->show(p.f) + "]");
      std::vector<std::pair<i128, Form>> alts; Itv u = {BIG, -BIG}; bool ok = true;
      for (auto k : ks) {
        Val v = read(p.obj, (int64_t)k, size);
        if (v.kind != V_INT) { ok = false; break; }
        Itv i; Form f = toSigned(v, &i); alts.push_back({k, f}); u = hull(u, i);
      }
      if (ok) { Form f = C->makeCase(p.f, alts); return wrapTo(f, meet(u, C->bound(f)), size * 8); }
    }
  }
  if (!check(p, size, false, off)) {
    Val v; v.w = size * 8;
    return v;
  }
  return read(p.obj, off, size);
}
bool gCoarse = false; // forget how stored values were computed (memory checks only)
Val storeNorm(const Val &v) {
  if (gCoarse && v.kind == V_INT && !v.f.isConst()) { Itv b = meet(v.iv, C->bound(v.f)); if (b.lo < b.hi) return mkInt(C->opaque(b, "stored"), b, v.w); }
  if (v.kind == V_INT && v.f.t.size() >= 3 && C->congOf(v.f)) { Val r = v; r.f = C->name(v.f, v.iv); return r; }
  return v;
}
void Mem::store(const Val &p, int size, const Val &v) {
  int64_t off;
  if (p.kind == V_PTR && p.obj >= 0 && !p.f.isConst()) {
    std::vector<i128> ks = offsets(p, 16); Obj &o = objs[p.obj];
    if (!ks.empty() && ks[0] >= 0 && ks.back() + size <= o.size && !o.freed && !o.gone && !o.ro) {
      alarm("data-address", std::string("address depends on data: ") + o.name + "[" + C->show(p.f) + "]");
      Itv b = meet(p.iv, C->bound(p.f));
      for (auto k : ks) {
        Form d = p.f; d.k -= k; Form e = C->eqz(d, {b.lo - k, b.hi - k});
        write(p.obj, (int64_t)k, size, vIte(e, v, read(p.obj, (int64_t)k, size, true)));
      }
      return;
    }
  }
  if (!check(p, size, true, off)) return;
  write(p.obj, off, size, gCoarse && objs[p.obj].stack ? v : storeNorm(v));
}
void Mem::copyBytes(int dobj, int64_t doff, int sobj, int64_t soff, int64_t n) {
  // copies whole cells where possible
  struct P { int64_t off; int sz; Val v; };
  std::vector<P> ps;
  Obj &s = objs[sobj];
  s.rd = true;
  for (int64_t i = 0; i < n;) {
    int c = s.sz[soff + i];
    if (c && i + c <= n) { ps.push_back({i, c, *s.at[soff + i]}); i += c; }
    else {
      // single byte
      Val v = read(sobj, soff + i, 1, true);
      if (v.kind != V_UNDEF) ps.push_back({i, 1, v}); else ps.push_back({i, 1, v});
      i++;
    }
  }
  for (auto &p : ps) write(dobj, doff + p.off, p.sz, p.v);
}

// the object a pointer refers to after a branch: one of two
int Mem::joinObjs(const Form &cond, int x, int y) {
  bool fresh = objs[x].heap && objs[x].lib && objs[y].heap && objs[y].lib && !objs[x].freed && !objs[y].freed && !objs[x].gone && !objs[y].gone;
  // two objects allocated by the analysed code merge; otherwise the result is a read-only view of either
  if (!fresh) alarm("data-address", "pointer to " + objs[x].name + " or " + objs[y].name + ", depending on data");
  int o = newObj(objs[x].name, objs[x].size);
  Obj &r = objs[o], &p = objs[x], &q = objs[y];
  r.heap = fresh; r.lib = true; r.ro = !fresh; r.interval = p.interval && q.interval;
  if (r.interval) r.shadow = vIte(cond, p.shadow, q.shadow);
  for (int64_t i = 0; i < r.size;) {
    if (p.sz[i] && p.sz[i] == q.sz[i]) { Val v = vIte(cond, *p.at[i], *q.at[i]); r.sz[i] = p.sz[i]; r.at[i] = std::make_shared<Val>(v); i += p.sz[i]; }
    else if (p.sz[i] || q.sz[i]) throw Fatal("join of objects with different layouts");
    else i++;
  }
  if (fresh) p.gone = q.gone = true;
  return o;
}
