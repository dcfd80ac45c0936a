// Abstract transfer functions for the AVX2 assembly, on the disassembly of the assembled source.
#include "interp.h"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <sstream>

struct Opnd {
  enum { NONE, GPR, VEC, IMM, MEM, TARGET } k = NONE;
  int r = -1;        // register number
  int sz = 0;        // bytes
  bool high = false; // ah..dh
  i128 imm = 0;
  int base = -1, index = -1, scale = 1; int64_t disp = 0; bool rip = false; int64_t abs = 0;
};
struct Ins { int64_t addr; std::string mn; std::vector<Opnd> op; std::string src; std::string text; };
struct Sect { int64_t addr, size; std::vector<uint8_t> bytes; bool init; std::string name; };
struct AsmProg {
  std::vector<Ins> ins; std::map<int64_t, int> at; std::map<std::string, int64_t> sym;
  std::vector<Sect> sects; std::vector<int> sectObj; std::string err; std::set<std::string> used;
  std::set<int64_t> covered;
};
bool gAbiGarbage = false;
std::map<std::string, int> gCpuZero; // register of a feature leaf -> bit assumed to be 0
static Val cpuReg(const std::string &n) {
  auto z = gCpuZero.find(n);
  if (z == gCpuZero.end()) {
    for (size_t i = 0; i < C->atoms.size(); i++) if (C->atoms[i].kind == A_INPUT && C->atoms[i].name == n) return mkInt(C->atomForm(i), urange(32), 32);
    return mkInt(C->input(urange(32), nullptr, n), urange(32), 32);
  }
  // bits above and below the one known to be 0
  int b = z->second; Form f; const char *part[2] = {".low", ".high"};
  for (int k = 0; k < 2; k++) {
    int w = k ? 31 - b : b; if (w == 0) continue;
    Form g; bool have = false;
    for (size_t i = 0; i < C->atoms.size(); i++) if (C->atoms[i].kind == A_INPUT && C->atoms[i].name == n + part[k]) { g = C->atomForm(i); have = true; }
    if (!have) g = C->input(urange(w), nullptr, n + part[k]);
    f = fadd(f, g, k ? ((i128)1) << (b + 1) : 1);
  }
  return mkInt(f, C->bound(f), 32);
}

static const char *G64[16] = {"rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"};
static const char *G32[16] = {"eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d", "r15d"};
static const char *G16[16] = {"ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w"};
static const char *G8[16] = {"al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil", "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b", "r15b"};
static bool regOf(const std::string &s, Opnd &o) {
  for (int i = 0; i < 16; i++) {
    if (s == G64[i]) { o.k = Opnd::GPR; o.r = i; o.sz = 8; return true; }
    if (s == G32[i]) { o.k = Opnd::GPR; o.r = i; o.sz = 4; return true; }
    if (s == G16[i]) { o.k = Opnd::GPR; o.r = i; o.sz = 2; return true; }
    if (s == G8[i]) { o.k = Opnd::GPR; o.r = i; o.sz = 1; return true; }
  }
  if ((s.compare(0, 3, "ymm") == 0 || s.compare(0, 3, "xmm") == 0) && s.size() <= 5) { o.k = Opnd::VEC; o.r = atoi(s.c_str() + 3); o.sz = s[0] == 'y' ? 32 : 16; return o.r < 16; }
  return false;
}
static std::string trim(std::string s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static i128 num(const std::string &s0) {
  std::string s = trim(s0); bool neg = false; size_t i = 0;
  if (s[i] == '-') { neg = true; i++; }
  unsigned long long v = strtoull(s.c_str() + i, nullptr, 0);
  i128 r = v; return neg ? -r : r;
}
static Opnd parseOp(std::string s, int64_t comment) {
  Opnd o; s = trim(s);
  if (regOf(s, o)) return o;
  size_t lb = s.find('[');
  if (lb != std::string::npos) {
    o.k = Opnd::MEM;
    std::string pre = s.substr(0, lb), in = s.substr(lb + 1, s.find(']') - lb - 1);
    if (pre.find("ymmword") != std::string::npos) o.sz = 32; else if (pre.find("xmmword") != std::string::npos) o.sz = 16;
    else if (pre.find("qword") != std::string::npos) o.sz = 8; else if (pre.find("dword") != std::string::npos) o.sz = 4;
    else if (pre.find("byte") != std::string::npos) o.sz = 1; else if (pre.find("word") != std::string::npos) o.sz = 2;
    // terms separated by + or -
    std::string cur; int sign = 1; std::vector<std::pair<int, std::string>> terms;
    for (size_t i = 0; i <= in.size(); i++) {
      if (i == in.size() || in[i] == '+' || in[i] == '-') { if (!trim(cur).empty()) terms.push_back({sign, trim(cur)}); cur.clear(); if (i < in.size()) sign = in[i] == '-' ? -1 : 1; }
      else cur += in[i];
    }
    for (auto &t : terms) {
      Opnd r; size_t st = t.second.find('*');
      if (st != std::string::npos) { std::string a = trim(t.second.substr(0, st)), b = trim(t.second.substr(st + 1)); if (!regOf(a, r)) std::swap(a, b); regOf(a, r); o.index = r.r; o.scale = (int)num(b); }
      else if (t.second == "rip") { o.rip = true; o.abs = comment; }
      else if (regOf(t.second, r)) { if (o.base < 0) o.base = r.r; else { o.index = r.r; o.scale = 1; } }
      else o.disp += (int64_t)(t.first * num(t.second));
    }
    return o;
  }
  o.k = Opnd::IMM; o.imm = num(s);
  return o;
}
AsmProg *asmLoad(const std::string &dis, const std::string &data) {
  AsmProg *p = new AsmProg;
  std::ifstream f(dis); std::string l, src;
  if (!f) throw Fatal("cannot read " + dis);
  while (std::getline(f, l)) {
    if (l.compare(0, 2, "; ") == 0) { src = l.substr(2); size_t q = src.rfind('/'); if (q != std::string::npos) src = src.substr(q + 1); continue; }
    if (l.size() > 18 && isxdigit((unsigned char)l[0]) && l.find('<') != std::string::npos && l.back() == ':') {
      int64_t a = strtoll(l.c_str(), nullptr, 16); size_t b = l.find('<'); p->sym[l.substr(b + 1, l.find('>') - b - 1)] = a; continue;
    }
    size_t c = l.find(':');
    if (l.empty() || l[0] != ' ' || c == std::string::npos) continue;
    std::string as = trim(l.substr(0, c));
    if (as.empty() || as.find_first_not_of("0123456789abcdef") != std::string::npos) continue;
    Ins i; i.addr = strtoll(as.c_str(), nullptr, 16);
    std::string rest = trim(l.substr(c + 1));
    int64_t cm = 0; size_t h = rest.find('#');
    if (h != std::string::npos) { cm = strtoll(rest.c_str() + h + 1, nullptr, 0); rest = trim(rest.substr(0, h)); }
    i.text = rest; for (auto &ch : i.text) if (ch == '\t') ch = ' ';
    i.src = src;
    size_t sp = rest.find_first_of(" \t");
    i.mn = sp == std::string::npos ? rest : rest.substr(0, sp);
    std::string ops = sp == std::string::npos ? "" : trim(rest.substr(sp));
    if (i.mn == "rep" || i.mn == "notrack" || i.mn == "data16" || i.mn == "cs") { if (ops.compare(0, 3, "ret") == 0) { i.mn = "ret"; ops = ""; } else if (ops.find("nop") != std::string::npos) { i.mn = "nop"; ops = ""; } }
    if (i.mn[0] == 'j' || i.mn == "call") {
      Opnd o; o.k = Opnd::TARGET; o.imm = strtoll(ops.c_str(), nullptr, 16); i.op.push_back(o);
    } else if (i.mn != "nop") {
      std::string cur; int br = 0;
      for (size_t k = 0; k <= ops.size(); k++) {
        if (k == ops.size() || (ops[k] == ',' && !br)) { if (!trim(cur).empty()) i.op.push_back(parseOp(cur, cm)); cur.clear(); }
        else { if (ops[k] == '[') br++; if (ops[k] == ']') br--; cur += ops[k]; }
      }
    }
    p->at[i.addr] = p->ins.size(); p->ins.push_back(i);
  }
  // data: lines "name addr size hexbytes|-"
  std::ifstream d(data);
  while (std::getline(d, l)) {
    std::istringstream is(l); Sect s; std::string hex; std::string a, b; is >> s.name >> a >> b >> hex;
    s.addr = strtoll(a.c_str(), nullptr, 0); s.size = strtoll(b.c_str(), nullptr, 0); s.init = hex != "-";
    if (s.init) for (size_t i = 0; i + 1 < hex.size(); i += 2) s.bytes.push_back(strtol(hex.substr(i, 2).c_str(), nullptr, 16));
    p->sects.push_back(s);
  }
  return p;
}
bool asmHas(AsmProg *p, const std::string &fn) { return p->sym.count(fn) != 0; }
void asmReset(AsmProg *p) { p->sectObj.clear(); p->used.clear(); p->covered.clear(); }
std::string asmInfo(AsmProg *p) { return std::to_string(p->covered.size()) + " of " + std::to_string(p->ins.size()); }

struct AState {
  Val g[16];
  int v[16];
  int stack; int64_t pc;
  // flags
  int fk = 0; // 0 unknown, 1 cmp/sub, 2 logic, 3 result only
  Val fa, fb, fr; int fw = 64;
};
static const int RSP = 4;

struct AExec {
  AsmProg &P; AState s;
  std::vector<Val> init; int retObj = -1; bool abi = true;
  Val lane(int r, int off, int sz) { return M->read(s.v[r], off, sz, true); }
  void setLane(int r, int off, int sz, const Val &v) { M->write(s.v[r], off, sz, v); }
  void sectInit() {
    if (!P.sectObj.empty()) return;
    for (auto &sc : P.sects) {
      int o = M->newObj(sc.name, sc.size); P.sectObj.push_back(o);
      if (sc.init) { int64_t i = 0; for (; i + 4 <= sc.size; i += 4) { int32_t w; memcpy(&w, &sc.bytes[i], 4); M->write(o, i, 4, cInt(w, 32)); } for (; i < sc.size; i++) M->write(o, i, 1, cInt((int8_t)sc.bytes[i], 8)); }
      M->objs[o].ro = true; M->objs[o].lib = true; M->objs[o].wr = false;
    }
  }
  Val getG(int r, int sz) {
    Val v = s.g[r];
    if (v.kind == V_UNDEF) { v.w = sz * 8; return v; }
    if (sz == 8) return v;
    if (v.kind != V_INT) { M->alarm("abi", std::string("partial use of a pointer in ") + G64[r]); Val u; u.w = sz * 8; return u; }
    return vTrunc(v, sz * 8);
  }
  void setG(int r, int sz, const Val &v) {
    if (sz == 8) { s.g[r] = v; return; }
    if (sz == 4) { s.g[r] = vZext(v, 64); return; }
    Val o = s.g[r]; if (o.kind != V_INT) { Val u; u.w = 64; s.g[r] = u; return; }
    i128 m = (((i128)1) << (sz * 8)) - 1;
    s.g[r] = vAdd(vAnd(o, cInt(~m, 64), 64), vZext(v, 64), 64);
  }
  Val addrOf(const Opnd &o) {
    if (o.rip) {
      int64_t a = o.abs;
      for (size_t i = 0; i < P.sects.size(); i++) if (a >= P.sects[i].addr && a < P.sects[i].addr + P.sects[i].size) return mkPtr(P.sectObj[i], a - P.sects[i].addr);
      M->alarm("oob", "rip-relative address outside any section"); Val u; return u;
    }
    Val r = cInt(o.disp, 64);
    if (o.base >= 0) r = padd(s.g[o.base], r);
    if (o.index >= 0) { Val ix = s.g[o.index]; if (o.scale != 1) { if (ix.kind == V_PTR) throw Fatal("scaled pointer"); ix = vMul(ix, cInt(o.scale, 64), 64); } r = padd(r, ix); }
    return r;
  }
  Val padd(const Val &a, const Val &b) {
    if (a.kind == V_UNDEF || b.kind == V_UNDEF) { Val u; u.w = 64; return u; }
    if (a.kind == V_PTR && b.kind == V_INT) { Itv iv; Form f = toSigned(b, &iv); Val r = a; r.f = C->canon(fadd(a.f, f)); r.iv = C->bound(r.f); return r; }
    if (b.kind == V_PTR && a.kind == V_INT) return padd(b, a);
    if (a.kind == V_PTR && b.kind == V_PTR) throw Fatal("sum of pointers");
    return vAdd(a, b, 64);
  }
  Val psub(const Val &a, const Val &b) {
    if (a.kind == V_UNDEF || b.kind == V_UNDEF) { Val u; u.w = 64; return u; }
    if (a.kind == V_PTR && b.kind == V_PTR) { if (a.obj != b.obj) throw Fatal("difference of pointers into different arrays"); Form f = fadd(a.f, b.f, -1); return mkInt(f, C->bound(f), 64); }
    if (a.kind == V_PTR && b.kind == V_INT) { Itv iv; Form f = toSigned(b, &iv); Val r = a; r.f = C->canon(fadd(a.f, f, -1)); r.iv = C->bound(r.f); return r; }
    if (b.kind == V_PTR) throw Fatal("integer minus pointer");
    return vSub(a, b, 64);
  }
  Val rd(const Opnd &o, int sz = 0) {
    if (!sz) sz = o.sz;
    switch (o.k) {
    case Opnd::GPR: return getG(o.r, sz);
    case Opnd::IMM: return cInt(o.imm, sz ? sz * 8 : 64);
    case Opnd::MEM: return M->load(addrOf(o), sz);
    case Opnd::VEC: return lane(o.r, 0, sz);
    default: throw Fatal("operand");
    }
  }
  void stackCheck(int64_t off) {
    if (off >= init[RSP].f.k) M->alarm("abi", "write into the caller's stack frame");
    else if (s.g[RSP].kind == V_PTR && s.g[RSP].f.isConst() && off < s.g[RSP].f.k - 128) M->alarm("abi", "write below the red zone of the stack");
  }
  void wrm(const Opnd &o, int sz, const Val &v) {
    Val a = addrOf(o);
    if (v.kind == V_UNDEF) M->alarm("uninit", "store of an undefined value");
    if (a.kind == V_PTR && a.obj == s.stack && a.f.isConst()) stackCheck((int64_t)a.f.k);
    M->store(a, sz, v);
  }
  void wr(const Opnd &o, const Val &v) { if (o.k == Opnd::GPR) setG(o.r, o.sz, v); else wrm(o, o.sz, v); }
  void setRes(const Val &r, int w) { s.fk = 3; s.fr = r; s.fw = w; }
  // vector source as lanes of size sz
  std::vector<Val> vec(const Opnd &o, int sz, int bytes) {
    std::vector<Val> r;
    if (o.k == Opnd::VEC) { for (int i = 0; i < bytes; i += sz) r.push_back(lane(o.r, i, sz)); return r; }
    Val a = addrOf(o); int64_t off;
    if (!M->check(a, bytes, false, off)) { for (int i = 0; i < bytes; i += sz) { Val u; u.w = sz * 8; r.push_back(u); } return r; }
    for (int i = 0; i < bytes; i += sz) r.push_back(M->read(a.obj, off + i, sz));
    return r;
  }
  void setVec(const Opnd &o, const std::vector<Val> &l, int sz) {
    int n = l.size() * sz;
    for (size_t i = 0; i < l.size(); i++) { Val v = l[i]; v = storeNormQ(v); setLane(o.r, i * sz, sz, v); }
    if (n < 16) for (int i = n; i < 16; i += 4) setLane(o.r, i, 4, cInt(0, 32));
    if (n <= 16) for (int i = 16; i < 32; i += 4) setLane(o.r, i, 4, cInt(0, 32));
  }
  Val storeNormQ(const Val &v) { if (v.kind == V_INT && v.f.t.size() > 6 && C->congOf(v.f)) { Val r = v; r.f = C->name(v.f, v.iv); return r; } return v; }
  Val cond(const std::string &cc) {
    auto c = [&](int p) { return vCmp(p, s.fa, s.fb); };
    auto neg = [&](Val v) { return vXor(v, cInt(1, 1), 1); };
    if (s.fk == 1) {
      if (cc == "b" || cc == "c" || cc == "nae") return c(36);
      if (cc == "ae" || cc == "nb" || cc == "nc") return c(35);
      if (cc == "be" || cc == "na") return c(37);
      if (cc == "a" || cc == "nbe") return c(34);
      if (cc == "e" || cc == "z") return c(32);
      if (cc == "ne" || cc == "nz") return c(33);
      if (cc == "l" || cc == "nge") return c(40);
      if (cc == "ge" || cc == "nl") return c(39);
      if (cc == "le" || cc == "ng") return c(41);
      if (cc == "g" || cc == "nle") return c(38);
    }
    if (s.fk == 4) {
      Val z = cInt(0, s.fw);
      if (cc == "b" || cc == "c" || cc == "nae") return vCmp(33, s.fr, z);
      if (cc == "ae" || cc == "nb" || cc == "nc") return vCmp(32, s.fr, z);
    }
    if (s.fk == 2 || s.fk == 3) {
      Val z = cInt(0, s.fw);
      if (cc == "e" || cc == "z") return vCmp(32, s.fr, z);
      if (cc == "ne" || cc == "nz") return vCmp(33, s.fr, z);
      if (cc == "s") return vCmp(40, s.fr, z);
      if (cc == "ns") return vCmp(39, s.fr, z);
      if (s.fk == 2) {
        if (cc == "b" || cc == "c") return cInt(0, 1);
        if (cc == "ae" || cc == "nc") return cInt(1, 1);
        if (cc == "be" || cc == "na") return vCmp(32, s.fr, z);
        if (cc == "a") return vCmp(33, s.fr, z);
        if (cc == "l") return vCmp(40, s.fr, z);
        if (cc == "ge") return vCmp(39, s.fr, z);
        if (cc == "le") return vCmp(41, s.fr, z);
        if (cc == "g") return vCmp(38, s.fr, z);
      }
    }
    (void)neg;
    if (s.fk == 1 && (cc == "s" || cc == "ns")) { Val r = vSub(s.fa, s.fb, s.fw); return vCmp(cc == "s" ? 40 : 39, r, cInt(0, s.fw)); }
    throw Fatal("flags not modelled for j" + cc);
  }
  void vstore(const Opnd &dst, const Opnd &src, int bytes) { // register to memory: copy cells
    Val a = addrOf(dst); int64_t off;
    if (!M->check(a, bytes, true, off)) return;
    if (a.obj == s.stack) stackCheck(off);
    // arrays of 32-bit coefficients: store dword cells
    for (int i = 0; i < bytes; i += 4) {
      Val v = lane(src.r, i, 4);
      if (v.kind == V_UNDEF) M->alarm("uninit", "store of an undefined vector lane");
      M->write(a.obj, off + i, 4, storeNorm(v));
    }
  }
  bool step(Ins &I); // false on return
  int run(int budget);
};

static Val smul32(const Val &a, const Val &b) { return vMul(vSext(a, 64), vSext(b, 64), 64); }

bool AExec::step(Ins &I) {
  const std::string &m = I.mn;
  auto &o = I.op;
  P.covered.insert(I.addr);
  auto bytes = [&]() { return o[0].sz; };
  auto lanes2 = [&](int sz, std::function<Val(const Val &, const Val &)> f) {
    auto a = vec(o[1], sz, bytes()), b = vec(o[2], sz, bytes());
    std::vector<Val> r; for (size_t i = 0; i < a.size(); i++) r.push_back(f(a[i], b[i]));
    setVec(o[0], r, sz);
  };
  if (m == "nop" || m == "endbr64" || m == "nopw" || m == "nopl") return true;
  if (m == "mov" || m == "movabs") { Val v = rd(o[1], o[0].sz ? o[0].sz : o[1].sz); if (o[0].k == Opnd::MEM && !o[0].sz) { Opnd d = o[0]; d.sz = o[1].sz; wr(d, v); } else wr(o[0], v); return true; }
  if (m == "movsxd" || m == "movsx") { wr(o[0], vSext(rd(o[1]), o[0].sz * 8)); return true; }
  if (m == "movzx") { wr(o[0], vZext(rd(o[1]), o[0].sz * 8)); return true; }
  if (m == "lea") { Val a = addrOf(o[1]); if (o[0].sz == 4) a = vTrunc(a, 32); wr(o[0], a); return true; }
  if (m == "push") { Val v = rd(o[0], 8); s.g[RSP] = psub(s.g[RSP], cInt(8, 64)); M->store(s.g[RSP], 8, v); return true; }
  if (m == "pop") { Val v = M->load(s.g[RSP], 8); s.g[RSP] = padd(s.g[RSP], cInt(8, 64)); wr(o[0], v); return true; }
  if (m == "ret") {
    Val v = M->load(s.g[RSP], 8);
    if (v.kind != V_PTR || v.obj != retObj) { M->alarm("abi", "ret does not return to the caller"); }
    s.g[RSP] = padd(s.g[RSP], cInt(8, 64));
    return false;
  }
  if (m == "add" || m == "sub" || m == "cmp") {
    int w = o[0].sz * 8; if (!w) w = o[1].sz * 8;
    Val a = rd(o[0]), b = rd(o[1], o[0].sz);
    if (m == "cmp") { s.fk = 1; s.fa = a; s.fb = b; s.fw = w; return true; }
    Val r = w == 64 ? (m == "add" ? padd(a, b) : psub(a, b)) : (m == "add" ? vAdd(a, b, w) : vSub(a, b, w));
    wr(o[0], r);
    if (m == "sub") { s.fk = 1; s.fa = a; s.fb = b; s.fw = w; } else setRes(r, w);
    return true;
  }
  if (m == "inc" || m == "dec") { int w = o[0].sz * 8; Val a = rd(o[0]); Val r = w == 64 ? (m == "inc" ? padd(a, cInt(1, 64)) : psub(a, cInt(1, 64))) : (m == "inc" ? vAdd(a, cInt(1, w), w) : vSub(a, cInt(1, w), w)); wr(o[0], r); setRes(r, w); return true; }
  if (m == "neg") { int w = o[0].sz * 8; Val r = vSub(cInt(0, w), rd(o[0]), w); wr(o[0], r); setRes(r, w); return true; }
  if (m == "not") { int w = o[0].sz * 8; wr(o[0], vXor(rd(o[0]), cInt(-1, w), w)); return true; }
  if (m == "and" || m == "or" || m == "xor" || m == "test") {
    int w = o[0].sz * 8;
    if (m == "xor" && o[0].k == Opnd::GPR && o[1].k == Opnd::GPR && o[0].r == o[1].r) { wr(o[0], cInt(0, w)); s.fk = 2; s.fr = cInt(0, w); s.fw = w; return true; }
    Val a = rd(o[0]), b = rd(o[1], o[0].sz); Val r = m == "or" ? vOr(a, b, w) : m == "xor" ? vXor(a, b, w) : vAnd(a, b, w);
    if (m != "test") wr(o[0], r);
    s.fk = 2; s.fr = r; s.fw = w; return true;
  }
  if (m == "shl" || m == "sal" || m == "shr" || m == "sar") {
    int w = o[0].sz * 8; Val a = rd(o[0]); int k = 1;
    if (o.size() > 1) { Val kv = rd(o[1], 1); if (!kv.isConst()) throw Fatal("shift by a symbolic amount"); k = (int)(kv.f.k & (w - 1)); }
    if (a.kind == V_PTR) throw Fatal("shift of a pointer");
    Val r = m == "shr" ? vLshr(a, k, w) : m == "sar" ? vAshr(a, k, w) : vShl(a, k, w);
    wr(o[0], r); setRes(r, w); return true;
  }
  if (m == "bt") {
    int w = o[0].sz * 8; Val a = rd(o[0]), k = rd(o[1], 1); if (!k.isConst()) throw Fatal("bit test at a symbolic position");
    s.fk = 4; s.fr = vAnd(vLshr(a, (int)(k.f.k & (w - 1)), w), cInt(1, w), w); s.fw = w; return true;
  }
  if (m == "xchg") { Val a = rd(o[0]), b = rd(o[1]); wr(o[0], b); wr(o[1], a); return true; }
  if (m == "imul") { int w = o[0].sz * 8; Val r = o.size() == 3 ? vMul(rd(o[1]), rd(o[2], o[0].sz), w) : vMul(rd(o[0]), rd(o[1]), w); wr(o[0], r); s.fk = 0; return true; }
  if (m == "cpuid") {
    Val a = getG(0, 4), c = getG(1, 4);
    std::string tag = "cpuid" + (a.isConst() ? str128(a.f.k) : "?") + (a.isConst() && a.f.k == 7 ? "_" + (c.isConst() ? str128(c.f.k) : "?") : "");
    const char *nm[4] = {"eax", "ecx", "edx", "ebx"};
    for (int r = 0; r < 4; r++) setG(r, 4, cpuReg(tag + "." + nm[r]));
    return true;
  }
  if (m == "xgetbv") {
    Val c = getG(1, 4);
    if (!c.isConst() || c.f.k != 0) M->alarm("abi", "xgetbv of a register other than XCR0");
    setG(0, 4, cpuReg("xcr0.eax")); setG(2, 4, cpuReg("xcr0.edx"));
    IP->events.push_back("xgetbv"); return true;
  }
  if (m.compare(0, 4, "cmov") == 0) { Val c = cond(m.substr(4)); Val a = rd(o[0]), b = rd(o[1], o[0].sz); wr(o[0], vIte(c.f, b, a)); return true; }
  if (m.compare(0, 3, "set") == 0) { Val c = cond(m.substr(3)); wr(o[0], vZext(c, 8)); return true; }
  if (m == "vzeroupper" || m == "vzeroall") { for (int r = 0; r < 16; r++) for (int i = (m == "vzeroall" ? 0 : 16); i < 32; i += 4) setLane(r, i, 4, cInt(0, 32)); return true; }
  // ---- vectors
  if (m == "vmovdqa" || m == "vmovdqu" || m == "vmovups" || m == "vmovaps" || m == "vlddqu" || m == "vmovupd" || m == "vmovapd") {
    bool al = m == "vmovdqa" || m == "vmovaps" || m == "vmovapd";
    int n = o[0].k == Opnd::VEC ? o[0].sz : o[1].sz;
    const Opnd *mo = o[0].k == Opnd::MEM ? &o[0] : o[1].k == Opnd::MEM ? &o[1] : nullptr;
    if (al && mo) {
      Val a = addrOf(*mo); bool ok = false;
      if (a.kind == V_PTR && a.f.isConst() && a.obj >= 0) for (size_t i = 0; i < P.sectObj.size(); i++) if (P.sectObj[i] == a.obj && (P.sects[i].addr + (int64_t)a.f.k) % n == 0) ok = true;
      if (!ok) M->alarm("align", "aligned vector access to memory whose alignment is not guaranteed");
    }
    if (o[0].k == Opnd::MEM) { vstore(o[0], o[1], n); return true; }
    if (o[1].k == Opnd::VEC) {
      if (o[0].r != o[1].r) for (int i = 0; i < n; i += 4) setLane(o[0].r, i, 4, lane(o[1].r, i, 4));
      // keep 64-bit cells when present
      for (int i = 0; i < n; i += 8) if (M->objs[s.v[o[1].r]].sz[i] == 8) setLane(o[0].r, i, 8, lane(o[1].r, i, 8));
      if (n == 16) for (int i = 16; i < 32; i += 4) setLane(o[0].r, i, 4, cInt(0, 32));
      return true;
    }
    Val a = addrOf(o[1]); int64_t off;
    if (!M->check(a, n, false, off)) { for (int i = 0; i < n; i += 4) { Val u; u.w = 32; setLane(o[0].r, i, 4, u); } return true; }
    // copy cells (16-bit table entries stay 16-bit cells)
    M->copyBytes(s.v[o[0].r], 0, a.obj, off, n);
    M->nLoads++;
    if (n == 16) for (int i = 16; i < 32; i += 4) setLane(o[0].r, i, 4, cInt(0, 32));
    return true;
  }
  if (m == "vmovd" || m == "vmovq") {
    int n = m == "vmovd" ? 4 : 8;
    if (o[0].k == Opnd::VEC) {
      Val v = o[1].k == Opnd::GPR ? getG(o[1].r, n) : o[1].k == Opnd::MEM ? M->load(addrOf(o[1]), n) : lane(o[1].r, 0, n);
      setVec(o[0], {v}, n);
      for (int i = n; i < 16; i += 4) setLane(o[0].r, i, 4, cInt(0, 32));
      return true;
    }
    Val v = lane(o[1].r, 0, n);
    if (o[0].k == Opnd::GPR) setG(o[0].r, n, v); else wrm(o[0], n, v);
    return true;
  }
  if (m == "vpaddd") { lanes2(4, [](const Val &a, const Val &b) { return vAdd(a, b, 32); }); return true; }
  if (m == "vpsubd") { lanes2(4, [](const Val &a, const Val &b) { return vSub(a, b, 32); }); return true; }
  if (m == "vpaddq") { lanes2(8, [](const Val &a, const Val &b) { return vAdd(a, b, 64); }); return true; }
  if (m == "vpsubq") { lanes2(8, [](const Val &a, const Val &b) { return vSub(a, b, 64); }); return true; }
  if (m == "vpmulld") { lanes2(4, [](const Val &a, const Val &b) { return vMul(a, b, 32); }); return true; }
  if (m == "vpmuldq") { lanes2(8, [](const Val &a, const Val &b) { return (a.kind == V_UNDEF || b.kind == V_UNDEF) ? vMul(a, b, 64) : smul32(vTrunc(a, 32), vTrunc(b, 32)); }); return true; }
  if (m == "vpmuludq") { lanes2(8, [](const Val &a, const Val &b) { return (a.kind == V_UNDEF || b.kind == V_UNDEF) ? vMul(a, b, 64) : vMul(vZext(vTrunc(a, 32), 64), vZext(vTrunc(b, 32), 64), 64); }); return true; }
  if (m == "vpand" || m == "vpor" || m == "vpxor" || m == "vpandn" || m == "vandps" || m == "vxorps" || m == "vorps" || m == "vandpd" || m == "vxorpd") {
    if ((m == "vpxor" || m == "vxorps" || m == "vxorpd") && o[1].k == Opnd::VEC && o[2].k == Opnd::VEC && o[1].r == o[2].r) { std::vector<Val> z(bytes() / 4, cInt(0, 32)); setVec(o[0], z, 4); return true; }
    bool an = m == "vpand" || m == "vandps" || m == "vandpd", orr = m == "vpor" || m == "vorps", nn = m == "vpandn";
    lanes2(4, [&](const Val &a, const Val &b) { return an ? vAnd(a, b, 32) : orr ? vOr(a, b, 32) : nn ? vAnd(vXor(a, cInt(-1, 32), 32), b, 32) : vXor(a, b, 32); });
    return true;
  }
  if (m == "vpcmpgtd") { lanes2(4, [](const Val &a, const Val &b) { if (a.kind == V_UNDEF || b.kind == V_UNDEF) return vAdd(a, b, 32); Val c = vCmp(38, a, b); return vSext(c, 32); }); return true; }
  if (m == "vpcmpeqd") { lanes2(4, [](const Val &a, const Val &b) { if (a.kind == V_UNDEF || b.kind == V_UNDEF) return vAdd(a, b, 32); Val c = vCmp(32, a, b); return vSext(c, 32); }); return true; }
  if (m == "vpminsd" || m == "vpmaxsd") { bool mx = m == "vpmaxsd"; lanes2(4, [&](const Val &a, const Val &b) { Val c = vCmp(39, a, b); return mx ? vIte(c.f, a, b) : vIte(c.f, b, a); }); return true; }
  if (m == "vpabsd") { auto a = vec(o[1], 4, bytes()); std::vector<Val> r; for (auto &x : a) { Val c = vCmp(39, x, cInt(0, 32)); r.push_back(vIte(c.f, x, vSub(cInt(0, 32), x, 32))); } setVec(o[0], r, 4); return true; }
  if (m == "vpslld" || m == "vpsrld" || m == "vpsrad" || m == "vpsllq" || m == "vpsrlq") {
    int sz = m.back() == 'q' ? 8 : 4, w = sz * 8;
    int k; if (o[2].k == Opnd::IMM) k = (int)(o[2].imm & 255); else { Val kv = lane(o[2].r, 0, 8); if (!kv.isConst()) throw Fatal("vector shift by a symbolic amount"); k = (int)std::min<i128>(kv.f.k, 255); }
    auto a = vec(o[1], sz, bytes()); std::vector<Val> r;
    for (auto &x : a) r.push_back(m == "vpslld" || m == "vpsllq" ? vShl(x, k, w) : m == "vpsrad" ? vAshr(x, k, w) : vLshr(x, k, w));
    setVec(o[0], r, sz); return true;
  }
  auto dw = [&](const Opnd &x, int n) { return vec(x, 4, n); };
  if (m == "vpslldq" || m == "vpsrldq") {
    int k = (int)(o[2].imm & 255), n = bytes(); if (k > 16) k = 16;
    if (k % 4) throw Fatal("byte shift not a multiple of 4");
    auto a = dw(o[1], n); std::vector<Val> r(n / 4, cInt(0, 32)); int q = k / 4;
    for (int L = 0; L < n / 16; L++) for (int i = 0; i < 4; i++) { int sI = m == "vpslldq" ? i - q : i + q; if (sI >= 0 && sI < 4) r[L * 4 + i] = a[L * 4 + sI]; }
    setVec(o[0], r, 4); return true;
  }
  if (m == "vpalignr") {
    int k = (int)(o[3].imm & 255), n = bytes(); if (k % 4) throw Fatal("palignr not a multiple of 4");
    auto a = dw(o[1], n), b = dw(o[2], n); std::vector<Val> r(n / 4, cInt(0, 32));
    for (int L = 0; L < n / 16; L++) for (int i = 0; i < 4; i++) { int q = i + k / 4; r[L * 4 + i] = q < 4 ? b[L * 4 + q] : q < 8 ? a[L * 4 + q - 4] : cInt(0, 32); }
    setVec(o[0], r, 4); return true;
  }
  if (m == "vpblendd" || m == "vblendps") { int n = bytes(); auto a = dw(o[1], n), b = dw(o[2], n); for (size_t i = 0; i < a.size(); i++) if ((o[3].imm >> i) & 1) a[i] = b[i]; setVec(o[0], a, 4); return true; }
  if (m == "vpshufd" || m == "vpermilps") { int n = bytes(); auto a = dw(o[1], n); std::vector<Val> r; for (size_t i = 0; i < a.size(); i++) r.push_back(a[(i & ~3) + ((o[2].imm >> (2 * (i & 3))) & 3)]); setVec(o[0], r, 4); return true; }
  if (m == "vshufps") { int n = bytes(); auto a = dw(o[1], n), b = dw(o[2], n); std::vector<Val> r; for (size_t i = 0; i < a.size(); i++) { int s2 = (o[3].imm >> (2 * (i & 3))) & 3; r.push_back((i & 3) < 2 ? a[(i & ~3) + s2] : b[(i & ~3) + s2]); } setVec(o[0], r, 4); return true; }
  if (m == "vshufpd") { int n = bytes(); auto a = dw(o[1], n), b = dw(o[2], n); std::vector<Val> r; for (int q = 0; q < n / 8; q++) { int s2 = (o[3].imm >> q) & 1; auto &S = (q & 1) ? b : a; int base = (q & ~1) * 2 + s2 * 2; r.push_back(S[base]); r.push_back(S[base + 1]); } setVec(o[0], r, 4); return true; }
  if (m == "vpunpckldq" || m == "vpunpckhdq" || m == "vunpcklps" || m == "vunpckhps") { int n = bytes(); auto a = dw(o[1], n), b = dw(o[2], n); std::vector<Val> r; bool hi = m.find("ckh") != std::string::npos; for (int L = 0; L < n / 16; L++) for (int i = 0; i < 2; i++) { r.push_back(a[L * 4 + i + 2 * hi]); r.push_back(b[L * 4 + i + 2 * hi]); } setVec(o[0], r, 4); return true; }
  if (m == "vpunpcklqdq" || m == "vpunpckhqdq" || m == "vunpcklpd" || m == "vunpckhpd") { int n = bytes(); auto a = dw(o[1], n), b = dw(o[2], n); std::vector<Val> r; bool hi = m.find("ckh") != std::string::npos; for (int L = 0; L < n / 16; L++) { r.push_back(a[L * 4 + 2 * hi]); r.push_back(a[L * 4 + 2 * hi + 1]); r.push_back(b[L * 4 + 2 * hi]); r.push_back(b[L * 4 + 2 * hi + 1]); } setVec(o[0], r, 4); return true; }
  if (m == "vmovshdup" || m == "vmovsldup") { int n = bytes(); auto a = dw(o[1], n); std::vector<Val> r; for (size_t i = 0; i < a.size(); i++) r.push_back(m == "vmovshdup" ? a[i | 1] : a[i & ~1]); setVec(o[0], r, 4); return true; }
  if (m == "vpermd" || m == "vpermps") { auto ix = dw(o[1], 32), a = dw(o[2], 32); std::vector<Val> r; for (int i = 0; i < 8; i++) { if (!ix[i].isConst()) throw Fatal("vpermd with symbolic indices"); r.push_back(a[(int)(ix[i].f.k & 7)]); } setVec(o[0], r, 4); return true; }
  if (m == "vpermq" || m == "vpermpd") { auto a = dw(o[1], 32); std::vector<Val> r; for (int i = 0; i < 4; i++) { int q = (o[2].imm >> (2 * i)) & 3; r.push_back(a[2 * q]); r.push_back(a[2 * q + 1]); } setVec(o[0], r, 4); return true; }
  if (m == "vperm2i128" || m == "vperm2f128") {
    auto a = dw(o[1], 32), b = dw(o[2], 32); std::vector<Val> r;
    for (int h = 0; h < 2; h++) { int c = (o[3].imm >> (4 * h)) & 15; for (int i = 0; i < 4; i++) { if (c & 8) r.push_back(cInt(0, 32)); else r.push_back(((c & 2) ? b : a)[(c & 1) * 4 + i]); } }
    setVec(o[0], r, 4); return true;
  }
  if (m == "vextracti128" || m == "vextractf128") {
    int h = (int)(o[2].imm & 1); std::vector<Val> r; for (int i = 0; i < 4; i++) r.push_back(lane(o[1].r, h * 16 + i * 4, 4));
    if (o[0].k == Opnd::VEC) setVec(o[0], r, 4); else for (int i = 0; i < 4; i++) { Opnd d = o[0]; d.disp += 4 * i; wrm(d, 4, r[i]); }
    return true;
  }
  if (m == "vinserti128" || m == "vinsertf128") { auto a = dw(o[1], 32); auto b = dw(o[2], 16); for (int i = 0; i < 4; i++) a[(o[3].imm & 1) * 4 + i] = b[i]; setVec(o[0], a, 4); return true; }
  if (m.compare(0, 6, "vpmovs") == 0 || m.compare(0, 6, "vpmovz") == 0) {
    bool sg = m[5] == 's'; char f = m[7], t = m[8];
    int fs = f == 'b' ? 1 : f == 'w' ? 2 : 4, ts = t == 'w' ? 2 : t == 'd' ? 4 : 8;
    int n = bytes() / ts; auto a = vec(o[1], fs, n * fs); std::vector<Val> r;
    for (auto &x : a) r.push_back(sg ? vSext(x, ts * 8) : vZext(x, ts * 8));
    setVec(o[0], r, ts); return true;
  }
  if (m.compare(0, 12, "vpbroadcastd") == 0 || m == "vpbroadcastw" || m == "vpbroadcastq" || m == "vpbroadcastb" || m == "vbroadcastss") {
    int sz = m == "vpbroadcastw" ? 2 : m == "vpbroadcastq" ? 8 : m == "vpbroadcastb" ? 1 : 4;
    Val v = o[1].k == Opnd::VEC ? lane(o[1].r, 0, sz) : M->load(addrOf(o[1]), sz);
    std::vector<Val> r(bytes() / sz, v); setVec(o[0], r, sz); return true;
  }
  if (m == "vbroadcasti128" || m == "vbroadcastf128") { auto a = dw(o[1], 16); auto r = a; r.insert(r.end(), a.begin(), a.end()); setVec(o[0], r, 4); return true; }
  throw Fatal("unmodelled instruction: " + I.text);
}

struct AsmOut { AState st; Env env; };
// explore from the current state; returns exit states (more than one only after data-dependent branches)
static void explore(AExec &E, std::vector<AsmOut> &outs, int depth) {
  for (;;) {
    auto it = E.P.at.find(E.s.pc);
    if (it == E.P.at.end()) { M->alarm("abi", "control leaves the assembled code"); throw Fatal("pc outside code"); }
    Ins &I = E.P.ins[it->second];
    IP->whereAsm = I.src + " " + I.text;
    if (++M->steps > M->stepLimit) { M->alarm("nonterm", "step limit reached"); throw Fatal("step limit"); }
    int64_t nextpc = it->second + 1 < (int)E.P.ins.size() ? E.P.ins[it->second + 1].addr : -1;
    if (I.mn[0] == 'j') {
      E.P.covered.insert(I.addr);
      if (I.mn == "jmp") { E.s.pc = (int64_t)I.op[0].imm; continue; }
      Val c = E.cond(I.mn.substr(1));
      if (c.kind == V_UNDEF) { M->alarm("uninit", "branch on an undefined value"); throw Fatal("branch on undefined value"); }
      if (c.isConst()) { E.s.pc = c.f.k ? (int64_t)I.op[0].imm : nextpc; continue; }
      IP->nSymBranches++;
      if (depth > 12) { M->alarm("nonterm", "data-dependent loop in assembly"); throw Fatal("data-dependent loop in assembly"); }
      AState sv = E.s; Env ev = C->env;
      std::vector<UndoRec> log; auto *outer = M->log;
      for (int a = 0; a < 2; a++) {
        E.s = sv; C->env = ev; M->log = &log;
        if (C->addCons(C->env, c.f, {a, a})) { E.s.pc = a ? (int64_t)I.op[0].imm : nextpc; explore(E, outs, depth + 1); }
        for (size_t i = log.size(); i > 0; i--) { UndoRec &r = log[i - 1]; Obj &o = M->objs[r.obj]; if (r.what == 0) { o.sz[r.off] = r.sz; o.at[r.off] = r.v; } else o.freed = r.sz; }
        log.clear();
      }
      M->log = outer; C->env = ev;
      return;
    }
    if (I.mn == "call") {
      // direct call: push the return address as an opaque code pointer and continue
      auto fit = E.P.at.find((int64_t)I.op[0].imm);
      if (fit == E.P.at.end()) throw Fatal("call outside the assembled code");
      AExec sub{E.P, E.s}; sub.init = E.init;
      int ro = M->newObj("retaddr", 8); M->objs[ro].lib = true;
      sub.retObj = ro;
      sub.s.g[RSP] = sub.psub(sub.s.g[RSP], cInt(8, 64)); M->store(sub.s.g[RSP], 8, mkPtr(ro, 0));
      sub.s.pc = (int64_t)I.op[0].imm;
      std::vector<AsmOut> so; explore(sub, so, depth + 1);
      if (so.size() != 1) throw Fatal("data-dependent control flow in an assembly helper");
      E.s = so[0].st; E.s.pc = nextpc; continue;
    }
    if (!E.step(I)) { outs.push_back({E.s, C->env}); return; }
    E.s.pc = nextpc;
  }
}

std::vector<std::string> gAsmPaths;
CallRes asmCall(AsmProg *p, const std::string &fn, const std::vector<Val> &args) {
  bool svIn = IP->inAsm; std::string svW = IP->whereAsm;
  IP->inAsm = true; IP->whereAsm = fn;
  IP->fnsSeen.insert(fn);
  p->used.insert(fn);
  AExec E{*p, AState()};
  E.sectInit();
  static const int argr[6] = {7, 6, 2, 1, 8, 9};
  for (int r = 0; r < 16; r++) { E.s.g[r] = Val(); E.s.g[r].w = 64; }
  for (int r : {3, 5, 12, 13, 14, 15}) E.s.g[r] = mkInt(C->opaque(srange(64), std::string(G64[r]) + "@entry"), srange(64), 64);
  E.s.stack = M->newObj("stack", 4096); M->objs[E.s.stack].lib = true; M->objs[E.s.stack].stack = true;
  E.s.g[RSP] = mkPtr(E.s.stack, 2048);
  E.retObj = M->newObj("retaddr", 8); M->objs[E.retObj].lib = true;
  M->write(E.s.stack, 2048, 8, mkPtr(E.retObj, 0));
  for (int r = 0; r < 16; r++) { E.s.v[r] = M->newObj("ymm" + std::to_string(r), 32); M->objs[E.s.v[r]].lib = true; M->objs[E.s.v[r]].stack = true; }
  for (size_t i = 0; i < args.size() && i < 6; i++) {
    Val v = args[i];
    if (v.kind == V_INT && v.w < 64) {
      v = vZext(v, 64);
      if (gAbiGarbage) v = vAdd(v, vShl(mkInt(C->opaque(urange(32), std::string("upper(") + G64[argr[i]] + ")"), urange(32), 64), 32, 64), 64);
    }
    E.s.g[argr[i]] = v;
  }
  for (int r = 0; r < 16; r++) E.init.push_back(E.s.g[r]);
  E.s.pc = p->sym[fn];
  std::vector<AsmOut> outs;
  Env ev0 = C->env;
  explore(E, outs, 0);
  CallRes cr;
  gAsmPaths.clear();
  for (auto &o : outs) {
    for (int r : {3, 5, 12, 13, 14, 15}) {
      const Val &a = o.st.g[r], &b = E.init[r];
      if (!(a.kind == V_INT && C->equalForms(a.f, b.f))) { IP->whereAsm = fn; M->alarm("abi", std::string("callee-saved register ") + G64[r] + " not restored"); }
    }
    const Val &sp = o.st.g[RSP];
    if (!(sp.kind == V_PTR && sp.obj == E.s.stack && sp.f.isConst() && sp.f.k == 2056)) { IP->whereAsm = fn; M->alarm("abi", "stack pointer not restored"); }
    std::string cs;
    for (auto &x : o.env.over) { const Atom &A = C->atoms[x.first]; if (A.kind == A_INPUT || A.kind == A_EQZ || A.kind == A_ALIAS || A.kind == A_FLOOR) { Form f; f.t.push_back({x.first, 1}); cs += C->show(f) + " in [" + str128(x.second.lo) + "," + str128(x.second.hi) + "] ; "; } }
    gAsmPaths.push_back((o.st.g[0].isConst() ? str128(o.st.g[0].f.k) : "?") + " | " + cs);
  }
  if (outs.size() == 1) cr.ret = outs[0].st.g[0];
  for (int r = 0; r < 16; r++) { Obj &o = M->objs[E.s.v[r]]; o.sz.assign(0, 0); o.at.clear(); o.size = 0; }
  { Obj &o = M->objs[E.s.stack]; o.sz.clear(); o.at.clear(); o.size = 0; }
  if (outs.empty()) cr.dead = true;
  C->env = ev0;
  IP->inAsm = svIn; IP->whereAsm = svW;
  return cr;
}
