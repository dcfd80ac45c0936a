#pragma once
#include "dom.h"
#include <functional>
#include <map>
#include <set>
#include <stdexcept>

enum VKind { V_UNDEF, V_INT, V_PTR, V_FN };
struct Val {
  VKind kind = V_UNDEF;
  int w = 0;      // bit width (ints)
  Form f;         // value, or byte offset of a pointer
  Itv iv{0, 0};
  int obj = -1;   // pointers: object id, -1 = null
  void *fn = nullptr;
  std::shared_ptr<const std::vector<std::pair<int, Val>>> parts; // a value loaded from several cells: their sizes and contents
  bool isConst() const { return kind == V_INT && f.isConst(); }
};

struct Alarm { std::string kind, where, text; };
struct Fatal : std::runtime_error { using std::runtime_error::runtime_error; };

Itv srange(int w);
Itv urange(int w);
Val mkInt(const Form &f, Itv iv, int w);
Val cInt(i128 k, int w);
Val wrapTo(const Form &f, Itv iv, int w);          // any representative, in s- or u-range
Val simplify(Val v);
Form toSigned(const Val &v, Itv *iv);
Form toUnsigned(const Val &v, Itv *iv);
Val vAdd(const Val &a, const Val &b, int w, bool *ovf = nullptr);  // ovf: signed overflow possible
Val vSub(const Val &a, const Val &b, int w, bool *ovf = nullptr);
Val vMul(const Val &a, const Val &b, int w, bool *ovf = nullptr);
Val vAnd(const Val &a, const Val &b, int w);
Val vOr(const Val &a, const Val &b, int w);
Val vXor(const Val &a, const Val &b, int w);
Val vShl(const Val &a, int k, int w, bool *ovf = nullptr);
Val vLshr(const Val &a, int k, int w);
Val vAshr(const Val &a, int k, int w);
Val vSext(const Val &a, int w);
Val vZext(const Val &a, int w);
Val vTrunc(const Val &a, int w);
Val vDivRem(const Val &a, const Val &b, int w, bool sgn, bool rem);
Val vIte(const Form &cond, const Val &a, const Val &b);
Val vCmp(int pred, const Val &a, const Val &b);    // LLVM ICmp predicate numbers
Val vGe0(const Form &f, Itv iv);

struct Obj {
  std::string name;
  int64_t size = 0;
  bool ro = false, heap = false, freed = false, lib = false, stack = false, global = false;
  bool gone = false;                // merged into another object at a join
  bool interval = false;            // interval object with a shadow value
  Val shadow;
  bool rd = false, wr = false;
  std::vector<uint8_t> sz;                 // size of the cell starting here, 0 otherwise
  std::vector<std::shared_ptr<const Val>> at;
};
struct UndoRec { int obj; int64_t off; uint8_t sz; std::shared_ptr<const Val> v; int what; };

struct Mem {
  std::deque<Obj> objs;
  std::vector<UndoRec> *log = nullptr;
  std::vector<Alarm> alarms;
  std::set<std::string> alarmKeys;
  std::map<std::string, int> names;
  std::function<std::string()> where;
  uint64_t steps = 0, stepLimit = 400000000ull, nLoads = 0, nStores = 0, nArith = 0;
  void alarm(const std::string &kind, const std::string &text, const std::string &w = "");
  bool known(const std::string &kind) { return alarmKeys.count(kind + "|" + (where ? where() : std::string())) > 0; }
  int newObj(const std::string &name, int64_t size);
  bool check(const Val &p, int64_t size, bool write, int64_t &off);
  Val read(int obj, int64_t off, int size, bool quiet = false);
  void write(int obj, int64_t off, int size, const Val &v);
  void setCell(int obj, int64_t off, uint8_t s, std::shared_ptr<const Val> v);
  Val load(const Val &p, int size);
  void store(const Val &p, int size, const Val &v);
  int joinObjs(const Form &cond, int x, int y);
  void copyBytes(int dobj, int64_t doff, int sobj, int64_t soff, int64_t n);
};
extern Mem *M;
Val mkPtr(int obj, i128 off);
Val storeNorm(const Val &v);
extern bool gCoarse;
