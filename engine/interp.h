#pragma once
#include "val.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <unordered_map>

struct OutRec { std::string fn; std::string fmt; std::vector<Val> args; int stream; bool may = false; };

struct AsmProg; // asm front end
struct CallRes { bool dead = false; Val ret; };

// Loops whose number of iterations depends on data: invariants from a fixed set of templates, kept while inductive
struct LoopInv {
  bool active = false, changed = false;
  std::vector<Form> anchors;                        // quantities a loop variable may be compared with
  std::vector<std::pair<Form, Form>> ghosts;        // (z, value that belongs to z)
  int dir = 0;                                      // 1: the loop variable bounds the value from above, -1: from below, 0: either
  Form block; bool hasBlock = false;                // floor of the ghost's argument / 4096
  std::vector<i128> scales;                         // W: a loop variable may equal red(W * another)
  struct L { std::vector<char> dead; size_t n = 0; std::vector<Form> old, init; std::vector<char> inc, dec; uint64_t backs = 0;
    std::map<const llvm::PHINode *, int> flag; }; // flag: value 0 or 1 on entry; iterations that change it are followed, not summarised (-1: not a flag)
  std::map<const llvm::BasicBlock *, L> loops;
  uint64_t claims = 0;
};
struct LoopRestart {};

struct Interp {
  LoopInv inv;
  std::unique_ptr<llvm::LLVMContext> lctx;
  std::unique_ptr<llvm::Module> mod;
  std::unordered_map<const llvm::GlobalVariable *, int> globals;
  AsmProg *as = nullptr;
  bool shadow = false;              // interval library calls are summarised (shadow semantics)
  int itvClass = 0; int64_t itvOnly = -1, itvLo = -2147483648ll, itvHi = 2147483647ll; uint64_t itvCount = 0; std::map<AtomId, std::pair<int, int>> itvAtoms; std::map<int, int> itvClasses; void intervalBounds(int o);
  bool statics = true; // mutable static objects hold any value on entry, as after earlier calls
  bool openEnds = false, trackOut = false;
  std::vector<OutRec> out;
  std::vector<std::string> events;
  std::map<std::string, std::string> contracts;
  struct Ghost { Form z, w, v, x, y; bool step = false; };    // v is the value that belongs to the pair (z, w), see contract kinds max-mul, ...; x, y: inputs of a butterfly
  struct Fact { std::vector<Form> conds, claims; };  // claims hold where the conditions do
  std::vector<Fact> pending;          // facts whose conditions were not established at the call
  void addFact(const std::vector<Form> &conds, const std::vector<Form> &claims);
  std::vector<Ghost> ghosts; uint64_t contractCalls = 0, ghostFacts = 0;
  std::set<std::string> fnsSeen;
  int depth = 0, symDepth = 0;
  int nSymBranches = 0;
  std::vector<const llvm::Instruction *> callstack;
  const llvm::Instruction *curI = nullptr;
  std::string whereAsm; bool inAsm = false;

  void resetRun() { globals.clear(); out.clear(); events.clear(); callstack.clear(); depth = symDepth = 0; nSymBranches = 0; curI = nullptr; inAsm = false; }
  std::string where();
  CallRes callByName(const std::string &fn, const std::vector<Val> &args);
  CallRes callFn(llvm::Function *F, const std::vector<Val> &args);
  CallRes external(const std::string &name, const std::vector<Val> &args, const llvm::CallBase *cb);
  bool shadowCall(const std::string &name, const std::vector<Val> &args, CallRes &r);
  int globalObj(const llvm::GlobalVariable *g);
  Val constVal(const llvm::Constant *c);
  void initGlobal(int obj, int64_t off, const llvm::Constant *c);
  std::string cstring(const Val &p);
};
extern Interp *IP;

// asm front end
AsmProg *asmLoad(const std::string &dis, const std::string &data);
bool asmHas(AsmProg *, const std::string &fn);
CallRes asmCall(AsmProg *, const std::string &fn, const std::vector<Val> &args);
void asmReset(AsmProg *);
std::string asmInfo(AsmProg *);
