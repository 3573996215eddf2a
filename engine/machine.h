// Memory, paths and findings shared by the LLVM-IR and the ARM executors.
#pragma once
#include "value.h"
enum Cls { C_INPUT, C_OUTPUT, C_GLOBAL, C_CONST, C_STACK, C_HEAP, C_CODE, C_TLS };
struct Obj { u64 base = 0, size = 0; std::string name; Cls cls = C_STACK; bool writable = true, alive = true; std::shared_ptr<std::vector<Byte>> d; };
struct Mem {
  std::vector<Obj> o; int last = 0;
  int find(u64 a) {
    if (last < (int)o.size() && a - o[last].base < o[last].size) return last;
    int lo = 0, hi = (int)o.size() - 1, r = -1;
    while (lo <= hi) { int m = (lo + hi) / 2; if (o[m].base <= a) { r = m; lo = m + 1; } else hi = m - 1; }
    if (r >= 0 && a - o[r].base < o[r].size) { last = r; return r; }
    return -1;
  }
  int nearest(u64 a) { int lo = 0, hi = (int)o.size() - 1, r = -1; while (lo <= hi) { int m = (lo + hi) / 2; if (o[m].base <= a) { r = m; lo = m + 1; } else hi = m - 1; } return r; }
  void add(Obj ob) { auto it = std::upper_bound(o.begin(), o.end(), ob.base, [](u64 b, const Obj &x) { return b < x.base; }); o.insert(it, std::move(ob)); last = 0; }
  Obj &get(const std::string &n) { for (auto &x : o) if (x.name == n) return x; fprintf(stderr, "no object %s\n", n.c_str()); exit(3); }
  bool has(const std::string &n) { for (auto &x : o) if (x.name == n) return true; return false; }
  Bytes bytes(const std::string &n) { return *get(n).d; }
};
struct FnInfo;
struct Frame { FnInfo *f = nullptr; int pc = 0; int prevbb = -1; std::vector<Val> r; int retslot = -1; size_t objmark = 0; u64 sp = 0; bool boundary = false; int tag = 0; };
struct ArmCtx { // flags are computed when they are first read: Thumb-1 code sets them on almost every instruction
  Val r[16]; Lit N = F0, Z = F0, C = F0, V = F0; Val zv; bool zl = false; Val cx, cy; Lit cc = F0; bool cl = false;
  Lit z() { if (zl) { Z = veq(zv, Val(32, 0)); zl = false; zv = Val(); } return Z; }
  void cv(); Lit c() { cv(); return C; } Lit v() { cv(); return V; }
  void setC(Lit l) { cv(); C = l; }
};
struct State {
  Mem mem; std::vector<Lit> pc; std::map<std::vector<Lit>, u64> known;
  std::vector<Frame> st; u64 sp = 0;           // IR
  ArmCtx arm; std::vector<ArmCtx> armsave; int itcond = 0, itleft = 0; std::vector<int> itq; // ARM
  u64 heap = 0;
  u64 steps = 0; int gaccess = 0; bool preempted = false;
  int over = 0, splits = 0; bool unwind = false; std::vector<std::array<Val, 10>> shadow; // symbolic lengths: accesses beyond the buffers so far; ARM call stack
  Val ret; bool done = false, aborted = false, cut = false; std::string why;
  std::map<int, Val> rets; // return values of boundary calls by tag
};
struct Finding { std::string kind, where, detail; std::vector<Lit> pc; Lit cond = F0; std::string obj; std::vector<Lit> addr; };
struct World {
  std::vector<Finding> findings; std::set<std::string> dedupe;
  std::function<bool(u32)> isSecret, isLen; std::unordered_set<u32> publicNodes; bool ct = false;
  u64 maxsteps = 400000000, totalsteps = 0; int maxpaths = 4000; int paths = 0; u64 forks = 0, branchq = 0, addrq = 0, accesses = 0;
  bool inconclusive = false; std::string why;
  std::unordered_set<u32> hintCut; // nodes (specified tags) treated as free in feasibility queries
  std::set<std::string> gwrites, greads; std::set<std::string> funcs;
  std::function<bool(State &)> onGlobalAccess; // preemption hook
  bool watchGlobals = false;
  std::map<std::string,int> count;
  std::string where = "";
  unsigned solver_ms = 20000;
  double deadline = 0;
  std::vector<u32> uninitVars;
  bool symlen = false;       // lengths symbolic: unbounded buffers
  int maxblocks = 0;
  std::map<int, std::pair<u32,u32>> specRange; // graph nodes of each call's specification, by tag
  void fail(const std::string &s) { if (!inconclusive) { inconclusive = true; why = s; } }
  void add(const std::string &kind, const std::string &where, const std::string &detail, State &s, Lit cond = F0, const std::string &obj = "", std::vector<Lit> addr = {});
};
extern World W;
void setPref(const State &s); // prefer merging with the specification of the running call
struct Exec {
  virtual ~Exec() {}
  virtual void start(State &s, const std::string &fn, const std::vector<Val> &args, int tag) = 0; // push a call
  virtual std::vector<State> run(State s) = 0;      // until the outermost pushed call returns
  virtual void setup(State &s) = 0;                 // globals
  virtual bool hasFn(const std::string &fn) = 0;
  virtual u32 ptrw() = 0;
  virtual int depth(State &s) = 0; // calls below the function under test
  void overrun(State &s, const std::string &where);
  bool split(State &s, const Val &v, bool size, std::vector<State> &work, const std::string &where); // symbolic lengths: forks until v has one value; false: the path ended or left the function
  virtual u64 inputBase(int i) = 0;
  // shared helpers
  int branch(State &s, Lit cond, std::vector<State> &work, const std::string &where, State *other); // 1 true 0 false 2 both(other filled with false side) -1 infeasible
  bool feasible(State &s, Lit cond);
  bool resolve(State &s, const Val &v, u64 &out, bool &unique);
  Val load(State &s, const Val &addr, u32 n, const std::string &where);
  void store(State &s, const Val &addr, const Val &v, const std::string &where, Lit guard = T1);
  Bytes loadc(State &s, u64 a, u32 n, const std::string &where);
  void storec(State &s, u64 a, const Bytes &b, const std::string &where, Lit guard = T1);
  void copy(State &s, const Val &d, const Val &src, const Val &n, const std::string &where);
  void fill(State &s, const Val &d, const Val &byte, const Val &n, const std::string &where);
};
Val bytesToVal(const Bytes &b);
Bytes valToBytes(const Val &v);
Byte freshByte(const std::string &name);
Exec *makeIR(const std::string &bc);
Exec *makeArm(const std::string &elf, const std::string &dis);
