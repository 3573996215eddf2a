// Bit-level AND/XOR graph with structural hashing, 128-bit simulation signatures and
// on-the-fly SAT sweeping: a new node whose signature equals an older node's is merged with it
// after z3 has shown the two local cones equal for every value of their leaves.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <random>
#include <chrono>

typedef uint32_t Lit;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef int64_t i64;
static const Lit F0 = 0, T1 = 1;
static const Lit UNINIT = 0xffffffffu;
inline u32 nd(Lit l) { return l >> 1; }
inline Lit inv(Lit l) { return l ^ 1; }
inline bool isConst(Lit l) { return l < 2; }

struct Sig { u64 a, b; };

struct Lemma;

struct SolveResult { int status; /*0 unsat 1 sat 2 unknown*/ bool abstracted; std::unordered_map<u32, bool> model; };

struct Stats {
  u64 merges = 0, lemma_hits = 0, lemma_queries = 0, lemma_unsat = 0, lemma_sat = 0, big_queries = 0, big_unsat = 0, big_sat = 0, big_unknown = 0;
  u64 tables = 0, tried = 0, failed = 0, giveup = 0;
  double solver_s = 0;
};

struct Graph {
  std::vector<u64> fan;     // (a<<32)|b ; a<b AND, a>b XOR ; ~0 variable
  std::vector<Sig> sig;
  std::vector<u32> level;
  std::vector<u8> smark;    // nodes that are permutation state bits between rounds (a hint where to stop unfolding)
  void markState(Lit l) { u32 n = nd(l); if (smark.size() <= n) smark.resize(n + n / 2 + 1024, 0); smark[n] = 1; }
  bool isState(u32 n) const { return n < smark.size() && smark[n]; }
  // tables
  struct Slot { u64 key; u64 val; }; Slot *ht = nullptr; u64 hsize = 0, hcount = 0;
  u64 *stab = nullptr; u64 ssize = 0, scount = 0;   // (fingerprint << 32) | node; ~0 empty
  std::vector<std::string> varname; std::unordered_map<u32, u32> varidx; std::vector<u32> vars;
  std::unordered_map<u32, Lit> subst;  // node -> literal, active during implementation runs
  bool subst_on = false; u64 subst_hits = 0;
  bool sweep = true, specmode = false; u32 spec_lo = 0; u32 pref_lo = 0, pref_hi = 0; bool pref_on = false;  // candidates in [pref_lo,pref_hi) are tried first
  u64 consecutive_fail = 0; bool diverged = false;
  std::mt19937_64 rng;
  Stats st;
  std::vector<std::vector<std::pair<u32,bool>>> cex;   // refuting models over primary inputs, for replay candidates
  Graph();
  Lit var(const std::string &name, Sig s);
  Lit var(const std::string &name) { Sig s{rng(), rng()}; return var(name, s); }
  Lit And(Lit a, Lit b);
  Lit Xor(Lit a, Lit b);
  Lit Or(Lit a, Lit b) { return inv(And(inv(a), inv(b))); }
  Lit Mux(Lit c, Lit t, Lit e) { // c?t:e
    if (c == T1) return t; if (c == F0) return e; if (t == e) return t;
    if (t == T1 && e == F0) return c; if (t == F0 && e == T1) return inv(c);
    if (t == F0) return And(inv(c), e); if (e == F0) return And(c, t);
    if (t == T1) return Or(c, e); if (e == T1) return Or(inv(c), t);
    return Xor(e, And(c, Xor(t, e)));
  }
  bool isVar(u32 n) const { return n && fan[n] == ~0ull; }
  bool isAnd(u32 n) const { u32 a = fan[n] >> 32, b = (u32)fan[n]; return fan[n] != ~0ull && a < b; }
  Lit f0(u32 n) const { return fan[n] >> 32; }
  Lit f1(u32 n) const { return (u32)fan[n]; }
  Sig lsig(Lit l) const { Sig s = sig[nd(l)]; if (l & 1) { s.a = ~s.a; s.b = ~s.b; } return s; }
  Lit intern(Lit a, Lit b);
  Lit find_sig(u32 n);      // candidate merge for freshly appended node n
  bool prove(u32 n, u32 r, bool phase); bool prove1(u32 n, u32 r, bool phase, int mode);
  int lemma(const std::vector<u32> &order, const std::unordered_map<u32,int> &leaf, u32 n, u32 r, bool phase);
  void sig_insert(u32 n);
  // big queries; cut: nodes treated as free variables
  SolveResult solve(const std::vector<Lit> &as, const std::unordered_set<u32> *cut, u32 maxlevel, unsigned timeout_ms, u64 maxnodes = 3000000);
  bool incremental = false; SolveResult solveInc(const std::vector<Lit> &as, unsigned timeout_ms); // one solver kept alive, roots as assumptions
  // support
  bool support_any(const std::vector<Lit> &roots, const std::function<bool(u32)> &isTarget, const std::unordered_set<u32> *stop, u32 *witness = nullptr);
  void support(const std::vector<Lit> &roots, std::set<u32> &out, const std::unordered_set<u32> *stop);
  // evaluation of a cone with 64 parallel patterns over vars
  std::vector<u64> eval(const std::vector<Lit> &roots, const std::function<u64(u32)> &varval);
  std::string lemma_dump_dir;
};
extern Graph G;
double now();
