#include "machine.h"
World W;
Val bytesToVal(const Bytes &b) {
  if (b.size() <= 8) { u64 v = 0; bool k = true; for (size_t i = 0; i < b.size() && k; i++) for (int j = 0; j < 8; j++) { if (b[i][j] > 1) { k = false; break; } v |= (u64)b[i][j] << (i * 8 + j); } if (k) return Val(b.size() * 8, v); }
  std::vector<Lit> r(b.size() * 8); for (size_t i = 0; i < b.size(); i++) for (int j = 0; j < 8; j++) r[i * 8 + j] = b[i][j];
  return Val(std::move(r));
}
Bytes valToBytes(const Val &v) { u32 n = (v.w + 7) / 8; Bytes r(n); for (u32 i = 0; i < n; i++) for (int j = 0; j < 8; j++) r[i][j] = i * 8 + j < v.w ? v.bit(i * 8 + j) : F0; return r; }
Byte freshByte(const std::string &name) { Byte b; for (int i = 0; i < 8; i++) b[i] = G.var(name + "." + std::to_string(i)); return b; }
void World::add(const std::string &kind, const std::string &where, const std::string &detail, State &s, Lit cond, const std::string &obj, std::vector<Lit> addr) {
  count[kind]++;
  std::string key = kind + "|" + where + "|" + obj;
  if (!dedupe.insert(key).second) return;
  if (findings.size() > 400) return;
  findings.push_back({kind, where, detail, s.pc, cond, obj, std::move(addr)});
}
static bool simSat(const std::vector<Lit> &as) { Sig x{~0ull, ~0ull}; for (Lit l : as) { Sig t = G.lsig(l); x.a &= t.a; x.b &= t.b; } return x.a | x.b; }
bool Exec::feasible(State &s, Lit cond) {
  if (cond == F0) return false;
  std::vector<Lit> as(s.pc); as.push_back(cond);
  for (Lit l : s.pc) if (l == inv(cond)) return false;
  for (Lit l : s.pc) if (l == cond) return true;
  if (simSat(as)) return true;
  W.branchq++;
  if (!W.hintCut.empty()) { SolveResult r = G.solve(as, &W.hintCut, 0xffffffffu, 3000, 100000); if (r.status == 0) return false; if (r.status == 1) return true; }
  for (u32 lv : {600u, 0xffffffffu}) {
    SolveResult r = G.solve(as, nullptr, lv, lv == 600u ? W.solver_ms : 3000, 400000);
    if (r.status == 0) return false;
    if (r.status == 1 && !r.abstracted) return true;
    if (r.status == 2 && lv == 600u) { W.fail("branch query unknown at " + W.where); return true; }
    if (r.status == 2) return true; // abstracted model exists: keep the path (over-approximation)
  }
  return true;
}
int Exec::branch(State &s, Lit cond, std::vector<State> &work, const std::string &where, State *other) {
  if (cond < 2) return cond;
  if (W.ct && W.isSecret && G.support_any({cond}, W.isSecret, &W.publicNodes)) W.add("secret_branch", where, "branch condition depends on secret data", s, cond);
  W.where = where;
  if (W.symlen && s.over && W.isLen && G.support_any({cond}, [](u32 n) { return G.isVar(n) && !W.isLen(n); }, &W.publicNodes)) { // contents unknown after a call was given up: either way
    W.forks++; if (other) *other = s; return 2;
  }
  bool t = feasible(s, cond), f = feasible(s, inv(cond));
  if (t && f) {
    W.forks++;
    if (other) { *other = s; other->pc.push_back(inv(cond)); }
    s.pc.push_back(cond);
    return 2;
  }
  if (t) return 1;
  if (f) return 0;
  return -1;
}
bool Exec::resolve(State &s, const Val &v, u64 &out, bool &unique) {
  unique = true;
  if (v.k) { out = v.c; return true; }
  auto key = vbits(v);
  auto it = s.known.find(key); if (it != s.known.end()) { out = it->second; return true; }
  W.addrq++;
  u64 c = 0; Sig al{~0ull, ~0ull}; for (Lit l : s.pc) { Sig t = G.lsig(l); al.a &= t.a; al.b &= t.b; }
  if (al.a | al.b) { // a simulation pattern satisfies the path condition
    int j = al.a ? __builtin_ctzll(al.a) : 64 + __builtin_ctzll(al.b);
    for (size_t i = 0; i < key.size() && i < 64; i++) { Sig t = G.lsig(key[i]); bool bit = ((j < 64 ? t.a : t.b) >> (j & 63)) & 1; if (bit) c |= 1ull << i; u64 ea = bit ? ~0ull : 0; if (((t.a ^ ea) & al.a) | ((t.b ^ ea) & al.b)) unique = false; }
    if (!unique) { out = c; return true; }
  } else {
  SolveResult r = G.solve(s.pc, nullptr, 600, W.solver_ms);
  if (r.status == 0) return false;
  if (r.status == 2) { W.fail("address query unknown"); return false; }
  // evaluate v under the model (missing leaves: false)
  auto ev = G.eval(key, [&](u32 x) -> u64 { auto i = r.model.find(x); return i != r.model.end() && i->second ? ~0ull : 0; });
  for (size_t i = 0; i < key.size() && i < 64; i++) c |= (ev[i] & 1) << i;
  }
  Lit eq = veq(v, Val(v.w, c));
  std::vector<Lit> as(s.pc); as.push_back(inv(eq));
  SolveResult r2 = G.solve(as, nullptr, 600, W.solver_ms);
  if (r2.status == 0) { s.known[key] = c; out = c; return true; }
  unique = false; out = c; return true;
}
static void gaccess(State &s, Obj &o, bool wr) { (wr ? W.gwrites : W.greads).insert(o.name); }
// symbolic lengths: a call that leaves the buffers has shown that it honours its length; execution goes on after that call
void Exec::overrun(State &s, const std::string &where) { s.over++; if (depth(s) > 0) s.unwind = true; else { s.done = s.cut = true; s.why = "access outside the buffers at " + where; } }
bool Exec::split(State &s, const Val &v, bool size, std::vector<State> &work, const std::string &where) {
  if (v.k) return true;
  u64 a; bool u; if (!resolve(s, v, a, u)) { s.done = s.aborted = true; s.why = "address"; return false; }
  if (u) return true;
  if (s.over && !size) return true; // the load or store itself leaves the function
  auto fork = [&](Lit c, bool toTrue) -> int { State other; int d = branch(s, toTrue ? c : inv(c), work, where, &other); if (d < 0) { s.done = s.aborted = true; s.why = "infeasible"; return -1; } if (d == 2) { other.splits++; work.push_back(std::move(other)); } return d; };
  if (++s.splits > 2000) { W.fail("too many values of an address or size at " + where); s.done = s.aborted = true; s.why = "symbolic address"; return false; }
  if (size) { // beyond any buffer
    Lit big = vult(Val(v.w, 1u << 20), v); if (a > (1u << 20)) { if (fork(big, true) < 0) return false; overrun(s, where); return false; }
    if (fork(inv(big), true) < 0) return false;
  } else {
    int k = s.mem.find(a); if (k < 0) { overrun(s, where); return false; }
    Lit in = G.And(inv(vult(v, Val(v.w, s.mem.o[k].base))), vult(v, Val(v.w, s.mem.o[k].base + s.mem.o[k].size))); if (fork(in, true) < 0) return false;
  }
  if (!resolve(s, v, a, u)) { s.done = s.aborted = true; s.why = "address"; return false; } if (u) return true;
  return fork(veq(v, Val(v.w, a)), true) >= 0;
}
Bytes Exec::loadc(State &s, u64 a, u32 n, const std::string &where) {
  Bytes r(n); W.accesses++;
  for (u32 i = 0; i < n;) {
    int k = s.mem.find(a + i);
    if (k < 0 || !s.mem.o[k].alive) {
      if (W.symlen) { overrun(s, where); return Bytes(n, cbyte(0)); }
      int ne = s.mem.nearest(a + i);
      std::string nm = a + i < 4096 ? "null" : ne >= 0 ? s.mem.o[ne].name : "?";
      W.add("oob_read", where, "read of " + std::to_string(n) + " bytes at offset " + (ne >= 0 ? std::to_string((i64)(a - s.mem.o[ne].base)) : "?") + " of " + nm, s, F0, nm);
      if (W.count["oob_read"] > 3000) { s.done = s.aborted = true; s.why = "too many out-of-bounds accesses"; }
      for (; i < n; i++) { r[i] = freshByte("oob"); }
      break;
    }
    Obj &o = s.mem.o[k]; u64 off = a + i - o.base;
    if (o.cls == C_CODE) { }
    if (o.cls == C_GLOBAL && W.watchGlobals) gaccess(s, o, false);
    for (; i < n && off < o.size; i++, off++) {
      Byte &b = (*o.d)[off];
      if (b[0] == UNINIT) {
        if (o.d.use_count() > 1) o.d = std::make_shared<std::vector<Byte>>(*o.d);
        Byte fb; for (int j = 0; j < 8; j++) { fb[j] = G.var("uninit"); W.uninitVars.push_back(nd(fb[j])); }
        (*o.d)[off] = fb; r[i] = fb;
      } else r[i] = b;
    }
  }
  return r;
}
void Exec::storec(State &s, u64 a, const Bytes &b, const std::string &where, Lit guard) {
  W.accesses++;
  for (size_t i = 0; i < b.size();) {
    int k = s.mem.find(a + i);
    if (k < 0 || !s.mem.o[k].alive || !s.mem.o[k].writable) {
      if (W.symlen) { overrun(s, where); return; }
      int ne = k >= 0 ? k : s.mem.nearest(a + i);
      std::string nm = a + i < 4096 ? "null" : ne >= 0 ? s.mem.o[ne].name : "?";
      bool ro = k >= 0 && s.mem.o[k].alive;
      W.add(ro ? "input_write" : "oob_write", where, "write of " + std::to_string(b.size()) + " bytes at offset " + (ne >= 0 ? std::to_string((i64)(a - s.mem.o[ne].base)) : "?") + " of " + nm, s, F0, nm);
      if (W.count["oob_write"] + W.count["input_write"] > 3000) { s.done = s.aborted = true; s.why = "too many out-of-bounds accesses"; }
      return;
    }
    Obj &o = s.mem.o[k]; u64 off = a + i - o.base;
    if (o.cls == C_TLS) gaccess(s, o, true);
    if (o.cls == C_GLOBAL) { gaccess(s, o, true); W.add("global_write", where, "write to static object " + o.name, s, F0, o.name); }
    if (o.d.use_count() > 1) o.d = std::make_shared<std::vector<Byte>>(*o.d);
    for (; i < b.size() && off < o.size; i++, off++) {
      if (guard == T1) (*o.d)[off] = b[i];
      else { Byte old = (*o.d)[off]; if (old[0] == UNINIT) { old = freshByte("uninit"); for (int j = 0; j < 8; j++) W.uninitVars.push_back(nd(old[j])); } for (int j = 0; j < 8; j++) (*o.d)[off][j] = G.Mux(guard, b[i][j], old[j]); }
    }
  }
}
// symbolic address: constant base + few symbolic bits -> multiplexer
static bool symbits(const Val &a, std::vector<u32> &idx) { for (u32 i = 0; i < a.w; i++) if (a.bit(i) > 1) idx.push_back(i); return idx.size() <= 16; }
static bool enumerate(Exec *E, State &s, const Val &addr, std::vector<std::pair<u64, Lit>> &out, u32 limit) {
  // all values of addr under the path condition, by signatures first and solver for completeness
  std::vector<Lit> bits = vbits(addr); std::vector<Lit> as(s.pc);
  while (out.size() <= limit) {
    SolveResult r = G.solve(as, nullptr, 600, W.solver_ms);
    if (r.status == 0) return true;
    if (r.status == 2) return false;
    auto ev = G.eval(bits, [&](u32 x) -> u64 { auto i = r.model.find(x); return i != r.model.end() && i->second ? ~0ull : 0; });
    if (r.abstracted) return false;
    u64 c = 0; for (size_t i = 0; i < bits.size(); i++) c |= (ev[i] & 1) << i;
    Lit eq = veq(addr, Val(addr.w, c)); out.push_back({c, eq}); as.push_back(inv(eq));
  }
  return false;
}
static bool muxable(Exec *E, State &s, const Val &addr, std::vector<std::pair<u64, Lit>> &cases, const std::string &where) {
  std::vector<u32> idx; symbits(addr, idx);
  if (idx.size() <= 12) { // free enumeration of the symbolic bits
    u64 base = 0; for (u32 i = 0; i < addr.w; i++) if (addr.bit(i) == T1) base |= 1ull << i;
    for (u64 m = 0; m < (1ull << idx.size()); m++) {
      u64 a = base; Lit c = T1; for (size_t j = 0; j < idx.size(); j++) { bool bit = (m >> j) & 1; if (bit) a |= 1ull << idx[j]; c = G.And(c, addr.bit(idx[j]) ^ (bit ? 0 : 1)); }
      if (c != F0) cases.push_back({a, c});
    }
    return true;
  }
  return enumerate(E, s, addr, cases, 300);
}
Val Exec::load(State &s, const Val &addr, u32 n, const std::string &where) {
  if (addr.k) return bytesToVal(loadc(s, addr.c, n, where));
  if (W.ct && W.isSecret && G.support_any(vbits(addr), W.isSecret, &W.publicNodes)) W.add("secret_addr", where, "load address depends on secret data", s, F0, "", vbits(addr));
  u64 a; bool u;
  if (!resolve(s, addr, a, u)) { s.done = s.aborted = true; s.why = "address"; return Val(n * 8, 0); }
  if (u) return bytesToVal(loadc(s, a, n, where));
  std::vector<std::pair<u64, Lit>> cases;
  if (W.symlen && s.over) { if (depth(s) > 0) { s.unwind = true; return Val(n * 8, 0); } Bytes f; for (u32 i = 0; i < n; i++) f.push_back(freshByte("beyond")); return bytesToVal(f); }
  if (W.symlen || !muxable(this, s, addr, cases, where)) { W.fail("symbolic load address at " + where); s.done = s.aborted = true; s.why = "symbolic address"; return Val(n * 8, 0); }
  Val r; bool first = true;
  for (auto &c : cases) {
    int k = s.mem.find(c.first);
    if (k < 0) { if (feasible(s, c.second)) { State t = s; t.pc.push_back(c.second); loadc(t, c.first, n, where); } continue; }
    Val v = bytesToVal(loadc(s, c.first, n, where));
    if (first) { r = v; first = false; } else r = vite(c.second, v, r);
  }
  if (first) r = Val(n * 8, 0);
  return r;
}
void Exec::store(State &s, const Val &addr, const Val &v, const std::string &where, Lit guard) {
  if (addr.k) { storec(s, addr.c, valToBytes(v), where, guard); return; }
  if (W.ct && W.isSecret && G.support_any(vbits(addr), W.isSecret, &W.publicNodes)) W.add("secret_addr", where, "store address depends on secret data", s, F0, "", vbits(addr));
  u64 a; bool u;
  if (!resolve(s, addr, a, u)) { s.done = s.aborted = true; s.why = "address"; return; }
  if (u) { storec(s, a, valToBytes(v), where, guard); return; }
  std::vector<std::pair<u64, Lit>> cases;
  if (W.symlen && s.over) { if (depth(s) > 0) s.unwind = true; return; }
  if (W.symlen || !muxable(this, s, addr, cases, where)) { W.fail("symbolic store address at " + where); s.done = s.aborted = true; s.why = "symbolic address"; return; }
  for (auto &c : cases) { int k = s.mem.find(c.first); if (k < 0 && !feasible(s, c.second)) continue; storec(s, c.first, valToBytes(v), where, G.And(guard, c.second)); }
}
void Exec::copy(State &s, const Val &d, const Val &src, const Val &n, const std::string &where) {
  u64 dd, ss, nn; bool u1, u2, u3; if (W.symlen && s.over && (!d.k || !src.k || !n.k)) { if (!resolve(s, n, nn, u3) || !u3 || !resolve(s, d, dd, u1) || !u1 || !resolve(s, src, ss, u2) || !u2) { s.over++; if (depth(s) > 0) s.unwind = true; return; } }
  if (!resolve(s, n, nn, u3) || !u3 || !resolve(s, d, dd, u1) || !u1 || !resolve(s, src, ss, u2) || !u2) { W.fail("memcpy with symbolic arguments at " + where); s.done = s.aborted = true; return; }
  if (nn > (1u << 20)) { W.add("oob_write", where, "copy of " + std::to_string(nn) + " bytes", s); s.done = s.aborted = true; return; }
  if (nn == 0) return;
  // raw bytes, uninitialised ones stay so
  Bytes b(nn); bool ok = true;
  for (u64 i = 0; i < nn; i++) { int k = s.mem.find(ss + i); if (k < 0) { ok = false; break; } b[i] = (*s.mem.o[k].d)[ss + i - s.mem.o[k].base]; }
  if (!ok) b = loadc(s, ss, nn, where);
  else W.accesses++;
  storec(s, dd, b, where);
}
void Exec::fill(State &s, const Val &d, const Val &byte, const Val &n, const std::string &where) {
  u64 dd, nn; bool u1, u3; if (W.symlen && s.over && (!d.k || !n.k)) { if (!resolve(s, n, nn, u3) || !u3 || !resolve(s, d, dd, u1) || !u1) { s.over++; if (depth(s) > 0) s.unwind = true; return; } }
  if (!resolve(s, n, nn, u3) || !u3 || !resolve(s, d, dd, u1) || !u1) { W.fail("memset with symbolic arguments at " + where); s.done = s.aborted = true; return; }
  if (nn > (1u << 20)) { W.add("oob_write", where, "fill of " + std::to_string(nn) + " bytes", s); s.done = s.aborted = true; return; }
  if (nn == 0) return;
  Byte x = valToBytes(vtrunc(byte, 8))[0]; storec(s, dd, Bytes(nn, x), where);
}

void setPref(const State &s) {
  G.pref_on = false; if (W.specRange.empty()) return;
  for (size_t i = s.st.size(); i-- > 0;) if (s.st[i].boundary) { auto it = W.specRange.find(s.st[i].tag); if (it != W.specRange.end()) { G.pref_on = true; G.pref_lo = it->second.first; G.pref_hi = it->second.second; } return; }
}
