#include "graph.h"
#include <z3++.h>
#include <sys/file.h>
#include <sys/mman.h>
Graph G;
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static inline u64 mix(u64 x) { x ^= x >> 31; x *= 0x7fb5d329728ea185ull; x ^= x >> 27; x *= 0x81dadef4bc2dd44dull; x ^= x >> 33; return x; }

static void *bigalloc(size_t n) { void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { fprintf(stderr, "out of memory\n"); exit(4); } madvise(p, n, MADV_HUGEPAGE); return p; }
Graph::Graph() {
  const char *s = getenv("VERIF_SEED");
  rng.seed(0x15A9u + (s ? strtoull(s, 0, 10) : 1));
  fan.push_back(0); sig.push_back({0, 0}); level.push_back(0);
  hsize = ssize = 1 << 16; ht = (Slot *)bigalloc(hsize * sizeof(Slot)); stab = (u64 *)bigalloc(ssize * 8); memset(stab, 255, ssize * 8);
  sig_insert(0);
}
static inline Sig canon(Sig s) { if (s.a & 1) { s.a = ~s.a; s.b = ~s.b; } return s; }
static inline u64 shash(Sig s) { return mix(s.a * 0x9e3779b97f4a7c15ull ^ mix(s.b + 0x1234567)); }
void Graph::sig_insert(u32 n) {
  if (scount * 2 >= ssize) {
    u64 *old = stab, os = ssize; ssize *= 2; stab = (u64 *)bigalloc(ssize * 8); memset(stab, 255, ssize * 8); u64 m = ssize - 1;
    for (u64 i = 0; i < os; i++) if (old[i] != ~0ull) { u64 h = shash(canon(sig[(u32)old[i]])) & m; while (stab[h] != ~0ull) h = (h + 1) & m; stab[h] = old[i]; }
    munmap(old, os * 8);
  }
  u64 m = ssize - 1, f = shash(canon(sig[n])), h = f & m;
  while (stab[h] != ~0ull) h = (h + 1) & m;
  stab[h] = (f >> 32 << 32) | n; scount++;
}
Lit Graph::var(const std::string &name, Sig s) {
  u32 n = fan.size();
  fan.push_back(~0ull); sig.push_back(s); level.push_back(0);
  varidx[n] = vars.size(); vars.push_back(n); varname.push_back(name);
  sig_insert(n);
  return n << 1;
}
Lit Graph::And(Lit a, Lit b) {
  if (a > b) std::swap(a, b);
  if (a == F0) return F0;
  if (a == T1) return b;
  if (a == b) return a;
  if (a == (b ^ 1)) return F0;
  return intern(a, b);
}
Lit Graph::Xor(Lit a, Lit b) {
  Lit c = (a ^ b) & 1;
  a &= ~1u; b &= ~1u;
  if (a < b) std::swap(a, b);
  if (b == F0) return a ^ c;
  if (a == b) return c;
  return intern(a, b) ^ c;
}
Lit Graph::intern(Lit a, Lit b) {
  u64 key = (u64)a << 32 | b;
  u64 m = hsize - 1, h = mix(key) & m;
  while (ht[h].key) { if (ht[h].key == key) { Lit r = ht[h].val; if (subst_on) { auto it = subst.find(nd(r)); if (it != subst.end()) { subst_hits++; return it->second ^ (r & 1); } } return r; } h = (h + 1) & m; }
  Sig sa = lsig(a), sb = lsig(b), s;
  if (a < b) s = {sa.a & sb.a, sa.b & sb.b}; else s = {sa.a ^ sb.a, sa.b ^ sb.b};
  u32 n = fan.size();
  if (n >= 0x7ffffff0u) { fprintf(stderr, "graph too large\n"); exit(3); }
  fan.push_back(key); sig.push_back(s); level.push_back(1 + std::max(level[nd(a)], level[nd(b)]));
  Lit res = n << 1;
  if (sweep) {
    Lit r = find_sig(n);
    if (r != UNINIT) { fan.pop_back(); sig.pop_back(); level.pop_back(); res = r; }
    else sig_insert(n);
  }
  // find_sig never adds nodes, so the slot is still valid
  ht[h] = {key, res}; hcount++;
  if (hcount * 2 >= hsize) {
    Slot *o = ht; u64 os = hsize; hsize *= 2; ht = (Slot *)bigalloc(hsize * sizeof(Slot)); u64 mm = hsize - 1;
    for (u64 i = 0; i < os; i++) if (o[i].key) { u64 hh = mix(o[i].key) & mm; while (ht[hh].key) hh = (hh + 1) & mm; ht[hh] = o[i]; }
    munmap(o, os * sizeof(Slot));
  }
  if (subst_on) { auto it = subst.find(nd(res)); if (it != subst.end()) { subst_hits++; return it->second ^ (res & 1); } }
  return res;
}
static std::vector<u32> lastord;
Lit Graph::find_sig(u32 n) {
  Sig c = canon(sig[n]);
  u64 f = shash(c), m = ssize - 1, h = f & m; f >>= 32;
  u32 cand[16]; int nc = 0;
  for (; stab[h] != ~0ull; h = (h + 1) & m) {
    if (stab[h] >> 32 != f) continue;
    u32 r = (u32)stab[h]; Sig cr = canon(sig[r]);
    if (cr.a == c.a && cr.b == c.b && !(specmode && r && r < spec_lo)) { if (nc < 16) cand[nc++] = r; else { for (int i = 1; i < 15; i++) cand[i] = cand[i + 1]; cand[15] = r; } }
  }
  if (!nc || diverged) return UNINIT;
  if (pref_on && nc > 1) std::stable_sort(cand, cand + nc, [&](u32 x, u32 y) { bool px = x >= pref_lo && x < pref_hi, py = y >= pref_lo && y < pref_hi; return px != py ? px : x > y; });
  for (int i = 0; i < nc && i < (pref_on ? 6 : 3); i++) {
    u32 r = cand[i]; bool phase = (sig[n].a ^ sig[r].a) & 1;
    st.tried++;
    if (prove(n, r, phase)) { st.merges++; consecutive_fail = 0; return (r << 1) | phase; }
    st.failed++;
    if (++consecutive_fail > 20000) diverged = true;
  }
  return UNINIT;
}
// ---------------------------------------------------------------- local proofs
struct Z3Env { z3::context c; z3::solver s; Z3Env() : s(c, "QF_FD") { z3::params p(c); s.set(p); } };
static Z3Env *zenv() { static Z3Env *e = nullptr; if (!e) { z3::set_param("model", true); e = new Z3Env(); } return e; }
static std::unordered_map<std::string, int> lemma_cache;

static std::vector<std::string> lemma_new; static size_t lemma_loaded;
size_t load_lemmas(const std::string &f) { FILE *h = fopen(f.c_str(), "rb"); if (!h) return 0; unsigned n; std::string k; while (fread(&n, 4, 1, h) == 1) { unsigned char r; if (n > 100000) break; k.resize(n); if (fread(&k[0], 1, n, h) != n || fread(&r, 1, 1, h) != 1) break; lemma_cache[k] = r; } fclose(h); return lemma_loaded = lemma_cache.size(); }
void save_lemmas(const std::string &f) { std::string o; for (auto &k : lemma_new) { unsigned n = k.size(); o.append((char *)&n, 4); o += k; o.push_back((char)lemma_cache[k]); } FILE *h = fopen(f.c_str(), "ab"); if (!h) return; flock(fileno(h), LOCK_EX); fwrite(o.data(), 1, o.size(), h); fflush(h); flock(fileno(h), LOCK_UN); fclose(h); }
static void cone_order(u32 root, const std::unordered_map<u32,int> &leafset, std::vector<u32> &order, std::vector<u32> &leaforder, std::unordered_set<u32> &seen) {
  std::vector<std::pair<u32,int>> stk; stk.push_back({root, 0});
  while (!stk.empty()) {
    auto &t = stk.back(); u32 x = t.first;
    if (t.second == 0) {
      if (seen.count(x)) { stk.pop_back(); continue; }
      if (x == 0) { stk.pop_back(); continue; }
      if (leafset.count(x)) { seen.insert(x); leaforder.push_back(x); stk.pop_back(); continue; }
      t.second = 1; stk.push_back({nd(G.f0(x)), 0});
    } else if (t.second == 1) { t.second = 2; stk.push_back({nd(G.f1(x)), 0}); }
    else { stk.pop_back(); if (seen.insert(x).second) order.push_back(x); }
  }
}
int Graph::lemma(const std::vector<u32> &, const std::unordered_map<u32,int> &leafset, u32 n, u32 r, bool phase) {
  std::vector<u32> order, leaforder; std::unordered_set<u32> seen;
  cone_order(n, leafset, order, leaforder, seen);
  cone_order(r, leafset, order, leaforder, seen);
  std::unordered_map<u32,int> num; num.reserve(order.size() + leaforder.size() + 1);
  num[0] = 0; int k = 1;
  for (u32 x : leaforder) num[x] = k++;
  for (u32 x : order) num[x] = k++;
  std::string key; key.reserve(order.size() * 5 + 8);
  auto put = [&](u32 v) { key.push_back(v & 255); key.push_back(v >> 8); };
  put(leaforder.size());
  for (u32 x : order) {
    Lit a = f0(x), b = f1(x); u32 la = num[nd(a)] * 2 | (a & 1), lb = num[nd(b)] * 2 | (b & 1);
    if (la > lb) std::swap(la, lb);
    key.push_back(isAnd(x) ? 'A' : 'X'); put(la); put(lb);
  }
  put(num[n]); put(num[r] * 2 | phase);
  auto it = lemma_cache.find(key);
  if (it != lemma_cache.end()) { st.lemma_hits++; return it->second; }
  double t0 = now();
  Z3Env *z = zenv(); z3::context &c = z->c;
  std::vector<z3::expr> e; e.reserve(k); e.push_back(c.bool_val(false));
  for (size_t i = 0; i < leaforder.size(); i++) e.push_back(c.bool_const(("v" + std::to_string(i)).c_str()));
  for (u32 x : order) {
    Lit a = f0(x), b = f1(x);
    z3::expr ea = e[num[nd(a)]], eb = e[num[nd(b)]];
    if (a & 1) ea = !ea; if (b & 1) eb = !eb;
    e.push_back(isAnd(x) ? (ea && eb) : (ea != eb));
  }
  z3::expr en = e[num[n]], er = e[num[r]]; if (phase) er = !er;
  z->s.push(); z->s.add(en != er);
  z3::check_result cr = z->s.check();
  z->s.pop();
  st.lemma_queries++; st.solver_s += now() - t0;
  int res = cr == z3::unsat ? 1 : cr == z3::sat ? 0 : 2;
  if (res == 1) st.lemma_unsat++; else st.lemma_sat++;
  lemma_cache[key] = res; if (res < 2) lemma_new.push_back(key);
  return res;
}
bool Graph::prove(u32 n, u32 r, bool phase) {
  for (int mode : {3, 0, 2, 1}) if (prove1(n, r, phase, mode)) return true;
  // functions of at most six variables (mostly constant inputs): the truth tables of both complete cones
  static std::vector<u32> seen, stk, vs; static std::vector<u64> tt; static std::vector<u8> st1; if (st1.size() < fan.size()) { st1.resize(fan.size() * 2, 0); tt.resize(fan.size() * 2, 0); }
  seen.clear(); vs.clear(); stk.assign({n, r}); bool ok = true;
  while (!stk.empty() && ok) {
    u32 x = stk.back(); stk.pop_back(); if (!x || st1[x]) continue; st1[x] = 1; seen.push_back(x);
    if (seen.size() > 60000) ok = false;
    if (isVar(x)) { vs.push_back(x); if (vs.size() > 6) ok = false; continue; }
    stk.push_back(nd(f0(x))); stk.push_back(nd(f1(x)));
  }
  for (u32 x : seen) st1[x] = 0;
  if (!ok) return false;
  static const u64 pat[6] = {0xaaaaaaaaaaaaaaaaull, 0xccccccccccccccccull, 0xf0f0f0f0f0f0f0f0ull, 0xff00ff00ff00ff00ull, 0xffff0000ffff0000ull, 0xffffffff00000000ull};
  std::sort(seen.begin(), seen.end()); std::sort(vs.begin(), vs.end()); tt[0] = 0;
  for (u32 x : seen) { if (isVar(x)) { tt[x] = pat[std::lower_bound(vs.begin(), vs.end(), x) - vs.begin()]; continue; } Lit a = f0(x), b = f1(x); u64 va = tt[nd(a)] ^ (a & 1 ? ~0ull : 0), vb = tt[nd(b)] ^ (b & 1 ? ~0ull : 0); tt[x] = isAnd(x) ? va & vb : va ^ vb; }
  u64 d = tt[n] ^ (r ? tt[r] : 0); if (d == (phase ? ~0ull : 0)) { st.tables++; return true; }
  return false;
}
bool Graph::prove1(u32 n, u32 r, bool phase, int mode) {
  // Grow the cones of n and r downwards from both sides.  Leaves reached from one side only are expanded first,
  // newest first; a leaf shared by both cones is expanded when nothing else is left.
  struct LF { u32 id; u8 side; bool var; bool frozen; };
  static std::vector<LF> lv; lv.clear();
  static std::vector<u32> interior; interior.clear(); // sorted by id
  auto isInt = [&](u32 x) { return std::binary_search(interior.begin(), interior.end(), x); };
  auto addleaf = [&](u32 x, u8 side) { if (x == 0) return; for (auto &l : lv) if (l.id == x) { if (l.frozen) { l.frozen = false; l.side = 3; } else l.side |= side; return; } if (isInt(x)) return; lv.push_back({x, side, isVar(x), false}); };
  bool rdone = (r == 0) || isVar(r), refuted_exact = false; int checks = 0;
  // linear phase: n ^ r as a sum of terms; common terms cancel and stay leaves
  static std::map<u32, u8, std::greater<u32>> T, bestT; static std::vector<u32> canc, lin; T.clear(); canc.clear(); lin.clear();
  auto flip = [&](u32 x, u8 side) { if (!x) return; auto it = T.find(x); if (it != T.end()) { T.erase(it); canc.push_back(x); } else T[x] = side; };
  flip(n, 1); flip(r, 2); size_t bestC = 0, bestL = 0;
  for (int since = 0; since < 12 && lin.size() < 60;) {
    u32 x = 0; u8 sd = 0; for (auto &t : T) if (!isVar(t.first) && !isAnd(t.first) && !(mode == 3 && t.first != n && t.first != r && isState(t.first))) { x = t.first; sd = t.second; break; }
    if (!x) break;
    T.erase(x); lin.push_back(x); size_t c0 = canc.size(); flip(nd(f0(x)), sd); flip(nd(f1(x)), sd); since++;
    if (canc.size() > c0) { bestT = T; bestC = canc.size(); bestL = lin.size(); since = 0; if (T.empty()) break; }
  }
  if (bestC) {
    canc.resize(bestC); lin.resize(bestL); std::sort(lin.begin(), lin.end()); lin.erase(std::unique(lin.begin(), lin.end()), lin.end()); interior = lin;
    for (u32 x : canc) if (!isInt(x) && !bestT.count(x)) { bool dup = false; for (auto &l : lv) if (l.id == x) dup = true; if (!dup) lv.push_back({x, 3, isVar(x), true}); if (x == r) rdone = true; }
    for (auto &t : bestT) addleaf(t.first, t.second);
    if (isInt(r)) rdone = true;
    if (bestT.empty()) { std::unordered_map<u32,int> lf; for (auto &l : lv) lf[l.id] = 1; if (lemma(interior, lf, n, r, phase) == 1) return true; st.giveup++; return false; }
  } else { addleaf(n, 1); addleaf(r, 2); }
  static std::unordered_map<u32,u64> ev; static std::unordered_map<u32,int> leaf;
  static std::vector<u64> iv;
  u64 seed = 0x9E3779B97F4A7C15ull * (n + 1);
  auto lval = [&](u32 x) { // half of the patterns balanced, a quarter mostly ones, a quarter mostly zeros
    u64 s = seed ^ (x * 0xD6E8FEB86659FD93ull); s ^= s >> 32; s *= 0xD6E8FEB86659FD93ull; s ^= s >> 29; s *= 0x9E3779B97F4A7C15ull; s ^= s >> 32;
    u64 a = s * 0xBF58476D1CE4E5B9ull, b = s * 0x94D049BB133111EBull; a ^= a >> 31; b ^= b >> 29; u64 c = a * 0xD6E8FEB86659FD93ull; c ^= c >> 30;
    return (s & 0xffffffffull) | ((s | a | b | c) & 0xffff00000000ull) | ((s & a & b & c) & 0xffff000000000000ull); };
  int satl = 0;
  bool floorSet = false;
  while (true) {
    int best = -1; bool bone = false;
    for (int i = 0; i < (int)lv.size(); i++) { if (lv[i].var || lv[i].frozen) continue; bool one = mode == 1 ? lv[i].side != 3 : mode == 3 ? !isState(lv[i].id) : false; if (best < 0 || (one && !bone) || (one == bone && lv[i].id > lv[best].id)) { best = i; bone = one; } }
    if (best < 0) { refuted_exact = checks > 0 || rdone; break; }
    if (mode == 2 && !floorSet && lv[best].side == 3) { // freeze the shared top part once
      floorSet = true; u32 F = 0; for (auto &l : lv) if (!l.var && !l.frozen && l.side != 3 && l.id > F) F = l.id;
      bool any = false; if (F) for (auto &l : lv) if (!l.frozen && l.id > F) { l.frozen = true; any = true; }
      if (any) continue;
    }
    LF x = lv[best]; lv[best] = lv.back(); lv.pop_back();
    interior.insert(std::lower_bound(interior.begin(), interior.end(), x.id), x.id);
    if (x.id == r) rdone = true;
    addleaf(nd(f0(x.id)), x.side); addleaf(nd(f1(x.id)), x.side);
    if (lv.size() > 64 || interior.size() > 400) { st.giveup++; return false; }
    if (!rdone) { bool rl = false; for (auto &l : lv) if (l.id == r && l.side == 3) rl = true; if (!rl) continue; }
    checks++;
    // random simulation over the leaves before asking the solver
    iv.resize(interior.size());
    auto valof = [&](Lit a) -> u64 { u32 y = nd(a); u64 v; if (!y) v = 0; else { auto it = std::lower_bound(interior.begin(), interior.end(), y); if (it != interior.end() && *it == y) v = iv[it - interior.begin()]; else v = lval(y); } return v ^ (a & 1 ? ~0ull : 0); };
    for (size_t i = 0; i < interior.size(); i++) { u32 y = interior[i]; u64 va = valof(f0(y)), vb = valof(f1(y)); iv[i] = isAnd(y) ? (va & vb) : (va ^ vb); }
    if ((valof(n << 1) ^ valof(r << 1)) == (phase ? ~0ull : 0)) {
      leaf.clear(); for (auto &l : lv) leaf[l.id] = 1;
      if (lemma(interior, leaf, n, r, phase) == 1) return true;
      if (++satl > 5) { st.giveup++; return false; }
    }
    if (checks > 300) { st.giveup++; return false; }
  }
  leaf.clear(); for (auto &l : lv) leaf[l.id] = 1;
  if (refuted_exact && cex.size() < 400) {
    // cone is down to primary inputs and not equal: a real distinguishing input exists; keep it as a replay candidate
    std::vector<Lit> as; as.push_back(n << 1); // value differing from the signature class: ask z3
    bool allvar = true; for (auto &l : leaf) if (!isVar(l.first)) allvar = false;
    if (allvar && leaf.size() <= 64) {
      static std::unordered_set<u64> done;
      if (done.insert((u64)n << 32 | r).second) {
        Z3Env *z = zenv(); z3::context &c = z->c; std::unordered_map<u32,int> num; std::vector<z3::expr> e;
        std::vector<u32> lv; for (auto &l : leaf) lv.push_back(l.first);
        std::sort(lv.begin(), lv.end());
        num[0] = 0; e.push_back(c.bool_val(false)); int k = 1;
        for (u32 x : lv) { num[x] = k++; e.push_back(c.bool_const(("v" + std::to_string(x)).c_str())); }
        std::vector<u32> ord(interior); std::sort(ord.begin(), ord.end());
        for (u32 y : ord) { Lit a = f0(y), b = f1(y); z3::expr ea = e[num[nd(a)]], eb = e[num[nd(b)]]; if (a & 1) ea = !ea; if (b & 1) eb = !eb; num[y] = k++; e.push_back(isAnd(y) ? (ea && eb) : (ea != eb)); }
        z3::expr en = e[num[n]], er = e[num[r]]; if (phase) er = !er;
        double t0 = now();
        z->s.push(); z->s.add(en != er);
        if (z->s.check() == z3::sat) {
          z3::model m = z->s.get_model(); std::vector<std::pair<u32,bool>> v;
          for (u32 x : lv) v.push_back({x, m.eval(e[num[x]], true).is_true()});
          cex.push_back(v);
        }
        z->s.pop(); st.lemma_queries++; st.lemma_sat++; st.solver_s += now() - t0;
      }
    }
  }
  return false;
}
// ---------------------------------------------------------------- big queries
SolveResult Graph::solve(const std::vector<Lit> &as, const std::unordered_set<u32> *cut, u32 maxlevel, unsigned timeout_ms, u64 maxnodes) {
  SolveResult R; R.abstracted = false; R.status = 2;
  for (Lit a : as) if (a == F0) { R.status = 0; return R; }
  if (incremental && !cut) return solveInc(as, timeout_ms);
  double t0 = now();
  st.big_queries++;
  z3::context c; z3::solver s(c, "QF_FD"); z3::params p(c); p.set("timeout", timeout_ms); s.set(p);
  std::unordered_map<u32,u32> num; std::vector<z3::expr> e; std::vector<u32> leaves;
  e.push_back(c.bool_val(false)); num[0] = 0;
  auto isleaf = [&](u32 x) { return isVar(x) || (cut && cut->count(x)) || level[x] > maxlevel; };
  u64 cnt = 0;
  for (Lit root : as) {
    std::vector<std::pair<u32,int>> stk; stk.push_back({nd(root), 0});
    while (!stk.empty()) {
      auto &t = stk.back(); u32 x = t.first;
      if (t.second == 0) {
        if (num.count(x)) { stk.pop_back(); continue; }
        if (isleaf(x)) { if (!isVar(x)) R.abstracted = true; num[x] = e.size(); leaves.push_back(x); e.push_back(c.bool_const(("n" + std::to_string(x)).c_str())); stk.pop_back(); continue; }
        t.second = 1; stk.push_back({nd(f0(x)), 0});
      } else if (t.second == 1) { t.second = 2; stk.push_back({nd(f1(x)), 0}); }
      else {
        stk.pop_back(); if (num.count(x)) continue;
        if (++cnt > maxnodes) { st.big_unknown++; st.solver_s += now() - t0; return R; }
        Lit a = f0(x), b = f1(x); z3::expr ea = e[num[nd(a)]], eb = e[num[nd(b)]]; if (a & 1) ea = !ea; if (b & 1) eb = !eb;
        num[x] = e.size(); e.push_back(isAnd(x) ? (ea && eb) : (ea != eb));
      }
    }
  }
  for (Lit root : as) { z3::expr x = e[num[nd(root)]]; s.add(root & 1 ? !x : x); }
  z3::check_result cr = s.check();
  if (cr == z3::unsat) { R.status = 0; st.big_unsat++; }
  else if (cr == z3::sat) { R.status = 1; st.big_sat++; z3::model m = s.get_model(); for (u32 x : leaves) R.model[x] = m.eval(e[num[x]], true).is_true(); }
  else st.big_unknown++;
  st.solver_s += now() - t0;
  return R;
}
SolveResult Graph::solveInc(const std::vector<Lit> &as, unsigned timeout_ms) {
  struct Env { z3::context c; z3::solver s; std::unordered_map<u32, u32> num; std::vector<z3::expr> e; Env() : s(c, z3::solver::simple()) { e.push_back(c.bool_val(false)); num[0] = 0; } };
  static Env *E = nullptr; if (!E) E = new Env();
  SolveResult R; R.abstracted = false; R.status = 2; double t0 = now(); st.big_queries++;
  z3::params p(E->c); p.set("timeout", timeout_ms); E->s.set(p);
  for (Lit root : as) {
    std::vector<std::pair<u32,int>> stk; if (!E->num.count(nd(root))) stk.push_back({nd(root), 0});
    while (!stk.empty()) {
      auto &t = stk.back(); u32 x = t.first;
      if (E->num.count(x)) { stk.pop_back(); continue; }
      if (isVar(x)) { E->num[x] = E->e.size(); E->e.push_back(E->c.bool_const(("v" + std::to_string(x)).c_str())); stk.pop_back(); continue; }
      if (t.second < 2) { Lit f = t.second++ ? f1(x) : f0(x); stk.push_back({nd(f), 0}); continue; }
      stk.pop_back(); Lit a = f0(x), b = f1(x); z3::expr ea = E->e[E->num[nd(a)]], eb = E->e[E->num[nd(b)]]; if (a & 1) ea = !ea; if (b & 1) eb = !eb;
      z3::expr d = E->c.bool_const(("n" + std::to_string(x)).c_str()); E->s.add(d == (isAnd(x) ? (ea && eb) : (ea != eb))); E->num[x] = E->e.size(); E->e.push_back(d);
    }
  }
  z3::expr_vector v(E->c); for (Lit l : as) { if (l == T1) continue; z3::expr x = E->e[E->num[nd(l)]]; v.push_back(l & 1 ? !x : x); }
  z3::check_result cr = E->s.check(v);
  if (cr == z3::unsat) { R.status = 0; st.big_unsat++; }
  else if (cr == z3::sat) { R.status = 1; st.big_sat++; z3::model m = E->s.get_model(); for (u32 x : vars) { auto it = E->num.find(x); if (it != E->num.end()) R.model[x] = m.eval(E->e[it->second], true).is_true(); } }
  else st.big_unknown++;
  st.solver_s += now() - t0; return R;
}
static std::vector<u32> mark; static u32 epoch = 0;
bool Graph::support_any(const std::vector<Lit> &roots, const std::function<bool(u32)> &isTarget, const std::unordered_set<u32> *stop, u32 *wit) {
  if (mark.size() < fan.size()) mark.resize(fan.size() + fan.size() / 2, 0);
  epoch++; std::vector<u32> stk;
  for (Lit l : roots) if (nd(l) && mark[nd(l)] != epoch) { mark[nd(l)] = epoch; stk.push_back(nd(l)); }
  while (!stk.empty()) {
    u32 x = stk.back(); stk.pop_back();
    if (stop && stop->count(x)) continue;
    if (isTarget(x)) { if (wit) *wit = x; return true; }
    if (isVar(x)) continue;
    for (u32 y : {nd(f0(x)), nd(f1(x))}) if (y && mark[y] != epoch) { mark[y] = epoch; stk.push_back(y); }
  }
  return false;
}
void Graph::support(const std::vector<Lit> &roots, std::set<u32> &out, const std::unordered_set<u32> *stop) {
  support_any(roots, [&](u32 x) { if (isVar(x)) out.insert(x); return false; }, stop);
}
std::vector<u64> Graph::eval(const std::vector<Lit> &roots, const std::function<u64(u32)> &vv) {
  std::vector<u32> order;
  if (mark.size() < fan.size()) mark.resize(fan.size() + fan.size() / 2, 0);
  epoch++; std::vector<u32> stk;
  for (Lit l : roots) if (nd(l) && mark[nd(l)] != epoch) { mark[nd(l)] = epoch; stk.push_back(nd(l)); }
  while (!stk.empty()) {
    u32 x = stk.back(); stk.pop_back(); order.push_back(x);
    if (isVar(x)) continue;
    for (u32 y : {nd(f0(x)), nd(f1(x))}) if (y && mark[y] != epoch) { mark[y] = epoch; stk.push_back(y); }
  }
  std::sort(order.begin(), order.end());
  static std::vector<u64> v; if (v.size() < fan.size()) v.resize(fan.size() + fan.size() / 2); v[0] = 0;
  for (u32 x : order) {
    if (isVar(x)) { v[x] = vv(x); continue; }
    Lit a = f0(x), b = f1(x); u64 va = v[nd(a)] ^ (a & 1 ? ~0ull : 0), vb = v[nd(b)] ^ (b & 1 ? ~0ull : 0);
    v[x] = isAnd(x) ? (va & vb) : (va ^ vb);
  }
  std::vector<u64> r; for (Lit l : roots) r.push_back((nd(l) ? v[nd(l)] : 0) ^ (l & 1 ? ~0ull : 0));
  return r;
}
