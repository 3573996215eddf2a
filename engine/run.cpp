// Scenario runner: builds the specification, executes the real code symbolically and decides the obligations.
#include "machine.h"
#include <sstream>
#include <fstream>
#include <iostream>
static std::map<std::string, std::string> opt;
static std::string O(const std::string &k, const std::string &d = "") { auto i = opt.find(k); return i == opt.end() ? d : i->second; }
static int OI(const std::string &k, int d) { auto i = opt.find(k); return i == opt.end() ? d : atoi(i->second.c_str()); }
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) r += ' '; else r += c; } return "\"" + r + "\""; }

// ---------------------------------------------------------------- symbolic inputs
struct Named { std::string name; Bytes b; };
static Bytes mkvars(const std::string &n, size_t len) { Bytes r; for (size_t i = 0; i < len; i++) r.push_back(freshByte(n + "." + std::to_string(i))); return r; }
struct Inputs { Bytes k, n, ad, m, c; };  // pools
static Inputs P, P2;                        // second pool for sequences
static std::unordered_set<u32> secretVars;
static void mark_secret(const Bytes &b) { for (auto &x : b) for (Lit l : x) if (!isConst(l)) secretVars.insert(nd(l)); }
static Bytes pre(const Bytes &b, size_t n) { return Bytes(b.begin(), b.begin() + n); }

struct Obl { u64 total = 0, structural = 0, solver = 0, failed = 0, unknown = 0; } obl;
struct Cand { std::vector<std::pair<std::string, std::string>> f; };
struct Report { std::string kind, where, detail, ctx; std::vector<Cand> cands; };
static std::vector<Report> reports; static std::vector<std::string> notes; static std::vector<std::string> samples;
static u64 runs = 0, pathsEnded = 0, vac_ok = 0;
static Exec *E; static Spec SP; static bool stopNow = false;

static int hexv(const Bytes &b, const std::function<int(Lit)> &val, std::string &out) { static const char *h = "0123456789abcdef"; out.clear(); for (auto &x : b) { int v = 0; for (int i = 0; i < 8; i++) v |= val(x[i]) << i; out += h[v >> 4]; out += h[v & 15]; } return 0; }
struct Ctx { // the call(s) under test, for replay candidates
  std::string what; std::vector<std::pair<std::string, std::string>> fixed; // name -> literal text
  std::vector<std::pair<std::string, Bytes>> sym;                          // name -> symbolic bytes
  std::vector<std::pair<std::string, std::pair<Bytes, Bytes>>> delta;      // name -> (tag vars, spec tag): reported as xor difference
};
static Cand mkcand(const Ctx &x, const std::function<int(Lit)> &val) {
  Cand c; c.f = x.fixed; std::string s;
  for (auto &p : x.sym) { hexv(p.second, val, s); c.f.push_back({p.first, s}); }
  for (auto &p : x.delta) { Bytes d; for (size_t i = 0; i < p.second.first.size(); i++) { Byte t; for (int j = 0; j < 8; j++) t[j] = val(p.second.first[i][j]) ^ val(p.second.second[i][j]); d.push_back(t); } hexv(d, [](Lit l) { return (int)l; }, s); c.f.push_back({p.first, s}); }
  return c;
}
static std::mt19937_64 prng(12345);
static std::unordered_map<u32, bool> absModel; static bool haveAbs = false; // last model of a query over cut nodes
static std::vector<Cand> candidates(const Ctx &x, const std::vector<Lit> &pc, Lit cond) {
  std::vector<Cand> out; std::vector<Lit> as(pc); if (cond > 1) as.push_back(cond);
  Sig all{~0ull, ~0ull}; for (Lit l : as) { Sig t = G.lsig(l); all.a &= t.a; all.b &= t.b; }
  int n = 0;
  for (int j = 0; j < 128 && n < 8; j++) { if (!(((j < 64 ? all.a : all.b) >> (j & 63)) & 1)) continue; n++; out.push_back(mkcand(x, [&](Lit l) -> int { Sig t = G.lsig(l); return ((j < 64 ? t.a : t.b) >> (j & 63)) & 1; })); }
  auto fromModel = [&](const std::unordered_map<u32, bool> &m, bool authentic = false) {
    u64 salt = prng();
    auto vv = [&, salt](u32 v) -> int { auto i = m.find(v); if (i != m.end()) return i->second; u64 z = (v + salt) * 0x9E3779B97F4A7C15ull; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; return (z >> 40) & 1; };
    std::vector<Lit> need; for (auto &p : x.sym) for (auto &y : p.second) need.insert(need.end(), y.begin(), y.end()); for (auto &p : x.delta) for (auto *q : {&p.second.first, &p.second.second}) for (auto &y : *q) need.insert(need.end(), y.begin(), y.end());
    std::vector<Lit> ev; for (Lit l : need) if (l > 1 && !m.count(nd(l))) ev.push_back(l & ~1u);
    auto r = G.eval(ev, [&](u32 q) -> u64 { return vv(q) ? ~0ull : 0; }); std::unordered_map<u32, bool> val; for (size_t i = 0; i < ev.size(); i++) val[nd(ev[i])] = r[i] & 1;
    out.push_back(mkcand(x, [&](Lit l) -> int { if (l < 2) return l; auto i = m.find(nd(l)); return (i != m.end() ? i->second : val[nd(l)]) ^ (l & 1); }));
    if (authentic) for (auto &p : x.delta) for (auto &f : out.back().f) if (f.first == p.first) std::fill(f.second.begin(), f.second.end(), '0');
  };
  if (haveAbs) { fromModel(absModel); haveAbs = false; }
  for (int round = 0; round < 3; round++) {
    SolveResult r; if (round == 0) r = G.solve(as, nullptr, 600, 10000, 200000); else if (round == 1 && cond > 1) r = G.solve(pc, nullptr, 600, 10000, 200000); else continue;
    if (r.status == 1) for (int q = 0; q < 8; q++) fromModel(r.model, (q & 1) && !x.delta.empty());
  }
  // inputs that separate nodes of equal signature, found by the solver during sweeping
  int cc = 0; for (size_t i = G.cex.size(); i-- > 0 && cc < 60; cc++) { std::unordered_map<u32, bool> m; for (auto &p : G.cex[i]) m[p.first] = p.second; fromModel(m); }
  for (int q = 0; q < 4; q++) fromModel({});
  return out;
}
static void report(const std::string &kind, const std::string &where, const std::string &detail, const Ctx &x, const std::vector<Lit> &pc, Lit cond) {
  for (auto &r : reports) if (r.kind == kind && r.where == where) return;
  if (reports.size() > 30) return;
  reports.push_back({kind, where, detail, x.what, candidates(x, pc, cond)});
}
// prove that `bad` is unsatisfiable under pc. 1 proved, 0 refuted (model exists), 2 unknown
static int decide(const std::vector<Lit> &pc, Lit bad, const std::unordered_set<u32> *cut = nullptr) {
  haveAbs = false;
  obl.total++;
  if (bad == F0) { obl.structural++; return 1; }
  for (Lit l : pc) if (l == F0 || l == inv(bad)) { obl.structural++; return 1; }
  std::vector<Lit> as(pc); as.push_back(bad);
  Sig x{~0ull, ~0ull}; for (Lit l : as) { Sig t = G.lsig(l); x.a &= t.a; x.b &= t.b; }
  if (x.a | x.b) { obl.failed++; return 0; }
  if (cut) { SolveResult r = G.solve(as, cut, 0xffffffffu, 30000, 300000); if (r.status == 0) { obl.solver++; return 1; } if (r.status == 1 && !r.abstracted) { obl.failed++; return 0; } if (r.status == 1) { absModel = r.model; haveAbs = true; } }
  // distance cuts: expand the roots down to a growing number of interior nodes
  for (size_t lim : {300u, 3000u, 20000u}) {
    std::set<u32, std::greater<u32>> fr; std::unordered_set<u32> interior; for (Lit l : as) if (nd(l)) fr.insert(nd(l));
    std::unordered_set<u32> cs;
    while (!fr.empty() && interior.size() < lim) { u32 n = *fr.begin(); fr.erase(fr.begin()); if (G.isVar(n)) { continue; } interior.insert(n); for (u32 y : {nd(G.f0(n)), nd(G.f1(n))}) if (y && !interior.count(y)) fr.insert(y); }
    for (u32 y : fr) cs.insert(y);
    SolveResult r = G.solve(as, &cs, 0xffffffffu, lim > 3000 ? 20000 : 8000, 300000);
    if (r.status == 0) { obl.solver++; return 1; }
    if (r.status == 1 && !r.abstracted) { obl.failed++; return 0; }
    if (r.status == 2) break;
  }
  obl.unknown++; return 2;
}
static bool checkBytes(const std::string &kind, const std::string &what, const Bytes &got, const Bytes &want, State &s, const Ctx &x) {
  bool ok = true; std::vector<Lit> bad; int shown = 0;
  for (size_t i = 0; i < want.size(); i++) for (int j = 0; j < 8; j++) {
    Lit g = got[i][j];
    if (g == UNINIT) { obl.total++; obl.failed++; report(kind, what, what + " byte " + std::to_string(i) + " is never written", x, s.pc, F0); return false; }
    Lit d = G.Xor(g, want[i][j]);
    int r = decide(s.pc, d);
    if (r != 1) { ok = false; if (!shown++) report(kind, what, what + " byte " + std::to_string(i) + " bit " + std::to_string(j) + (r == 0 ? " differs" : " not shown equal"), x, s.pc, r == 0 ? d : F0); if (r == 2) return false; }
    if (!ok && shown > 0) return false;
  }
  return ok;
}
static Obj mkobj(const std::string &name, u64 base, const Bytes &b, Cls cls) { Obj o; o.name = name; o.base = base; o.size = b.size(); o.cls = cls; o.writable = cls != C_INPUT; o.d = std::make_shared<std::vector<Byte>>(b); return o; }
static Bytes uninit(size_t n) { Byte u; u.fill(UNINIT); return Bytes(n, u); }
static int MIS = 0, ADDRSLOT = -1; // ADDRSLOT: both calls of a sequence use the same addresses
struct Call { std::string kind; u64 out, outlen, in, ad, n, k; size_t adlen, inlen; int tag; std::string sfx; };
// place the buffers of one call; index selects address slots
static Call place(State &s, const std::string &kind, const std::string &sfx, int slot, const Bytes &k, const Bytes &n, const Bytes &ad, const Bytes &in, size_t outsz, const Bytes *outinit = nullptr) {
  Call c; c.kind = kind; c.sfx = sfx; int b = (ADDRSLOT >= 0 ? ADDRSLOT : slot) * 8; auto at = [&](int i) { return E->inputBase(b + i) + MIS; };
  c.k = at(0); c.n = at(1); c.ad = at(2); c.in = at(3); c.out = at(4); c.outlen = E->inputBase(b + 5); c.adlen = ad.size(); c.inlen = in.size(); c.tag = slot;
  if (kind != "hash") { s.mem.add(mkobj("k" + sfx, c.k, k, C_INPUT)); s.mem.add(mkobj("npub" + sfx, c.n, n, C_INPUT)); if (ad.size()) s.mem.add(mkobj("ad" + sfx, c.ad, ad, C_INPUT)); }
  if (in.size()) s.mem.add(mkobj(std::string(kind == "dec" ? "c" : kind == "enc" ? "m" : "in") + sfx, c.in, in, C_INPUT));
  if (outsz) s.mem.add(mkobj("out" + sfx, c.out, outinit ? *outinit : uninit(outsz), C_OUTPUT));
  if (kind != "hash") s.mem.add(mkobj("outlen" + sfx, c.outlen, uninit(8), C_OUTPUT));
  return c;
}
static std::vector<Val> argv_(const Call &c, const Val *inlen = nullptr, const Val *adlen = nullptr) {
  u32 w = E->ptrw(); auto p = [&](u64 a) { return Val(w, a); };
  Val L = inlen ? *inlen : Val(64, c.inlen), A = adlen ? *adlen : Val(64, c.adlen);
  if (c.kind == "enc") return {p(c.out), p(c.outlen), p(c.in), L, p(c.ad), A, p(0), p(c.n), p(c.k)};
  if (c.kind == "dec") return {p(c.out), p(c.outlen), p(0), p(c.in), L, p(c.ad), A, p(c.n), p(c.k)};
  return {p(c.out), p(c.in), L};
}
static std::string fname(const std::string &kind) { return kind == "enc" ? "crypto_aead_encrypt" : kind == "dec" ? "crypto_aead_decrypt" : "crypto_hash"; }
static State fresh() { State s; E->setup(s); return s; }

// findings raised by the executors (memory, static data, control flow) become reports
static size_t fseen = 0;
static std::string FILTER;
static bool want(const std::string &k) { return FILTER.find("," + k + ",") != std::string::npos || FILTER == ",all,"; }
static void drain(const Ctx &x, Lit A = UNINIT, const std::unordered_set<u32> *cut = nullptr, Lit A2 = UNINIT) {
  for (; fseen < W.findings.size(); fseen++) {
    Finding &f = W.findings[fseen];
    if (!want(f.kind)) continue;
    if (f.kind == "secret_branch" && A != UNINIT && f.obj != "memcmp") { // permitted: a branch on the outcome itself
      bool okk = false;
      for (Lit a : {A2, A}) { if (a == UNINIT || okk) continue; for (int ph = 0; ph < 2 && !okk; ph++) { bool save = G.sweep; Lit d = G.Xor(f.cond, a ^ ph); if (decide(f.pc, d, cut) == 1) okk = true; (void)save; } }
      if (okk) continue;
    }
    obl.total++; obl.failed++;
    report(f.kind, f.where, f.detail, x, f.pc, f.cond);
  }
}
static void endPath(State &s, const Ctx &x) {
  pathsEnded++;
  if (s.aborted || s.cut) { if (!W.inconclusive) { obl.total++; obl.failed++; if (want("abort")) report("abort", s.why, "call does not return normally: " + s.why, x, s.pc, F0); } }
}
// ---------------------------------------------------------------- y abstraction
static Bytes Vy;
static Bytes cutY(Bytes S, bool on) {
  if (!on) return S;
  if (Vy.empty()) Vy = mkvars("y", 16);
  G.subst.clear();
  for (int i = 0; i < 16; i++) for (int j = 0; j < 8; j++) { Lit l = S[i][j]; if (isConst(l) || G.isVar(nd(l)) || G.subst.count(nd(l))) continue; G.subst[nd(l)] = Vy[i][j] ^ (l & 1); S[i][j] = Vy[i][j]; }
  return S;
}
static Spec::KS ks; static bool ksInit = false;
static Bytes keystream(size_t n) { if (!ksInit) { ks = SP.ks_start(P.k, P.n); ksInit = true; } SP.ks_extend(ks, n); return pre(ks.out, n); }
static Ctx mkctx(const std::string &what, size_t adlen, size_t mlen) { Ctx x; x.what = what; x.fixed = {{"op", what}, {"adlen", std::to_string(adlen)}, {"len", std::to_string(mlen)}, {"mis", std::to_string(MIS)}}; return x; }
static int nsamples = 0;
static void sample(const std::string &s) { if (nsamples++ < 6) samples.push_back(s); }
static std::vector<State> call(State s, const Call &c, const Val *inlen = nullptr, const Val *adlen = nullptr) {
  if (!E->hasFn(fname(c.kind))) { W.fail("no function " + fname(c.kind)); return {}; }
  G.subst_on = !G.subst.empty(); E->start(s, fname(c.kind), argv_(c, inlen, adlen), c.tag); auto r = E->run(std::move(s)); G.subst_on = false; runs++; return r;
}
static bool CUT = true, STP = false;
static void setPublic(const Bytes &c) { W.publicNodes.clear(); for (auto &b : c) for (Lit l : b) if (!isConst(l) && !G.isVar(nd(l))) W.publicNodes.insert(nd(l)); }

static void do_enc(size_t adlen, size_t mlen) {
  Bytes ad = pre(P.ad, adlen), m = pre(P.m, mlen), kst = keystream(mlen), c;
  for (size_t i = 0; i < mlen; i++) c.push_back(xorb(m[i], kst[i]));
  Bytes S = SP.mac_state(P.n, ad, c); S = cutY(S, CUT); Bytes tag = SP.mac_finish(P.k, S); Bytes wantc = c; wantc.insert(wantc.end(), tag.begin(), tag.end());
  setPublic(wantc);
  State s = fresh(); Call cl = place(s, "enc", "", 0, P.k, P.n, ad, m, mlen + 16);
  Ctx x = mkctx("enc", adlen, mlen); x.sym = {{"k", P.k}, {"n", P.n}, {"ad", ad}, {"m", m}};
  auto fin = call(std::move(s), cl);
  for (auto &f : fin) {
    endPath(f, x); if (W.inconclusive) return; if (f.aborted || f.cut) continue;
    if (want("out")) {
      Lit rz = inv(veq(f.ret, Val(f.ret.w, 0))); if (decide(f.pc, rz) != 1) report("out", "return value", "encryption returns a nonzero value", x, f.pc, rz);
      checkBytes("out", "ciphertext length", f.mem.bytes("outlen"), valToBytes(Val(64, mlen + 16)), f, x);
      checkBytes("out", "ciphertext", f.mem.bytes("out"), wantc, f, x);
    }
  }
  drain(x); if (!reports.empty()) stopNow = true;
  if (fin.size()) vac_ok++;
  sample("enc adlen=" + std::to_string(adlen) + " mlen=" + std::to_string(mlen) + " paths=" + std::to_string(fin.size()));
}
static std::unordered_set<u32> nodesOf(const Bytes &b) { std::unordered_set<u32> r; for (auto &x : b) for (Lit l : x) if (!isConst(l)) r.insert(nd(l)); return r; }
static Lit eqBytes(const Bytes &a, const Bytes &b) { Lit r = T1; for (size_t i = 0; i < a.size(); i++) for (int j = 0; j < 8; j++) r = G.And(r, inv(G.Xor(a[i][j], b[i][j]))); return r; }
static Bytes guided(const std::string &nm, const Bytes &base) {
  Bytes r;
  Sig d[128]; for (auto &x : d) x = {0, 0};
  for (int j = 32; j < 128; j++) { u64 bit = 1ull << (j & 63); auto set = [&](int k) { (j < 64 ? d[k].a : d[k].b) |= bit; };
    if (j < 64) set(prng() % 128); else if (j < 96) { int by = prng() % 16, v = 1 + prng() % 255; for (int q = 0; q < 8; q++) if (v >> q & 1) set(by * 8 + q); } else for (int k = 0; k < 128; k++) if (prng() & 1) set(k); }
  for (int i = 0; i < 16; i++) { Byte b; for (int j = 0; j < 8; j++) { Sig s = G.lsig(base[i][j]); s.a ^= d[i * 8 + j].a; s.b ^= d[i * 8 + j].b; b[j] = G.var(nm + "." + std::to_string(i) + "." + std::to_string(j), s); } r.push_back(b); }
  return r;
}
// mode 0: free tag; mode 1: tag equal to the specified one
static void do_dec(size_t adlen, size_t clen, int mode) {
  size_t ml = clen - 16;
  Bytes ad = pre(P.ad, adlen), c = pre(P.c, ml), kst = keystream(ml), m;
  for (size_t i = 0; i < ml; i++) m.push_back(xorb(c[i], kst[i]));
  Bytes S = SP.mac_state(P.n, ad, c); S = cutY(S, CUT); Bytes ts = SP.mac_finish(P.k, S);
  Bytes y(S.begin(), S.begin() + 16);
  Bytes T = mode ? ts : guided("T", ts);
  Lit A = eqBytes(T, ts), A2 = UNINIT; std::unordered_set<u32> cut = nodesOf(ts);
  if (STP && !mode) { Bytes u = SP.pvp_image(T, y), u2 = SP.pvp_image(ts, y); A2 = eqBytes(u, u2); for (u32 q : nodesOf(u)) cut.insert(q); for (u32 q : nodesOf(u2)) cut.insert(q); }
  W.hintCut = cut; W.publicNodes.clear();
  State s = fresh(); Bytes in = c; in.insert(in.end(), T.begin(), T.end());
  Bytes outInit = mkvars("mout", ml);
  Call cl = place(s, "dec", "", 0, P.k, P.n, ad, in, ml, &outInit);
  Ctx x = mkctx(mode ? "dec_valid" : "dec", adlen, clen); x.sym = {{"k", P.k}, {"n", P.n}, {"ad", ad}, {"c", c}}; if (!mode) x.delta = {{"tdelta", {T, ts}}};
  auto fin = call(std::move(s), cl);
  bool sawAcc = false, sawRej = false;
  for (auto &f : fin) {
    endPath(f, x); if (W.inconclusive) return; if (f.aborted || f.cut) continue;
    Lit R = veq(f.ret, Val(f.ret.w, 0)); // accepted
    if (R != F0) sawAcc = true; if (R != T1) sawRej = true;
    auto pcR = f.pc; pcR.push_back(R); auto pcN = f.pc; pcN.push_back(inv(R));
    if (want("accept")) {
      if (mode) { if (decide(f.pc, inv(R)) != 1) report("accept", "valid tag rejected", "decryption rejects the authentic ciphertext", x, f.pc, inv(R)); }
      else {
        int r = 2; if (A2 != UNINIT) r = decide(pcR, inv(A2), &cut); if (r != 1) r = decide(pcR, inv(A), &cut);
        if (r != 1) report("accept", "forged tag accepted", "decryption accepts a tag different from the specified one", x, pcR, r == 0 ? inv(A) : F0);
        if (!STP) { int q = decide(pcN, A, &cut); if (q != 1) report("accept", "valid tag rejected", "decryption rejects the authentic ciphertext", x, pcN, q == 0 ? A : F0); }
      }
    }
    if (R != F0 && want("plain")) {
      State t = f; t.pc = pcR; bool eq = checkBytes("plain", "plaintext length", f.mem.bytes("outlen"), valToBytes(Val(64, ml)), t, x);
      if (ml) eq &= checkBytes("plain", "plaintext", f.mem.bytes("out"), m, t, x); (void)eq;
    }
    if (R != T1 && want("release") && ml) {
      Bytes o = f.mem.bytes("out");
      for (size_t i = 0; i < ml; i++) for (int j = 0; j < 8; j++) {
        Lit l = o[i][j]; obl.total++;
        if (isConst(l) || l == outInit[i][j]) { obl.structural++; continue; }
        if (!G.support_any({l}, W.isSecret, nullptr)) { obl.structural++; continue; }
        obl.total--;
        if (decide(pcN, G.Xor(l, outInit[i][j]), &cut) == 1) continue;
        if (decide(pcN, l, &cut) == 1 || decide(pcN, inv(l), &cut) == 1) continue;
        report("release", "plaintext buffer on rejection", "byte " + std::to_string(i) + " of the plaintext buffer depends on the key although the ciphertext was rejected", x, pcN, G.Xor(l, outInit[i][j])); i = ml; break;
      }
    }
  }
  if (!mode && (!sawAcc || !sawRej) && !W.inconclusive && fin.size() && want("accept")) { /* a constant verdict is refuted above or below */ if (!sawAcc) report("accept", "valid tag rejected", "no accepting path", x, {}, A); if (!sawRej) report("accept", "forged tag accepted", "no rejecting path", x, {}, inv(A)); }
  drain(x, A, &cut, A2); if (!reports.empty()) stopNow = true; if (fin.size()) vac_ok++;
  sample(std::string(mode ? "dec(valid)" : "dec") + " adlen=" + std::to_string(adlen) + " clen=" + std::to_string(clen) + " paths=" + std::to_string(fin.size()));
}
static void do_short(size_t adlen, size_t clen) {
  G.subst.clear(); State s = fresh(); Bytes ad = pre(P.ad, adlen), c = pre(P.c, clen); Bytes guard = mkvars("mout", 64);
  Call cl = place(s, "dec", "", 0, P.k, P.n, ad, c, 64, &guard); // 64 bytes the call must leave alone
  Ctx x = mkctx("dec_short", adlen, clen); x.sym = {{"k", P.k}, {"n", P.n}, {"ad", ad}, {"c", c}};
  u64 save = W.maxsteps; W.maxsteps = 3000000;
  auto fin = call(std::move(s), cl); W.maxsteps = save;
  for (auto &f : fin) {
    if (W.inconclusive) break;
    endPath(f, x); if (f.aborted || f.cut) { report("short", "does not terminate", "decryption of a short ciphertext does not return: " + f.why, x, f.pc, F0); continue; }
    Lit R = veq(f.ret, Val(f.ret.w, 0)); if (decide(f.pc, R) != 1) report("short", "accepted", "decryption accepts a ciphertext shorter than a tag", x, f.pc, F0);
    Bytes o = f.mem.bytes("out"); for (int i = 0; i < 64; i++) for (int j = 0; j < 8; j++) { obl.total++; if (o[i][j] == guard[i][j]) obl.structural++; else { obl.failed++; report("short", "plaintext buffer written", "decryption of a short ciphertext writes to the plaintext buffer", x, f.pc, F0); i = 64; break; } }
  }
  if (!reports.empty()) { W.inconclusive = false; }
  drain(x); if (!reports.empty()) { stopNow = true; W.inconclusive = false; } if (fin.size()) vac_ok++;
  sample("dec(short) adlen=" + std::to_string(adlen) + " clen=" + std::to_string(clen));
}
static void do_hash(size_t len) {
  G.subst.clear(); Bytes in = pre(P.m, len); Bytes h = HashSpec::hash(in); W.publicNodes.clear();
  State s = fresh(); Call cl = place(s, "hash", "", 0, {}, {}, {}, in, 32); Ctx x = mkctx("hash", 0, len); x.sym = {{"m", in}};
  auto fin = call(std::move(s), cl);
  for (auto &f : fin) { endPath(f, x); if (W.inconclusive) return; if (f.aborted || f.cut) continue;
    if (want("out")) { Lit rz = inv(veq(f.ret, Val(f.ret.w, 0))); if (decide(f.pc, rz) != 1) report("out", "return value", "hashing returns a nonzero value", x, f.pc, rz); checkBytes("out", "digest", f.mem.bytes("out"), h, f, x); } }
  drain(x); if (!reports.empty()) stopNow = true; if (fin.size()) vac_ok++;
  sample("hash len=" + std::to_string(len) + " paths=" + std::to_string(fin.size()));
}
static void do_round(size_t adlen, size_t mlen) {
  Bytes ad = pre(P.ad, adlen), m = pre(P.m, mlen), kst = keystream(mlen), c; for (size_t i = 0; i < mlen; i++) c.push_back(xorb(m[i], kst[i]));
  Bytes S = SP.mac_state(P.n, ad, c); cutY(S, CUT); W.publicNodes.clear();
  State s = fresh(); Call cl = place(s, "enc", "", 0, P.k, P.n, ad, m, mlen + 16);
  Ctx x = mkctx("round", adlen, mlen); x.sym = {{"k", P.k}, {"n", P.n}, {"ad", ad}, {"m", m}};
  auto fin = call(std::move(s), cl);
  for (auto &f : fin) {
    endPath(f, x); if (W.inconclusive) return; if (f.aborted || f.cut) continue;
    if (decide(f.pc, inv(veq(f.ret, Val(f.ret.w, 0)))) != 1) { report("round", "encryption", "encryption returns nonzero", x, f.pc, F0); continue; }
    Bytes cc = f.mem.bytes("out"); bool un = false; for (auto &b : cc) if (b[0] == UNINIT) un = true;
    if (un) { report("round", "ciphertext", "ciphertext byte never written", x, f.pc, F0); continue; }
    State t = f; t.done = false; Call d = place(t, "dec", "2", 1, P.k, P.n, ad, cc, mlen);
    Bytes ol = f.mem.bytes("outlen"); Val clv = bytesToVal(ol); u64 cl2; bool u; if (!E->resolve(t, clv, cl2, u)) return; if (!u || cl2 != mlen + 16) { report("round", "ciphertext length", "ciphertext length is not message length plus 16", x, f.pc, F0); continue; }
    auto fin2 = call(std::move(t), d);
    for (auto &g : fin2) {
      endPath(g, x); if (W.inconclusive) return; if (g.aborted || g.cut) continue;
      Lit bad = inv(veq(g.ret, Val(g.ret.w, 0))); if (decide(g.pc, bad) != 1) { report("round", "decryption rejects", "decryption rejects the output of encryption", x, g.pc, F0); continue; }
      checkBytes("round", "message length", g.mem.bytes("outlen2"), valToBytes(Val(64, mlen)), g, x);
      if (mlen) checkBytes("round", "message", g.mem.bytes("out2"), m, g, x);
    }
  }
  drain(x); if (!reports.empty()) stopNow = true; if (fin.size()) vac_ok++;
  sample("round adlen=" + std::to_string(adlen) + " mlen=" + std::to_string(mlen));
}
// ---- two calls in sequence / preemption. First call described by "kind:adlen:len:share", second by "kind:adlen:len"
struct CallSpec { std::string kind; size_t adlen, len; std::string share; };
struct Expect { Call cl; Bytes out; Lit A = T1, A2 = UNINIT; Bytes ts, T; bool dec = false, hash = false; size_t ml = 0; Bytes outInit; std::vector<std::pair<std::string, Bytes>> sym; std::vector<std::pair<std::string, std::pair<Bytes, Bytes>>> delta; };
struct SpecMode { bool old; SpecMode() : old(G.specmode) { G.specmode = true; } ~SpecMode() { G.specmode = old; } };
static Expect prep(State &s, const CallSpec &q, const Inputs &I, const std::string &sfx, int slot, bool needSpec) {
  SpecMode sm; G.spec_lo = G.fan.size(); struct Rng { u32 lo; int slot; ~Rng() { W.specRange[slot] = {lo, (u32)G.fan.size()}; } } rg{(u32)G.fan.size(), slot};
  Expect e; Bytes ad = pre(I.ad, q.adlen);
  if (q.kind == "hash") { Bytes in = pre(I.m, q.len); if (needSpec) e.out = HashSpec::hash(in); e.hash = true; e.cl = place(s, "hash", sfx, slot, {}, {}, {}, in, 32); e.sym = {{"m" + sfx, in}}; return e; }
  Spec::KS k2 = SP.ks_start(I.k, I.n); SP.ks_extend(k2, q.len); Bytes kst = pre(k2.out, q.len);
  Bytes in = pre(q.kind == "enc" ? I.m : I.c, q.len), o; for (size_t i = 0; i < q.len; i++) o.push_back(xorb(in[i], kst[i]));
  const Bytes &ct = q.kind == "enc" ? o : in; Bytes S = SP.mac_state(I.n, ad, ct); Bytes ts = SP.mac_finish(I.k, S);
  e.sym = {{"k" + sfx, I.k}, {"n" + sfx, I.n}, {"ad" + sfx, ad}, {(q.kind == "enc" ? "m" : "c") + sfx, in}};
  if (q.kind == "enc") { e.out = o; e.out.insert(e.out.end(), ts.begin(), ts.end()); e.cl = place(s, "enc", sfx, slot, I.k, I.n, ad, in, q.len + 16); return e; }
  if (q.kind != "decv") for (u32 z : nodesOf(ts)) W.hintCut.insert(z);
  e.dec = true; e.ml = q.len; e.ts = ts; bool valid = q.kind == "decv"; e.T = valid ? ts : guided("T" + sfx, ts); e.A = eqBytes(e.T, ts); e.out = o; if (STP && !valid) { Bytes y(S.begin(), S.begin() + 16), u = SP.pvp_image(e.T, y), u2 = SP.pvp_image(ts, y); e.A2 = eqBytes(u, u2); for (u32 z : nodesOf(u)) W.hintCut.insert(z); for (u32 z : nodesOf(u2)) W.hintCut.insert(z); } Bytes full = in; full.insert(full.end(), e.T.begin(), e.T.end());
  e.outInit = mkvars("mout" + sfx, q.len); e.cl = place(s, "dec", sfx, slot, I.k, I.n, ad, full, q.len, &e.outInit); if (!valid) e.delta = {{"tdelta" + sfx, {e.T, ts}}};
  return e;
}
static void verify(State &f, Expect &e, const CallSpec &q, const Ctx &x, const std::string &kind, const std::string &sfx) {
  auto it = f.rets.find(e.cl.tag); if (it == f.rets.end()) { report(kind, "no return", "call did not return", x, f.pc, F0); return; }
  Val rv = it->second; Lit R = veq(rv, Val(rv.w, 0));
  if (!e.dec) {
    if (decide(f.pc, inv(R)) != 1) { report(kind, "return value", "nonzero return value", x, f.pc, F0); return; }
    if (!e.hash) checkBytes(kind, "output length", f.mem.bytes("outlen" + sfx), valToBytes(Val(64, q.len + 16)), f, x);
    checkBytes(kind, "output", f.mem.bytes("out" + sfx), e.out, f, x); return;
  }
  std::unordered_set<u32> &cut = W.hintCut; auto pcR = f.pc; pcR.push_back(R); auto pcN = f.pc; pcN.push_back(inv(R));
  if (q.kind == "decv") { if (decide(f.pc, inv(R)) != 1) report(kind, "valid tag rejected", "authentic ciphertext rejected", x, f.pc, F0); }
  else if (STP && e.A2 != UNINIT) { int r = decide(pcR, inv(e.A2), &cut); if (r != 1) r = decide(pcR, inv(e.A), &cut); if (r != 1) report(kind, "forged tag accepted", "forged tag accepted", x, pcR, r == 0 ? inv(e.A) : F0); }
  else if (!STP) { int r = decide(pcR, inv(e.A), &cut); if (r != 1) report(kind, "forged tag accepted", "forged tag accepted", x, pcR, r == 0 ? inv(e.A) : F0); r = decide(pcN, e.A, &cut); if (r != 1) report(kind, "valid tag rejected", "authentic ciphertext rejected", x, pcN, r == 0 ? e.A : F0); }
  if (R != F0 && q.len) { State t = f; t.pc = pcR; checkBytes(kind, "plaintext", f.mem.bytes("out" + sfx), e.out, t, x); }
}
static Inputs shareInputs(const std::string &sh) { Inputs I = P2; for (char ch : sh) { if (ch == 'k') I.k = P.k; if (ch == 'n') I.n = P.n; if (ch == 'a') I.ad = P.ad; if (ch == 'm') { I.m = P.m; I.c = P.c; } } return I; }
static std::string writableStatics() { State s = fresh(); std::string r; for (auto &o : s.mem.o) if ((o.cls == C_GLOBAL || o.cls == C_TLS) && o.size) r += (r.empty() ? "" : ", ") + o.name; return r; }
static void do_seq(const CallSpec &a, const CallSpec &b, bool lazy) {
  std::set<std::string> gw; gw.swap(W.gwrites); struct Back { std::set<std::string> &g; ~Back() { W.gwrites.insert(g.begin(), g.end()); } } back{gw};
  G.subst.clear(); W.publicNodes.clear(); State s = fresh(); Inputs I1 = shareInputs(a.share); 
  bool samep = a.share.find('p') != std::string::npos; struct Slot { ~Slot() { ADDRSLOT = -1; } } slotGuard; if (samep) ADDRSLOT = 1;
  State other = samep ? fresh() : State(); Expect e1 = prep(s, a, I1, "1", 1, true); Expect e2 = prep(samep ? other : s, b, P, "", 0, true);
  Ctx x; x.what = "seq"; x.fixed = {{"op", "seq"}, {"op1", a.kind}, {"adlen1", std::to_string(a.adlen)}, {"len1", std::to_string(a.len)}, {"op2", b.kind}, {"adlen", std::to_string(b.adlen)}, {"len", std::to_string(b.len)}};
  if (samep) x.fixed.push_back({"samep", "1"});
  x.sym = e1.sym; x.sym.insert(x.sym.end(), e2.sym.begin(), e2.sym.end()); x.delta = e1.delta; x.delta.insert(x.delta.end(), e2.delta.begin(), e2.delta.end());
  auto fin = call(std::move(s), e1.cl);
  if (lazy && W.gwrites.empty() && !W.inconclusive) { pathsEnded += fin.size(); vac_ok++; sample("seq " + a.kind + ": the first call writes no static data on any path, nothing outlives it"); return; }
  for (auto &f : fin) {
    endPath(f, x); if (W.inconclusive) return; if (f.aborted || f.cut) continue;
    State t = f; t.done = false;
    if (samep) { // the caller reuses its buffers: same addresses, contents of the second call
      for (size_t i = t.mem.o.size(); i-- > 0;) for (auto &nm : {"k1", "npub1", "ad1", "c1", "m1", "in1", "out1", "outlen1"}) if (t.mem.o[i].name == nm) { t.mem.o.erase(t.mem.o.begin() + i); break; }
      t.mem.last = 0; for (auto &o : other.mem.o) for (auto &nm : {"k", "npub", "ad", "c", "m", "in", "out", "outlen"}) if (o.name == nm && (o.cls == C_INPUT || o.cls == C_OUTPUT)) { t.mem.add(o); break; }
    }
    auto fin2 = call(std::move(t), e2.cl);
    for (auto &g : fin2) { endPath(g, x); if (W.inconclusive) return; if (g.aborted || g.cut) continue; verify(g, e2, b, x, "seq", ""); }
  }
  drain(x); if (!reports.empty()) stopNow = true; if (fin.size()) vac_ok++;
  sample("seq " + a.kind + "(" + std::to_string(a.adlen) + "," + std::to_string(a.len) + ",share=" + a.share + ") ; " + b.kind + "(" + std::to_string(b.adlen) + "," + std::to_string(b.len) + ")");
}
// preemption of call b by call a at a shared access chosen by (site, occurrence)
static void do_preempt(const CallSpec &a, const CallSpec &b, int maxpoints) {
  G.subst.clear(); W.publicNodes.clear();
  std::set<std::string> gw; gw.swap(W.gwrites); struct Back { std::set<std::string> &g; ~Back() { W.gwrites.insert(g.begin(), g.end()); } } back{gw};
  // count shared accesses along the first path
  int total = 0;
  { State s = fresh(); Expect e2 = prep(s, b, P, "", 0, false); W.onGlobalAccess = [&](State &) { total++; return false; }; call(std::move(s), e2.cl); W.onGlobalAccess = nullptr; }
  if (W.inconclusive) return;
  { State s = fresh(); Inputs I1 = shareInputs(a.share); Expect e1 = prep(s, a, I1, "1", 1, false); call(std::move(s), e1.cl); }
  if (W.inconclusive) return;
  if (W.gwrites.empty()) { vac_ok++; sample("preempt " + b.kind + " by " + a.kind + ": neither call writes static data on any path, they share no memory that changes"); return; }
  std::vector<int> pts; for (int i = 0; i < total; i++) pts.push_back(i);
  if ((int)pts.size() > maxpoints) { std::vector<int> q; for (int i = 0; i < maxpoints / 2; i++) q.push_back(i); for (int i = total - maxpoints / 2; i < total; i++) q.push_back(i); pts = q; }
  for (int p : pts) {
    State s = fresh(); Inputs I1 = shareInputs(a.share); Expect e1 = prep(s, a, I1, "1", 1, true); Expect e2 = prep(s, b, P, "", 0, true);
    Ctx x; x.what = "preempt"; x.fixed = {{"op", "preempt"}, {"point", std::to_string(p)}, {"op1", a.kind}, {"adlen1", std::to_string(a.adlen)}, {"len1", std::to_string(a.len)}, {"op2", b.kind}, {"adlen", std::to_string(b.adlen)}, {"len", std::to_string(b.len)}};
    x.sym = e1.sym; x.sym.insert(x.sym.end(), e2.sym.begin(), e2.sym.end()); x.delta = e1.delta; x.delta.insert(x.delta.end(), e2.delta.begin(), e2.delta.end());
    W.onGlobalAccess = [&](State &t) { if (t.preempted) return false; if (t.gaccess++ == p) { t.preempted = true; E->start(t, fname(e1.cl.kind), argv_(e1.cl), e1.cl.tag); return true; } return false; };
    auto fin = call(std::move(s), e2.cl); W.onGlobalAccess = nullptr;
    for (auto &g : fin) { endPath(g, x); if (W.inconclusive) return; if (g.aborted || g.cut || !g.preempted) continue; verify(g, e2, b, x, "preempt", ""); if (reports.empty()) verify(g, e1, a, x, "preempt", "1"); }
    if (fin.size()) vac_ok++;
    if (!reports.empty()) { stopNow = true; return; }
    sample("preempt " + b.kind + " at shared access " + std::to_string(p) + "/" + std::to_string(total) + " by " + a.kind);
  }
}
// ---- symbolic 64-bit lengths
static u64 symPathsUnique = 0; static std::set<std::string> sharedTasks;
static bool feasible0(State &f) { return veq(f.ret, Val(f.ret.w, 0)) != F0; } // accepting
static void do_symlen(const std::string &kind, const std::string &which, u64 fixedOther, int lo, int hi1, int lo2, int hi2, int cap) {
  // `which` in {in, ad}: that length is symbolic; contents are constants (they do not influence lengths)
  G.subst.clear(); W.symlen = true; W.publicNodes.clear(); struct NoSweep { bool o = G.sweep; NoSweep() { G.sweep = false; G.incremental = true; } ~NoSweep() { G.sweep = o; G.incremental = false; } } nosweep;
  u64 minl = kind == "dec" && which == "in" ? 16 : 0;
  std::vector<Lit> lb; { // sample lengths as simulation patterns: the ones in the domain first, then magnitudes around every power of two
    std::vector<u64> pat; for (int l = lo; l <= hi1; l++) pat.push_back(minl + l); for (int l = lo2; l <= hi2; l++) pat.push_back(l);
    for (int b = 63; b >= 0 && pat.size() < 128; b--) if ((1ull << b) > (u64)cap) pat.push_back((1ull << b) + prng() % 40); while (pat.size() < 128) pat.push_back(prng() >> (prng() % 40)); pat.resize(128);
    for (u32 i = 0; i < 64; i++) { Sig sg{0, 0}; for (int j = 0; j < 128; j++) if (pat[j] >> i & 1) (j < 64 ? sg.a : sg.b) |= 1ull << (j & 63); lb.push_back(G.var("len." + std::to_string(i), sg)); } }
  if (E->ptrw() == 32) for (u32 i = 30; i < 64; i++) lb[i] = F0;
  Val L; { auto t = lb; L = Val(std::move(t)); }
  { std::set<u32> ln; for (Lit l : lb) if (l > 1) ln.insert(nd(l)); W.isLen = [ln](u32 x) { return ln.count(x) > 0; }; }
  auto zeros = [](size_t n) { Bytes r; for (size_t i = 0; i < n; i++) r.push_back(cbyte((u8)(i * 37 + 11))); return r; };
  State s = fresh(); size_t capb = cap; bool isIn = which == "in";
  Bytes in = zeros(isIn ? capb : fixedOther), ad = zeros(isIn ? fixedOther : capb); size_t outsz = kind == "hash" ? 32 : isIn ? capb + 16 : kind == "enc" ? fixedOther + 16 : fixedOther;
  Call cl = place(s, kind, "", 0, zeros(16), zeros(16), ad, in, outsz + 64);
  u64 minlen = kind == "dec" && isIn ? 16 : 0;
  // domain: [minlen+lo, minlen+hi1] or [lo2, hi2] or anything above the buffer size (those paths are cut where they leave the buffers)
  auto le = [&](u64 a) { return inv(vult(L, Val(64, a))); }; auto ge = [&](u64 a) { return inv(vult(Val(64, a), L)); };
  Lit dom = G.And(le(minlen + lo), ge(minlen + hi1)); dom = G.Or(dom, G.And(le(std::max((u64)lo2, minlen)), ge(hi2))); Lit wild = le(cap + 128); dom = G.Or(dom, wild);
  s.pc.push_back(dom);
  Ctx x; x.what = "symlen"; x.fixed = {{"op", "symlen"}, {"kind", kind}, {"which", which}, {"other", std::to_string(fixedOther)}};
  Val fo(64, fixedOther); auto fin = kind == "hash" ? call(std::move(s), cl, &L) : isIn ? call(std::move(s), cl, &L, &fo) : call(std::move(s), cl, &fo, &L);
  int cutp = 0, okp = 0;
  auto lenOf = [&](const SolveResult &r) { u64 v = 0; for (u32 i = 0; i < 64; i++) { if (lb[i] < 2) continue; auto q = r.model.find(nd(lb[i])); if (q != r.model.end() && q->second) v |= 1ull << i; } return v; };
  auto rep = [&](const std::string &where, const std::string &text, u64 l1, u64 l2) { obl.failed++; if (reports.size() > 8) return; Ctx y = x; y.fixed.push_back({"len1", std::to_string(l1)}); y.fixed.push_back({"len2", std::to_string(l2)}); reports.push_back({"length", where, text, "symlen", {mkcand(y, [](Lit l) { return (int)(l & 1); })}}); };
  auto cls = [&](State &f) { return f.aborted || f.cut ? 0 : feasible0(f) ? 1 : 2; };
  // lengths above the bound: every call that takes the length has to run beyond the buffers
  std::map<int, int> maxover; std::vector<int> wildOnly(fin.size(), 0);
  for (size_t i = 0; i < fin.size(); i++) { if (W.inconclusive) return; auto as = fin[i].pc; as.push_back(inv(wild)); SolveResult r = G.solve(as, nullptr, 600, 20000); obl.total++; if (r.status == 2) { W.fail("length query unknown"); return; } wildOnly[i] = r.status == 0; if (r.status == 0) { int &m = maxover[cls(fin[i])]; m = std::max(m, fin[i].over); } else obl.solver++; }
  for (size_t fi = 0; fi < fin.size(); fi++) {
    State &f = fin[fi];
    if (wildOnly[fi]) {
      if (f.over && f.over >= maxover[cls(f)]) { cutp++; obl.structural++; continue; }
      SolveResult m; for (int k : {13, 17, 24, 33, 40, 64}) { auto as = f.pc; if (k < 64) as.push_back(vult(L, Val(64, 1ull << k))); m = G.solve(as, nullptr, 600, 20000); if (m.status == 1) break; }
      if (m.status == 0) { cutp++; continue; } if (m.status == 2) { W.fail("length query unknown"); return; }
      u64 v = lenOf(m); rep("path", "a length of " + std::to_string(v) + " bytes is processed in fewer steps than it has blocks", v, 0); continue;
    }
    if (f.over) { W.fail("lengths within and beyond the bound share a path that leaves the buffers"); return; }
    // lengths on this path
    std::vector<u64> ls; auto as = f.pc; as.push_back(inv(wild));
    while (ls.size() <= 64) { SolveResult r = G.solve(as, nullptr, 600, 20000); obl.total++; if (r.status == 2) { W.fail("length query unknown"); return; } obl.solver++; if (r.status == 0) break; u64 v = lenOf(r); ls.push_back(v); as.push_back(inv(veq(L, Val(64, v)))); }
    if (ls.empty()) continue;
    if (ls.size() > 64) { W.fail("a path admits more than 64 lengths, one is " + std::to_string(ls[0])); return; }
    bool mixed = false;
    { auto aw = f.pc; aw.push_back(wild); SolveResult r = G.solve(aw, nullptr, 600, 20000); obl.total++; if (r.status == 2) { W.fail("length query unknown"); return; } if (r.status == 0) obl.solver++; else mixed = true; }
    if (mixed) for (int k : {13, 17, 24, 33, 40, 64}) { auto aw = f.pc; aw.push_back(wild); if (k < 64) aw.push_back(vult(L, Val(64, 1ull << k))); SolveResult r = G.solve(aw, nullptr, 600, 20000); obl.total++; if (r.status == 2) { W.fail("length query unknown"); return; } if (r.status == 0) { obl.solver++; continue; } u64 v2 = lenOf(r); rep("path " + std::to_string(ls[0]), "lengths " + std::to_string(ls[0]) + " and " + std::to_string(v2) + " are processed alike", ls[0], v2); break; }
    if (mixed) continue;
    okp++; symPathsUnique++; u64 v1 = ls[0];
    if (f.aborted || f.cut) { if (!W.inconclusive) { Ctx y = x; y.fixed.push_back({"len1", std::to_string(v1)}); y.fixed.push_back({"len2", std::to_string(v1)}); report("abort", f.why, "call does not return normally at length " + std::to_string(v1) + ": " + f.why, y, f.pc, F0); } continue; }
    if (kind == "enc") { Bytes ob = f.mem.bytes("outlen"); bool un = ob[0][0] == UNINIT; Lit bad = un ? T1 : inv(veq(bytesToVal(ob), isIn ? vadd(L, Val(64, 16)) : Val(64, fixedOther + 16))); auto ab = f.pc; ab.push_back(inv(wild)); if (decide(ab, bad) != 1) rep("outlen", "output length wrong for length " + std::to_string(v1), v1, v1); }
    if (ls.size() > 1) { for (u64 v : ls) sharedTasks.insert(kind == "hash" ? "hash," + std::to_string(v) : (kind == "dec" ? std::string("decv,") : std::string("enc,")) + (isIn ? std::to_string(fixedOther) + "," + std::to_string(v - minl) : std::to_string(v) + "," + std::to_string(fixedOther))); continue; }
    if (kind == "enc") { // extent of the writes
      size_t ext = (isIn ? v1 : fixedOther) + 16; Bytes o = f.mem.bytes("out"); obl.total++; bool bad = false; for (size_t i = 0; i < o.size(); i++) if ((o[i][0] != UNINIT) != (i < ext)) { bad = true; break; }
      if (bad) rep("extent", "bytes written do not match length " + std::to_string(v1), v1, v1); else obl.structural++;
    }
  }
  pathsEnded += fin.size(); if (okp) vac_ok++; W.symlen = false;
  // out-of-bounds accesses and failures beyond the cap are the cut itself
  fseen = W.findings.size();
  if (!reports.empty()) { stopNow = true; }
  sample("symlen " + kind + "/" + which + " unique=" + std::to_string(okp) + " cut=" + std::to_string(cutp));
}
#include "lib.inc"
static std::vector<std::string> split(const std::string &s, char d) { std::vector<std::string> r; std::string t; std::stringstream ss(s); while (std::getline(ss, t, d)) if (!t.empty()) r.push_back(t); return r; }
static CallSpec parseCS(const std::string &s) { auto v = split(s, ':'); CallSpec c; c.kind = v[0]; c.adlen = atoi(v[1].c_str()); c.len = atoi(v[2].c_str()); c.share = v.size() > 3 ? v[3] : ""; return c; }
size_t load_lemmas(const std::string &); void save_lemmas(const std::string &);
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; size_t p = a.find('='); if (p == std::string::npos) { fprintf(stderr, "bad arg %s\n", argv[i]); return 3; } opt[a.substr(0, p)] = a.substr(p + 1); }
  double t0 = now();
  const char *sd = getenv("VERIF_SEED"); prng.seed(777 + (sd ? atoi(sd) : 1));
  FILTER = "," + O("want", "all") + ",";
  if (O("inst").size()) SP.I = instance(O("inst")); else SP.I = instance("a128a");
  STP = OI("stp", 0); MIS = OI("mis", 0); CUT = OI("cut", 1); G.sweep = OI("sweep", 1);
  if (OI("budget", 0)) W.deadline = now() + OI("budget", 0);
  E = O("fe") == "arm" ? makeArm(O("bin"), O("dis")) : makeIR(O("bin"));
  W.ct = OI("ct", 0); if (O("lemmas").size()) load_lemmas(O("lemmas"));
  int maxad = 0, maxm = 0;
  std::vector<std::string> tasks = split(O("tasks"), ';');
  for (auto &t : tasks) if (t[0] != 'f') for (auto &w : split(t, ',')) for (auto &q : split(w, ':')) { int v = atoi(q.c_str()); if (v < 100000) { maxad = std::max(maxad, v); maxm = std::max(maxm, v); } }
  P.k = mkvars("k", 16); P.n = mkvars("n", 16); P.ad = mkvars("ad", maxad + 32); P.m = mkvars("m", maxm + 32); P.c = mkvars("c", maxm + 32);
  P2.k = mkvars("k1", 16); P2.n = mkvars("n1", 16); P2.ad = mkvars("ad1", maxad + 32); P2.m = mkvars("m1", maxm + 32); P2.c = mkvars("c1", maxm + 32);
  mark_secret(P.k); mark_secret(P.m); mark_secret(P2.k); mark_secret(P2.m);
  W.isSecret = [](u32 x) { return secretVars.count(x) > 0; };
  u64 done = 0; std::string timing;
  for (auto &t : tasks) {
    if (stopNow || W.inconclusive) break;
    if (W.deadline > 0 && now() > W.deadline) { W.fail("time limit"); break; }
    auto v = split(t, ','); double tt = now(); auto N = [&](int i) { return (size_t)atoll(v[i].c_str()); };
    W.paths = 0; W.dedupe.clear(); W.specRange.clear(); W.hintCut.clear(); G.pref_on = false;
    // f-tasks: long inputs of which only the last 24 bytes are free (key, nonce and the rest are constants)
    bool fx = v[0][0] == 'f'; Inputs keep; u64 steps0 = W.maxsteps; if (fx) for (size_t i = 1; i < v.size(); i++) W.maxsteps += 40000 * (u64)N(i); Spec::KS kks; bool kki = ksInit; int tailn = 24; if (fx) { v[0] = v[0].substr(1); keep = P; kks = ks; ksInit = false; size_t la = v.size() > 2 ? N(1) : 0, lm = v.size() > 2 ? N(2) : N(1), lc = lm >= 16 ? lm - 16 : 0;
      auto cst = [&](size_t n, u64 f) { Bytes r; for (size_t i = 0; i < n; i++) r.push_back(cbyte((u8)((i * f + (i >> 8) * 29 + 7) ^ (i >> 3)))); return r; }; auto mix = [&](size_t n, u64 f, const char *nm) { Bytes r = cst(n, f); size_t k = std::min<size_t>(n, tailn); Bytes t = mkvars(nm, k); for (size_t i = 0; i < k; i++) r[n - k + i] = t[i]; return r; };
      P.k = cst(16, 3); P.n = cst(16, 5); P.ad = la >= lm ? mix(la, 11, "fad") : cst(la, 11); P.m = mix(lm, 13, "fm"); P.c = mix(lc, 17, "fc"); }
    if (v[0] == "enc") do_enc(N(1), N(2));
    else if (v[0] == "dec") do_dec(N(1), N(2), 0);
    else if (v[0] == "decv") do_dec(N(1), N(2), 1);
    else if (v[0] == "short") do_short(N(1), N(2));
    else if (v[0] == "hash") do_hash(N(1));
    else if (v[0] == "round") do_round(N(1), N(2));
    else if ((v[0] == "seqs" || v[0] == "preempt") && writableStatics().empty()) { sample(v[0] + " " + v[1] + " " + v[2] + ": no writable static data, no state outlives or is shared between calls"); vac_ok++; }
    else if (v[0] == "seq" || v[0] == "seqs") do_seq(parseCS(v[1]), parseCS(v[2]), v[0] == "seqs");
    else if (v[0] == "preempt") do_preempt(parseCS(v[1]), parseCS(v[2]), N(3));
    else if (v[0] == "symlen") do_symlen(v[1], v[2], N(3), N(4), N(5), N(6), N(7), N(8));
    else if (v[0] == "lib") do_lib(v[1], v);
    else { fprintf(stderr, "unknown task %s\n", t.c_str()); return 3; }
    if (fx) { P = keep; ks = kks; ksInit = kki; W.maxsteps = steps0; }
    done++; if (OI("verbose", 0)) fprintf(stderr, "%s: %.2fs nodes=%zu lemmas=%lu/%lu merges=%lu failed=%lu giveup=%lu subst=%lu steps\n", t.c_str(), now() - tt, G.fan.size(), G.st.lemma_queries, G.st.lemma_hits, G.st.merges, G.st.failed, G.st.giveup, G.subst_hits);
  }
  std::ostringstream o; o << "{\n\"inconclusive\": " << (W.inconclusive && reports.empty() ? jesc(W.why) : "null") << ",\n\"tasks\": " << tasks.size() << ", \"tasks_done\": " << done << ", \"runs\": " << runs << ", \"paths\": " << pathsEnded << ", \"forks\": " << W.forks << ", \"accesses\": " << W.accesses
    << ",\n\"obligations\": " << obl.total << ", \"obl_structural\": " << obl.structural << ", \"obl_solver\": " << obl.solver << ", \"obl_failed\": " << obl.failed << ", \"obl_unknown\": " << obl.unknown
    << ",\n\"nodes\": " << G.fan.size() << ", \"merges\": " << G.st.merges << ", \"lemma_queries\": " << G.st.lemma_queries << ", \"lemma_hits\": " << G.st.lemma_hits << ", \"lemma_unsat\": " << G.st.lemma_unsat << ", \"big_queries\": " << G.st.big_queries << ", \"big_unsat\": " << G.st.big_unsat << ", \"big_sat\": " << G.st.big_sat << ", \"big_unknown\": " << G.st.big_unknown << ", \"solver_s\": " << G.st.solver_s
    << ",\n\"branch_queries\": " << W.branchq << ", \"addr_queries\": " << W.addrq << ", \"vacuity_ok\": " << vac_ok << ", \"unique_lengths\": " << symPathsUnique << ", \"subst_hits\": " << G.subst_hits << ", \"wall_s\": " << now() - t0;
  auto strset = [&](const std::set<std::string> &s) { std::string r = "["; for (auto &x : s) r += (r.size() > 1 ? ", " : "") + jesc(x); return r + "]"; };
  o << ",\n\"functions\": " << strset(W.funcs) << ",\n\"shared_tasks\": " << strset(sharedTasks) << ",\n\"global_writes\": " << strset(W.gwrites) << ",\n\"samples\": ["; for (size_t i = 0; i < samples.size(); i++) o << (i ? ", " : "") << jesc(samples[i]);
  o << "],\n\"reports\": [";
  for (size_t i = 0; i < reports.size(); i++) { auto &r = reports[i]; o << (i ? ",\n" : "\n") << "{\"kind\": " << jesc(r.kind) << ", \"where\": " << jesc(r.where) << ", \"detail\": " << jesc(r.detail) << ", \"ctx\": " << jesc(r.ctx) << ", \"cands\": ["; for (size_t j = 0; j < r.cands.size(); j++) { o << (j ? ",\n " : "\n ") << "{"; for (size_t q = 0; q < r.cands[j].f.size(); q++) o << (q ? ", " : "") << jesc(r.cands[j].f[q].first) << ": " << jesc(r.cands[j].f[q].second); o << "}"; } o << "]}"; }
  o << "]\n}\n";
  if (O("lemmas").size()) save_lemmas(O("lemmas"));
  if (O("out").size()) { std::ofstream f(O("out")); f << o.str(); } else std::cout << o.str();
  return 0;
}
