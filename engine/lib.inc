// State operations of the bundled permutation libraries. task: lib,PREFIX,BYTES,MAXROUNDS,what   what in {bytes, perm}
static std::vector<State> callFn(State s, const std::string &fn, const std::vector<Val> &args) { E->start(s, fn, args, 0); auto r = E->run(std::move(s)); runs++; return r; }
struct LibCase { std::string fn; int off, len, byte; bool hasIn, hasOut; };
static void lib_case(const std::string &pre_, int N, const LibCase &q) {
  static Bytes st, dt, ob; if (st.empty()) { st = mkvars("st", N); dt = mkvars("data", N); ob = mkvars("obuf", N); }
  std::string fn = pre_ + "_" + q.fn; u32 w = E->ptrw(); State s = fresh(); u64 a0 = E->inputBase(0), a1 = E->inputBase(1), a2 = E->inputBase(2);
  bool ro = q.fn.rfind("Extract", 0) == 0; s.mem.add(mkobj("state", a0, st, ro ? C_INPUT : C_OUTPUT));
  Bytes in(dt.begin(), dt.begin() + q.len), out(ob.begin(), ob.begin() + q.len); if (q.hasIn && q.len) s.mem.add(mkobj("data", a1, in, C_INPUT)); if (q.hasOut && q.len) s.mem.add(mkobj("output", a2, out, C_OUTPUT));
  auto p = [&](u64 a) { return Val(w, a); }; auto i = [&](u32 v) { return Val(32, v); };
  std::vector<Val> args; Bytes want_ = st, wout = out; Val bv;
  if (q.fn == "Initialize") { args = {p(a0)}; want_.assign(N, cbyte(0)); }
  else if (q.fn == "AddByte") { bv = bytesToVal({dt[0]}); args = {p(a0), w == 32 ? vzext(bv, 32) : bv, i(q.off)}; want_[q.off] = xorb(st[q.off], dt[0]); }
  else if (q.fn == "AddBytes") { args = {p(a0), p(a1), i(q.off), i(q.len)}; for (int j = 0; j < q.len; j++) want_[q.off + j] = xorb(st[q.off + j], dt[j]); }
  else if (q.fn == "OverwriteBytes") { args = {p(a0), p(a1), i(q.off), i(q.len)}; for (int j = 0; j < q.len; j++) want_[q.off + j] = dt[j]; }
  else if (q.fn == "OverwriteWithZeroes") { args = {p(a0), i(q.off)}; for (int j = 0; j < q.off; j++) want_[j] = cbyte(0); }
  else if (q.fn == "ExtractBytes") { args = {p(a0), p(a2), i(q.off), i(q.len)}; for (int j = 0; j < q.len; j++) wout[j] = st[q.off + j]; }
  else if (q.fn == "ExtractAndAddBytes") { args = {p(a0), p(a1), p(a2), i(q.off), i(q.len)}; for (int j = 0; j < q.len; j++) wout[j] = xorb(st[q.off + j], dt[j]); }
  else { args = {p(a0)}; if (q.fn == "Permute_Nrounds") args.push_back(i(q.off)); SpecMode sm; G.spec_lo = G.fan.size(); if (N == 50) keccakp400(want_, q.off); else ascon_p(want_, q.off); }
  Ctx x; x.what = "lib"; x.fixed = {{"op", "lib"}, {"fn", fn}, {"size", std::to_string(N)}, {"off", std::to_string(q.off)}, {"len", std::to_string(q.len)}}; x.sym = {{"st", st}, {"data", dt}};
  auto fin = callFn(std::move(s), fn, args); std::string at = fn + "(" + std::to_string(q.off) + "," + std::to_string(q.len) + ")";
  for (auto &f : fin) {
    endPath(f, x); if (W.inconclusive) return; if (f.aborted || f.cut) continue;
    checkBytes("lib", fn + " state", f.mem.bytes("state"), want_, f, x); if (q.hasOut && q.len) checkBytes("lib", fn + " output", f.mem.bytes("output"), wout, f, x);
  }
  drain(x); if (fin.size()) vac_ok++;
}
static void do_lib(const std::string &, const std::vector<std::string> &v) {
  std::string P_ = v[1]; int N = atoi(v[2].c_str()), R = atoi(v[3].c_str()); std::string what = v[4]; G.subst.clear(); W.publicNodes.clear();
  auto has = [&](const std::string &f) { bool h = E->hasFn(P_ + "_" + f); if (!h) notes.push_back("no function " + P_ + "_" + f); return h; };
  auto go = [&](const LibCase &q) { W.paths = 0; W.dedupe.clear(); lib_case(P_, N, q); return reports.empty() && !W.inconclusive; };
  if (what == "perm") {
    if (has("Permute_Nrounds")) for (int r = 1; r <= R; r++) if (!go({"Permute_Nrounds", r, 0, 0, false, false})) break;
    if (has("Permute_20rounds") && R == 20) go({"Permute_20rounds", 20, 0, 0, false, false});
    sample(P_ + "_Permute: rounds 1.." + std::to_string(R)); stopNow = !reports.empty(); return;
  }
  if (has("Initialize")) go({"Initialize", 0, 0, 0, false, false});
  if (has("AddByte")) for (int o = 0; o < N; o++) if (!go({"AddByte", o, 0, 0, false, false})) break;
  if (has("OverwriteWithZeroes")) for (int o = 0; o <= N; o++) if (!go({"OverwriteWithZeroes", o, 0, 0, false, false})) break;
  struct F { const char *n; bool in, out; } fs[] = {{"AddBytes", true, false}, {"OverwriteBytes", true, false}, {"ExtractBytes", false, true}, {"ExtractAndAddBytes", true, true}};
  for (auto &f : fs) if (has(f.n)) for (int o = 0; o < N; o++) for (int l = 0; o + l <= N; l++) if (!go({f.n, o, l, 0, f.in, f.out})) { o = N; break; }
  sample(P_ + ": every offset and length within " + std::to_string(N) + " bytes"); stopNow = !reports.empty();
}
