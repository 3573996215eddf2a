#include "value.h"
std::vector<Lit> vbits(const Val &v) { if (!v.k) return v.b; std::vector<Lit> r(v.w); for (u32 i = 0; i < v.w; i++) r[i] = (v.c >> i) & 1; return r; }
template <class Fk, class Fb> static Val bin(const Val &a, const Val &b, Fk fk, Fb fb) {
  if (a.k && b.k) return Val(a.w, fk(a.c, b.c));
  std::vector<Lit> r(a.w); for (u32 i = 0; i < a.w; i++) r[i] = fb(a.bit(i), b.bit(i)); return Val(std::move(r));
}
Val vand(const Val &a, const Val &b) { return bin(a, b, [](u64 x, u64 y) { return x & y; }, [](Lit x, Lit y) { return G.And(x, y); }); }
Val vor(const Val &a, const Val &b) { return bin(a, b, [](u64 x, u64 y) { return x | y; }, [](Lit x, Lit y) { return G.Or(x, y); }); }
Val vxor(const Val &a, const Val &b) { return bin(a, b, [](u64 x, u64 y) { return x ^ y; }, [](Lit x, Lit y) { return G.Xor(x, y); }); }
Val vnot(const Val &a) { if (a.k) return Val(a.w, ~a.c); std::vector<Lit> r(a.b); for (auto &l : r) l ^= 1; return Val(std::move(r)); }
std::vector<Lit> addc(const std::vector<Lit> &a, const std::vector<Lit> &b, Lit c, Lit *cout, Lit *ovf) {
  std::vector<Lit> r(a.size()); Lit prev = c;
  for (size_t i = 0; i < a.size(); i++) {
    Lit x = G.Xor(a[i], b[i]); r[i] = G.Xor(x, c); prev = c;
    if (a[i] == b[i]) c = a[i]; else if (x == F0) c = a[i]; else if (x == T1) { /* c stays */ } else c = G.Mux(x, c, a[i]);
  }
  if (cout) *cout = c; if (ovf) *ovf = G.Xor(c, prev);
  return r;
}
// affine dictionary: repeated additions of constants to one base stay shallow
struct Affine { int base; u64 off; };
static std::vector<std::vector<Lit>> bases; static std::map<std::vector<Lit>, Affine> affine;
static Val add_const(const Val &a, u64 c) {
  if (c == 0 || (a.w < 64 && (c & ((1ull << a.w) - 1)) == 0)) return a;
  auto it = affine.find(a.b); Affine f;
  if (it == affine.end()) { f = {(int)bases.size(), 0}; bases.push_back(a.b); affine[a.b] = f; } else f = it->second;
  f.off += c; if (a.w < 64) f.off &= (1ull << a.w) - 1;
  Val r(addc(bases[f.base], vbits(Val(a.w, f.off)), F0, nullptr));
  if (!r.k) affine.emplace(r.b, f);
  return r;
}
Val vadd(const Val &a, const Val &b) {
  if (a.k && b.k) return Val(a.w, a.c + b.c);
  if (a.w <= 64) { if (b.k) return add_const(a, b.c); if (a.k) return add_const(b, a.c); }
  return Val(addc(vbits(a), vbits(b), F0, nullptr));
}
Val vsub(const Val &a, const Val &b) {
  if (a.k && b.k) return Val(a.w, a.c - b.c);
  if (a.w <= 64 && b.k) return add_const(a, 0 - b.c);
  return Val(addc(vbits(a), vbits(vnot(b)), T1, nullptr));
}
Val vneg(const Val &a) { return vsub(Val(a.w, 0), a); }
Val vmul(const Val &a, const Val &b) {
  if (a.k && b.k) return Val(a.w, a.c * b.c);
  if (!a.k && b.k) return vmul(b, a);
  Val acc(a.w, 0);
  for (u32 i = 0; i < a.w; i++) { Lit x = a.bit(i); if (x == F0) continue; Val sh = vshl(b, Val(a.w, i)); std::vector<Lit> t = vbits(sh); if (x != T1) for (auto &l : t) l = G.And(l, x); acc = vadd(acc, Val(std::move(t))); }
  return acc;
}
static Val shiftc(const Val &a, u64 s, int kind) { // 0 shl 1 lshr 2 ashr 3 rotr
  u32 w = a.w; std::vector<Lit> r(w);
  Lit fill = kind == 2 ? a.bit(w - 1) : F0;
  if (kind == 3) { s %= w; for (u32 i = 0; i < w; i++) r[i] = a.bit((i + s) % w); return Val(std::move(r)); }
  for (u32 i = 0; i < w; i++) {
    if (kind == 0) r[i] = (i >= s) ? a.bit(i - s) : F0; else r[i] = (s < w && i + s < w) ? a.bit(i + s) : fill;
  }
  return Val(std::move(r));
}
static Val shift(const Val &a, const Val &s, int kind) {
  if (s.k) {
    if (a.k && kind < 2) return Val(a.w, s.c >= a.w ? 0 : kind == 0 ? a.c << s.c : a.c >> s.c);
    return shiftc(a, s.c, kind);
  }
  Val r = a; u32 nb = 0; while ((1u << nb) < a.w) nb++;
  for (u32 i = 0; i < nb && i < s.w; i++) r = vite(s.bit(i), shiftc(r, 1u << i, kind), r);
  if (kind != 3) { Lit big = F0; for (u32 i = nb; i < s.w; i++) big = G.Or(big, s.bit(i)); if (big != F0) r = vite(big, shiftc(a, a.w, kind), r); }
  return r;
}
Val vshl(const Val &a, const Val &s) { return shift(a, s, 0); }
Val vlshr(const Val &a, const Val &s) { return shift(a, s, 1); }
Val vashr(const Val &a, const Val &s) { return shift(a, s, 2); }
Val vrotr(const Val &a, const Val &s) { return shift(a, s, 3); }
Val vzext(const Val &a, u32 w) { if (w == a.w) return a; if (a.k && w <= 64) return Val(w, a.c); auto r = vbits(a); r.resize(w, F0); return Val(std::move(r)); }
Val vsext(const Val &a, u32 w) { if (w == a.w) return a; if (a.k && w <= 64) return Val(w, (u64)a.sval()); auto r = vbits(a); Lit s = r.back(); r.resize(w, s); return Val(std::move(r)); }
Val vtrunc(const Val &a, u32 w) {
  if (w == a.w) return a; if (a.k) return Val(w, a.c);
  std::vector<Lit> r(a.b.begin(), a.b.begin() + w); Val v(std::move(r));
  if (!v.k && a.w <= 64) { auto it = affine.find(a.b); if (it != affine.end() && !affine.count(v.b)) {
    std::vector<Lit> tb(bases[it->second.base].begin(), bases[it->second.base].begin() + w); Affine f;
    auto jt = affine.find(tb); if (jt == affine.end()) { f = {(int)bases.size(), 0}; bases.push_back(tb); affine[tb] = f; } else f = jt->second;
    f.off += it->second.off; if (w < 64) f.off &= (1ull << w) - 1; affine.emplace(v.b, f); } }
  return v;
}
Val vextract(const Val &a, u32 lo, u32 w) {
  if (lo == 0) return vtrunc(a, w);
  if (a.k) return Val(w, a.c >> lo); std::vector<Lit> r(a.b.begin() + lo, a.b.begin() + lo + w); return Val(std::move(r)); }
Val vconcat(const Val &lo, const Val &hi) { if (lo.k && hi.k && lo.w + hi.w <= 64) return Val(lo.w + hi.w, lo.c | (lo.w == 64 ? 0 : hi.c << lo.w)); auto r = vbits(lo), h = vbits(hi); r.insert(r.end(), h.begin(), h.end()); return Val(std::move(r)); }
static bool aff(const Val &v, Affine &f) { if (v.k || v.w > 64) return false; auto it = affine.find(v.b); if (it == affine.end()) return false; f = it->second; return true; }
static Lit ultc(const std::vector<Lit> &x, u64 c) { Lit r = F0; for (size_t i = 0; i < x.size(); i++) { Lit l = x[i]; r = (c >> i) & 1 ? G.Or(inv(l), r) : G.And(inv(l), r); } return r; } // x < c
static Lit inrange(const std::vector<Lit> &x, u64 lo, u64 hi) { Lit ge = inv(ultc(x, lo)), le; u64 m = x.size() >= 64 ? ~0ull : (1ull << x.size()) - 1; le = hi == m ? T1 : ultc(x, hi + 1); return lo <= hi ? G.And(ge, le) : G.Or(ge, le); }
static u64 wmask(u32 w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
// base + off < c as a statement about the base alone
static Lit afflt(const Affine &f, u32 w, u64 c) { if (!c) return F0; u64 m = wmask(w); return inrange(bases[f.base], (0 - f.off) & m, (c - 1 - f.off) & m); }
Lit veq(const Val &a, const Val &b) {
  if (a.k && b.k) return a.c == b.c;
  Affine fa, fb;
  if (b.k && aff(a, fa) && fa.off) { Val base; { auto t = bases[fa.base]; base = Val(std::move(t)); } return veq(base, Val(a.w, b.c - fa.off)); }
  if (a.k && aff(b, fb) && fb.off) return veq(b, a);
  if (!a.k && !b.k && aff(a, fa) && aff(b, fb) && fa.base == fb.base) return fa.off == fb.off ? T1 : F0;
  for (u32 i = 0; i < a.w; i++) if (a.bit(i) == (b.bit(i) ^ 1)) return F0;
  Lit r = T1; for (u32 i = 0; i < a.w && r != F0; i++) r = G.And(r, inv(G.Xor(a.bit(i), b.bit(i)))); return r;
}
Lit vult(const Val &a, const Val &b) {
  if (a.k && b.k) return a.c < b.c;
  { Affine fa, fb; u64 m = wmask(a.w);
    if (b.k && aff(a, fa) && fa.off) return afflt(fa, a.w, b.c);
    if (a.k && aff(b, fb) && fb.off) return a.c == m ? F0 : inv(afflt(fb, a.w, a.c + 1));
    if (!a.k && !b.k && aff(a, fa) && aff(b, fb) && fa.base == fb.base) { u64 d = (fb.off - fa.off) & m; if (!d) return F0; return afflt(fa, a.w, (0 - d) & m); } // x < x+d  <=>  x < 2^w - d
    if (b.k && a.w <= 64) return ultc(a.b, b.c); if (a.k && b.w <= 64) return a.c == m ? F0 : inv(ultc(b.b, a.c + 1)); }
  Lit r = F0; for (u32 i = 0; i < a.w; i++) { Lit x = a.bit(i), y = b.bit(i); Lit d = G.Xor(x, y); r = d == F0 ? r : d == T1 ? y : G.Mux(d, y, r); } return r;
}
Lit vslt(const Val &a, const Val &b) {
  if (a.k && b.k) return a.sval() < b.sval();
  auto x = vbits(a), y = vbits(b); x.back() ^= 1; y.back() ^= 1; return vult(Val(std::move(x)), Val(std::move(y)));
}
Val vite(Lit c, const Val &t, const Val &e) {
  if (c == T1) return t; if (c == F0) return e; if (t.k && e.k && t.c == e.c && t.w == e.w) return t;
  std::vector<Lit> r(t.w); for (u32 i = 0; i < t.w; i++) r[i] = G.Mux(c, t.bit(i), e.bit(i)); return Val(std::move(r));
}
bool vudivrem(const Val &a, const Val &b, Val &q, Val &r) {
  if (a.k && b.k) { if (!b.c) return false; q = Val(a.w, a.c / b.c); r = Val(a.w, a.c % b.c); return true; }
  if (b.k && b.c && (b.c & (b.c - 1)) == 0) { int s = __builtin_ctzll(b.c); q = vlshr(a, Val(a.w, s)); r = vand(a, Val(a.w, b.c - 1)); return true; }
  if (b.k && b.c == 0) return false;
  u32 w = a.w; Val rem(w + 1, 0), bb = vzext(b, w + 1); std::vector<Lit> qq(w);
  for (int i = w - 1; i >= 0; i--) { rem = vshl(rem, Val(w + 1, 1)); auto rb = vbits(rem); rb[0] = a.bit(i); rem = Val(std::move(rb)); Lit ge = inv(vult(rem, bb)); qq[i] = ge; rem = vite(ge, vsub(rem, bb), rem); }
  q = Val(std::move(qq)); r = vtrunc(rem, w); return true;
}
