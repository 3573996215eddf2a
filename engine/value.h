// Words over the bit graph.
#pragma once
#include "spec.h"
#include <memory>
struct Val {
  u32 w = 0; bool k = true; u64 c = 0; std::vector<Lit> b;   // k: constant (w<=64) in c
  Val() {}
  Val(u32 w_, u64 c_) : w(w_), k(true), c(w_ >= 64 ? c_ : c_ & ((1ull << w_) - 1)) { if (w > 64) { k = false; b.assign(w, F0); for (int i = 0; i < 64; i++) b[i] = (c_ >> i) & 1; } }
  explicit Val(std::vector<Lit> &&bits) : w(bits.size()), k(false), b(std::move(bits)) { norm(); }
  explicit Val(Lit l) : w(1) { if (l < 2) { k = true; c = l; } else { k = false; b.assign(1, l); } }
  void norm() {
    if (w > 64) return;
    u64 v = 0; for (u32 i = 0; i < w; i++) { if (b[i] > 1) return; v |= (u64)b[i] << i; }
    k = true; c = v; b.clear();
  }
  Lit bit(u32 i) const { return k ? (Lit)((c >> i) & 1) : b[i]; }
  bool allconst() const { if (k) return true; for (Lit l : b) if (l > 1) return false; return true; }
  i64 sval() const { if (w == 64) return (i64)c; return (i64)(c << (64 - w)) >> (64 - w); }
};
std::vector<Lit> vbits(const Val &v);
Val vand(const Val &a, const Val &b); Val vor(const Val &a, const Val &b); Val vxor(const Val &a, const Val &b); Val vnot(const Val &a);
Val vadd(const Val &a, const Val &b); Val vsub(const Val &a, const Val &b); Val vneg(const Val &a); Val vmul(const Val &a, const Val &b);
std::vector<Lit> addc(const std::vector<Lit> &a, const std::vector<Lit> &b, Lit cin, Lit *cout, Lit *ovf = nullptr);
Val vshl(const Val &a, const Val &s); Val vlshr(const Val &a, const Val &s); Val vashr(const Val &a, const Val &s);
Val vrotr(const Val &a, const Val &s);
Val vzext(const Val &a, u32 w); Val vsext(const Val &a, u32 w); Val vtrunc(const Val &a, u32 w);
Val vextract(const Val &a, u32 lo, u32 w); Val vconcat(const Val &lo, const Val &hi);
Lit veq(const Val &a, const Val &b); Lit vult(const Val &a, const Val &b); Lit vslt(const Val &a, const Val &b);
Val vite(Lit c, const Val &t, const Val &e);
bool vudivrem(const Val &a, const Val &b, Val &q, Val &r);
