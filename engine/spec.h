// ISAP v2.0 / Ascon-Hash / permutation specification over the bit graph (written from the specification, bytes as 8 literals, LSB first)
#pragma once
#include "graph.h"
#include <array>
typedef std::array<Lit, 8> Byte;
typedef std::vector<Byte> Bytes;
inline Byte cbyte(u8 v) { Byte b; for (int i = 0; i < 8; i++) b[i] = (v >> i) & 1; return b; }
inline Byte xorb(const Byte &a, const Byte &b) { Byte r; for (int i = 0; i < 8; i++) r[i] = G.Xor(a[i], b[i]); return r; }

inline void ascon_p(Bytes &S, int rounds) {
  static const u8 RC[12] = {0xf0,0xe1,0xd2,0xc3,0xb4,0xa5,0x96,0x87,0x78,0x69,0x5a,0x4b};
  Lit x[5][64], t[5][64];
  for (int l = 0; l < 5; l++) for (int j = 0; j < 8; j++) for (int b = 0; b < 8; b++) x[l][(7 - j) * 8 + b] = S[l * 8 + j][b];
  for (int r = 12 - rounds; r < 12; r++) {
    for (auto &w : x) for (Lit l : w) G.markState(l);
    for (int i = 0; i < 64; i++) {
      Lit a0 = x[0][i], a1 = x[1][i], a2 = x[2][i], a3 = x[3][i], a4 = x[4][i];
      if (i < 8 && ((RC[r] >> i) & 1)) a2 = inv(a2);
      a0 = G.Xor(a0, a4); a4 = G.Xor(a4, a3); a2 = G.Xor(a2, a1);
      Lit b0 = G.Xor(a0, G.And(inv(a1), a2)), b1 = G.Xor(a1, G.And(inv(a2), a3)), b2 = G.Xor(a2, G.And(inv(a3), a4)),
          b3 = G.Xor(a3, G.And(inv(a4), a0)), b4 = G.Xor(a4, G.And(inv(a0), a1));
      t[1][i] = G.Xor(b1, b0); t[0][i] = G.Xor(b0, b4); t[3][i] = G.Xor(b3, b2); t[2][i] = inv(b2); t[4][i] = b4;
    }
    static const int R1[5] = {19,61,1,10,7}, R2[5] = {28,39,6,17,41};
    for (int l = 0; l < 5; l++) for (int i = 0; i < 64; i++)
      x[l][i] = G.Xor(G.Xor(t[l][i], t[l][(i + R1[l]) & 63]), t[l][(i + R2[l]) & 63]);
  }
  for (auto &w : x) for (Lit l : w) G.markState(l);
  for (int l = 0; l < 5; l++) for (int j = 0; j < 8; j++) for (int b = 0; b < 8; b++) S[l * 8 + j][b] = x[l][(7 - j) * 8 + b];
}
inline void keccakp400(Bytes &S, int rounds) {
  // round constants of Keccak-f[1600] truncated to 16 bits, last `rounds` of 20
  static u64 RC[20]; static bool init = false;
  if (!init) { init = true; u8 l = 1; for (int r = 0; r < 20; r++) { RC[r] = 0; for (int j = 0; j < 7; j++) { int bp = (1 << j) - 1; if ((l & 1) && bp < 64) RC[r] ^= 1ull << bp; l = (l & 0x80) ? (l << 1) ^ 0x71 : l << 1; } } }
  static const int RHO[25] = {0,1,62,28,27,36,44,6,55,20,3,10,43,25,39,41,45,15,21,8,18,2,61,56,14};
  static Lit A[25][16], B[25][16];
  for (int l = 0; l < 25; l++) for (int i = 0; i < 16; i++) A[l][i] = S[l * 2 + i / 8][i % 8];
  for (int r = 20 - rounds; r < 20; r++) {
    for (auto &w : A) for (Lit l : w) G.markState(l);
    Lit C[5][16];
    for (int x = 0; x < 5; x++) for (int i = 0; i < 16; i++) { Lit c = A[x][i]; for (int y = 1; y < 5; y++) c = G.Xor(c, A[x + 5 * y][i]); C[x][i] = c; }
    Lit D[5][16];
    for (int x = 0; x < 5; x++) for (int i = 0; i < 16; i++) D[x][i] = G.Xor(C[(x + 4) % 5][i], C[(x + 1) % 5][(i + 15) & 15]);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) {
      int X = y, Y = (2 * x + 3 * y) % 5, rot = RHO[x + 5 * y] % 16;
      for (int i = 0; i < 16; i++) B[X + 5 * Y][(i + rot) & 15] = G.Xor(A[x + 5 * y][i], D[x][i]);
    }
    for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) for (int i = 0; i < 16; i++)
      A[x + 5 * y][i] = G.Xor(B[x + 5 * y][i], G.And(inv(B[(x + 1) % 5 + 5 * y][i]), B[(x + 2) % 5 + 5 * y][i]));
    for (int i = 0; i < 16; i++) if ((RC[r] >> i) & 1) A[0][i] = inv(A[0][i]);
  }
  for (auto &w : A) for (Lit l : w) G.markState(l);
  for (int l = 0; l < 25; l++) for (int i = 0; i < 16; i++) S[l * 2 + i / 8][i % 8] = A[l][i];
}
struct Inst { std::string name; bool keccak; int rate /*bytes*/, state, sH, sB, sE, sK; };
inline Inst instance(const std::string &n) {
  if (n == "a128a") return {n, false, 8, 40, 12, 1, 6, 12};
  if (n == "a128") return {n, false, 8, 40, 12, 12, 12, 12};
  if (n == "k128a") return {n, true, 18, 50, 16, 1, 8, 8};
  if (n == "k128") return {n, true, 18, 50, 20, 12, 12, 12};
  fprintf(stderr, "unknown instance %s\n", n.c_str()); exit(3);
}
struct Spec {
  Inst I;
  void perm(Bytes &S, int n) const { if (I.keccak) keccakp400(S, n); else ascon_p(S, n); }
  Bytes iv(u8 tag) const { u8 v[8] = {tag, 128, (u8)(I.rate * 8), 1, (u8)I.sH, (u8)I.sB, (u8)I.sE, (u8)I.sK}; Bytes r; for (u8 x : v) r.push_back(cbyte(x)); return r; }
  Bytes rk(const Bytes &k, u8 tag, const Bytes &y, int outlen) const {
    Bytes S = k; for (auto &b : iv(tag)) S.push_back(b); S.resize(I.state, cbyte(0));
    perm(S, I.sK);
    for (int i = 0; i < 128; i++) {
      S[0][7] = G.Xor(S[0][7], y[i / 8][7 - i % 8]);
      perm(S, i == 127 ? I.sK : I.sB);
    }
    S.resize(outlen); return S;
  }
  void absorb(Bytes &S, const Bytes &d, bool, Byte *domsep) const {
    size_t i = 0;
    while (d.size() - i >= (size_t)I.rate) { for (int j = 0; j < I.rate; j++) S[j] = xorb(S[j], d[i + j]); i += I.rate; perm(S, I.sH); }
    size_t j = 0; for (; i < d.size(); i++, j++) S[j] = xorb(S[j], d[i]);
    S[j] = xorb(S[j], cbyte(0x80)); perm(S, I.sH);
    if (domsep) S[I.state - 1] = xorb(S[I.state - 1], *domsep);
  }
  Bytes mac_state(const Bytes &n, const Bytes &ad, const Bytes &c) const {
    Bytes S = n; for (auto &b : iv(1)) S.push_back(b); S.resize(I.state, cbyte(0));
    perm(S, I.sH); Byte one = cbyte(1);
    absorb(S, ad, false, &one); absorb(S, c, false, nullptr);
    return S;
  }
  // tag from the state after absorption; y may have been replaced by fresh variables in S
  Bytes mac_finish(const Bytes &k, Bytes S) const {
    Bytes y(S.begin(), S.begin() + 16); Bytes ka = rk(k, 2, y, 16);
    for (int i = 0; i < 16; i++) S[i] = ka[i];
    perm(S, I.sH); S.resize(16); return S;
  }
  // keystream
  struct KS { Bytes S; Bytes out; };
  KS ks_start(const Bytes &k, const Bytes &n) const { KS r; r.S = rk(k, 3, n, I.state - 16); for (auto &b : n) r.S.push_back(b); return r; }
  void ks_extend(KS &s, size_t len) const { while (s.out.size() < len) { perm(s.S, I.sE); for (int j = 0; j < I.rate; j++) s.out.push_back(s.S[j]); } }
  // leakage-resilient comparison image: first 16 bytes of P7(T || y || 0)
  Bytes pvp_image(const Bytes &T, const Bytes &y) const { Bytes S = T; S.insert(S.end(), y.begin(), y.end()); S.resize(40, cbyte(0)); ascon_p(S, 7); S.resize(16); return S; }
};
struct HashSpec {
  static Bytes init() { static const u8 v[8] = {0,0x40,0x0c,0,0,0,1,0}; Bytes S; for (u8 x : v) S.push_back(cbyte(x)); S.resize(40, cbyte(0)); ascon_p(S, 12); return S; }
  static Bytes finish(Bytes S, const Bytes &rest) { // rest < 8 bytes
    size_t j = 0; for (; j < rest.size(); j++) S[j] = xorb(S[j], rest[j]);
    S[j] = xorb(S[j], cbyte(0x80)); ascon_p(S, 12);
    Bytes o; for (int i = 0; i < 4; i++) { if (i) ascon_p(S, 12); o.insert(o.end(), S.begin(), S.begin() + 8); }
    return o;
  }
  static Bytes hash(const Bytes &in) {
    Bytes S = init(); size_t i = 0;
    while (in.size() - i >= 8) { for (int j = 0; j < 8; j++) S[j] = xorb(S[j], in[i + j]); i += 8; ascon_p(S, 12); }
    return finish(S, Bytes(in.begin() + i, in.end()));
  }
};
