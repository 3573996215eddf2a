/* ISAP v2.0, Ascon-Hash and the two permutations, written from their specifications and independent of the code in
   /repo and of the engine's specification (engine/spec.h). checks/native/kat.sh compares it with the published test vectors. */
#ifndef ORACLE_H
#define ORACLE_H
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef struct { const char *name; int keccak, rate, state, sH, sB, sE, sK; } orc_inst;
static const orc_inst orc_instances[4] = {{"a128a", 0, 8, 40, 12, 1, 6, 12}, {"a128", 0, 8, 40, 12, 12, 12, 12}, {"k128a", 1, 18, 50, 16, 1, 8, 8}, {"k128", 1, 18, 50, 20, 12, 12, 12}};
static const orc_inst *orc_find(const char *n) { for (int i = 0; i < 4; i++) if (!strcmp(n, orc_instances[i].name)) return &orc_instances[i]; return 0; }
static uint64_t orc_ror(uint64_t x, int n) { return x >> n | x << (64 - n); }
static void orc_ascon(uint8_t *s, int rounds) {
  uint64_t x[5], t[5];
  for (int i = 0; i < 5; i++) { x[i] = 0; for (int j = 0; j < 8; j++) x[i] = x[i] << 8 | s[8 * i + j]; }
  for (int r = 12 - rounds; r < 12; r++) {
    x[2] ^= (uint64_t)((15 - r) << 4 | r);
    x[0] ^= x[4]; x[4] ^= x[3]; x[2] ^= x[1];
    for (int i = 0; i < 5; i++) t[i] = x[i] ^ (~x[(i + 1) % 5] & x[(i + 2) % 5]);
    t[1] ^= t[0]; t[0] ^= t[4]; t[3] ^= t[2]; t[2] = ~t[2];
    x[0] = t[0] ^ orc_ror(t[0], 19) ^ orc_ror(t[0], 28); x[1] = t[1] ^ orc_ror(t[1], 61) ^ orc_ror(t[1], 39); x[2] = t[2] ^ orc_ror(t[2], 1) ^ orc_ror(t[2], 6);
    x[3] = t[3] ^ orc_ror(t[3], 10) ^ orc_ror(t[3], 17); x[4] = t[4] ^ orc_ror(t[4], 7) ^ orc_ror(t[4], 41);
  }
  for (int i = 0; i < 5; i++) for (int j = 0; j < 8; j++) s[8 * i + j] = (uint8_t)(x[i] >> (56 - 8 * j));
}
static int orc_lfsr(int *l) { int o = *l & 1; *l = (*l & 0x80) ? ((*l << 1) ^ 0x171) & 0xff : *l << 1; return o; }
static uint16_t orc_rol16(uint16_t x, int n) { n &= 15; return n ? (uint16_t)(x << n | x >> (16 - n)) : x; }
static void orc_keccak(uint8_t *s, int rounds) {
  uint16_t a[5][5], b[5][5], c[5], rc[20]; int l = 1; /* a[x][y] */
  for (int r = 0; r < 20; r++) { rc[r] = 0; for (int j = 0; j < 7; j++) { int bit = orc_lfsr(&l); if (bit && (1 << j) - 1 < 16) rc[r] ^= (uint16_t)(1u << ((1 << j) - 1)); } }
  for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) a[x][y] = (uint16_t)(s[2 * (x + 5 * y)] | s[2 * (x + 5 * y) + 1] << 8);
  for (int r = 20 - rounds; r < 20; r++) {
    for (int x = 0; x < 5; x++) c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) a[x][y] ^= c[(x + 4) % 5] ^ orc_rol16(c[(x + 1) % 5], 1);
    memcpy(b, a, sizeof a); /* rho: walk (1,0), (0,2), ... with triangular offsets */
    int x = 1, y = 0; for (int t = 0; t < 24; t++) { b[x][y] = orc_rol16(a[x][y], ((t + 1) * (t + 2) / 2) % 16); int n = (2 * x + 3 * y) % 5; x = y; y = n; }
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) a[j][(2 * i + 3 * j) % 5] = b[i][j]; /* pi */
    memcpy(b, a, sizeof a);
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) a[i][j] = b[i][j] ^ (uint16_t)(~b[(i + 1) % 5][j] & b[(i + 2) % 5][j]);
    a[0][0] ^= rc[r];
  }
  for (int j = 0; j < 5; j++) for (int i = 0; i < 5; i++) { s[2 * (i + 5 * j)] = (uint8_t)a[i][j]; s[2 * (i + 5 * j) + 1] = (uint8_t)(a[i][j] >> 8); }
}
static void orc_p(const orc_inst *I, uint8_t *s, int r) { if (I->keccak) orc_keccak(s, r); else orc_ascon(s, r); }
static void orc_iv(const orc_inst *I, uint8_t *o, int d) { uint8_t v[8] = {(uint8_t)d, 128, (uint8_t)(8 * I->rate), 1, (uint8_t)I->sH, (uint8_t)I->sB, (uint8_t)I->sE, (uint8_t)I->sK}; memcpy(o, v, 8); }
static void orc_rk(const orc_inst *I, const uint8_t *k, int d, const uint8_t *y, uint8_t *s) { /* whole state out */
  memset(s, 0, I->state); memcpy(s, k, 16); orc_iv(I, s + 16, d); orc_p(I, s, I->sK);
  for (int i = 0; i < 128; i++) { s[0] ^= (uint8_t)((y[i >> 3] << (i & 7)) & 0x80); orc_p(I, s, i < 127 ? I->sB : I->sK); }
}
static void orc_absorb(const orc_inst *I, uint8_t *s, const uint8_t *d, uint64_t n) {
  while (n >= (uint64_t)I->rate) { for (int i = 0; i < I->rate; i++) s[i] ^= d[i]; orc_p(I, s, I->sH); d += I->rate; n -= I->rate; }
  for (uint64_t i = 0; i < n; i++) s[i] ^= d[i];
  s[n] ^= 0x80; orc_p(I, s, I->sH);
}
static void orc_mac(const orc_inst *I, const uint8_t *k, const uint8_t *npub, const uint8_t *ad, uint64_t adlen, const uint8_t *c, uint64_t clen, uint8_t *tag, uint8_t *yout) {
  uint8_t s[64], t[64]; memset(s, 0, sizeof s); memcpy(s, npub, 16); orc_iv(I, s + 16, 1); orc_p(I, s, I->sH);
  orc_absorb(I, s, ad, adlen); s[I->state - 1] ^= 1; orc_absorb(I, s, c, clen);
  if (yout) memcpy(yout, s, 16);
  orc_rk(I, k, 2, s, t); memcpy(s, t, 16); orc_p(I, s, I->sH); memcpy(tag, s, 16);
}
static void orc_stream(const orc_inst *I, const uint8_t *k, const uint8_t *npub, const uint8_t *m, uint64_t n, uint8_t *c) {
  uint8_t s[64]; orc_rk(I, k, 3, npub, s); memcpy(s + I->state - 16, npub, 16);
  for (uint64_t i = 0; i < n; i += I->rate) { orc_p(I, s, I->sE); for (uint64_t j = 0; j < (uint64_t)I->rate && i + j < n; j++) c[i + j] = m[i + j] ^ s[j]; }
}
static void orc_encrypt(const orc_inst *I, const uint8_t *k, const uint8_t *npub, const uint8_t *ad, uint64_t adlen, const uint8_t *m, uint64_t mlen, uint8_t *c) {
  orc_stream(I, k, npub, m, mlen, c); orc_mac(I, k, npub, ad, adlen, c, mlen, c + mlen, 0);
}
static void orc_hash(const uint8_t *in, uint64_t n, uint8_t *out) {
  static const uint8_t iv[8] = {0, 0x40, 0x0c, 0, 0, 0, 1, 0}; uint8_t s[40]; memset(s, 0, 40); memcpy(s, iv, 8); orc_ascon(s, 12);
  while (n >= 8) { for (int i = 0; i < 8; i++) s[i] ^= in[i]; orc_ascon(s, 12); in += 8; n -= 8; }
  for (uint64_t i = 0; i < n; i++) s[i] ^= in[i]; s[n] ^= 0x80;
  for (int i = 0; i < 4; i++) { orc_ascon(s, 12); memcpy(out + 8 * i, s, 8); }
}
/* image under the leakage-resilient comparison permutation: first 16 bytes of p^7(T || y || 0) */
static void orc_image(const uint8_t *T, const uint8_t *y, uint8_t *u) { uint8_t s[40]; memset(s, 0, 40); memcpy(s, T, 16); memcpy(s + 16, y, 16); orc_ascon(s, 7); memcpy(u, s, 16); }
#endif
