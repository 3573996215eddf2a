/* Runs one concrete case of the real code between guard pages and compares it with the oracle.
   usage: replay FILE      (lines "name value"; bytes in hex)    prints one line "BAD kind text" per deviation, then "DONE". */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "oracle.h"
typedef unsigned char u8; typedef unsigned long long u64; typedef unsigned long ul;
extern int crypto_aead_encrypt() __attribute__((weak)); extern int crypto_aead_decrypt() __attribute__((weak)); extern int crypto_hash() __attribute__((weak));
extern char __start_vdata[] __attribute__((weak)), vdata_end[], __start_vbss[] __attribute__((weak)), vbss_end[];
#ifdef LIBFN
extern int LIBFN();
#endif
/* the variant is compiled against the C library, but memcmp is the plain byte loop of the embedded C libraries */
int memcmp(const void *a, const void *b, size_t n) { const u8 *p = a, *q = b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }

/* ------------------------------------------------------------ arguments */
static struct { char n[16]; char *v; } av[64]; static int an;
static const char *A(const char *n) { for (int i = 0; i < an; i++) if (!strcmp(av[i].n, n)) return av[i].v; return 0; }
static u64 AI(const char *n, u64 d) { const char *v = A(n); return v ? strtoull(v, 0, 0) : d; }
static u8 *AH(const char *n, size_t want) { u8 *r = calloc(1, want + 16); const char *v = A(n); if (v) for (size_t i = 0; i < want && v[2 * i] && v[2 * i + 1]; i++) { char b[3] = {v[2 * i], v[2 * i + 1], 0}; r[i] = (u8)strtoul(b, 0, 16); } return r; }
static int nbad; static char seen[32][32];
static void bad(const char *kind, const char *fmt, u64 a, u64 b) { for (int i = 0; i < nbad && i < 32; i++) if (!strcmp(seen[i], kind)) return; if (nbad < 32) strncpy(seen[nbad], kind, 31); nbad++; printf("BAD %s ", kind); printf(fmt, a, b); printf("\n"); fflush(stdout); }

/* ------------------------------------------------------------ arena: fixed addresses, one slot per buffer */
#if defined(__x86_64__)
#define BASE 0x100000000000ul
#else
#define BASE 0x20000000ul
#endif
#define SLOT 0x400000ul
#define NSLOT 20
#define PG 4096ul
#define STK (BASE + NSLOT * SLOT)
#define STKSZ 0x100000ul
struct buf { u8 *p; size_t n; u8 *lo; size_t span; int ro; } B[NSLOT];
static void arena(void) {
  void *r = mmap((void *)BASE, NSLOT * SLOT, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0); if (r == MAP_FAILED) { perror("mmap"); exit(3); }
  r = mmap((void *)STK, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); if (r == MAP_FAILED) { perror("mmap"); exit(3); }
}
#define CAN(i) ((u8)(0xC3 ^ (i) * 29))
static int ENDSLOT; /* end == 2: only the buffer of this slot ends at the guard page */
static u8 *place(int slot, const u8 *data, size_t n, int end, size_t mis, int ro) {
  struct buf *b = &B[slot]; u8 *s = (u8 *)(BASE + slot * SLOT + 16 * PG); size_t span = ((n + mis + PG - 1) / PG + (n ? 0 : 0)) * PG; if (!n) span = 0;
  mprotect((void *)(BASE + slot * SLOT), SLOT, PROT_NONE); b->lo = s; b->span = span; b->n = n; b->ro = ro; b->p = end && (end != 2 || slot % 8 == ENDSLOT) ? s + span - n : s + mis; if (!n) { b->p = s; return s; }
  mprotect(s, span, PROT_READ | PROT_WRITE); for (size_t i = 0; i < span; i++) s[i] = CAN(i); if (data) memcpy(b->p, data, n); if (ro) mprotect(s, span, PROT_READ);
  return b->p;
}
static int canary(int slot) { struct buf *b = &B[slot]; for (size_t i = 0; i < b->span; i++) { u8 *q = b->lo + i; if (q >= b->p && q < b->p + b->n) continue; if (*q != CAN(i)) return 1; } return 0; }

/* ------------------------------------------------------------ calls on a stack of our own, callee-saved registers watched */
struct T { ul save, sp, fn, ret; ul regs[6]; ul pat[8]; ul got[8]; ul trace; };
struct T *cur_t;
int abi_tramp(struct T *);
#if defined(__x86_64__)
#define NPAT 6
__asm__(".text\n.globl abi_tramp\n.type abi_tramp,@function\nabi_tramp:\n"
  "push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\n"
  "mov %rdi,cur_t(%rip)\nmov %rsp,0(%rdi)\nmov %rdi,%rax\n"
  "cmpq $0,208(%rax)\nje 1f\npushfq\norq $0x100,(%rsp)\npopfq\n1:\n"
  "mov 8(%rax),%rsp\nmov 80(%rax),%rbx\nmov 88(%rax),%rbp\nmov 96(%rax),%r12\nmov 104(%rax),%r13\nmov 112(%rax),%r14\nmov 120(%rax),%r15\n"
  "mov 32(%rax),%rdi\nmov 40(%rax),%rsi\nmov 48(%rax),%rdx\nmov 56(%rax),%rcx\nmov 64(%rax),%r8\nmov 72(%rax),%r9\n"
  "mov 16(%rax),%r11\nxor %eax,%eax\ncall *%r11\n"
  "mov cur_t(%rip),%rdx\nmov %rax,24(%rdx)\nmov %rbx,144(%rdx)\nmov %rbp,152(%rdx)\nmov %r12,160(%rdx)\nmov %r13,168(%rdx)\nmov %r14,176(%rdx)\nmov %r15,184(%rdx)\n"
  "mov 0(%rdx),%rsp\ncld\npushfq\nandq $~0x100,(%rsp)\npopfq\n"
  "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n.size abi_tramp,.-abi_tramp\n");
#elif defined(__arm__)
#define NPAT 8
__asm__(".text\n.arm\n.syntax unified\n.align 2\n.globl abi_tramp\n.type abi_tramp,%function\nabi_tramp:\n"
  "push {r4-r11,lr}\nldr r1,=cur_t\nstr r0,[r1]\nstr sp,[r0,#0]\nmov r12,r0\nldr sp,[r12,#4]\nldr lr,[r12,#8]\n"
  "add r0,r12,#40\nldm r0,{r4-r11}\nadd r0,r12,#16\nldm r0,{r0-r3}\nblx lr\n"
  "ldr r12,=cur_t\nldr r12,[r12]\nstr r0,[r12,#12]\nadd r1,r12,#72\nstm r1,{r4-r11}\nldr sp,[r12,#0]\npop {r4-r11,pc}\n.ltorg\n.size abi_tramp,.-abi_tramp\n");
#endif
static sigjmp_buf jb; static volatile int sigk; static volatile ul sigaddr; static volatile int sigw; static volatile int active;
static ul *trc; static volatile size_t ntrc; static size_t maxtrc; static volatile int tracing;
static ul vs[4]; /* the variant's writable static data */
static void prot(int on) { for (int i = 0; i < 4; i += 2) if (vs[i] < vs[i + 1]) mprotect((void *)(vs[i] & ~(PG - 1)), ((vs[i + 1] + PG - 1) & ~(PG - 1)) - (vs[i] & ~(PG - 1)), on ? PROT_READ : PROT_READ | PROT_WRITE); }
static volatile int watch, gwrites; static volatile ul gaddr;
static void onsig(int s, siginfo_t *si, void *uc) {
  if (s == SIGTRAP) {
#if defined(__x86_64__)
    if (tracing) { ul ip = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP]; if (ntrc < maxtrc) trc[ntrc] = ip; ntrc++; }
#endif
    return;
  }
  ul a = (ul)si->si_addr;
  if (s == SIGSEGV && watch) { int in = 0, pg = 0; for (int i = 0; i < 4; i += 2) if (vs[i] < vs[i + 1]) { if (a >= vs[i] && a < vs[i + 1]) in = 1; if (a >= (vs[i] & ~(PG - 1)) && a < ((vs[i + 1] + PG - 1) & ~(PG - 1))) pg = 1; }
    if (in) { gwrites++; gaddr = a; } if (in || pg) { prot(0); watch = 0; return; } }
  sigk = s; sigaddr = a;
#if defined(__x86_64__)
  sigw = s == SIGSEGV && (((ucontext_t *)uc)->uc_mcontext.gregs[REG_ERR] & 2); ((ucontext_t *)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100;
#endif
  if (!active) { printf("BAD crash outside a call: signal %d at %lx\n", s, a); _exit(0); }
  siglongjmp(jb, 1);
}
struct call { int kind; /*0 enc 1 dec 2 hash 3 lib*/ u8 *out; u8 *outlen; const u8 *in; u64 inlen; const u8 *ad; u64 adlen; const u8 *n, *k; const u8 *nsec; ul larg[5]; };
static int TMO = 20;
/* returns 0 ok, 1 signal; *ret the return value */
static int docall(struct call *c, int paint, long *ret, int trace, const char *who) {
  static struct T t; memset(&t, 0, sizeof t); u8 *st = (u8 *)STK; unsigned z = 12345u + (unsigned)paint;
  for (size_t i = STKSZ - 0x10000; i < STKSZ; i++) { z = z * 1103515245u + 12345u; st[i] = paint == 0 ? 0 : paint == 1 ? 0xff : paint == 2 ? 0xa5 : (u8)(z >> 16); }
  ul *sp = (ul *)(STK + STKSZ - 1024);
  for (int i = 0; i < 8; i++) t.pat[i] = (ul)0x5a5a1234u * (i + 3);
#if defined(__x86_64__)
  if (c->kind == 0) { ul r[6] = {(ul)c->out, (ul)c->outlen, (ul)c->in, c->inlen, (ul)c->ad, c->adlen}; memcpy(t.regs, r, sizeof r); sp[0] = (ul)c->nsec; sp[1] = (ul)c->n; sp[2] = (ul)c->k; t.fn = (ul)crypto_aead_encrypt; }
  else if (c->kind == 1) { ul r[6] = {(ul)c->out, (ul)c->outlen, (ul)c->nsec, (ul)c->in, c->inlen, (ul)c->ad}; memcpy(t.regs, r, sizeof r); sp[0] = c->adlen; sp[1] = (ul)c->n; sp[2] = (ul)c->k; t.fn = (ul)crypto_aead_decrypt; }
  else if (c->kind == 2) { ul r[6] = {(ul)c->out, (ul)c->in, c->inlen, 0, 0, 0}; memcpy(t.regs, r, sizeof r); t.fn = (ul)crypto_hash; }
  else { memcpy(t.regs, c->larg, sizeof c->larg); }
  t.sp = (ul)sp;
#else
  if (c->kind == 0) { t.regs[0] = (ul)c->out; t.regs[1] = (ul)c->outlen; t.regs[2] = (ul)c->in; memcpy(sp, &c->inlen, 8); sp[2] = (ul)c->ad; memcpy(sp + 4, &c->adlen, 8); sp[6] = (ul)c->nsec; sp[7] = (ul)c->n; sp[8] = (ul)c->k; t.fn = (ul)crypto_aead_encrypt; }
  else if (c->kind == 1) { t.regs[0] = (ul)c->out; t.regs[1] = (ul)c->outlen; t.regs[2] = (ul)c->nsec; t.regs[3] = (ul)c->in; memcpy(sp, &c->inlen, 8); sp[2] = (ul)c->ad; memcpy(sp + 4, &c->adlen, 8); sp[6] = (ul)c->n; sp[7] = (ul)c->k; t.fn = (ul)crypto_aead_decrypt; }
  else if (c->kind == 2) { t.regs[0] = (ul)c->out; t.regs[1] = (ul)c->in; memcpy(t.regs + 2, &c->inlen, 8); t.fn = (ul)crypto_hash; }
  else { memcpy(t.regs, c->larg, 16); sp[0] = c->larg[4]; }
  t.sp = (ul)sp;
#endif
#ifdef LIBFN
  if (c->kind == 3) t.fn = (ul)LIBFN;
#endif
  sigk = 0; gwrites = 0; t.trace = trace; tracing = trace; ntrc = 0; watch = vs[0] < vs[1] || vs[2] < vs[3]; struct itimerval it = {{0, 0}, {TMO, 0}}; setitimer(ITIMER_REAL, &it, 0);
  if (!sigsetjmp(jb, 1)) { active = 1; if (watch) prot(1); abi_tramp(&t); active = 0; }
  active = 0; tracing = 0; watch = 0; prot(0); memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, 0);
  if (gwrites) bad("global_write", "the call writes static data at 0x%llx", gaddr, 0);
  if (sigk == SIGALRM) { bad("nonterm", "the call did not return within %llu s", TMO, 0); return 1; }
  if (sigk == SIGBUS) { bad("align", "misaligned access", 0, 0); return 1; }
  if (sigk == SIGSEGV) { int sl = sigaddr >= BASE && sigaddr < BASE + NSLOT * SLOT ? (int)((sigaddr - BASE) / SLOT) : -1;
    if (sl >= 0 && B[sl].ro && sigaddr >= (ul)B[sl].lo && sigaddr < (ul)B[sl].lo + B[sl].span) bad("input_write", "write to the read-only input in slot %llu", sl, 0);
    else bad("oob", sl >= 0 ? "access outside the buffer in slot %llu, %lld bytes past its start" : "access to unmapped address (slot %lld) 0x%llx", sl, sl >= 0 ? sigaddr - (ul)B[sl].p : sigaddr); return 1; }
  if (sigk) { bad("crash", "signal %llu", sigk, 0); return 1; }
  for (int i = 0; i < NPAT; i++) if (t.got[i] != t.pat[i]) { bad("abi", "callee-saved register number %llu is not restored", i, 0); break; }
  *ret = (int)t.ret; (void)who; return 0;
}
static const orc_inst *I; static int STP;
enum { S_K, S_N, S_AD, S_IN, S_OUT, S_LEN, S_NSEC };
static void setcall(struct call *c, int base, int kind, const u8 *k, const u8 *n, const u8 *ad, u64 adlen, const u8 *in, u64 inlen, size_t outn, const u8 *oi, int end, size_t mis) {
  memset(c, 0, sizeof *c); c->kind = kind; if (kind != 2) { c->k = place(base + S_K, k, 16, end, mis, 1); c->n = place(base + S_N, n, 16, end, mis, 1); c->ad = place(base + S_AD, ad, adlen, end, mis, 1); c->outlen = place(base + S_LEN, 0, 8, 1, 0, 0); }
  c->in = place(base + S_IN, in, inlen, end, mis, 1); c->out = place(base + S_OUT, oi, outn, end, mis, 0); c->inlen = inlen; c->adlen = adlen; c->nsec = 0;
}
static int buffers_ok(int base, int kind) { int r = 0; for (int s = 0; s < 7; s++) { if (kind == 2 && s != S_IN && s != S_OUT) continue; if (B[base + s].n && canary(base + s)) r = 1; } if (r) bad("oob", "bytes next to a buffer were overwritten", 0, 0); return !r; }
static u64 rdlen(struct call *c) { u64 v; memcpy(&v, c->outlen, 8); return v; }
static u8 dzero[1];
/* one call, compared with the oracle. want_tag: whether the tag is the authentic one */
static void one(int base, int kind, const u8 *k, const u8 *n, const u8 *ad, u64 adlen, const u8 *in, u64 inlen, const u8 *tagdelta, int end, size_t mis, int paint, int oinit, const char *pre) {
  struct call c; long r; char kb[40]; const char *K; u64 ml = inlen; (void)pre;
#define KIND(x) (snprintf(kb, sizeof kb, "%s%s", pre, x), K = kb, K)
  if (kind == 0) {
    u8 *w = malloc(ml + 32); orc_encrypt(I, k, n, ad, adlen, in, ml, w); u8 *oi = malloc(ml + 32); memset(oi, oinit, ml + 32);
    setcall(&c, base, 0, k, n, ad, adlen, in, ml, ml + 16, oi, end, mis); memset(c.outlen, oinit, 8); if (docall(&c, paint, &r, 0, pre)) return; buffers_ok(base, 0);
    if (r) bad(KIND("out"), "encryption returns %lld", r, 0); if (rdlen(&c) != ml + 16) bad(KIND("out"), "ciphertext length %llu instead of %llu", rdlen(&c), ml + 16);
    for (u64 i = 0; i < ml + 16; i++) if (c.out[i] != w[i]) { bad(KIND("out"), "ciphertext byte %llu of %llu differs from the specification", i, ml + 16); break; } free(w); free(oi);
  } else if (kind == 1) {
    u8 *ci = malloc(ml + 32), *w = malloc(ml + 32), *oi = malloc(ml + 32), y[16], tag[16]; int z = 0; memcpy(ci, in, ml); orc_mac(I, k, n, ad, adlen, in, ml, tag, y); orc_stream(I, k, n, in, ml, w); for (int i = 0; i < 16; i++) { ci[ml + i] = tag[i] ^ tagdelta[i]; z |= tagdelta[i]; } memset(oi, oinit, ml + 32);
    setcall(&c, base, 1, k, n, ad, adlen, ci, ml + 16, ml, oi, end, mis); memset(c.outlen, oinit, 8); if (docall(&c, paint, &r, 0, pre)) return; buffers_ok(base, 1);
    int acc = !z; if (STP && z) { u8 u[16], v[16]; orc_image(tag, y, u); orc_image(ci + ml, y, v); int d = 0; for (int i = 0; i < 16; i++) d |= u[i] ^ v[i]; acc = !d; }
    if (!r != acc) bad(KIND("accept"), acc ? "authentic ciphertext rejected (returns %lld)" : "forged tag accepted (returns %lld)", r, 0);
    if (!r) { if (rdlen(&c) != ml) bad(KIND("plain"), "plaintext length %llu instead of %llu", rdlen(&c), ml); for (u64 i = 0; i < ml; i++) if (c.out[i] != w[i]) { bad(KIND("plain"), "plaintext byte %llu differs", i, 0); break; } }
    else { int ch = 0; for (u64 i = 0; i < ml; i++) if (c.out[i] != (u8)oinit) ch = 1;
      if (ch) { u8 *o1 = malloc(ml + 1); memcpy(o1, c.out, ml); /* constants are allowed: look for a dependence on the key */
        for (int q = 0; q < 6; q++) { u8 k2[16]; long r2; for (int i = 0; i < 16; i++) k2[i] = k[i] ^ (u8)(q == 0 ? (i == 15) : (i * 37 + q * 11 + 1)); u8 t2[16]; orc_mac(I, k2, n, ad, adlen, in, ml, t2, 0); for (int i = 0; i < 16; i++) ci[ml + i] = t2[i] ^ tagdelta[i];
          setcall(&c, base, 1, k2, n, ad, adlen, ci, ml + 16, ml, oi, end, mis); if (docall(&c, paint, &r2, 0, pre)) break; if (r2 && memcmp(o1, c.out, ml)) { bad(KIND("release"), "the plaintext buffer depends on the key after a rejection", 0, 0); break; } } free(o1); } }
    free(ci); free(w); free(oi);
  } else {
    u8 w[32], oi[32]; memset(oi, oinit, 32); orc_hash(in, ml, w); setcall(&c, base, 2, 0, 0, 0, 0, in, ml, 32, oi, end, mis); if (docall(&c, paint, &r, 0, pre)) return; buffers_ok(base, 2);
    if (r) bad(KIND("out"), "hashing returns %lld", r, 0); for (int i = 0; i < 32; i++) if (c.out[i] != w[i]) { bad(KIND("out"), "digest byte %llu differs", i, 0); break; }
  }
}
static int kindof(const char *s) { return !s ? -1 : !strncmp(s, "enc", 3) ? 0 : !strncmp(s, "dec", 3) ? 1 : !strcmp(s, "hash") ? 2 : -1; }
static double nowd(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
/* ---- two lengths that are said to be processed alike */
static u8 *big(u64 n) { u8 *p = mmap(0, (size_t)n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? 0 : p; }
static void bigcase(int kind, int isin, u64 len, u64 alt, u64 other) { /* len is huge: compare with what a conflation with alt would give */
  u64 il = isin ? len : other, al = isin ? other : len; u8 z[16] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}; struct call c; memset(&c, 0, sizeof c); c.kind = kind; long r; u8 ol[8];
  if (sizeof(size_t) < 8 && len > 0x40000000u) return;
  u8 *in = big(il + 4096), *ad = big(al + 4096), *out = big((kind == 2 ? 32 : il) + 4096); if (!in || !ad || !out) return;
  c.k = z; c.n = z; c.in = in; c.ad = ad; c.inlen = il; c.adlen = al; c.out = out; c.outlen = ol;
  u64 ai = isin ? alt : il, aa = isin ? al : alt; u8 tag[16]; 
  if (kind == 1) { if (isin && (il < 16 || ai < 16)) return; orc_mac(I, z, z, ad, aa, in, ai - 16, tag, 0); memcpy(in + il - 16, tag, 16); }
  TMO = 200; double t0 = nowd(); int e = docall(&c, 0, &r, 0, ""); double dt = nowd() - t0; if (e) return;
  if (dt < (double)len / 5e10) { bad("length", "a length of %llu bytes is processed in %llu microseconds", len, (u64)(dt * 1e6)); return; }
  if (kind == 1 && !r) { /* accepted a tag computed over other data */ u64 m = isin ? len : 0; if (m && ai != il) bad("length", "tag of a %llu byte ciphertext accepted for %llu bytes", ai, il); else if (!isin && aa != al) bad("length", "tag for %llu bytes of associated data accepted for %llu", aa, al); }
  if (kind == 0 && isin) { u8 ks[512]; u64 at = alt / (u64)I->rate * (u64)I->rate; if (at + 256 < il && at < 100000) { u8 *w = calloc(1, at + 512); orc_stream(I, z, z, w, at + 256, w); memcpy(ks, w + at, 256); free(w); if (memcmp(ks, out + at, 256)) bad("length", "message of %llu bytes is not encrypted beyond byte %llu", il, at); } }
  if (kind == 0 && !isin) { u8 *w = malloc(il + 32); orc_encrypt(I, z, z, ad, aa, in, il, w); if (!memcmp(w + il, out + il, 16)) bad("length", "the tag for %llu bytes of associated data equals the tag for %llu", al, aa); free(w); }
}
static void hex(const char *n, const u8 *p, size_t l) { printf("OUT %s ", n); for (size_t i = 0; i < l; i++) printf("%02x", p[i]); printf("\n"); }
/* ------------------------------------------------------------ constant time: two runs with equal public values */
#ifdef SANCOV
static ul *cov; static size_t ncov; static int covon;
static void rec(ul v) { if (covon) { if (ncov < maxtrc) cov[ncov] = v; ncov++; } }
void __sanitizer_cov_trace_pc(void) { rec((ul)__builtin_return_address(0)); }
#define SC(n) void __sanitizer_cov_load##n(void *p) { rec((ul)p * 2); } void __sanitizer_cov_store##n(void *p) { rec((ul)p * 2 + 1); }
SC(1) SC(2) SC(4) SC(8) SC(16)
#endif
static u8 rnd_(unsigned *z) { *z = *z * 1664525u + 1013904223u; return (u8)(*z >> 24); }
static void ct(int kind, u64 adlen, u64 len, int trace) {
  static ul *T0; static size_t n0 = 0; maxtrc = 6000000; trc = mmap(0, maxtrc * sizeof(ul), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); T0 = mmap(0, maxtrc * sizeof(ul), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  u64 ml = kind == 1 ? len - 16 : len; u8 *k0 = AH("k", 16), *n = AH("n", 16), *ad = AH("ad", adlen), *m0 = AH(kind == 1 ? "c" : "m", ml), *td = AH("tdelta", 16); int tz = 1; for (int i = 0; i < 16; i++) if (td[i]) tz = 0;
  u8 *c0 = malloc(ml + 32), *w = malloc(ml + 64); unsigned z = 99;
  if (kind == 0) { orc_stream(I, k0, n, m0, ml, c0); } else memcpy(c0, m0, ml);
  for (int q = 0; q < (trace == 2 ? 2 : 41); q++) { u8 k[16]; memcpy(k, k0, 16); struct call c; long r; u8 tag[16]; if (trace == 2) q = (int)AI("ctrun", 0);
    if (q && kind != 2) { if (q < 5) k[(q * 5) & 15] ^= 1 << (q & 7); else if (q < 9 || kind == 0) for (int i = 0; i < 16; i++) k[i] = rnd_(&z); }
    if (kind == 0) { orc_stream(I, k, n, c0, ml, w); setcall(&c, 0, 0, k, n, ad, adlen, w, ml, ml + 16, 0, 0, 0); }
    else if (kind == 1) { orc_mac(I, k, n, ad, adlen, c0, ml, tag, 0); memcpy(w, c0, ml); u8 d[16]; memcpy(d, td, 16); if (q >= 9 && q < 25) { memset(d, 0, 16); d[q - 9] = 0x40; } else if (q >= 25) for (int i = 0; i < 16; i++) d[i] = rnd_(&z); else if (q >= 5 && !tz) for (int i = 0; i < 16; i++) d[i] = (u8)(td[i] ? td[i] : 0); if (tz && q) memset(d, 0, 16);
      for (int i = 0; i < 16; i++) w[ml + i] = tag[i] ^ d[i]; setcall(&c, 0, 1, k, n, ad, adlen, w, ml + 16, ml, 0, 0, 0); }
    else { memcpy(w, m0, ml); if (q) for (u64 i = 0; i < ml; i++) if (q > 4 || i == (u64)q * 3 % (ml ? ml : 1)) w[i] = rnd_(&z); setcall(&c, 0, 2, 0, 0, 0, 0, w, ml, 32, 0, 0, 0); }
    TMO = 60;
#ifdef SANCOV
    cov = q ? trc : T0; ncov = 0; covon = 1; if (docall(&c, 0, &r, 0, "")) return; covon = 0; size_t nn = ncov; ul *TT = cov;
#else
    if (docall(&c, 0, &r, trace == 1, "")) return; size_t nn = ntrc; ul *TT = trc;
#endif
    if (trace == 2) { printf("RET %ld\n", r); return; }
    if (kind == 1 && !q) tz = !r && tz; if (kind == 1 && (!r) != tz) continue; /* a different, public, outcome */
    if (!q) { n0 = nn; if (TT != T0) memcpy(T0, trc, (nn < maxtrc ? nn : maxtrc) * sizeof(ul)); if (!nn) { printf("NOTRACE\n"); return; } }
    else { size_t i, mm = nn < n0 ? nn : n0; if (mm > maxtrc) mm = maxtrc; for (i = 0; i < mm && T0[i] == TT[i]; i++); if (i < mm || nn != n0) { bad("ct", "two runs with equal public values diverge after %llu steps (run %llu)", i, q); return; } } }
}
#if defined(__arm__)
#define NLAY 7
#else
#define NLAY 2
#endif
int main(int argc, char **argv) {
  if (argc < 2) return 3; FILE *f = fopen(argv[1], "r"); if (!f) return 3; static char line[1 << 20]; while (fgets(line, sizeof line, f)) { char *sp = strchr(line, ' '); if (!sp) continue; *sp = 0; char *v = sp + 1; v[strcspn(v, "\r\n")] = 0; if (an < 64) { strncpy(av[an].n, line, 15); av[an].v = strdup(v); an++; } } fclose(f);
  I = orc_find(A("inst") ? A("inst") : "a128a"); STP = (int)AI("stp", 0); arena();
  stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, 0); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; int sg[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM, SIGTRAP}; for (int i = 0; i < 7; i++) sigaction(sg[i], &sa, 0);
  vs[0] = (ul)__start_vdata; vs[1] = (ul)vdata_end; vs[2] = (ul)__start_vbss; vs[3] = (ul)vbss_end; TMO = (int)AI("tmo", 20);
  const char *op = A("op"); u64 adlen = AI("adlen", 0), len = AI("len", 0), mis = AI("mis", 0); u8 *k = AH("k", 16), *n = AH("n", 16), *ad = AH("ad", adlen); static const int fill[4] = {0, 0xff, 0x5a, 0xc3}; static u8 zero16[16];
  if (A("ct")) { ct(!strcmp(op, "enc") ? 0 : op[0] == 'd' ? 1 : 2, adlen, len, (int)AI("ct", 1)); }
  else if (!strcmp(op, "enc") || !strcmp(op, "hash")) { u8 *m = AH("m", len); for (int p = 0; p < 4; p++) for (int lay = 0, end; end = lay < 2 ? lay : 2, ENDSLOT = lay - 2, lay < NLAY; lay++) one(0, op[0] == 'e' ? 0 : 2, k, n, ad, adlen, m, len, 0, end, end ? 0 : mis, p, fill[p], ""); }
  else if (!strcmp(op, "dec") || !strcmp(op, "dec_valid")) { u8 *c = AH("c", len - 16), *td = AH("tdelta", 16); for (int p = 0; p < 4; p++) for (int lay = 0, end; end = lay < 2 ? lay : 2, ENDSLOT = lay - 2, lay < NLAY; lay++) one(0, 1, k, n, ad, adlen, c, len - 16, op[3] ? zero16 : td, end, end ? 0 : mis, p, fill[p], ""); }
  else if (!strcmp(op, "dec_short")) { u8 *c = AH("c", len); TMO = 10; for (int p = 0; p < 2; p++) for (int lay = 0, end; end = lay < 2 ? lay : 2, ENDSLOT = lay - 2, lay < NLAY; lay++) { struct call q; long r; u8 oi[64]; memset(oi, fill[p], 64); setcall(&q, 0, 1, k, n, ad, adlen, c, len, 64, oi, end, end ? 0 : mis); if (docall(&q, p, &r, 0, "")) continue; buffers_ok(0, 1); if (!r) bad("short", "a %llu byte ciphertext is accepted", len, 0); for (int i = 0; i < 64; i++) if (q.out[i] != (u8)fill[p]) { bad("short", "the plaintext buffer is written at %llu", i, 0); break; } } }
  else if (!strcmp(op, "round")) { u8 *m = AH("m", len); for (int p = 0; p < 2; p++) { struct call c, d; long r; setcall(&c, 0, 0, k, n, ad, adlen, m, len, len + 16, 0, 0, mis); if (docall(&c, p, &r, 0, "")) continue; if (r) { bad("round", "encryption returns %lld", r, 0); continue; } if (rdlen(&c) != len + 16) { bad("round", "ciphertext length %llu", rdlen(&c), 0); continue; }
      u8 *cc = malloc(len + 16); memcpy(cc, c.out, len + 16); setcall(&d, 8, 1, k, n, ad, adlen, cc, len + 16, len, 0, 0, mis); if (docall(&d, p, &r, 0, "")) continue; if (r) { bad("round", "decryption of the output of encryption returns %lld", r, 0); continue; } if (rdlen(&d) != len) bad("round", "message length %llu instead of %llu", rdlen(&d), len); for (u64 i = 0; i < len; i++) if (d.out[i] != m[i]) { bad("round", "message byte %llu is not recovered", i, 0); break; } } }
  else if (!strcmp(op, "seq")) { /* first call, then the call under test */
    const char *o1 = A("op1"), *o2 = A("op2"); u64 a1 = AI("adlen1", 0), l1 = AI("len1", 0); u8 *k1 = AH("k1", 16), *n1 = AH("n1", 16), *ad1 = AH("ad1", a1), *in1 = AH(kindof(o1) == 1 ? "c1" : "m1", l1), *td1 = AH("tdelta1", 16), *in2 = AH(kindof(o2) == 1 ? "c" : "m", len), *td2 = AH("tdelta", 16);
    for (int p = 0; p < 4; p++) { nbad = 0; one(AI("samep", 0) ? 0 : 8, kindof(o1), k1, n1, ad1, a1, in1, l1, !strcmp(o1, "decv") ? zero16 : td1, 0, 0, p, fill[p], "first_"); one(0, kindof(o2), k, n, ad, adlen, in2, len, !strcmp(o2, "decv") ? zero16 : td2, 0, 0, p, fill[(p + 1) & 3], "seq_"); } }
  else if (!strcmp(op, "symlen")) { const char *kd = A("kind"), *wh = A("which"); u64 other = AI("other", 0), L[2] = {AI("len1", 0), AI("len2", 0)}; int kind = kindof(kd), isin = !strcmp(wh, "in"); static u8 zz[16];
    for (int q = 0; q < 2; q++) { u64 il = isin ? L[q] : other, al = isin ? other : L[q]; if (L[q] <= 300000) { u8 *in = calloc(1, il + 16), *a = calloc(1, al + 16); for (u64 i = 0; i < il; i++) in[i] = (u8)(i * 7 + 1); for (u64 i = 0; i < al; i++) a[i] = (u8)(i * 5 + 2); if (kind == 1) { if (il < 16) continue; il -= 16; } for (int end = 0; end < 2; end++) one(0, kind, k, n, a, al, in, il, zz, end, 0, 0, 0x33, "len_"); free(in); free(a); }
      else bigcase(kind, isin, L[q], L[!q], other); } }
  else if (!strcmp(op, "lib")) { int N = (int)AI("size", 50), off = (int)AI("off", 0); int ll = (int)len; const char *fn = A("fn"); const char *s = strchr(fn, '_') + 1; u8 *st = AH("st", N), *dt = AH("data", N), w[64], wo[64], ob[64]; memcpy(w, st, N); memset(ob, 0x77, 64); memcpy(wo, ob, 64);
    for (int lay = 0, end; end = lay < 2 ? lay : 2, ENDSLOT = lay - 2, lay < NLAY; lay++) { struct call c; memset(&c, 0, sizeof c); c.kind = 3; int ro = !strncmp(s, "Extract", 7); u8 *ps = place(0, st, N, end, 0, ro), *pd = place(1, dt, ll, end, 0, 1), *po = place(2, ob, ll, end, 0, 0); long r; memcpy(w, st, N);
      ul *a = c.larg; a[0] = (ul)ps;
      if (!strcmp(s, "Initialize")) memset(w, 0, N); else if (!strcmp(s, "AddByte")) { a[1] = dt[0]; a[2] = off; w[off] ^= dt[0]; } else if (!strcmp(s, "AddBytes")) { a[1] = (ul)pd; a[2] = off; a[3] = ll; for (int i = 0; i < ll; i++) w[off + i] ^= dt[i]; } else if (!strcmp(s, "OverwriteBytes")) { a[1] = (ul)pd; a[2] = off; a[3] = ll; memcpy(w + off, dt, ll); } else if (!strcmp(s, "OverwriteWithZeroes")) { a[1] = off; memset(w, 0, off); }
      else if (!strcmp(s, "ExtractBytes")) { a[1] = (ul)po; a[2] = off; a[3] = ll; memcpy(wo, st + off, ll); } else if (!strcmp(s, "ExtractAndAddBytes")) { a[1] = (ul)pd; a[2] = (ul)po; a[3] = off; a[4] = ll; for (int i = 0; i < ll; i++) wo[i] = dt[i] ^ st[off + i]; } else { a[1] = off; if (N == 50) orc_keccak(w, off); else orc_ascon(w, off); }
      if (docall(&c, 0, &r, 0, "")) continue; for (int q = 0; q < 3; q++) if (B[q].n && canary(q)) bad("oob", "bytes next to a buffer were overwritten", 0, 0);
      for (int i = 0; i < N; i++) if (ps[i] != w[i]) { bad("lib", "state byte %llu is wrong", i, 0); break; } for (int i = 0; i < ll; i++) if ((ro) && po[i] != wo[i]) { bad("lib", "output byte %llu is wrong", i, 0); break; } } }
  else if (!strcmp(op, "oracle")) { u8 *m = AH("m", len), *o = malloc(len + 64); if (AI("hash", 0)) { orc_hash(m, len, o); hex("h", o, 32); } else { orc_encrypt(I, k, n, ad, adlen, m, len, o); hex("c", o, len + 16); } }
  else { printf("unknown op\n"); return 3; }
  printf("DONE\n"); return 0;
}
