// Symbolic executor for 32-bit ARM / Thumb-2 machine code: the linked ELF image supplies memory,
// the disassembler's text supplies the instructions.
#include "machine.h"
#include <fstream>
#include <sstream>
#include <elf.h>
namespace {
enum Op { O_NONE, O_DP, O_MOV, O_SHIFT, O_CMP, O_LDST, O_LDRD, O_LDM, O_B, O_BX, O_CBZ, O_MUL, O_LMUL, O_DIV, O_EXT, O_BF, O_REV, O_CLZ, O_NOP, O_MOVT, O_TB, O_RRX, O_BAD };
enum { CEQ, CNE, CCS, CCC, CMI, CPL, CVS, CVC, CHI, CLS, CGE, CLT, CGT, CLE, CAL };
struct Opnd2 { bool imm = false; u32 c = 0; int r = -1; int st = 0; /*0 lsl 1 lsr 2 asr 3 ror 4 rrx*/ int amt = 0; int rs = -1; };
struct AI {
  Op op = O_NONE; std::string base, text, where; int cond = CAL; bool S = false, thumb = false; u32 addr = 0, next = 0, enc = 0; bool enc32 = false;
  int rd = -1, rn = -1, ra = -1, rm = -1; Opnd2 o2; u32 imm = 0, imm2 = 0; bool rotc = false;
  int width = 0; bool sgn = false, load = false, wb = false, pre = true, sub = false; std::vector<int> regs; u32 target = 0; int rt2 = -1;
};
struct Mn { std::string base; bool s; int cond; };
const char *CN[] = {"eq","ne","cs","cc","mi","pl","vs","vc","hi","ls","ge","lt","gt","le",""};
std::map<std::string, Mn> mtab;
void buildTab() {
  const char *sb[] = {"and","eor","orr","orn","bic","add","sub","rsb","adc","sbc","rsc","mov","mvn","lsl","lsr","asr","ror","rrx","mul","mla","umull","smull","umlal","smlal","neg"};
  const char *nb[] = {"cmp","cmn","tst","teq","ldr","ldrb","ldrh","ldrsb","ldrsh","str","strb","strh","ldrd","strd","ldm","ldmia","ldmdb","ldmib","ldmda","ldmfd","ldmea","stm","stmia","stmdb","stmib","stmda","stmfd","stmea","push","pop","b","bl","bx","blx","mls","umaal","udiv","sdiv","uxtb","uxth","sxtb","sxth","uxtab","uxtah","sxtab","sxtah","ubfx","sbfx","bfi","bfc","rev","rev16","revsh","rbit","clz","nop","movw","movt","addw","subw","pld","tbb","tbh","adr","dmb","dsb","isb"};
  for (auto b : sb) for (int s = 0; s < 2; s++) for (int c = 0; c < 15; c++) mtab[std::string(b) + (s ? "s" : "") + CN[c]] = {b, (bool)s, c};
  for (auto b : nb) for (int c = 0; c < 15; c++) { std::string k = std::string(b) + CN[c]; if (!mtab.count(k) || c == 14) mtab[k] = {b, false, c}; }
  for (int c = 0; c < 15; c++) { for (auto p : {std::make_pair("hs", CCS), std::make_pair("lo", CCC)}) (void)p; }
  mtab["cbz"] = {"cbz", false, CAL}; mtab["cbnz"] = {"cbnz", false, CAL};
  for (auto b : sb) for (int s = 0; s < 2; s++) { mtab[std::string(b) + (s ? "s" : "") + "hs"] = {b, (bool)s, CCS}; mtab[std::string(b) + (s ? "s" : "") + "lo"] = {b, (bool)s, CCC}; }
}
int regno(std::string s) {
  if (s.size() >= 2 && s[0] == 'r' && isdigit(s[1])) return atoi(s.c_str() + 1);
  static const std::map<std::string, int> m = {{"sl",10},{"fp",11},{"ip",12},{"sp",13},{"lr",14},{"pc",15},{"sb",9}};
  auto i = m.find(s); return i == m.end() ? -1 : i->second;
}
std::string trim(const std::string &s) { size_t a = 0, b = s.size(); while (a < b && isspace(s[a])) a++; while (b > a && isspace(s[b - 1])) b--; return s.substr(a, b - a); }
std::vector<std::string> splitops(const std::string &s) { std::vector<std::string> r; std::string t; int d = 0; for (char c : s) { if (c == '[' || c == '{') d++; if (c == ']' || c == '}') d--; if (c == ',' && !d) { r.push_back(trim(t)); t.clear(); } else t += c; } t = trim(t); if (!t.empty()) r.push_back(t); return r; }
u32 immv(const std::string &s) { return (u32)strtoll(s.c_str() + (s[0] == '#'), nullptr, 0); }
}
void ArmCtx::cv() {
  if (!cl) return; cl = false; Val x = cx, y = cy; cx = cy = Val();
  if (x.k && y.k && cc < 2) { u64 t = (x.c & 0xffffffffu) + (y.c & 0xffffffffu) + cc; u32 r = t; C = t >> 32 ? T1 : F0; V = ((~(x.c ^ y.c) & (x.c ^ r)) >> 31) & 1; return; }
  Lit c, o; addc(vbits(x), vbits(y), cc, &c, &o); if (cc == T1) c = inv(vult(x, vnot(y))); C = c; V = o;
}
struct ArmExec : Exec {
  std::vector<u8> img; std::map<u32, AI> ins; std::map<std::string, u32> fsym; std::map<u32, std::string> faddr; std::vector<Obj> objs; std::vector<std::pair<u32, std::string>> sorted;
  std::vector<AI *> fast; u32 lo = 0xffffffff, hi = 0;
  u32 ptrw() override { return 32; }
  u64 inputBase(int i) override { return 0x10000000u + (u64)i * 0x400000u; }
  static const u32 MAGIC = 0xfffffff0u; static const u32 STKTOP = 0x7f000000u, STKSZ = 0x20000u;
  bool shiftSpec(const std::string &s, Opnd2 &o) { // "lsl #3" | "ror r2" | "rrx"
    if (s == "rrx") { o.st = 4; return true; }
    std::string k = s.substr(0, 3), a = trim(s.substr(3)); static const std::map<std::string, int> m = {{"lsl",0},{"lsr",1},{"asr",2},{"ror",3}}; auto i = m.find(k); if (i == m.end()) return false; o.st = i->second;
    if (a[0] == '#') o.amt = immv(a); else { o.rs = regno(a); if (o.rs < 0) return false; } return true;
  }
  bool operand(const std::vector<std::string> &v, size_t i, Opnd2 &o) {
    if (i >= v.size()) return false;
    if (v[i][0] == '#') { o.imm = true; o.c = immv(v[i]); return true; }
    o.r = regno(v[i]); if (o.r < 0) return false; if (i + 1 < v.size()) return shiftSpec(v[i + 1], o); return true;
  }
  bool address(const std::vector<std::string> &v, size_t i, AI &a) { // [rn], [rn, #x]!, [rn, rm, lsl #k], [rn], #x
    if (i >= v.size() || v[i][0] != '[') return false; std::string s = v[i]; if (s.back() == '!') { a.wb = true; s.pop_back(); s = trim(s); }
    s = s.substr(1, s.size() - 2); auto w = splitops(s); a.rn = regno(w[0]); if (a.rn < 0) return false; a.pre = true; a.o2 = Opnd2(); a.o2.imm = true; a.o2.c = 0;
    auto off = [&](std::vector<std::string> q) { a.o2 = Opnd2(); if (q[0][0] == '#') { a.o2.imm = true; a.o2.c = immv(q[0]); return true; } std::string r = q[0]; if (r[0] == '-') { a.sub = true; r = r.substr(1); } a.o2.r = regno(r); if (a.o2.r < 0) return false; if (q.size() > 1) return shiftSpec(q[1], a.o2); return true; };
    if (w.size() > 1) { if (!off(std::vector<std::string>(w.begin() + 1, w.end()))) return false; }
    else if (i + 1 < v.size()) { a.pre = false; a.wb = true; if (!off(std::vector<std::string>(v.begin() + i + 1, v.end()))) return false; }
    return true;
  }
  void decode(AI &a, std::string mn, std::string ops) {
    a.op = O_BAD; if (mn.size() > 2 && (mn.substr(mn.size() - 2) == ".w" || mn.substr(mn.size() - 2) == ".n")) mn = mn.substr(0, mn.size() - 2);
    if (mn[0] == 'i' && mn[1] == 't' && mn.find_first_not_of("ite") == std::string::npos) { a.op = O_NOP; return; }
    auto it = mtab.find(mn); if (it == mtab.end()) return; a.base = it->second.base; a.S = it->second.s; a.cond = it->second.cond; const std::string &b = a.base;
    auto v = splitops(ops); auto R = [&](size_t i) { return i < v.size() ? regno(v[i]) : -1; };
    auto tgt = [&](const std::string &s) { return (u32)strtoul(s.c_str(), nullptr, 16); };
    if (b == "nop" || b == "pld" || b == "dmb" || b == "dsb" || b == "isb") { a.op = O_NOP; return; }
    if (b == "b" || b == "bl" || (b == "blx" && R(0) < 0)) { a.op = O_B; a.target = tgt(v[0]) & ~1u; a.imm = b != "b"; return; }
    if (b == "bx" || b == "blx") { a.op = O_BX; a.rm = R(0); a.imm = b == "blx"; return; }
    if (b == "cbz" || b == "cbnz") { a.op = O_CBZ; a.rn = R(0); a.target = tgt(v[1]); a.imm = b == "cbnz"; return; }
    if (b == "and" || b == "eor" || b == "orr" || b == "orn" || b == "bic" || b == "add" || b == "sub" || b == "rsb" || b == "adc" || b == "sbc" || b == "rsc" || b == "addw" || b == "subw") {
      if (b == "addw") a.base = "add"; if (b == "subw") a.base = "sub"; a.rd = R(0); if (a.rd < 0) return;
      size_t k; if (v.size() >= 3 && regno(v[1]) >= 0 && (v[2][0] == '#' || regno(v[2]) >= 0)) { a.rn = R(1); k = 2; } else { a.rn = a.rd; k = 1; }
      if (!operand(v, k, a.o2)) return; a.op = O_DP; rotflag(a); return; }
    if (b == "neg") { a.rd = R(0); a.base = "rsb"; a.rn = R(1); a.o2.imm = true; a.o2.c = 0; a.op = a.rd >= 0 && a.rn >= 0 ? O_DP : O_BAD; return; }
    if (b == "mov" || b == "mvn" || b == "movw") { if (b == "movw") a.base = "mov"; a.rd = R(0); if (a.rd < 0 || !operand(v, 1, a.o2)) return; a.op = O_MOV; rotflag(a); return; }
    if (b == "movt") { a.rd = R(0); a.imm = immv(v[1]); a.op = O_MOVT; return; }
    if (b == "lsl" || b == "lsr" || b == "asr" || b == "ror") {
      a.rd = R(0); int src; std::string am; if (v.size() == 2) { src = a.rd; am = v[1]; if (am[0] != '#' && regno(am) < 0) return; } else { src = R(1); am = v[2]; }
      a.o2.r = src; if (!shiftSpec(b + " " + am, a.o2)) return; a.base = "mov"; a.op = a.rd < 0 || src < 0 ? O_BAD : O_MOV; return; }
    if (b == "rrx") { a.rd = R(0); a.o2.r = R(1); a.o2.st = 4; a.base = "mov"; a.op = O_MOV; return; }
    if (b == "cmp" || b == "cmn" || b == "tst" || b == "teq") { a.rn = R(0); if (a.rn < 0 || !operand(v, 1, a.o2)) return; a.op = O_CMP; a.S = true; rotflag(a); return; }
    if (b == "ldrd" || b == "strd") { a.load = b == "ldrd"; a.rd = R(0); size_t k = 1; if (R(1) >= 0) { a.rt2 = R(1); k = 2; } else a.rt2 = a.rd + 1; if (a.rd < 0 || !address(v, k, a)) return; a.op = O_LDRD; return; }
    if (b.rfind("ldm", 0) == 0 || b.rfind("stm", 0) == 0 || b == "push" || b == "pop") {
      a.load = b[0] == 'l' || b == "pop"; std::string l; std::string mode = b.size() > 3 && b != "push" ? b.substr(3) : "ia";
      if (b == "push") { mode = "db"; a.rn = 13; a.wb = true; l = v[0]; } else if (b == "pop") { mode = "ia"; a.rn = 13; a.wb = true; l = v[0]; }
      else { std::string r = v[0]; if (r.back() == '!') { a.wb = true; r.pop_back(); } a.rn = regno(trim(r)); l = v[1]; if (mode == "fd") mode = a.load ? "ia" : "db"; if (mode == "ea") mode = a.load ? "db" : "ia"; }
      if (a.rn < 0 || l.size() < 2 || l[0] != '{' || l.back() != '}') return; for (auto &x : splitops(l.substr(1, l.size() - 2))) { size_t d = x.find('-'); if (d != std::string::npos) { for (int q = regno(trim(x.substr(0, d))); q <= regno(trim(x.substr(d + 1))); q++) a.regs.push_back(q); } else a.regs.push_back(regno(x)); }
      for (int r : a.regs) if (r < 0) return; std::sort(a.regs.begin(), a.regs.end()); a.imm = mode == "ia" ? 0 : mode == "db" ? 1 : mode == "ib" ? 2 : 3; a.op = O_LDM; return; }
    if (b.rfind("ldr", 0) == 0 || b.rfind("str", 0) == 0) {
      a.load = b[0] == 'l'; std::string w = b.substr(3); a.width = w == "" ? 4 : w.back() == 'b' ? 1 : 2; a.sgn = w[0] == 's'; a.rd = R(0); if (a.rd < 0 || !address(v, 1, a)) return; a.op = O_LDST; return; }
    if (b == "mul" || b == "mla" || b == "mls") { a.rd = R(0); a.rn = R(1); if (v.size() == 2) { a.rm = a.rn; a.rn = a.rd; } else a.rm = R(2); a.ra = b == "mul" ? -1 : R(3); a.op = a.rd < 0 || a.rn < 0 || a.rm < 0 ? O_BAD : O_MUL; return; }
    if (b == "umull" || b == "smull" || b == "umlal" || b == "smlal" || b == "umaal") { a.rd = R(0); a.ra = R(1); a.rn = R(2); a.rm = R(3); a.op = O_LMUL; return; }
    if (b == "udiv" || b == "sdiv") { a.rd = R(0); a.rn = R(1); a.rm = R(2); if (v.size() == 2) { a.rm = a.rn; a.rn = a.rd; } a.op = O_DIV; return; }
    if (b.rfind("uxt", 0) == 0 || b.rfind("sxt", 0) == 0) {
      a.sgn = b[0] == 's'; bool acc = b[3] == 'a'; a.width = b.back() == 'b' ? 8 : 16; a.rd = R(0); size_t k = 1; if (acc) { a.rn = R(1); k = 2; } a.rm = R(k); if (a.rm < 0) { if (v.size() == 1) a.rm = a.rd; else return; } a.imm = 0; if (v.size() > k + 1) { Opnd2 o; if (!shiftSpec(v[k + 1], o)) return; a.imm = o.amt; } a.op = O_EXT; return; }
    if (b == "ubfx" || b == "sbfx" || b == "bfi") { a.rd = R(0); a.rn = R(1); a.imm = immv(v[2]); a.imm2 = immv(v[3]); a.op = O_BF; return; }
    if (b == "bfc") { a.rd = R(0); a.imm = immv(v[1]); a.imm2 = immv(v[2]); a.op = O_BF; return; }
    if (b == "rev" || b == "rev16" || b == "revsh" || b == "rbit") { a.rd = R(0); a.rm = R(1); a.op = O_REV; return; }
    if (b == "clz") { a.rd = R(0); a.rm = R(1); a.op = O_CLZ; return; }
    if (b == "tbb" || b == "tbh") { auto w = splitops(v[0].substr(1, v[0].size() - 2)); a.rn = regno(w[0]); a.rm = regno(w[1]); a.width = b == "tbb" ? 1 : 2; a.op = O_TB; return; }
    if (b == "adr") { a.rd = R(0); a.op = O_MOV; a.base = "mov"; a.o2.imm = true; a.o2.c = tgt(v[1]); return; }
  }
  void rotflag(AI &a) { // does a modified immediate set the carry to its top bit?
    a.rotc = false; if (!a.o2.imm) return;
    if (!a.thumb) a.rotc = (a.enc >> 8) & 15; else if (a.enc32) { u32 h1 = a.enc >> 16, h2 = a.enc & 0xffff; u32 c = ((h1 >> 10) & 1) << 4 | ((h2 >> 12) & 7) << 1 | ((h2 >> 7) & 1); a.rotc = c >= 8; }
  }
  ArmExec(const std::string &elf, const std::string &dis) {
    buildTab();
    std::ifstream f(elf, std::ios::binary); img.assign(std::istreambuf_iterator<char>(f), {}); if (img.size() < sizeof(Elf32_Ehdr)) { fprintf(stderr, "cannot read %s\n", elf.c_str()); exit(3); }
    auto *eh = (Elf32_Ehdr *)img.data(); auto *sh = (Elf32_Shdr *)(img.data() + eh->e_shoff); const char *shs = (char *)img.data() + sh[eh->e_shstrndx].sh_offset;
    for (int i = 0; i < eh->e_shnum; i++) {
      if (sh[i].sh_type == SHT_SYMTAB) { auto *sy = (Elf32_Sym *)(img.data() + sh[i].sh_offset); const char *st = (char *)img.data() + sh[sh[i].sh_link].sh_offset; for (u32 k = 0; k < sh[i].sh_size / sizeof(Elf32_Sym); k++) { std::string n = st + sy[k].st_name; u32 ad = sy[k].st_value & ~1u; int ty = ELF32_ST_TYPE(sy[k].st_info); if (n.empty() || n[0] == '$' || sy[k].st_shndx == 0 || sy[k].st_shndx >= 0xff00) continue; if (ty == STT_FUNC || (ty == STT_NOTYPE && (sh[sy[k].st_shndx].sh_flags & SHF_EXECINSTR))) { if (ty == STT_FUNC || ELF32_ST_BIND(sy[k].st_info) == STB_GLOBAL) { fsym[n] = ad; faddr[ad] = n; } } } }
      if (!(sh[i].sh_flags & SHF_ALLOC) || !sh[i].sh_size) continue;
      Obj o; o.name = shs + sh[i].sh_name; o.base = sh[i].sh_addr; o.size = sh[i].sh_size; bool wr = sh[i].sh_flags & SHF_WRITE, ex = sh[i].sh_flags & SHF_EXECINSTR; o.writable = wr; o.cls = wr ? C_GLOBAL : ex ? C_CODE : C_CONST; o.d = std::make_shared<std::vector<Byte>>(o.size, cbyte(0)); if (sh[i].sh_type != SHT_NOBITS) for (u32 k = 0; k < o.size; k++) (*o.d)[k] = cbyte(img[sh[i].sh_offset + k]);
      objs.push_back(o);
    }
    for (auto &p : faddr) sorted.push_back(p);
    std::ifstream d(dis); std::string line; std::vector<AI> tmp;
    while (std::getline(d, line)) { // "   10200:\t2100      \tmovs\tr1, #0"
      size_t c = line.find(":\t"); if (c == std::string::npos || line[0] != ' ') continue; u32 ad = strtoul(line.c_str(), nullptr, 16); std::vector<std::string> p; std::stringstream ss(line.substr(c + 2)); std::string t; while (std::getline(ss, t, '\t')) p.push_back(t); if (p.size() < 2) continue;
      std::string hex = trim(p[0]); AI a; a.addr = ad; size_t sp = hex.find(' '); a.thumb = sp != std::string::npos || hex.size() == 4; a.enc32 = hex.size() > 4; a.enc = sp == std::string::npos ? strtoul(hex.c_str(), nullptr, 16) : strtoul((hex.substr(0, sp) + hex.substr(sp + 1)).c_str(), nullptr, 16); a.next = ad + (a.enc32 ? 4 : 2);
      std::string ops = p.size() > 2 ? p[2] : ""; for (char ch : {'@', ';', '<'}) { size_t q = ops.find(ch); if (q != std::string::npos) ops = ops.substr(0, q); } ops = trim(ops); std::string mn = trim(p[1]); a.text = mn + " " + ops;
      decode(a, mn, ops); auto u = std::upper_bound(sorted.begin(), sorted.end(), std::make_pair(ad, std::string("\x7f"))); if (u != sorted.begin()) { --u; char bf[16]; sprintf(bf, "+0x%x", ad - u->first); a.where = u->second + bf; } else a.where = "?";
      ins[ad] = a; lo = std::min(lo, ad); hi = std::max(hi, ad);
    }
    if (ins.empty()) { fprintf(stderr, "no instructions in %s\n", dis.c_str()); exit(3); }
    fast.assign((hi - lo) / 2 + 1, nullptr); for (auto &p : ins) fast[(p.first - lo) / 2] = &p.second;
  }
  bool hasFn(const std::string &n) override { return fsym.count(n); }
  void setup(State &s) override {
    for (auto &o : objs) { Obj x = o; s.mem.add(x); }
    Obj st; st.base = STKTOP - STKSZ; st.size = STKSZ; st.name = "stack"; st.cls = C_STACK; Byte u; u.fill(UNINIT); st.d = std::make_shared<std::vector<Byte>>(STKSZ, u); s.mem.add(st);
    for (int i = 0; i < 15; i++) s.arm.r[i] = freshReg(); s.arm.r[13] = Val(32, STKTOP); s.arm.r[15] = Val(32, 0);
  }
  Val freshReg() { std::vector<Lit> b(32); for (auto &l : b) { l = G.var("uninit"); W.uninitVars.push_back(nd(l)); } return Val(std::move(b)); }
  struct Args { std::vector<Val> st; };
  void start(State &s, const std::string &fn, const std::vector<Val> &args, int tag) override {
    s.armsave.push_back(s.arm); Frame f; f.boundary = true; f.tag = tag; f.sp = s.arm.r[13].c;
    // AAPCS
    std::vector<std::pair<u32, Val>> stk; u32 nsaa = 0; int nc = 0;
    std::vector<Val> regs(4);
    for (auto &a : args) {
      if (a.w == 64) { nc = (nc + 1) & ~1; if (nc <= 2) { regs[nc] = vextract(a, 0, 32); regs[nc + 1] = vextract(a, 32, 32); nc += 2; } else { nc = 4; nsaa = (nsaa + 7) & ~7u; stk.push_back({nsaa, a}); nsaa += 8; } }
      else { Val v = a.w == 32 ? a : a.w < 32 ? vzext(a, 32) : vtrunc(a, 32); if (nc < 4) regs[nc++] = v; else { stk.push_back({nsaa, v}); nsaa += 4; } }
    }
    u32 sp = ((u32)f.sp - 64 - nsaa) & ~7u; // lies below whatever the interrupted code uses
    if (s.armsave.size() == 1) sp = (STKTOP - nsaa) & ~7u;
    for (auto &p : stk) storec(s, sp + p.first, valToBytes(p.second), "arguments");
    for (int i = 0; i < 15; i++) s.arm.r[i] = freshReg(); for (int i = 0; i < 4; i++) if (regs[i].w) s.arm.r[i] = regs[i];
    s.arm.r[13] = Val(32, sp); s.arm.r[14] = Val(32, MAGIC | 1); s.arm.r[15] = Val(32, fsym.at(fn)); s.arm.zl = s.arm.cl = false; s.arm.N = G.var("flag"); s.arm.Z = G.var("flag"); s.arm.C = G.var("flag"); s.arm.V = G.var("flag"); for (Lit l : {s.arm.N, s.arm.Z, s.arm.C, s.arm.V}) W.uninitVars.push_back(nd(l));
    f.r.assign(s.arm.r, s.arm.r + 16); s.st.push_back(std::move(f)); s.done = false; W.funcs.insert(fn); setPref(s);
  }
  Lit cond(State &s, int c) {
    ArmCtx &A = s.arm; switch (c >> 1) { case 0: return A.z() ^ (c & 1); case 1: return A.c() ^ (c & 1); case 2: return A.N ^ (c & 1); case 3: return A.v() ^ (c & 1); case 4: return G.And(A.c(), inv(A.z())) ^ (c & 1); case 5: return inv(G.Xor(A.N, A.v())) ^ (c & 1); case 6: return G.And(inv(A.z()), inv(G.Xor(A.N, A.v()))) ^ (c & 1); } return T1; }
  Val reg(State &s, const AI &a, int r) { if (r == 15) return Val(32, a.thumb ? a.addr + 4 : a.addr + 8); return s.arm.r[r]; }
  // shifter operand with carry out
  Val shifter(State &s, const AI &a, const Opnd2 &o, Lit &c) {
    c = UNINIT; if (o.imm) { if (a.rotc) c = o.c >> 31; return Val(32, o.c); }
    Val v = reg(s, a, o.r); if (o.st == 4) { auto b = vbits(v); Lit out = b[0]; b.erase(b.begin()); b.push_back(s.arm.c()); c = out; return Val(std::move(b)); }
    if (o.rs < 0) { u32 n = o.amt; if (!n && (o.st == 0 || o.st == 3)) return v; if (!n) n = 32;
      if (o.st == 0) { c = n <= 32 ? v.bit(32 - n) : F0; return vshl(v, Val(32, n)); } if (o.st == 1) { c = v.bit(n - 1); return vlshr(v, Val(32, n)); } if (o.st == 2) { c = v.bit(n > 31 ? 31 : n - 1); return n >= 32 ? vsext(vextract(v, 31, 1), 32) : vashr(v, Val(32, n)); } c = v.bit((n - 1) & 31); return vrotr(v, Val(32, n)); }
    Val n = vzext(vtrunc(reg(s, a, o.rs), 8), 32);
    if (n.k) { u32 k = n.c; if (!k) return v; if (o.st == 3) { c = v.bit((k - 1) & 31); return vrotr(v, Val(32, k & 31)); } if (o.st == 2) { if (k >= 32) { c = v.bit(31); return vsext(vextract(v, 31, 1), 32); } c = v.bit(k - 1); return vashr(v, n); } if (k > 32) { c = F0; return Val(32, 0); } c = o.st == 0 ? v.bit(32 - k) : v.bit(k - 1); return k == 32 ? Val(32, 0) : o.st == 0 ? vshl(v, n) : vlshr(v, n); }
    if (a.S) { Lit cc = o.st == 2 ? v.bit(31) : F0; for (u32 k = 32; k >= 1; k--) { Lit bit = o.st == 0 ? v.bit(32 - k) : v.bit(k - 1); cc = G.Mux(veq(n, Val(32, k)), bit, cc); } if (o.st == 3) { cc = F0; for (u32 k = 0; k < 32; k++) cc = G.Mux(veq(vtrunc(n, 5), Val(5, k)), v.bit((k + 31) & 31), cc); } c = G.Mux(veq(n, Val(32, 0)), s.arm.c(), cc); }
    if (o.st == 3) return vrotr(v, vand(n, Val(32, 31))); return o.st == 0 ? vshl(v, n) : o.st == 1 ? vlshr(v, n) : vashr(v, n);
  }
  void nz(State &s, const Val &v, Lit g) { ArmCtx &A = s.arm; if (g == T1) { A.N = v.bit(31); A.zv = v; A.zl = true; return; } Lit z = A.z(); A.N = G.Mux(g, v.bit(31), A.N); A.Z = G.Mux(g, veq(v, Val(32, 0)), z); }
  void setcarry(State &s, Lit c, Lit g) { if (c == UNINIT) return; ArmCtx &A = s.arm; A.cv(); A.C = G.Mux(g, c, A.C); }
  void setcv(State &s, const Val &x, const Val &y, Lit cin, Lit g) { ArmCtx &A = s.arm; if (g == T1) { A.cx = x; A.cy = y; A.cc = cin; A.cl = true; return; } A.cv(); Lit c0 = A.C, v0 = A.V; A.cx = x; A.cy = y; A.cc = cin; A.cl = true; A.cv(); A.C = G.Mux(g, A.C, c0); A.V = G.Mux(g, A.V, v0); }
  Val addv(const Val &x, const Val &y, Lit cin) {
    if (cin == F0) return vadd(x, y);
    if (cin == T1) { Val ny = vnot(y); if (x.k && (x.c & 0xffffffffu) == 0 && false) return x; return vsub(x, ny); }
    Lit c, o; std::vector<Lit> sum = addc(vbits(x), vbits(y), cin, &c, &o); return Val(std::move(sum));
  }
  std::vector<State> run(State s0) override {
    std::vector<State> work, fin; work.push_back(std::move(s0));
    while (!work.empty()) {
      State s = std::move(work.back()); work.pop_back(); if (++W.paths > W.maxpaths) { W.fail("path limit"); break; }
      setPref(s); runPath(s, work); fin.push_back(std::move(s)); if (W.inconclusive && !W.symlen) break;
    }
    return fin;
  }
  void ret(State &s) { // return to the boundary
    Frame f = s.st.back(); s.st.pop_back(); Val v = s.arm.r[0]; s.rets[f.tag] = v; s.ret = v;
    for (int r : {4, 5, 6, 7, 8, 9, 10, 11, 13}) { Val &o = f.r[r]; if (veq(s.arm.r[r], o) != T1) { W.add("abi", "r" + std::to_string(r), "callee-saved register r" + std::to_string(r) + " is not restored", s, F0, "r" + std::to_string(r)); } }
    s.arm = s.armsave.back(); s.armsave.pop_back(); setPref(s); if (s.st.empty()) s.done = true;
  }
  void jumpTo(State &s, const Val &t, const AI &a) { u64 x; bool u; if (!resolve(s, t, x, u) || !u) { W.fail("computed jump at " + a.where); s.done = s.aborted = true; s.why = "computed jump"; return; } s.arm.r[15] = Val(32, x & ~1ull); }
  bool extcall(State &s, u32 pc) {
    auto it = faddr.find(pc); if (it == faddr.end()) return false; std::string n = it->second; auto A = [&](int i) -> Val & { return s.arm.r[i]; }; std::string w = n + " from " + whereOf(s.arm.r[14]);
    if (n.rfind("__aeabi_mem", 0) == 0) { while (n.size() && isdigit(n.back())) n.pop_back(); if (n == "__aeabi_memcpy") n = "memcpy"; else if (n == "__aeabi_memmove") n = "memmove"; else if (n == "__aeabi_memset") { std::swap(A(1), A(2)); n = "memset"; } else if (n == "__aeabi_memclr") { A(2) = A(1); A(1) = Val(32, 0); n = "memset"; } }
    bool done = true;
    if (n == "memcpy" || n == "memmove") copy(s, A(0), A(1), A(2), w);
    else if (n == "memset") fill(s, A(0), A(1), A(2), w);
    else if (n == "memcmp") {
      u64 x, y, l; bool u1, u2, u3; if (!resolve(s, A(0), x, u1) || !resolve(s, A(1), y, u2) || !resolve(s, A(2), l, u3) || !u1 || !u2 || !u3) { W.fail("memcmp arguments"); s.done = s.aborted = true; return true; }
      Bytes p = loadc(s, x, l, w), q = loadc(s, y, l, w); Val r(32, 0); for (int i = (int)l - 1; i >= 0; i--) { Val a = bytesToVal({p[i]}), b = bytesToVal({q[i]}); r = vite(veq(a, b), r, vite(vult(a, b), Val(32, 0xffffffff), Val(32, 1))); }
      if (W.ct && W.isSecret) { std::vector<Lit> l2; for (auto &b : p) l2.insert(l2.end(), b.begin(), b.end()); for (auto &b : q) l2.insert(l2.end(), b.begin(), b.end()); if (G.support_any(l2, W.isSecret, &W.publicNodes)) W.add("secret_branch", w, "memcmp on secret data (early exit)", s, Val(r).bit(0), "memcmp"); }
      s.arm.r[0] = r;
    } else if (n == "abort") { s.done = s.aborted = true; s.why = "abort"; return true; }
    else done = false;
    if (!done) return false; if (s.done) return true;
    for (int r : {1, 2, 3, 12}) s.arm.r[r] = freshReg(); AI d; d.where = w; jumpTo(s, s.arm.r[14], d); return true;
  }
  std::string whereOf(const Val &v) { if (!v.k) return "?"; u32 ad = v.c & ~1u; auto u = std::upper_bound(sorted.begin(), sorted.end(), std::make_pair(ad, std::string("\x7f"))); if (u == sorted.begin()) return "?"; --u; char bf[16]; sprintf(bf, "+0x%x", ad - u->first); return u->second + bf; }
  void setReg(State &s, int r, const Val &v, Lit g, const AI &a) {
    if (r == 15) { if (g != T1) { W.fail("conditional write of pc at " + a.where); s.done = s.aborted = true; return; } jumpTo(s, v, a); return; }
    s.arm.r[r] = g == T1 ? v : vite(g, v, s.arm.r[r]); }
  bool touchesGlobal(State &s, const AI &a) {
    if (a.op != O_LDST && a.op != O_LDRD && a.op != O_LDM) return false; if (a.rn == 13 || a.rn == 15) return false; Val b = reg(s, a, a.rn); if (!b.k) return false; Val ad = b; if (a.op != O_LDM && a.pre) { Lit c; Val o = shifter(s, a, a.o2, c); ad = a.sub ? vsub(b, o) : vadd(b, o); } if (!ad.k) return false; int k = s.mem.find(ad.c); return k >= 0 && s.mem.o[k].cls == C_GLOBAL; }
  int depth(State &s) override { return s.shadow.size(); }
  void pushShadow(State &s, const AI &a) { if (!W.symlen) return; std::array<Val, 10> e; e[0] = Val(32, a.next); e[1] = s.arm.r[13]; for (int i = 0; i < 8; i++) e[2 + i] = s.arm.r[4 + i]; s.shadow.push_back(e); }
  void leave(State &s) { s.unwind = false; auto e = s.shadow[0]; s.shadow.clear(); for (int i = 0; i < 4; i++) s.arm.r[i] = freshReg(); for (int i = 0; i < 8; i++) s.arm.r[4 + i] = e[2 + i]; s.arm.r[13] = e[1]; s.arm.r[15] = e[0]; }
  void runPath(State &s, std::vector<State> &work) {
    while (!s.done) {
      if (s.unwind) { leave(s); continue; }
      while (!s.shadow.empty() && s.shadow.back()[0].c == s.arm.r[15].c && s.arm.r[13].k && s.arm.r[13].c >= s.shadow.back()[1].c) s.shadow.pop_back();
      u32 pc = s.arm.r[15].c; if (pc == (MAGIC & ~1u)) { ret(s); continue; }
      if (W.symlen && faddr.count(pc)) { const std::string &n = faddr[pc]; bool cp = n == "memcpy" || n == "memmove" || n.find("aeabi_memcpy") != std::string::npos, st = n == "memset"; if (cp || st) { auto &r = s.arm.r; if (!split(s, r[2], true, work, n) || !split(s, r[0], false, work, n) || (cp && !split(s, r[1], false, work, n))) continue; } }
      if (faddr.count(pc)) { auto it = faddr.find(pc); if (extcall(s, pc)) continue; W.funcs.insert(it->second); }
      AI *ap = pc >= lo && pc <= hi ? fast[(pc - lo) / 2] : nullptr;
      if (!ap) { char b[32]; sprintf(b, "0x%x", pc); W.add("wildjump", b, "jump to address without code", s); s.done = s.aborted = true; s.why = std::string("jump to ") + b; return; }
      AI &a = *ap;
      if (++s.steps > W.maxsteps) { s.done = s.cut = true; s.why = "step limit"; W.add("nonterm", a.where, "step limit reached", s); return; }
      if ((s.steps & 0xfff) == 0 && W.deadline > 0 && now() > W.deadline) { W.fail("time limit"); s.done = s.cut = true; return; }
      if (W.onGlobalAccess && !s.preempted && touchesGlobal(s, a)) { size_t d = s.st.size(); if (W.onGlobalAccess(s)) { if (s.st.size() != d) continue; } }
      Lit g = a.cond == CAL ? T1 : cond(s, a.cond);
      if (g == F0) { s.arm.r[15] = Val(32, a.next); continue; }
      if (a.op == O_B && !a.imm) {
        State other; int d = branch(s, g, work, a.where, &other); if (d < 0) { s.done = s.aborted = true; s.why = "infeasible"; return; }
        if (d == 2) { other.arm.r[15] = Val(32, a.next); work.push_back(std::move(other)); s.arm.r[15] = Val(32, a.target); } else s.arm.r[15] = Val(32, d ? a.target : a.next);
        continue;
      }
      bool mem = a.op == O_LDST || a.op == O_LDRD || a.op == O_LDM || a.op == O_B || a.op == O_BX || a.op == O_DIV || a.op == O_TB || (a.rd == 15);
      if (g != T1 && mem) { // conditional memory access or jump: decide the condition
        State other; int d = branch(s, g, work, a.where, &other); if (d < 0) { s.done = s.aborted = true; s.why = "infeasible"; return; }
        if (d == 2) { other.arm.r[15] = Val(32, a.next); work.push_back(std::move(other)); } else if (!d) { s.arm.r[15] = Val(32, a.next); continue; }
        g = T1;
      }
      if (W.symlen && a.op == O_LDST) { Val ad = reg(s, a, a.rn); if (a.pre) { Lit c; Val o = shifter(s, a, a.o2, c); ad = a.sub ? vsub(ad, o) : vadd(ad, o); } if (!split(s, ad, false, work, a.where)) continue; }
      s.arm.r[15] = Val(32, a.next);
      exec(s, a, g, work);
    }
  }
  void exec(State &s, AI &a, Lit g, std::vector<State> &work) {
    switch (a.op) {
      case O_NOP: return;
      case O_B: pushShadow(s, a); s.arm.r[14] = Val(32, a.next | (a.thumb ? 1 : 0)); s.arm.r[15] = Val(32, a.target); return;
      case O_BX: { Val t = reg(s, a, a.rm); if (a.imm) { pushShadow(s, a); s.arm.r[14] = Val(32, a.next | (a.thumb ? 1 : 0)); } jumpTo(s, t, a); return; }
      case O_CBZ: {
        Lit l = veq(s.arm.r[a.rn], Val(32, 0)) ^ (a.imm ? 1 : 0); State other; int d = branch(s, l, work, a.where, &other); if (d < 0) { s.done = s.aborted = true; s.why = "infeasible"; return; }
        if (d == 2) { other.arm.r[15] = Val(32, a.next); work.push_back(std::move(other)); } if (d) s.arm.r[15] = Val(32, a.target); return; }
      case O_MOV: { Lit c; Val v = shifter(s, a, a.o2, c); if (a.base == "mvn") v = vnot(v); if (a.S) { nz(s, v, g); setcarry(s, c, g); } setReg(s, a.rd, v, g, a); return; }
      case O_MOVT: { Val v = vconcat(vtrunc(s.arm.r[a.rd], 16), Val(16, a.imm)); setReg(s, a.rd, v, g, a); return; }
      case O_DP: case O_CMP: {
        Lit c; Val y = shifter(s, a, a.o2, c), x = reg(s, a, a.rn), r; const std::string &b = a.base; bool logical = false;
        if (a.rn == 15 && a.thumb) x = Val(32, x.c & ~3ull);
        Val p, q; Lit cin = F0;
        if (b == "and" || b == "tst") r = vand(x, y), logical = true; else if (b == "eor" || b == "teq") r = vxor(x, y), logical = true; else if (b == "orr") r = vor(x, y), logical = true; else if (b == "orn") r = vor(x, vnot(y)), logical = true; else if (b == "bic") r = vand(x, vnot(y)), logical = true;
        else if (b == "add" || b == "cmn") p = x, q = y; else if (b == "sub" || b == "cmp") p = x, q = vnot(y), cin = T1; else if (b == "rsb") p = y, q = vnot(x), cin = T1; else if (b == "adc") p = x, q = y, cin = s.arm.c(); else if (b == "sbc") p = x, q = vnot(y), cin = s.arm.c(); else p = y, q = vnot(x), cin = s.arm.c();
        if (!logical) r = addv(p, q, cin);
        if (a.S) { nz(s, r, g); if (logical) setcarry(s, c, g); else setcv(s, p, q, cin, g); }
        if (a.op == O_DP) setReg(s, a.rd, r, g, a); return; }
      case O_LDST: {
        Lit c; Val b = reg(s, a, a.rn); if (a.rn == 15 && b.k) b = Val(32, b.c & ~3ull); Val o = shifter(s, a, a.o2, c), ad = a.sub ? vsub(b, o) : vadd(b, o); Val at = a.pre ? ad : b; Val v; 
        if (a.load) { v = load(s, at, a.width, a.where); if (s.done) return; v = a.sgn ? vsext(v, 32) : vzext(v, 32); } else { store(s, at, vtrunc(reg(s, a, a.rd), a.width * 8), a.where); if (s.done) return; }
        if (a.wb) s.arm.r[a.rn] = ad; if (a.load) setReg(s, a.rd, v, T1, a); return; }
      case O_LDRD: {
        Lit c; Val b = reg(s, a, a.rn); if (a.rn == 15 && b.k) b = Val(32, b.c & ~3ull); Val o = shifter(s, a, a.o2, c), ad = a.sub ? vsub(b, o) : vadd(b, o); Val at = a.pre ? ad : b;
        if (a.load) { Val v = load(s, at, 8, a.where); if (s.done) return; if (a.wb) s.arm.r[a.rn] = ad; s.arm.r[a.rd] = vextract(v, 0, 32); s.arm.r[a.rt2] = vextract(v, 32, 32); }
        else { store(s, at, vconcat(s.arm.r[a.rd], s.arm.r[a.rt2]), a.where); if (a.wb) s.arm.r[a.rn] = ad; } return; }
      case O_LDM: {
        Val b = s.arm.r[a.rn]; u32 n = a.regs.size(); Val st = a.imm == 0 ? b : a.imm == 1 ? vsub(b, Val(32, 4 * n)) : a.imm == 2 ? vadd(b, Val(32, 4)) : vsub(b, Val(32, 4 * n - 4)); Val nb = a.imm == 0 || a.imm == 2 ? vadd(b, Val(32, 4 * n)) : vsub(b, Val(32, 4 * n));
        std::vector<Val> v(n); if (a.load) { for (u32 i = 0; i < n; i++) { v[i] = load(s, vadd(st, Val(32, 4 * i)), 4, a.where); if (s.done) return; } bool inl = false; for (int r : a.regs) inl |= r == a.rn; if (a.wb && !inl) s.arm.r[a.rn] = nb; for (u32 i = 0; i < n; i++) setReg(s, a.regs[i], v[i], T1, a); }
        else { for (u32 i = 0; i < n; i++) { store(s, vadd(st, Val(32, 4 * i)), reg(s, a, a.regs[i]), a.where); if (s.done) return; } if (a.wb) s.arm.r[a.rn] = nb; } return; }
      case O_MUL: { Val r = vmul(s.arm.r[a.rn], s.arm.r[a.rm]); if (a.base == "mla") r = vadd(r, s.arm.r[a.ra]); if (a.base == "mls") r = vsub(s.arm.r[a.ra], r); if (a.S) nz(s, r, g); setReg(s, a.rd, r, g, a); return; }
      case O_LMUL: { bool sg = a.base[0] == 's'; Val x = sg ? vsext(s.arm.r[a.rn], 64) : vzext(s.arm.r[a.rn], 64), y = sg ? vsext(s.arm.r[a.rm], 64) : vzext(s.arm.r[a.rm], 64); Val r = vmul(x, y); if (a.base.substr(1) == "mlal") r = vadd(r, vconcat(s.arm.r[a.rd], s.arm.r[a.ra])); if (a.base == "umaal") r = vadd(vadd(r, vzext(s.arm.r[a.rd], 64)), vzext(s.arm.r[a.ra], 64)); setReg(s, a.rd, vextract(r, 0, 32), g, a); setReg(s, a.ra, vextract(r, 32, 32), g, a); return; }
      case O_DIV: {
        Val x = s.arm.r[a.rn], y = s.arm.r[a.rm], q, r; if (W.ct && W.isSecret) { auto l = vbits(x), l2 = vbits(y); l.insert(l.end(), l2.begin(), l2.end()); if (G.support_any(l, W.isSecret, &W.publicNodes)) W.add("secret_div", a.where, "variable-time division on secret data", s, F0, "", l); }
        if (a.base == "sdiv") { W.fail("sdiv at " + a.where); s.done = s.aborted = true; return; } if (!vudivrem(x, y, q, r)) q = Val(32, 0); setReg(s, a.rd, q, T1, a); return; }
      case O_EXT: { Val v = vrotr(s.arm.r[a.rm], Val(32, a.imm)); v = vtrunc(v, a.width); v = a.sgn ? vsext(v, 32) : vzext(v, 32); if (a.rn >= 0) v = vadd(s.arm.r[a.rn], v); setReg(s, a.rd, v, g, a); return; }
      case O_BF: {
        Val r; if (a.base == "ubfx" || a.base == "sbfx") { r = vextract(s.arm.r[a.rn], a.imm, a.imm2); r = a.base[0] == 's' ? vsext(r, 32) : vzext(r, 32); }
        else { auto b = vbits(s.arm.r[a.rd]); for (u32 i = 0; i < a.imm2; i++) b[a.imm + i] = a.base == "bfc" ? F0 : s.arm.r[a.rn].bit(i); r = Val(std::move(b)); } setReg(s, a.rd, r, g, a); return; }
      case O_REV: { Val x = s.arm.r[a.rm]; std::vector<Lit> r(32); for (int i = 0; i < 32; i++) { int j; if (a.base == "rbit") j = 31 - i; else if (a.base == "rev") j = (3 - i / 8) * 8 + i % 8; else j = (i / 16) * 16 + (1 - (i / 8) % 2) * 8 + i % 8; r[i] = x.bit(j); } if (a.base == "revsh") for (int i = 16; i < 32; i++) r[i] = r[15]; setReg(s, a.rd, Val(std::move(r)), g, a); return; }
      case O_CLZ: { Val x = s.arm.r[a.rm], r(32, 32); for (int i = 0; i < 32; i++) r = vite(x.bit(i), Val(32, 31 - i), r); setReg(s, a.rd, r, g, a); return; }
      case O_TB: { // table branch: the table lies in the code
        Val ix = s.arm.r[a.rm]; u64 x; bool u; if (a.rn != 15 || !resolve(s, ix, x, u) || !u) { W.fail("table branch at " + a.where); s.done = s.aborted = true; return; } Val off = load(s, Val(32, a.addr + 4 + x * a.width), a.width, a.where); s.arm.r[15] = vadd(Val(32, a.addr + 4), Val(32, off.c * 2)); return; }
      default: W.fail("unsupported instruction " + a.text + " at " + a.where); s.done = s.aborted = true; s.why = "unsupported instruction"; return;
    }
  }
};
Exec *makeArm(const std::string &elf, const std::string &dis) { return new ArmExec(elf, dis); }
