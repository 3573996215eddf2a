"""What each check asks the engine: per property the tasks (sizes), the obligations and the options."""
import random

TIMEOUT = {"quick": 400, "thorough": 2400}
WALL = {"quick": 560, "thorough": 7200}
RATE = {"a128a": 8, "a128": 8, "k128a": 18, "k128": 18}
ALL_WANT = ["out", "abort", "wildjump"]
ASSUME = [
    "clang 18's translation of the C code to LLVM IR (the engine executes the IR before optimisation); for ARM code the assembler, linker and disassembler of the cross toolchain (the engine executes the linked machine code gcc -O3 produced)",
    "the executor's semantics of IR and ARM instructions, tested by replaying on the compiled code and by the known-answer files through the oracle",
    "lengths are those listed under bounds; contents of key, nonce, associated data, message, ciphertext and tag are unconstrained symbolic bits",
    "memcmp of the C library is modelled as the byte loop of embedded C libraries; memcpy, memset and memmove by their definition",
    "on ARM, buffers are 8-byte aligned and code is compiled without stack protector; on x86 alignment is covered by the misaligned runs of C08",
    "sub-terms merged by the engine are proved equal by z3 (lemmas); the MAC state before the final key schedule is replaced by free bits once it has been proved equal to the specification's",
]


def x86(v):
    return v.target == "x86"


def arm(v):
    return v.target.startswith("arm")


def avx(v):
    return v.target == "avx"


def diag(n, a, b, hi):
    """n pairs covering every length below hi once in each position"""
    return [(i % hi, (i * a + b) % hi) for i in range(n)]


def uniq(l):
    return list(dict.fromkeys(l))


def enc_pairs(tier, inst, seed):
    r = random.Random(seed * 7919 + RATE[inst])
    p = [(0, 0), (19, 23)] + diag(41, 11, 5, 41) + [(r.randrange(0, 100), r.randrange(0, 100)) for _ in range(3)] + [(72, 144), (144, 72), (64, 96), (257, 33), (33, 257)]
    if tier == "thorough":
        b = 18 if RATE[inst] == 8 else 38
        p += [(5, 1030), (1030, 5)] + [(a, m) for a in range(b) for m in range(b)] + diag(301, 37, 11, 301) + [(5, 2100), (2100, 5), (4100, 3), (3, 4100), (513, 1027), (1024, 1024), (65, 8193), (8193, 65)]
    return uniq(p)


def dec_pairs(tier, inst, seed):
    R = RATE[inst]
    p = [(0, 0), (3, 5), (R, R), (11, 2 * R + 3), (R + 1, 1), (2 * R, 40)]
    if tier == "thorough":
        r = random.Random(seed * 104729 + R)
        p += diag(49, 11, 5, 49) + [(r.randrange(0, 200), r.randrange(0, 200)) for _ in range(20)] + [(5, 1030), (1030, 5), (300, 300)]
    return uniq(p)


def hash_lens(tier, seed):
    p = [0, 1, 5, 8, 13, 16] + list(range(2, 137)) + [255, 256, 257, 264, 511, 512, 1024, 1030, 2055, 4099]
    if tier == "thorough":
        p += list(range(41, 300)) + [513, 2049, 4096, 8193, 10007]
    return uniq(p)


def long_tasks(kind, tier, seed):
    """long inputs of which key, nonce and all but the last 24 bytes are constants"""
    r = random.Random(seed * 31337)
    n = [65541, 4096 + r.randrange(5, 100)] + ([65536, 131072 + 5, r.randrange(9000, 60000)] if tier == "thorough" else [])
    if kind == "hash":
        return [f"fhash,{x}" for x in n]
    x = 0 if kind in ("enc", "round") else 16
    mid = [f"f{kind},{a},{m + x}" for a, m in ([(41 + i, 41 + (i * 7 + 50) % 100) for i in range(100)] if tier == "thorough" else [(64 + (i * 23 + 11) % 64, 64 + i) for i in range(64)]) + [(5, 1030), (1030, 5), (3, 2055), (2055, 3), (256, 512), (512, 256), (1024, 144), (144, 1024), (180, 2048), (2048, 180), (4096, 17), (17, 4096), (300, 300)]] if kind == "enc" else []
    return mid + [f"f{kind},{a},{m + x}" for y in n for a, m in ((3, y), (y, 3))]


def enc_tasks(ps):
    return ["enc,%d,%d" % q for q in ps]


def dec_tasks(ps, valid=True):
    return [f"dec,{a},{m + 16}" for a, m in ps] + ([f"decv,{a},{m + 16}" for a, m in ps] if valid else [])


def chunks(l, n):
    """n tasks lists of similar total size"""
    out = [l[i::n] for i in range(n)]
    return [x for x in out if x]


def job(v, part, tasks, want, **kw):
    return dict(v=v, part=part, tasks=tasks, want=want, **kw)


LIBFNS = ["Initialize", "AddByte", "AddBytes", "OverwriteBytes", "OverwriteWithZeroes", "Permute_Nrounds", "Permute_20rounds", "ExtractBytes", "ExtractAndAddBytes"]


def lib_jobs(vs, tier):
    out = []
    for v in vs:
        if ":" in v.name:
            if v.name.endswith("isapa128a"):
                pre, n, r = "Ascon", 40, 12
            elif v.name.endswith("isapk128a"):
                pre, n, r = "KeccakP400", 50, 20
            else:
                continue
        elif v.alg.startswith("isapk") and (v.impl == "ref" or v.impl.startswith("opt_32_arm")):
            pre, n, r = "KeccakP400", 50, 20
        else:
            continue
        pub = [f"{pre}_{f}" for f in LIBFNS]
        for what in ("bytes", "perm"):
            out.append(job(v, "lib", [f"lib,{pre},{n},{r},{what}"], ["lib", "abort", "wildjump", "oob_read", "oob_write", "input_write", "abi"], public=pub, cost=3 if what == "bytes" else 1))
    return out


def aead(vs):
    return [v for v in vs]


def plan(prop, tier, vs, seed, work):
    T = tier == "thorough"
    J = []
    cost = lambda v: (3 if v.inst in ("a128", "k128") else 1) * (3 if v.impl.startswith("opt_8") else 2 if "bi_8" in v.impl or "avx" in v.impl else 1)
    split = 4 if T else 1

    def add(v, part, tasks, want, **kw):
        for c in chunks(tasks, split if T and len(tasks) > 30 else 2 if len(tasks) > 60 else 1):
            J.append(job(v, part, c, want, cost=cost(v) * len(c), **kw))

    if prop in ("C01", "C02", "C03", "C04"):
        for v in vs:
            if prop == "C04" and not avx(v) or prop == "C03" and not arm(v) or prop in ("C01", "C02") and not x86(v):
                continue
            generic = ":" in v.name
            if prop == "C01" and (v.inst != "a128a" or generic) or prop == "C02" and v.inst == "a128a" and not generic:
                continue
            add(v, "aead", enc_tasks(enc_pairs(tier, v.inst, seed)), ALL_WANT)
            add(v, "aead", long_tasks("enc", tier, seed), ALL_WANT)
    elif prop == "C05":
        for v in vs:
            ps = dec_pairs(tier, v.inst, seed)
            add(v, "aead", uniq(dec_tasks(ps if T else ps[:4], False) + [f"decv,{a},{m + 16}" for a, m in ps + (diag(73, 11, 5, 73) if T else diag(33, 11, 5, 33))]), ["accept", "plain", "abort", "wildjump"])
            add(v, "aead", [f"fdecv,{a},{m + 16}" for a, m in [(33 + i, 33 + (i * 7 + 40) % 77) for i in range(0, 77, 11)] + [(3, 520), (520, 3)]] + long_tasks("decv", tier, seed)[:None if T else 1] + ["fdec,3,%d" % (2100 + seed % 100)] + [f"fdec,{a},{m + 16}" for a, m in ((9, 64), (70, 33), (40, 128), (130, 131), (3, 256), (256, 3))], ["accept", "plain", "abort", "wildjump"])
    elif prop == "C06":
        for v in vs:
            ps = [(3, 5), (0, RATE[v.inst] + 1), (2, 2 * RATE[v.inst]), (3, 45), (1, 75), (40, 0), (1, 130), (0, 16), (5, 32), (8, 64), (6, 24), (19, 7)] + ([(i, (7 * i + 3) % 65) for i in range(65)] + [(3, 300), (300, 7), (5, 1030)] if T else [])
            add(v, "aead", dec_tasks(uniq(ps), False), ["release"])
    elif prop == "C07":
        for v in vs:
            ads = [0, 1, 2, 7, 8, 9, 17, 18, 19, 40, 100] if T else [0, 3]
            add(v, "aead", [f"short,{a},{c}" for a in ads for c in range(16)], ["short", "oob_read", "oob_write", "input_write", "abort", "nonterm"])
    elif prop == "C08":
        w = ["oob_read", "oob_write", "input_write", "abi", "abort", "wildjump"]
        for v in vs:
            R = RATE[v.inst]
            ps = [(0, 0), (1, 1), (2, 3), (3, 2), (4, 6), (5, 4), (6, 7), (7, 5), (8, 8), (9, 15), (15, 9), (16, 17), (R + 1, R - 1), (R - 1, R + 1), (2 * R, 2 * R), (R, 2 * R + 1), (33, 41), (71, 5), (5, 71), (64, 96), (100, 131), (131, 260)]
            dp = [(0, 0), (1, 1), (7, 3), (R, R), (3, R + 2), (2, 2 * R)]
            dv = [((i * 7 + 2) % 41, i) for i in range(2, 41)]
            mis = [0] + ([8, 16, 24] if arm(v) and T else [8] if arm(v) else [1, 2, 3, 4, 5, 7, 8] if T else [1, 4])
            if T:
                ps = uniq(ps + diag(129, 11, 5, 129) + [(a, m) for a in range(R + 2) for m in range(R + 2) if (a * 7 + m * 3) % 5 == 0])
                dp = uniq(dp + diag(49, 11, 5, 49))
            for i, m in enumerate(mis):
                tk = enc_tasks(ps) + dec_tasks(dp if T else dp[2:3], False) + [f"decv,{a},{m + 16}" for a, m in dp + ([] if T or i else dv)] + [f"short,{a},{c}" for a, c in ((0, 0), (3, 1), (5, 8), (2, 15))]
                if not i:
                    tk += ["fenc,5,1030", "fenc,1030,5", "fenc,300,300", "fenc,4096,17", "fenc,17,4096", "fdecv,5,1046", "fdecv,1030,21", "fdecv,300,316"]
                if i and not T:
                    tk = enc_tasks(ps[3 * i::3]) + [f"decv,{a},{m + 16}" for a, m in dp[2:5]]
                add(v, "aead", tk, w, opts={"mis": m} if m else {})
                if v.has_hash:
                    add(v, "hash", [f"hash,{l}" for l in (range(130) if T else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 40])] + (["fhash,1030", "fhash,4096", "fhash,300"] if not i else []), w, opts={"mis": m} if m else {})
    elif prop == "C09":
        w = ["secret_branch", "secret_addr", "secret_div"]
        for v in vs:
            R = RATE[v.inst]
            tk = enc_tasks([(3, 5), (R, R), (0, 2 * R + 1), (2, 70), (70, 3), (2, 140)]) + dec_tasks([(0, 0), (5, 3), (2, R + 7), (40, 66)], False) + ["short,0,3"]
            if T:
                tk = uniq(tk + enc_tasks(diag(45, 7, 3, 45) + [(5, 300), (300, 5)]) + dec_tasks(diag(25, 7, 3, 25) + [(3, 100)], False))
            add(v, "aead", tk, w, opts={"ct": 1})
            if v.has_hash:
                add(v, "hash", [f"hash,{l}" for l in ([0, 1, 7, 8, 21, 64] + ([*range(2, 80), 300] if T else []))], w, opts={"ct": 1})
    elif prop == "C10":
        w = ["seq", "abort", "wildjump"]
        for v in vs:
            # seqs: only where there is writable static data that could carry something from call to call
            tk = ["seq,dec:3:2:k,enc:2:3", "seqs,enc:1:4:kn,dec:2:5", "seqs,dec:0:9:kna,dec:3:1", "seqs,decv:0:3:kna,dec:3:1"]
            tk += ["seqs,enc:3:40:k,enc:3:40", "seqs,enc:40:3:kn,enc:41:20", "seqs,enc:20:70:kna,decv:20:17", "seqs,decv:5:33:kn,enc:5:33", "seqs,enc:3:20:p,enc:3:20", "seqs,enc:3:20:np,enc:3:20", "seqs,decv:3:20:kp,enc:3:20", "seqs,enc:9:20:knp,enc:9:20"]
            if T:
                tk += ["seq,enc:5:9:k,enc:2:17", "seq,enc:0:0:n,decv:4:8", "seq,decv:3:5:kn,enc:0:1", "seq,enc:9:3:am,enc:9:3", "seq,dec:8:8:,dec:8:8", "seq,dec:17:20:kn,enc:8:9"]
            add(v, "aead", tk, w)
            if v.has_hash:
                for t in ["seq,hash:0:5:m,enc:2:3", "seq,enc:1:4:k,hash:0:9", "seq,hash:0:9:,hash:0:5"] + (["seq,hash:0:17:,dec:2:5", "seq,dec:3:2:m,hash:0:2"] if T else []):
                    J.append(job(v, "both", [t], w, public=["crypto_aead_encrypt", "crypto_aead_decrypt", "crypto_hash"], cost=cost(v)))
    elif prop == "C11":
        w = ["global_write", "preempt"]
        for v in vs:
            tk = enc_tasks([(0, 0), (3, 5), (9, 20), (20, 41)] + ([(i, (i * 11 + 5) % 41) for i in range(41)] + [(300, 300)] if T else []))
            tk += dec_tasks([(3, 5)] + ([(0, 0), (9, 20)] + [(i, (i * 7 + 5) % 25) for i in range(25)] if T else []), False) + ["decv,2,20", "decv,0,16", "decv,20,50", "short,0,3", "fenc,70,133", "fenc,133,72", "fenc,5,1030", "fenc,1030,5", "fenc,300,300", "fdecv,5,1046", "fdecv,70,149"]
            # schedules: one call runs inside another at an access to writable static data (no such access: nothing to schedule)
            tk += ["preempt,enc:1:2:k,dec:2:3,4"] + (["preempt,dec:1:2:k,dec:2:3,4", "preempt,dec:1:2:n,enc:2:3,8"] if T else [])
            J.append(job(v, "aead", uniq(tk), w, cost=cost(v)))
            if v.has_hash:
                add(v, "hash", [f"hash,{l}" for l in ([0, 5, 8, 17] + (list(range(1, 41)) if T else []))], w)
    elif prop == "C12":
        for v in vs:
            if v.has_hash:
                add(v, "hash", [f"hash,{l}" for l in hash_lens(tier, seed)], ALL_WANT)
                add(v, "hash", long_tasks("hash", tier, seed), ALL_WANT)
    elif prop == "C13":
        J = lib_jobs(vs, tier)
    elif prop == "C14":
        w = ["length", "abort"]
        for v in vs:
            hi = ("300,0,0,400" if T else "24,0,24,40") if v.target == "avx" else "600,0,0,700" if T else "32,252,259,280"
            sym = ["symlen,%s,%s,%d,0,%s" % (k, wh, o, hi) for k, wh, o in (("enc", "in", 5), ("enc", "ad", 5), ("dec", "in", 3), ("dec", "ad", 19))]
            for t in sym:
                J.append(job(v, "aead", [t], w, cost=4 * cost(v)))
            tk = enc_tasks([(3, 255), (255, 3), (3, 256), (256, 3), (2, 264), (264, 2), (7, 520), (520, 7)]) + dec_tasks([(3, 256), (256, 3)], True)
            J.append(job(v, "aead", tk, ["out", "accept", "plain", "abort"], cost=cost(v)))
            J.append(job(v, "aead", [t for t in long_tasks("enc", tier, seed) if T or "65541,3" in t] + [t for t in long_tasks("decv", tier, seed) if T or "3,65557" in t], ["out", "accept", "plain", "abort", "oob_read", "oob_write"], cost=2 * cost(v)))
            if v.has_hash:
                J.append(job(v, "hash", ["symlen,hash,in,0,0," + hi], w, cost=2))
                J.append(job(v, "hash", [f"hash,{l}" for l in [255, 256, 257, 264, 520]] + long_tasks("hash", tier, seed), ["out", "abort", "oob_read", "oob_write"]))
    elif prop == "C15":
        for v in vs:
            R = RATE[v.inst]
            ps = [(0, 0), (3, 5), (R, R), (R + 3, 2 * R + 1), (1, 40)] + [((7 * i + 3) % 37, (5 * i + 64) % 101) for i in range(0, 26, 2)] + ([(i, (11 * i + 5) % 49) for i in range(49)] + [(300, 300), (5, 1030), (1030, 5)] if T else [])
            add(v, "aead", [f"round,{a},{m}" for a, m in uniq(ps)] + [f"fround,{a},{m}" for a, m in ((256, 512), (512, 256), (5, 1030), (1030, 5), (144, 1024), (4096, 17), (17, 4096), (300, 300))] + long_tasks("round", tier, seed)[:None if T else 1], ["round", "abort"])
    return J


def conformance(prop, vs, seed):
    """Concrete runs of the compiled code against the oracle, on inputs the solver did not choose."""
    r = random.Random(seed)
    hx = lambda n: "".join("%02x" % r.randrange(256) for _ in range(n)) or "00"
    out = []
    for v in vs:
        if prop == "C01" and not (x86(v) and v.inst == "a128a" and ":" not in v.name) or prop == "C02" and not (x86(v) and (v.inst != "a128a" or ":" in v.name)) or prop == "C03" and not arm(v) or prop == "C04" and not avx(v):
            continue
        a, m = r.randrange(0, 60), r.randrange(0, 60)
        base = dict(k=hx(16), n=hx(16), ad=hx(a), adlen=a)
        if prop in ("C01", "C02", "C03", "C04", "C08", "C09", "C11", "C14"):
            out.append((v, dict(base, op="enc", len=m, m=hx(m)), "aead"))
        if prop in ("C05", "C06", "C08", "C11"):
            td = "00" * 15 + "80" if r.randrange(2) else "%02x" % (1 << r.randrange(8)) + "00" * 15
            out.append((v, dict(base, op="dec", len=m + 16, c=hx(m), tdelta=td), "aead"))
        if prop == "C05":
            out.append((v, dict(base, op="dec_valid", len=m + 16, c=hx(m)), "aead"))
        if prop == "C07":
            out.append((v, dict(base, op="dec_short", len=m % 16, c=hx(m % 16)), "aead"))
        if prop == "C10":
            out.append((v, dict(base, op="seq", op1="dec", adlen1=3, len1=4, k1=base["k"], n1=hx(16), ad1=hx(3), c1=hx(4), tdelta1="01" + "00" * 15, op2="enc", len=m, m=hx(m)), "aead"))
        if prop == "C15":
            out.append((v, dict(base, op="round", len=m, m=hx(m)), "aead"))
        if prop == "C12" and v.has_hash:
            out.append((v, dict(op="hash", len=m * 7, m=hx(m * 7)), "hash"))
    return out


B = lambda q, t: {"quick": q, "thorough": t}
DESCR = {
    "C01": dict(how="Each portable C implementation of ISAP-A-128a is executed symbolically (LLVM IR) with all bits of key, nonce, associated data and message free; its return value, ciphertext length, ciphertext and tag are compared bit by bit with the specification, on every path.", bounds=B("(AD, message) lengths: every length 0..40 in each position and a few up to 257 bytes with all contents free; every length 64..127 in each position, and 256, 300, 512, 1024, 1030, 2048, 2055, 4096, about 4150 and 65541, with all but the last 24 bytes, the key and the nonce constant", "all pairs of lengths 0..17, every length 0..300 in each position, and larger ones up to 8193 bytes; contents unbounded")),
    "C02": dict(how="As C01 for the C implementations of ISAP-A-128, ISAP-K-128a, ISAP-K-128 and the generic implementation in four configurations.", bounds=B("(AD, message) lengths: every length 0..40 in each position and a few up to 257 bytes with all contents free; every length 64..127 in each position, and 256, 300, 512, 1024, 1030, 2048, 2055, 4096, about 4150 and 65541, with all but the last 24 bytes, the key and the nonce constant", "all pairs of lengths 0..17 (Ascon) or 0..37 (Keccak), every length 0..300 in each position, and larger ones up to 8193 bytes")),
    "C03": dict(how="The linked ARM machine code (compiled from C with inline assembly, or assembly files) is executed symbolically, instruction by instruction, and compared with the specification as in C01.", bounds=B("(AD, message) lengths: every length 0..40 in each position and a few up to 257 bytes with all contents free; every length 64..127 in each position, and 256, 300, 512, 1024, 1030, 2048, 2055, 4096, about 4150 and 65541, with all but the last 24 bytes, the key and the nonce constant; buffers 8-byte aligned", "all pairs of lengths 0..17 or 0..37, every length 0..300 in each position, larger ones up to 8193 bytes")),
    "C04": dict(how="The AVX-512 implementations are executed symbolically as LLVM IR, the intrinsics being the compiler's own lane-wise definitions, and compared with the specification as in C01.", bounds=B("(AD, message) lengths: every length 0..40 in each position and a few up to 257 bytes with all contents free; every length 64..127 in each position, and 256, 300, 512, 1024, 1030, 2048, 2055, 4096, about 4150 and 65541, with all but the last 24 bytes, the key and the nonce constant", "all pairs of lengths 0..17 or 0..37, every length 0..300 in each position, larger ones up to 8193 bytes")),
    "C05": dict(how="Decryption is executed with free key, nonce, AD, ciphertext and tag; accept is shown equivalent to tag equality (for the stp variants: equivalent images under the fixed permutation), and the plaintext and its length are compared with the specification under acceptance; a second run takes the tag to be the authentic one.", bounds=B("free tag: four pairs of AD and ciphertext-body lengths up to two blocks; authentic tag: every length 0..32 in each position and up to 40 bytes, and longer ones up to 65541 of which all but the last 24 bytes are constant", "every length 0..48 in each position, random ones up to 200 and larger ones up to 1030 bytes")),
    "C06": dict(how="On every path on which decryption may reject, each bit of the plaintext buffer must be the buffer's previous content, a constant, or independent of the key.", bounds=B("twelve pairs of lengths up to 130 bytes", "every length 0..64 and larger ones up to 1030 bytes")),
    "C07": dict(how="Decryption of 0..15 byte ciphertexts with all contents free: nonzero return, all accesses inside the given bytes, output buffer untouched, step bound not exceeded.", bounds=B("all ciphertext lengths 0..15, AD lengths 0 and 3", "all ciphertext lengths 0..15, eleven AD lengths up to 100"), assume=["a call that executes 3 million instructions is taken not to terminate and is confirmed natively"]),
    "C08": dict(how="Every load and store of the symbolic executions is checked against the objects that exist (exact sizes of the caller's buffers, inputs not writable, the secret-number pointer null, each local and static object); ARM code must also restore callee-saved registers and the stack pointer.", bounds=B("22 pairs of lengths up to 260 bytes for encryption, every length 0..40 for decryption of authentic ciphertexts and one with a free tag, 15 hash lengths up to 40 bytes; longer ones up to 4096 with a constant prefix; aligned buffers and offsets 1 and 4 (x86) or 8 (ARM)", "every length 0..128 in each position for encryption, 0..48 for decryption, hash 0..129; offsets 1,2,3,4,5,7,8 (x86) or 8,16,24 (ARM)")),
    "C09": dict(how="During the symbolic executions every branch condition, address, and variable-time operand whose value depends on key or plaintext bits is a violation, unless the condition is proved equivalent to the accept/reject outcome; ciphertext and tag are public.", bounds=B("six pairs of lengths for encryption and four for decryption, up to 140 bytes; six hash lengths up to 64", "every length 0..44 (encryption) and 0..24 (decryption) in each position and larger ones up to 300; hash 0..79 and 300"), assume=["a report counts only if the difference is visible in machine code of at least one of gcc -O3/-O2/-O1 or clang -O3/-O1", "executed at the level of LLVM IR for C code and of machine instructions for ARM; caches, and instructions with data-dependent timing other than division, are outside the model"]),
    "C10": dict(how="Two calls are executed one after the other on one memory (static data kept, contents of the second call's stack and outputs undefined), arguments of both free and partly shared; the second call must satisfy its specification. Uninitialised memory is a distinct value that taints whatever is computed from it.", bounds=B("one AEAD sequence (and three with hashing) of two calls, lengths up to 9 bytes; where writable static data exists eleven more with lengths up to 70 bytes, in four of which both calls use the same buffer addresses", "seven AEAD sequences (and five with hashing), lengths up to 20 bytes, and the eleven")),
    "C11": dict(how="All stores to static data in every symbolic execution are reported; if there is any access to writable static data, one call is additionally run inside another at such accesses and both results are compared with the specification.", bounds=B("encryption, decryption and hashing at lengths up to 41 bytes with free contents and up to 1030 with a constant prefix; one pair of calls, 4 preemption points", "lengths up to 300 bytes; three pairs of calls, up to 8 preemption points"), assume=["calls share no argument buffers; a call that writes no static data can interfere with no other"]),
    "C12": dict(how="crypto_hash of each implementation is executed symbolically with all input bits free and compared with the Ascon-Hash specification.", bounds=B("lengths 0..136 and larger ones up to 4099 bytes with all bits free; about 4150 and 65541 bytes of which the last 24 are free", "lengths 0..299 and larger ones up to 10007 bytes")),
    "C13": dict(how="Every function of each bundled permutation library is executed with state and data free, for every admissible offset, length and number of rounds, and compared with its specification, including untouched bytes and memory accesses.", bounds=B("complete: all offsets and lengths within the state (40 or 50 bytes), all round counts (12 or 20)", "complete: all offsets and lengths within the state (40 or 50 bytes), all round counts (12 or 20)")),
    "C14": dict(how="One of the lengths is a symbolic 64-bit value (32-bit on ARM's effective range); each path through the code must admit exactly one length, write exactly the matching bytes, and paths of lengths beyond the buffer must leave it rather than end. Fixed contents; a complementary run compares contents at lengths around 256 and 512 and, with a constant prefix, at 65541.", bounds=B("lengths 0..40 and 250..262 decided individually, all lengths above 300 as one class", "lengths 0..600 decided individually, all lengths above 700 as one class; contents, with a constant prefix, also at 65536, 131077 and random lengths up to 60000")),
    "C15": dict(how="Decryption is executed on the symbolic result of encryption by the same code; it must accept and return the message. Implementations of the same instance interoperate because each is compared with the same specification (C01-C05).", bounds=B("18 pairs of lengths up to 129 bytes, and 300, 512, 1024, 1030, 4096 and 65541 bytes with a constant prefix", "every length 0..48 in each position and larger ones up to 1030 bytes")),
}
