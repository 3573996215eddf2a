"""Builds the encodings and the replay programs from /repo's working tree and runs the engine on them."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = os.path.join(ROOT, "engine/build/engine")
NATIVE = os.path.join(ROOT, "checks/native")
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
CLANG, LINK, OPT, DIS = "clang-18", "llvm-link-18", "opt-18", "llvm-dis-18"
ARMCC = "arm-linux-gnueabi-gcc"


class BuildError(Exception):
    pass


PROCS, PLOCK, STOPPED = set(), threading.Lock(), threading.Event()


def run(cmd, timeout=None, cwd=None, env=None, mem=None):
    """Returns (returncode or None on timeout, stdout+stderr)."""
    if STOPPED.is_set():
        return None, "stopped"
    if mem:
        cmd = ["prlimit", f"--as={mem << 20}"] + cmd
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, start_new_session=True)
    with PLOCK:
        PROCS.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode(errors="replace")
    finally:
        with PLOCK:
            PROCS.discard(p)


def stop_all():
    STOPPED.set()
    with PLOCK:
        for p in list(PROCS):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def must(cmd, what, **kw):
    rc, out = run(cmd, **kw)
    if rc != 0:
        raise BuildError(f"{what}: exit {rc}\n{out[-3000:]}")
    return out


def ensure_engine():
    d = os.path.join(ROOT, "engine")
    os.makedirs(os.path.join(d, "build"), exist_ok=True)
    with open(os.path.join(d, "build/.lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        must(["make", "-s", "-j8", "-C", d], "building the engine")


# ---------------------------------------------------------------- variants
class Variant:
    """One implementation directory (or one configuration of the generic one)."""

    def __init__(self, name, path, alg, impl, target, flags, sources, has_hash):
        self.name, self.path, self.alg, self.impl, self.target = name, path, alg, impl, target
        self.flags, self.sources, self.has_hash = flags, sources, has_hash
        self.inst = {"isapa128a": "a128a", "isapa128": "a128", "isapk128a": "k128a", "isapk128": "k128"}[alg]
        self.stp = "stp" in impl
        self.id = re.sub(r"[^A-Za-z0-9]+", "_", name)
        self.aead = self.hash = None  # Encodings


def discover():
    out = []
    for d in sorted(glob.glob(REPO + "/crypto_aead*/*/*/")):
        d = d.rstrip("/")
        rel = os.path.relpath(d, REPO)
        fam, alg, impl = rel.split("/")
        m = re.match(r"(isap[ak]128a?)v20$", alg)
        src = sorted(glob.glob(d + "/*.[cs]"))
        if not m or not src:
            continue
        hh = fam.endswith("_hash")
        fl = ["-I" + d, "-I" + REPO + "/tests", "-DCRYPTO_AEAD"] + ["-DCRYPTO_HASH"] * hh
        t = "avx" if "avx" in impl else "arm6" if impl.endswith("_armv6") else "arm" if "arm" in impl else "x86"
        out.append(Variant(rel, d, m.group(1), impl, t, fl, src, hh))
    x = REPO + "/crypto_aead/isapxv20/ref"
    src = [s for s in sorted(glob.glob(x + "/*.c") + glob.glob(x + "/lib/*/*.c")) if "genkat" not in os.path.basename(s)]
    for size, perm, alg in (("ISAP128A", "ASCON", "isapa128a"), ("ISAP128", "ASCON", "isapa128"), ("ISAP128A", "KECCAKP400", "isapk128a"), ("ISAP128", "KECCAKP400", "isapk128")):
        out.append(Variant("crypto_aead/isapxv20/ref:" + alg, x, alg, "generic", "x86", ["-D" + size, "-D" + perm, "-DDEBUG=0"], src, False))
    return out


class Encoding:
    """What the engine reads: LLVM IR (x86) or a linked ELF with its disassembly (ARM)."""

    def __init__(self, v, part, fe, bin_, dis, digest):
        self.v, self.part, self.fe, self.bin, self.dis, self.digest = v, part, fe, bin_, dis, digest
        self.users = [v.name]


PUBLIC = {"aead": ["crypto_aead_encrypt", "crypto_aead_decrypt"], "hash": ["crypto_hash"]}


class Work:
    def __init__(self, prop):
        self.dir = os.path.join(ROOT, "work", f"{prop}.{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)
        self.lock, self.locks, self.exes = threading.Lock(), {}, {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        try:
            os.rmdir(os.path.join(ROOT, "work"))
        except OSError:
            pass

    def once(self, key, fn):
        with self.lock:
            l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.exes:
                try:
                    self.exes[key] = fn()
                except BuildError as e:
                    self.exes[key] = e
            r = self.exes[key]
        if isinstance(r, BuildError):
            raise r
        return r

    # ---- LLVM IR
    def ir_all(self, v):
        def go():
            d = os.path.join(self.dir, v.id + ".ir")
            os.makedirs(d, exist_ok=True)
            fl = ["-march=x86-64-v4", "-include", ROOT + "/checks/shim_avx.h"] if v.target == "avx" else []
            objs = []
            for i, s in enumerate(v.sources):
                if s.endswith(".s"):
                    raise BuildError("assembly source in an x86 implementation: " + s)
                o = f"{d}/{i}.bc"
                must([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-strict-aliasing", "-DNDEBUG", "-w"] + fl + v.flags + ["-emit-llvm", "-c", s, "-o", o], "clang " + s)
                objs.append(o)
            must([LINK] + objs + ["-o", d + "/all.bc"], "llvm-link " + v.name)
            return d + "/all.bc"
        return self.once(("ir", v.name), go)

    def encode_ir(self, v, part, public):
        allbc = self.ir_all(v)
        tag = f"{self.dir}/{v.id}.{part}"
        must([OPT, "-passes=internalize,globaldce,always-inline,function(sroa,simplifycfg),globaldce", "-internalize-public-api-list=" + ",".join(public), allbc, "-o", tag + ".bc"], "opt " + v.name)
        txt = must([OPT, "-passes=strip", "-S", tag + ".bc", "-o", "-"], "strip " + v.name)
        txt = re.sub(r"^(; ModuleID|source_filename|!).*$", "", txt, flags=re.M)
        return Encoding(v, part, "ir", tag + ".bc", None, hashlib.sha256(txt.encode()).hexdigest())

    # ---- ARM
    def arm_objs(self, v, opt="-O3"):
        def go():
            d = os.path.join(self.dir, v.id + ".arm" + opt)
            os.makedirs(d, exist_ok=True)
            fl = ["-march=armv6", "-marm"] if v.target == "arm6" else ["-march=armv7-a", "-mthumb"]
            objs = []
            for i, s in enumerate(v.sources):
                o = f"{d}/{i}.o"
                must([ARMCC] + fl + [opt, "-DNDEBUG", "-w", "-fno-stack-protector", "-ffunction-sections", "-fdata-sections"] + v.flags + ["-c", s, "-o", o], "arm gcc " + s)
                objs.append(o)
            return objs
        return self.once(("arm", v.name, opt), go)

    def encode_arm(self, v, part, public):
        objs = self.arm_objs(v)
        stub = self.once(("stub",), lambda: (must([ARMCC, "-c", ROOT + "/checks/native/armstub.s", "-o", self.dir + "/stub.o"], "stub"), self.dir + "/stub.o")[1])
        tag = f"{self.dir}/{v.id}.{part}"
        ar = tag + ".a"
        must(["arm-linux-gnueabi-ar", "rcs", ar] + objs, "ar")
        must([ARMCC, "-nostdlib", "-static", "-Wl,-e,0", "-Wl,--build-id=none", "-Wl,--gc-sections"] + ["-Wl,-u," + p for p in public] + ["-o", tag + ".elf", stub, ar, "-lgcc"], "arm link " + v.name)
        txt = must(["arm-linux-gnueabi-objdump", "-d", tag + ".elf"], "objdump")
        open(tag + ".dis", "w").write(txt)
        dat = must(["arm-linux-gnueabi-objdump", "-s", tag + ".elf"], "objdump -s")
        dat = re.sub(r"Contents of section \.(comment|ARM.attributes|note).*?(?=Contents|\Z)", "", dat, flags=re.S)
        dat = "\n".join(dat.split("\n")[3:])
        return Encoding(v, part, "arm", tag + ".elf", tag + ".dis", hashlib.sha256(dat.encode()).hexdigest())

    def encode(self, v, part, public=None):
        public = public or PUBLIC[part]
        return self.once(("enc", v.name, part), lambda: self.encode_arm(v, part, public) if v.target.startswith("arm") else self.encode_ir(v, part, public))

    # ---- programs for the replay of counterexamples, built as the project builds
    def replay_exe(self, v, opt="-O3", mode="", libfn=None, cc=None):
        def go():
            d = os.path.join(self.dir, f"{v.id}.replay{opt}{mode}{libfn or ''}{cc or ''}")
            os.makedirs(d, exist_ok=True)
            arm = v.target.startswith("arm")
            gcc, oc, ld = (ARMCC, "arm-linux-gnueabi-objcopy", "arm-linux-gnueabi-ld") if arm else (cc or ("clang-18" if mode == "cov" else "gcc"), "objcopy", "ld")
            fl = ["-march=armv6", "-marm"] if v.target == "arm6" else ["-march=armv7-a", "-mthumb"] if arm else ["-march=x86-64-v4"] if v.target == "avx" else []
            vf = ["-fsanitize-coverage=trace-pc,trace-loads,trace-stores"] if mode == "cov" else []
            shim = ["-include", ROOT + "/checks/shim_avx.h"] if v.target == "avx" and "clang" in gcc else []
            objs = []
            if arm and opt == "-O3":
                objs = self.arm_objs(v)
            else:
                for i, s in enumerate(v.sources):
                    o = f"{d}/{i}.o"
                    must([gcc] + fl + vf + shim + [opt, "-DNDEBUG", "-w"] + v.flags + ["-c", s, "-o", o], "compiling " + s)
                    objs.append(o)
            must([ld, "-r", "-o", d + "/v0.o"] + objs, "ld -r")
            must([oc, "--rename-section", ".data=vdata,alloc,load,data,contents", "--rename-section", ".bss=vbss,alloc,load,data,contents", d + "/v0.o", d + "/v.o"], "objcopy")
            must([oc, "--set-section-alignment", "vdata=4096", "--set-section-alignment", "vbss=4096", d + "/v.o"], "objcopy")
            # whole pages after the variant's static data, so that protecting it does not touch the replay program's own
            open(d + "/pad.s", "w").write("".join(f'.section {x},"aw",%progbits\n.balign 4096\n.globl {x}_end\n{x}_end:\n.space 4096\n' for x in ("vdata", "vbss")) + '.section .note.GNU-stack,"",%progbits\n')
            must([gcc] + fl + ["-c", d + "/pad.s", "-o", d + "/pad.o"], "assembling")
            exe = d + "/replay"
            must([gcc, "-O1", "-fno-builtin", "-w"] + fl + (["-marm"] if arm else []) + (["-DSANCOV"] if mode == "cov" else []) + (["-DLIBFN=" + libfn] if libfn else []) + ["-I" + NATIVE, NATIVE + "/replay.c", d + "/v.o", d + "/pad.o"] + (["-static"] if arm else ["-no-pie"]) + ["-o", exe], "linking the replay program")
            return exe
        return self.once(("replay", v.name, opt, mode, libfn, cc), go)

    def replay(self, v, fields, opt="-O3", mode="", libfn=None, extra=None, timeout=120, cc=None):
        """Runs one concrete case; returns (list of (kind, text), case file)."""
        exe = self.replay_exe(v, opt, mode, libfn, cc)
        with self.lock:
            self.ncase = getattr(self, "ncase", 0) + 1
            path = f"{self.dir}/case{self.ncase}"
        f = {"inst": v.inst, "stp": "1" if v.stp else "0"}
        f.update(fields)
        f.update(extra or {})
        open(path, "w").write("".join(f"{k} {x}\n" for k, x in f.items()))
        cmd = (["qemu-arm"] if v.target.startswith("arm") else []) + [exe, path]
        if v.target == "avx" and not have_avx512():
            return [("unrunnable", "this processor has no AVX-512")], path
        rc, out = run(cmd, timeout=timeout)
        res = [tuple((l[4:] + " ").split(" ", 1)) for l in out.splitlines() if l.startswith("BAD ")]
        if rc is None:
            res.append(("nonterm", "the replay ran into the time limit"))
        elif rc != 0 and not res:
            res.append(("error", f"replay ended with {rc}: {out[-300:]}"))
        if "NOTRACE" in out:
            res.append(("notrace", ""))
        self.lastout = out
        return [(k, t.strip()) for k, t in res], path


def have_avx512():
    fl = open("/proc/cpuinfo").read()
    return all(" " + x in fl for x in ("avx512f", "avx512vl", "avx512bw", "avx512dq", "avx512cd"))


def engine(enc, tasks, want, timeout, opts=None, mem=9000):
    """One engine process; returns the parsed result (with 'error' when it gave none)."""
    out = f"{enc.bin}.{threading.get_ident()}.{time.monotonic_ns()}.json"
    a = [ENGINE, "fe=" + enc.fe, "bin=" + enc.bin, "inst=" + enc.v.inst, "tasks=" + ";".join(tasks), "want=" + ",".join(want), "stp=%d" % enc.v.stp, "budget=%d" % max(5, timeout - 5), "out=" + out, "lemmas=" + os.path.dirname(enc.bin) + "/lemmas"]
    if enc.dis:
        a.append("dis=" + enc.dis)
    for k, x in (opts or {}).items():
        a.append(f"{k}={x}")
    t0 = time.time()
    rc, txt = run(a, timeout=timeout, mem=mem, env=dict(os.environ, GLIBC_TUNABLES="glibc.malloc.hugetlb=1"))
    r = None
    if rc == 0 and os.path.exists(out):
        try:
            r = json.load(open(out))
        except ValueError:
            pass
    if os.path.exists(out):
        os.remove(out)
    if r is None:
        r = {"inconclusive": "time limit" if rc is None else f"engine ended with {rc}: {txt[-300:]}", "reports": [], "functions": [], "samples": [], "global_writes": []}
    r["args"] = " ".join(a[1:])
    r["t"] = time.time() - t0
    return r
