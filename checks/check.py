#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's working tree. See DESIGN.md."""
import argparse, random
from core import *
import plans

KINDS = {  # what the replay must show for a counterexample of the engine to count
    "out": {"out", "crash", "oob", "nonterm"}, "accept": {"accept", "crash", "nonterm"}, "plain": {"plain", "crash", "nonterm"}, "release": {"release"},
    "short": {"short", "oob", "nonterm", "crash", "input_write"}, "round": {"round", "crash", "nonterm", "oob"},
    "oob_read": {"oob", "crash"}, "oob_write": {"oob", "crash", "input_write"}, "input_write": {"input_write"}, "global_write": {"global_write"},
    "abi": {"abi"}, "nonterm": {"nonterm"}, "lib": {"lib", "oob", "crash", "nonterm"},
    "secret_branch": {"ct"}, "secret_addr": {"ct"}, "secret_div": {"ct"},
    "abort": {"crash", "oob", "nonterm", "input_write", "out", "accept", "plain"}, "wildjump": {"crash", "oob", "nonterm"},
}


OWN = {  # what a conformance run may show that contradicts the property itself
    "C05": {"accept", "plain"}, "C06": {"release"}, "C07": {"short", "oob", "nonterm", "crash", "input_write"}, "C08": {"oob", "input_write", "abi", "crash"}, "C09": set(),
    "C10": {"seq_out", "seq_accept", "seq_plain"}, "C11": {"global_write"}, "C15": {"round"}, "C14": {"out", "accept", "plain"},
}


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = Work(prop)
        self.lock = threading.Lock()
        self.results, self.viol, self.undecided, self.notes, self.conf = [], [], [], [], []
        self.disagree = 0

    def say(self, s):
        with self.lock:
            print(s, flush=True)

    # ---- confirming a report of the engine on the real code
    def confirm(self, enc, rep):
        v, kind = enc.v, rep["kind"]
        tried = 0
        for cand in rep["cands"][:40]:
            ok = self.confirm_one(enc, v, kind, cand)
            tried += 1
            if ok:
                return ok
            if kind in ("length", "secret_branch", "secret_addr", "secret_div") and tried >= 3:
                break
        return None

    def confirm_one(self, enc, v, kind, cand):
        f = {k: str(x) for k, x in cand.items()}
        op = f.get("op", "")
        if op == "preempt":
            f["op"] = "seq"
        if kind.startswith("secret_"):
            return self.confirm_ct(v, f)
        acc = set(KINDS.get(kind, {kind}))
        if kind in ("seq", "preempt") or op in ("seq", "preempt"):
            acc = {"seq_out", "seq_accept", "seq_plain"} if kind in ("seq", "abort") else acc
            if kind == "preempt":
                acc = {"global_write"}
        if kind == "length":
            acc = {"length", "len_out", "len_accept", "len_plain", "oob", "nonterm", "crash"}
        libfn = f.get("fn") if op == "lib" else None
        runs = [("-O3", None)] if v.target != "x86" else [("-O3", None), ("-O0", None)]
        for opt, cc in runs:
            res, path = self.work.replay(v, f, opt=opt, libfn=libfn, timeout=400 if kind == "length" else 90)
            hit = [r for r in res if r[0] in acc]
            if not hit and any(r[0] == "unrunnable" for r in res):
                return dict(case=path, text="(engine's counterexample; this processor cannot run AVX-512 code)", how="engine", v=v)
            if not hit and v.target.startswith("arm") and kind in ("oob_read", "oob_write") and any(r[0] == "align" for r in res):
                return dict(case=path, text="(machine-level counterexample; the guard page layout is not runnable because of alignment)", how="engine", v=v)
            if hit:
                return dict(case=path, text=f"{hit[0][0]}: {hit[0][1]}", how=f"native {opt}", v=v, opt=opt, libfn=libfn)
        return None

    def confirm_ct(self, v, f):
        if v.target.startswith("arm"):
            return self.ct_arm(v, f)
        for opt, cc in (("-O3", None), ("-O2", None), ("-O1", None)):
            res, path = self.work.replay(v, f, opt=opt, extra={"ct": "1"}, timeout=200)
            hit = [r for r in res if r[0] == "ct"]
            if hit:
                return dict(case=path, text=f"{hit[0][1]} [gcc {opt}, executed instructions]", how=f"native {opt}", v=v, opt=opt)
        for opt in ("-O3", "-O1"):
            res, path = self.work.replay(v, f, opt=opt, mode="cov", extra={"ct": "1"}, timeout=200)
            hit = [r for r in res if r[0] == "ct"]
            if hit:
                return dict(case=path, text=f"{hit[0][1]} [clang {opt}, branches and addresses]", how=f"clang {opt}", v=v, opt=opt, mode="cov")
        return None

    def ct_arm(self, v, f):
        """Compares executed instructions and registers used as addresses under qemu between runs with equal public values."""
        exe = self.work.replay_exe(v)
        base, rets = None, None
        for q in list(range(0, 41)):
            with self.work.lock:
                self.work.ncase = getattr(self.work, "ncase", 0) + 1
                path = f"{self.work.dir}/case{self.work.ncase}"
            g = {"inst": v.inst, "stp": "1" if v.stp else "0", **f, "ct": "2", "ctrun": str(q)}
            open(path, "w").write("".join(f"{k} {x}\n" for k, x in g.items()))
            rc, out = run(["bash", "-c", f"qemu-arm -one-insn-per-tb -d exec,nochain -D {path}.log {exe} {path}; grep -o '/[0-9a-f]*/' {path}.log | cksum; rm -f {path}.log"], timeout=120)
            m = re.search(r"RET (-?\d+)", out)
            if not m:
                continue
            r, tr = m.group(1) == "0", out.strip().splitlines()[-1]
            if base is None:
                base, rets = tr, r
            elif r == rets and tr != base:
                return dict(case=path, text=f"two runs with equal public values execute different instructions (run {q}) [qemu-arm]", how="qemu", v=v)
        return None

    # ---- one engine job
    def job(self, j):
        if STOPPED.is_set() or self.viol:
            return
        v, part, tasks, want, opts = j["v"], j["part"], j["tasks"], j["want"], j.get("opts", {})
        try:
            enc = self.work.encode(v, part, j.get("public"))
        except BuildError as e:
            if STOPPED.is_set():
                return
            with self.lock:
                self.undecided.append((v.name, "cannot be encoded: " + str(e)[:400]))
            return
        todo, timeout = list(tasks), j.get("timeout", plans.TIMEOUT[self.tier])
        r = engine(enc, todo, want, timeout, opts)
        if STOPPED.is_set():
            return
        bad = r["inconclusive"]
        confirmed = self.handle(enc, r, j)
        # lengths that share a path of the code: their contents are compared with the specification one by one
        if r.get("shared_tasks") and not confirmed and not bad and not r["reports"]:
            st = r["shared_tasks"]
            r3 = engine(enc, st, ["out", "accept", "plain", "abort"], timeout, opts)
            if STOPPED.is_set() or self.handle(enc, r3, j):
                return
            if r3["inconclusive"] or r3["reports"]:
                with self.lock:
                    self.undecided.append((enc.v.name + " " + todo[0], "lengths sharing a path: " + (r3["inconclusive"] or "report not reproduced")))
        if not confirmed and (bad or r["reports"]):
            # once more without the cut at the MAC state, each task on its own
            done = r.get("tasks_done", 0)
            rest = todo[max(0, done - 1):] if (r["reports"] and done) else todo[done:]
            left = []
            for t in rest:
                if self.viol or STOPPED.is_set():
                    return
                r2 = None
                for o2 in (dict(opts), dict(opts, cut=0)):
                    if o2.get("cut") == 0 and t.split(",")[0] not in ("enc", "dec", "decv", "round"):
                        continue
                    r2 = engine(enc, [t], want, max(60, timeout // 2), o2)
                    if self.handle(enc, r2, j):
                        return
                    if not r2["inconclusive"] and not r2["reports"]:
                        break
                    if time.time() - self.t0 > plans.WALL[self.tier]:
                        break
                if r2 is None or r2["inconclusive"] or r2["reports"]:
                    left.append((t, r2))
                if time.time() - self.t0 > plans.WALL[self.tier] or len(left) > 2:
                    break
            for t, r2 in left:
                why = (r2 or r)["inconclusive"] or "; ".join(f"{x['kind']} at {x['where']}: {x['detail']} (not reproduced)" for x in (r2 or r)["reports"][:3])
                with self.lock:
                    self.undecided.append((enc.v.name + " " + t, why))

    def handle(self, enc, r, j):
        with self.lock:
            if os.environ.get("VERIF_JOBLOG"):
                print("%6.1f %7.1fs %s %s %d tasks" % (time.time() - self.t0, r["t"], enc.v.name, j["tasks"][0], len(j["tasks"])), flush=True)
            r["variant"], r["part"], r["users"] = enc.v.name, enc.part, list(j.get("users", [enc.v.name]))
            self.results.append(r)
        for rep in r["reports"]:
            if rep["kind"] in j.get("ignore", ()):
                continue
            try:
                c = self.confirm(enc, rep)
            except BuildError as e:
                if STOPPED.is_set():
                    return False
                c = None
                self.notes.append("replay program does not build: " + str(e)[:300])
            if STOPPED.is_set() and not c:
                return False
            with self.lock:
                self.disagree += 1
            if c:
                self.violation(enc, rep, c)
                return True
        return False

    def violation(self, enc, rep, c):
        with self.lock:
            if self.viol:
                return
            d = os.path.join(ROOT, "replay", self.prop)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            shutil.copy(c["case"], d + "/case.txt")
            v = c["v"]
            info = dict(property=self.prop, variant=v.name, encoding=enc.v.name, kind=rep["kind"], where=rep["where"], detail=rep["detail"], native=c["text"], how=c["how"], opt=c.get("opt", "-O3"), mode=c.get("mode", ""), libfn=c.get("libfn"))
            json.dump(info, open(d + "/case.json", "w"), indent=1)
            self.viol.append((info, d + "/case.txt"))
        stop_all()

    # ---- conformance of the encoding's reference with the compiled code, on inputs the solver did not choose
    def conform(self, v, fields, part):
        try:
            res, path = self.work.replay(v, fields)
        except BuildError as e:
            if not STOPPED.is_set():
                self.notes.append("conformance program of " + v.name + ": " + str(e)[:200])
            return
        res = [r for r in res if r[0] not in ("align", "unrunnable")]
        with self.lock:
            self.conf.append((v.name, fields["op"], [k for k, _ in res]))
        own = [r for r in res if r[0] in OWN.get(self.prop, {"out", "crash", "oob", "nonterm"})]
        if own:
            enc = type("E", (), {"v": v})
            self.violation(enc, dict(kind=own[0][0], where="conformance run", detail="an input outside the solver's bounds"), dict(case=path, text=f"{own[0][0]}: {own[0][1]}", how="native -O3", v=v))

    def main(self):
        ensure_engine()
        vs = discover()
        plan = plans.plan(self.prop, self.tier, vs, self.seed, self.work)
        # the same code in several directories is encoded once
        pool = ThreadPoolExecutor(NPROC)
        def digest(j):
            try:
                e = self.work.encode(j["v"], j["part"], j.get("public"))
                return (e.digest, e.v.inst, e.v.stp, tuple(j["tasks"]), tuple(j["want"]), tuple(sorted(j.get("opts", {}).items())))
            except BuildError:
                return (j["v"].name, tuple(j["tasks"]))
        seen, jobs = {}, []
        for j, k in zip(plan, pool.map(digest, plan)):
            if k in seen:
                seen[k]["users"].append(j["v"].name)
            else:
                j["users"] = [j["v"].name]
                seen[k] = j
                jobs.append(j)
        jobs.sort(key=lambda j: -j.get("cost", 1))
        fs = [pool.submit(self.job, j) for j in jobs]
        for f in fs:
            f.result()
        if not self.viol:
            fs = [pool.submit(self.conform, *c) for c in plans.conformance(self.prop, vs, self.seed)]
            for f in fs:
                f.result()
        pool.shutdown()
        return self.finish(jobs, vs)

    def finish(self, jobs, vs):
        R = self.results
        tot = lambda k: sum(r.get(k, 0) or 0 for r in R)
        known = [l.strip() for l in open(ROOT + "/known-findings.txt") if l.startswith("known: property=" + self.prop + " ")] if os.path.exists(ROOT + "/known-findings.txt") else []
        samples = []
        for r in sorted(R, key=lambda r: r["variant"]):
            samples += [f"{r['variant']}: {s}" for s in r["samples"][:2]]
        funcs = {}
        for r in R:
            funcs.setdefault(r["variant"], set()).update(r["functions"])
        spec = plans.DESCR[self.prop]
        cov = {
            "states": tot("paths"), "transitions": tot("runs") + tot("forks"), "traces_validated_against_impl": len([c for c in self.conf if not c[2]]),
            "samples": samples[:40], "explanation": spec["how"],
            "implementations": sorted({u for r in R for u in r["users"]}), "distinct_encodings": len({(r["variant"], r["part"]) for r in R}),
            "functions_encoded": {k: sorted(x) for k, x in sorted(funcs.items())},
            "bounds": spec["bounds"][self.tier], "tasks_per_encoding": {j["v"].name + "/" + j["part"]: ";".join(j["tasks"]) for j in jobs} if self.tier == "quick" else len(jobs),
            "tasks": tot("tasks"), "tasks_done": tot("tasks_done"), "obligations": tot("obligations"), "discharged_by_structural_equality_after_lemmas": tot("obl_structural"), "discharged_by_a_final_query": tot("obl_solver"),
            "obligations_unknown": tot("obl_unknown"), "graph_nodes": tot("nodes"), "lemma_queries": tot("lemma_queries"), "lemmas_reused": tot("lemma_hits"), "node_merges": tot("merges"), "path_queries": tot("branch_queries") + tot("addr_queries") + tot("big_queries"),
            "solver_s": round(tot("solver_s"), 2), "memory_accesses_checked": tot("accesses"), "tasks_with_a_feasible_path": tot("vacuity_ok"), "unique_length_paths": tot("unique_lengths"),
            "static_data_written": sorted({g for r in R for g in r["global_writes"]}), "reports_replayed": self.disagree, "undecided": [list(u) for u in self.undecided], "conformance_runs": self.conf[:60], "notes": self.notes,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov, "assumptions": spec.get("assume", []) + plans.ASSUME, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        tmp = f"{ROOT}/evidence/.{self.prop}.{os.getpid()}"
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, f"{ROOT}/evidence/{self.prop}.json")
        for k in known:
            print("KNOWN-FINDING:" + k[len("known:"):])
        for n in self.notes:
            print("note:", n)
        for u in self.undecided:
            print("UNDECIDED", u[0], "-", u[1])
        print(f"{self.prop} {self.tier}: {cov['distinct_encodings']} encodings of {len(cov['implementations'])} implementations, {cov['tasks_done']} of {cov['tasks']} tasks, {cov['obligations']} obligations, {cov['states']} paths, {cov['lemma_queries'] + cov['path_queries']} solver queries ({cov['solver_s']} s), {cov['traces_validated_against_impl']} conformance runs, {ev['wall_s']} s")
        if self.viol:
            info, path = self.viol[0]
            print(f"{info['variant']}: {info['kind']} at {info['where']}: {info['detail']}")
            print(f"  on the real code: {info['native']}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        off = [c for c in self.conf if c[2]]
        for c in off:
            print("note: conformance run disagrees:", c)
        if not R or not tot("vacuity_ok"):
            print("nothing was explored")
            return 2
        if len({u[0].split()[0] for u in self.undecided}) * 3 > len({r["variant"] for r in R} | {u[0].split()[0] for u in self.undecided}):
            return 2
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(a.prop, a.tier, seed)
    try:
        rc = c.main()
    finally:
        c.work.close()
    sys.stdout.flush()
    os._exit(rc)


main()
