#!/usr/bin/env python3
"""Decides one property: builds the harness against /repo's working tree, lowers it to LLVM IR, runs the symbolic
executor (engine/) over the property's entry points, replays every counterexample natively and writes the evidence.

usage: check.py ID | check.py --setup | check.py --list
exit 0 held within the stated bounds, 1 violation (replayed), 2 no verdict"""
import concurrent.futures as cf
import fcntl, hashlib, itertools, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, "build")
TC = "stable-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUST_BACKTRACE", None)
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)


class NoVerdict(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise NoVerdict("command failed: %s\n%s" % (" ".join(cmd)[:300], p.stdout.decode("utf8", "replace")[-6000:]))
    return p.stdout.decode("utf8", "replace")


def tree_hash(root, skip):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def read(p):
    try:
        with open(p) as f:
            return f.read()
    except OSError:
        return ""


def write(p, s):
    t = p + ".tmp%d" % os.getpid()
    with open(t, "w") as f:
        f.write(s)
    os.replace(t, p)


def build_engine():
    stamp = os.path.join(B, "engine.stamp")
    h = tree_hash(os.path.join(V, "engine"), {"target"})
    exe = os.path.join(B, "engine", "release", "symx")
    if read(stamp) == h and os.path.exists(exe):
        return
    sh(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(V, "engine", "Cargo.toml"), "--target-dir", os.path.join(B, "engine")])
    write(stamp, h)


def build_harness():
    """harness + /repo -> build/hx.ll (for the executor) and build/replay (native)"""
    rh = tree_hash(REPO, {".git", "target"})
    hh = tree_hash(os.path.join(V, "harness"), {"target"}) + tree_hash(os.path.join(V, "replay"), set()) + hashlib.sha256(read(__file__).encode()).hexdigest()
    stamp = os.path.join(B, "hx.stamp")
    ll = os.path.join(B, "hx.ll")
    if read(stamp) == rh + hh and os.path.exists(ll) and os.path.exists(os.path.join(B, "replay")):
        return
    if os.path.exists(stamp):
        os.remove(stamp)
    t = os.path.join(B, "t")
    # cargo decides by modification time; a tree laid out afresh may carry any times, so force the rebuild of /repo's crate
    if read(os.path.join(B, "repo.stamp")) != rh:
        for sub in ("release/.fingerprint", "release/build", "release/deps"):
            d = os.path.join(t, sub)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if re.match(r"(lib)?(rustful|hx)-", n):
                        p = os.path.join(d, n)
                        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        write(os.path.join(B, "repo.stamp"), "")
    env = dict(ENV, RUSTFLAGS="-C no-prepopulate-passes", CARGO_CFG_HTTPARSE_DISABLE_SIMD="1", CARGO_INCREMENTAL="0")
    dep = os.path.join(t, "release/deps")
    if os.path.isdir(dep):
        for n in os.listdir(dep):
            if n.startswith("hx-") or n.startswith("libhx-"):
                os.remove(os.path.join(dep, n))
    fp = os.path.join(t, "release/.fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith("hx-"):
                shutil.rmtree(os.path.join(fp, n))
    sh(["cargo", "rustc", "--release", "--offline", "--lib", "--manifest-path", os.path.join(V, "harness", "Cargo.toml"), "--target-dir", t, "--", "-C", "save-temps"], env=env)
    bc = [n for n in os.listdir(dep) if n.startswith("hx-") and n.endswith(".lto.input.bc")]
    if len(bc) != 1:
        raise NoVerdict("expected one .lto.input.bc, found %r" % bc)
    bc = os.path.join(dep, bc[0])
    sysroot = sh(["rustc", "--print", "sysroot"]).strip()
    bin_ = os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    nm = sh([os.path.join(bin_, "llvm-nm"), bc])
    entries = sorted(set(re.findall(r" T (vx_\w+)", nm)))
    passes = "internalize,globaldce,always-inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,dce),globaldce"
    tmp = ll + ".tmp%d" % os.getpid()
    sh([os.path.join(bin_, "opt"), "-S", "-strip-debug", "-passes=" + passes, "-internalize-public-api-list=" + ",".join(entries), bc, "-o", tmp])
    os.replace(tmp, ll)
    tab = os.path.join(B, "entries.c")
    with open(tab, "w") as f:
        f.write("typedef struct { const char *name; void (*f)(void); } Entry;\n")
        for e in entries:
            f.write("void %s(void);\n" % e)
        f.write("const Entry vx_entries[] = {\n" + "".join('{"%s", %s},\n' % (e, e) for e in entries) + "{0, 0}};\n")
    lib = os.path.join(t, "release", "libhx.a")
    sh(["gcc", "-O1", "-w", "-o", os.path.join(B, "replay"), os.path.join(V, "replay", "driver.c"), tab, lib, "-lpthread", "-ldl", "-lm"])
    for n in os.listdir(dep):
        if n.startswith("hx-") and (n.endswith(".bc") or n.endswith(".o")):
            os.remove(os.path.join(dep, n))
    write(os.path.join(B, "repo.stamp"), rh)
    write(stamp, rh + hh)


def build():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        with cf.ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(build_engine), ex.submit(build_harness)
            a.result()
            b.result()
        return time.time() - t0


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.dir = os.path.join(B, "run", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.procs = {}
        self.stop = False
        self.lk = threading.Lock()

    def engine(self, i, job):
        out = os.path.join(self.dir, "j%d.json" % i)
        cmd = [os.path.join(B, "engine/release/symx"), "--ll", os.path.join(B, "hx.ll"), "--entry", job["entry"], "--out", out, "--seed", str(self.seed), "--samples", str(job["samples"]), "--max-secs", str(job["max_secs"]), "--params", ",".join(map(str, job["params"])), "--max-instrs", str(job["max_instrs"])]
        if job["known"]:
            cmd += ["--max-violations", "8"]
        if job["fixed"]:
            cmd += ["--fixed", ",".join(map(str, job["fixed"]))]
        with self.lk:
            if self.stop:
                return None
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "wb"), env=ENV)
            self.procs[i] = p
        p.wait()
        with self.lk:
            del self.procs[i]
        try:
            with open(out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            if self.stop:
                return None
            return {"errors": ["engine exit %s: %s" % (p.returncode, read(out + ".err")[-400:])], "violations": [], "samples": []}
        return r

    def kill(self):
        with self.lk:
            self.stop = True
            for p in self.procs.values():
                p.kill()

    def native(self, job, inputs, name, env=ENV, limit=30):
        f = os.path.join(self.dir, name)
        with open(f, "w") as fh:
            fh.write("# %s %s\n" % (job["entry"], " ".join(map(str, job["params"]))))
            for k, v in inputs:
                fh.write("%s %s\n" % (k, v))
        try:
            p = subprocess.run([os.path.join(B, "replay"), job["entry"], f] + [str(x) for x in job["params"]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, env=env)
        except subprocess.TimeoutExpired:
            return f, "timeout", "", ""
        return f, p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")

    def confirm(self, job, v, n):
        """replays a counterexample; returns (file, description) when the real code does the same"""
        f, rc, so, se = self.native(job, v["inputs"], "v%d.txt" % n)
        if rc == 0 and "VX-RACE" in so:
            # two threads: try the other's operation in front of every machine instruction of this one's that touches shared memory
            f, rc, so, se = self.native(job, v["inputs"], "v%d.txt" % n, env=dict(ENV, VX_STEP="1"), limit=120)
        got = re.search(r"^VX-ASSERT (.*)$", so, re.M)
        ok = False
        if v["id"] in ("panic", "abort"):
            ok = rc in (-6, -4, 134)
        elif v["id"] == "no-termination":
            ok = rc in ("timeout", -24, -9)
        else:
            ok = rc == 10 and got is not None
        return ok, f, (got.group(1) if got else (se.strip().split("\n")[0:2] or [""])), rc

    def validate(self, job, r, n0):
        """replays sampled paths and compares every recorded output"""
        good, bad = 0, []
        for k, s in enumerate(r.get("samples", [])):
            f, rc, so, se = self.native(job, s["inputs"], "s%d.txt" % n0)
            outs = [[int(a), b] for a, b in re.findall(r"^OUT (\d+) ([0-9a-f]*)$", so, re.M)]
            if s["end"] == "end" and rc == 0 and outs == [[a, b] for a, b in s["outs"]]:
                good += 1
            elif s["end"] != "end":
                continue
            else:
                bad.append("trace differs: %s %s rc=%s native=%s symbolic=%s" % (job["entry"], s["inputs"], rc, outs[:6], s["outs"][:6]))
            os.remove(f)
        return good, bad


def known_findings(pid):
    """the committed list of defects that are recorded and not repaired; see known_findings.txt"""
    out = []
    for l in read(os.path.join(V, "known_findings.txt")).split("\n"):
        if l.startswith("finding: "):
            k = json.loads(l[len("finding: "):])
            if k["property"] == pid:
                out.append(k)
    return out


def expand(spec, known):
    jobs = []
    for j in spec:
        j = dict({"params": [], "split": [], "samples": 8, "max_secs": 600, "max_instrs": 60000000}, **j)
        # an entry of split is a number of alternatives (all of them), or None (not forced)
        rng = [list(range(s)) if isinstance(s, int) else ["_"] for s in j["split"]]
        for fx in itertools.product(*rng):
            kn = [k for k in known if k["entry"] == j["entry"] and k["params"] == j["params"]]
            jobs.append(dict(j, fixed=list(fx), known=kn))
    return jobs


def main():
    sys.path.insert(0, V)
    import checks
    if sys.argv[1:] == ["--setup"]:
        print("built in %.1f s" % build())
        return 0
    if sys.argv[1:] == ["--list"]:
        print("\n".join(sorted(checks.CHECKS)))
        return 0
    pid = sys.argv[1]
    c = checks.CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bt = build()
    run = Run(pid, tier, seed)
    jobs = expand(c["jobs"](tier), known_findings(pid))
    res = [None] * len(jobs)
    viol, errors, found, good = [], [], [], 0
    lk = threading.Lock()

    def one(i):
        nonlocal good
        if run.stop:
            return
        r = run.engine(i, jobs[i])
        if r is None:
            return
        res[i] = r
        for n, v in enumerate(r.get("violations", [])):
            ok, f, got, rc = run.confirm(jobs[i], v, i * 100 + n)
            kn = [k for k in jobs[i]["known"] if k["assertion"] == v["id"]]
            if ok and kn:
                with lk:
                    found.append(kn[0]["what"])
                continue
            with lk:
                if ok:
                    viol.append((jobs[i], v, f, got))
                else:
                    errors.append("counterexample did not reproduce natively: %s %s %s (native rc %s, %s)" % (jobs[i]["entry"], v["id"], v["inputs"], rc, got))
            if ok:
                run.kill()
        if run.stop:
            return
        sp = jobs[i]["split"]
        for s in r.get("samples", [])[:1]:
            picks = [k for k, _ in s["inputs"] if k.startswith("pick")]
            for k, n in enumerate(sp):
                if isinstance(n, int) and k < len(picks) and picks[k] != "pick/%d" % n:
                    with lk:
                        errors.append("job split %s does not match the harness (%s)" % (sp, picks[k]))
        g, bad = run.validate(jobs[i], r, i)
        with lk:
            good += g
            errors.extend(bad)
            errors.extend("%s %s %s: %s" % (jobs[i]["entry"], jobs[i]["params"], jobs[i]["fixed"], e) for e in r.get("errors", []))
            if r.get("unknown"):
                errors.append("%s: solver gave up on %d queries" % (jobs[i]["entry"], r["unknown"]))

    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(len(jobs))))
    done = [(j, r) for j, r in zip(jobs, res) if r]
    tot = lambda k: sum(r.get(k, 0) for _, r in done)
    covers, asserts, funcs = {}, {}, set()
    for _, r in done:
        for k, n in r.get("covers", {}).items():
            covers[k] = covers.get(k, 0) + n
        for k, n in r.get("asserts", {}).items():
            asserts[k] = asserts.get(k, 0) + n
        funcs |= set(r.get("repo_functions", []))
    if not viol:
        for k in c["covers"]:
            if not covers.get(k):
                errors.append("vacuity guard: witness '%s' was not reached" % k)
        if not good and not errors:
            errors.append("no trace validated against the native build")
    samples = [{"entry": j["entry"], "params": j["params"], "inputs": s["inputs"], "outputs": s["outs"][:8]} for j, r in done for s in r.get("samples", [])[:2]][:12]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": good, "samples": samples,
            "explanation": "states = complete symbolic paths, each standing for every input satisfying its path condition; transitions = LLVM instructions executed symbolically",
            "bounds": c["bounds"][tier] if isinstance(c["bounds"], dict) else c["bounds"],
            "jobs": len(jobs), "jobs_completed": len(done), "infeasible_paths": tot("infeasible"), "forks": tot("forks"),
            "solver": "z3 4.8.12 (QF_BV, incremental, through its C API)",
            "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"), "query_cache_hits": tot("query_cache_hits"),
            "solver_s": round(sum(r.get("solver_s", 0) for _, r in done), 3), "max_query_s": max([r.get("max_query_s", 0) for _, r in done] or [0]),
            "assertions_evaluated": asserts, "assertions_decided_by_solver": tot("asserts_by_solver"), "assertions_decided_by_rewriting": tot("asserts_by_rewriting"),
            "reachability_witnesses": covers, "repo_functions_encoded": sorted(funcs), "functions_encoded": max([r.get("functions_executed", 0) for _, r in done] or [0]),
            "build_s": round(bt, 1), "errors": errors[:10], "known_findings_seen": sorted(set(found)),
        },
        "assumptions": c.get("assumptions", []) + checks.COMMON,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    write(os.path.join(V, "evidence", pid + ".json"), json.dumps(ev, indent=1))
    for k in sorted(set(found)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s %s: %d paths, %d instructions, %d queries (%d sat, %d unsat) %.1f s solver, %d traces validated, build %.1f s, wall %.1f s" % (pid, tier, tot("paths"), tot("instructions"), tot("queries"), tot("sat"), tot("unsat"), ev["coverage"]["solver_s"], good, bt, ev["wall_s"]))
    if viol:
        j, v, f, got = viol[0]
        dst = os.path.join(V, "evidence", "%s.replay.txt" % pid)
        with open(f) as a, open(dst, "w") as b:
            b.write("# %s: %s\n# %s\n# stack: %s\n# rerun: %s %s %s %s\n" % (pid, v["id"], v["detail"], " < ".join(v["stack"][:8]), os.path.join(B, "replay"), j["entry"], dst, " ".join(map(str, j["params"]))))
            b.write(a.read())
        print("violated: %s (%s) native: %s" % (v["id"], v["detail"], got))
        print("VIOLATION property=%s replay=%s" % (pid, dst))
    for e in errors[:10]:
        print("NO-VERDICT:", e[:400])
    shutil.rmtree(run.dir, ignore_errors=True)
    return 1 if viol else 2 if errors else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print("NO-VERDICT:", e)
        sys.exit(2)
