#!/usr/bin/env python3
"""memcheck.py C23|C24 [--replay FILE] [--build]

C23: the workloads of all other monitors under AddressSanitizer (two fills of fresh memory, so that a result
that depends on uninitialised memory shows) and, on small data, in the Miri interpreter.
C24: the sharing workload plainly (more comparisons) and under ThreadSanitizer with an instrumented standard library."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{VERIF}/tools")
from check import SEED, TIER, died, env as base_env, tail_of  # noqa: E402

SEED = int(SEED)
THOROUGH = TIER == "thorough"
CHAINS = "/root/.rustup/toolchains"
OLD = f"{CHAINS}/nightly-2024-09-04-x86_64-unknown-linux-gnu"
NEW = f"{CHAINS}/nightly-x86_64-unknown-linux-gnu"
HOST = "x86_64-unknown-linux-gnu"
T = f"{VERIF}/target"
ASAN_OPTIONS = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:malloc_fill_byte=%d:max_malloc_fill_size=67108864"
FILLS = (0xBE, 0x11)
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance "
LENS = (20, 9, 6, 12)


class Unbuildable(Exception):
    pass


def sh(cmd, e, cwd):
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Unbuildable("\n".join(r.stdout.splitlines()[-40:]))
    return r.stdout


# ------------------------------------------------------------------ builds
def build_main():
    e, target = base_env("main")
    sh(["cargo", "build", "--offline", "-q"], e, f"{VERIF}/harness")
    return f"{target}/debug/vh"


def build_asan():
    e, _ = base_env("main")
    e.update(RUSTFLAGS="--cap-lints warn -Zsanitizer=address", CARGO_TARGET_DIR=f"{T}/asan")
    sh(["cargo", "build", "--offline", "-q", "--target", HOST, "--bin", "vh"], e, f"{VERIF}/harness")
    return f"{T}/asan/{HOST}/debug/vh"


def miri_env(k=0):
    """the first four processes also check aliasing, which costs half the speed"""
    e, _ = base_env("main")
    e.update(CARGO=f"{OLD}/bin/cargo", RUSTC=f"{NEW}/bin/rustc", MIRI=f"{NEW}/bin/miri", MIRI_SYSROOT=f"{T}/miri/cache/miri",
             RUSTFLAGS="--cap-lints warn --cfg vortex_newer_rustc", CARGO_TARGET_DIR=f"{T}/miri/t", MIRIFLAGS=MIRIFLAGS + ("-Zmiri-tree-borrows" if k < 4 else "-Zmiri-disable-stacked-borrows"))
    return e


def miri_cmd(args):
    return [f"{NEW}/bin/cargo-miri", "miri", "run", "--offline", "-q", "--bin", "vh", "--"] + [str(a) for a in args]


def build_miri():
    if not os.path.isdir(f"{T}/miri/cache/miri/lib"):
        e, _ = base_env("main")
        e.update(RUSTUP_TOOLCHAIN="nightly", XDG_CACHE_HOME=f"{T}/miri/cache", CARGO_TARGET_DIR=f"{T}/miri/setup", RUSTFLAGS="")
        sh(["cargo", "miri", "setup"], e, VERIF)
    sh(miri_cmd(["probe", "none"]), miri_env(), f"{VERIF}/harness")


def tsan_sysroot():
    """The newer toolchain's standard library, instrumented: the older one's cannot be rebuilt offline."""
    s = f"{T}/tsan/sysroot"
    if os.path.exists(f"{s}/done"):
        return s
    w = f"{T}/tsan/std"
    for d in (s, w):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f"{w}/src")
    open(f"{w}/src/lib.rs", "w").close()
    open(f"{w}/Cargo.toml", "w").write('[package]\nname = "empty_crate"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n')
    open(f"{w}/cfg.toml", "w").write('[source.crates-io]\nreplace-with = "v"\n[source.v]\ndirectory = "%s/lib/rustlib/src/rust/library/vendor"\n' % NEW)
    e, _ = base_env("main")
    e.update(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=thread", CARGO_TARGET_DIR=f"{w}/t", CARGO_INCREMENTAL="0")
    sh(["cargo", "build", "--offline", "-q", "--release", "--config", "cfg.toml", "-Zbuild-std=std,panic_abort,panic_unwind,proc_macro,test", "--target", HOST], e, w)
    lib = f"{s}/lib/rustlib/{HOST}/lib"
    os.makedirs(lib)
    found = [p for ext in ("rlib", "rmeta") for p in glob.glob(f"{w}/t/{HOST}/release/**/*.{ext}", recursive=True) if "empty_crate" not in p]
    for p in found:
        shutil.copy(p, lib)
    for p in glob.glob(f"{NEW}/lib/rustlib/{HOST}/lib/librustc-nightly_rt.*.a"):
        shutil.copy(p, lib)
    shutil.rmtree(w, ignore_errors=True)
    open(f"{s}/done", "w").close()
    return s


def build_tsan():
    s = tsan_sysroot()
    e, _ = base_env("main")
    e.update(RUSTC=f"{NEW}/bin/rustc", RUSTFLAGS=f"--cap-lints warn -Zsanitizer=thread --sysroot {s} --cfg vortex_newer_rustc", CARGO_TARGET_DIR=f"{T}/tsan/t")
    sh(["cargo", "build", "--offline", "-q", "--target", HOST, "--bin", "vh"], e, f"{VERIF}/harness")
    return f"{T}/tsan/t/{HOST}/debug/vh"


def together(*fs):
    """results or Unbuildable of each"""
    out = [None] * len(fs)

    def one(i):
        try:
            out[i] = fs[i]()
        except Unbuildable as x:
            out[i] = x
    ts = [threading.Thread(target=one, args=(i,)) for i in range(len(fs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out


# ------------------------------------------------------------------ running
class Proc:
    def __init__(self, scratch, name, cmd, e, inflight=True, cwd="/"):
        self.dir = f"{scratch}/{name}"
        os.makedirs(f"{self.dir}/evidence")
        e = dict(e, VERIF=self.dir)
        if inflight:
            cmd = cmd + ["--inflight", f"{self.dir}/inflight"]
        self.out, self.err = open(f"{self.dir}/out", "w+"), open(f"{self.dir}/err", "w+")
        self.p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=self.out, stderr=self.err, start_new_session=True)

    def wait(self, until):
        try:
            self.rc = self.p.wait(timeout=max(0.1, until - time.time()))
        except subprocess.TimeoutExpired:
            self.kill()
            self.rc = "time"
        for f in (self.out, self.err):
            f.seek(0)
        self.text, self.errtext = self.out.read()[-400000:], self.err.read()[-400000:]
        return self

    def kill(self):
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()

    def inflight(self):
        try:
            return [int(x) for x in open(f"{self.dir}/inflight").read().split()]
        except (OSError, ValueError):
            return []

    def evidence(self, prop):
        try:
            return json.load(open(f"{self.dir}/evidence/{prop}.json"))["coverage"]
        except (OSError, ValueError):
            return None


def alone(cmd, e, secs=600):
    """(return code, output) of one command; 124 when it does not end"""
    try:
        r = subprocess.run([str(c) for c in cmd], env=e, cwd=f"{VERIF}/harness", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


class Verdict:
    def __init__(self, prop):
        self.prop, self.fails, self.cov, self.t0 = prop, [], {}, time.time()
        self.total = {"evaluations": 0, "observations": 0, "distinct_nontrivial": 0}
        self.keys, self.samples, self.rule = {}, [], ""

    def fail(self, kind, case, seed, sig, detail, **more):
        if any(f["signature"] == sig for f in self.fails):
            return
        path = f"{VERIF}/replays/{self.prop}-{kind}-{seed}-{case}.json"
        j = {"property": self.prop, "kind": kind, "seed": seed, "case": case, "thorough": THOROUGH, "signature": sig, "detail": detail,
             "run": f"tools/check.py {self.prop} --replay {path}", **more}
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        json.dump(j, open(path, "w"), indent=1)
        self.fails.append(dict(j, path=path))

    def add(self, name, cov):
        """counts of one run, also kept apart by name"""
        if cov is None:
            return
        mine = self.cov.setdefault(name, {"evaluations": 0, "observations": 0, "coverage_keys": 0, "processes": 0})
        mine["processes"] += 1
        for k in ("evaluations", "observations"):
            self.total[k] += cov[k]
            mine[k] += cov[k]
        self.total["distinct_nontrivial"] += cov["distinct_nontrivial"]
        mine["coverage_keys"] = max(mine["coverage_keys"], cov["distinct_coverage_keys"])
        for k, n in cov["coverage_keys"].items():
            self.keys[k] = self.keys.get(k, 0) + n
        self.samples += cov["samples"][:2]
        self.rule = cov["rule"]

    def end(self, **extra):
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": "exploration",
              "coverage": {**self.total, "rule": self.rule or "-", "samples": self.samples[:6] or ["-"], "by_monitor": self.cov,
                           "distinct_coverage_keys": len(self.keys), "coverage_keys": dict(sorted(self.keys.items())[:400]), **extra},
              "wall_s": time.time() - self.t0, "violations": len(self.fails)}
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{self.prop}.json", "w"), indent=1)
        print(f"{self.prop} {TIER}: {self.total['evaluations']} cases, {self.total['observations']} observations, {len(self.keys)} coverage keys, "
              + ", ".join(f"{k} {v['evaluations']}" for k, v in self.cov.items()) + f", {time.time() - self.t0:.1f}s")
        for f in self.fails[:8]:
            print(f"# {f['signature']} :: {f['detail'][:1500]}".replace("\n", "\n#   "))
            print(f"VIOLATION property={self.prop} replay={f['path']}")
        return 1 if self.fails else 0


def judge_death(v, p, kind, exe, e, seed, more):
    """a run ended: did the code under test kill it?"""
    if p.rc == "time" or not died(p.rc) or p.rc == -signal.SIGKILL:
        return
    cases, found = p.inflight(), None
    for c in cases:
        rc, text = alone([exe, v.prop, "--seed", seed, "--case", c], e)
        if died(rc):
            found = (c, rc, text)
            break
    c, rc, text = found or (cases[0] if cases else 0, p.rc, p.errtext)
    v.total["evaluations"] += max(cases, default=0) + 1
    detail = tail_of(text)
    v.fail(kind, c, seed, f"{kind}: {gist(detail) or 'process died'} ({rc})", detail, isolated=found is not None, **more)


def gist(text):
    m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|unsafe precondition\(s\) violated: [^\n]{0,80}|panic in a [^\n]{0,60})", text)
    return m.group(1) if m else ""


# ------------------------------------------------------------------ C23
def asan_env(fill):
    e, _ = base_env("main")
    e["ASAN_OPTIONS"] = ASAN_OPTIONS % fill
    return e


def outcome(exe, seed, case, fill):
    rc, text = alone([exe, "C23", "--seed", seed, "--case", case], asan_env(fill), 300)
    m = re.search(r"^OUTCOME (.*?)^case \d+: ", text, re.M | re.S)
    return (rc if died(rc) else 0, m.group(1) if m else "as it should")


def c23(scratch):
    v = Verdict("C23")
    asan, miri = together(build_asan, build_miri)
    if isinstance(asan, Unbuildable):
        print(asan, file=sys.stderr)
        print("memcheck.py: the AddressSanitizer build failed", file=sys.stderr)
        return 2
    v.t0 = time.time()
    secs = 600 if THOROUGH else 40
    runs = [(fill, SEED + 1000 * i) for i, fill in enumerate(FILLS)]
    procs = []
    for fill, seed in runs:
        d = f"fill{fill}"
        procs.append(Proc(scratch, d, [asan, "C23", "--seed", str(seed), "--threads", "4", "--secs", str(secs), "--outcomes", f"{scratch}/{d}.json"]
                          + (["--cases", "2000000"] if THOROUGH else []), asan_env(fill)))
    compared = 0
    for p, (fill, seed) in zip(procs, runs):
        p.wait(v.t0 + secs + 400)
        v.add("asan", p.evidence("C23"))
        judge_death(v, p, "asan", asan, asan_env(fill), seed, {"fill": fill})
        if p.rc not in (0, 1, "time") and not died(p.rc):
            print(p.errtext[-4000:], file=sys.stderr)
            print(f"memcheck.py: the run under AddressSanitizer ended with {p.rc}", file=sys.stderr)
            return 2
        try:
            odd = json.load(open(f"{scratch}/fill{fill}.json"))
        except (OSError, ValueError):
            odd = []
        # does what went wrong depend on what fresh memory contains?
        for case, _ in odd[:: max(1, len(odd) // 24)][:24]:
            a, a2 = outcome(asan, seed, case, FILLS[0]), outcome(asan, seed, case, FILLS[0])
            b, b2 = outcome(asan, seed, case, FILLS[1]), outcome(asan, seed, case, FILLS[1])
            compared += 1
            if a == a2 and b == b2 and a != b:
                v.fail("fill", case, seed, "a result depends on uninitialised memory",
                       f"with fresh memory filled with {FILLS[0]:#x}: {a[1][:600]}\nwith {FILLS[1]:#x}: {b[1][:600]}")
    built = not isinstance(miri, Unbuildable)
    ub_skipped = 0
    if not built:
        print(f"# the build for Miri failed, Miri skipped: {str(miri)[-1500:]}")
    elif not v.fails:
        ub_skipped = miri_runs(v, scratch)
    return v.end(outcomes_compared_between_fills=compared, miri_built=built, miri_unsupported=ub_skipped)


def miri_runs(v, scratch):
    secs, workers = (1500, 8) if THOROUGH else (80, 8)
    t0, skipped = time.time(), 0

    def start(k, frm, n):
        left = int(t0 + secs - time.time())
        return Proc(scratch, f"miri{k}-{n}", miri_cmd(["C23", "--seed", SEED, "--threads", 1, "--max-len", LENS[k % 4], "--from", frm,
                                                     "--cases", (k + 1) * 10000, "--secs", left]), miri_env(k), cwd=f"{VERIF}/harness")
    live = {k: [start(k, k * 10000, 0)] for k in range(workers)}
    for k, ps in live.items():
        n = 0
        while True:
            p = ps[-1].wait(t0 + secs + (600 if THOROUGH else 60))
            at = p.inflight()
            at = at[0] if at else k * 10000
            ub = re.search(r"^error: Undefined Behavior: .*?(?=^error: aborting|\Z)", p.errtext, re.M | re.S)
            if ub and re.search(r"vortex", ub.group(0)):
                first = ub.group(0).splitlines()[0]
                v.fail("miri", at, SEED, re.sub(r"alloc\d+|0x[0-9a-f]+|\d{3,}", "N", first)[:200], ub.group(0)[:3000], max_len=LENS[k % 4], aliasing=k < 4)
            cov = p.evidence("C23")
            # evidence is written at the end only
            v.add("miri", cov or {"evaluations": max(0, at - k * 10000), "observations": max(0, at - k * 10000), "distinct_nontrivial": max(0, at - k * 10000),
                                  "distinct_coverage_keys": 0, "coverage_keys": {}, "samples": [], "rule": v.rule})
            if p.rc in (0, 1, "time") and not ub and cov or p.rc == "time" or time.time() - t0 > secs - 10 or n > 20 or v.fails:
                break
            skipped += 1
            n += 1
            ps.append(start(k, at + 1, n))
    return skipped


# ------------------------------------------------------------------ C24
TSAN_OPTIONS = "halt_on_error=0:exitcode=98:second_deadlock_stack=1:history_size=4"


def tsan_env():
    e, _ = base_env("main")
    e["TSAN_OPTIONS"] = TSAN_OPTIONS
    return e


def reports(text):
    return [m.group(0) for m in re.finditer(r"WARNING: ThreadSanitizer:.*?(?=^={10,}|\Z)", text, re.M | re.S)]


def c24(scratch):
    v = Verdict("C24")
    main, tsan = together(build_main, build_tsan)
    if isinstance(main, Unbuildable):
        print(main, file=sys.stderr)
        print("memcheck.py: the build failed", file=sys.stderr)
        return 2
    built = not isinstance(tsan, Unbuildable)
    if not built:
        print(f"# the build for ThreadSanitizer failed, skipped: {str(tsan)[-1500:]}")
    v.t0 = time.time()
    e, _ = base_env("main")
    secs = 600 if THOROUGH else 30
    cases = ["--cases", "500000" if THOROUGH else "12000"]
    plan = [("plain", main, e, SEED)] + ([("tsan", tsan, tsan_env(), SEED + 1000)] if built else [])
    races = 0
    for name, exe, e, seed in plan:
        p = Proc(scratch, name, [exe, "C24", "--seed", str(seed), "--secs", str(secs)] + cases, e).wait(time.time() + secs + 400)
        v.add(name, p.evidence("C24"))
        for line in re.findall(r"^VIOLATION property=C24 replay=(\S+)", p.text, re.M):
            j = json.load(open(line))
            v.fail(name, j["case"], seed, j["signature"], j["detail"] + "\n" + "\n".join(j["steps"]), max_len=j["max_len"])
        for r in reports(p.errtext):
            races += 1
            if re.search(r"vortex", r):
                frames = re.findall(r"#\d+ .*?(vortex\S*::\S+)", r)[:2]
                v.fail(name, (p.inflight() or [0])[0], seed, "data race: " + re.sub(r"::h[0-9a-f]{16}", "", " / ".join(frames))[:200], r[:4000])
        judge_death(v, p, name, exe, e, seed, {})
        if p.rc not in (0, 1, 98, "time") and not died(p.rc):
            print(p.errtext[-4000:], file=sys.stderr)
            print(f"memcheck.py: the {name} run ended with {p.rc}", file=sys.stderr)
            return 2
    return v.end(tsan_built=built, tsan_reports=races)


# ------------------------------------------------------------------
def replay(prop, j):
    kind, seed, case = j["kind"], j["seed"], j["case"]
    if kind == "asan":
        rc, text = alone([build_asan(), prop, "--seed", seed, "--case", case], asan_env(j["fill"]))
        bad = died(rc)
    elif kind == "fill":
        exe = build_asan()
        text = f"{outcome(exe, seed, case, FILLS[0])}\n{outcome(exe, seed, case, FILLS[1])}"
        bad = len(set(text.split("\n"))) > 1
    elif kind == "miri":
        build_miri()
        rc, text = alone(miri_cmd([prop, "--seed", seed, "--case", case, "--max-len", j["max_len"]]), miri_env(0 if j["aliasing"] else 7), 1800)
        bad = "error: Undefined Behavior" in text
    else:
        exe, e = (build_main(), base_env("main")[0]) if kind == "plain" else (build_tsan(), tsan_env())
        # schedules differ from run to run
        for _ in range(20):
            rc, text = alone([exe, prop, "--seed", seed, "--case", case] + (["--max-len", j["max_len"]] if "max_len" in j else []), e)
            bad = rc != 0
            if bad:
                break
    print(text)
    return 1 if bad else 0


def main():
    prop = sys.argv[1]
    if "--build" in sys.argv:
        bad = 0
        for r in together(build_asan, build_miri, build_tsan):
            if isinstance(r, Unbuildable):
                print(r, file=sys.stderr)
                bad = 1
        return bad
    if "--replay" in sys.argv:
        return replay(prop, json.load(open(sys.argv[sys.argv.index("--replay") + 1])))
    os.makedirs(T, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="mem-", dir=T)
    try:
        return {"C23": c23, "C24": c24}[prop](scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
