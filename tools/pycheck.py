#!/usr/bin/env python3
"""pycheck.py PROPERTY [--replay FILE]: build the Python module from the working tree of ../repo, drive it with
tools/pywork.py in several processes, judge, write the evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.normpath(f"{VERIF}/../repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
PYTHON = "/opt/vp/venv/bin/python"
WORKERS = 8
CASES, SECS = (24_000, 60) if TIER == "quick" else (4_000_000, 1500)
RULE = (
    "Generated values of every supported type (lengths 0..9000, nulls, chunked, sliced) are handed to vortex.array() as Arrow arrays, tables or "
    "Python lists, passed through slice/take/filter/compress/compare/fill_forward, read back by scalar_at/to_arrow/to_numpy/to_pandas/to_polars; tables are "
    "written to files and read through vortex.io.read and every route of VortexDataset with projections, batch sizes and filters. "
    "A case is non-trivial when it has at least one row."
)


def build(stage):
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", RUSTUP_TOOLCHAIN="nightly-2024-09-04",
             CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", PYO3_PYTHON="/usr/bin/python3.12",
             CARGO_TARGET_DIR=f"{VERIF}/target/py", CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTFLAGS="--cap-lints warn")
    e.pop("RUSTC", None)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "-p", "pyvortex", "--lib", "--manifest-path", f"{REPO}/Cargo.toml"],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print("\n".join(r.stdout.splitlines()[-60:]), file=sys.stderr)
        print("pycheck.py: building pyvortex failed", file=sys.stderr)
        sys.exit(2)
    if stage:
        shutil.copytree(f"{REPO}/pyvortex/python/vortex", f"{stage}/vortex", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
        shutil.copy(f"{VERIF}/target/py/debug/libpyvortex.so", f"{stage}/vortex/_lib.abi3.so")


def work(stage, args, **kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "PYTHON"))}
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=stage, RUST_BACKTRACE="0", POLARS_MAX_THREADS="1", ARROW_IO_THREADS="2", OMP_NUM_THREADS="1")
    return subprocess.Popen([PYTHON, f"{VERIF}/tools/pywork.py"] + [str(a) for a in args], env=e, stdout=subprocess.DEVNULL, cwd="/", **kw)


def alone(stage, seed, case, scratch):
    """One case in its own process: (how it ended, what it reported)."""
    out = f"{scratch}/one.json"
    with open(f"{scratch}/one.err", "w+") as err:
        p = work(stage, ["--seed", seed, "--start", case, "--stride", 1, "--cases", case + 1, "--secs", 600, "--out", out], stderr=err)
        try:
            rc = p.wait(timeout=90)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return "hangs", []
        err.seek(0)
        text = err.read()[-20000:]
    if rc < 0:
        return f"died of signal {-rc}: {gist(text)}", []
    if rc:
        return f"harness failed ({rc}): {text[-2000:]}", None
    return "ended", json.load(open(out))["failures"]


def gist(text):
    keep = [l.strip() for l in text.splitlines() if re.search(r"panicked at|non-unwinding|terminate called|Fatal|/repo/", l)]
    return " / ".join(keep[:8])[:1500]


def main():
    prop = sys.argv[1]
    base = f"{VERIF}/target"
    os.makedirs(base, exist_ok=True)
    if "--build" in sys.argv:
        return build(None)
    scratch = tempfile.mkdtemp(prefix="pystage-", dir=base)
    procs = []
    try:
        build(scratch)
        if "--replay" in sys.argv:
            j = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            how, fails = alone(scratch, j["seed"], j["case"], scratch)
            print(how)
            for f in fails or []:
                print(f["signature"], "\n ", f["detail"], "\n  ", "\n   ".join(f["steps"]))
            sys.exit(1 if fails or how != "ended" else 0)
        t0 = time.time()
        for i in range(WORKERS):
            err = open(f"{scratch}/err{i}", "w")
            procs.append(work(scratch, ["--seed", SEED, "--start", i, "--stride", WORKERS, "--cases", CASES, "--secs", SECS, "--inflight", f"{scratch}/in{i}", "--out", f"{scratch}/out{i}.json"], stderr=err))
        ends = []
        for p in procs:
            try:
                ends.append(p.wait(timeout=max(1, t0 + SECS + 120 - time.time())))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                ends.append("hang")
        total = {"evals": 0, "obs": 0, "refused": 0, "keys": {}, "samples": [], "findings": {}}
        distinct, fails, late = set(), [], False
        for i, end in enumerate(ends):
            if end == 0:
                r = json.load(open(f"{scratch}/out{i}.json"))
                for k in ("evals", "obs", "refused"):
                    total[k] += r[k]
                for k in ("keys", "findings"):
                    for n, c in r[k].items():
                        total[k][n] = total[k].get(n, 0) + c
                total["samples"] += r["samples"]
                distinct.update(r["distinct"])
                fails += r["failures"]
                late |= r["stopped_by_time"]
                continue
            text = open(f"{scratch}/err{i}", errors="replace").read()[-100000:]
            if end == "hang" or end < 0 and -end != signal.SIGKILL:
                case = int(open(f"{scratch}/in{i}").read() or 0)
                how, again = alone(scratch, SEED, case, scratch)
                if end == "hang" and how != "hangs":
                    print(f"pycheck.py: worker {i} did not end, its case {case} does", file=sys.stderr)
                    sys.exit(2)
                total["evals"] += case // WORKERS + 1
                fails.append({"case": case, "signature": "the process hangs" if end == "hang" else f"the process died of signal {-end}",
                              "detail": f"alone: {how}; in the run: {gist(text)}", "steps": []})
            else:
                print(text[-4000:], file=sys.stderr)
                print(f"pycheck.py: worker {i} ended with {end}", file=sys.stderr)
                sys.exit(2)
        wall = time.time() - t0
        fails.sort(key=lambda f: len(json.dumps(f["steps"])))
        sig = {}
        for f in fails:
            sig.setdefault(f["signature"], []).append(f)
        ev = {
            "property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
            "coverage": {
                "evaluations": total["evals"], "distinct_nontrivial": len(distinct), "rule": RULE, "samples": total["samples"][:6] or ["-"], "observations": total["obs"],
                "refused_by_vortex": total["refused"], "processes": WORKERS, "distinct_coverage_keys": len(total["keys"]), "coverage_keys": dict(sorted(total["keys"].items())[:400]),
                "stopped_by_time": late, "known_findings_seen": total["findings"],
            },
            "wall_s": wall, "violations": len(fails),
        }
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{prop} {TIER}: {total['evals']} cases, {len(distinct)} distinct, {total['obs']} observations, {len(total['keys'])} coverage keys, {wall:.1f}s")
        for s, l in sorted(sig.items(), key=lambda x: -len(x[1]))[:10]:
            f = l[0]
            path = f"{VERIF}/replays/{prop}-{SEED}-{f['case']}.json"
            with open(path, "w") as o:
                json.dump({"property": prop, "seed": SEED, "case": f["case"], "signature": s, "detail": f["detail"], "steps": f["steps"], "run": f"tools/check.py {prop} --replay {path}"}, o, indent=1)
            print(f"# [{len(l)}x] {s} :: {f['detail'][:400]}".replace("\n", " / "))
            print(f"VIOLATION property={prop} replay={path}")
        if not fails:
            for x in json.load(open(f"{VERIF}/known-findings.json"))["findings"]:
                if x["property"] == prop:
                    p = work(scratch, ["--probe", x["id"]], stderr=subprocess.DEVNULL)
                    print(f"KNOWN-FINDING: property={prop} {x['what']}" if p.wait(timeout=120) == 1 else f"# finding {x['id']} no longer occurs")
        sys.exit(1 if fails else 0)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
