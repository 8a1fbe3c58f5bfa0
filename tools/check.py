#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: build the monitors from /repo's working tree, run one property's
monitor, turn crashes of the code under test into violations, report known findings."""
import json, os, re, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.environ.get("VERIF_SEED", "1")
TIER = os.environ.get("VERIF_TIER", "quick")
ABORT_SIGS = {signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE}

# property -> (crate directory, binary name, variant)
DRIVERS = json.load(open(f"{VERIF}/tools/drivers.json"))


def env(variant):
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             RUSTUP_TOOLCHAIN="nightly-2024-09-04", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", PYO3_PYTHON="/usr/bin/python3.12",
             PYTHONDONTWRITEBYTECODE="1", VERIF=VERIF, VERIF_SEED=SEED, VERIF_TIER=TIER)
    flags = "--cap-lints warn"
    target = f"{VERIF}/target/main"
    e.update(RUSTFLAGS=flags, CARGO_TARGET_DIR=target)
    e.pop("RUSTC", None)
    return e, target


def build(crate, variant):
    e, target = env(variant)
    cmd = ["cargo", "build", "--offline", "-q"]
    r = subprocess.run(cmd, cwd=f"{VERIF}/{crate}", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = [l for l in r.stdout.splitlines()]
        print("\n".join(errs[-60:]), file=sys.stderr)
        print(f"check.py: building {crate} failed", file=sys.stderr)
        sys.exit(2)
    return e, f"{target}/debug"


def died(rc):
    return rc < 0 or rc == 99 or rc in (134, 139)


def findings(prop):
    f = json.load(open(f"{VERIF}/known-findings.json"))
    return [x for x in f["findings"] if x["property"] == prop]


def tail_of(text):
    """the lines that say why the process died"""
    lines = text.splitlines()
    keep = [l for l in lines if re.search(r"ABORTING|ERROR: AddressSanitizer|WARNING: ThreadSanitizer|SUMMARY:|/repo/", l)]
    return "\n".join(keep[:25] or lines[-25:])


def main():
    prop = sys.argv[1]
    crate, binary, variant = DRIVERS[prop]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    if crate == "python":
        os.execv(sys.executable, [sys.executable, f"{VERIF}/tools/{binary}"] + sys.argv[1:])
    e, bindir = build(crate, variant)
    exe = f"{bindir}/{binary}"
    if replay:
        j = json.load(open(replay))
        e["VERIF_SEED"] = str(j["seed"])
        e["VERIF_TIER"] = "thorough" if j.get("thorough") else "quick"
        r = subprocess.run([exe, prop, "--case", str(j["case"]), "--max-len", str(j["max_len"])], env=e)
        sys.exit(1 if r.returncode else 0)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    os.makedirs(f"{VERIF}/replays", exist_ok=True)
    inflight = f"{VERIF}/replays/inflight-{prop}-{os.getpid()}"
    cap = 5400 if TIER == "thorough" else 600
    t0 = time.time()
    with open(inflight + ".err", "w+") as err:
        try:
            r = subprocess.run([exe, prop, "--inflight", inflight], env=e, timeout=cap, stdout=subprocess.PIPE, stderr=err, text=True)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as x:
            rc, out = 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        err.seek(0)
        errtext = err.read()[-200000:]
    if died(rc) and rc != -signal.SIGKILL:
        # find the case that kills the process
        cases = []
        try:
            cases = [int(x) for x in open(inflight).read().split()]
        except (OSError, ValueError):
            pass
        found = None
        for c in cases:
            q = subprocess.run([exe, prop, "--case", str(c)], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
            if died(q.returncode):
                found = (c, q.returncode, q.stdout)
                break
        c, crc, text = found or (cases[0] if cases else 0, rc, errtext)
        path = f"{VERIF}/replays/{prop}-{SEED}-{c}-crash.json"
        json.dump({"property": prop, "seed": int(SEED), "case": c, "max_len": 10000, "thorough": TIER == "thorough",
                   "signature": f"process died ({crc})", "isolated": found is not None, "inflight": cases,
                   "detail": tail_of(text), "run": f"tools/check.py {prop} --replay {path}"}, open(path, "w"), indent=1)
        json.dump({"property": prop, "tier": TIER, "seed": int(SEED), "level": "exploration",
                   "coverage": {"evaluations": (max(cases) + 1) if cases else 1, "distinct_nontrivial": 1,
                                "rule": "the run ended early: the code under test killed the process",
                                "samples": [tail_of(text)[:600]]},
                   "wall_s": time.time() - t0, "violations": 1}, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
        print(out)
        print(f"# process died: {crc}\n# " + tail_of(text).replace("\n", "\n# "))
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    for f in (inflight, inflight + ".err"):
        try:
            os.remove(f)
        except OSError:
            pass
    print(out, end="")
    if rc not in (0, 1):
        print(errtext[-4000:], file=sys.stderr)
        print(f"check.py: {binary} ended with {rc}", file=sys.stderr)
        sys.exit(2)
    for f in findings(prop):
        q = subprocess.run([exe, "probe", f["id"]], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
        if q.returncode != 0:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
        else:
            print(f"# finding {f['id']} no longer occurs")
    sys.exit(rc)


if __name__ == "__main__":
    main()
