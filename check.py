#!/usr/bin/env python3
"""check.py <property> [quick|thorough]    run the check of one property (tier defaults to $VERIF_TIER or quick)
   check.py --setup                        build every engine from /repo's working tree
   check.py --replay FILE                  replay one recorded violation

Exit 0: the property held on everything explored. Exit 1: `VIOLATION property=<id> replay=<path>` lines say
where it did not. Anything else: the check itself failed (it did not build, or an engine broke)."""
import fcntl, hashlib, json, os, resource, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import table  # noqa: E402

ENV = dict(os.environ)
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "PYTHONPATH", "LD_LIBRARY_PATH", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           PYTHONDONTWRITEBYTECODE="1", PYO3_PYTHON="/usr/bin/python3.12", RUST_BACKTRACE="0")
ENV["PATH"] = ENV.get("PATH", "") + ":/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules", "__pycache__"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".py", ".pyi")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def cargo(args, cwd, target, log):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, target))
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(os.path.join(OUT, log), "w") as f:
        f.write(r.stdout)
    if r.returncode != 0:
        die("cargo %s in %s failed:\n%s" % (" ".join(args), cwd, r.stdout[-6000:]))


# what each engine needs built; every build is keyed on the contents of /repo's sources, not on time stamps
BUILDS = {
    "mc-checked": lambda: cargo(["build", "--offline"], VERIF + "/mc", "mc", "build-mc-checked.log"),
    "mc-plain": lambda: cargo(["build", "--offline", "--release"], VERIF + "/mc", "mc", "build-mc-plain.log"),
    "sched": lambda: build_sched(),
    "reml": lambda: cargo(["build", "--offline", "-p", "reductionml-cli"], REPO, "repo", "build-reml.log"),
    "python": lambda: build_python(),
}
STALE = {  # packages whose fingerprints are dropped when the contents of /repo changed
    "mc-checked": ("mc", VERIF + "/mc", [[], "reductionml-core"]),
    "mc-plain": ("mc", VERIF + "/mc", [["--release"], "reductionml-core"]),
}


def build_sched():
    subprocess.run([sys.executable, VERIF + "/sched/prepare.py", TARGET + "/sched-src"], check=True, env=ENV)
    cargo(["build", "--offline", "--release"], TARGET + "/sched-src/sched", "sched", "build-sched.log")


def build_python():
    cargo(["build", "--offline", "-p", "reductionml-python"], REPO, "repo", "build-python.log")
    stage = TARGET + "/python-stage/reductionml"
    subprocess.run(["rm", "-rf", TARGET + "/python-stage"], check=True)
    os.makedirs(os.path.dirname(stage))
    subprocess.run(["cp", "-r", REPO + "/reductionml-python/python/reductionml", stage], check=True)
    subprocess.run(["cp", TARGET + "/repo/debug/libreductionml.so", stage + "/_reductionml.so"], check=True)


def build(names):
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        now = repo_hash()
        for n in names:
            stamp = os.path.join(TARGET, ".stamp-" + n)
            old = open(stamp).read() if os.path.exists(stamp) else None
            if old != now:
                clean_stale(n)
            if os.path.exists(stamp):
                os.unlink(stamp)
            BUILDS[n]()
            with open(stamp, "w") as f:
                f.write(now)


def clean_stale(n):
    """Sources changed since this engine was last built here: forget what cargo believes about /repo's crates."""
    dirs = {"mc-checked": "mc/debug", "mc-plain": "mc/release", "sched": "sched/release", "reml": "repo/debug",
            "python": "repo/debug"}
    fp = os.path.join(TARGET, dirs[n], ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("reductionml", "reml", "mc-", "sched")):
                subprocess.run(["rm", "-rf", os.path.join(fp, d)], check=True)


def known(prop):
    """known_findings.txt: `known: property=<id> space=<space> detail=<substring> | <what fails>`"""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        line = line.strip()
        if not line.startswith("known: property=%s " % prop):
            continue
        head, what = line.split(" | ", 1)
        space = head.split(" space=", 1)[1].split(" detail=", 1)[0]
        res.append(dict(space=space, detail=head.split(" detail=", 1)[1], what=what, hit=0))
    return res


def engine_cmd(e, prop, tier, secs, out, only=None):
    name = e["engine"]
    if name.startswith("mc-"):
        b = TARGET + ("/mc/debug/mc" if name == "mc-checked" else "/mc/release/mc")
        cmd = [b, prop, tier, "--secs", str(secs), "--out", out]
    elif name == "sched":
        cmd = [TARGET + "/sched/release/sched", prop, tier, "--secs", str(secs), "--out", out]
    else:
        cmd = [e.get("python", sys.executable), os.path.join(VERIF, e["script"]), prop, tier, "--secs", str(secs), "--out", out]
    if only:
        cmd += ["--only", only["space"], ",".join(map(str, only["choices"]))]
    return cmd


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def spawn(e, prop, tier, secs, out, only=None):
    env = dict(ENV, VERIF_TARGET=TARGET, VERIF_OUT=OUT)
    return subprocess.run(engine_cmd(e, prop, tier, secs, out, only), env=env, cwd=VERIF, timeout=secs + 90, preexec_fn=limit,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def died(e, prop, tier, out, cur, rc):
    """A signal ended the engine: run what each worker was at by itself; what ends by a signal again is a violation."""
    b = open(cur, "rb").read()
    os.unlink(cur)
    num = lambda at: int.from_bytes(b[at:at + 8], "little")
    space = b[8:8 + num(0)].decode()
    found = []
    for at in range(1 << 16, len(b), 1 << 16):
        if num(at):
            n = num(at + 8)
            choices = [int.from_bytes(b[at + 16 + 4 * i:at + 20 + 4 * i], "little") for i in range(n)]
            try:
                r = spawn(e, prop, tier, 60, out + ".again", dict(space=space, choices=choices))
            except subprocess.TimeoutExpired:
                continue
            if r.returncode < 0:
                found.append(dict(space=space, choices=choices, detail="signal %d ends the process\n%s" % (-r.returncode, r.stdout[-500:])))
    for f in (out + ".again", out + ".again.cur"):
        if os.path.exists(f):
            os.unlink(f)
    if not found:
        return None
    return dict(property=prop, evaluations=1, distinct_nontrivial=1, states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                notes={}, bounds=[], spaces=[dict(name=space, paths=1, complete=False)], violations=found, engine_errors=[], wall_s=0)


def run_engine(e, prop, tier, secs, only=None):
    out = os.path.join(OUT, "result-%s-%s-%d.json" % (prop, e["engine"], os.getpid()))
    try:
        r = spawn(e, prop, tier, secs, out, only)
    except subprocess.TimeoutExpired:
        die("engine %s of %s did not stop" % (e["engine"], prop))
    cur = out + ".cur"
    if r.returncode < 0 and os.path.exists(cur):
        j = died(e, prop, tier, out, cur, r.returncode)
        if j:
            return j
    if os.path.exists(cur):
        os.unlink(cur)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        msg = r.stdout[-4000:]
        if os.path.exists(out):
            msg += "\n".join(json.load(open(out)).get("engine_errors", [])[:5])
        die("engine %s of %s failed with %d:\n%s" % (e["engine"], prop, r.returncode, msg))
    j = json.load(open(out))
    os.unlink(out)
    if j["engine_errors"]:
        die("engine %s of %s: %s" % (e["engine"], prop, j["engine_errors"][:3]))
    return j


def check(prop, tier):
    t0 = time.time()
    spec = table.CHECKS.get(prop)
    if spec is None:
        die("no check for " + prop)
    needs = []
    for e in spec["engines"]:
        for n in e.get("needs", [e["engine"]]):
            if n not in needs:
                needs.append(n)
    build(needs)
    built = time.time() - t0
    budget = 240 if tier == "quick" else max(60, int((780 - built) / len(spec["engines"])))
    kn = known(prop)
    runs, fresh = [], []
    for e in spec["engines"]:
        j = run_engine(e, prop, tier, budget)
        runs.append((e, j))
        for v in j["violations"]:
            k = next((k for k in kn if k["space"] == v["space"] and k["detail"] in v["detail"]), None)
            if k:
                k["hit"] += 1
            else:
                fresh.append((e, v))
    os.makedirs(OUT + "/replay", exist_ok=True)
    lines = []
    for i, (e, v) in enumerate(fresh[:20]):
        p = os.path.join(OUT, "replay", "%s-%s-%d.json" % (prop, e["engine"], i))
        with open(p, "w") as f:
            json.dump(dict(property=prop, tier=tier, engine=e, **v,
                           replay="python3 %s/check.py --replay %s" % (VERIF, p)), f, indent=1)
        lines.append((p, v))
    write_evidence(prop, tier, spec, runs, fresh, kn, time.time() - t0)
    for k in kn:
        if k["hit"]:
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, k["what"], k["hit"]))
    for p, v in lines:
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  %s %s: %s" % (v["space"], v["choices"], v["detail"][:500].replace("\n", " ")))
    tot = sum(j["evaluations"] + j["transitions"] for _, j in runs)
    print("%s %s: %d evaluations/transitions, %d violations, %.1fs" % (prop, tier, tot, len(fresh), time.time() - t0))
    return 1 if fresh else 0


def write_evidence(prop, tier, spec, runs, fresh, kn, wall):
    s = lambda k: sum(j.get(k, 0) for _, j in runs)
    samples, bounds, spaces, notes = [], [], [], {}
    for e, j in runs:
        samples += [x for x in j["samples"] if x not in samples][:8]
        bounds += [b for b in j["bounds"] if b not in bounds]
        spaces += [dict(sp, engine=e["engine"]) for sp in j["spaces"]]
        for k, v in j.get("notes", {}).items():
            notes[k] = notes.get(k, 0) + v
    cov = dict(samples=samples, rule=spec["rule"], bounds=bounds, spaces=spaces, notes=notes,
               exhaustive=all(sp["complete"] for sp in spaces) and bool(spaces), evaluations=s("evaluations"))
    if spec["level"] == "model_checking":
        cov.update(states=s("states"), transitions=s("transitions"),
                   traces_validated_against_impl=s("traces_validated_against_impl"))
        if s("distinct_nontrivial"):
            cov["distinct_nontrivial"] = s("distinct_nontrivial")
    else:
        cov.update(distinct_nontrivial=s("distinct_nontrivial"))
        if s("transitions"):
            cov.update(states=s("states"), transitions=s("transitions"))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec["level"], coverage=cov,
              assumptions=spec["assumptions"], wall_s=round(wall, 2), violations=len(fresh))
    if kn:
        cov["known_findings_reproduced"] = sum(1 for k in kn if k["hit"])
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmp = VERIF + "/evidence/.%s.tmp" % prop
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, VERIF + "/evidence/%s.json" % prop)


def replay(path):
    r = json.load(open(path))
    e = r["engine"]
    build(e.get("needs", [e["engine"]]))
    j = run_engine(e, r["property"], r["tier"], 120, dict(space=r["space"], choices=r["choices"]))
    for v in j["violations"]:
        print("reproduced: %s %s\n%s" % (v["space"], v["choices"], v["detail"]))
    if not j["violations"]:
        print("not reproduced")
    return 1 if j["violations"] else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        needs = []
        for c in table.CHECKS.values():
            for e in c["engines"]:
                needs += [n for n in e.get("needs", [e["engine"]]) if n not in needs]
        build(needs)
        print("built: " + ", ".join(needs))
    elif a[:1] == ["--replay"]:
        sys.exit(replay(a[1]))
    else:
        sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
