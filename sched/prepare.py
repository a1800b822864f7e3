#!/usr/bin/env python3
"""prepare.py DIR: lays out, under DIR, crates that compile /repo's own sources with the shims in place of std's threads
and synchronisation, parking_lot, flume and atomic-wait. The sources themselves are not edited: `std` is bound to a crate
that re-exports it. The command line's main.rs is copied with an entry function appended."""
import json, os, shutil, sys, tomllib

dst = os.path.abspath(sys.argv[1])
here = os.path.dirname(os.path.abspath(__file__))
repo = "/repo"
SHIMS = {"parking_lot": "shim-parking-lot", "flume": "shim-flume", "atomic-wait": "shim-atomic-wait"}


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, list):
        return "[" + ", ".join(value(x) for x in v) + "]"
    return "{ " + ", ".join("%s = %s" % (k, value(x)) for k, x in v.items()) + " }"


def manifest(src, name, lib):
    t = tomllib.load(open(os.path.join(src, "Cargo.toml"), "rb"))
    out = ["[package]", 'name = "%s"' % name, 'version = "%s"' % t["package"].get("version", "0.0.0"),
           'edition = "%s"' % t["package"].get("edition", "2021"), "publish = false", "autobins = false",
           "autotests = false", "autobenches = false", "autoexamples = false", "", "[lib]", 'path = "%s"' % lib, ""]
    if t.get("features"):
        out.append("[features]")
        out += ["%s = %s" % (k, value(v)) for k, v in t["features"].items()] + [""]
    out.append("[dependencies]")
    out.append('std = { package = "shim-std", path = "%s/shim-std" }' % here)
    for dep, v in t.get("dependencies", {}).items():
        pkg = v.get("package", dep) if isinstance(v, dict) else dep
        if pkg in SHIMS:
            out.append('%s = { package = "%s", path = "%s/%s" }' % (dep, SHIMS[pkg], here, SHIMS[pkg]))
        elif isinstance(v, dict) and "path" in v:
            out.append('%s = { path = "%s/core" }' % (dep, dst))
        else:
            out.append("%s = %s" % (dep, value(v)))
    return "\n".join(out) + "\n"


put(dst + "/core/Cargo.toml", manifest(repo + "/reductionml-core", "reductionml-core", repo + "/reductionml-core/src/lib.rs"))
cli = repo + "/reductionml-cli/src"
put(dst + "/cli/Cargo.toml", manifest(repo + "/reductionml-cli", "reml-sched", "src/main.rs"))
seen = set()
for root, _, files in os.walk(cli):
    for f in files:
        rel = os.path.relpath(os.path.join(root, f), cli)
        seen.add(rel)
        text = open(os.path.join(root, f)).read()
        if rel == "main.rs":
            text += "\n#[doc(hidden)]\npub fn verif_main() -> std::process::ExitCode {\n    std::process::Termination::report(main())\n}\n"
        put(os.path.join(dst, "cli/src", rel), text)
for root, _, files in os.walk(dst + "/cli/src"):
    for f in files:
        if os.path.relpath(os.path.join(root, f), dst + "/cli/src") not in seen:
            os.unlink(os.path.join(root, f))
put(dst + "/sched/Cargo.toml", """[package]
name = "sched"
version = "0.0.0"
edition = "2021"
publish = false

[workspace]

[[bin]]
name = "sched"
path = "%s/driver/src/main.rs"

[dependencies]
sched-rt = { path = "%s/rt" }
reml-sched = { path = "%s/cli" }
reductionml-core = { path = "%s/core" }
shim-std = { path = "%s/shim-std" }
shim-atomic-wait = { path = "%s/shim-atomic-wait" }
serde_json = "1.0"

[profile.release]
opt-level = 2
debug = "line-tables-only"
debug-assertions = true
overflow-checks = true
incremental = true

[profile.release.package.clap_builder]
debug-assertions = false
""" % (here, here, dst, dst, here, here))
if not os.path.exists(dst + "/sched/Cargo.lock"):
    shutil.copy(repo + "/Cargo.lock", dst + "/sched/Cargo.lock")
