#!/usr/bin/env python3
"""Plant bugs and try the checks on them (a development tool; no check uses it).

  plant.py make FILE.py [id...]   write seeded/<id>/ for the seed(...) calls in FILE.py
  plant.py confirm id...          apply to /repo, build, run its tests, the demo (both ways)
                                  and the property's check; the result goes to out/plant.json
"""
import difflib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDS = []

CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "demo"
path = "main.rs"

[dependencies]
fuel-tx = { path = "@REPO@", %s }
fuel-types = { version = "0.5", features = ["serde"] }
fuel-crypto = { version = "0.6", features = ["std"] }
fuel-asm = { version = "0.10", features = ["std", "serde"] }
serde_json = "1.0"
bincode = "1.3"

[profile.dev]
debug = 0
'''
FEATURES = 'features = ["builder", "internals", "random", "serde", "std"]'
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it; everything it
# writes is in a scratch directory that it removes.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
sed "s|@REPO@|$repo|" "$here/demo.toml" > "$scratch/Cargo.toml"
cp "$here/main.rs" "$scratch/main.rs"
cp "$here/demo.lock" "$scratch/Cargo.lock"
cd "$scratch" || exit 2
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$scratch/target" CARGO_NET_OFFLINE=true
cargo run --quiet --offline
'''


def seed(id, prop, needs, breaks, edits, demo, features=FEATURES):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo,
                      features=features))


def make(path, only):
    env = {"seed": seed}
    pre = os.path.join(os.path.dirname(path), "pre.py")  # shared helpers of the demos
    for f in [pre] * os.path.exists(pre) + [path]:
        exec(compile(open(f).read(), f, "exec"), env)
    made = []
    for s in SEEDS:
        if only and s["id"] not in only:
            continue
        files = {}
        for f, old, new in s["edits"]:
            text = files.get(f) or open(os.path.join(REPO, f)).read()
            if text.count(old) != 1:
                sys.exit(f"{s['id']}: {f}: {text.count(old)} matches of {old!r}")
            files[f] = text.replace(old, new)
        diff = ""
        for f, text in files.items():
            a = open(os.path.join(REPO, f)).read()
            diff += f"diff --git a/{f} b/{f}\n"
            diff += "".join(difflib.unified_diff(a.splitlines(True), text.splitlines(True),
                                                 "a/" + f, "b/" + f))
        d = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        w = lambda n, t: open(os.path.join(d, n), "w").write(t)
        w("patch.diff", diff)
        w("main.rs", s["demo"].lstrip())
        w("demo.sh", DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        w("demo.toml", CARGO % s["features"])
        lock = open(os.path.join(VERIF, "harness", "Cargo.lock")).read()
        w("demo.lock", lock.replace('name = "fuelspec-harness"', 'name = "demo"'))
        w("meta.json", json.dumps({"property": s["prop"], "needs": s["needs"],
                                   "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        made.append(s["id"])
    print("made", *made)


def run(cmd, cwd=REPO, log=None, timeout=900):
    with open(log or os.devnull, "w") as f:
        return subprocess.call(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)


def confirm(ids, checks_only=False):
    res_path = os.path.join(VERIF, "out", "plant.json")
    os.makedirs(os.path.dirname(res_path), exist_ok=True)
    res = json.load(open(res_path)) if os.path.exists(res_path) else {}
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    logs = "/tmp/plant"
    os.makedirs(logs, exist_ok=True)
    for i in ids:
        d = os.path.join(VERIF, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        r = res.get(i, {})
        t0 = time.time()
        if subprocess.call(["git", "-C", REPO, "diff", "--quiet"]):
            sys.exit("/repo is not clean")
        tmp = os.path.join("/tmp/plant", "d_" + i)
        if not checks_only:
            shutil.copytree(d, tmp, dirs_exist_ok=True)
            for f in ("patch.diff", "meta.json"):
                os.remove(os.path.join(tmp, f))
            r["demo_clean"] = run([os.path.join(tmp, "demo.sh")], log=f"{logs}/{i}.demo0")
        try:
            if subprocess.call(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")]):
                r["apply"] = False
                print(i, "does not apply")
                continue
            if not checks_only:
                r["build"] = run(["bash", "/opt/vp/build.sh"], log=f"{logs}/{i}.build")
                if r["build"] == 0:
                    run(["bash", "/opt/vp/test.sh", f"{logs}/{i}.json"], log=f"{logs}/{i}.test")
                    out = json.load(open(f"{logs}/{i}.json"))
                    passed = out.get("passed", [])
                    r["tests"] = len(passed)
                    r["broken_tests"] = sorted(want - set(passed)) if want else out.get("failed")
                    r["demo_bug"] = run([os.path.join(tmp, "demo.sh")], log=f"{logs}/{i}.demo1")
            log = f"{logs}/{i}.check"
            r["check"] = run([sys.executable, "checks/check.py", prop], cwd=VERIF, log=log)
            r["caught"] = any(l.startswith(f"VIOLATION property={prop} ") for l in open(log))
        finally:
            subprocess.call(["git", "-C", REPO, "checkout", "-q", "--", "."])
            shutil.rmtree(tmp, ignore_errors=True)
        r["property"] = prop
        r["seconds"] = round(time.time() - t0)
        res[i] = r
        json.dump(res, open(res_path, "w"), indent=1, sort_keys=True)
        ok = checks_only or (r.get("demo_clean") == 0 and r.get("build") == 0
                             and not r.get("broken_tests") and r.get("demo_bug", 0) != 0)
        print(i, prop, "VALID" if ok else "INVALID", "caught" if r["caught"] else "MISSED",
              {k: v for k, v in r.items() if k not in ("property", "caught")}, flush=True)


def demos(ids):
    """The demos on the unchanged tree, with one shared target directory."""
    d0 = "/tmp/plant/fast"
    os.makedirs(d0, exist_ok=True)
    for i in ids:
        d = os.path.join(VERIF, "seeded", i)
        toml = open(d + "/demo.toml").read().replace("@REPO@", REPO)
        open(d0 + "/Cargo.toml", "w").write(toml)
        shutil.copy(d + "/main.rs", d0 + "/main.rs")
        shutil.copy(d + "/demo.lock", d0 + "/Cargo.lock")
        p = subprocess.run(["cargo", "run", "--quiet", "--offline"], cwd=d0, capture_output=True,
                           text=True)
        print(i, "ok" if p.returncode == 0 else p.stderr[-3000:])


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "confirm":
        confirm(sys.argv[2:])
    elif sys.argv[1] == "demos":
        demos(sys.argv[2:])
    elif sys.argv[1] == "recheck":
        confirm(sys.argv[2:], True)
