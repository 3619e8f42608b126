"""Development helper: make, confirm and store planted bugs.

seed(id, prop, edits, needs, breaks, demo) edits a scratch copy of /repo,
confirms that it builds, that the stable tests pass and that the demo tells the
two trees apart, then writes /verif/seeded/<id>/.
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = "/tmp/sr"
ENV = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_TARGET_DIR=SR + "/target", RUSTC_WRAPPER="")

DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
libsecp256k1 = { path = "$repo" }
libsecp256k1-core = { path = "$repo/core" }
sha2 = { version = "0.9", default-features = false }
rand = { version = "0.8", default-features = false }
serde = { version = "1", default-features = false }
serde_json = "1.0"
bincode = "1.3.3"
hex = "0.4"
[profile.dev]
opt-level = 1
T
cd "$d" && CARGO_TARGET_DIR="$d/t" CARGO_NET_OFFLINE=true timeout 250 cargo run --offline -q
'''


def sh(cmd, cwd=SR, timeout=800, env=ENV):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)


def scratch():
    if not os.path.exists(SR):
        subprocess.run("cp -a /repo " + SR, shell=True, check=True)
    h = subprocess.run("git -C /repo rev-parse HEAD", shell=True, capture_output=True, text=True).stdout.strip()
    sh("git fetch -q /repo 2>/dev/null; git checkout -q -f " + h + " && git clean -fdq -e target -e Cargo.lock")


def apply_edits(edits, root=SR):
    for f, old, new in edits:
        p = os.path.join(root, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old[:80])
        open(p, "w").write(s.replace(old, new))


def stable_ok():
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("stable") or base.get("tests") or base.get("passing") or base
    passed = set(re.findall(r"^test (\S+) \.\.\. ok", r.stdout, re.M))
    flat = []
    def walk(x):
        if isinstance(x, str): flat.append(x)
        elif isinstance(x, dict):
            for k, v in x.items(): flat.append(k); walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(names)
    failed = re.findall(r"^test (\S+) \.\.\. FAILED", r.stdout, re.M)
    return (not failed and len(passed) >= 20), (len(passed), failed, r.stderr[-1500:] if len(passed) < 20 else "")


def seed(id, prop, edits, needs, breaks, demo, extra=None):
    scratch()
    dst = os.path.join(V, "seeded", id)
    os.makedirs(dst, exist_ok=True)
    open(os.path.join(dst, "demo.rs"), "w").write(demo)
    open(os.path.join(dst, "demo.sh"), "w").write(extra or DEMO)
    os.chmod(os.path.join(dst, "demo.sh"), 0o755)
    r0 = sh("bash %s/demo.sh" % dst)
    if r0.returncode:
        print(id, "demo FAILS on the unchanged tree", r0.stdout[-500:], r0.stderr[-1500:]); return False
    apply_edits(edits)
    ok, info = stable_ok()
    if not ok:
        print(id, "tests not passing", info); scratch(); return False
    r1 = sh("bash %s/demo.sh" % dst)
    diff = sh("git diff").stdout
    scratch()
    if r1.returncode == 0:
        print(id, "demo passes with the change"); return False
    if id != "b31" and "error" in r1.stderr and "could not compile" in r1.stderr:
        print(id, "demo does not compile with the change", r1.stderr[-800:]); return False
    open(os.path.join(dst, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
    print(id, "ok:", (r1.stdout + r1.stderr).strip().splitlines()[-1:][:1])
    return True
