"""Build the MIR dump of /repo's current tree (cached by source hash)."""
import hashlib
import os
import subprocess
import sys
import fcntl
import shutil
import glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, "work"))


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()


def src_hash():
    h = hashlib.sha256()
    files = []
    for base in (REPO, os.path.join(VERIF, "roots"), os.path.join(VERIF, "driver")):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "evidence", "work"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".bin", ".rs.in")) or f == "build.rs":
                    files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def run(cmd, cwd, env=None, timeout=850):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def ensure_driver():
    exe = os.path.join(VERIF, "driver", "target", "debug", "mirdump")
    r = run(["cargo", "+nightly", "build", "--offline"], os.path.join(VERIF, "driver"))
    if r.returncode:
        raise BuildError("driver build failed:\n" + r.stderr[-3000:])
    return exe


def ensure_dump(log=None):
    """-> path of the dump for the current tree."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = ensure_driver()
        h = src_hash()
        out = os.path.join(WORK, "dump-" + h)
        f = os.path.join(out, "vroots.json")
        if os.path.exists(f):
            return f
        for d in glob.glob(os.path.join(WORK, "dump-*")):
            shutil.rmtree(d, ignore_errors=True)
        tgt = os.path.join(WORK, "target")
        for pat in ("libsecp256k1*", "vroots*"):
            for d in glob.glob(os.path.join(tgt, "debug", ".fingerprint", pat)):
                shutil.rmtree(d, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env = {
            "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
            "CARGO_TARGET_DIR": tgt,
            "RUSTC_WORKSPACE_WRAPPER": exe,
            "MIRDUMP_CRATES": "vroots",
            "MIRDUMP_OUT": tmp,
            "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0",
        }
        r = run(["cargo", "+nightly", "check", "--offline"], os.path.join(VERIF, "roots"), env)
        if r.returncode or not os.path.exists(os.path.join(tmp, "vroots.json")):
            raise BuildError("type-checking the tree failed:\n" + r.stderr[-4000:])
        os.rename(tmp, out)
        return f


if __name__ == "__main__":
    print(ensure_dump())
