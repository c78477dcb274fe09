"""Builds the explorer against /repo's current working tree, with the verification hook on."""
import hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.normpath(os.path.join(VERIF, "..", "repo"))
BUILD = os.path.join(VERIF, "build")


class BuildError(Exception):
    pass


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(
                os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if f.endswith((".rs", ".toml", ".py"))
            )
        for f in files:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER",
              "CARGO_PROFILE_DEV_DEBUG", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.setdefault("HOME", "/root")
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


FLAVORS = {
    # optimized client and crate
    "rel": dict(tc="+stable", prof="release", flags=[]),
    # debug assertions and overflow checks on in crate, client and std's generic code
    "dbg": dict(tc="+stable", prof="release", flags=["-Cdebug-assertions=on", "-Coverflow-checks=on"]),
    # every plain memory access of crate and client reported to the race detector
    "tsan": dict(
        tc="+nightly",
        prof="release",
        flags=["-Zsanitizer=thread", "-Zexternal-clangrt", "-Cunsafe-allow-abi-mismatch=sanitizer", "--cfg", "orx_verif_tsan"],
    ),
}


def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(f"{what} failed:\n{p.stdout[-6000:]}")
    return p.stdout


def toolchain(f, e):
    # the default toolchain is a stable one; name it only when the flavour needs another
    return [] if f["tc"] == "+stable" else [f["tc"]]


def build(name):
    f = FLAVORS[name]
    e = env()
    out = os.path.join(BUILD, name)
    os.makedirs(out, exist_ok=True)
    src = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml")])
    own = tree_hash([os.path.join(VERIF, "mcstd"), os.path.join(VERIF, "harness", "src"), os.path.join(VERIF, "harness", "Cargo.toml"),
                     os.path.join(VERIF, "lib", "build.py")])
    stamp = os.path.join(out, "stamp")
    binary = os.path.join(out, "target", "release", "mc")
    want = f"{src} {own}"
    if os.path.exists(binary) and os.path.exists(stamp) and open(stamp).read() == want:
        return binary
    if os.path.exists(stamp):
        # sources changed: never trust time stamps
        os.remove(stamp)
    tgt = os.path.join(out, "target")
    tc = toolchain(f, e)
    shim_dir = os.path.join(out, "shim")
    os.makedirs(shim_dir, exist_ok=True)
    shim_cfg = ["--cfg", "orx_verif_tsan"] if name == "tsan" else []
    shim_flags = [x for x in f["flags"] if x.startswith("-Cunsafe-allow")]
    if name == "tsan":
        # the stand-in's own accesses must not be compiled into instrumented crates
        shim_flags.append("-Zcross-crate-inline-threshold=never")
    run(["rustc", *tc, "--edition", "2021", "-C", "opt-level=3", "-g", "-A", "warnings", "--crate-type", "rlib", "--crate-name", "orx_verif_std",
         *shim_cfg, *shim_flags, "lib.rs", "--out-dir", shim_dir], os.path.join(VERIF, "mcstd", "src"), e, "building the std stand-in")
    rlib = os.path.join(shim_dir, "liborx_verif_std.rlib")
    flags = ["--cfg", "orx_concurrent_iter_verif", "--extern", f"orx_verif_std={rlib}", "-L", shim_dir, "-A", "warnings",
             "--cfg", f'orx_verif_hash="{src}{own}"', *f["flags"]]
    e["CARGO_ENCODED_RUSTFLAGS"] = "\x1f".join(flags)
    shutil.rmtree(tgt, ignore_errors=True)
    cmd = ["cargo", *tc, "build", "--release", "--offline", "--target-dir", tgt]
    if name == "tsan":
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
    run(cmd, os.path.join(VERIF, "harness"), e, f"building the explorer ({name})")
    if name == "tsan":
        os.makedirs(os.path.dirname(binary), exist_ok=True)
        shutil.copy(os.path.join(tgt, "x86_64-unknown-linux-gnu", "release", "mc"), binary)
    open(stamp, "w").write(want)
    return binary
