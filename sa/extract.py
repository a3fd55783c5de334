"""Extract the type-checked program (MIR, resolved callees, types) of /repo's
current working tree, once per build configuration, with the rustc driver."""
import fcntl
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("COLA_REPO", "/repo")
DRIVER = os.path.join(VERIF, "driver/target/release/mirdump")

# name -> (rustc codegen flags, cargo feature flags)
CONFIGS = {
    "rel": ("-Coverflow-checks=off -Cdebug-assertions=off", ["--all-features"]),
    "ovf": ("-Coverflow-checks=on -Cdebug-assertions=off", ["--all-features"]),
    "dbg": ("-Coverflow-checks=on -Cdebug-assertions=on", ["--all-features"]),
    "nofeat": ("-Coverflow-checks=off -Cdebug-assertions=off", []),
    "encode": ("-Coverflow-checks=off -Cdebug-assertions=off", ["--features", "encode"]),
}


class ExtractError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise ExtractError(f"{' '.join(cmd)} failed ({p.returncode}):\n" + p.stdout[-4000:])
    return p.stdout


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"], env=env()).strip()


def build_driver():
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    with open(os.path.join(VERIF, "build", ".driver.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "driver"), env=env())
    if not os.path.exists(DRIVER):
        raise ExtractError("driver binary missing")


def make_ws(dst):
    """A package with /repo's manifest (dev-only sections dropped) and its src."""
    out = []
    skip = False
    for line in open(os.path.join(REPO, "Cargo.toml")):
        m = re.match(r"\s*\[", line)
        if m:
            h = line.strip()
            skip = bool(re.match(r"\[\[?(target\..*\.)?(dev-dependencies|bench|test|example)", h)) or h.startswith("[workspace") or h.startswith("[profile")
        if not skip:
            out.append(line)
    with open(os.path.join(dst, "Cargo.toml"), "w") as f:
        f.write("".join(out) + "\n[workspace]\n")
    shutil.copy(os.path.join(VERIF, "ws", "Cargo.lock"), os.path.join(dst, "Cargo.lock"))
    for f in ("README.md", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy(p, dst)
    os.symlink(os.path.join(REPO, "src"), os.path.join(dst, "src"))


def extract(configs):
    """-> {config: path of JSON}; the caller removes the directory `dir`."""
    build_driver()
    base = os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    d = tempfile.mkdtemp(prefix="x", dir=base)
    sr = sysroot()
    procs = []
    try:
        for c in configs:
            flags, feats = CONFIGS[c]
            w = os.path.join(d, c)
            os.makedirs(w)
            make_ws(w)
            out = os.path.join(d, c + ".json")
            e = env(LD_LIBRARY_PATH=sr + "/lib", MIRDUMP_OUT=out, MIRDUMP_CRATE="cola",
                    RUSTFLAGS="-Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums " + flags, RUSTC_WORKSPACE_WRAPPER=DRIVER,
                    CARGO_TARGET_DIR=os.path.join(d, c + "-tgt"), CARGO_INCREMENTAL="0")
            log = open(os.path.join(d, c + ".log"), "w")
            procs.append((c, out, log.name, subprocess.Popen(
                ["cargo", "+nightly", "check", "--lib", "--offline"] + feats, cwd=w, env=e, stdout=log, stderr=subprocess.STDOUT)))
        res = {}
        for c, out, log, p in procs:
            if p.wait() != 0 or not os.path.exists(out):
                raise ExtractError(f"cargo check ({c}) failed:\n" + open(log).read()[-4000:])
            res[c] = out
        return d, res
    except BaseException:
        for _, _, _, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(d, ignore_errors=True)
        raise
