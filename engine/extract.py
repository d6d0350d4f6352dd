"""Builds the MIR driver and exports the MIR of the workspace crates of /repo for one configuration.
Everything is keyed by a hash of the sources, so a stale dump is never used."""
import fcntl, hashlib, json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CACHE = os.environ.get("SA_CACHE", os.path.join(ROOT, ".cache"))
# name -> (cargo args, crates exported, extra rustflags)
CONFIGS = {
    "std":     (["-p", "ser-write-json", "-p", "ser-write-msgpack", "-p", "ser-write"], ""),
    "nostd":   (["-p", "ser-write-json", "-p", "ser-write-msgpack", "-p", "ser-write", "--no-default-features"], ""),
    "alloc":   (["-p", "ser-write-json", "-p", "ser-write-msgpack", "-p", "ser-write", "--no-default-features", "--features=ser-write-json/alloc,ser-write-msgpack/alloc,ser-write/alloc"], ""),
    "f32":     (["-p", "ser-write-json", "--features=de-any-f32"], ""),
    "rel":     (["-p", "ser-write-json", "-p", "ser-write-msgpack"], "-Cdebug-assertions=off -Coverflow-checks=on"),
    "relnostd":(["-p", "ser-write-json", "-p", "ser-write-msgpack", "--no-default-features"], "-Cdebug-assertions=off -Coverflow-checks=on"),
    "foreign": (["-p", "ser-write", "--all-features"], ""),
}
CRATES = "ser_write,ser_write_json,ser_write_msgpack"

def _hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh: h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def repo_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        for f in fs:
            if f.endswith(".rs") or f.startswith("Cargo."): out.append(os.path.join(d, f))
    return out

def repo_hash():
    return _hash_files(repo_files())

def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"): e.pop(k, None)
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    return e

class ExtractError(Exception): pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise ExtractError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def driver():
    d = os.path.join(ROOT, "driver")
    src = [os.path.join(d, "src/main.rs"), os.path.join(d, "Cargo.toml")]
    h = _hash_files(src)
    exe = os.path.join(CACHE, "driver-" + h)
    if os.path.exists(exe): return exe, h
    e = env(); e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver")
    run(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml")], env=e)
    shutil.copy(os.path.join(CACHE, "driver/debug/mirdump"), exe + ".tmp")
    os.replace(exe + ".tmp", exe)
    return exe, h

def dump(config):
    """returns the directory with <crate>.json for this configuration"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock-" + config), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with open(os.path.join(CACHE, "lock-driver"), "w") as lk2:
            fcntl.flock(lk2, fcntl.LOCK_EX)
            exe, dh = driver()
        ni = os.path.join(ROOT, "engine/noinline.txt")
        h = hashlib.sha256((repo_hash() + dh + _hash_files([ni])).encode()).hexdigest()[:16]
        out = os.path.join(CACHE, "dump-%s-%s" % (config, h))
        if os.path.exists(os.path.join(out, "OK")): return out
        for x in os.listdir(CACHE):   # drop dumps of other source states
            if x.startswith("dump-%s-" % config): shutil.rmtree(os.path.join(CACHE, x), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        args, flags = CONFIGS[config]
        tgt = os.path.join(CACHE, "target-" + config)
        # the workspace crates are always recompiled, their dependencies are not
        for fp in (os.path.join(tgt, "debug/.fingerprint"), os.path.join(tgt, "debug/build")):
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith("ser-write"): shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        e = env()
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"], env=e).strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["SA_OUT"] = out; e["SA_CRATES"] = CRATES; e["SA_NOINLINE"] = ni
        e["RUSTFLAGS"] = "--cap-lints=warn " + flags
        run(["cargo", "+nightly", "check", "--offline", "--lib"] + args, env=e, cwd=REPO)
        want = [args[i + 1].replace("-", "_") for i, a in enumerate(args) if a == "-p"]
        miss = [w for w in want if not os.path.exists(os.path.join(out, w + ".json"))]
        if miss: raise ExtractError("no MIR exported for %s (%s)" % (", ".join(miss), config))
        with open(os.path.join(out, "OK"), "w") as f: f.write("ok")
        return out

if __name__ == "__main__":
    import time
    for c in sys.argv[1:] or CONFIGS:
        t = time.time(); d = dump(c)
        print(c, d, {f: os.path.getsize(os.path.join(d, f)) for f in os.listdir(d)}, "%.1fs" % (time.time() - t))
