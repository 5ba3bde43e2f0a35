"""Builds the driver and produces facts about /repo's current working tree.

Everything is written below WORK (gitignored).  The tree is copied there file by
file (only files whose bytes changed), compiled with the driver as
RUSTC_WORKSPACE_WRAPPER, and the per-crate fact files are loaded.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(HERE, ".work"))
VENDOR = "/opt/vp/ws/vendor"
LOCK = "/opt/vp/ws/Cargo.lock"
TOOLCHAIN = os.environ.get("VERIF_TOOLCHAIN", "nightly")
CRATES = ["dochy_json5", "dochy_compaction", "dochy_archiver2", "dochy_core",
          "dochy_diff", "dochy_fs", "dochy_intf", "dochy"]
SKIP_DIRS = {"target", ".git", ".idea", "node_modules"}


class ToolError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def base_env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR",
              "CARGO_BUILD_TARGET_DIR", "RUSTC", "MIRFACTS_OUT"):
        e.pop(k, None)
    e["RUSTC_WRAPPER"] = ""
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out = run(["rustc", "--print", "sysroot"], env=base_env())
        if rc:
            raise ToolError("rustc not found: " + out)
        _sysroot = out.strip().splitlines()[-1]
    return _sysroot


def tree_files(root):
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
        for f in sorted(files):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            yield os.path.relpath(p, root)


def relevant(rel):
    # everything the compilation of the eight crates reads
    return rel.endswith((".rs", ".toml", ".pest", ".lock"))


def rewrite(rel, data):
    """The pinned compiler of the repository is older than the driver's: map the
    unstable std::lazy names of that time to their stable successors."""
    if not rel.endswith(".rs"):
        return data
    s = data.decode("utf-8", "surrogateescape")
    t = s
    t = re.sub(r"#!\[feature\(\s*once_cell\s*\)\]", "", t)
    t = re.sub(r"use\s+std::lazy::SyncLazy\s*;", "use std::sync::LazyLock as SyncLazy;", t)
    t = re.sub(r"use\s+std::lazy::\{\s*SyncLazy\s*,?\s*\}\s*;", "use std::sync::LazyLock as SyncLazy;", t)
    t = re.sub(r"\bstd::lazy::SyncLazy\b", "std::sync::LazyLock", t)
    t = re.sub(r"\bstd::lazy::SyncOnceCell\b", "std::sync::OnceLock", t)
    t = re.sub(r"\bstd::lazy::OnceCell\b", "std::cell::OnceCell", t)
    t = re.sub(r"\bstd::lazy::Lazy\b", "std::cell::LazyCell", t)
    return t.encode("utf-8", "surrogateescape")


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def driver_hash():
    h = []
    d = os.path.join(HERE, "driver")
    for f in ["Cargo.toml", "src/main.rs", "src/dump.rs", "src/json.rs"]:
        with open(os.path.join(d, f), "rb") as fh:
            h.append(fh.read())
    return sha(*h, sysroot())


def ensure_driver():
    dh = driver_hash()
    out = os.path.join(WORK, "driver")
    exe = os.path.join(out, "mirfacts")
    stamp = os.path.join(out, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == dh:
        return exe, dh
    os.makedirs(out, exist_ok=True)
    src = os.path.join(out, "src")
    if os.path.isdir(src):
        shutil.rmtree(src)
    shutil.copytree(os.path.join(HERE, "driver"), src, ignore=shutil.ignore_patterns("target"))
    rc, o = run(["cargo", "build", "--offline", "--target-dir", os.path.join(out, "target")],
                cwd=src, env=base_env())
    if rc:
        raise ToolError("driver does not build:\n" + o[-4000:])
    shutil.copy2(os.path.join(out, "target/debug/mirfacts"), exe)
    shutil.rmtree(os.path.join(out, "target"))
    with open(stamp, "w") as f:
        f.write(dh)
    return exe, dh


def ensure_models(exe, dh):
    """Facts of the models crate (reference semantics of standard combinators)."""
    src = os.path.join(HERE, "models/src/lib.rs")
    with open(src, "rb") as f:
        want = sha(f.read(), dh)
    out = os.path.join(WORK, "models")
    stamp = os.path.join(out, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(out, exist_ok=True)
    env = base_env()
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    env["MIRFACTS_OUT"] = out
    rc, o = run([exe, "--crate-name", "models", "--crate-type", "rlib", "--edition", "2021", "--sysroot", sysroot(),
                 "--emit=metadata", "-Awarnings", "--out-dir", out, src], env=env)
    if rc:
        raise ToolError("the models crate does not build:\n" + o[-4000:])
    with open(stamp, "w") as f:
        f.write(want)


def ensure_vendor():
    """A mirror of the vendored crates made of symlinks; the checksum lists are
    emptied because some checksummed data files are absent from the original."""
    d = os.path.join(WORK, "vendor")
    stamp = os.path.join(d, ".complete")
    if os.path.exists(stamp):
        return d
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    for n in sorted(os.listdir(VENDOR)):
        s = os.path.join(VENDOR, n)
        t = os.path.join(d, n)
        os.makedirs(t)
        for e in os.listdir(s):
            if e == ".cargo-checksum.json":
                continue
            os.symlink(os.path.join(s, e), os.path.join(t, e))
        with open(os.path.join(s, ".cargo-checksum.json")) as f:
            c = json.load(f)
        c["files"] = {}
        with open(os.path.join(t, ".cargo-checksum.json"), "w") as f:
            json.dump(c, f)
    open(stamp, "w").close()
    return d


def sync_tree(dst):
    """Copies REPO to dst, touching only what differs.  Returns (hash, changed)."""
    have = set(tree_files(dst)) if os.path.isdir(dst) else set()
    hs, changed = [], []
    seen = set()
    for rel in tree_files(REPO):
        if not relevant(rel):
            continue
        seen.add(rel)
        with open(os.path.join(REPO, rel), "rb") as f:
            data = f.read()
        hs.append(rel.encode() + b"\0" + hashlib.sha256(data).digest())
        new = rewrite(rel, data)
        p = os.path.join(dst, rel)
        old = None
        if rel in have:
            with open(p, "rb") as f:
                old = f.read()
        if old != new:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(new)
            changed.append(rel)
    if "Cargo.lock" not in seen:
        p = os.path.join(dst, "Cargo.lock")
        if not os.path.exists(p):
            shutil.copyfile(LOCK, p)
        seen.add("Cargo.lock")
    for rel in have - seen:
        os.unlink(os.path.join(dst, rel))
        changed.append(rel)
    return sha(*hs), changed


def crate_root(dst, c):
    return os.path.join(dst, "src/lib.rs") if c == "dochy" else os.path.join(dst, c, "src/lib.rs")


def fact_file(c):
    return os.path.join(WORK, "facts", c + ".json")


def ensure_facts(verbose=False):
    """Returns (directory of fact files, tree hash)."""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        exe, dh = ensure_driver()
        ensure_models(exe, dh)
        vend = ensure_vendor()
        ws = os.path.join(WORK, "ws")
        dst = os.path.join(ws, "dochy")
        os.makedirs(os.path.join(ws, ".cargo"), exist_ok=True)
        cfg = ('[source.crates-io]\nreplace-with = "vendored-sources"\n\n'
               '[source.vendored-sources]\ndirectory = "%s"\n\n[net]\noffline = true\n' % vend)
        cp = os.path.join(ws, ".cargo/config.toml")
        if not os.path.exists(cp) or open(cp).read() != cfg:
            with open(cp, "w") as f:
                f.write(cfg)
        th, changed = sync_tree(dst)
        fdir = os.path.join(WORK, "facts")
        stamp = os.path.join(fdir, "stamp")
        want = sha(th, dh)
        if os.path.exists(stamp) and open(stamp).read() == want:
            return fdir, th
        if os.path.exists(stamp):
            os.unlink(stamp)
        tgt = os.path.join(WORK, "target")
        ds = os.path.join(tgt, "driver-hash")
        fresh_driver = not (os.path.exists(ds) and open(ds).read() == dh)
        if fresh_driver and os.path.isdir(fdir):
            shutil.rmtree(fdir)
        os.makedirs(fdir, exist_ok=True)
        os.makedirs(tgt, exist_ok=True)
        with open(ds, "w") as f:
            f.write(dh)
        # cargo's freshness cache would skip the wrapper for crates without facts
        for c in CRATES:
            if not any(x.startswith(c + "-") for x in os.listdir(fdir)):
                if os.path.exists(crate_root(dst, c)):
                    os.utime(crate_root(dst, c))
        env = base_env()
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        env["MIRFACTS_OUT"] = fdir
        env["RUSTFLAGS"] = "--cap-lints warn -Awarnings"
        cmd = ["cargo", "check", "--offline", "--manifest-path", os.path.join(dst, "Cargo.toml"),
               "--target-dir", tgt]
        for c in CRATES:
            cmd += ["-p", c]
        rc, out = run(cmd + ["--lib"], cwd=ws, env=env)
        if rc:
            raise ToolError("the working tree does not compile under the driver:\n" + out[-6000:])
        for c in CRATES:
            if not os.path.exists(os.path.join(fdir, c + "-rlib.json")):
                raise ToolError("no facts for crate " + c + ": " + str(os.listdir(fdir)) + out[-2000:])
        with open(stamp, "w") as f:
            f.write(want)
        return fdir, th
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def load_raw():
    fdir, th = ensure_facts()
    out = {}
    for c in CRATES:
        with open(os.path.join(fdir, c + "-rlib.json")) as f:
            out[c] = json.load(f)
    with open(os.path.join(WORK, "models/models-rlib.json")) as f:
        out["models"] = json.load(f)
    return out, th


if __name__ == "__main__":
    t = time.time()
    d, h = ensure_facts(True)
    print("facts in", d, "tree", h[:12], "%.1fs" % (time.time() - t))
