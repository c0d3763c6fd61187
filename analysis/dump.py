"""Type-check /repo's current tree with the pinned nightly through the THIR
driver and load the dump.  Nothing of /repo is executed; /repo is not written."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TOOLCHAIN = "nightly"


def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER",
              "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTFLAGS"] = "--cap-lints=allow"
    return e


def _run(cmd, env, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_driver():
    exe = os.path.join(BUILD, "driver", "release", "thir-dump")
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    stamp = os.path.join(BUILD, "driver.stamp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    env = _env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    rc, out = _run(["cargo", "build", "--release", "--offline", "--manifest-path",
                    os.path.join(VERIF, "driver", "Cargo.toml")], env)
    if rc != 0:
        raise SystemExit("driver build failed:\n" + out)
    open(stamp, "w").write(h)
    return exe


def _patched_poly_commit():
    """ark-poly-commit 0.3.0 does not type-check under this nightly's never-type
    fallback (one `collect::<Result<_, _>>()?;` statement); the analysis build
    uses a copy with that one annotation spelled out.  It is a dependency: none of
    /repo's code is touched."""
    dst = os.path.join(BUILD, "ark-poly-commit")
    if os.path.exists(os.path.join(dst, ".ok")):
        return dst
    c = glob.glob("/root/.cargo/registry/src/*/ark-poly-commit-0.3.0")
    if not c:
        raise SystemExit("ark-poly-commit sources not found in the cargo registry")
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    shutil.copytree(c[0], dst)
    for root, _, files in os.walk(dst):
        for f in files:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                t = open(p).read()
                n = t.replace(".collect::<Result<_, _>>()?;", ".collect::<Result<(), _>>()?;") \
                    if f == "data_structures.rs" and "marlin_pst13_pc" in root else t
                if n != t:
                    open(p, "w").write(n)
    open(os.path.join(dst, ".ok"), "w").write("")
    return dst


def _shadow():
    ws = os.path.join(BUILD, "ws")
    os.makedirs(ws, exist_ok=True)
    pc = _patched_poly_commit()
    man = open(os.path.join(REPO, "Cargo.toml")).read()
    lib = os.path.join(REPO, "src", "lib.rs")
    m = re.search(r"^\[lib\]\s*$", man, re.M)
    if m:
        sec = man[m.end():]
        nxt = re.search(r"^\[", sec, re.M)
        body = sec[:nxt.start()] if nxt else sec
        pm = re.search(r'^path\s*=\s*"([^"]*)"\s*$', body, re.M)
        if pm:
            lib = os.path.join(REPO, pm.group(1))
            body2 = body[:pm.start()] + 'path = "%s"\n' % lib + body[pm.end():]
        else:
            body2 = '\npath = "%s"\n' % lib + body
        man = man[:m.end()] + body2 + (sec[nxt.start():] if nxt else "")
    else:
        man += '\n[lib]\npath = "%s"\n' % lib
    if not re.search(r"^\[workspace\]", man, re.M):
        man += "\n[workspace]\n"
    man += '\n[patch.crates-io]\nark-poly-commit = { path = "%s" }\n' % pc
    old = os.path.join(ws, "Cargo.toml")
    if not os.path.exists(old) or open(old).read() != man:
        open(old, "w").write(man)
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):
        lock = os.path.join(VERIF, "analysis", "Cargo.lock")
    t = open(lock).read()
    t = re.sub(r'(name = "ark-poly-commit"\nversion = "0.3.0"\n)source = .*\nchecksum = .*\n', r"\1", t)
    lp = os.path.join(ws, "Cargo.lock")
    open(lp, "w").write(t)
    return ws


def dump():
    """returns (thir json, info)"""
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    lockf = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        exe = build_driver()
        ws = _shadow()
        env = _env()
        rc, sysroot = _run(["rustc", "--print", "sysroot"], env)
        env["LD_LIBRARY_PATH"] = sysroot.strip().split("\n")[-1] + "/lib:" + env.get("LD_LIBRARY_PATH", "")
        tgt = os.path.join(BUILD, "target")
        env["CARGO_TARGET_DIR"] = tgt
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["THIR_DUMP_CRATE"] = "zero_over_k"
        out = os.path.join(BUILD, "thir.json")
        env["THIR_DUMP_OUT"] = out
        if os.path.exists(out):
            os.unlink(out)
        for f in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "zero-over-k-*")) + glob.glob(os.path.join(tgt, "debug", "build", "zero-over-k*")):
            shutil.rmtree(f)
        rc, log = _run(["cargo", "check", "--lib", "--offline", "--all-features", "--manifest-path",
                        os.path.join(ws, "Cargo.toml")], env)
        if rc != 0 or not os.path.exists(out):
            raise SystemExit("type-checking /repo through the driver failed:\n" + log[-6000:])
        data = json.load(open(out))
    finally:
        fcntl.flock(lockf, fcntl.LOCK_UN)
        lockf.close()
    return data, {"dump_s": round(time.time() - t0, 2)}


if __name__ == "__main__":
    d, info = dump()
    print(info, {k: len(v) for k, v in d.items()})
