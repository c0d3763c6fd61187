#!/usr/bin/env python3
"""mkseed.py <definition.py>: create and confirm planted changes. A definition file lists
dict(id, property, needs, breaks, edits=[(file, old, new)], demo=<rust test module text>)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cp -a src Cargo.toml Cargo.lock "$w"/ || exit 2
[ -e rust-toolchain ] && cp -a rust-toolchain "$w"/
cp "$here/demo.rs" "$w/src/zz_demo.rs"
printf '\\n#[cfg(test)]\\nmod zz_demo;\\n' >> "$w/src/lib.rs"
[ -d target ] && cp -a target "$w/target"
cd "$w" || exit 2
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$w/target"
unset RUSTFLAGS
cargo test --lib --all-features --offline zz_demo -- --test-threads 4 > "$w/log" 2>&1
rc=$?
grep -E "^test |panicked|assertion|error|left|right" "$w/log" | head -30
if [ $rc -eq 0 ] && ! grep -qE "test result: ok\\. [1-9]" "$w/log"; then echo "no demo test ran"; exit 3; fi
exit $rc
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(cwd):
    r = sh(". /opt/vp/env.sh >/dev/null 2>&1; cd %s; export CARGO_TARGET_DIR=$PWD/target; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8" % cwd)
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("stable") or base.get("passed") or base.get("tests") or []
    ok = {l.split()[1] for l in r.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("ok")}
    return r.stdout, ok, names


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        if os.path.exists(WT):
            shutil.rmtree(WT)
        shutil.copytree("/repo", WT, symlinks=True)
        bad = False
        for f, old, new, *every in s["edits"]:
            p = os.path.join(WT, f)
            t = open(p).read()
            if t.count(old) != 1 and not (every and old in t):
                print(s["id"], "edit matches", t.count(old), "times in", f)
                bad = True
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            continue
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", WT).stdout)
        open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        out, ok, names = tests(WT)
        short = {n.split("::")[-1] if not isinstance(n, str) else n for n in names}
        okl = [l for l in out.splitlines() if l.startswith("test result")]
        clean = sh(os.path.join(d, "demo.sh"), "/repo")
        pat = sh(os.path.join(d, "demo.sh"), WT)
        good = clean.returncode == 0 and pat.returncode == 101 and okl and not ({n.split(".rs::",1)[1] for n in names} - ok)
        print("%s: tests %s | demo clean %d patched %d -> %s" % (s["id"], [len({n.split('.rs::',1)[1] for n in names} - ok)] + okl[:1], clean.returncode, pat.returncode, "OK" if good else "BAD"))
        if not good:
            print(out[-1500:] if not okl else "")
            print("CLEAN", clean.stdout[-1500:])
            print("PATCHED", pat.stdout[-1500:])
    shutil.rmtree(WT, ignore_errors=True)


main()
