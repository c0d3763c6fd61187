#!/usr/bin/env python3
"""trybugs.py [--all] [id ...]: run the checks against planted changes in a scratch copy.
By default only the change's own property; with --all every registered check."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "--all" in args
sd = os.environ.get("SEEDDIR", os.path.join(V, "seeded"))
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(sd))
props = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]


def one(i):
    wt = "/tmp/try_%s" % i
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(wt)
    subprocess.run("cd /repo && cp -a src Cargo.toml Cargo.lock rust-toolchain %s/ && cp -a %s/build/. %s/build" % (wt, V, wt), shell=True)
    p = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + wt, os.path.join(sd, i, "patch.diff")], cwd="/", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        p = subprocess.run("patch -p1 -s < %s/%s/patch.diff" % (sd, i), shell=True, cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return i, "PATCH FAILED " + p.stdout
    mf = os.path.join(sd, i, "meta.json")
    own = json.load(open(mf))["property"] if os.path.exists(mf) else None
    env = dict(os.environ, VERIF_REPO=wt, VERIF_BUILD=wt + "/build", VERIF_EVIDENCE=wt + "/evidence")
    out = []
    for q in (props if allc or own is None else [own]):
        if q not in props:
            out.append("%s: not claimed" % q)
            continue
        r = subprocess.run(["python3", os.path.join(V, "bin/check.py"), q, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        und = sum(l.startswith("UNDECIDED") for l in r.stdout.splitlines())
        what = [l for l in r.stdout.splitlines() if l.startswith("violated")]
        if r.returncode == 1 or r.returncode > 1:
            out.append("%s%s: rc %d %s" % ("*" if q == own else "", q, r.returncode, (what or [r.stdout[-300:]])[0][:int(os.environ.get("W", 160))]))
        elif q == own or und:
            out.append("%s%s: quiet, %d undecided %s" % ("*" if q == own else "", q, und, [l[:200] for l in r.stdout.splitlines() if l.startswith("UNDECIDED")][:1] if und else ""))
    shutil.rmtree(wt, ignore_errors=True)
    return i, "\n    ".join(out)


with ThreadPoolExecutor(4) as ex:
    for i, o in ex.map(one, ids):
        print("%s\n    %s" % (i, o), flush=True)
