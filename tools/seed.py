#!/usr/bin/env python3
"""Planted bugs.
  seed.py new ID PROPERTY MAIN.rs NEEDS WHAT   the uncommitted change in /repo becomes /verif/seeded/ID
  seed.py run ID [CHECK...]                    run checks (default: the property's) against it
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def revert(): sh("git -C /repo checkout -- .")
def tests():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "build fails: " + b.stdout[-1500:]
    sh("bash /opt/vp/test.sh /tmp/seed-test.json")
    r = json.load(open("/tmp/seed-test.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = r.get("passed", r)
    bad = [t for t in base if t not in json.dumps(passed)]
    return "tests fail: %s" % bad if bad else None
def new(id, prop, main, needs, what):
    d = os.path.join(S, id)
    patch = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
    assert patch.strip(), "no change in /repo"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    shutil.copy(main, os.path.join(d, "main.rs"))
    k = os.path.join(V, "tools", "seedkit")
    shutil.copytree(k, os.path.join(d, "kit"), ignore=shutil.ignore_patterns("demo.sh", "target"))
    shutil.copy(os.path.join(k, "demo.sh"), d)
    os.makedirs(os.path.join(d, "kit", "llamapun"), exist_ok=True)
    shutil.copy(os.path.join(V, "harness/llamapun/Cargo.toml"), os.path.join(d, "kit/llamapun"))
    shutil.copytree(os.path.join(V, "harness/shims"), os.path.join(d, "kit/shims"), ignore=shutil.ignore_patterns("target"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, "meta.json"), "w"), indent=1)
    try:
        e = tests()
        p = sh(f"bash {d}/demo.sh", cwd="/repo")
    finally:
        revert()
    c = sh(f"bash {d}/demo.sh", cwd="/repo")
    ok = e is None and p.returncode != 0 and c.returncode == 0 and "error: could not compile" not in p.stdout
    print("official tests:", e or "pass", "| patched demo:", p.returncode, "| clean demo:", c.returncode)
    if not ok:
        print("PATCHED:", p.stdout[-1500:], "\nCLEAN:", c.stdout[-1500:])
        shutil.rmtree(d)
        return 1
    print("  ", p.stdout.strip().splitlines()[-2:] )
    return run(id)
def run(id, *checks):
    d = os.path.join(S, id)
    checks = checks or [json.load(open(os.path.join(d, "meta.json")))["property"]]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    a = sh(f"git -C /repo apply {d}/patch.diff")
    assert a.returncode == 0, a.stdout
    try:
        for c in checks:
            r = sh(f"python3 check.py {c}", cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"SEED {id} CHECK {c}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'quiet' if r.returncode == 0 else r.stdout[-800:]}", flush=True)
    finally:
        revert()
    return 0
sys.exit({"new": new, "run": run}[sys.argv[1]](*sys.argv[2:]))
