#!/usr/bin/env python3
"""Tests the machinery itself: (1) corrupts one value in each of many recorded observations and counts how many the trace
specification rejects, (2) breaks the guards of the concurrency models and expects TLC to find the violation.
Usage: selftest.py [ID ...]; needs about a minute per check."""
import copy, json, os, random, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import vp
from checks import CHECKS
N = 300


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k != "message":
                yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if x:
            yield path, "list"
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif x is not None:
        yield path, "scalar"


def put(x, path, f):
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = f(x[path[-1]])


def corrupt(obs, rng):
    ls = [l for l in leaves(obs) if l[0]]
    if not ls:
        return None
    path, kind = rng.choice(ls)

    def f(v):
        if kind == "list":
            return v[:-1]
        if isinstance(v, bool):
            return not v
        if isinstance(v, (int, float)):
            return v + 1
        return v + "x"
    put(obs, path, f)
    return path


def one(pid):
    rng = random.Random(5)
    c = vp.Check(pid, CHECKS[pid])
    for u in CHECKS[pid]["units"]:
        b = vp.build(u["crate"])
        trace, _ = c.execute(u, b, [])
        recs = [json.loads(l) for l in open(trace)]
        rng.shuffle(recs)
        out, paths = [], {}
        for r in recs:
            if len(out) == N:
                break
            r = copy.deepcopy(r)
            p = corrupt(r["obs"], rng)
            if p is None or len(json.dumps(r)) > 20000:
                continue
            r["i"] = len(out) + 1
            paths[r["i"]] = (p, r)
            out.append(r)
        t = trace + ".bad"
        got, structural = set(), set()
        for _ in range(60):   # TLC stops at an observation whose structure is damaged; those count apart
            left = [r for r in out if r["i"] not in got | structural]
            for n, r in enumerate(left):
                r["n"] = n + 1
            open(t, "w").write("".join(json.dumps(r) + "\n" for r in left))
            rc, o = vp.run_tlc(u["trace"], vp.cfg_for(u["trace"], pid, "quick"), c.work, env=dict(TRACE=t, PROP=pid), heap="12g")
            r = vp.parse_tlc(o)
            got |= {x["i"] for x in r["rejects"]}
            if r["finished"]:
                break
            ks = re.findall(r"^/\\ k = (\d+)", open(o).read(), re.M)
            if not ks:
                break
            structural.add(left[int(ks[-1]) - 1]["i"])
        got |= structural
        state = "" if r["finished"] else f" (TLC rc {rc}: {r['error']})"
        print(f"{pid} {u['trace']}: {len(got)} of {len(out)} corrupted observations rejected, {len(structural)} of them structurally{state}", flush=True)
        missed = {}
        for i, (p, rec) in paths.items():
            if i not in got:
                key = ".".join("#" if isinstance(x, int) else x for x in p)
                missed.setdefault(key, []).append((len(json.dumps(rec)), rec["in"], p))
        for key, v in missed.items():
            print("   not rejected:", key, len(v), json.dumps(min(v, key=lambda z: z[0])[1:])[:300], flush=True)


NEGATIVE = [("HashLock", "HashLock.quick.cfg", "Guarded = TRUE", "Guarded = FALSE"),
            ("TokenWriters", "TokenWriters.quick.cfg", 'Granularity = "document"', 'Granularity = "line"'),
            ("TokenWriters", "TokenWriters.quick.cfg", 'Granularity = "document"', 'Granularity = "none"')]


def negative():
    work = os.path.join(vp.BUILD, "work", "selftest")
    for module, cfg, a, b in NEGATIVE:
        s = open(os.path.join(vp.SPEC, cfg)).read()
        assert a in s
        os.makedirs(work, exist_ok=True)
        p = os.path.join(work, "bad.cfg")
        open(p, "w").write(s.replace(a, b))
        rc, o = vp.run_tlc(module, p, work)
        r = vp.parse_tlc(o)
        print(module, b, "->", "violation found" if r["error"] and "violated" in r["error"] else f"NOT FOUND rc {rc} {r['error']}", flush=True)


ids = sys.argv[1:] or sorted(CHECKS)
negative()
for pid in ids:
    one(pid)
