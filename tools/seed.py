#!/usr/bin/env python3
"""Developer aid for planted bugs. The edit is made in /repo's working tree and always undone.

seed.py make ID      save `git diff` of /repo as seeded/ID/patch.diff, undo it, then verify
seed.py verify ID    patch applies, builds, stable tests pass, demo fails with it and passes without it
seed.py run ID...    apply, run the quick check of the property, undo; prints caught / MISSED
seed.py all          run for every planted bug"""
import json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(VERIF, "seeded")
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def clean(): return sh("git -C /repo status --porcelain -uno").stdout.strip() == ""
def undo(): sh("git -C /repo checkout -- .")
def build():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: print(r.stdout[-3000:])
    return r.returncode == 0
def tests():
    sh("bash /opt/vp/test.sh /tmp/seed-o.json")
    o = json.load(open("/tmp/seed-o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base.get("tests") or base
    stable = stable if isinstance(stable, list) else list(stable)
    miss = [t for t in stable if t not in set(o["passed"])]
    return miss
def demo(i):
    try: r = sh("bash %s/%s/demo.sh" % (S, i), cwd="/repo", timeout=300)
    except subprocess.TimeoutExpired: return 124, "timeout"
    return r.returncode, r.stdout
def apply(i):
    assert clean(), "repo dirty"
    r = sh("git -C /repo apply %s/%s/patch.diff" % (S, i))
    if r.returncode: print(i, "patch does not apply", r.stdout)
    return r.returncode == 0
def verify(i):
    good = True
    try:
        if not apply(i): return False
        if not build(): print(i, "does not build"); return False
        m = tests()
        if m: print(i, "breaks tests", m[:5]); good = False
        c, o = demo(i)
        if c == 0: print(i, "demo passes with the bug:", o[-500:]); good = False
        else: print("demo with bug:", c, o[-300:].strip())
    finally:
        undo(); build()
    c, o = demo(i)
    if c != 0: print(i, "demo fails on the unchanged tree:", c, o[-800:]); good = False
    print(i, "COUNTS" if good else "does NOT count")
    return good
def run(i, extra=None):
    meta = json.load(open("%s/%s/meta.json" % (S, i)))
    res = []
    try:
        if not apply(i): return
        for p in (extra or [meta["property"]]):
            t = time.time()
            r = sh("VERIF_SEED=%s VERIF_TIER=quick python3 %s/tools/check.py %s" % (os.environ.get("VERIF_SEED", "1"), VERIF, p))
            caught = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
            res.append("%s %s %s (%.0fs)" % (i, p, "caught" if caught else "MISSED rc=%d" % r.returncode, time.time() - t))
            if caught: res.append("   " + next((l for l in r.stdout.split("\n") if l.startswith("suite ")), "")[:200])
            if r.returncode not in (0, 1): res.append(r.stdout[-1500:])
    finally:
        undo()
    print("\n".join(res), flush=True)
def main():
    a = sys.argv[1]
    if a == "make":
        i = sys.argv[2]
        d = os.path.join(S, i); os.makedirs(d, exist_ok=True)
        diff = sh("git -C /repo diff").stdout
        assert diff.strip(), "no change"
        open(d + "/patch.diff", "w").write(diff); undo()
        if os.path.exists(d + "/demo.sh"): verify(i)
    elif a == "verify":
        for i in sys.argv[2:]: verify(i)
    elif a == "run":
        if "--prop" in sys.argv:
            k = sys.argv.index("--prop")
            for i in sys.argv[2:k]: run(i, sys.argv[k + 1:])
        else:
            for i in sys.argv[2:]: run(i)
    elif a == "all":
        for i in sorted(os.listdir(S)): run(i)
main()
