#!/usr/bin/env python3
"""seedtest.py ID [--check] [--others]: confirm a planted change: the patch applies to /repo's HEAD, builds, keeps the
stable tests passing, and its demo exits 0 without and nonzero with it.  --check also runs the check of its property
(quick tier) against it.  /repo is restored afterwards."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def build_and_test(tag):
    r = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    res = json.load(open("/tmp/seedtest.json"))
    missing = base - set(res["passed"])
    if missing:
        print(f"  {tag}: tests not passing: {missing}\n" + r.stdout[-1500:])
    return not missing

def main():
    sid = sys.argv[1]
    d = os.path.join(VERIF, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    ok = True
    skip_clean = "--fast" in sys.argv
    if not skip_clean:
        build_and_test("clean")
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        print(f"{sid}: demo clean rc={r.returncode}")
        if r.returncode:
            print(r.stdout[-1500:]); ok = False
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode:
        print(a.stdout); return 1
    try:
        if not build_and_test("patched"):
            ok = False
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        print(f"{sid}: demo patched rc={r.returncode}: {r.stdout[-200:].strip()}")
        if r.returncode == 0:
            ok = False
        if "--check" in sys.argv:
            props = [meta["property"]] + [x[2:] for x in sys.argv if x.startswith("+P")]
            for p in props:
                r = sh(f"VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 {VERIF}/check.py {p}", cwd=VERIF)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                print(f"{sid}: check {p} rc={r.returncode} {v[:2]}" + ("" if r.returncode == 1 else "   <== MISSED"))
                if r.returncode not in (0, 1):
                    print(r.stdout[-800:])
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    print(f"{sid}: {'confirmed' if ok else 'NOT CONFIRMED'}")
    return 0 if ok else 1

sys.exit(main())
