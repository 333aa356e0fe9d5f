#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]

Builds libcwd and the harness of one property from /repo's working tree, searches for a counterexample, writes
evidence/ID.json and exits with 0 (held on everything explored) or 1 (VIOLATION line printed)."""
import argparse, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build
from checks import CHECKS

def known_findings(prop):
    """id -> text of the listed findings; fixed: entries suppress nothing."""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                ident, text = line.split(" ", 2)[2].split(" ", 1)
                out[ident] = text
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--stage")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    chk = CHECKS[a.id]
    t0 = time.time()
    known = known_findings(a.id)
    for n in ("evidence", "replays", "work"):
        os.makedirs(os.path.join(HERE, n), exist_ok=True)
    total = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "nontrivial": 0, "planned": 0}
    stages, samples, rules, labels, replays, assumptions, seen_known = [], [], [], {}, [], list(chk.get("assumptions", [])), set()
    rc = 0
    todo = [st for st in chk["stages"] if (not a.stage or a.stage == st["harness"] + "-" + st.get("variant", "plain"))
            and (a.tier == "thorough" or not st.get("thorough_only"))]
    pool = ThreadPoolExecutor(len(todo) or 1)
    for st in todo: # The next stage is built while this one runs.
        st["built"] = pool.submit(build.build_harness, st["harness"], st.get("variant", "plain"), st.get("extra", ()),
                                  st.get("libs", ()), None, st.get("cflags"))
    for st in todo:
        name, variant = st["harness"], st.get("variant", "plain")
        sid = name + "-" + variant
        try:
            exe, d, gen = st["built"].result()
            env = dict(os.environ, VP_LIBDIR=d, VP_GEN=gen, VP_KNOWN=",".join(known), VP_VERIF=HERE, VP_REPO=build.REPO,
                       ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0",
                       UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1",
                       TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:report_signal_unsafe=0")
            for k in list(env):
                if k.startswith("LIBCWD_"):
                    del env[k]
            env.update(st.get("env", {}))
            for cmd in st.get("prepare", []):
                build.prepare(cmd, d, gen, env)
        except build.BuildError as e:
            print("BUILD FAILED:", str(e)[:4000])
            if not st.get("option"):
                sys.exit(2)
            try: # Does it build with the default options?
                build.build_harness(name, "plain", st.get("extra", ()), st.get("libs", ()))
            except build.BuildError as e2:
                print("BUILD FAILED:", str(e2)[:4000])
                sys.exit(2)
            if a.replay:
                sys.exit(1)
            rc = 1
            replay = os.path.join(HERE, "replays", "%s-%s.json" % (a.id, sid))
            with open(replay, "w") as f:
                json.dump({"property": a.id, "stage": sid, "message": "does not build", "output": str(e)[:4000], "replay": "check.py %s --stage %s --build-only" % (a.id, sid)}, f, indent=1)
            replays.append(replay)
            stages.append({"stage": sid, "evaluations": 1, "planned": 1, "discarded": 0, "distinct_nontrivial": 1, "unreproduced": 0, "wall_s": 0})
            print("VIOLATION property=%s replay=%s" % (a.id, replay))
            break
        if a.build_only:
            continue
        work = os.path.join(HERE, "work", a.id + "-" + sid + "-" + str(os.getpid()))
        os.makedirs(work, exist_ok=True)
        replay = os.path.join(HERE, "replays", "%s-%s.json" % (a.id, sid))
        part = os.path.join(work, "part.json")
        if a.replay:
            r = subprocess.run([exe, "--replay", os.path.abspath(a.replay)], cwd=work, env=env).returncode
            subprocess.run(["rm", "-rf", work])
            sys.exit(r)
        if os.path.exists(replay):
            os.unlink(replay)
        cmd = [exe, "--seed", str(a.seed), "--evidence", part, "--replay-out", replay,
               "--time-cap", str(st.get("thorough_cap", 600) if a.tier == "thorough" else st.get("quick_cap", 240))]
        if a.tier == "thorough":
            cmd.append("--thorough")
        n = a.cases or (st.get("thorough") if a.tier == "thorough" else st.get("quick"))
        if n:
            cmd += ["--cases", str(n)]
        if st.get("workers"):
            cmd += ["--workers", str(st["workers"])]
        r = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, text=True, errors="replace")
        sys.stdout.write(r.stdout[-6000:])
        if not os.path.exists(part):
            print("the search of stage %s gave no result (exit %d)" % (sid, r.returncode))
            subprocess.run(["rm", "-rf", work])
            sys.exit(2)
        e = json.load(open(part))
        subprocess.run(["rm", "-rf", work])
        for k in total:
            total[k] += e.get(k, 0)
        rules.append("%s: %s" % (sid, e["rule"]))
        samples += e["samples"][:4]
        for k, v in e["labels"].items():
            if k.startswith("known:"):
                seen_known.add(k[6:])
            labels[k] = labels.get(k, 0) + v
        stages.append({"stage": sid, "evaluations": e["evaluations"], "planned": e["planned"], "discarded": e["discarded"],
                       "distinct_nontrivial": e["distinct_nontrivial"], "unreproduced": e["unreproduced"], "wall_s": e["wall_s"]})
        if r.returncode:
            rc = 1
            replays.append(replay)
            print("VIOLATION property=%s replay=%s" % (a.id, replay))
            break
    if a.build_only:
        return
    for ident, text in known.items():
        print("KNOWN-FINDING: property=%s %s %s" % (a.id, ident, text))
    if not samples:
        samples = ["no non-trivial case was generated"]
    ev = {"property": a.id, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": total["evaluations"], "distinct_nontrivial": total["distinct_nontrivial"],
                       "rule": " | ".join(rules), "samples": samples, "nontrivial": total["nontrivial"],
                       "discarded": total["discarded"], "planned": total["planned"], "labels": labels, "stages": stages,
                       "known_findings_met": sorted(seen_known)},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": 1 if rc else 0}
    with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s, %s" % (a.id, a.tier, total["evaluations"], total["distinct_nontrivial"],
          time.time() - t0, "VIOLATED" if rc else "held"))
    sys.exit(rc)

if __name__ == "__main__":
    main()
