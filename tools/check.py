#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: build the explorer from /repo's working tree, explore, judge, write evidence."""
import sys, os, json, subprocess, time, hashlib, fnmatch
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import build, meta

def known():
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):          # known: property=C01 | case=<id or glob> | key=<key> | <what fails>
                f = [x.strip() for x in l[len("known:"):].split("|", 3)]
                out.append((f[0].split("=", 1)[1], f[1].split("=", 1)[1], f[2].split("=", 1)[1], f[3]))
    return out

def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    m = meta.META[prop]
    reports = []
    for variant in m.get("variants", ["mc"]):
        exe = build.build(variant)
        if not exe:
            print("build of the explorer failed"); return 3
        rep = os.path.join(ROOT, "build", "report-%s-%s-%s-%d.json" % (prop, tier, variant, os.getpid()))
        env = dict(os.environ, OPENBLAS_NUM_THREADS="1", MC_VARIANT=variant, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
        r = subprocess.run([exe, prop, tier, rep], env=env)
        if r.returncode != 0 or not os.path.exists(rep):
            print("explorer failed with status", r.returncode); return 3
        d = json.load(open(rep)); os.unlink(rep); d["variant"] = variant; reports.append((exe, d))
    kf = [k for k in known() if k[0] == prop]
    hit, new = {}, []
    for exe, d in reports:
        for v in d["violations"]:
            for k in kf:
                if (v["case"] == k[1] or fnmatch.fnmatchcase(v["case"], k[1])) and v["key"] == k[2]:
                    hit[k] = hit.get(k, 0) + 1; break
            else: new.append((exe, d["variant"], v))
    tot = lambda n: sum(d[n] for _, d in reports)
    ctr = {}
    for _, d in reports:
        for k, v in d["counters"].items(): ctr[k] = ctr.get(k, 0) + v
    samples = [s for _, d in reports for s in d["samples"]][:12]
    lvl = m["level"]
    cov = {"cases": tot("cases"), "executions": tot("execs"), "samples": samples, "counters": ctr, "capped_explorations": tot("capped"), "exhaustive": tot("capped") == 0, "bounds": m["bounds"], "slowest": reports[0][1]["slow"][:4]}
    if lvl == "model_checking":
        cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("validated"), distinct_outcomes=tot("distinct"))
    else:
        cov.update(evaluations=tot("execs"), distinct_nontrivial=tot("distinct"), rule=m["rule"], states=tot("states"), transitions=tot("transitions"))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": lvl, "coverage": cov, "assumptions": m.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))
    for k, n in hit.items(): print("KNOWN-FINDING: property=%s %s (%d case%s)" % (prop, k[3], n, "" if n == 1 else "s"))
    print("%s %s: %d cases, %d executions, %d states, %d transitions, %d distinct outcomes, %d capped, %.1f s" % (prop, tier, tot("cases"), tot("execs"), tot("states"), tot("transitions"), tot("distinct"), tot("capped"), time.time() - t0))
    if new:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for exe, variant, v in new[:25]:
            h = hashlib.sha1((v["case"] + v["key"]).encode()).hexdigest()[:10]
            rp = os.path.join(ROOT, "replays", "%s-%s.txt" % (prop, h))
            open(rp, "w").write("property: %s\ncase: %s\nkey: %s\nwhat: %s\nreplay: cd /verif && python3 tools/build.py %s && MC_VERBOSE=1 MC_VARIANT=%s build/%s/mc %s %s /dev/stdout --case '%s'\n" % (prop, v["case"], v["key"], v["what"], variant, variant, variant, prop, tier, v["case"]))
            print("  %s [%s]: %s" % (v["case"], v["key"], v["what"][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        if len(new) > 25: print("  ... %d more" % (len(new) - 25))
        return 1
    return 0
sys.exit(main())
