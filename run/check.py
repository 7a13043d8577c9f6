#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's working tree.  Exit 0 held / 1 violated (VIOLATION line) / 2 error."""
import sys, os, json, time, tempfile, shutil, random, traceback, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import *
from props import PROPS, TARGETS, DESIGN


def run_stage(prop, st, tier, work, exes, rep):
    """one conformance stage: drive the code, validate its histories"""
    thorough = tier == "thorough"
    secs = st.get("secs", 8) * 1.75 * (10 if thorough else 1)
    cap = st.get("cap", 10000) * (6 if thorough else 1)
    n = st.get("n", 10 ** 9)
    exe = exes[st["drv"]]
    shards = st.get("shards", NCPU)
    jobs = []
    for i in range(shards):
        args = dict(st.get("args", {}))
        args.update(seed=SEED * 1009 + i + 100 * st.get("salt", 0), n=n, secs=secs)
        if st.get("kind"):
            args["kind"] = st["kind"]
        args["keep"] = cap // shards
        if st.get("per"):
            args["per"] = st["per"]
        jobs.append((exe, os.path.join(work, "%s.%d.nd" % (st["drv"] + st.get("kind", ""), i)), args, i % NCPU, secs * 4 + 240))
    with cf.ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(lambda j: drive(*j), jobs))
    lines, src, seen = [], [], set()
    total = 0
    crashes = []
    for (cmd, stt), j in zip(res, jobs):
        rep["execs"] += stt["execs"]; rep["steps"] += stt["steps"]; rep["histories"] += stt["distinct"]
        with open(j[1]) as f:
            for ln in f:
                ln = ln.rstrip("\n")
                if not ln:
                    continue
                total += 1
                cut = ln.index(",")               # {"id":N, ...
                key = hash(ln[cut:])
                if key in seen:
                    continue
                seen.add(key)
                (crashes if '"e":"x"' in ln or '"sus":1' in ln[:4000] else lines).append((ln, cmd))
        os.unlink(j[1])
    rng = random.Random(SEED)
    if len(lines) > cap:
        lines = rng.sample(lines, cap)
    lines = crashes[:200] + lines
    rej, dis, gen = validate(st["spec"], [l for l, _ in lines], work, st["drv"] + st.get("kind", ""), st.get("tlc", 4), 2)
    rep["states"] += dis; rep["transitions"] += gen
    rep["validated"] += len(lines) - len(rej)
    if lines and len(rep["samples"]) < 4:
        rep["samples"].append({"driver": st["drv"], "kind": st.get("kind", ""), "spec": st["spec"], "history": lines[rng.randrange(len(lines))][0][:1500]})
    rep["stages"].append({"driver": st["drv"], "kind": st.get("kind", ""), "spec": st["spec"], "executions": sum(r[1]["execs"] for r in res),
                          "scheduler_steps": sum(r[1]["steps"] for r in res), "distinct_histories": sum(r[1]["distinct"] for r in res), "prefiltered_suspicious": sum(r[1]["suspicious"] for r in res), "validated_histories": len(lines) - len(rej)})
    out = []
    for i, at in rej[:40]:
        ln, cmd = lines[i]
        h = json.loads(ln)
        if at < len(h["ev"]) and h["ev"][at].get("w") == "TIMEOUT":
            # wall-clock based: only believed when it repeats on a quiet machine with a longer limit
            c2 = [c for c in cmd]
            o2 = os.path.join(work, "again.nd")
            c2[c2.index("--out") + 1] = o2
            c2[c2.index("--n") + 1] = str(h["id"] + 1)
            r2 = sh(c2 + ["--from", str(h["id"]), "--alarm", "60", "--cpulimit", "40"], 600)
            if '"TIMEOUT"' not in open(o2).read():
                continue
        out.append((h, at, cmd, st))
        if len(out) >= 8:
            break
    return out


def design(d, tier, work, rep):
    """Exhaustive check of a design model: the model of the algorithm as it is keeps the property, and (thorough) each variant
    with a known mistake violates it, so that the model can tell them apart."""
    m = d["mod"]
    runs = [(m, True)] + [("%s_%s" % (m, c), True) for c in d.get("also", [])]
    if tier == "thorough":
        runs += [("%s_%s" % (m, c), True) for c in d.get("deep", [])] + [("%s_%s" % (m, c), False) for c in d.get("bad", [])]
    for cfg, good in runs:
        r = tlc("design/%s.tla" % m, "design/%s.cfg" % cfg, os.path.join(work, "meta.d"), None, NCPU, 3000, [] if d.get("deadlock") else ["-deadlock"], "8g")
        found = re.search(r"Invariant (\w+) is violated|Deadlock reached|Temporal properties were violated", r["out"])
        if good and not r["ok"] or not good and not found:
            raise CheckError("design model %s: %s\n%s" % (cfg, "violated" if good else "the planted mistake was not found", r["out"][-3000:]))
        rep["states"] += r["distinct"]
        rep["transitions"] += r["gen"]
        rep["design"].append({"module": m, "cfg": cfg, "expect": "holds" if good else "violated", "distinct_states": r["distinct"], "states_generated": r["gen"]})


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    P = PROPS[prop]
    work = tempfile.mkdtemp(prefix="vchk_%s_" % prop)
    shm = os.environ["VS_SCRATCH"] = tempfile.mkdtemp(prefix="vchk_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)   # for drivers that write files
    rep = dict(execs=0, steps=0, histories=0, states=0, transitions=0, validated=0, samples=[], stages=[], design=[])
    viol = []
    try:
        bdir = os.path.join(work, "b")
        exes = {}
        for st in P["stages"]:
            if st["drv"] not in exes:
                exes[st["drv"]] = build(bdir, dict(TARGETS[st["drv"]], name=st["drv"]))
        tb = time.time() - t0
        for d in DESIGN.get(prop, []):
            design(d, tier, work, rep)
        for st in P["stages"]:
            if tier == "quick" and st.get("thorough_only"):
                continue
            viol += run_stage(prop, st, tier, work, exes, rep)
            if viol:
                break
        kf = known(prop)
        new = []
        for v in viol:
            s = signature(v[0], v[1])
            f = next((f for f in kf if f.get("driver") in (None, v[3]["drv"]) and re.search(f["match"], s)), None)
            if f:
                f["seen"] = f.get("seen", 0) + 1
            else:
                new.append((v, s))
        for f in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        code = 0
        if new:
            rdir = os.path.join(ROOT, "replays")
            os.makedirs(rdir, exist_ok=True)
            (h, at, cmd, st), s = new[0]
            path = os.path.join(rdir, "%s.json" % prop)
            rc = list(cmd)
            rc[0] = st["drv"]
            json.dump({"property": prop, "what": s, "rejected_event": at, "spec": st["spec"], "driver_command": rc, "execution": h["id"],
                       "others": [x[1] for x in new[1:]], "history": h}, open(path, "w"), indent=1)
            print("history of execution %d of %s: event %d: %s" % (h["id"], st["drv"], at, s))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, ROOT)))
            code = 1
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": SEED, "level": P.get("level", "model_checking"),
              "coverage": {"states": rep["states"], "transitions": rep["transitions"], "traces_validated_against_impl": rep["validated"],
                           "samples": rep["samples"], "executions_of_the_code": rep["execs"], "scheduler_steps": rep["steps"],
                           "stages": rep["stages"], "design_models": rep["design"], "build_s": round(tb, 1)},
              "assumptions": P.get("assumptions", []) + ["interleavings of instrumented accesses, sequentially consistent or (a quarter of the concurrent executions) with x86 store buffers; no reordering beyond TSO"],
              "wall_s": round(time.time() - t0, 1), "violations": len(new)}
        if not rep["design"]:
            del ev["coverage"]["design_models"]
        json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
        print("%s %s: %d executions, %d histories validated, %d states, %.1f s" % (prop, tier, rep["execs"], rep["validated"], rep["states"], time.time() - t0))
        return code
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(shm, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
