"""Shared machinery of the checks: build drivers from /repo, run them under the deterministic scheduler, validate the
recorded histories with TLC, confirm and report rejections, write evidence."""
import os, sys, json, subprocess, time, hashlib, re, shutil, concurrent.futures as cf, random

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(ROOT, "harness")
SPEC = os.path.join(ROOT, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "--param", "tsan-distinguish-volatile=1"]
NCPU = min(8, os.cpu_count() or 1)
JAR = "/opt/veriftools/tla/tla2tools.jar"


class CheckError(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd, text=True, errors="replace")


# --------------------------------------------------------------------------------------------------------- build
def build(bdir, t):
    """t: dict name, sources [(path, inst, extra flags)], flags, libs.  Paths starting with @ are in /repo."""
    os.makedirs(bdir, exist_ok=True)
    for c in t.get("pre", []):
        r = sh(["sh", "-ec", c.replace("@", REPO + "/").replace("%H", HARN).replace("%B", bdir)], 600, None, bdir)
        if r.returncode != 0:
            raise CheckError("build step failed: %s\n%s" % (c, r.stdout[-4000:]))
    objs, jobs = [], []
    srcs = [(os.path.join(HARN, "rt/sched.cpp"), False, []), (os.path.join(HARN, "rt/prefilter.cpp"), False, [])] + t["src"]
    for i, s in enumerate(srcs):
        path, inst, extra = s
        small = path.startswith("~")          # copy with other size parameters (t["subst"]); unchanged where they are not found
        path = path.lstrip("~").replace("@", REPO + "/").replace("%B", bdir)
        if small:
            txt = open(path, errors="surrogateescape").read()
            for a, b in t["subst"]:
                txt = re.sub(a, b, txt, flags=re.M)
            path = os.path.join(bdir, t["name"] + "_" + os.path.basename(path))
            open(path, "w", errors="surrogateescape").write(txt)
        if not path.startswith("/"):
            path = os.path.join(HARN, path)
        obj = os.path.join(bdir, "%s_%d_%s.o" % (t["name"], i, os.path.basename(path)))
        isc = path.endswith(".c")
        cmd = ["gcc" if isc else "g++", "-O2", "-g1", "-w", "-c", path, "-o", obj]
        if i > 1:
            cmd += [f.replace("@", REPO + "/").replace("%B", bdir).replace("%H", HARN) for f in t.get("flags", [])]
        cmd += [f.replace("@", REPO + "/") for f in extra]
        if not isc and not any(f.startswith("-std=") for f in cmd):
            cmd.append("-std=c++17")
        cmd += ["-I" + HARN]
        if inst:
            cmd += TSAN
        if inst and t.get("asm"):
            cmd = ["sh", "-ec", '"$@" && python3 %s %s.s %s && gcc -c %s.h.s -o %s' % (os.path.join(HARN, "rt/asmhook.py"), obj, obj + ".h.s", obj, obj), "sh"] \
                + [x if x != obj else obj + ".s" for x in cmd if x != "-c"] + ["-S", "-mno-red-zone"]
        objs.append(obj)
        jobs.append(cmd)
    exe = os.path.join(bdir, t["name"])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for cmd, r in zip(jobs, ex.map(lambda c: sh(c, 900), jobs)):
            if r.returncode != 0:
                raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    for i, s in enumerate(srcs):
        if s[1]:
            r = sh(["objcopy"] + ["--redefine-sym=%s=vs_%s" % (f, f) for f in ("memcpy", "memmove", "memset", "memcmp", "strcmp", "strlen")] + [objs[i]])
            if r.returncode != 0:
                raise CheckError("objcopy failed: " + r.stdout)
    r = sh([t.get("ld", "g++"), "-o", exe] + objs + [l.replace("%B", bdir) for l in t.get("libs", [])] + ["-lpthread", "-ldl"], 300)
    if r.returncode != 0:
        raise CheckError("link failed:\n" + r.stdout[-4000:])
    return exe


# --------------------------------------------------------------------------------------------------------- drive
def drive(exe, out, args, cpu, limit):
    cmd = [exe, "--out", out, "--cpu", str(cpu)]
    for k, v in args.items():
        cmd += ["--" + k, str(v)]
    try:
        r = sh(cmd, limit)
    except subprocess.TimeoutExpired:
        raise CheckError("driver did not finish: " + " ".join(cmd))
    if r.returncode != 0:
        raise CheckError("driver failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-2000:]))
    js = [l for l in r.stdout.splitlines() if l.startswith("{")]
    return cmd, json.loads(js[-1])


# --------------------------------------------------------------------------------------------------------- TLC
def tlc(module, cfg, meta, env=None, workers=2, timeout=800, extra=(), heap="3g"):
    if os.path.isdir(meta):
        shutil.rmtree(meta)
    os.makedirs(meta)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JAR + ":" + cmjar(), "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    try:
        r = sh(cmd, timeout, env, SPEC)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not finish in %d s: %s" % (timeout, module))
    shutil.rmtree(meta, ignore_errors=True)
    o = r.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", o)
    gen, dis = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    done = "Model checking completed. No error has been found" in o
    return dict(out=o, gen=gen, distinct=dis, ok=done, rc=r.returncode)


_cm = None


def cmjar():
    global _cm
    if _cm is None:
        _cm = ""
        d = os.path.dirname(JAR)
        for f in os.listdir(d):
            if "ommunity" in f and f.endswith(".jar"):
                _cm = os.path.join(d, f)
    return _cm


def validate(spec, lines, work, tag, shards=4, workers=2):
    """TLC trace validation.  Returns (rejected [(line index, event index)], states, transitions)."""
    if not lines:
        return [], 0, 0
    shards = max(1, min(shards, len(lines) // 50 + 1))
    # interleave so that shards have the same cost
    parts = [list(range(i, len(lines), shards)) for i in range(shards)]

    def go(i):
        f = os.path.join(work, "%s.%d.ndjson" % (tag, i))
        with open(f, "w") as fh:
            for j in parts[i]:
                fh.write(lines[j] + "\n")
        r = tlc(spec + ".tla", spec + ".cfg", os.path.join(work, "meta.%s.%d" % (tag, i)), {"TRACE": f}, workers)
        if not r["ok"]:
            raise CheckError("TLC failed on %s:\n%s" % (f, r["out"][-3000:]))
        os.unlink(f)
        rej = []
        for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', r["out"]):
            rej.append((parts[i][int(m.group(1)) - 1], int(m.group(2)) - 1))
        # every event of every accepted history must have been consumed: guards against a vacuous specification
        want = 0
        rj = dict(rej)
        for j in parts[i]:
            n = json.loads(lines[j])["ev"].__len__()
            want += (rj[j] + 2) if j in rj else n + 1
        if want != r["distinct"]:
            raise CheckError("trace specification %s consumed %d states, expected %d" % (spec, r["distinct"], want))
        return rej, r["distinct"], r["gen"]
    with cf.ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(go, range(shards)))
    return sorted(sum((r[0] for r in rs), [])), sum(r[1] for r in rs), sum(r[2] for r in rs)


# --------------------------------------------------------------------------------------------------------- findings
def known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop and f["status"] == "known"]


def signature(hist, at):
    """Short description of a rejection, and the predicate the known-findings file matches on."""
    ev = hist["ev"][at] if at < len(hist["ev"]) else {}
    if ev.get("e") == "x":
        return "event %s" % ev.get("w")
    if ev.get("e") == "f":
        return "final contents %s are not explained by the operations" % json.dumps(ev.get("m"))[:160]
    c = None
    for x in hist["ev"][:at]:
        if x.get("e") == "c" and x.get("t") == ev.get("t"):
            c = x
    return "response %s to %s is not allowed" % (json.dumps({k: v for k, v in ev.items() if k not in ("e", "t")})[:160],
                                                 json.dumps({k: v for k, v in (c or {}).items() if k not in ("e", "t")})[:160])
