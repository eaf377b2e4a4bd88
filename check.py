#!/usr/bin/env python3
"""Decide one property: compile /repo's sources to LLVM IR, link them with the modelled
runtime and the property's harnesses, execute symbolically, replay counterexamples.

  check.py P21 [--tier quick|thorough] [--run NAME] [--keep DIR]
  check.py --setup            build the engine only
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = os.path.join(HERE, "engine", "build", "symx")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CLANG = "clang++"

BASE = ("-std=c++17 -O1 -g1 -fno-pic -fno-vectorize -fno-slp-vectorize -mcx16 -fignore-exceptions -fno-threadsafe-statics "
        "-D_GLIBCXX_EXTERN_TEMPLATE=0 -DSHIRAKAMI_LINUX -DINDEX_YAKUSHIMA -DYAKUSHIMA_EPOCH_TIME=40 "
        "-DPARAM_EPOCH_TIME=0 -DPARAM_RETRY_READ=0 -DPARAM_SNAPSHOT_EPOCH=25 -DPARAM_CHECKPOINT_REST_EPOCH=40 "
        "-DPARAM_PWAL_LOG_GCOMMIT_THRESHOLD=1000 -DPARAM_CPR_DIFF_SET_RESERVE_NUM=0 -w").split()
PWAL = "-DPWAL -DHAVE_LIMESTONE_CONFIG_CTOR_NONE -DHAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH -DHAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE".split()


class Inconclusive(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def engine_hash():
    h = hashlib.sha256()
    for f in ("symx.cpp", "expr.h"):
        h.update(open(os.path.join(HERE, "engine", f), "rb").read())
    return h.hexdigest()


def build_engine():
    stamp = ENGINE + ".stamp"
    want = engine_hash()
    if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(os.path.dirname(ENGINE), exist_ok=True)
    cfg = "llvm-config-18" if shutil.which("llvm-config-18") else "llvm-config"
    cxx = [x for x in sh([cfg, "--cxxflags"]).stdout.split() if x not in ("-fno-exceptions", "-std=c++17")]
    ld = sh([cfg, "--ldflags"]).stdout.split()
    tmp = ENGINE + ".%d" % os.getpid()
    r = sh([CLANG, "-std=c++17", "-O2", "-w", "-fexceptions"] + cxx + [os.path.join(HERE, "engine", "symx.cpp"), "-o", tmp, "-lLLVM-18"] + ld + ["-lz3"])
    if r.returncode:
        raise Inconclusive("engine build failed:\n" + r.stdout[-3000:])
    os.replace(tmp, ENGINE)
    open(stamp, "w").write(want)


def flags(cfg):
    f = list(BASE)
    f += ["-DKVS_MAX_PARALLEL_THREADS=%d" % cfg.get("threads", 4), "-DYAKUSHIMA_MAX_PARALLEL_SESSIONS=%d" % cfg.get("threads", 4)]
    f += ["-DPROJECT_ROOT=" + REPO]
    if cfg.get("pwal"):
        f += PWAL
    f += ["-D" + d for d in cfg.get("defs", [])]
    f += ["-I" + d for d in cfg.get("incs", [])]
    f += ["-I" + os.path.join(HERE, "stubs"), "-I" + os.path.join(HERE, "rt"), "-I" + os.path.join(HERE, "harness"), "-I%s/include" % REPO, "-I%s/src" % REPO,
          "-I%s/src/include" % REPO, "-I%s/third_party" % REPO]
    return f


def repo_sources(pwal):
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        if not pwal and "/datastore/" in d + "/":
            continue
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)


def tree_hash(extra):
    h = hashlib.sha256(extra.encode())
    roots = [os.path.join(REPO, x) for x in ("src", "include", "third_party")] + [os.path.join(HERE, x) for x in ("stubs",)]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            if ".git" in d:
                continue
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".h", ".cpp", ".hpp")):
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def compile_bc(src, out, fl):
    r = sh([CLANG] + fl + ["-c", "-emit-llvm", src, "-o", out])
    return r.returncode == 0, r.stdout


def lib_bitcode(cfg, work, log):
    """all library sources of the current tree as one bitcode file"""
    fl = flags(cfg)
    cache = os.environ.get("VERIF_DEV_CACHE")  # development only
    if cache:
        os.makedirs(cache, exist_ok=True)
        c = os.path.join(cache, tree_hash(" ".join(fl)) + ".bc")
        if os.path.exists(c):
            return c
    key = hashlib.sha256(" ".join(fl).encode()).hexdigest()[:12]
    d = os.path.join(work, "lib-" + key)
    lib = os.path.join(d, "lib.bc")
    if os.path.exists(lib):
        return lib
    os.makedirs(d, exist_ok=True)
    srcs = repo_sources(cfg.get("pwal"))
    objs, failed = [], []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {}
        for s in srcs:
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".bc")
            futs[ex.submit(compile_bc, s, o, fl)] = (s, o)
        for f in concurrent.futures.as_completed(futs):
            s, o = futs[f]
            ok, msg = f.result()
            if ok:
                objs.append(o)
            else:
                failed.append(s)
                log("cannot compile %s:\n%s" % (s, msg[-1500:]))
    objs.sort()
    r = sh(["llvm-link"] + objs + ["-o", lib])
    if r.returncode:
        raise Inconclusive("llvm-link failed: " + r.stdout[-2000:])
    if cache and not failed:
        shutil.copy(lib, c + ".tmp%d" % os.getpid()); os.replace(c + ".tmp%d" % os.getpid(), c)
    return lib


def build_program(run, tier, work, log, entries):
    cfg = run.get("cfg", {})
    lib = lib_bitcode({k: v for k, v in cfg.items() if k != "hdefs"}, work, log)
    base = flags(cfg)
    fl = base + ["-DSX_TIER=%d" % (1 if tier == "thorough" else 0)] + ["-D" + d for d in cfg.get("hdefs", [])]
    hfl = fl + (["-fno-access-control"] if run.get("noaccess") else [])
    key = lambda x: hashlib.sha256(x.encode()).hexdigest()[:12]
    d = os.path.join(work, "prog-" + key(run["src"] + " ".join(hfl) + str(run.get("all", ""))))
    out = os.path.join(d, "prog.bc")
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    rtfl = fl + ["-fno-access-control"]
    rk, hk = key(" ".join(rtfl)), key(run["src"] + " ".join(hfl))
    jobs = [(os.path.join(HERE, "rt", "rt.cpp"), os.path.join(work, "rt-%s.bc" % rk), rtfl),
            (os.path.join(HERE, "rt", "stream.cpp"), os.path.join(work, "stream-%s.bc" % rk), rtfl),
            (os.path.join(HERE, "harness", run["src"]), os.path.join(work, "h-%s.bc" % hk), hfl)]
    todo = [j for j in jobs if not os.path.exists(j[1])]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for (s, o, _), (ok, msg) in zip(todo, ex.map(lambda j: compile_bc(*j), todo)):
            if not ok:
                raise Inconclusive("cannot compile %s:\n%s" % (s, msg[-3000:]))
    raw = os.path.join(d, "raw.bc")
    r = sh(["llvm-link", lib, "--override=" + jobs[0][1], "--override=" + jobs[1][1], jobs[2][1], "-o", raw])
    if r.returncode:
        raise Inconclusive("llvm-link failed: " + r.stdout[-2000:])
    small = os.path.join(d, "small.bc")
    keep = ",".join(entries + ["__sx_point", "__sx_point_w", "sx_pause"])
    r = sh(["opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + keep, raw, "-o", small])
    if r.returncode:
        raise Inconclusive("opt failed: " + r.stdout[-2000:])
    r = sh([ENGINE, "instrument", small, out] + (["-all", run["all"]] if run.get("all") else []))
    if r.returncode:
        raise Inconclusive("instrumentation failed: " + r.stdout[-2000:])
    return out


def native(prog, entry, work):
    """native executable of the same program for replays"""
    exe = os.path.join(os.path.dirname(prog), "replay-" + entry)
    if os.path.exists(exe):
        return exe
    obj = os.path.join(os.path.dirname(prog), "prog.o")
    if not os.path.exists(obj):
        r = sh(["llc", "-O1", "-filetype=obj", "-relocation-model=pic", "-mattr=+cx16", prog, "-o", obj])
        if r.returncode:
            raise Inconclusive("llc failed: " + r.stdout[-2000:])
    r = sh([CLANG, "-std=c++17", "-O1", "-DSX_ENTRY=" + entry, os.path.join(HERE, "rt", "native.cpp"), obj, "-o", exe, "-latomic", "-nostdlib++"])
    if r.returncode:
        raise Inconclusive("native link failed: " + r.stdout[-2000:])
    return exe


def replay(prog, entry, inputs, work, dst):
    exe = native(prog, entry, work)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w") as f:
        for i in inputs:
            f.write("%d %d\n" % (i[1], i[2]))
    try:
        r = subprocess.run([exe, dst], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=150)
    except subprocess.TimeoutExpired:
        return -1, "timeout"
    return r.returncode, r.stdout.strip()[-400:]


def main():
    a = sys.argv[1:]
    if "--setup" in a:
        build_engine()
        print("engine ready")
        return 0
    sys.path.insert(0, HERE)
    import specs
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    only = a[a.index("--run") + 1] if "--run" in a else None
    keep = a[a.index("--keep") + 1] if "--keep" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = specs.PROPS[pid]
    t0 = time.time()
    known = json.load(open(os.path.join(HERE, "known-findings.json")))["findings"] if os.path.exists(os.path.join(HERE, "known-findings.json")) else []
    known = [k for k in known if k["property"] == pid and k.get("status") == "open"]
    if keep:
        work = os.path.abspath(keep)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work, exist_ok=True)
    else:
        work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    log = lambda m: print(m, flush=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"), "assumptions": specs.COMMON_ASSUMPTIONS + spec.get("assumptions", []),
          "violations": 0}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "runs": [], "queries_discharged": 0, "solver_s": 0.0,
           "functions_encoded": [], "exhaustive_within_bounds": True}
    funcs = set()
    rc = 0
    problems = []
    found = []
    try:
        build_engine()
        for run in spec["runs"]:
            if only and run.get("name", run["entry"]) != only:
                continue
            if tier == "quick" and run.get("tier") == "thorough":
                continue
            rname = run.get("name", run["entry"])
            prog = build_program(run, tier, work, log, sorted({r["entry"] for r in spec["runs"] if r["src"] == run["src"]}))
            tb = time.time()
            rd = os.path.join(work, "out-" + rname)
            os.makedirs(rd, exist_ok=True)
            budget = run.get("quick", 300) if tier == "quick" else run.get("thorough", 3600)
            res, vio = os.path.join(rd, "res.json"), os.path.join(rd, "viol.jsonl")
            cmd = [ENGINE, "run", prog, res, vio, "-entry", run["entry"], "-jobs", str(JOBS), "-time", str(budget)]
            if any(k.get("run") == rname for k in known):
                cmd.append("-keep-going")
            if keep:
                cmd += ["-cov", os.path.join(rd, "cov.tsv")]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            if p.stderr.strip():
                log(p.stderr.strip()[-3000:])
            if p.returncode or not os.path.exists(res):
                problems.append("%s: engine ended with %d" % (rname, p.returncode))
                continue
            s = json.load(open(res))
            viols = [json.loads(l) for l in open(vio)] if os.path.exists(vio) else []
            cov["states"] += s["paths"]
            cov["transitions"] += s["instructions"]
            cov["queries_discharged"] += s["queries"] + s["queries_cached"]
            cov["solver_s"] += s["solver_ms"] / 1000.0
            funcs |= set(s["functions"])
            rec = {"run": rname, "bounds": run.get("bounds", ""), "paths": s["paths"], "instructions": s["instructions"], "queries": s["queries"],
                   "queries_cached": s["queries_cached"], "sat": s["sat"], "unsat": s["unsat"], "solver_s": s["solver_ms"] / 1000.0,
                   "assertions_checked": s["assertions_checked"], "witness_hits": s["witness_hits"], "wall_s": round(time.time() - tb, 2)}
            cov["runs"].append(rec)
            log("%-28s paths=%d insts=%.2fM queries=%d(+%d) asserts=%d witness=%d/%x viol=%d unk=%d err=%d trunc=%d rss=%dM %.1fs" % (
                rname, s["paths"], s["instructions"] / 1e6, s["queries"], s["queries_cached"], s["assertions_checked"], s["witness_hits"], s["witness_bits"],
                s["violations"], s["unknown"], s["engine_errors"], s["truncated"], s["max_rss_kb"] // 1024, time.time() - tb))
            if viols:
                new = []
                for v in viols:
                    k = next((k for k in known if k.get("run") == rname and re.search(k["match"], v["msg"] + " @ " + v["where"])), None)
                    if k:
                        line = "KNOWN-FINDING: property=%s %s" % (pid, k["what"])
                        if line not in found:
                            found.append(line)
                    else:
                        new.append(v)
                if new:
                    v = new[0]
                    dst = os.path.join(HERE, "evidence", "replay", "%s-%s.inputs" % (pid, rname))
                    rrc, rout = replay(prog, run["entry"], v["inputs"], work, dst)
                    ok = (v["kind"] in ("assert", "fail", "abnormal", "trap") and rrc == 42) or (v["kind"] in ("abnormal", "trap") and rrc == 43) or (v["kind"] == "memory" and rrc in (43, 42, 0))
                    log("counterexample: %s: %s\n  at %s" % (v["kind"], v["msg"], v["where"]))
                    log("  inputs: " + " ".join("%s=%d" % (i[3], i[2]) for i in v["inputs"])[:1500])
                    log("  native replay: rc=%d %s" % (rrc, rout))
                    json.dump({"property": pid, "run": rname, "kind": v["kind"], "msg": v["msg"], "where": v["where"], "inputs": v["inputs"],
                               "native_replay": {"rc": rrc, "output": rout}, "tier": tier}, open(dst.replace(".inputs", ".json"), "w"), indent=1)
                    if ok:
                        cov["traces_validated_against_impl"] += 1
                        ev["violations"] += len(new)
                        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(dst.replace(".inputs", ".json"), HERE)), flush=True)
                        rc = 1
                        break
                    problems.append("%s: counterexample not confirmed by the native replay (%d %s)" % (rname, rrc, rout))
            if s["engine_errors"] or s["unknown"] or s["crashed"] or (s["truncated"] and not viols) or s["deadline_hit"]:
                cov["exhaustive_within_bounds"] = False
                if not viols or s["engine_errors"]:
                    problems.append("%s: incomplete: engine_errors=%d unknown=%d crashed=%d truncated=%d deadline=%d %s" % (
                        rname, s["engine_errors"], s["unknown"], s["crashed"], s["truncated"], s["deadline_hit"], s["errors"][:600]))
            wm = (1 << run.get("witness", 1)) - 1
            if not viols and (s["witness_bits"] & wm) != wm:
                problems.append("%s: vacuous: witness bits %x of %x" % (rname, s["witness_bits"], wm))
            if s.get("samples"):
                cov["samples"] += s["samples"][:2]
                if run.get("validate", True) and not viols:
                    for smp in s["samples"][: (2 if tier == "quick" else 8)]:
                        rrc, rout = replay(prog, run["entry"], smp, work, os.path.join(work, "trace.inputs"))
                        if rrc == 0:
                            cov["traces_validated_against_impl"] += 1
                        else:
                            problems.append("%s: a path the engine judged good fails natively: rc=%d %s" % (rname, rrc, rout))
    except Inconclusive as e:
        problems.append(str(e))
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
    for l in found:
        print(l)
    cov["functions_encoded"] = sorted(funcs)
    cov["solver_s"] = round(cov["solver_s"], 3)
    if problems:
        cov["problems"] = problems
        for p in problems:
            log("INCONCLUSIVE " + p)
        if rc == 0:
            rc = 2
    ev["coverage"] = cov
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %s in %.1fs" % (pid, tier, {0: "held", 1: "VIOLATED", 2: "inconclusive"}[rc], ev["wall_s"]))
    return rc


if __name__ == "__main__":
    sys.exit(main())
