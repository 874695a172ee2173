#!/usr/bin/env python3
"""Driver: builds the harnesses of one property from /repo's working tree, runs them, judges what the monitors saw.

usage: run.py <PROPERTY> [quick|thorough]      (tier defaults to $VERIF_TIER, seed to $VERIF_SEED)
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build failure, nothing observed).
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, V)
from checks import CHECKS, LEVELS  # noqa: E402

BUILD = os.environ.get("VF_BUILD", os.path.join(V, "build"))
NCPU = os.cpu_count() or 8
BASE = ["-std=gnu++20", "-fopenmp", "-mavx2", "-mfma", "-pthread", "-w",
        "-DALAYA_LASER_USE_LIBAIO=1", "-DFMT_SHARED", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_COMPILED_LIB",
        "-DSPDLOG_ACTIVE_LEVEL=4"]
VARIANTS = {
    # what the project ships
    "prod": ["-Ofast", "-DNDEBUG"],
    # same code, asserts on, no fast-math: quick to compile
    "plain": ["-O1"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=alignment,vptr", "-fsanitize-recover=undefined"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
LIBS = ["-lspdlog", "-lfmt", "-lrocksdb", "-luring", "-laio"]
INC = ["-I" + V + "/lib", "-I" + V + "/shim", "-I" + REPO + "/include", "-I" + REPO + "/python/include",
       "-isystem", "/usr/include/concurrentqueue/moodycamel", "-isystem", "/usr/include/concurrentqueue",
       "-isystem", "/usr/include/eigen3"]


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".cpp", ".py", ".cc")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


_REPO_HASH = None


def repo_hash():
    global _REPO_HASH
    if _REPO_HASH is None:
        _REPO_HASH = tree_hash([REPO + "/include", REPO + "/python/include", REPO + "/python/src",
                                V + "/lib", V + "/shim"])
    return _REPO_HASH


def build_one(b):
    """b: dict(src, variant, defs, libs, shared, name)"""
    src = os.path.join(V, "harness", b["src"]) if not os.path.isabs(b["src"]) else b["src"]
    variant = b.get("variant", "plain")
    flags = BASE + VARIANTS[variant] + b.get("defs", []) + b.get("flags", [])
    libs = b.get("libs", LIBS)
    key = hashlib.sha256()
    key.update(repo_hash().encode())
    with open(src, "rb") as f:
        key.update(f.read())
    key.update(repr((flags, libs, src, INC)).encode())
    out = os.path.join(BUILD, "%s-%s-%s" % (os.path.basename(b["src"]).split(".")[0], variant, key.hexdigest()[:16]))
    if b.get("obj"):
        out += ".o"
    if os.path.exists(out):
        return out, 0.0, ""
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    cmd = ["/usr/bin/g++"] + flags + INC + [src, "-o", tmp] + (["-c"] if b.get("obj") else libs)
    t0 = time.time()
    env = dict(os.environ, TMPDIR=BUILD)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if p.returncode != 0:
        return None, time.time() - t0, p.stdout[-6000:]
    os.replace(tmp, out)
    return out, time.time() - t0, ""


ASAN_OPTS = ("exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=1:"
             "detect_stack_use_after_return=0:strict_string_checks=0:max_allocation_size_mb=8192:"
             "hard_rss_limit_mb=12000")
UBSAN_OPTS = "print_stacktrace=1"
TSAN_OPTS = "exitcode=66:halt_on_error=0:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0"


def demangle_head(fn):
    fn = re.sub(r"\(.*", "", fn.strip())
    fn = re.sub(r"<[^<>]*>", "", fn)
    for _ in range(6):
        fn = re.sub(r"<[^<>]*>", "", fn)
    return fn.split("::")[-1] if "::" in fn else fn


def first_repo_frame(block):
    for ln in block.splitlines():
        m = re.match(r"\s*#\d+ (?:0x[0-9a-f]+ in )?(.*?) (\S+?):(\d+)", ln)
        if m and (REPO + "/" in ln):
            return demangle_head(m.group(1)), os.path.basename(m.group(2))
    return "?", "?"


def sanitizer_violations(log):
    out = []
    for m in re.finditer(r"ERROR: AddressSanitizer:? ([\w-]+)(.*?)(?=SUMMARY|\Z)", log, re.S):
        fn, f = first_repo_frame(m.group(0))
        out.append({"key": "asan:%s:%s:%s" % (m.group(1), f, fn), "msg": m.group(0)[:2500]})
    for m in re.finditer(r"^(\S+?):(\d+):\d+: runtime error: (.*)$((?:\n\s+#.*)*)", log, re.M):
        if REPO + "/" not in m.group(0):
            continue
        kind = re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(3))
        kind = re.sub(r"0x[0-9a-fA-FN]+", "P", kind)
        kind = re.sub(r"\bN?nan\b|\binf\b|-?inf", "N", kind)[:90]
        out.append({"key": "ubsan:%s:%s" % (os.path.basename(m.group(1)), kind), "msg": m.group(0)[:1500]})
    for m in re.finditer(r"WARNING: ThreadSanitizer: (.*?) \(pid=(.*?)(?=SUMMARY)SUMMARY.*", log, re.S | re.M):
        pass
    for blk in re.split(r"={18}\n", log):
        m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid=", blk)
        if m:
            fn, f = first_repo_frame(blk)
            if f == "?":
                continue  # no frame of the code under test involved
            out.append({"key": "tsan:%s:%s:%s" % (m.group(1).replace(" ", "-"), f, fn), "msg": blk[:4000]})
    return out


def run_job(job, binpath, seed, tier, scratch, idx):
    out = os.path.join(scratch, "out%d.json" % idx)
    sdir = os.path.join(scratch, "s%d" % idx)
    os.makedirs(sdir, exist_ok=True)
    cmd = ([binpath] if binpath else []) + job["cmd"] + ["--seed", str(seed + job.get("salt", 0)), "--tier", tier,
           "--shard", "%d/%d" % (job["shard"], job["shards"]), "--out", out, "--scratch", sdir]
    if job.get("mode"):
        cmd += ["--mode", job["mode"]]
    env = dict(os.environ)
    env.update(ASAN_OPTIONS=ASAN_OPTS, UBSAN_OPTIONS=UBSAN_OPTS, TSAN_OPTIONS=TSAN_OPTS,
               OMP_NUM_THREADS=str(job.get("omp", 4)), TMPDIR=sdir, SPDLOG_LEVEL="off")
    if job.get("variant") == "tsan":
        env["TSAN_OPTIONS"] += ":suppressions=" + V + "/lib/tsan.supp"
        if job.get("tsan"):
            env["TSAN_OPTIONS"] += ":" + job["tsan"]
    env.update(job.get("env", {}))
    timeout = job["timeout"]
    attempts = 0
    while True:
        attempts += 1
        for suffix in ("", ".tmp", ".hash"):
            if os.path.exists(out + suffix):
                os.remove(out + suffix)
        logp = out + ".log"
        t0 = time.time()
        with open(logp, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=sdir, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                rc = "timeout"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        if rc == "timeout" and attempts < 2 and job.get("retry_timeout", True):
            continue
        break
    with open(logp, "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(0)
        log = f.read(3_000_000).decode("utf-8", "replace")
        if size > 3_000_000:
            f.seek(size - 500_000)
            log += f.read().decode("utf-8", "replace")
    res = {"counters": {}, "samples": [], "violations": [], "current": ""}
    if os.path.exists(out):
        try:
            with open(out) as f:
                res = json.load(f)
        except ValueError:
            pass
    hashes = set()
    if os.path.exists(out + ".hash"):
        with open(out + ".hash", "rb") as f:
            d = f.read()
        hashes = set(struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]))
    viol = list(res["violations"])
    viol += sanitizer_violations(log)
    m = re.search(r"VF-(?:SIGNAL|TERMINATE).*during \[(.*?)\]", log)
    cur = m.group(1) if m else res.get("current", "")
    finished = res.get("counters", {}).get("finished", 0)
    errors = []
    if rc == "timeout":
        viol.append({"key": "hang:%s" % job["name"], "msg": "no result within %d s, twice; last progress: %s; log tail: %s"
                     % (timeout, cur, log[-1500:])})
    elif not finished and not any(v["key"].startswith("asan:") for v in viol):
        what = re.findall(r"VF-TERMINATE what: (.*)", log)
        if rc == 127 or (isinstance(rc, int) and rc == 96):
            errors.append("job %s ended with %s: %s" % (job["name"], rc, log[-1500:]))
        else:
            case = re.sub(r"\s*case=.*", "", cur)
            viol.append({"key": "crash:%s:%s" % (job["name"], case),
                         "msg": "harness process died (rc=%s) during [%s] %s; log tail: %s" % (rc, cur, what[-1:] or "", log[-2500:])})
    return {"job": job, "cmd": cmd, "rc": rc, "res": res, "hashes": hashes, "viol": viol, "errors": errors,
            "wall": time.time() - t0, "log": log[-20000:]}


def load_known():
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    evid = os.path.join(V, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evid), exist_ok=True)
    # ---- build
    builds = spec["builds"](tier) if callable(spec["builds"]) else spec["builds"]
    bins, fail = {}, None
    if "prebuild" in spec:
        spec["prebuild"](sys.modules[__name__])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {n: ex.submit(build_one, b) for n, b in builds.items()}
        for n, f in futs.items():
            path, dt, err = f.result()
            if path is None:
                fail = "build of %s failed:\n%s" % (n, err)
            bins[n] = path
    if not fail and "link" in spec:
        err = spec["link"](sys.modules[__name__], bins)
        if err:
            fail = err
    if fail:
        print(fail)
        print("ERROR property=%s could not build its harness" % pid)
        return 2
    build_s = time.time() - t0
    # ---- run
    base_scratch = os.environ.get("VF_SCRATCH", "/tmp")
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=base_scratch)
    os.chmod(scratch, 0o755)
    jobs = []
    for j in (spec["jobs"](tier) if callable(spec["jobs"]) else spec["jobs"]):
        n = j.get("shards", 1)
        for s in range(n):
            jj = dict(j, shard=s, shards=n)
            jj.setdefault("cmd", [])
            jj.setdefault("timeout", 240 if tier == "quick" else 3600)
            b = builds.get(j.get("bin"))
            jj.setdefault("variant", (b or {}).get("variant", ""))
            jobs.append(jj)
    jobs.sort(key=lambda j: -j.get("weight", 1))
    results = []
    try:
        with cf.ThreadPoolExecutor(spec.get("parallel", NCPU)) as ex:
            futs = [ex.submit(run_job, j, bins.get(j.get("bin")), seed, tier, scratch, i) for i, j in enumerate(jobs)]
            results = [f.result() for f in futs]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # ---- judge
    counters, samples, hashes, viols, errors = {}, [], set(), [], []
    per_job = {}
    for r in results:
        for k, v in r["res"]["counters"].items():
            if k != "finished":
                counters[k] = counters.get(k, 0) + v
                pj = per_job.setdefault(r["job"]["name"], {})
                pj[k] = pj.get(k, 0) + v
        for s in r["res"]["samples"]:
            if len(samples) < 12:
                samples.append("%s: %s" % (r["job"]["name"], s))
        hashes |= r["hashes"]
        errors += r["errors"]
        for v in r["viol"]:
            viols.append((r, v))
    known = [k for k in load_known() if k["property"] == pid and k.get("status") == "known"]
    ignore = spec.get("ignore_keys", [])
    new, seen_known = [], {}
    for r, v in viols:
        if any(re.fullmatch(p, v["key"]) for p in ignore):
            continue
        hit = next((k for k in known if re.fullmatch(k["key"], v["key"])), None)
        if hit:
            seen_known[hit["key"]] = hit
        else:
            new.append((r, v))
    rdir = os.path.join(V, "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    for k in known:
        print("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"], "" if k["key"] in seen_known else " (not triggered by this run)"))
    printed = {}
    for i, (r, v) in enumerate(new):
        if printed.get(v["key"], 0) >= 1 or len(printed) >= 12:
            continue
        printed[v["key"]] = 1
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%d.json" % i)
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "job": r["job"]["name"], "violation": v,
                       "source": builds.get(r["job"].get("bin"), {}), "cmd": r["cmd"], "log_tail": r["log"][-6000:]},
                      f, indent=1, default=str)
        print("  %s: %s" % (v["key"], v["msg"][:600].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    ev = counters.pop("evaluations", 0)
    cov = {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": spec["rule"], "samples": samples or ["none"],
           "monitor_counters": counters, "per_job": per_job, "build_s": round(build_s, 1),
           "jobs": len(jobs), "known_findings_seen": sorted(seen_known)}
    with open(evid, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": LEVELS.get(pid, "exploration"), "coverage": cov,
                   "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
                   "violations": len(new)}, f, indent=1)
    print("%s tier=%s seed=%d: %d evaluations, %d distinct non-trivial, %d monitor checks, build %.0fs, total %.0fs" %
          (pid, tier, seed, ev, len(hashes), counters.get("checks", 0), build_s, time.time() - t0))
    if new:
        return 1
    if errors:
        print("\n".join(errors))
        print("ERROR property=%s: a job gave no answer" % pid)
        return 2
    floor = spec.get("min", {})
    for k, n in floor.items():
        have = {"evaluations": ev, "distinct": len(hashes)}.get(k, counters.get(k, 0))
        if have < n:
            print("ERROR property=%s: monitors saw too little: %s=%d < %d" % (pid, k, have, n))
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
