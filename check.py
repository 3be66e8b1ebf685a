#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's working tree
   check.py <property> replay <file>       re-run a reported violation, narrating
   check.py build                          compile every harness (setup)"""
import json, os, struct, subprocess, sys, time, shutil, signal, mmap

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
from registry import CHECKS

SHM_FMT = "<11Q"
T_OFF, T_MAX = 88, 4096
MSG_OFF = T_OFF + 4 * T_MAX
CAP_OFF = MSG_OFF + 4000
NS_OFF = CAP_OFF + 200
SAMP_OFF = NS_OFF + 8

ASAN = ("detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:hard_rss_limit_mb=%d:"
        "detect_stack_use_after_return=0:quarantine_size_mb=%d:thread_local_quarantine_size_kb=64:"
        "malloc_context_size=%d:exitcode=99:handle_abort=0:allow_user_segv_handler=0:"
        "fast_unwind_on_malloc=1:strict_string_checks=0:replace_str=1:intercept_strlen=1:detect_odr_violation=0:print_summary=1:max_malloc_fill_size=100000:malloc_fill_byte=190")

def env(explore):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN % (3500, 4 if explore else 32, 1 if explore else 20)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["LC_ALL"] = "C"; e["TZ"] = "UTC"
    return e

def build(pid, spec, log=sys.stderr):
    """One binary per property from /repo's current sources."""
    bdir = os.path.join(HERE, "build", pid)
    os.makedirs(bdir, exist_ok=True)
    out = os.path.join(bdir, "h")
    for f in (out,):
        if os.path.exists(f): os.remove(f)
    for f in [os.path.join(bdir, x) for x in os.listdir(bdir) if x.startswith("h_")]: os.remove(f)
    cc = spec.get("cc", "gcc")
    base = ["-g1", spec.get("opt", "-O1"), "-fno-omit-frame-pointer", "-w", "-Wno-array-parameter" if cc == "gcc" else "-w",
            "-I", REPO, "-I", os.path.join(HERE, "harness")]
    san = spec.get("san", ["-fsanitize=address"])
    objs, procs = [], []
    def comp(src, std, tag, extra=()):
        o = os.path.join(bdir, tag + ".o"); objs.append(o)
        if os.path.exists(o): os.remove(o)
        procs.append((src, subprocess.Popen([cc, std] + base + san + list(extra) + ["-c", src, "-o", o],
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    comp(os.path.join(HERE, "harness", "vp.c"), "-std=gnu11", "vp")
    # headers' inline code is compiled with the harness: once per language standard given
    stds = spec.get("stds", ("gnu11",)); mains = []
    for sd in stds:
        comp(os.path.join(HERE, "harness", spec.get("harness", pid.lower() + ".c")), "-std=" + sd, "main_" + sd, spec.get("hflags", ())); mains.append(objs.pop())
    for s in spec["sources"]:
        comp(os.path.join(REPO, s), "-std=c99", "repo_" + s.replace("/", "_")[:-2], spec.get("rflags", ()))
    ok = True
    for src, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            ok = False; print("compilation of %s failed:\n%s" % (src, o.decode(errors="replace")), file=log)
    if not ok: return None
    wraps = ["malloc", "calloc", "realloc", "free"] + list(spec.get("wrap", ()))
    for sd, m in zip(stds, mains):
        cmd = [cc] + san + [m] + objs + ["-Wl," + ",".join("--wrap=" + w for w in wraps), "-o", out + ("" if sd == stds[0] else "_" + sd)] + list(spec.get("libs", ())) + ["-lm"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print("link failed:\n" + r.stdout.decode(errors="replace"), file=log); return None
    if "post" in spec:
        r = subprocess.run(spec["post"], shell=True, cwd=bdir, env=dict(os.environ, REPO=REPO, HERE=HERE), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print("post-build failed:\n" + r.stdout.decode(errors="replace"), file=log); return None
    return out

def read_shm(path):
    with open(path, "rb") as f: b = f.read()
    if len(b) < SAMP_OFF: return None
    k = ("progress", "states", "transitions", "execs", "distinct", "maxdepth", "capped", "done", "skipped", "failed", "n")
    d = dict(zip(k, struct.unpack_from(SHM_FMT, b, 0)))
    d["trace"] = list(struct.unpack_from("<%dI" % min(d["n"], T_MAX), b, T_OFF))
    d["msg"] = b[MSG_OFF:MSG_OFF + 4000].split(b"\0")[0].decode(errors="replace")
    d["capwhy"] = b[CAP_OFF:CAP_OFF + 200].split(b"\0")[0].decode(errors="replace")
    ns = min(struct.unpack_from("<Q", b, NS_OFF)[0], 6)
    d["samples"] = [b[SAMP_OFF + 600 * i:SAMP_OFF + 600 * (i + 1)].split(b"\0")[0].decode(errors="replace") for i in range(ns)]
    return d

class Job: pass

def workdir(bdir, tag):
    d = os.path.join(bdir, "run_" + tag)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    return d

def run_replay(binp, bdir, tier, cfg, trace, timeout, tag="replay"):
    """returns (failed, output, hung)"""
    wd = workdir(bdir, tag)
    tf = os.path.join(wd, "trace"); open(tf, "w").write(",".join(map(str, trace)))
    of = open(os.path.join(wd, "out"), "wb")
    p = subprocess.Popen([binp[cfg // 1000], "--tier", tier, "--config", str(cfg % 1000), "--replay", "@" + tf], cwd=wd, env=env(False),
                         stdout=of, stderr=subprocess.STDOUT, start_new_session=True)
    hung = False
    try: p.wait(timeout)
    except subprocess.TimeoutExpired:
        hung = True; kill(p)
    of.close()
    with open(os.path.join(wd, "out"), "rb") as f: out = f.read(300000).decode(errors="replace")
    return (hung or p.returncode != 0), out, hung

def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    p.wait()

def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "build":
        bad = [i for i, s in CHECKS.items() if build(i, s) is None]
        print("built %d harnesses" % (len(CHECKS) - len(bad))); sys.exit(1 if bad else 0)
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = CHECKS[pid]
    t0 = time.time()
    bdir = os.path.join(HERE, "build", pid)
    binp = build(pid, spec)
    if not binp: sys.exit(2)
    stds = spec.get("stds", ("gnu11",)); binp = [binp if i == 0 else binp + "_" + sd for i, sd in enumerate(stds)]
    if tier == "replay":
        r = json.load(open(sys.argv[3]))
        f, out, hung = run_replay(binp, bdir, r["tier"], r["config"], r["trace"], 120)
        print(out); print("REPRODUCED" if f else "not reproduced"); sys.exit(1 if f else 0)
    stall = spec.get("stall", 40)
    if isinstance(stall, dict): stall = stall.get(tier, 40)
    budget = spec.get("budget", {}).get(tier, 780 if tier == "quick" else 6 * 3600)
    configs = []
    for i, b in enumerate(binp):
        lst = subprocess.run([b, "--tier", tier, "--list"], env=env(True), stdout=subprocess.PIPE)
        if lst.returncode: print("harness --list failed"); sys.exit(2)
        for l in lst.stdout.decode().splitlines():
            c, sh, name = l.split(" ", 2); configs.append((int(c) + 1000 * i, int(sh), name + ("" if i == 0 else " (%s)" % stds[i])))
    byname = {n: c for c, _, n in configs}

    # ---- known findings ----
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    skips, known_lines = {}, []
    for i, k in enumerate(kf["known"]):
        if k["property"] != pid or k["config"] not in byname: continue
        f, out, hung = run_replay(binp, bdir, tier, byname[k["config"]], k["trace"], spec.get("kf_timeout", 60), "known%d" % i)
        if f:
            skips.setdefault(k["config"], []).append(k["trace"])
            line = "KNOWN-FINDING: property=%s %s" % (pid, k["what"])
            if line not in known_lines: known_lines.append(line)

    # ---- exploration ----
    queue = [(c, n, s, sh) for c, sh, n in configs for s in range(sh)]
    running, done, viol, errors = [], [], None, []
    ncpu = spec.get("procs", max(2, (os.cpu_count() or 8)))
    timed_out = 0
    def start(c, n, s, sh):
        j = Job(); j.c, j.n, j.s, j.sh = c, n, s, sh
        j.wd = workdir(bdir, "%d_%d" % (c, s)); j.shm = os.path.join(j.wd, "shm")
        cmd = [binp[c // 1000], "--tier", tier, "--config", str(c % 1000), "--shard", "%d/%d" % (s, sh), "--shm", j.shm]
        if n in skips:
            sf = os.path.join(j.wd, "skip"); open(sf, "w").write("".join(",".join(map(str, t)) + "\n" for t in skips[n])); cmd += ["--skip", sf]
        j.of = open(os.path.join(j.wd, "out"), "wb")
        j.p = subprocess.Popen(cmd, cwd=j.wd, env=env(True), stdout=j.of, stderr=subprocess.STDOUT, start_new_session=True)
        j.last, j.lastt = -1, time.time()
        return j
    def output(j):
        with open(os.path.join(j.wd, "out"), "rb") as f:
            f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 20000)); return f.read().decode(errors="replace")
    try:
        while (queue or running) and viol is None and not errors:
            while queue and len(running) < ncpu: running.append(start(*queue.pop(0)))
            time.sleep(0.02)
            now = time.time()
            for j in list(running):
                rc = j.p.poll(); hung = False
                if rc is None:
                    if now - j.lastt > 1.0:
                        try:
                            with open(j.shm, "rb") as f: pr = struct.unpack("<Q", f.read(8))[0]
                        except Exception: pr = -1
                        if pr != j.last: j.last, j.lastt = pr, now
                        elif now - j.lastt > stall: hung = True
                    if not hung:
                        if now - t0 > budget: kill(j.p); timed_out += 1; j.capped_time = True; running.remove(j); done.append(j)
                        continue
                    kill(j.p)
                running.remove(j); j.of.close()
                d = read_shm(j.shm) if os.path.exists(j.shm) else None
                if rc == 0 and d and d["done"]: done.append(j); continue
                if d is None or rc == 4: errors.append("harness error in config %s: %s" % (j.n, output(j))); continue
                # a failure: replay alone before reporting
                f, out, h2 = run_replay(binp, bdir, tier, j.c, d["trace"], 150)
                how = "replayed alone"
                if not f and not hung:
                    # not reproducible from a fresh process: does the same exploration fail again at the same case?
                    j2 = start(j.c, j.n, j.s, j.sh)
                    try: j2.p.wait(700)
                    except subprocess.TimeoutExpired: kill(j2.p)
                    d2 = read_shm(j2.shm)
                    if j2.p.returncode not in (0, None) and d2 and d2["trace"] == d["trace"]:
                        f, out, how = True, output(j2), "same exploration repeated (fails only after earlier cases in one process)"
                if f:
                    viol = dict(property=pid, tier=tier, config=j.c, config_name=j.n, trace=d["trace"], message=d["msg"] or ("hang" if hung or h2 else "crash / sanitizer report"),
                                how=how, hang=bool(hung), output=out)
                    break
                errors.append("failure in config %s did not reproduce (trace %s): %s\n%s" % (j.n, d["trace"][:50], d["msg"], output(j)))
            if time.time() - t0 > budget and queue: timed_out += len(queue); queue = []
    finally:
        for j in running:
            if j.p.poll() is None: kill(j.p)

    tot = dict(states=0, transitions=0, execs=0, distinct=0, maxdepth=0, skipped=0)
    samples, caps, percfg = [], [], {}
    for j in done:
        d = read_shm(j.shm)
        if not d: continue
        for k in ("states", "transitions", "execs", "distinct", "skipped"): tot[k] += d[k]
        tot["maxdepth"] = max(tot["maxdepth"], d["maxdepth"])
        if d["capped"]: caps.append(j.n + ": " + d["capwhy"])
        pc = percfg.setdefault(j.n, dict(states=0, transitions=0, executions=0, max_depth=0))
        pc["states"] += d["states"]; pc["transitions"] += d["transitions"]; pc["executions"] += d["execs"]; pc["max_depth"] = max(pc["max_depth"], d["maxdepth"])
        for s in d["samples"]:
            if len(samples) < 12 and s and sum(x.startswith("[%s]" % j.n) for x in samples) < 2: samples.append("[%s] %s" % (j.n, s))
    if timed_out: caps.append("time budget of %d s reached: %d exploration(s) incomplete" % (budget, timed_out))
    level = spec["level"]
    cov = {"samples": samples or ["(none)"], "exhaustive": not caps, "caps": caps, "configurations": percfg, "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
           "max_depth": tot["maxdepth"], "known_findings_skipped": tot["skipped"]}
    if level == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["execs"], oracle=spec["oracle"])
    else:
        cov.update(evaluations=tot["execs"], distinct_nontrivial=tot["distinct"], rule=spec["rule"])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for l in known_lines: print(l)
    if viol:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", pid + ".json")
        with open(rp, "w") as f: json.dump(viol, f, indent=1)
        print("config: %s\n%s\n%s" % (viol["config_name"], viol["message"], viol["output"][-3000:]))
        print("VIOLATION property=%s replay=%s" % (pid, rp)); sys.exit(1)
    if errors:
        print("ERROR: " + errors[0]); sys.exit(2)
    if not done: print("ERROR: nothing explored"); sys.exit(2)
    print("%s %s: held on %d states, %d transitions, %d executions on the real code (depth %d)%s in %.1f s" % (
        pid, tier, tot["states"], tot["transitions"], tot["execs"], tot["maxdepth"], "" if not caps else "; CAPPED: " + "; ".join(caps), time.time() - t0))
    sys.exit(0)

if __name__ == "__main__": main()
