#!/usr/bin/env python3
"""Decide one property of /repo by exhaustive bounded enumeration of the real code.

usage: check.py ID              (VERIF_TIER=quick|thorough, VERIF_SEED)
       check.py ID --replay F   re-run the single point recorded in F
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Anything else: the check itself failed.
"""
import array, json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from properties_config import PROPS  # noqa: E402

NPROC = os.cpu_count() or 4
BASE = ["-std=c++20", "-w", "-pthread", "-I" + REPO + "/include", "-I" + VERIF + "/harness",
        "-isystem", "/usr/include/eigen3"]
VARIANTS = {
    # asserts are live in all of them, as in the repository's own test build
    "plain": ["-O1"],
    "opt": ["-O2"],
    "o0": ["-O0"],  # template-heavy units whose build would take longer than their runs
    "o0asan": ["-O0", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "avx2": ["-O1", "-mavx2", "-mfma"],
}


def cpu_has(flag):
    try:
        return any(flag in l.split() for l in open("/proc/cpuinfo") if l.startswith("flags"))
    except OSError:
        return False


class CheckError(Exception):
    pass


class DoesNotCompile(Exception):
    """Code the property says is accepted is refused by the compiler."""


def compile_one(job):
    exe, srcs, flags, parts = job
    for src, pflags in parts:  # parts compiled with flags of their own
        obj = "%s.%s.o" % (exe, os.path.basename(src))
        cmd = ["g++", "-c"] + pflags + BASE + [os.path.join(VERIF, "harness", src), "-o", obj]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
        srcs = srcs + [obj]
    cmd = ["g++"] + flags + BASE + srcs + ["-o", exe]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return exe


def run_one(exe, out, env, timeout):
    e = dict(os.environ)
    e.update(env)
    p = subprocess.Popen([exe, out], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        log, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.send_signal(signal.SIGABRT)  # makes it write the point it was at
        try:
            log, _ = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            log, _ = p.communicate()
        log += "\n[timed out after %ds]" % timeout
        res = load(out)
        res["timeout"] = True
        return p.returncode, res, log
    return p.returncode, load(out), log


def load(out):
    try:
        return json.load(open(out))
    except Exception as ex:
        return {"failed": None, "fail_key": "", "fail_msg": "no result file (%s)" % ex}


def known_findings(pid):
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                # known: property=<id> case="<glob>" <what fails>
                rest = line.split(" ", 2)[2]
                assert rest.startswith('case="')
                pat, what = rest[6:].split('"', 1)
                res.append((pat, what.strip()))
    return res


def main():
    pid = sys.argv[1]
    cfg = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return decide(pid, cfg, tier, seed, t0, build)
    finally:
        shutil.rmtree(build, ignore_errors=True)


def units(cfg, tier):
    res = []
    for u in cfg["units"]:
        if u.get("tier") == "thorough" and tier != "thorough":
            continue
        if u["variant"] == "avx2" and not (cpu_has("avx2") and cpu_has("fma")):
            continue
        res.append(u)
    return res


def decide(pid, cfg, tier, seed, t0, build):
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = json.load(open(sys.argv[3]))
    todo = units(cfg, tier)
    if replay:
        todo = [u for u in todo if unit_name(u) == replay["unit"]] or todo
    jobs = []
    for u in todo:
        exe = os.path.join(build, unit_name(u))
        srcs = [os.path.join(VERIF, "harness", s) for s in u["src"]]
        jobs.append((exe, srcs, VARIANTS.get(u["variant"], []) + u.get("flags", []), u.get("parts", [])))
    with ThreadPoolExecutor(NPROC) as ex:
        futures = [ex.submit(compile_one, j) for j in jobs]
        errors = [f.exception() for f in futures]
    for u, job, err in zip(todo, jobs, errors):
        if err is None:
            continue
        if not u.get("must_compile") or " error: " not in str(err) or isinstance(err, OSError):
            raise err
        try:
            compile_one(job)
        except CheckError as again:
            return refused(pid, u, tier, seed, t0, again)
    t_build = time.time() - t0
    known = known_findings(pid)
    base_env = {"MC_TIER": tier, "MC_KNOWN": "\n".join("%s\t%s" % k for k in known), "VERIF_SEED": str(seed)}
    limit = (3600 * 4 if tier == "thorough" else 780)

    if replay:
        env = dict(base_env)
        if replay.get("shard"):
            env["MC_SHARD"] = replay["shard"]
        else:
            env["MC_ONLY"] = replay["key"]
        rc, res, log = run_one(jobs[0][0], os.path.join(build, "r.json"), env, limit)
        print(log, end="")
        print(json.dumps({k: res.get(k) for k in ("failed", "fail_key", "fail_msg")}))
        if res.get("failed"):
            print("VIOLATION property=%s replay=%s" % (pid, sys.argv[3]))
            return 1
        return 0

    tasks = []
    for u, job in zip(todo, jobs):
        n = u.get("shards", 8)
        for i in range(n):
            tasks.append((u, job[0], i, n))

    stop = []

    def run_task(t):
        u, exe, i, n = t
        if stop:
            return t, 0, None, ""
        left = max(30, limit - (time.time() - t0))
        rc, res, log = run_one(exe, "%s.%d.json" % (exe, i), dict(base_env, MC_SHARD="%d/%d" % (i, n)), left)
        if res.get("failed"):
            stop.append(1)
        return t, rc, res, log

    with ThreadPoolExecutor(NPROC) as ex:
        results = list(ex.map(run_task, tasks))

    violations = []
    states = set()
    tot = {"cases": 0, "steps": 0, "checks": 0}
    classes, samples, knownhit, notes = {}, [], [], []
    for (u, exe, i, n), rc, res, log in results:
        if res is None:
            continue
        if res.get("failed"):
            violations.append((u, exe, i, n, res, log))
            continue
        if res.get("failed") is None or rc != 0 or not res.get("complete"):
            raise CheckError("%s shard %d ended with %s: %s\n%s" % (unit_name(u), i, rc, res.get("fail_msg"), log[-3000:]))
        for k in tot:
            tot[k] += res[k]
        for k, v in res["classes"].items():
            kk = "%s/%s" % (u["variant"], k)
            classes[kk] = classes.get(kk, 0) + v
        for s in res["samples"]:
            if len(samples) < 40 and s not in samples:
                samples.append(s)
        for s in res["notes"]:
            if s not in notes:
                notes.append(s)
        for s in res["known"]:
            if s not in knownhit:
                knownhit.append(s)
        a = array.array("Q")
        try:
            with open("%s.%d.json.states" % (exe, i), "rb") as f:
                a.frombytes(f.read())
        except OSError:
            pass
        states.update(a)

    confirmed = None
    for u, exe, i, n, res, log in violations:
        # Replay before reporting: the single point first, then (for history-dependent state) the same shard again.
        rp = {"property": pid, "unit": unit_name(u), "key": res.get("fail_key"), "message": res.get("fail_msg"), "tier": tier}
        out = os.path.join(build, "replay.json")
        if res.get("fail_key") and not res["fail_key"].startswith("(startup"):
            rc2, res2, log2 = run_one(exe, out, dict(base_env, MC_ONLY=res["fail_key"]), 400)
            if res2.get("failed"):
                confirmed = (rp, res2, log + log2)
                break
        if os.path.exists(out):
            os.remove(out)
        rc3, res3, log3 = run_one(exe, out, dict(base_env, MC_SHARD="%d/%d" % (i, n)), limit)
        if res3.get("failed"):
            rp["shard"] = "%d/%d" % (i, n)
            confirmed = (rp, res3, log + log3)
            break
    if violations and not confirmed:
        # Not reproducible: an error of the check, never a verdict.
        raise CheckError("a reported violation did not reproduce: %s" % violations[0][4])

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {
        "states": len(states),
        "transitions": tot["steps"],
        "traces_validated_against_impl": tot["cases"],
        "oracle_comparisons": tot["checks"],
        "samples": samples,
        "exhaustive": not violations,
        "enumerated": classes,
        "bounds": cfg["bounds"][tier] if isinstance(cfg["bounds"], dict) else cfg["bounds"],
        "method": cfg["method"],
        "build_variants": sorted({u["variant"] for u in todo}),
        "build_s": round(t_build, 2),
    }
    if notes:
        cov["notes"] = notes
    if knownhit:
        cov["known_findings"] = knownhit
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"), "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if confirmed else 0}
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % pid))

    for k in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if confirmed:
        rp, res, log = confirmed
        path = os.path.join(VERIF, "evidence", "replay-%s.json" % pid)
        with open(path, "w") as f:
            json.dump(rp, f, indent=1)
        print("case: %s\n%s" % (rp["key"], rp["message"]))
        tail = [l for l in log.splitlines() if l.strip()][-12:]
        print("\n".join(tail))
        print("replay with: python3 %s/check.py %s --replay %s" % (VERIF, pid, path))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s %s: held on %d points, %d operations, %d distinct observed states (%.1fs)" %
          (pid, tier, tot["cases"], tot["steps"], len(states), time.time() - t0))
    return 0


def refused(pid, u, tier, seed, t0, err):
    """The property covers that these uses compile: report the one that does not."""
    msg = [l for l in str(err).splitlines() if " error: " in l or "required from" in l][:12]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", "replay-%s.json" % pid)
    with open(path, "w") as f:
        json.dump({"property": pid, "unit": unit_name(u), "key": "(does not compile)", "message": "\n".join(msg), "tier": tier}, f, indent=1)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": msg[:3],
                       "exhaustive": False, "method": "compiling the uses of the library the property names"},
          "assumptions": [], "wall_s": round(time.time() - t0, 2), "violations": 1}
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("a use of the library that the property covers does not compile:")
    print("\n".join(msg))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def unit_name(u):
    return os.path.splitext((u["src"] or [u["parts"][-1][0]])[0])[0] + "-" + u["variant"] + u.get("suffix", "")


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as ex:
        print("CHECK ERROR: %s" % ex)
        sys.exit(2)
