#!/usr/bin/env python3
"""Runs the check of one property:  python3 check.py C01 [--tier quick|thorough]

Builds the property's harnesses from /repo's current working tree, runs the bounded exhaustive enumeration, compares the
failures with known_findings.json, writes evidence/<id>.json and exits 0 (held) or 1 (VIOLATION line printed).
Exit 2 means that no answer could be given (the harness does not compile against the tree, ...)."""
import sys, os, json, time, subprocess, hashlib, shutil, signal, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "lib"))
from spec import SPECS, CXX, BASE_FLAGS, VTK_FLAGS, VTK_LIBS  # noqa: E402

BUILD = os.path.join(HERE, "build")


def log(*a):
    print(*a, flush=True)


def configured_headers(dst):
    """What CMake's configure_file does for src/Caribou/Config/*.h.in, from the working tree."""
    src = os.path.join(REPO, "src/Caribou/Config")
    out = os.path.join(dst, "Caribou")
    os.makedirs(out, exist_ok=True)
    for f in sorted(os.listdir(src)):
        if f.endswith(".h.in"):
            t = open(os.path.join(src, f), encoding="utf-8").read()
            t = re.sub(r"^(\s*#\s*)cmakedefine\s+(\w+).*$", r"/* #undef \2 */", t, flags=re.M)
            t = re.sub(r"@CARIBOU_VERSION_STR@|@CARIBOU_VERSION@|@\w+@|\$\{\w+\}", "0", t)
            p = os.path.join(out, f[:-3])
            if not os.path.exists(p) or open(p, encoding="utf-8").read() != t:
                open(p, "w", encoding="utf-8").write(t)
    return dst


def sofa_headers(dst):
    """Forwarding headers to the miniature SOFA (harness/sofa_stub) for every SOFA header that SofaCaribou includes."""
    src = os.path.join(REPO, "src/SofaCaribou")
    want = {}
    for d, _, files in os.walk(src):
        for f in files:
            if f.endswith((".h", ".inl", ".cpp", ".in")):
                t = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
                for h in re.findall(r'#\s*include\s*[<"]((?:sofa|Sofa(?!Caribou)\w*)/[^>"]+)[>"]', t):
                    want[h] = '#pragma once\n#include "minisofa.h"\n'
                if f.endswith(".h.in"):
                    t = re.sub(r"^(\s*#\s*)cmakedefine\s+(\w+).*$", r"/* #undef \2 */", t, flags=re.M)
                    want["SofaCaribou/" + os.path.relpath(os.path.join(d, f[:-3]), src)] = re.sub(r"@\w+@|\$\{\w+\}", "0", t)
    for h, t in want.items():
        p = os.path.join(dst, h)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p, encoding="utf-8").read() != t:
            open(p, "w", encoding="utf-8").write(t)
    return dst


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(HERE, "harness"), os.path.join(HERE, "lib")):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


class BuildError(Exception):
    pass


def compile_unit(cmd, out, th):
    key = hashlib.sha256((th + "\0" + "\0".join(cmd)).encode()).hexdigest()
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    open(stamp, "w").write(key)


def run_unit(u, tier, resdir):
    """Runs one harness process; returns a result dict."""
    out = os.path.join(resdir, u["name"] + ".json")
    for p in (out, out + ".crumb"):
        if os.path.exists(p):
            os.unlink(p)
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_REPO=REPO,
               OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
               ASAN_OPTIONS="detect_leaks=%d:abort_on_error=1:handle_abort=1:detect_stack_use_after_return=1" % (1 if u.get("leaks") else 0),
               UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:abort_on_error=1")
    env.update(u.get("env", {}))
    limit = u["timeout_thorough"] if tier == "thorough" else u["timeout"]
    argv = u["argv"] + [out]
    t0 = time.time()
    with open(out + ".log", "wb") as lf:
        p = subprocess.Popen(argv, stdout=lf, stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd=resdir)
        try:
            rc = p.wait(timeout=limit)
            hang = False
        except subprocess.TimeoutExpired:
            hang = True
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    crumb = ""
    try:
        crumb = open(out + ".crumb", "rb").read().split(b"\0")[0].decode(errors="replace")
    except OSError:
        pass
    logtail = open(out + ".log", "rb").read()[-6000:].decode(errors="replace")
    res = {"traces": 0, "states": 0, "steps": 0, "evals": 0, "per": {}, "failures": {}, "bounds": {}, "violations": [], "samples": []}
    if os.path.exists(out):
        res = json.load(open(out))
    if hang:
        k = "hang:" + u["name"]
        res["violations"].append({"key": k, "detail": "no termination within %d s; exploring: %s" % (limit, crumb)})
        res["failures"][k] = 1
    elif rc == 97:
        k = "hang:" + u["name"]
        res["violations"].append({"key": k, "detail": "an operation does not terminate (CPU time watchdog); exploring: %s" % crumb})
        res["failures"][k] = 1
    elif rc != 0:
        k = "crash:" + u["name"]
        res["violations"].append({"key": k, "detail": "process ended with status %s; exploring: %s\n%s" % (rc, crumb, logtail[-3000:])})
        res["failures"][k] = 1
    elif not os.path.exists(out):
        k = "crash:" + u["name"]
        res["violations"].append({"key": k, "detail": "the process ended without a result; exploring: %s\n%s" % (crumb, logtail[-3000:])})
        res["failures"][k] = 1
    res["wall"] = time.time() - t0
    res["unit"] = u["name"]
    res["hang"] = hang
    return res


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = SPECS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    resdir = os.path.join(BUILD, "run", pid)
    shutil.rmtree(resdir, ignore_errors=True)
    os.makedirs(resdir)
    inc = configured_headers(os.path.join(BUILD, "include"))
    sofa_headers(os.path.join(BUILD, "sofa_include"))
    th = tree_hash()
    jobs, units = [], []
    ctx = {"repo": REPO, "build": BUILD, "here": HERE, "inc": inc, "tier": tier, "res": resdir}
    objs = {}
    bdir = os.path.join(BUILD, "bin")
    os.makedirs(bdir, exist_ok=True)

    def expand(s):
        return s.format(**ctx)

    common = {}

    def cmdline(src, flags, out, link=True):
        return [CXX] + BASE_FLAGS + [expand(f) for f in flags] + ["-I" + inc, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "harness"),
               "-include", os.path.join(HERE, "harness/eigen_checks.h")] + ([] if link else ["-c"]) + [expand(src), "-o", out]

    compile_jobs = []   # (cmd, out)
    link_jobs = []      # (cmd, out)
    for u in spec["units"]:
        shards = u.get("shards", [None])
        tu = u.get("tier", "both")
        if tu == "thorough" and tier != "thorough":
            continue
        if "src" in u:
            extra_objs = []
            for lib in u.get("repo_sources", []):
                o = os.path.join(bdir, "lib-" + hashlib.md5((lib + repr(u.get("flags"))).encode()).hexdigest()[:10] + ".o")
                c = cmdline("{repo}/" + lib, u.get("flags", []) + u.get("lib_flags", []), o, link=False)
                if (c, o) not in compile_jobs:
                    compile_jobs.append((c, o))
                extra_objs.append(o)
            for lib in u.get("aux", []):  # parts of the harness that are built without the unit's own flags
                o = os.path.join(bdir, "aux-" + lib.replace("/", "_") + ".o")
                c = cmdline("{here}/harness/" + lib, ["-O2", "-U_GLIBCXX_ASSERTIONS"], o, link=False)
                if (c, o) not in compile_jobs:
                    compile_jobs.append((c, o))
                extra_objs.append(o)
            for s in shards:
                name = u["name"] + ("" if s is None else "-%s" % s)
                out = os.path.join(bdir, pid + "-" + name)
                flags = u.get("flags", []) + ([] if s is None else ["-DSHARD=%s" % s])
                if extra_objs or u.get("libs"):
                    o = out + ".o"
                    compile_jobs.append((cmdline("{here}/harness/" + u["src"], flags, o, link=False), o))
                    link_jobs.append(([CXX] + [f for f in BASE_FLAGS + flags if f.startswith("-fsanitize") and not u.get("own_runtime")] + [o] + extra_objs + [expand(l) for l in u.get("libs", [])] + ["-o", out], out))
                else:
                    compile_jobs.append((cmdline("{here}/harness/" + u["src"], flags, out), out))
                runs = u.get("run_shards", 1)
                for k in range(runs):
                    units.append({**u, "name": name + ("" if runs == 1 else ".%d" % k), "argv": [out], "timeout": u.get("timeout", 120), "timeout_thorough": u.get("timeout_thorough", 1500),
                                  "env": {**u.get("env", {}), "MC_PART": str(k), "MC_PARTS": str(runs)}})
        else:
            runs = u.get("run_shards", 1)
            for k in range(runs):
                units.append({**u, "name": u["name"] + ("" if runs == 1 else ".%d" % k), "argv": [expand(a) for a in u["argv"]], "timeout": u.get("timeout", 120), "timeout_thorough": u.get("timeout_thorough", 1500),
                              "env": {**u.get("env", {}), "MC_PART": str(k), "MC_PARTS": str(runs)}})
            if "prepare" in u:
                compile_jobs.append((u["prepare"], None))
    workers = int(os.environ.get("VERIF_JOBS", "8"))
    try:
        with ThreadPoolExecutor(workers) as ex:
            fs = []
            for c, o in compile_jobs:
                if o is None:
                    fs.append(ex.submit(c, ctx, BuildError))
                else:
                    fs.append(ex.submit(compile_unit, c, o, th))
            for f in fs:
                f.result()
            fs = [ex.submit(compile_unit, c, o, th + "link" + str([os.path.getmtime(x) for x in c if x.endswith(".o")])) for c, o in link_jobs]
            for f in fs:
                f.result()
    except BuildError as e:
        log("CHECK-ERROR property=%s: the harness does not build against the current tree" % pid)
        log(str(e)[-4000:])
        sys.exit(2)
    tb = time.time() - t0

    with ThreadPoolExecutor(workers) as ex:
        results = list(ex.map(lambda u: run_unit(u, tier, resdir), units))
    # a hang may be a starved machine: confirm it alone with three times the limit
    confirmed = any(r["violations"] and not r["hang"] for r in results)
    for i, r in enumerate(results):
        if r["hang"] and not confirmed:
            u = dict(units[i])
            u["timeout"] = min(u["timeout"] * 3, 360)
            u["timeout_thorough"] *= 3
            results[i] = run_unit(u, tier, resdir)
            confirmed = bool(results[i]["violations"])

    kf_path = os.path.join(HERE, "known_findings.json")
    known = [k for k in json.load(open(kf_path))["findings"] if k.get("property") == pid and k.get("status") == "known"]
    viol, hit = [], {}
    for r in results:
        seen = set()
        for v in r["violations"]:
            k = next((k for k in known if v["key"] == k["key"] and (k.get("contains", "") in v["detail"])), None)
            if k is not None:
                hit.setdefault(k["key"], (k, v))
            else:
                viol.append((r["unit"], v))
            seen.add(v["key"])
        for key in r["failures"]:
            if key not in seen and not any(k["key"] == key and not k.get("contains") for k in known):
                viol.append((r["unit"], {"key": key, "detail": "(details dropped: too many violations)"}))
    for k, v in hit.values():
        log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    states = sum(r["states"] for r in results)
    steps = sum(r["steps"] for r in results)
    evals = sum(r["evals"] for r in results)
    per, bounds, samples = {}, {}, []
    for r in results:
        for k, n in r["per"].items():
            per[k] = per.get(k, 0) + n
        bounds.update(r["bounds"])
    k = 0
    while len(samples) < 24 and any(len(r["samples"]) > k for r in results):
        for r in results:
            if len(r["samples"]) > k and len(samples) < 24:
                samples.append(r["samples"][k])
        k += 1
    if not samples:
        samples = ["(no sample recorded)"]
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec["level"], "wall_s": round(wall, 2),
          "coverage": {"states": states, "transitions": steps, "traces_validated_against_impl": sum(r["traces"] for r in results),
                       "property_evaluations": evals, "rule": spec["rule"], "samples": samples,
                       "exhaustive": not viol, "bounds": bounds, "evaluations_per_rule": per,
                       "binding": spec["binding"], "build_s": round(tb, 2)},
          "known_findings_seen": [k["what"] for k, _ in hit.values()],
          "violations": len(viol), "violation_details": [dict(unit=u, **v) for u, v in viol[:50]]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    log("%s tier=%s states=%d transitions=%d evaluations=%d build=%.1fs wall=%.1fs" % (pid, tier, states, steps, evals, tb, wall))
    if not viol and states < spec.get("min_states", 1):
        log("CHECK-ERROR property=%s: only %d states explored (expected at least %d)" % (pid, states, spec["min_states"]))
        sys.exit(2)
    if viol:
        rp = os.path.join(HERE, "evidence", "replay-%s.txt" % pid)
        with open(rp, "w") as f:
            f.write("# property %s, tier %s; re-run: cd %s && python3 check.py %s --tier %s\n" % (pid, tier, HERE, pid, tier))
            for u, v in viol[:100]:
                f.write("[%s] %s\n    %s\n" % (u, v["key"], v["detail"].replace("\n", "\n    ")))
        for u, v in viol[:10]:
            log("  [%s] %s -- %s" % (u, v["key"], v["detail"][:600].replace("\n", " | ")))
        log("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
