#!/usr/bin/env python3
"""Runs the solver-based check of one property.

usage: run.py PROPERTY [quick|thorough] [--job NAME] [--verbose]

Every run recompiles /repo's current working tree to LLVM bitcode, executes the
property's harnesses on it symbolically (engine/symx), and replays every
counterexample the solver produces on a sanitizer build of the same sources.
"""
import concurrent.futures as cf
import fnmatch, json, os, shutil, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, jobs as jobtable

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NCPU = max(2, min(8, len(os.sched_getaffinity(0))))
# a job that cannot start in time is reported as not explored
BUDGET = {"quick": 600, "thorough": 5400}
START = time.time()


def known_findings():
    """lines: finding: property=<id> sig=<label>|<function> <text>"""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l.split() if "=" in x)
                res.append((d.get("property"), d.get("sig", ""), l.strip()))
    return res


def run_symx(engine, bc, job, out, tier):
    left = BUDGET.get(tier, 600) - (time.time() - START)
    if left < 1:
        return {"incomplete": True, "incomplete_why": ["not started within the time budget"]}
    job.time = max(1, min(job.time, int(left)))
    cmd = [engine, "--bc", bc, "--entry", job.entry, "--out", out, "--time", str(job.time),
           "--samples", str(job.samples), "--seed", str(SEED)]
    for k, v in job.params.items():
        cmd += ["--param", "%s=%s" % (k, v)]
    for r in job.rules:
        cmd += ["--rule", r]
    if job.max_inst:
        cmd += ["--max-path-inst", str(job.max_inst)]
    for g in job.labels:
        cmd += ["--label", g]
    if job.errors_only:
        cmd += ["--errors-only"]
    cmd += job.extra
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=job.time + 120,
                           preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (12 << 30, 12 << 30)))
        txt, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired:
        txt, rc = "engine timeout", -9
    if rc != 0 or not os.path.exists(out):
        return {"engine_error": "rc=%d %s" % (rc, txt[-800:]), "wall_s": time.time() - t}
    with open(out) as f:
        return json.load(f)


def write_case(path, job, inputs, head):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        for k, v in job.params.items():
            f.write("P %s %s\n" % (k, v))
        for n, v in inputs:
            f.write("I %s %s\n" % (n.replace(" ", "_"), v))
    with open(path + ".why", "w") as f:
        f.write(head)


NAT_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=4096",
               UBSAN_OPTIONS="exitcode=99:print_stacktrace=1")


def replay(exe, job, path, limit=25, part=0):
    """part: a counterexample must exceed this fraction of the step limit (0: no limits)"""
    try:
        p = subprocess.run([exe, job.entry, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=limit, env=dict(NAT_ENV, SX_EFFORT_PART=str(part)), stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout[-6000:]
    except subprocess.TimeoutExpired:
        return "timeout", ""


def about(job, label):
    """labels: patterns of the assertions the property is about; !pattern excludes"""
    if any(fnmatch.fnmatch(label, g[1:]) for g in job.labels if g[0] == "!"):
        return False
    want = [g for g in job.labels if g[0] != "!"]
    return not want or any(fnmatch.fnmatch(label, g) for g in want)


def failed(job, rc, txt):
    """1: a check failed; 99/signal: sanitizer or abort; timeout: no termination"""
    if rc == 1:
        if job.errors_only:
            return False
        return any(about(job, l.split("REPLAY-CHECK-FAILED: ", 1)[1].strip()) for l in txt.splitlines() if "REPLAY-CHECK-FAILED: " in l)
    if job.cost:
        return rc in ("timeout", 97)
    return rc == "timeout" or rc not in (0, 2, 3)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[sys.argv.index("--job") + 1] if "--job" in sys.argv else None
    verbose = "--verbose" in sys.argv
    t0 = time.time()
    js = [j for j in jobtable.jobs(prop, tier) if not only or j.name == only]
    if not js:
        print("no jobs for", prop)
        return 2
    pool = cf.ThreadPoolExecutor(NCPU)
    try:
        fe = pool.submit(build.build_engine)
        bcs = build.build_bc(sorted({(j.harness, j.mode) for j in js}), pool)
        engine = fe.result()
    except Exception as e:  # does not compile: nothing was decided
        print("BUILD-FAILED", e)
        return 2
    t_build = time.time() - t0
    work = os.path.join(build.OUT, "run", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cexdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(cexdir, exist_ok=True)
    # jobs, longest first
    futs = [(j, pool.submit(run_symx, engine, bcs[(j.harness, j.mode)], j, os.path.join(work, j.name + ".json"), tier))
            for j in sorted(js, key=lambda j: -j.time)]
    # native builds proceed while the solver works
    nat = {}
    for k in sorted({(j.harness, j.mode) for j in js}):
        try:
            nat[k] = build.build_native(k[0], k[1], "pattern", cf.ThreadPoolExecutor(NCPU))
        except Exception as e:
            print("NATIVE-BUILD-FAILED", e)
            return 2
    results = [(j, f.result()) for j, f in futs]
    findings = known_findings()
    vio, kf, unconf, validated, mismatch, sample_out = [], [], [], 0, [], []
    rp = []
    for j, r in results:
        for n, inp in enumerate(r.get("samples", [])):
            path = os.path.join(work, "%s.sample%d" % (j.name, n))
            write_case(path, j, inp, "")
            rp.append((j, path, pool.submit(replay, nat[(j.harness, j.mode)], j, path)))
    ncex = 0
    for j, r in results:
        # confirm each counterexample on the real code
        bad = set()
        for v in r.get("violations", []):
            if j.errors_only and v["kind"] != "error":
                continue
            if j.cost and v["label"].split("@")[0] not in ("effort", "non-termination", "unbounded-allocation"):
                continue
            if v["label"] in bad or (v["kind"] == "check" and not about(j, v["label"])):
                continue
            path = os.path.join(cexdir, "%s-%s-%d.txt" % (prop, j.name, ncex))
            ncex += 1
            head = "property %s, job %s, entry %s (%s)\n%s: %s %s at %s\n%s\nreplay: %s %s %s\n" % (
                prop, j.name, j.entry, j.harness, v["kind"], v["label"], v["msg"], v["where"], "\n".join(v["stack"]),
                nat[(j.harness, j.mode)], j.entry, path)
            write_case(path, j, v["inputs"], head)
            rc, txt = replay(nat[(j.harness, j.mode)], j, path, part=4)
            if not failed(j, rc, txt):
                z = build.build_native(j.harness, j.mode, "zero", pool)
                rc, txt = replay(z, j, path, part=4)
            with open(path + ".why", "a") as f:
                f.write("native result: %s\n%s\n" % (rc, txt))
            sig = v["label"].replace(" ", "_")
            if failed(j, rc, txt):
                bad.add(v["label"])
                known = [l for (p, s, l) in findings if p == prop and s == sig]
                (kf if known else vio).append((j, v, path, rc, txt))
            else:
                unconf.append((j.name, v["label"], v["where"], rc))
                if not verbose:
                    os.unlink(path), os.unlink(path + ".why")
    for j, path, f in rp:
        rc, txt = f.result()
        if failed(j, rc, txt):
            keep = os.path.join(cexdir, "%s-%s" % (prop, os.path.basename(path)))
            shutil.copy(path, keep)
            with open(keep + ".why", "w") as g:
                g.write("property %s, job %s, entry %s (%s): the solver's witness of a passing path fails on the real code: %s\n%s\n" % (prop, j.name, j.entry, j.harness, rc, txt))
            mismatch.append((j, keep, rc, txt))
        elif rc in (0, 1):
            validated += 1
    # ---- evidence
    tot = lambda k: sum(int(r.get(k, 0) or 0) for _, r in results)
    fns = {}
    for _, r in results:
        for f in r.get("functions", []):
            o = fns.setdefault(f["name"], [f["blocks"], 0])
            o[0] = max(o[0], f["blocks"])
            o[1] = max(o[1], f["visited"])
    jobs_ev = []
    vac = []
    for j, r in results:
        jobs_ev.append({"job": j.name, "entry": j.entry, "mode": j.mode, "params": j.params, "bounds": j.rules, "note": j.note,
                        "paths": r.get("paths"), "pruned_outside_bounds": r.get("pruned_by"), "covers": r.get("covers"),
                        "complete_within_bounds": (not r.get("incomplete", True)), "incomplete_why": r.get("incomplete_why"),
                        "queries": r.get("queries"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"),
                        "unsupported": r.get("unsupported"), "engine_error": r.get("engine_error")})
        if j.cost:
            jobs_ev[-1]["largest_part_of_budget"] = {"heap": r.get("peak_heap"), "steps": r.get("peak_blocks")}
        if r.get("engine_error"):
            print("ENGINE-ERROR job=%s %s" % (j.name, r["engine_error"][:400]))
        for c in j.must_cover:
            if not r.get("covers", {}).get(c):
                vac.append("%s: %s" % (j.name, c))
        if r.get("samples"):
            sample_out.append({"job": j.name, "inputs": r["samples"][-1][:60]})
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
          "coverage": {
              "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": validated,
              "samples": sample_out[:6],
              "exhaustive": all(not r.get("incomplete", True) for _, r in results),
              "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
              "assertions_evaluated": tot("checks"), "assertions_decided_by_rewriting": tot("checks_by_rewriting"),
              "forks": tot("forks"), "paths_outside_bounds": tot("pruned"),
              "solver_s": round(sum(r.get("solver_s", 0) or 0 for _, r in results), 3),
              "build_s": round(t_build, 2),
              "functions_encoded": sorted("%s (%d/%d blocks reached)" % (n, v[1], v[0]) for n, v in fns.items()),
              "jobs": jobs_ev,
              "vacuity_gaps": vac,
              "unconfirmed": ["%s %s %s" % u[:3] for u in unconf],
              "explanation": "states = symbolic paths of the compiled code explored to their end, each standing for all inputs satisfying its path condition; transitions = LLVM instructions executed symbolically; traces_validated_against_impl = solver-chosen witnesses of explored paths re-run on a sanitizer build of the real code with the same verdict",
          },
          "assumptions": jobtable.assumptions(prop),
          "wall_s": round(time.time() - t0, 2), "violations": len(vio) + len(mismatch)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    # ---- report
    for n, l, w, rc in unconf:
        print("UNCONFIRMED job=%s %s at %s (native replay: %s)" % (n, l, w, rc))
    for v in vac:
        print("VACUITY", v)
    for _, r in results:
        if r.get("unsupported"):
            print("UNSUPPORTED", r["unsupported"])
    if verbose:
        for j, r in results:
            print("JOB %-24s paths=%s pruned=%s wall=%.1f complete=%s %s covers=%s" % (j.name, r.get("paths"), r.get("pruned"), r.get("wall_s") or 0, not r.get("incomplete", True), r.get("incomplete_why"), r.get("covers")))
    for j, v, path, rc, txt in kf:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, v["label"], v["where"]))
    for j, v, path, rc, txt in vio:
        print("# %s: %s %s at %s, native: %s" % (j.name, v["label"], v["msg"], v["where"], rc))
        for l in txt.splitlines():
            if "REPLAY-CHECK-FAILED" in l or "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l:
                print("#   ", l[:200])
                break
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for j, path, rc, txt in mismatch:
        print("# %s: witness of a passing path fails on the real code (%s)" % (j.name, rc))
        for l in txt.splitlines():
            if "REPLAY-CHECK-FAILED" in l or "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l:
                print("#   ", l[:200])
                break
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d jobs, %d paths, %d queries, %d witnesses replayed, complete=%s, %.1f s (build %.1f)" % (
        prop, tier, len(js), tot("paths"), tot("queries"), validated, ev["coverage"]["exhaustive"], time.time() - t0, t_build))
    pool.shutdown(wait=False, cancel_futures=True)
    return 1 if (vio or mismatch) else 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
