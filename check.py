#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep]
Decides one property by symbolic execution of the repository's current code (see DESIGN.md).
exit 0: held on everything explored; exit 1 + VIOLATION line: broken (counterexample replayed on the real code); 2: no answer."""
import concurrent.futures as cf
import argparse, json, os, re, shutil, sys, time
import vlib
from vlib import VERIF, BUILD


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.pid
    import specs
    spec = specs.SPECS[pid]
    t0 = time.time()
    vlib.build_engine()
    work = os.path.join(BUILD, "work", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    repdir = os.path.join(BUILD, "replay", pid)
    shutil.rmtree(repdir, ignore_errors=True)
    os.makedirs(repdir)
    try:
        rc = run(a, pid, spec, seed, work, repdir, t0)
    except vlib.BuildError as e:
        print("ERROR: /repo does not compile with the harness of %s:\n%s" % (pid, e))
        rc = 3
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def run(a, pid, spec, seed, work, repdir, t0):
    harness = [os.path.join(VERIF, "harness", h) for h in spec["harness"]]
    defines = spec.get("defines", [])
    jobs = list(spec["quick"])
    if a.tier == "thorough":
        jobs += [j for j in spec.get("thorough", []) if j not in jobs]
    if a.only:
        jobs = [j for j in jobs if re.match(a.only, j[0] + "".join(" %d" % x for x in j[1]))]
    budget = spec.get("budget", {"quick": 600, "thorough": 14400})[a.tier]
    module = vlib.build_bitcode(work, harness, defines)
    tb = time.time() - t0
    native = vlib.Native(work, harness, defines)
    with cf.ThreadPoolExecutor(1) as bg:
        extra = list(spec.get("options", []))
        res = vlib.run_jobs(module, jobs, work, a.tier, seed, budget, spec.get("wall", {"quick": 300, "thorough": 3600})[a.tier], extra)
    te = time.time() - t0 - tb
    post = spec.get("post")
    post_result = post(res, work, a.tier) if post else None

    tot = {k: sum(r.get(k, 0) or 0 for r in res) for k in
           ("paths", "merged", "forks", "steps", "infeasible", "obligations", "structural", "swept", "solver", "unknown", "bounds_queries", "queries", "sweep_queries", "sweep_cached", "cut_points", "solver_seconds")}
    reach, fns = {}, set()
    for r in res:
        for k, v in (r.get("reach") or {}).items():
            reach[k] = reach.get(k, 0) + v
        fns.update(r.get("functions") or [])
    incomplete = [r for r in res if r.get("incomplete")]
    if a.verbose:
        for r in sorted(res, key=lambda r: -r.get("elapsed", 0)):
            print("  %-28s %-14s %6.1fs paths %d merged %d obl %d s/sw/so %d/%d/%d q %d terms %d %s%s" % (
                r["entry"], r["args"], r.get("elapsed", 0), r.get("paths", 0), r.get("merged", 0), r.get("obligations", 0), r.get("structural", 0), r.get("swept", 0), r.get("solver", 0),
                r.get("queries", 0) + r.get("sweep_queries", 0), r.get("terms", 0), r.get("incomplete") or "", "".join("\n      ! %s: %s @ %s" % (v["kind"], v["msg"], v["where"]) for v in r.get("violations", [])[:4])))

    # ---- counterexamples: replay against the real code
    limit = budget + 120 # no new replays or searches after that
    found, unrep, known = [], [], []
    kf = [x for x in known_findings() if x[0] == pid]
    seen = set()
    n = 0
    cands = []
    for r in res:
        for v in r.get("violations", []):
            key = (r["entry"], v["kind"], v["msg"], v["where"])
            if key in seen:
                continue
            seen.add(key)
            cands.append((r, v))
    for r, v in cands:
        label = "%s%s %s: %s @ %s" % (r["entry"], "".join(" %d" % x for x in r["args"]), v["kind"], v["msg"], v["where"])
        hit = next((x for x in kf if x[1].search(label)), None)
        if hit:
            if hit not in known:
                known.append(hit)
            continue
        if len(found) >= 3 or n >= 12 or time.time() - t0 > limit:
            continue
        n += 1
        p = os.path.join(repdir, "cex%d.txt" % n)
        vlib.write_replay(p, r["entry"], r["args"], v["inputs"])
        how = vlib.reproduce(native, p)
        if how:
            with open(p, "a") as f:
                f.write("# %s\n# reproduced: %s\n" % (label, how))
            found.append((label, how, p))
        else:
            unrep.append(label)
    # ---- a post step (e.g. interleavings) may add violations of its own
    if post_result:
        for v in post_result.get("violations", []):
            p = os.path.join(repdir, "post%d.txt" % (len(found) + 1))
            open(p, "w").write(v["text"] + "\n")
            found.append((v["label"], v["how"], p))

    # ---- native validation: the encoding's predictions on concrete inputs against the compiled code
    validated, mism, samples = 0, [], []
    if not found:
        todo = []
        for i, r in enumerate(res):
            for k, s in enumerate(r.get("samples", [])[:2]):
                todo.append((i, k, r, s))
        native.build("o2")
        if todo:
            native.build("asan")

        def one(t):
            i, k, r, s = t
            p = os.path.join(work, "sample%d_%d.txt" % (i, k))
            vlib.write_replay(p, r["entry"], r["args"], s["inputs"])
            out = []
            for kind in ("asan", "o2"):
                rc, o, e = native.run(kind, p, timeout=120)
                obs = [l.split(" ")[1:] for l in o.splitlines() if l.startswith("obs ")]
                names = re.findall(r"^obs (.*) ([0-9a-f]*)$", o, flags=re.M)
                out.append((kind, rc, names, o, e))
            return t, p, out
        with cf.ThreadPoolExecutor(vlib.NPROC) as ex:
            for (i, k, r, s), p, out in ex.map(one, todo):
                want = [(x[0], x[1]) for x in s["obs"]]
                for kind, rc, names, o, e in out:
                    if rc in vlib.BAD:
                        label = "%s%s fails when compiled and run (%s): %s" % (r["entry"], "".join(" %d" % x for x in r["args"]), kind, vlib.describe(rc, o, e))
                        hit = next((x for x in kf if x[1].search(label)), None)
                        if hit:
                            if hit not in known:
                                known.append(hit)
                            continue
                        if len(found) < 3:
                            q = os.path.join(repdir, "sample%d_%d.txt" % (i, k))
                            shutil.copy(p, q)
                            found.append((label, vlib.describe(rc, o, e), q))
                    elif rc == 0 and len(names) == len(want) and all(g[0] == w[0] and w[1] in ("?", g[1]) for g, w in zip(names, want)):  # ?: the term mentions a value unused on this path
                        validated += 1
                    else:
                        mism.append("%s %s %s rc=%d got %s want %s" % (r["entry"], r["args"], kind, rc, str(names)[:200], str(want)[:200]))
                if len(samples) < 3 and s["inputs"]:
                    samples.append({"entry": r["entry"], "args": r["args"], "inputs": [[x[0], x[1][:96]] for x in s["inputs"][:6]], "observed": [[x[0], x[1][:96]] for x in s["obs"][:4]]})
    # ---- jobs the executor could not finish: look for a concrete counterexample (never counted as coverage)
    if incomplete and not found:
        for r in incomplete[:8]:
            if time.time() - t0 > limit: break
            p = os.path.join(repdir, "search.txt")
            for sd in range(60):
                if time.time() - t0 > limit: break
                rec = os.path.join(repdir, "found.txt")
                with open(p, "w") as f:
                    f.write("entry %s\n" % r["entry"] + "".join("arg %d\n" % x for x in r["args"]) + "poison a5\nrandom %d %s\n" % (seed * 1000 + sd, rec))
                rc, o, e = native.run("asan" if sd < 20 else "o2", p, timeout=30)
                if rc in vlib.BAD and rc != -999:
                    label = "%s%s %s" % (r["entry"], "".join(" %d" % x for x in r["args"]), vlib.describe(rc, o, e))
                    if any(x[1].search(label) for x in kf):
                        break
                    found.append((label, vlib.describe(rc, o, e), rec))
                    break
            if found:
                break
    missing_reach = [l for l in spec.get("reach", []) if not reach.get(l)] if not a.only else []
    wall = time.time() - t0
    done = [r for r in res if not r.get("incomplete")]
    cov = {
        "states": int(tot["paths"] + tot["merged"]), "transitions": int(tot["steps"]),
        "traces_validated_against_impl": validated, "samples": samples or [{"note": "no inputs"}],
        "method": "symbolic execution of LLVM IR compiled from /repo on this run; assertions decided by term rewriting, SAT sweeping and Z3 over all values within the bounds",
        "jobs": len(jobs), "jobs_completed": len(done),
        "incomplete": [{"entry": r["entry"], "args": r["args"], "why": r["incomplete"]} for r in incomplete][:40],
        "paths": int(tot["paths"]), "states_merged": int(tot["merged"]), "branch_forks": int(tot["forks"]), "infeasible_paths_pruned": int(tot["infeasible"]),
        "assertion_obligations": int(tot["obligations"]), "discharged_by_rewriting": int(tot["structural"]), "discharged_by_sweeping": int(tot["swept"]), "discharged_by_final_query": int(tot["solver"]), "undecided": int(tot["unknown"]),
        "memory_bounds_queries": int(tot["bounds_queries"]), "solver_queries": int(tot["queries"]), "sweep_queries": int(tot["sweep_queries"]), "sweep_cache_hits": int(tot["sweep_cached"]), "solver_seconds": round(tot["solver_seconds"], 3),
        "functions_encoded": sorted(fns), "bounds": spec.get("bounds", ""), "outside_bounds": spec.get("outside", ""), "reach": reach, "reach_missing": missing_reach,
        "unreproduced_counterexamples": unrep, "model_mismatches": mism[:10], "build_seconds": round(tb, 2), "execution_seconds": round(te, 2),
    }
    if post_result:
        cov.update(post_result.get("coverage", {}))
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": spec.get("level", "model_checking"), "coverage": cov, "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(found)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d jobs (%d incomplete), %d paths, %d merged, %d obligations (%d rewriting, %d sweeping, %d final), %d queries, solver %.1fs, %d native runs agree, wall %.1fs" % (
        pid, a.tier, len(jobs), len(incomplete), tot["paths"], tot["merged"], tot["obligations"], tot["structural"], tot["swept"], tot["solver"], tot["queries"] + tot["sweep_queries"], tot["solver_seconds"], validated, wall))
    for x in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, x[2]))
    for label, how, p in found:
        print("  %s\n    on the real code: %s" % (label, how))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    if found:
        return 1
    bad = False
    for u in unrep:
        print("UNREPRODUCED counterexample (not reported as a violation): " + u)
        bad = True
    for m in mism[:5]:
        print("MISMATCH between encoding and compiled code: " + m)
        bad = True
    for r in incomplete:
        print("INCOMPLETE %s %s: %s" % (r["entry"], r["args"], r["incomplete"]))
    if missing_reach:
        print("NOT REACHED: %s" % ", ".join(missing_reach))
        bad = True
    if len(done) == 0 and jobs:
        bad = True
    return 2 if bad else 0


COMMON_ASSUMPTIONS = [
    "clang 18 x86-64 IR at -O0 plus mem2reg represents the source; the executor's semantics of that IR (checked on every run against natively compiled code on sampled models)",
    "C library and C++ runtime entry points are modelled (rt/vprt.c and executor built-ins); allocation never fails",
    "Z3's verdicts are trusted",
]

if __name__ == "__main__":
    main()
