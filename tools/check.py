#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [--jobs SUBSTR] : decide one property on /repo's current tree."""
import os, sys, time, json, shutil, tempfile, concurrent.futures as cf, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner as R
import checks as CH

def known_findings():
    out = []
    p = os.path.join(R.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                d = dict(x.split("=", 1) for x in l[7:].strip().split(" ; "))
                out.append(d)
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--jobs") + 1] if "--jobs" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = 800 if tier == "quick" else 6 * 3600
    ncpu = max(2, min(os.cpu_count() or 2, int(os.environ.get("VP_CPUS", "64"))))
    spec = CH.CHECKS[pid]
    jobs = [j for j in spec["jobs"](tier) if not only or (j.label.startswith(only[1:]) if only[0] == "^" else only in j.label)]
    extra = spec.get("extra")
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid, dir=os.environ.get("VP_TMP", "/tmp"))
    rc = 2
    try:
        rc = run(pid, tier, seed, t0, budget, ncpu, spec, jobs, extra, tmp, only)
    except R.BuildError as e:
        print("ERROR property=%s cannot build the harness against the current tree:\n%s" % (pid, e))
    except Exception:
        print("ERROR property=%s\n%s" % (pid, traceback.format_exc()))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def run(pid, tier, seed, t0, budget, ncpu, spec, jobs, extra, tmp, only):
    kf = [d for d in known_findings() if d.get("property") == pid]
    R.JOBS[:] = jobs
    uniq = {}
    for j in jobs: uniq.setdefault(j.key(), j)
    nat = {}
    with cf.ThreadPoolExecutor(ncpu) as ex:
        fi = {k: ex.submit(R.build_ir, j, tmp) for k, j in uniq.items()}
        nk = {}
        for j in jobs:
            if j.native: nk.setdefault(j.key(), j)
        fn = {k: ex.submit(R.build_native, j, tmp) for k, j in nk.items()}
        paths = {}; berrs = []
        for k, f in fi.items():
            try: paths[k] = f.result()
            except R.BuildError as e: berrs.append("cannot build the harness against the current tree: " + str(e)[-2500:])
        for k, f in fn.items():
            try: nat[k] = f.result()
            except R.BuildError as e: nat[k] = None; nat_err = str(e); print("note: native build failed, no replay:", nat_err[-1500:])
    jobs[:] = [j for j in jobs if j.key() in paths]      # what cannot be built is reported unless the rest shows a violation
    R.JOBS[:] = jobs
    from irx import load
    for k, p in paths.items(): R.MODS[k] = load.Module(p)
    res = dict(paths=0, steps=0, queries=0, solver=0.0, checks=0, decisions=0, switches=0)
    fns = set(); samples = []; validated = 0; viol = None; errs = []; ends = {}; jobinfo = []; unob = []
    tbuild = time.time() - t0
    if jobs:
        tot, viol, errs = R.explore(jobs, t0 + budget, ncpu, [d["key"] for d in kf], 7 if tier == "quick" else 23)
        for j, T in zip(jobs, tot):
            for k in res: res[k] += T[k]
            fns |= T["fns"]
            for k, v in T["ends"].items(): ends[k] = ends.get(k, 0) + v
            jobinfo.append(dict(label=j.label, bounds=j.params, paths=T["paths"], switches=T["switches"], queries=T["queries"], solver_s=round(T["solver"], 2)))
            if not viol and not errs:
                miss = [c for c in j.covers if c not in T["covers"]]
                if miss: errs.append("%s: vacuous: never reached %s" % (j.label, miss))
                if not T["paths"] - T["ends"].get("infeasible", 0): errs.append("%s: no feasible path" % j.label)
            for v in T["known"]: unob.append(v)
    if not viol: errs = berrs + errs
    # encoding against the real code: replay models of completed paths natively and compare what is observable
    mism = []; tot = tot if jobs else []
    nviol = None
    if not viol and not errs:
        todo = []
        import random
        rnd = random.Random(seed)
        for ji, (j, T) in enumerate(zip(jobs, tot)):
            exe = nat.get(j.key()) if j.native else None
            if not exe or not j.validate: continue
            tr = T["traces"]
            if len(tr) > j.validate: tr = rnd.sample(tr, j.validate)
            for n, t in enumerate(tr): todo.append((ji, n, j, exe, t))
        def one(x):
            ji, n, j, exe, t = x
            f = os.path.join(tmp, "t%d_%d" % (ji, n)); R.write_trace(f, j, t["inputs"])
            return x, R.run_native(exe, f)
        with cf.ThreadPoolExecutor(ncpu) as ex:
            for (ji, n, j, exe, t), (c, out) in ex.map(one, todo):
                if c is None: continue
                ev, end, vi, mm = R.parse_log(out)
                if vi:
                    nviol = nviol or (ji, dict(kind="native", msg=vi, where="native execution of a path the solver found feasible", inputs=t["inputs"], events=[], job=j.label))
                elif mm or end != t["end"] or ev != t["events"]:
                    mism.append("%s: native run differs from the encoding: %s end=%s/%s\n  native %s\n  model  %s\n  inputs %s" % (j.label, mm, end, t["end"], ev, t["events"], t["inputs"]))
                else:
                    validated += 1
                    if len(samples) < 4: samples.append(dict(job=j.label, inputs=["%s=%d" % x for x in t["inputs"]][:40], events=["%s %d" % x for x in t["events"]][:30], end=end))
    if nviol and not viol: viol = nviol
    xr = None
    xinfo = {}
    if extra and not viol and not errs:
        xr = extra(tier, tmp, ncpu, t0 + budget)
        for k in ("queries", "solver", "paths", "steps", "checks"): res[k] += xr.get(k, 0)
        fns |= set(xr.get("fns", ())); samples += xr.get("samples", []); validated += xr.get("validated", 0)
        xinfo = xr.get("info", {})
        errs += xr.get("errs", [])
        for v in xr.get("viols", []):
            if any(d["key"] in R.key_of(v) for d in kf): unob.append(v)
            elif viol is None: viol = (None, v)
        if not viol: errs += xr.get("late_errs", [])
    wall = time.time() - t0
    if mism and not viol: errs.append("encoding disagrees with the real code on %d traces, e.g. %s" % (len(mism), mism[0]))
    if viol: errs = []
    for d in kf:
        for v in unob:
            if d["key"] in R.key_of(v):
                print("KNOWN-FINDING: property=%s %s" % (pid, d.get("what", d["key"]))); break
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"), wall_s=round(wall, 2), violations=1 if viol else 0,
              assumptions=spec.get("assumptions", []) + CH.COMMON_ASSUMPTIONS,
              coverage=dict(states=res["paths"], transitions=res["decisions"] + res["switches"], traces_validated_against_impl=validated,
                            samples=samples or [dict(note="no trace sampled")], exhaustive=not viol and not errs,
                            explanation=spec.get("explanation", "") + " states = feasible symbolic paths executed to their end; transitions = solver-decided branch decisions plus context switches on them.",
                            functions_encoded=sorted(demangle(fns))[:400], functions_encoded_count=len(fns), bounds=spec.get("bounds", {}).get(tier, spec.get("bounds")) if isinstance(spec.get("bounds"), dict) else spec.get("bounds"),
                            jobs=jobinfo, ir_instructions_executed=res["steps"], assertions_evaluated=res["checks"], solver_queries=res["queries"], solver_time_s=round(res["solver"], 2), path_ends=ends, build_s=round(tbuild, 2), **xinfo))
    if not only:
        os.makedirs(os.path.join(R.VERIF, "evidence"), exist_ok=True)
        p = os.path.join(R.VERIF, "evidence", pid + ".json")
        with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1, default=str)
        os.rename(p + ".tmp", p)
    if errs:
        for e in errs[:6]: print("ERROR property=%s %s" % (pid, e))
        return 2
    if viol:
        ji, v = viol
        rp = os.path.join(R.VERIF, "replays"); os.makedirs(rp, exist_ok=True)
        f = os.path.join(rp, "%s.txt" % pid)
        note = "not replayed natively"
        if ji is not None and v.get("inputs") is not None:
            j = jobs[ji]
            R.write_trace(f + ".in", j, v["inputs"])
            exe = nat.get(j.key()) if j.native else None
            if exe:
                c, out = R.run_native(exe, f + ".in")
                e2, end, vi, mm = R.parse_log(out) if c is not None else ([], None, "timeout", None)
                note = "native replay: %s" % ("REPRODUCED: " + vi if vi else "not observable natively (%s, rc=%s)" % (mm or "end=" + str(end), c))
        elif v.get("native"): note = v["native"]
        with open(f, "w") as fh:
            fh.write("property %s\njob %s\nkind %s\nwhat %s\nwhere %s\n%s\nflags %s\ninputs (solver model) %s\nevents %s\n%s\n" % (pid, v["job"], v["kind"], v["msg"], v["where"], note,
                     " ".join(jobs[ji].common()) if ji is not None else "", v.get("inputs"), v.get("events"), v.get("detail", "")))
        print("%s: %s: %s\n  at %s\n  %s" % (v["job"], v["kind"], v["msg"], v["where"], note))
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    print("OK property=%s tier=%s paths=%d queries=%d validated=%d wall=%.1fs" % (pid, tier, res["paths"], res["queries"], validated, wall))
    return 0

def demangle(names):
    import subprocess
    if not names: return []
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE, timeout=60)
        return list({l[:160] for l in r.stdout.decode().split("\n") if l})
    except Exception:
        return list(names)

if __name__ == "__main__":
    main()
