"""Compile the harnesses against /repo's current sources, explore them symbolically on all cores, replay models natively,
write evidence and print the verdict."""
import os, sys, time, json, subprocess, shutil, tempfile, multiprocessing as mp, hashlib, signal, collections
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
REPO = os.environ.get("VP_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")

class BuildError(Exception): pass

def sh(cmd, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        raise BuildError("$ " + " ".join(cmd) + "\n" + r.stdout.decode("utf8", "replace")[-4000:])
    return r.stdout

class Job:
    """one harness configuration: src + flags + library sources, explored completely within params"""
    def __init__(self, label, src, flags=(), libs=(), params=None, native=True, covers=(), entry="vp_main", std="c++17", opts=None,
                 ndebug=True, validate=6, nat_flags=None, weight=1, stubs=False):
        self.label = label; self.src = src; self.flags = tuple(flags); self.libs = tuple(libs); self.params = dict(params or {})
        self.native = native; self.covers = tuple(covers); self.entry = entry; self.std = std; self.opts = dict(opts or {})
        self.ndebug = ndebug; self.validate = validate; self.nat_flags = nat_flags; self.stubs = stubs
    def key(self):
        return (self.src, self.flags, self.libs, self.std, self.ndebug, self.stubs)
    def common(self):
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + HARN]
        if self.stubs: inc = ["-I" + os.path.join(HARN, "stubs")] + inc
        return ["-std=" + self.std] + (["-DNDEBUG"] if self.ndebug else ["-DVP_ASSERTS"]) + inc + list(self.flags)

def build_ir(job, out):
    base = os.path.join(out, hashlib.sha1(repr(job.key()).encode()).hexdigest()[:16])
    if os.path.exists(base + ".bc"): return base + ".bc"
    F = job.common() + ["-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-fno-discard-value-names", "-emit-llvm", "-w", "-c"]
    parts = []
    for n, s in enumerate([os.path.join(HARN, job.src)] + [l if l.startswith("/") else os.path.join(REPO, l) for l in job.libs]):
        o = "%s.%d.bc" % (base, n)
        sh(["clang++"] + F + [s, "-o", o]); parts.append(o)
    sh(["llvm-link"] + parts + ["-o", base + ".l.bc"])
    sh(["opt", "-passes=mem2reg", base + ".l.bc", "-o", base + ".tmp"])
    os.rename(base + ".tmp", base + ".bc")
    return base + ".bc"

WRAPS = "malloc free calloc posix_memalign mmap munmap mprotect sysconf getrlimit getcontext _exit".split()
def build_native(job, out):
    base = os.path.join(out, "n" + hashlib.sha1(repr(job.key()).encode()).hexdigest()[:16])
    if os.path.exists(base): return base
    srcs = [os.path.join(HARN, job.src), os.path.join(HARN, "vp_native.cpp")] + [l if l.startswith("/") else os.path.join(REPO, l) for l in job.libs]
    asm = [os.path.join(REPO, "src/asm/%s_x86_64_sysv_elf_gas.S" % n) for n in ("make", "jump", "ontop")]
    sh(["g++", "-O1", "-g", "-w", "-DVP_NATIVE_RUN"] + list(job.nat_flags or ()) + job.common() + srcs + asm + ["-Wl,--wrap=" + w for w in WRAPS] + ["-lpthread", "-o", base + ".tmp"])
    os.rename(base + ".tmp", base)
    return base

# ------------------------------------------------------------------ exploration
MODS = {}
JOBS = []
def inputs_of(e, model):
    out = []
    for name, v, w in e.inputs:
        if isinstance(v, int): out.append((name, v)); continue
        from irx.val import z
        import z3
        x = v if isinstance(v, z3.BoolRef) else z(v, w)
        r = model.eval(x, model_completion=True)
        out.append((name, (1 if z3.is_true(r) else 0) if isinstance(x, z3.BoolRef) else r.as_long()))
    return out

def ev_of(e, model):
    from irx.val import z
    out = []
    for n, v in e.events:
        if n.startswith("fault-") or n in ("terminate", "main-returned", "exit0"): continue
        if not isinstance(v, int):
            v = model.eval(z(v, 64), model_completion=True).as_long()
        out.append((n, v))
    return out

def run_path(ji, prefix, want_trace):
    import z3
    from irx import engine as E, val, load
    job = JOBS[ji]
    e = E.Engine(MODS[job.key()], job.entry, prefix, dict(job.opts, params=job.params))
    r = {"end": None}
    try:
        e.run()
    except E.PathEnd as x:
        r["end"] = x.why
    except E.Infeasible:
        r["end"] = "infeasible"
    except E.Violation as v:
        r["end"] = "violation"
        m = v.model
        if m is None:
            try:
                if e.check() == z3.sat: m = e.solver.model()
            except Exception: pass
        r["viol"] = dict(kind=v.kind, msg=v.msg, where=v.where, inputs=inputs_of(e, m) if m is not None else None, events=[(a, str(b)) for a, b in e.events][-60:])
    except load.Unsupported as x:
        r["end"] = "unsupported"; r["msg"] = str(x) + " @ " + e.where()
    if want_trace and r["end"] in ("done", "terminate", "exit") :
        if e.check() == z3.sat:
            m = e.solver.model()
            r["trace"] = dict(inputs=inputs_of(e, m), events=ev_of(e, m), end=r["end"])
    return e, r

def worker(conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    nth = 0
    while True:
        msg = conn.recv()
        if msg is None: return
        ji, prefixes, slice_s, trace_every = msg
        st = dict(ji=ji, paths=0, ends=collections.Counter(), steps=0, queries=0, solver=0.0, checks=0, decisions=0, switches=0, covers=set(), fns=set(), viols=[], unsup=[], traces=[])
        t0 = time.time(); stack = list(prefixes); new = []
        try:
            while stack and time.time() - t0 < slice_s and len(stack) < 400:
                p = stack.pop()
                nth += 1
                e, r = run_path(ji, p, trace_every and (nth % trace_every == 0 or st["paths"] + len(p) < 6))
                st["paths"] += 1; st["ends"][r["end"]] += 1; st["steps"] += e.steps; st["queries"] += e.queries; st["solver"] += e.solver_time
                st["checks"] += e.checks_done; st["decisions"] += len(e.trace) - len(p) + 1; st["switches"] += e.state.get("switches", 0)
                st["covers"] |= e.covers; st["fns"] |= e.fns_run
                if "viol" in r: st["viols"].append(r["viol"]); 
                if r["end"] == "unsupported": st["unsup"].append(r["msg"])
                if "trace" in r: st["traces"].append(r["trace"])
                stack.extend(e.alts)
                if st["unsup"]: break
        except Exception:
            import traceback
            st["unsup"].append("internal error: " + traceback.format_exc()[-1500:])
        st["left"] = stack
        conn.send(st)

def explore(jobs, deadline, ncpu, known, trace_every):
    """-> (per-job stats, violation or None, errors)"""
    ctx = mp.get_context("fork")
    W = []
    for _ in range(ncpu):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b,), daemon=True); p.start(); b.close()
        W.append([p, a, False])
    pend = [[[]] for _ in jobs]
    tot = [dict(paths=0, ends=collections.Counter(), steps=0, queries=0, solver=0.0, checks=0, decisions=0, switches=0, covers=set(), fns=set(), traces=[], known=[], wall=0.0) for _ in jobs]
    viol = None; errs = []; dead = [False] * len(jobs)
    busy = 0
    rr = 0
    from multiprocessing.connection import wait
    while True:
        for w in W:
            if w[2] or viol: continue
            # next job with work, round robin so that all jobs progress
            for k in range(len(jobs)):
                j = (rr + k) % len(jobs)
                if pend[j]: break
            else: break
            rr = j + 1
            q = pend[j]
            n = max(1, min(len(q) // (2 * ncpu), 64))
            batch = q[:n]; del q[:n]
            w[1].send((j, batch, 1.0 if len(q) > 4 * ncpu else 0.15, trace_every)); w[2] = True; busy += 1
        if busy == 0: break
        for c in wait([w[1] for w in W if w[2]], timeout=5):
            w = [x for x in W if x[1] is c][0]
            try: st = c.recv()
            except EOFError:
                errs.append("a worker process died (out of memory?)"); busy -= 1; W.remove(w); continue
            w[2] = False; busy -= 1
            j = st["ji"]; T = tot[j]
            for k in ("paths", "steps", "queries", "solver", "checks", "decisions", "switches"): T[k] += st[k]
            T["ends"].update(st["ends"]); T["covers"] |= st["covers"]; T["fns"] |= st["fns"]
            if len(T["traces"]) < 400: T["traces"].extend(st["traces"])
            pend[j].extend(st["left"])
            for v in st["viols"]:
                v["job"] = jobs[j].label
                if any(kf in key_of(v) for kf in known): T["known"].append(v)
                elif viol is None: viol = (j, v)
            for u in st["unsup"]: errs.append(jobs[j].label + ": " + u)
            if st["unsup"] or dead[j]: dead[j] = True; pend[j].clear()      # the other jobs may still find a violation
        if time.time() > deadline and not viol:
            errs.append("time budget exhausted with %d path prefixes left" % sum(len(p) for p in pend)); break
    for w in W:
        try: w[1].send(None)
        except Exception: pass
        w[0].terminate()
    return tot, viol, errs

def key_of(v): return "%s|%s|%s" % (v["job"], v["kind"], v["msg"])

# ------------------------------------------------------------------ native replay
def write_trace(path, job, inputs):
    with open(path, "w") as f:
        for k, v in job.params.items(): f.write("param %s %d\n" % (k, v))
        for k, v in inputs: f.write("in %s %d\n" % (k, v))

def run_native(exe, trace):
    try:
        r = subprocess.run([exe, trace], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return r.returncode, r.stdout.decode("latin1")

def parse_log(txt):
    ev = []; end = None; viol = None; mism = None
    for l in txt.split("\n"):
        if l.startswith("LOG "):
            n, v = l[4:].rsplit(" ", 1); ev.append((n, int(v)))
        elif l.startswith("END "): end = l[4:].strip()
        elif l.startswith("NATIVE-VIOLATION"): viol = l[17:]
        elif l.startswith("NATIVE-MISMATCH"): mism = l
    return ev, end, viol, mism
