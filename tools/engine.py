"""Runs TLC and the conformance harnesses; shared by every check."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import Future, ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FC_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = os.environ.get("FC_CXX", "clang++-18" if shutil.which("clang++-18") else "clang++")
CXXFLAGS = ["-std=c++20", "-O1", "-g0", "-w", "-fno-strict-aliasing", "-D_GLIBCXX_ASSERTIONS", "-I", REPO + "/include"]


class CheckError(Exception):
    """The machinery failed: no verdict."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="fcv-%s-" % prop)
        self.violations = []          # dicts
        self.models = []              # model-checking results
        self.stats = dict(executed_steps=0, unique_steps=0, histories=0, variants={})
        self.samples = []
        self.notes = {}
        self.coverage = {}
        self.pool = ThreadPoolExecutor(8)
        self.cpu = threading.Semaphore(8)

    def path(self, *a):
        return os.path.join(self.work, *a)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def scale(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick


# ------------------------------------------------------------------ TLC
def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_value(x) for x in sorted(v)) + "}"
    return '"%s"' % v


def run_tlc(ctx, module, consts, init="Init", next_="Next", invariants=(), properties=(), workers=4, tag="", spec=None,
            postcondition=None, constraint=None, timeout=800, heap="4g", simulate=None, args=()):
    tag = tag or module
    d = ctx.path("tlc-" + tag)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f:
        if consts:
            f.write("CONSTANTS\n")
            for k, v in consts.items():
                f.write("  %s = %s\n" % (k, tla_value(v)))
        if spec:
            f.write("SPECIFICATION %s\n" % spec)
        else:
            f.write("INIT %s\nNEXT %s\n" % (init, next_))
        for i in invariants:
            f.write("INVARIANT %s\n" % i)
        for i in properties:
            f.write("PROPERTY %s\n" % i)
        if constraint:
            f.write("CONSTRAINT %s\n" % constraint)
        if postcondition:
            f.write("POSTCONDITION %s\n" % postcondition)
        f.write("CHECK_DEADLOCK FALSE\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg, "-metadir", os.path.join(d, "states")]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(args)
    cmd += [os.path.join(SPECS, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % tag)
    out = p.stdout
    with open(os.path.join(d, "out.txt"), "w") as f:
        f.write(out)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    res = dict(module=module, tag=tag, rc=p.returncode, out=out, wall=round(time.time() - t, 1),
               generated=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0, left=int(m.group(3)) if m else -1)
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return res


def run_model(ctx, module, consts, invariants, properties=(), tag="", **kw):
    """Exhaustive model checking of a specification; a failure here is a defect of the specification (an error)."""
    r = run_tlc(ctx, module, consts, invariants=invariants, properties=properties, tag=tag, **kw)
    if r["rc"] != 0 or "No error has been found" not in r["out"]:
        raise CheckError("specification %s is not accepted by TLC:\n%s" % (tag, r["out"][-3000:]))
    ctx.models.append(dict(model=tag or module, constants={k: sorted(v) if isinstance(v, (set, frozenset)) else v for k, v in consts.items() if "FILE" not in k}, distinct_states=r["distinct"],
                           states_generated=r["generated"], invariants=list(invariants) + list(properties), wall_s=r["wall"]))
    return r


# ------------------------------------------------------------------ harness
def compile_bin(ctx, name, src, defs=(), flags=(), compiler=None, check=True, opt=None, context="calls of the public interface"):
    exe = ctx.path("bin-" + name)
    cmd = [compiler or CXX] + CXXFLAGS + list(flags) + list(defs) + [os.path.join(HARNESS, src), "-I", HARNESS, "-o", exe]
    if opt:
        cmd = [c if c != "-O1" else opt for c in cmd]
    with ctx.cpu:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        if check:
            # with a working toolchain this means that calls of the public interface no longer compile
            probe = os.path.join(ctx.work, "probe.cpp")
            with open(probe, "w") as f:
                f.write("#include <vector>\nint main() { return 0; }\n")
            q = subprocess.run([compiler or CXX] + CXXFLAGS + [probe, "-o", probe + ".exe"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if q.returncode == 0 and "error:" in p.stdout and p.returncode == 1:
                errs = [l for l in p.stdout.splitlines() if "error:" in l]
                report_violation(ctx, context + " does not compile", dict(run=name, cmd=cmd, errors=errs[:5], output=p.stdout[:4000]))
            raise CheckError("cannot build harness %s:\n%s" % (name, p.stdout[-4000:]))
        return None, p.stdout
    return (exe, p.stdout) if not check else exe


def run_bin(ctx, name, exe, args, timeout=600):
    base = ctx.path("rec-" + name)
    cmd = [exe, "out=" + base, "seed=%d" % ctx.seed] + ["%s=%s" % kv for kv in args.items()]
    with ctx.cpu:
        try:
            # CPU time is what is limited: a loaded machine must not look like a hang
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=3 * timeout, errors="replace",
                               preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (timeout, timeout + 5)))
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, err = -999, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"
    return dict(name=name, cmd=cmd, rc=rc, out=out, err=err, base=base)


def report_violation(ctx, what, detail):
    ctx.violations.append(dict(what=what, **detail))


def collect(ctx, runs, rerun, project=None):
    """Merge the recorded steps of all harness runs; returns unique lines with origin."""
    lines = {}
    for r in runs:
        if r["rc"] != 0:
            again = r if r["rc"] in (-24, -9) else rerun(r)     # SIGXCPU/SIGKILL: the CPU limit; one more run would tell no more
            if again["rc"] != 0:
                if r["rc"] == 4:
                    raise CheckError("harness %s reports a usage error: %s" % (r["name"], r["err"][-2000:]))
                report_violation(ctx, "harness terminated abnormally", dict(
                    run=r["name"], cmd=r["cmd"], rc=r["rc"], stderr=r["err"][-2000:], stdout=r["out"][-500:]))
            else:
                r.update(again)
        for l in r["out"].splitlines():
            w = l.split()
            if not w:
                continue
            if w[0] == "EXECUTED":
                ctx.stats["executed_steps"] += int(w[1])
            elif w[0] == "PATHS":
                ctx.stats["histories"] += int(w[1])
            elif w[0] == "VARIANT":
                ctx.stats["variants"][" ".join(w[1:-1])] = ctx.stats["variants"].get(" ".join(w[1:-1]), 0) + int(w[-1])
            elif w[0] == "NOTE":
                k = " ".join(w[1:-1])
                ctx.notes[k] = ctx.notes.get(k, 0) + int(w[-1])
        if os.path.exists(r["base"] + ".ndjson"):
            with open(r["base"] + ".ndjson") as f, open(r["base"] + ".meta") as g:
                for i, (l, m) in enumerate(zip(f, g)):
                    l = l.rstrip("\n")
                    if project and l.endswith("}"):
                        l = project(l)
                    if l and l.endswith("}") and l not in lines:
                        lines[l] = (r["name"], m.rstrip("\n"))
    return lines


def reject(ctx, module, consts, todo, tag, chunk=150000, workers=8):
    """The lines TLC does not accept as steps of the specification."""
    bad = []
    for ci in range(0, len(todo), chunk):
        part = todo[ci:ci + chunk]
        tf = ctx.path("%s-%d.ndjson" % (tag, ci))
        with open(tf, "w") as f:
            f.write("\n".join(part) + "\n")
        block = max(50, min(500, len(part) // 64 + 1))
        c = dict(consts)
        c.update(TRACE=tf, BLOCK=block)
        r = run_tlc(ctx, module, c, invariants=["StepAllowed"], workers=workers, tag="%s-%d" % (tag, ci), heap="8g")
        nums = [int(x) for x in re.findall(r'<<"BAD", (\d+)>>', r["out"])]
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            m = re.findall(r"^l = (\d+)$", r["out"], re.M)
            raise CheckError("TLC failed while validating steps:\n%s\nlast step: %s" % (r["out"][-3000:], part[int(m[-1]) - 1] if m else "?"))
        if r["distinct"] != len(part):
            raise CheckError("TLC visited %d of %d steps" % (r["distinct"], len(part)))
        ctx.stats["validated"] = ctx.stats.get("validated", 0) + len(part)
        bad += [part[n - 1] for n in sorted(set(nums))]
        os.unlink(tf)
    return bad


def validate(ctx, module, consts, lines, rerun_bin, tag="steps", project=None):
    """Trace validation by TLC of all unique recorded steps."""
    todo = sorted(lines)
    ctx.stats["unique_steps"] += len(todo)
    if not todo:
        return
    bad = reject(ctx, module, consts, todo, tag)
    if bad:
        # shortest histories first; confirm by running the harness again
        bad.sort(key=lambda l: (len(lines[l][1]), l))
        names, ok, fresh = [], [], {}
        for l in bad:
            if lines[l][0] not in names:
                names.append(lines[l][0])
        for n in names:
            rr = rerun_bin(n)
            if os.path.exists(rr["base"] + ".ndjson"):
                with open(rr["base"] + ".ndjson") as f, open(rr["base"] + ".meta") as g:
                    again = {(project or str)(x.rstrip("\n")): m.rstrip("\n") for x, m in zip(f, g) if x.endswith("}\n")}
                ok += [l for l in bad if lines[l][0] == n and l in again]
                fresh.update({l: (n, m) for l, m in again.items() if l and l not in lines})
            if ok and not load_known(ctx.prop):
                break
        if not ok and fresh:
            # what is rejected differs from run to run (e.g. memory read before it was written)
            lines = dict(lines, **fresh)
            ok = reject(ctx, module, consts, sorted(fresh), tag + "-again")
        if not ok:
            raise CheckError("rejected steps were not reproduced by a second run: %s" % bad[:3])
        for l in ok:
            report_violation(ctx, "step not allowed by the specification",
                             dict(step=json.loads(l), run=lines[l][0], variant_and_history=lines[l][1], spec=module))
    # samples
    import random
    rnd = random.Random(ctx.seed)
    for l in rnd.sample(todo, min(3, len(todo))):
        ctx.samples.append(dict(step=json.loads(l), history=lines[l][1][:400]))


ASPECTS = {"StepSeq", "StepAssoc", "StepEArr", "StepStr"}


def verdict_only(line):
    """Projection of a step on what C13 judges: the call and how it was answered."""
    i, j = line.rindex(',"r":'), line.rindex("}")
    return line[:i] + "}"


class Conf:
    """One conformance group: harness binaries whose steps are judged by one step module."""

    def __init__(self, ctx, step_module, step_consts, sigfile=None, timeout=None, project=None):
        self.project = project
        step_consts = dict(dict(ASPECT="full") if step_module in ASPECTS else {}, **step_consts)
        self.ctx, self.mod, self.consts, self.sigfile, self.timeout = ctx, step_module, step_consts, sigfile, timeout or ctx.scale(240, 3000)
        self.bins = {}    # name -> (exe future, args)

    def add(self, name, src, defs=(), args=None, **kw):
        fut = self.ctx.pool.submit(compile_bin, self.ctx, name, src, defs, **kw)
        self.bins[name] = [fut, dict(args or {}), None]

    def add_exe(self, name, exe, args=None):
        fut = Future()
        fut.set_result(exe)
        self.bins[name] = [fut, dict(args or {}), None]

    def _run(self, name, suffix=""):
        fut, args, _ = self.bins[name]
        a = dict(args)
        if self.sigfile:
            a["sigs"] = self.sigfile
        r = run_bin(self.ctx, name + suffix, fut.result(), a, timeout=self.timeout)
        r["name"] = name
        return r

    def execute(self):
        fs = {n: None for n in self.bins}
        for n in self.bins:
            self.bins[n][0].result()     # surface compile errors first
        with ThreadPoolExecutor(8) as ex:
            runs = list(ex.map(self._run, list(fs)))
        lines = collect(self.ctx, runs, lambda r: self._run(r["name"], "-again"), self.project)
        self.ctx.log("harness: %d executed, %d unique steps" % (self.ctx.stats["executed_steps"], len(lines)))
        return lines

    def validate(self, lines, **kw):
        validate(self.ctx, self.mod, self.consts, lines, lambda n: self._run(n, "-again"), project=self.project, **kw)


def write_sigs(ctx, files, tag=""):
    """files: {kind: ndjson file written by TLC}; merge into the text form the harness reads."""
    out = ctx.path("sigs%s.txt" % tag)
    with open(out, "w") as f:
        for kind, fn in files.items():
            for l in open(fn):
                l = l.strip()
                if l:
                    f.write(kind + " " + " ".join(json.loads(l)) + "\n")
    return out


def load_known(prop):
    fn = os.path.join(VERIF, "known-findings.jsonl")
    res = []
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    res.append(d)
    return res


def finding_matches(f, v):
    s = v.get("step")
    if not s:
        return False
    pat = f.get("match", {})
    return all(s.get(k) == x for k, x in pat.items()) and bool(pat)


def finish(ctx, level="model_checking", assumptions=(), extra=None):
    known = load_known(ctx.prop)
    fresh, seen = [], set()
    for v in ctx.violations:
        hit = [f for f in known if finding_matches(f, v)]
        if hit:
            seen.add(json.dumps(hit[0], sort_keys=True))
        else:
            fresh.append(v)
    for s in sorted(seen):
        f = json.loads(s)
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, f["what"]), flush=True)
    cov = dict(states=sum(m["distinct_states"] for m in ctx.models), transitions=sum(m["states_generated"] for m in ctx.models),
               traces_validated_against_impl=ctx.stats.get("validated", 0), samples=ctx.samples or [dict(none=True)],
               models=ctx.models, executed_steps_on_real_code=ctx.stats["executed_steps"], random_histories=ctx.stats["histories"],
               executed_per_configuration=ctx.stats["variants"], exploration_notes=ctx.notes)
    cov.update(ctx.coverage)
    if extra:
        cov.update(extra)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, assumptions=list(assumptions),
              wall_s=round(time.time() - ctx.t0, 1), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rc = 0
    if fresh:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s-%d.json" % (ctx.prop, ctx.tier, ctx.seed))
        with open(rp, "w") as f:
            json.dump(dict(property=ctx.prop, violations=fresh[:200], total=len(fresh)), f, indent=1)
        for v in fresh[:5]:
            print("  " + json.dumps(v)[:900], flush=True)
        print("VIOLATION property=%s replay=%s" % (ctx.prop, rp), flush=True)
        rc = 1
    else:
        print("OK property=%s states=%d validated_steps=%d executed=%d wall=%.1fs" % (
            ctx.prop, cov["states"], cov["traces_validated_against_impl"], cov["executed_steps_on_real_code"], time.time() - ctx.t0), flush=True)
    return rc
