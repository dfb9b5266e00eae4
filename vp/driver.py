#!/usr/bin/env python3
"""Solver-based checks of libfutils: driver.

For one property: encode every harness of the property from /repo's current
sources with goto-cc, let CBMC's SAT/SMT back end decide all assertions within
the stated bounds, run the vacuity twin, replay any counterexample against the
natively compiled real code under sanitizers, and write the evidence file.
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4

BASE_CFLAGS = ["-D_FILE_OFFSET_BITS=64", "-I" + os.path.join(HARN, "include"),
               "-I" + HARN, "-I" + os.path.join(REPO, "include"), "-I" + REPO]
CBMC_BASE = ["--unwinding-assertions", "--no-malloc-may-fail",
             "--drop-unused-functions", "--object-bits", "10"]


class Job:
    """One encoding: a harness, its defines (bounds) and CBMC options."""
    def __init__(self, name, harness, defs=(), unwind=12, unwindset=(), opts=(),
                 timeout=240, tiers=("quick", "thorough"), mem_gb=9, bound="",
                 witness=True, wunwind=None, prep=None, hang_s=10, backends=None,
                 cflags=(), unwind_retry=2):
        self.name, self.harness, self.defs = name, harness, list(defs)
        self.unwind, self.unwindset, self.opts = unwind, list(unwindset), list(opts)
        self.timeout, self.tiers, self.mem_gb, self.bound = timeout, tiers, mem_gb, bound
        self.witness, self.prep, self.hang_s = witness, prep, hang_s
        self.backends = backends or [SAT]
        self.cflags = list(cflags)
        self.unwind_retry = unwind_retry
        if os.environ.get('VP_TIMEOUT'):
            self.timeout = int(os.environ['VP_TIMEOUT'])
        self.wunwind = wunwind


def run(cmd, timeout, mem_gb=None, cwd=None, env=None, procs=None):
    def lim():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, env=env, preexec_fn=lim, stdin=subprocess.DEVNULL)
    if procs is not None:
        procs.append(p)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), time.time() - t0


class CheckError(Exception):
    pass


_repo_funcs = None
def repo_functions():
    """Names defined as functions in the repository sources (for evidence)."""
    global _repo_funcs
    if _repo_funcs is None:
        names = {}
        for d in ("src", "include/futils"):
            dd = os.path.join(REPO, d)
            for f in sorted(os.listdir(dd)):
                try:
                    txt = open(os.path.join(dd, f), errors="replace").read()
                except OSError:
                    continue
                for m in re.finditer(r"\b([A-Za-z_]\w*)\s*\([^;{}()]*(?:\([^;{}()]*\)[^;{}()]*)*\)\s*(?:const)?\s*\{", txt):
                    if m.group(1) not in ("if", "for", "while", "switch", "sizeof", "do", "return"):
                        names.setdefault(m.group(1), d + "/" + f)
        _repo_funcs = names
    return _repo_funcs


def parse_cbmc(out):
    try:
        return json.loads(out)
    except ValueError:
        # truncated output (killed): salvage nothing
        return None


def input_value(v):
    b = v.get("binary")
    if b is not None:
        return int(b, 2)
    d = re.sub(r"[uUlL]+$", "", v.get("data", "0"))
    try:
        return int(d)
    except ValueError:
        return 0


IGNORED_UB = re.compile(r"shift operand is negative|arithmetic overflow on signed shl")


class CbmcResult:
    def __init__(self):
        self.status = None      # "ok", "fail", "timeout", "error"
        self.props = []         # (name, description, status, file, function)
        self.fails = []         # dicts: name, description, inputs, loc
        self.vccs = 0
        self.vccs_remaining = 0
        self.steps = 0
        self.vars = self.clauses = 0
        self.solver_s = 0.0
        self.queries = 0
        self.wall = 0.0
        self.err = ""


SAT = []
SMT_INT = ["--cvc5", "--external-smt2-solver", os.path.join(VERIF, "vp", "cvc5sum")]
SMT_CVC5 = ["--cvc5"]
SMT_Z3 = ["--z3"]
CADICAL = ["--sat-solver", "cadical"]


def cbmc_race(goto, args, backends, timeout, mem_gb):
    """Several back ends decide the same formula; the first conclusive verdict wins."""
    if len(backends) == 1:
        return cbmc(goto, args + backends[0], timeout, mem_gb)
    procs, done, lock, res = [], threading.Event(), threading.Lock(), []

    def one(b):
        r = cbmc(goto, args + b, timeout, mem_gb, procs)
        r.backend = b
        with lock:
            res.append(r)
            if r.status in ("ok", "fail") or len(res) == len(backends):
                done.set()
    ths = [threading.Thread(target=one, args=(b,), daemon=True) for b in backends]
    for t in ths: t.start()
    done.wait()
    with lock:
        win = next((r for r in res if r.status in ("ok", "fail")), res[-1])
    for p in procs:
        if p.poll() is None:
            try: os.killpg(p.pid, 9)
            except OSError: pass
    for t in ths: t.join()
    return win


def cbmc(goto, args, timeout, mem_gb, procs=None):
    cmd = ["cbmc", goto, "--function", "vp_main", "--json-ui", "--trace", "--verbosity", "8"] + args
    rc, out, err, wall = run(cmd, timeout, mem_gb, procs=procs)
    r = CbmcResult()
    r.wall = wall
    r.cmd = " ".join(cmd)
    if rc is None:
        r.status = "timeout"
        return r
    j = parse_cbmc(out)
    if j is None:
        r.status, r.err = "error", (err + out)[-600:]
        return r
    got = False
    for e in j:
        if not isinstance(e, dict):
            continue
        t = e.get("messageText", "")
        if t:
            m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
            if m:
                r.vccs += int(m.group(1)); r.vccs_remaining += int(m.group(2))
            m = re.search(r"size of program expression: (\d+) steps", t)
            if m: r.steps += int(m.group(1))
            m = re.search(r"(\d+) variables, (\d+) clauses", t)
            if m: r.vars, r.clauses = max(r.vars, int(m.group(1))), max(r.clauses, int(m.group(2)))
            m = re.search(r"Runtime Solver: ([\d.e+-]+)s", t)
            if m: r.solver_s += float(m.group(1)); r.queries += 1
            if e.get("messageType") == "ERROR":
                r.err += t + "; "
        for res in e.get("result", []) if isinstance(e.get("result"), list) else []:
            got = True
            loc = res.get("sourceLocation", {})
            r.props.append((res.get("property"), res.get("description", ""), res.get("status"),
                            loc.get("file", ""), loc.get("function", "")))
            if res.get("status") == "FAILURE":
                ins = []
                floc = loc
                for st in res.get("trace", []):
                    if st.get("stepType") == "input":
                        for v in st.get("values", []):
                            ins.append(input_value(v))
                    elif st.get("stepType") == "failure":
                        floc = st.get("sourceLocation", floc)
                r.fails.append(dict(name=res.get("property"), description=res.get("description", ""),
                                    inputs=ins, loc="%s:%s (%s)" % (floc.get("file", "?"), floc.get("line", "?"), floc.get("function", "?"))))
    if not got:
        r.status = "error"
        r.err = (r.err + err + out)[-800:]
    elif r.fails:
        r.status = "fail"
    elif any(p[2] not in ("SUCCESS",) for p in r.props):
        r.status = "error"
        r.err = "undecided: " + str([p[:3] for p in r.props if p[2] != "SUCCESS"][:4])
    else:
        r.status = "ok"
    return r


NATIVE = {
    "asan": ["gcc", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=shift-base",
             "-fno-sanitize-recover=all", "-w"],
    "msan": ["clang", "-g", "-O1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-w"],
    "pattern": ["gcc", "-g", "-O0", "-ftrivial-auto-var-init=pattern", "-fsanitize=address", "-w"],
}


class Native:
    def __init__(self, ctx, job):
        self.ctx, self.job, self.bins, self.lock = ctx, job, {}, threading.Lock()

    def binary(self, flavour):
        with self.lock:
            if flavour in self.bins:
                return self.bins[flavour]
            exe = os.path.join(self.ctx.tmp, "%s.%s" % (self.job.name, flavour))
            src = self.ctx.source(self.job)
            cmd = NATIVE[flavour] + BASE_CFLAGS + self.job.cflags + \
                ["-D" + d for d in self.job.defs] + [src, "-o", exe, "-lpthread", "-lm"]
            rc, out, err, _ = run(cmd, 120)
            if rc != 0:
                raise CheckError("native build failed (%s): %s" % (flavour, err[-1500:]))
            self.bins[flavour] = exe
            return exe

    def replay(self, inputs, flavour, tag):
        f = os.path.join(self.ctx.tmp, "%s.%s.in" % (self.job.name, tag))
        with open(f, "w") as h:
            h.write("\n".join(str(i) for i in inputs) + "\n")
        env = dict(os.environ, VP_INPUTS=f,
                   ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:max_malloc_fill_size=1048576:malloc_fill_byte=165",
                   UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=1",
                   MSAN_OPTIONS="exitcode=98")
        rc, out, err, wall = run([self.binary(flavour)], self.job.hang_s, env=env, cwd=self.ctx.tmp)
        kind = {0: "pass", 66: "assert", 77: "assume", 99: "sanitizer", 98: "msan", None: "hang"}.get(rc, "crash(%s)" % rc)
        return kind, (err + out)[-3000:]


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
        self.outdir = os.path.join(VERIF, "out", prop)
        os.makedirs(self.outdir, exist_ok=True)
        self.sem = threading.Semaphore(NCPU)
        self.srccache = {}
        self.lock = threading.Lock()

    def source(self, job):
        """Path of the harness translation unit (after an optional preparation step)."""
        if not job.prep:
            return os.path.join(HARN, job.harness)
        with self.lock:
            if job.name not in self.srccache:
                self.srccache[job.name] = job.prep(self, job)
            return self.srccache[job.name]


def encode(ctx, job, witness):
    src = ctx.source(job)
    goto = os.path.join(ctx.tmp, job.name + (".w" if witness else "") + ".goto")
    defs = ["-DVP_CBMC"] + (["-DVP_WITNESS"] if witness else []) + ["-D" + d for d in job.defs]
    cmd = ["goto-cc", "-std=gnu17", "-w"] + BASE_CFLAGS + job.cflags + defs + ["-c", src, "-o", goto]
    rc, out, err, _ = run(cmd, 120)
    if rc != 0:
        raise CheckError("goto-cc failed for %s: %s" % (job.name, (err + out)[-2000:]))
    return goto


def select_properties(goto, args, excluded):
    """--property arguments for every check except the excluded ones (None: no exclusion needed)."""
    keep = [a for a in args if a not in ("--slice-formula",)]
    rc, out, err, _ = run(["cbmc", goto, "--function", "vp_main", "--json-ui", "--show-properties"] + keep, 120, 8)
    j = parse_cbmc(out)
    if j is None:
        raise CheckError("cannot list properties: " + (err + out)[-400:])
    names, ign = [], []
    for e in j:
        for pr in e.get("properties", []) if isinstance(e, dict) else []:
            if IGNORED_UB.search(pr.get("description", "")):
                l = pr.get("sourceLocation", {})
                ign.append("%s at %s:%s" % (pr["description"], l.get("file"), l.get("line")))
            elif pr["name"] not in excluded:
                names.append(pr["name"])
    if not ign and not excluded:
        return [], []
    sel = []
    for n in names:
        sel += ["--property", n]
    return sel, ign


def is_unwind(f):
    return ".unwind." in (f["name"] or "") or "unwinding assertion" in f["description"] or ".recursion" in (f["name"] or "")


def is_functional(f):
    return f["description"].startswith("VP ")


def cbmc_args(job, unwind, witness):
    a = list(CBMC_BASE)
    if "--object-bits" in job.opts:
        i = a.index("--object-bits"); del a[i:i + 2]
    a += ["--unwind", str(unwind)]
    for u in job.unwindset:
        a += ["--unwindset", u]
    a += [o for o in job.opts]
    if witness:
        a = [x for x in a if x not in ("--unwinding-assertions", "--memory-leak-check")]
        a += ["--no-unwinding-assertions", "--no-standard-checks"]
    return a


def run_witness(ctx, job, native):
    goto = encode(ctx, job, True)
    with ctx.sem:
        r = cbmc_race(goto, cbmc_args(job, job.wunwind or job.unwind, True), job.backends, job.timeout, job.mem_gb)
    if r.status not in ("ok", "fail"):
        raise CheckError("%s: vacuity twin inconclusive (%s) %s" % (job.name, r.status, r.err[:300]))
    reached = {f["description"] for f in r.fails}
    wanted = {p[1] for p in r.props if p[1].startswith("WITNESS")}
    # an unreachable instance of a witness is fine when another one with the same label is reached
    missing = wanted - reached
    if not wanted or missing:
        raise CheckError("%s: vacuous: unreachable witness(es) %s" % (job.name, sorted(missing) or "none declared"))
    n = 0
    for k, f in enumerate(r.fails):
        kind, log = native.replay(f["inputs"], "asan", "wit%d" % k)
        if kind == "assume":
            raise CheckError("%s: witness %s does not replay natively (assumption false): %s" % (job.name, f["description"], log[-600:]))
        f["replay"] = kind
        f["log"] = log
        n += 1
    return r, n


def run_job(ctx, job):
    """Returns a dict describing the outcome."""
    res = dict(job=job.name, status=None, detail="", violations=[], notes=[])
    native = Native(ctx, job)
    wfut = None
    t0 = time.time()
    ex = cf.ThreadPoolExecutor(1)
    try:
        goto = encode(ctx, job, False)
        if job.witness:
            wfut = ex.submit(run_witness, ctx, job, native)
        unwind = job.unwind
        attempt = 0
        excluded = set()
        while True:
            args = cbmc_args(job, unwind, False)
            sel, ign = select_properties(goto, args, excluded)
            res["outside_claim"] = ign
            with ctx.sem:
                r = cbmc_race(goto, args + sel, job.backends, job.timeout, job.mem_gb)
            res.update(vccs=r.vccs, vccs_remaining=r.vccs_remaining, steps=r.steps, vars=r.vars,
                       clauses=r.clauses, solver_s=r.solver_s, queries=r.queries, wall=r.wall,
                       nprops=len(r.props), unwind=unwind, cmd=r.cmd)
            if r.status in ("timeout", "error"):
                raise CheckError("%s: solver run inconclusive: %s %s" % (job.name, r.status, r.err[:600]))
            res["functions"] = sorted({p[4] for p in r.props if p[3].startswith(REPO) and p[4]})
            if r.status == "ok":
                res["status"] = "holds"
                break
            # something failed: functional first, then memory/arithmetic, then unwinding
            nobody = [f for f in r.fails if ".no-body." in (f["name"] or "")]
            if nobody:
                raise CheckError("%s: the code calls functions the environment model lacks: %s" %
                                 (job.name, [f["description"] for f in nobody][:5]))
            order = sorted(r.fails, key=lambda f: (0 if is_functional(f) else 2 if is_unwind(f) else 1))
            only_unwind = all(is_unwind(f) for f in r.fails)
            unconfirmed = []
            for k, f in enumerate(order[:24]):
                kind, log = native.replay(f["inputs"], "asan", "cex%d" % k)
                if kind in ("pass", "assume") and not is_unwind(f):
                    for fl in ("msan", "pattern"):
                        try:
                            k2, l2 = native.replay(f["inputs"], fl, "cex%d" % k)
                        except CheckError as e:
                            continue
                        if k2 not in ("pass", "assume"):
                            kind, log = k2 + "/" + fl, l2
                            break
                if kind in ("pass", "assume"):
                    unconfirmed.append((f, kind, log))
                    continue
                v = dict(assertion=f["description"], where=f["loc"], replay_outcome=kind,
                         inputs=f["inputs"], log=log)
                v["path"] = save_violation(ctx, job, v, len(res["violations"]))
                res["violations"].append(v)
                break
            if res["violations"]:
                res["status"] = "violated"
                break
            bad = [u for u in unconfirmed if is_functional(u[0])]
            if bad and not any(is_unwind(f) for f in r.fails):
                raise CheckError("%s: counterexample to '%s' does not reproduce natively (%s): %s" %
                                 (job.name, bad[0][0]["description"], bad[0][1], bad[0][2][-400:]))
            if any(is_unwind(f) for f in r.fails) and attempt < job.unwind_retry:
                attempt += 1
                unwind = unwind * 2
                res["notes"].append("unwinding bound raised to %d" % unwind)
                continue
            if any(is_unwind(f) for f in r.fails):
                raise CheckError("%s: loop bound insufficient: %s" % (job.name, [f["name"] for f in r.fails if is_unwind(f)][:5]))
            # only standard-level undefined behaviour no sanitizer confirms: triage note, not an alarm
            if not unconfirmed or all(f["name"] in excluded for f, _, _ in unconfirmed):
                raise CheckError("%s: no progress on %s" % (job.name, [f["name"] for f in r.fails][:5]))
            for f, kind, log in unconfirmed:
                res["notes"].append("unconfirmed standard-level UB (not reported): %s at %s" % (f["description"], f["loc"]))
                excluded.add(f["name"])
            continue
        if wfut:
            try:
                wr, n = wfut.result()
                res["witness_points"] = len({f["description"] for f in wr.fails})
                res["witness_replays"] = n
                res["solver_s"] += wr.solver_s
                res["queries"] += wr.queries
                if res["status"] == "holds":
                    badw = [f for f in wr.fails if f.get("replay") != "pass"]
                    if badw:
                        # natively failing on a solver-chosen path although the encoding proved it:
                        # encoding and code disagree -> report as a violation only if it is one
                        f = badw[0]
                        raise CheckError("%s: witness replay disagrees with the encoding (%s): %s" % (job.name, f["replay"], f["log"][-800:]))
                res["witness_sample"] = dict(label=wr.fails[0]["description"], inputs=wr.fails[0]["inputs"][:40])
            except CheckError as e:
                if res["status"] != "violated":
                    raise
                res["notes"].append("witness: %s" % e)
    except CheckError as e:
        res["status"] = "error"
        res["detail"] = str(e)
    finally:
        ex.shutdown(wait=True)
    res["total_wall"] = time.time() - t0
    return res


def save_violation(ctx, job, v, k):
    base = os.path.join(ctx.outdir, "%s.%d" % (job.name, k))
    with open(base + ".inputs", "w") as f:
        f.write("\n".join(str(i) for i in v["inputs"]) + "\n")
    src = ctx.source(job)
    if job.prep:
        keep = base + os.path.splitext(src)[1]
        shutil.copy(src, keep); src = keep
    with open(base + ".replay.sh", "w") as f:
        f.write("#!/bin/sh\n# Replays the solver's counterexample against the real code in %s.\n" % REPO)
        f.write("# violated: %s\n# at: %s\n# observed natively: %s\n" % (v["assertion"], v["where"], v["replay_outcome"]))
        f.write("set -e\nt=$(mktemp -d)\ntrap 'rm -r \"$t\"' EXIT\n")
        fl = v["replay_outcome"].split("/")[1] if "/" in v["replay_outcome"] else "asan"
        f.write(" ".join(NATIVE[fl] + BASE_CFLAGS + job.cflags + ["'-D%s'" % d for d in job.defs] + [src]) + " -o $t/replay -lpthread -lm\n")
        f.write("VP_INPUTS=%s.inputs ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 UBSAN_OPTIONS=halt_on_error=1 timeout %d $t/replay\n" % (base, job.hang_s))
        f.write("# native log:\n" + "".join("#   " + l + "\n" for l in v["log"].splitlines()[:40]))
    os.chmod(base + ".replay.sh", 0o755)
    return base + ".replay.sh"


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\w+) match=\[(.*?)\] (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main(prop, tier):
    sys.path.insert(0, VERIF)
    from vp import registry
    if prop not in registry.PROPS:
        print("unknown property", prop); return 2
    spec = registry.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ctx = Ctx(prop, tier)
    only = os.environ.get("VP_JOB")
    jobs = [j for j in spec["jobs"] if tier in j.tiers and (not only or re.fullmatch(only, j.name))]
    try:
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(run_job, ctx, j) for j in jobs]
            results = []
            for fu in cf.as_completed(futs):
                r = fu.result()
                results.append(r)
                print("  %-28s %-8s props=%s vccs=%s solver=%.1fs wall=%.1fs %s" % (
                    r["job"], r["status"], r.get("nprops"), r.get("vccs"), r.get("solver_s", 0), r["total_wall"],
                    "; ".join(r["notes"])[:300]), flush=True)
                if r["status"] == "error":
                    print("    ERROR: " + r["detail"], flush=True)
                for v in r["violations"]:
                    print("    counterexample: %s at %s -> %s (inputs %s)" % (v["assertion"], v["where"], v["replay_outcome"], v["inputs"][:24]))
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    viol = [(r, v) for r in results for v in r["violations"]]
    known, fresh = [], []
    kf = known_findings(prop)
    for r, v in viol:
        hit = [t for m, t in kf if m == "%s: %s" % (r["job"], v["assertion"])]
        (known if hit else fresh).append((r, v, hit))
    errs = [r for r in results if r["status"] == "error"]
    rf = repo_functions()
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    files = sorted({rf.get(f, "") for f in funcs} - {""})
    ev = dict(property=prop, tier=tier, seed=seed, level="other", wall_s=round(time.time() - t0, 2),
              violations=len(fresh),
              assumptions=spec.get("assumptions", []),
              coverage=dict(
                  explanation="Bounded symbolic execution (CBMC) of the real code compiled from %s at this run; "
                  "the solver decides every assertion for all values of the symbolic inputs within the bounds. "
                  "Outside the bounds nothing is claimed. " % REPO + spec.get("explanation", ""),
                  method="bounded model checking: goto-cc + CBMC 6.11 (SAT: MiniSat2; where stated cvc5, also in integer encoding, raced against it), native replay of counterexamples and witnesses under gcc ASan+UBSan / clang MSan",
                  functions_encoded=funcs, files_encoded=files,
                  bounds={j.name: j.bound for j in jobs},
                  jobs_without_verdict=[dict(job=r["job"], reason=r["detail"][:400]) for r in errs],
                  assertions_decided=sum(r.get("nprops", 0) or 0 for r in results if r["status"] == "holds"),
                  vccs_generated=sum(r.get("vccs", 0) or 0 for r in results),
                  vccs_after_simplification=sum(r.get("vccs_remaining", 0) or 0 for r in results),
                  solver_queries=sum(r.get("queries", 0) or 0 for r in results),
                  solver_time_s=round(sum(r.get("solver_s", 0) or 0 for r in results), 3),
                  symex_steps=sum(r.get("steps", 0) or 0 for r in results),
                  witness_points_reached=sum(r.get("witness_points", 0) or 0 for r in results),
                  witness_replays_agreeing=sum(r.get("witness_replays", 0) or 0 for r in results),
                  jobs=[{k: r.get(k) for k in ("job", "status", "nprops", "vccs", "vccs_remaining", "vars", "clauses", "queries",
                                               "solver_s", "wall", "unwind", "notes", "outside_claim", "witness_points", "witness_sample", "detail")} for r in sorted(results, key=lambda r: r["job"])],
                  counterexamples=[dict(job=r["job"], assertion=v["assertion"], where=v["where"], inputs=v["inputs"][:64], replay=v["path"]) for r, v in viol],
              ))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r, v, hit in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
    for r, v, _ in fresh:
        print("VIOLATION property=%s replay=%s" % (prop, v["path"]))
    if fresh:
        return 1
    held = [r for r in results if r["status"] == "holds"]
    if not held:
        print("ERROR: no job gave a verdict")
        return 2
    for r in errs:
        print("INCONCLUSIVE property=%s job=%s (not part of what was explored): %s" % (prop, r["job"], r["detail"].splitlines()[0][:200]))
    print("OK property=%s: %d of %d job(s), %d assertions hold within bounds, %.1fs" % (prop, len(held), len(results), ev["coverage"]["assertions_decided"], ev["wall_s"]))
    return 0
