"""Common driver: build the executor from /repo, run TLC on the specification, bind both ways."""
import copy, json, os, re, shutil, subprocess, sys, time, random, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STRTK_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"]
BASEFLAGS = ["-std=c++11", "-O1", "-g1", "-w", "-I" + REPO, "-I" + HARN]


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


class Violation(Exception):
    pass


def numbers(v):
    """every integer anywhere in a value"""
    return {c for x in v for c in numbers(x)} if isinstance(v, list) else {v} if isinstance(v, int) else set(v.encode()) if isinstance(v, str) else set()


def stretched(R, recs, paths, n, safe=b"gjkmpqrvw", size=None):
    """copies of records of recs in which one letter of one text stands for a long run (harness/vh.hpp) of a byte
    the record has nowhere else; paths: operation -> positions of texts in its input ("*": any)"""
    out, recs = [], [r for r in recs if r["o"] in paths]
    for _ in range(20 * n):
        if len(out) == n or not recs:
            break
        r = R.choice(recs)
        used = numbers(r["i"])
        free = [c for c in safe if c not in used and c - 32 not in used and c < 256]
        if not free or max(used, default=0) >= 256 * 300:
            continue
        r = copy.deepcopy(r)
        v = r["i"]
        for k in R.choice(paths[r["o"]]):
            v = (R.choice(v) if k == "*" else v[k] if k < len(v) else None) if isinstance(v, list) and v else None
        at = [k for k, c in enumerate(v) if isinstance(c, int) and 97 <= c <= 122] if isinstance(v, list) else []
        if at and all(isinstance(c, int) for c in v):
            v[R.choice(at)] = R.choice(free) + 256 * (size or R.choice([300, 40000, 65535, 65536, 65537, 70001]))
            out.append(r)
    return out


def B(s):
    """python str/bytes -> list of byte codes"""
    if isinstance(s, str):
        s = s.encode("latin-1")
    return list(s)


def S(a):
    return bytes(a).decode("latin-1")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.dir = os.path.join(VERIF, "build", "%s-%s-%d" % (prop, tier, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0       # recorded histories accepted or rejected by TLC
        self.replayed = 0        # model generated behaviours executed on the code
        self.samples = []
        self.bad = []            # confirmed disagreements
        self.known_hit = []
        self.notes = []
        self.canaries = 0
        self.mc_runs = []
        self.ops_seen = {}

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)


# ------------------------------------------------------------------ harness
def build(ctx, sources, flags=(), name="exec", san=True, libs=(), cxx="g++"):
    """Compile each source in parallel together with main.cpp.  Compile errors of a harness while the
    bare header still compiles are violations: a public operation cannot be used any more."""
    out = os.path.join(ctx.dir, name)
    srcs = ["main.cpp"] + list(sources)
    f = BASEFLAGS + (SAN if san else []) + list(flags)
    if os.environ.get("STRTK_COV"):      # tools/coverage.sh: which parts of the header are executed
        f = BASEFLAGS + ["-O0", "--coverage"] + list(flags)

    def one(s):
        o = os.path.join(ctx.dir, name + "-" + s.replace("/", "_") + ".o")
        p = subprocess.run([cxx] + f + ["-c", os.path.join(HARN, s), "-o", o], capture_output=True, text=True)
        return s, o, p
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, srcs))
    for s, o, p in res:
        if p.returncode:
            t = os.path.join(ctx.dir, "bare.cpp")
            open(t, "w").write('#include "strtk.hpp"\nint main(){ return 0; }\n')
            q = subprocess.run([cxx] + f + ["-fsyntax-only", t], capture_output=True, text=True)
            first = "\n".join([l for l in p.stderr.splitlines() if "error" in l][:4]) or p.stderr[-800:]
            if q.returncode or "internal compiler error" in p.stderr or "Killed" in p.stderr or "fatal error: error writing" in p.stderr:
                raise CheckError("cannot compile %s: %s" % (s, first + q.stderr[:500]))
            # confirm once more
            s2, o2, p2 = one(s)
            if p2.returncode:
                ctx.bad.append({"kind": "compile", "source": s, "errors": first})
                raise Violation("operations in harness/%s no longer compile:\n%s" % (s, first))
    p = subprocess.run([cxx] + f + [o for _, o, _ in res] + ["-o", out] + list(libs), capture_output=True, text=True)
    if p.returncode:
        raise CheckError("link: " + p.stderr[-2000:])
    _built[out] = {"sources": srcs, "flags": list(flags), "libs": list(libs)}
    return out


_built = {}


def dump(ctx, binary, recs):
    """For tools/mutate.py: what was executed and what came out."""
    d = os.path.join(os.environ["STRTK_DUMP"], ctx.prop)
    os.makedirs(d, exist_ok=True)
    b = dict(_built.get(binary, {}), recs=[[r["o"], r["i"], r["r"]] for r in recs])
    with open(os.path.join(d, "%03d.json" % len(os.listdir(d))), "w") as f:
        json.dump(b, f, separators=(",", ":"))


def _san_env(cwd):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3000:max_allocation_size_mb=2000:detect_stack_use_after_return=1:allocator_may_return_null=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:print_stacktrace=0"
    e["TMPDIR"] = cwd
    e["TZ"] = "UTC"
    e["LC_ALL"] = "C"
    return e


def _exec_chunk(ctx, binary, recs, tag, lim):
    d = os.path.join(ctx.dir, "x-" + tag)
    os.makedirs(d, exist_ok=True)
    inp, outp = os.path.join(d, "in"), os.path.join(d, "out")
    with open(inp, "w") as f:
        for r in recs:
            f.write(json.dumps({"o": r["o"], "i": r["i"]}, separators=(",", ":")) + "\n")
    res = []
    crashes = 0
    while len(res) < len(recs):
        if os.path.exists(outp):
            os.remove(outp)
        start = len(res)
        p = subprocess.run([binary, inp, outp, str(start), str(lim)], capture_output=True, cwd=d, env=_san_env(d))
        lines = []
        if os.path.exists(outp):
            with open(outp, "r", errors="replace") as f:
                txt = f.read()
            lines = txt.split("\n")[:-1]
        for l in lines:
            res.append("!EXC " + l[5:] if l.startswith("!EXC") else json.loads(l))
        if p.returncode == 0:
            if len(res) != len(recs):
                raise CheckError("executor returned %d of %d" % (len(res), len(recs)))
            break
        err = p.stderr.decode("latin-1", "replace")
        if p.returncode == 97 or (p.returncode < 0 and p.returncode in (-9, -15)) or p.returncode == 127:
            raise CheckError("executor failed rc=%d: %s" % (p.returncode, err[-1500:]))
        m = re.search(r"(AddressSanitizer: [^\n(]*|runtime error: [^\n]*|HANG)", err)
        res.append("!CRASH rc=%d %s" % (p.returncode, m.group(1).strip() if m else err[-200:].replace("\n", " ")))
        ctx.last_err = err
        crashes += 1
        if crashes >= 12 and len(res) < len(recs):
            # enough evidence; the rest of this chunk is not executed
            res += ["!SKIP"] * (len(recs) - len(res))
            break
    shutil.rmtree(d, ignore_errors=True)
    return res


def execute(ctx, binary, recs, lim=20, chunks=None):
    """Run the records on the real code, chunked over the cores; sets r["r"]."""
    n = chunks or max(1, min(NCPU, len(recs) // 50))
    parts = [recs[k::n] for k in range(n)]
    with cf.ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(lambda a: _exec_chunk(ctx, binary, a[1], "%d-%d" % (id(recs) % 100000, a[0]), lim), enumerate(parts)))
    for p, o in zip(parts, outs):
        for r, v in zip(p, o):
            r["r"] = v
    if os.environ.get("STRTK_DUMP"):
        dump(ctx, binary, recs)
    return recs


# ------------------------------------------------------------------ TLC
_tlcn = [0]


def tlc(ctx, module, cfg, env=None, workers=NCPU, args=(), heap="6g", timeout=3000, tag=None):
    """Run TLC on spec/<module>.tla with the given cfg text. Returns (rc, stdout)."""
    _tlcn[0] += 1
    d = os.path.join(ctx.dir, "tlc%d-%s" % (_tlcn[0], tag or module))
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            p = os.path.join(d, f)
            if not os.path.exists(p):
                os.symlink(os.path.join(SPEC, f), p)
    c = os.path.join(d, module + ".cfg")
    open(c, "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers), "-config", c] + list(args) + [module + ".tla"]
    outf = os.path.join(d, "out.txt")
    with open(outf, "w") as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=d, env=e, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timeout on " + module)
    return rc, outf


def stats(outf):
    st = tr = 0
    with open(outf, errors="replace") as f:
        for l in f:
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", l)
            if m:
                tr, st = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    return st, tr


def tail(outf, n=40):
    with open(outf, errors="replace") as f:
        return "".join([l if len(l) < 2000 else l[:2000] + "...\n" for l in f.readlines()[-n:]])


def model_check(ctx, module, cfg, env=None, args=(), timeout=3000, want_emit=True, workers=NCPU):
    """Exhaustive run of the bounded model: invariants of the design + emitted behaviours."""
    rc, outf = tlc(ctx, module, cfg, env, args=list(args) + ["-deadlock"], timeout=timeout, workers=workers)
    st, tr = stats(outf)
    if rc != 0:
        raise CheckError("model %s failed (rc %d):\n%s" % (module, rc, tail(outf)))
    recs = []
    seen = set()
    with open(outf, errors="replace") as f:
        for l in f:
            if l.startswith('"{'):
                if l in seen:
                    continue
                seen.add(l)
                recs.append(json.loads(json.loads(l)))
    ctx.states += st
    ctx.transitions += tr
    ctx.mc_runs.append({"module": module, "distinct_states": st, "transitions": tr, "emitted": len(recs)})
    ctx.log("TLC %s: %d distinct states, %d transitions, %d behaviours emitted" % (module, st, tr, len(recs)))
    if want_emit and not recs:
        raise CheckError("model %s emitted nothing" % module)
    for r in recs:
        r["exp"] = r.pop("r")
    return recs


def is_fail(v):
    return isinstance(v, str) and v.startswith("!")


class EvalError(CheckError):
    """TLC could not evaluate the specification on an observed outcome (its shape is none the specification knows)."""


def validate(ctx, module, recs, canary=None, timeout=3000, count=True, env=None):
    """code -> spec with outcomes of unknown shape isolated by bisection: they are rejected."""
    try:
        return _validate(ctx, module, recs, canary, timeout, count, env)
    except EvalError as e:
        good = [r for r in recs if not is_fail(r["r"])]
        found = []

        def search(part):
            if not part or len(found) >= 4:
                return
            try:
                found.extend(_validate(ctx, module, part, None, timeout, False, env))
            except EvalError as x:
                if len(part) == 1:
                    found.append((part[0], "the outcome has a shape the specification does not know"))
                    return
                h = len(part) // 2
                search(part[:h])
                search(part[h:])
        search(good)
        if not found:
            raise e
        return found


def _validate(ctx, module, recs, canary=None, timeout=3000, count=True, env=None):
    """code -> spec: TLC decides for each recorded history whether the specification allows it.
    `canary(rec)` corrupts a field of a copy of a record; TLC must reject the corrupted copies."""
    good = [r for r in recs if not is_fail(r["r"])]
    trace = [{"o": r["o"], "i": r["i"], "r": r["r"]} for r in good]
    ncan = 0
    if canary:
        step = max(1, len(good) // 5)
        for r in good[::step][:6]:
            try:
                c = canary(json.loads(json.dumps({"o": r["o"], "i": r["i"], "r": r["r"]})))
            except (IndexError, KeyError, TypeError, ValueError):
                c = None        # an outcome of unexpected shape: the record itself is judged below
            if c is not None:
                trace.append(c)
                ncan += 1
    if not trace:
        return []
    _tlcn[0] += 1
    f = os.path.join(ctx.dir, "trace%d.ndjson" % _tlcn[0])
    with open(f, "w") as h:
        for t in trace:
            h.write(json.dumps(t, separators=(",", ":")) + "\n")
    e = {"TRACE": f}
    e.update(env or {})
    base = module[:-5]
    rc, outf = tlc(ctx, module, "CONSTANTS\nConforms <- %sConforms\nWanted <- %sExpected\n" % (base, base) + "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n", e, timeout=timeout)
    st, tr = stats(outf)
    rej = {}
    done = False
    with open(outf, errors="replace") as h:
        for l in h:
            m = re.match(r'"REJECT (\d+) (.*)"$', l.rstrip())
            if m:
                rej[int(m.group(1)) - 1] = m.group(2)[:3000]
            if "TRACE-COMPLETE" in l:
                done = True
    if rc != 0 or not done:
        t = tail(outf, 400)
        if "Attempted to" in t or "was not in the domain" in t or "unexpected exception" in t or "evaluating the nested" in t:
            raise EvalError("trace validation %s failed (rc %d):\n%s" % (module, rc, t[-6000:]))
        raise CheckError("trace validation %s failed (rc %d):\n%s" % (module, rc, tail(outf)))
    can = set(range(len(good), len(trace)))
    if not can <= set(rej):
        raise CheckError("binding self-test: TLC accepted a corrupted record: %s" % json.dumps(trace[sorted(can - set(rej))[0]])[:600])
    ctx.canaries += ncan
    if count:
        ctx.states += st
        ctx.transitions += tr
        ctx.validated += len(good)
    os.remove(f)
    return [(good[k], rej[k]) for k in sorted(rej) if k < len(good)]


# ------------------------------------------------------------------ known findings
def known(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k.get("property") == prop and k.get("status", "open") == "open":
                    out.append(k)
    return out


def match_known(ctx, rec):
    for k in known(ctx.prop):
        if k["op"] == rec["o"] and any(c == rec["i"] for c in k["inputs"]):
            return k
    return None


# ------------------------------------------------------------------ binding driver
def bind(ctx, binary, module, emitted, generated, canary=None, lim=20):
    """Both directions for one specification module."""
    if emitted:
        # spec -> code
        execute(ctx, binary, emitted, lim)
        ctx.replayed += len(emitted)
        bad = [r for r in emitted if r["r"] != r["exp"]]
        for r in emitted:
            ctx.ops_seen[r["o"]] = ctx.ops_seen.get(r["o"], 0) + 1
        ctx.log("replayed %d model behaviours on the code: %d disagree" % (len(emitted), len(bad)))
        _confirm(ctx, binary, module, bad, lim, "replay")
        for r in emitted[:: max(1, len(emitted) // 2)][:2]:
            ctx.samples.append({"direction": "spec->code", "op": r["o"], "in": r["i"], "out": r["r"]})
    if generated:
        execute(ctx, binary, generated, lim)
        for r in generated:
            ctx.ops_seen[r["o"]] = ctx.ops_seen.get(r["o"], 0) + 1
        fails = [r for r in generated if is_fail(r["r"]) and r["r"] != "!SKIP"]
        ctx.replayed += sum(1 for r in generated if r.pop("m", 0))
        rej = validate(ctx, module, generated, canary)
        for r, e in rej:
            r["why"] = e
        ctx.log("TLC validated %d recorded runs: %d rejected, %d crashed/hung" % (len(generated) - len(fails), len(rej), len(fails)))
        _confirm(ctx, binary, module, fails + [r for r, _ in rej], lim, "trace")
        for r in generated[:: max(1, len(generated) // 2)][:2]:
            ctx.samples.append({"direction": "code->spec", "op": r["o"], "in": r["i"], "out": r["r"]})


def _confirm(ctx, binary, module, bad, lim, how):
    """Re-run each candidate alone; only a repeated disagreement counts."""
    bad = [r for r in bad if r["r"] != "!SKIP"]
    fresh = []
    for r in bad:
        k = match_known(ctx, r)
        if k:
            ctx.known_hit.append(k)
        else:
            fresh.append(r)
    fresh.sort(key=lambda r: len(json.dumps(r["i"])))
    per = {}
    cand = []
    for r in fresh:
        per[r["o"]] = per.get(r["o"], 0) + 1
        if per[r["o"]] <= 3 and len(cand) < 40:
            cand.append(r)
    if not cand:
        return
    again = [{"o": r["o"], "i": r["i"]} for r in cand]
    execute(ctx, binary, again, lim, chunks=1)
    ok = [x for x in again if not is_fail(x["r"])]
    rej = {}
    if ok and how == "trace":
        for x, e in validate(ctx, module, ok, None, count=False):
            rej[id(x)] = e
    for r, x in zip(cand, again):
        if x["r"] == "!SKIP":
            continue
        if is_fail(x["r"]):
            ctx.bad.append({"kind": "crash" if "HANG" not in x["r"] else "hang", "op": r["o"], "in": r["i"], "out": x["r"], "how": how})
        elif how == "replay" and x["r"] != r["exp"]:
            ctx.bad.append({"kind": "mismatch", "op": r["o"], "in": r["i"], "out": x["r"], "expected": r["exp"], "how": how})
        elif how == "trace" and id(x) in rej:
            ctx.bad.append({"kind": "rejected", "op": r["o"], "in": r["i"], "out": x["r"], "spec": rej[id(x)], "how": how})
        else:
            ctx.notes.append("not repeated: %s %s" % (r["o"], json.dumps(r["i"])[:200]))
            ctx.log("disagreement did not repeat, ignored:", r["o"], json.dumps(r["i"])[:200])


# ------------------------------------------------------------------ entry
def main(prop, mod):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args(sys.argv[2:])
    ctx = Ctx(prop, a.tier, a.seed)
    rc = 2
    viol = None
    try:
        try:
            mod.run(ctx)
        except Violation as v:
            viol = str(v)
        seen = set()
        for k in ctx.known_hit:
            if k["what"] not in seen:
                seen.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        wall = round(time.time() - ctx.t0, 2)
        n = len(ctx.bad)
        cov = {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.validated + ctx.replayed,
            "recorded_runs_validated_by_tlc": ctx.validated,
            "model_behaviours_replayed_on_code": ctx.replayed,
            "corrupted_records_rejected": ctx.canaries,
            "per_operation": ctx.ops_seen,
            "model_runs": ctx.mc_runs,
            "samples": [json.loads(json.dumps(s)) if len(json.dumps(s)) < 1500 else json.dumps(s)[:1500] for s in ctx.samples[:10]] or ["none"],
        }
        ev = {"property": prop, "tier": "thorough" if a.tier == "thorough" else "quick", "seed": a.seed,
              "level": "model_checking", "coverage": cov,
              "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": wall, "violations": n}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if n or viol:
            rp = os.path.join(VERIF, "evidence", prop + ".replay.json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "violations": ctx.bad, "message": viol}, f, indent=1)
            for b in ctx.bad[:8]:
                print("  ", json.dumps(b)[:900])
            if viol:
                print("  ", viol[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            rc = 1
        else:
            print("OK property=%s %s in %.1fs: %d states, %d model behaviours replayed, %d recorded runs validated" % (prop, a.tier, wall, ctx.states, ctx.replayed, ctx.validated))
            rc = 0
    except Exception as e:
        import traceback
        if not isinstance(e, CheckError):
            traceback.print_exc()
        print("ERROR in check %s: %s" % (prop, e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(ctx.dir, ignore_errors=True)
    sys.exit(rc)
