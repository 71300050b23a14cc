#!/usr/bin/env python3
"""tools/mutate.py N SEED [LINE-LINE]: a development aid (no check uses it).

Plants N small random changes in copies of strtk.hpp (original lines only), rebuilds the executors of the
properties that execute the changed line, replays the inputs dumped by 'STRTK_DUMP=... bin/check', and lists
the changes under which every outcome stays the same: what no input of ours can tell from the real code.
Needs /tmp/mut/dump (STRTK_DUMP) and /tmp/mut/cov/<ID>.json (line hits)."""
import json, os, re, sys, random, subprocess, shutil, concurrent.futures as cf, time
REPO = os.environ.get("STRTK_REPO", "/repo")
HARN = "/verif/harness"
W = "/dev/shm/mut"
SRC = open(REPO + "/strtk.hpp", errors="replace").read().split("\n")
ORIG = set()
for n, l in enumerate(subprocess.run(["git", "-C", REPO, "blame", "-s", "HEAD", "--", "strtk.hpp"], capture_output=True).stdout.decode("latin-1").split("\n"), 1):
    if l.startswith("^d82") or l.startswith("d8219"):
        ORIG.add(n)
COV = {}
for f in os.listdir("/tmp/mut/cov"):
    COV[f[:-5]] = set(json.load(open("/tmp/mut/cov/" + f)))
DUMP = {p: sorted(os.listdir("/tmp/mut/dump/" + p)) for p in os.listdir("/tmp/mut/dump") if p in COV}
META = {}


def meta(p):
    if p not in META:
        META[p] = [json.load(open("/tmp/mut/dump/%s/%s" % (p, f))) for f in DUMP[p]]
    return META[p]


SUBS = [(r"(?<![<>=!\-+*/&|])<(?![<=>])(?=[\s(\w])", ["<=", ">"]), (r"<=", ["<", "=="]), (r"(?<![<>=\-])>(?![>=])(?= )", [">=", "<"]), (r">=", [">", "=="]), (r"==", ["!="]), (r"!=", ["=="]),
        (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+ 1\b", ["", "+ 2"]), (r"- 1\b", ["", "- 2"]), (r"\+\+", ["--"]), (r"(?<!-)--(?!-)", ["++"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
        (r"(?<=[\w)\]] )\+(?= [\w(])", ["-"]), (r"(?<=[\w)\]] )-(?= [\w(])", ["+"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\* ", ["+ "]), (r" / ", [" * "]), (r" % ", [" / "]),
        (r"!(?=[\w(])", [""]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", [";"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b([2-9]|[1-9]\d+)\b", ["@inc", "@dec"]), (r"0x[0-9A-Fa-f]+", ["@xinc"]),
        (r"\.first\b", [".second"]), (r"\.second\b", [".first"]), (r"\bbegin\(\)", ["end()"]), (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]), (r" & ", [" | "]), (r" \| ", [" & "]), (r"<< ", [">> "]), (r">> ", ["<< "]),
        (r"\^", ["|"]), (r"\bpush_back\(", ["clear(); //"]), (r"\bif \((.*)\)\s*$", ["@iftrue", "@iffalse"]), (r"\bwhile \((.*)\)\s*$", ["@whilefalse"])]


def mutants(n):
    l = SRC[n - 1]
    out = []
    code = l.split("//")[0]
    if not code.strip() or code.strip().startswith("#") or re.match(r"\s*(template|typename|typedef|class|struct|namespace|using|public|private)\b", code):
        return out
    for pat, reps in SUBS:
        for m in re.finditer(pat, code):
            if "template" in code or "static_cast" in code[max(0, m.start() - 12):m.start()] and m.group(0) in "<>":
                continue
            for r in reps:
                t = m.group(0)
                if r == "@inc": new = str(int(t) + 1)
                elif r == "@dec": new = str(int(t) - 1)
                elif r == "@xinc": new = hex(int(t, 16) ^ 1)
                elif r == "@iftrue": new = "if (true || (%s))" % m.group(1)
                elif r == "@iffalse": new = "if (false && (%s))" % m.group(1)
                elif r == "@whilefalse": new = "while (false && (%s))" % m.group(1)
                else: new = r
                out.append(l[:m.start()] + new + l[m.end():])
    if re.match(r"\s*[^{}#]*;\s*(\\)?$", code) and not re.match(r"\s*(return|const|static|std::\w+(<.*>)? \w+|unsigned|int|bool|char|T |typename|[\w:<>]+ [\w]+( =.*)?;|private|public|using|typedef|enum|inline|friend|case|default|break|else)\b", code) and ("(" in code or "=" in code):
        out.append(re.match(r"\s*", l).group(0) + ";" + (" \\" if l.rstrip().endswith("\\") else ""))
    return out


def build(d, m, k):
    exe = d + "/x%d" % k
    f = ["g++", "-std=c++11", "-O0", "-w", "-I" + d, "-I" + HARN] + m["flags"]
    objs = []
    for s in m["sources"]:
        if s == "main.cpp":
            objs.append("/tmp/mut/main.o")
            continue
        o = d + "/" + s.replace("/", "_") + ".%d.o" % k
        p = subprocess.run(f + ["-c", HARN + "/" + s, "-o", o], capture_output=True)
        if p.returncode:
            return None
        objs.append(o)
    p = subprocess.run(f + objs + ["-o", exe] + m["libs"], capture_output=True)
    return exe if p.returncode == 0 else None


def replay(d, exe, m, p, k):
    """True when some outcome differs."""
    c = d + "/cwd"
    os.makedirs(c, exist_ok=True)
    if os.path.exists(d + "/out"): os.unlink(d + "/out")
    inp = "/tmp/mut/in-%s-%d" % (p, k)
    try:
        r = subprocess.run(["timeout", "-k", "1", "120", exe, inp, d + "/out", "0", "5"], capture_output=True, cwd=c, env=dict(os.environ, TZ="UTC", LC_ALL="C", TMPDIR=c))
    finally:
        shutil.rmtree(c, ignore_errors=True)
    if r.returncode:
        return True
    want = [x[2] for x in m["recs"]]
    with open(d + "/out", errors="replace") as f:
        for w, l in zip(want, f):
            if l.startswith("!EXC"):
                v = "!EXC " + l[5:].rstrip("\n")
                if v != w: return True
            else:
                try:
                    if json.loads(l) != w: return True
                except ValueError:
                    return True
    return False


def one(a):
    idx, n, new = a
    d = "%s/%d-%d" % (W, os.getpid(), idx)
    os.makedirs(d, exist_ok=True)
    try:
        src = list(SRC)
        src[n - 1] = new
        open(d + "/strtk.hpp", "w", errors="replace").write("\n".join(src))
        for f in os.listdir(REPO):
            if f.endswith(".cpp"):
                os.symlink(REPO + "/" + f, d + "/" + f)
        ps = [p for p in sorted(COV, key=lambda p: COST.get(p, 99)) if n in COV[p] and p in DUMP]
        tried = []
        for p in ps:
            built = {}
            for k, m in enumerate(meta(p)):
                key = (tuple(m["sources"]), tuple(m["flags"]))
                if key not in built:
                    built[key] = build(d, m, k)
                if built[key] is None:
                    return (n, new, "NOCOMPILE", p)
                if replay(d, built[key], m, p, k):
                    return (n, new, "killed", p)
            tried.append(p)
        return (n, new, "SURVIVED", ",".join(tried))
    except Exception as e:
        return (n, new, "ERROR %r" % e, "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def base(p):
    d = W + "/s"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    os.symlink(REPO + "/strtk.hpp", d + "/strtk.hpp")
    for f in os.listdir(REPO):
        if f.endswith(".cpp"): os.symlink(REPO + "/" + f, d + "/" + f)
    out = []
    built = {}
    for k, m in enumerate(meta(p)):
        t = time.time()
        key = (tuple(m["sources"]), tuple(m["flags"]))
        if key not in built: built[key] = build(d, m, k)
        t1 = time.time()
        out.append((k, built[key] and "ok", len(m["recs"]), built[key] and replay(d, built[key], m, p, k), "%.0f+%.0f" % (t1 - t, time.time() - t1)))
    return out


COST = {p: i for i, p in enumerate("P32 P06 P17 P28 P13 P12 P11 P25 P27 P29 P04 P03 P21 P24 P05 P19 P22 P20 P18 P23 P26 P08 P14 P15 P16 P10 P02 P01 P31 P09 P30 P07".split())}


def main():
    N, seed = int(sys.argv[1]), int(sys.argv[2])
    lo, hi = (map(int, sys.argv[3].split("-")) if len(sys.argv) > 3 else (1, len(SRC)))
    R = random.Random(seed)
    os.makedirs(W, exist_ok=True)
    if not os.path.exists("/tmp/mut/main.o"):
        subprocess.check_call(["g++", "-std=c++11", "-O1", "-w", "-I" + REPO, "-I" + HARN, "-c", HARN + "/main.cpp", "-o", "/tmp/mut/main.o"])
    allc = set().union(*COV.values())
    lines = [n for n in sorted(allc & ORIG) if lo <= n <= hi]
    cand = []
    for n in lines:
        ms = mutants(n)
        if ms:
            cand.append((n, ms))
    R.shuffle(cand)
    jobs = []
    while len(jobs) < N and cand:
        nxt = []
        for n, ms in cand:
            if len(jobs) >= N: break
            x = ms.pop(R.randrange(len(ms)))
            jobs.append((len(jobs), n, x))
            if ms: nxt.append((n, ms))
        cand = nxt
    print(len(lines), "covered original lines;", len(jobs), "mutants", flush=True)
    for p in COV:
        if p in DUMP:
            for k, m in enumerate(meta(p)):
                with open("/tmp/mut/in-%s-%d" % (p, k), "w") as f:
                    for o, i, r in m["recs"]:
                        f.write(json.dumps({"o": o, "i": i}, separators=(",", ":")) + "\n")
    if N == 0:
        jobs = [(0, 1, SRC[0])]
        for p in COV: COV[p].add(1)
        os.makedirs(W + "/s", exist_ok=True)
        for p in sorted(DUMP):
            print(p, base(p), flush=True)
        return
    t0 = time.time()
    cnt = {}
    with cf.ProcessPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        for n, new, how, p in ex.map(one, jobs, chunksize=1):
            cnt[how] = cnt.get(how, 0) + 1
            if how not in ("killed", "NOCOMPILE"):
                print("%s %d [%s]\n   - %s\n   + %s" % (how, n, p, SRC[n - 1].strip(), new.strip()), flush=True)
    print(cnt, "%.0fs" % (time.time() - t0), flush=True)


if __name__ == "__main__":
    main()
