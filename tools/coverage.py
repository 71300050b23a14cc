#!/usr/bin/env python3
"""tools/coverage.py DIR...: after 'STRTK_COV=1 bin/check ID --keep' runs, list the functions of strtk.hpp
that no executor executed (a function template that is never instantiated has no line records at all)."""
import subprocess, sys, os, json, glob, re, gzip, collections
HPP = os.path.join(os.environ.get("STRTK_REPO", "/repo"), "strtk.hpp")
hit = collections.Counter(); known = set()
for d in sys.argv[1:]:
    for g in glob.glob(os.path.join(d, "*.gcda")):
        p = subprocess.run(["gcov", "-t", "--json-format", g], capture_output=True, cwd=d)
        for line in p.stdout.split(b"\n"):
            if not line.strip():
                continue
            try:
                j = json.loads(line)
            except ValueError:
                continue
            for f in j["files"]:
                if f["file"].endswith("strtk.hpp"):
                    for l in f["lines"]:
                        known.add(l["line_number"]); hit[l["line_number"]] += l["count"]
src = open(HPP, errors="replace").read().split("\n")
json.dump({"hit": sorted(k for k in hit if hit[k])}, open("/tmp/cov/hit.json", "w"))
# function bodies: a line '{' whose preceding text looks like a parameter list; nested blocks belong to it
ctrl = re.compile(r"^\s*(if|else|for|while|do|switch|try|catch|namespace|struct|class|enum|union|case|default|return|typedef|static const)\b")
stack = []; funcs = []
incomment = False
for n, l in enumerate(src, 1):
    t = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', '""', l)
    t = re.sub(r"//.*", "", t)
    if incomment:
        if "*/" in t: t = t.split("*/", 1)[1]; incomment = False
        else: continue
    t = re.sub(r"/\*.*?\*/", "", t)
    if "/*" in t: t = t.split("/*")[0]; incomment = True
    if t.lstrip().startswith("#"): continue
    for c in t:
        if c == "{":
            # header text: go up until a line ending with ; } { or access label or blank
            h = []; k = n - 1
            cur = l[:l.index("{")] if l.strip() != "{" else ""
            while k >= 1 and src[k-1].strip() and not src[k-1].strip().endswith((";", "{", "}", "public:", "private:", "protected:", "\\")):
                h.insert(0, src[k-1].strip()); k -= 1
            head = " ".join(h + [cur.strip()])
            isf = "(" in head and not any(ctrl.match(x) for x in ([head] if not head.startswith("template") else [re.sub(r"^template\s*<.*?>\s*(?=(inline|static|class|struct|friend|virtual|explicit|[a-zA-Z_:]+[ (]))", "", head)])) and not any(f for f in stack if f[0])
            stack.append((isf, n, k + 1, head))
        elif c == "}" and stack:
            f = stack.pop()
            if f[0]: funcs.append((f[1], n, f[2], f[3]))
un = 0
for a, b, s, head in sorted(funcs):
    ls = [x for x in range(s, b + 1) if hit.get(x)]
    if not ls:
        un += 1
        print("%5d-%d %s" % (s, b, re.sub(r"\s+", " ", head)[:170]))
    else:
        miss = [x for x in range(a, b + 1) if x in known and not hit.get(x)]
        if miss:
            print("   part %5d-%d lines %s  %s" % (s, b, miss[:12], re.sub(r"template <[^()]*?> (?=inline|static)", "", head)[:90]))
print(len(funcs), "functions,", un, "not executed")
