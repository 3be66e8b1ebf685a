#!/usr/bin/env python3
"""mutate.py OUT FILE:CHECK,CHECK [FILE:CHECKS ...] [-w WORKERS] [-s STRIDE/OFFSET] [-f SURVIVORS] [-r REPO] : small mutations of /repo's sources, one at a time, in copies
under /tmp/mut; lists those no check notices (to be inspected by hand: equivalent, or a gap)."""
import re, sys, os, subprocess, shutil, threading, queue, json
REPO, VER = "/repo", "/verif"
def code_mask(s):
    """positions that are code (not comments, strings, preprocessor lines)"""
    m = bytearray(len(s)); i = 0; n = len(s); bol = True
    while i < n:
        if s.startswith("//", i): i = s.find("\n", i); i = n if i < 0 else i; continue
        if s.startswith("/*", i): i = s.find("*/", i) + 2; continue
        if s[i] in "\"'":
            q = s[i]; i += 1
            while s[i] != q: i += 2 if s[i] == "\\" else 1
            i += 1; bol = False; continue
        if s[i] == "#" and bol:
            while True:
                e = s.find("\n", i)
                if e < 0: i = n; break
                if s[e-1] == "\\": i = e + 1; continue
                i = e; break
            continue
        if s[i] == "\n": bol = True
        elif not s[i].isspace(): bol = False
        m[i] = 1; i += 1
    return m
def mutants(s):
    m = code_mask(s); out = []
    def add(a, b, new, k): out.append((a, b, new, k))
    REL = {"<": ["<=", ">="], "<=": ["<", ">"], ">": [">=", "<="], ">=": [">", "<"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"]}
    for x in re.finditer(r"(?<![-<>=!&|+*/^%])(<=|>=|==|!=|<|>|&&|\|\|)(?![=<>&|])", s):
        if not m[x.start()]: continue
        if s[x.start()-1] == "-" : continue
        for r in REL[x.group(1)]: add(x.start(1), x.end(1), r, "rel")
    for x in re.finditer(r"(?<=[\w\)\]]) ?([-+*/%]) ?(?=[\w\(])", s):
        if m[x.start(1)] and s[x.start(1)-1] not in "-+" and s[x.start(1)+1] not in "-+>=": add(x.start(1), x.end(1), {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/"}[x.group(1)], "arith")
    for x in re.finditer(r"(\+=|-=|\+\+|--)", s):
        if m[x.start()]: add(x.start(), x.end(), {"+=": "-=", "-=": "+=", "++": "--", "--": "++"}[x.group(1)], "assign")
    for x in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", s):
        if not m[x.start()] or s[:x.start()].endswith("static "): continue
        v = int(x.group(1), 0)
        for d in (1, -1):
            if v + d >= 0: add(x.start(1), x.end(1), str(v + d), "const")
    for x in re.finditer(r"\b(true|false)\b", s):
        if m[x.start()]: add(x.start(), x.end(), "false" if x.group(1) == "true" else "true", "bool")
    for x in re.finditer(r"(?<=[\(\s&|])!(?=[\w\(])", s):
        if m[x.start()]: add(x.start(), x.end(), "", "not")
    for x in re.finditer(r"\bif\(", s):
        if not m[x.start()]: continue
        d = 0; i = x.end() - 1
        while True:
            if m[i]:
                if s[i] == "(": d += 1
                elif s[i] == ")":
                    d -= 1
                    if d == 0: break
            i += 1
        for v in ("false && ", "true || "): out.append((x.end(), i, " " + v + "(" + s[x.end():i].strip() + ") ", "if"))
    for x in re.finditer(r"(?m)^[ \t]+([^\n]*;)[ \t]*(?://[^\n]*)?$", s):
        t = x.group(1)
        if not m[x.start(1)] or not m[x.end(1)-1]: continue
        if re.match(r"(return|goto|break|continue|case|default|else|if|for|while|do|typedef|struct|static|const|extern|#|\})", t):
            if re.match(r"(break|continue);", t): add(x.start(1), x.end(1), ";", "del")
            continue
        if re.match(r"[A-Za-z_]\w*( const| \*)*[ *]+[A-Za-z_]\w*(\[[^\]]*\])?( =|;|,)", t) : continue   # declaration
        add(x.start(1), x.end(1), ";", "del")
    return out
def describe(f, s, mu):
    p, e, new, k = mu; ln = s.count("\n", 0, p) + 1
    return "%s:%d [%s] %s   ==> %r -> %r" % (f, ln, k, s.splitlines()[ln-1].strip()[:140], s[p:e][:60], new[:60])
def main():
    a = sys.argv[1:]; outf = a.pop(0); W = 2; only = None; stride, off = 1, 0; jobs = []
    while a:
        x = a.pop(0)
        if x == "-w": W = int(a.pop(0))
        elif x == "-f": only = set(re.findall(r"^(?:SURVIVED|ERROR) #\d+ (\S+?:\d+ .*)$", open(a.pop(0)).read(), re.M))
        elif x == "-r": global REPO; REPO = a.pop(0)
        elif x == "-s": stride, off = map(int, a.pop(0).split("/"))
        else: f, c = x.split(":"); jobs.append((f, c.split(",")))
    q = queue.Queue(); tot = 0; src = {}
    for f, c in jobs:
        s = open(os.path.join(REPO, f)).read(); ms = mutants(s)
        src[f] = s
        for i, mu in enumerate(ms):
            if only is not None and describe(f, s, mu) not in only: continue
            if (i + off) % stride == 0: q.put((f, c, i, mu)); tot += 1
    print("%d mutants" % tot, flush=True)
    lock = threading.Lock(); stat = dict(killed=0, stillborn=0, survived=0, error=0)
    log = open(outf, "w")
    def worker(w):
        base = "/tmp/mut/w%d" % w; shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
        subprocess.run(["cp", "-a", REPO, base + "/repo"]); subprocess.run(["rm", "-rf", base + "/repo/.git"])
        os.makedirs(base + "/verif"); subprocess.run("cp -a %s/harness %s/check.py %s/registry.py %s/known_findings.json %s/verif/" % (VER, VER, VER, VER, base), shell=True)
        while True:
            try: f, cs, i, (p, e, new, k) = q.get_nowait()
            except queue.Empty: break
            s = src[f]; t = s[:p] + new + s[e:]
            path = os.path.join(base, "repo", f); open(path, "w").write(t)
            desc = describe(f, s, (p, e, new, k))
            try:
                if subprocess.run(["gcc", "-std=c99", "-w", "-fsyntax-only", "-I", base + "/repo", "-x", "c", path], capture_output=True).returncode: r = "stillborn"
                else:
                    r = "survived"
                    for c in cs:
                        pr = subprocess.run(["taskset", "-c", "%d-%d" % (8*w//W, 8*(w+1)//W - 1), "python3", "check.py", c], timeout=1500, cwd=base + "/verif", env=dict(os.environ, VP_REPO=base + "/repo"), capture_output=True, text=True)
                        if pr.returncode == 1: r = "killed"; break
                        if pr.returncode != 0:
                            r = "error"; desc += "   {%s: %s}" % (c, pr.stdout[-200:].replace("\n", " | ")); break
            finally: open(path, "w").write(s)
            with lock:
                stat[r] += 1
                if r in ("survived", "error"): log.write("%s #%d %s\n" % (r.upper(), i, desc)); log.flush()
                open(outf + ".stat", "w").write(json.dumps(stat) + " of %d\n" % tot)
    ths = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
    [t.start() for t in ths]; [t.join() for t in ths]
    log.write("DONE %s\n" % stat); log.close()
main()
