#!/usr/bin/env python3
"""mutate.py OUTDIR WORKERS SEED LIMIT_SECONDS [file regex]: mutation testing of the checks (development only).
Each mutant of the sources is built in a copy and run with short batches of all generators; survivors are listed."""
import os, re, random, shutil, subprocess, sys, threading, time, hashlib
V = "/tmp/w"; OUT, W, SEED, LIMIT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4])
RX = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
os.makedirs(OUT, exist_ok=True)
FILES = [f for f in subprocess.run("git -C /repo ls-files src backends/open62541/src", shell=True, capture_output=True, text=True).stdout.split() if f.endswith(".c") and "Printf" not in f and RX.search(f)]
ORDER = ["C02", "C14", "C07", "C08", "C04", "C13", "C11", "C12", "C05", "C09", "C06", "C10", "C01", "C03"]
N = {"C02": 80, "C14": 160, "C07": 100, "C08": 160, "C04": 100, "C13": 50, "C11": 50, "C12": 120, "C05": 60, "C09": 100, "C06": 60, "C10": 60, "C01": 50, "C03": 40}
OPS = [(r"(?<![<>=!-])<(?![<=])", ["<=", ">="]), (r"(?<![-<>=!])>(?![>=])", [">=", "<="]), (r"<=", ["<", ">"]), (r">=", [">", "<"]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"!(?=[A-Za-z_(])", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\+ 1\b", ["", "+ 2"]), (r"- 1\b", [""]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", [";"]), (r"\+\+", ["--"]), (r"(?<=[ (,])([0-9]+)(?=[;,) \]])", ["\\1 + 1"]),
       (r"\bNULL\b", []), (r"\+=", ["-=", "="]), (r"\bif \(", ["if (1 || (", "if (0 && ("]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" % ", [" / "]), (r"\bfor \(", []), (r"->next\b", []), (r"&(?=[a-z])", [])]
def mutants():
    res = []
    for f in FILES:
        lines = open("/repo/" + f).read().split("\n"); depth = 0; infn = False; comment = False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("/*"): comment = True
            if comment:
                if "*/" in s: comment = False
                continue
            if l.startswith("{"): infn = True
            if s.startswith("//") or s.startswith("#"): continue
            wasfn = infn or l.startswith(" ") or l.startswith("\t")
            if l.startswith("}"): infn = False
            if not wasfn or not s: continue
            code = l.split("//")[0]
            for rx, reps in OPS:
                for m in re.finditer(rx, code):
                    if code[:m.start()].count('"') % 2: continue
                    for r in reps:
                        rep = m.expand(r)
                        if rep.endswith("|| (") or rep.endswith("&& ("):
                            # close the parenthesis at the matching one, on this line only
                            d = 0; e = None
                            for k in range(m.end() - 1, len(code)):
                                if code[k] == "(": d += 1
                                if code[k] == ")":
                                    d -= 1
                                    if d == 0: e = k; break
                            if e is None: continue
                            new = code[:m.start()] + rep + code[m.end():e] + ")" + code[e:]
                        else: new = code[:m.start()] + rep + code[m.end():]
                        res.append((f, i, new))
            if s.endswith(";") and re.match(r"^[A-Za-z_*(][^;]*;$", s) and not re.match(r"^(return|break|continue|goto|typedef|struct|static|const|extern|else|assert)\b", s) and not re.match(r"^[A-Za-z_]\w*( \*|\* | )+\w+( =|;|\[)", s) and not re.match(r"^(unsigned|size_t|bool|int|char)\b", s):
                if lines[i - 1].rstrip().endswith((";", "{", "}", ")", "*/", "else", ":")) or not lines[i - 1].strip() or "//" in lines[i - 1]:
                    res.append((f, i, l[:len(l) - len(l.lstrip())] + ";"))
            if re.match(r"^return [^;]+;$", s) and s not in ("return true;", "return false;"): pass
    random.Random(SEED).shuffle(res)
    return res
todo = mutants(); print(len(todo), "mutants", flush=True)
if LIMIT == 0: sys.exit()
lock = threading.Lock(); pos = [0]; t0 = time.time(); count = {}
log = open(OUT + "/log", "a")
ENV = dict(os.environ, ASAN_OPTIONS="exitcode=99:handle_abort=1:allocator_may_return_null=1:detect_leaks=0:abort_on_error=0:malloc_context_size=1", UBSAN_OPTIONS="exitcode=99:print_stacktrace=1", NLSIM_ALL="1")
def worker(k):
    repo = OUT + "/w%d/repo" % k; os.makedirs(OUT + "/w%d/tmp" % k, exist_ok=True)
    shutil.rmtree(repo, ignore_errors=True)
    subprocess.run("mkdir -p %s && cd /repo && git archive HEAD include src backends | tar -x -C %s" % (repo, repo), shell=True, check=True)
    if os.path.isdir("/repo/build"): pass
    env = dict(ENV, NL_REPO=repo, NL_OUT=OUT + "/w%d/build" % k)
    subprocess.run(["python3", V + "/build.py"], env=env, capture_output=True)
    while time.time() - t0 < LIMIT:
        with lock:
            if pos[0] >= len(todo): return
            f, i, new = todo[pos[0]]; pos[0] += 1
        p = repo + "/" + f; orig = open(p).read(); ls = orig.split("\n"); old = ls[i]; ls[i] = new
        open(p, "w").write("\n".join(ls))
        res = "?"
        try:
            b = subprocess.run(["python3", V + "/build.py"], env=env, capture_output=True, text=True, timeout=200)
            if b.returncode: res = "nobuild"
            else:
                exe = b.stdout.strip().split("\n")[-1]; res = "SURVIVED"
                st = time.time()
                for prop in ORDER:
                    try:
                        r = subprocess.run("%s batch %s %d 0 %d 1 60 %s | grep -m1 -P '^[VH] '" % (exe, prop, 1000 + SEED, N[prop], OUT + "/w%d/tmp" % k), shell=True, env=env, capture_output=True, text=True, timeout=120, errors="replace")
                        if r.stdout: res = "killed " + prop + " " + " ".join(r.stdout.split("\t")[2:4])[:100].strip(); break
                    except subprocess.TimeoutExpired: res = "killed timeout " + prop; subprocess.run("pkill -9 -f w%d/build/nlsim" % k, shell=True); break
                res += " %.0fs" % (time.time() - st)
        except subprocess.TimeoutExpired: res = "buildtimeout"
        open(p, "w").write(orig)
        subprocess.run("find %s/w%d/tmp -name '*.plan' -delete" % (OUT, k), shell=True)
        with lock:
            key = res.split()[0]; count[key] = count.get(key, 0) + 1
            log.write("%s\t%s:%d\t%s\t=>\t%s\n" % (res, f, i + 1, old.strip(), new.strip())); log.flush()
ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
for t in ts: t.start()
for t in ts: t.join()
print(count, "%.0fs" % (time.time() - t0))
