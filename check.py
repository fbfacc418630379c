#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   seeded simulation of one property
   check.py replay FILE                        execute one replay file
Exit 0: held on everything explored; 1: VIOLATION line; 2: the check itself failed."""
import collections, json, os, re, selectors, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as builder

# simulated runs of the quick tier
RUNS = {"C01": 20000, "C02": 14000, "C03": 9000, "C04": 22000, "C05": 18000, "C06": 20000, "C07": 20000, "C08": 18000,
        "C09": 13000, "C10": 24000, "C11": 24000, "C12": 18000, "C13": 20000, "C14": 22000}
QUICK_LIMIT, THOROUGH_S, WORKERS = 420, 780, 8
RULE = ("One evaluation is one simulated run: a plan (documents, files with damage, tasks of operations, faults, schedule) "
        "generated from (VERIF_SEED, property, index) and executed in a process of its own. Non-trivial: nodes were delivered or offered, or "
        "an import, sort or load failed. Distinct: different pair of transcript hash (all results, callbacks, delivered nodes, server calls) and schedule hash.")
REAL = ["src/*.c and src/nodes/*.c of open62541-nodeset-loader (instrumented, otherwise as in the tree)",
        "backends/open62541/src/*.c (instrumented, otherwise as in the tree)", "libxml2 2.9.14 (push parser, its own buffers and encodings)",
        "glibc stdio buffering over a simulated file (fopencookie)", "POSIX threads, released one at a time by the simulated scheduler"]
STUB = ["open62541 types (stub/ua_types.c: node ids, strings, variants, statuses)", "open62541 server (stub/ua_server.cpp: address space, references, add-node rules, config)",
        "disk and files (virtual, in memory)", "the library's malloc/calloc/realloc/strdup/free, fopen/fclose and stdout", "scheduler and step clock (basic blocks executed)",
        "host: logger, namespace callback, extension handlers, reference service"]

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "exitcode=99:handle_abort=1:allocator_may_return_null=1:detect_leaks=0:abort_on_error=0:malloc_context_size=1"
    e["UBSAN_OPTIONS"] = "exitcode=99:print_stacktrace=1"
    for k in ("NLSIM_VERBOSE", "NLSIM_HASH", "NLSIM_ALL", "NLSIM_TRACE", "NLSIM_SW", "NLSIM_DUMP", "MALLOC_PERTURB_", "LD_PRELOAD"):
        e.pop(k, None)
    return e

def execute(exe, plan, **more):
    r = subprocess.run([exe, "exec", plan], env=dict(env(), **more), capture_output=True, timeout=700)
    return r.returncode, r.stdout.decode("utf-8", "replace")

def classes(out):
    res = []
    for l in out.splitlines():
        if l.startswith("V "):
            kind, _, detail = l[2:].partition("\t")
            res.append(kind + (" " + detail.split(" at ")[0] if kind == "crash" else ""))
    return res

def reproduced(exe, plan):
    """same violation, bit for bit, in two fresh processes"""
    a, b = execute(exe, plan), execute(exe, plan)
    return a == b and a[0] == 1, a[1]

def findings(prop):
    """finding: property=C01 plan=findings/x.plan match=<regex> :: what fails"""
    res = []
    p = os.path.join(V, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) plan=(\S+) match=(.+?) :: (.*)", l)
        if m and m.group(1) == prop:
            res.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    return res

def report(exe, prop, plan, tier):
    """gate, minimise, gate again, write the replay file; returns the replay path or None"""
    ok, out = reproduced(exe, plan)
    if not ok:
        print("not reproducible: %s" % plan, file=sys.stderr)
        return None
    want = classes(out)[0]
    rep = os.path.join(V, "replay"); os.makedirs(rep, exist_ok=True)
    small = plan + ".min"
    limit = 60 if tier == "quick" else 240
    try: # a plan which is not minimal is better than no answer
        subprocess.run([exe, "shrink", plan, small, str(limit)], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=limit + 90)
    except subprocess.TimeoutExpired:
        pass
    if os.path.exists(small):
        ok, o = reproduced(exe, small)
        if ok and want in classes(o):
            plan, out = small, o
    dst = os.path.join(rep, "%s-%s.plan" % (prop, re.sub(r"[^A-Za-z0-9]+", "-", want)[:60]))
    shutil.copyfile(plan, dst)
    for l in out.splitlines():
        if l.startswith("V "):
            print("  " + l[2:].replace("\t", ": ")[:600])
    return dst

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        rc, out = execute(builder.build(), sys.argv[2], NLSIM_TRACE="1" if "--trace" in sys.argv else "")
        print(out); return rc
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    print("VERIF_SEED=%d property=%s tier=%s" % (seed, prop, tier), flush=True)
    exe = builder.build()
    tmp = os.path.join(V, "build", "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    try:
        return run(prop, tier, seed, t0, exe, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run(prop, tier, seed, t0, exe, tmp):
    known = findings(prop)
    bad, knownHit = [], collections.Counter()
    for plan, rx, what in known: # listed findings first: still there?
        ok, out = reproduced(exe, os.path.join(V, plan))
        if any(rx.search(l[2:]) for l in out.splitlines() if l.startswith("V ")):
            print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
    corpus = os.path.join(V, "corpus", prop) # minimised executions which once failed
    ncorpus = 0
    for f in sorted(os.listdir(corpus)) if os.path.isdir(corpus) else []:
        ncorpus += 1
        rc, out = execute(exe, os.path.join(corpus, f))
        if rc == 1 and not all(any(rx.search(l[2:]) for _, rx, _ in known) for l in out.splitlines() if l.startswith("V ")):
            p = os.path.join(tmp, "corpus-" + f); shutil.copyfile(os.path.join(corpus, f), p)
            bad.append((-1, p)); break
    total = RUNS[prop] if tier == "quick" else 10 ** 9
    limit = QUICK_LIMIT if tier == "quick" else THOROUGH_S
    stats, lines, harness = [], [], []
    if not bad:
        procs = []; sel = selectors.DefaultSelector()
        for w in range(WORKERS):
            p = subprocess.Popen([exe, "batch", prop, str(seed), str(w), str(total), str(WORKERS), str(limit), tmp], env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            procs.append(p); sel.register(p.stdout, selectors.EVENT_READ, p)
        buf = {p: b"" for p in procs}; stop = None
        while sel.get_map():
            for key, _ in sel.select(1):
                p = key.data; d = os.read(p.stdout.fileno(), 1 << 20)
                if not d:
                    sel.unregister(p.stdout); continue
                buf[p] += d
                *full, buf[p] = buf[p].split(b"\n")
                for l in full:
                    l = l.decode("utf-8", "replace")
                    if l.startswith("V "):
                        idx, fn, kind, detail = (l[2:].split("\t") + ["", "", ""])[:4]
                        k = [what for _, rx, what in known if rx.search(kind + "\t" + detail)]
                        if k: knownHit[k[0]] += 1
                        else:
                            bad.append((int(idx), fn))
                            if stop is None: stop = time.time() + 1
                    elif l.startswith("H "): harness.append(l)
                    elif l.startswith("S "): stats.append(json.loads(l[2:]))
            if stop is not None and time.time() > stop:
                for p in procs: p.kill()
        rcs = [p.wait() for p in procs]
        if not bad and (harness or any(rcs) or len(stats) != WORKERS):
            print("simulator failed: %s %s" % (rcs, harness[:3]), file=sys.stderr)
            return 2
    replay = None
    for idx, fn in sorted(bad)[:4]:
        replay = report(exe, prop, fn, tier)
        if replay: break
    deterministic = None
    if not bad: # the same runs again, distributed differently
        h = []
        for stride, parts in ((1, 1), (3, 3)):
            m = {}
            for w in range(parts):
                r = subprocess.run([exe, "batch", prop, str(seed), str(w), "36", str(stride), "300", tmp], env=dict(env(), NLSIM_HASH="1"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                for l in r.stdout.decode("utf-8", "replace").splitlines():
                    if l.startswith("X "): m[int(l.split()[1])] = l
            h.append(m)
        deterministic = h[0] == h[1]
        if not deterministic:
            print("the simulation is not deterministic: runs %s" % [i for i in h[0] if h[0][i] != h[1].get(i)][:5], file=sys.stderr)
    evidence(prop, tier, seed, t0, exe, stats, bad, knownHit, deterministic, ncorpus)
    if replay:
        print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
        return 1
    if bad:
        print("a violation was seen but did not reproduce", file=sys.stderr)
        return 2
    if not deterministic:
        return 2
    print("held: property=%s runs=%d wall=%.1fs" % (prop, sum(s["runs"] for s in stats), time.time() - t0))
    return 0

def evidence(prop, tier, seed, t0, exe, stats, bad, knownHit, deterministic, ncorpus):
    runs = sum(s["runs"] for s in stats); secs = max([s["seconds"] for s in stats] or [0.001])
    uni = lambda k: len(set().union(*[s[k] for s in stats])) if stats else 0
    cnt = collections.Counter()
    for s in stats: cnt.update(s["stats"])
    edges = 0
    if stats:
        m = 0
        for s in stats: m |= int(s["map"] or "0", 16)
        edges = bin(m).count("1")
    kinds = ["alloc_fail", "xml_context_failure", "open_error", "read_error", "read_eintr", "short_read", "missing_file", "damaged_file", "truncated_file", "refused_node", "refused_reference", "nested_program", "task_switch"]
    faults = {k: cnt[k] for k in cnt if k in kinds}
    sample = []
    for i in (0, 1):
        r = subprocess.run([exe, "gen", prop, str(seed), str(i)], env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        ls = r.stdout.decode("utf-8", "replace").splitlines()
        sample.append({"index": i, "plan_head": [l[:160] for l in ls[:6]], "tasks_faults_schedule": [l[:160] for l in ls if re.match(r"^(task| op|fault|sched|switch|file)", l)][:60]})
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": uni("distinct"), "rule": RULE, "samples": sample,
              "nontrivial_runs": sum(s["nontrivial"] for s in stats), "runs_with_a_fault_or_preemption": sum(s["faulty"] for s in stats),
              "runs_per_hour": int(runs / secs * 3600), "seeds_per_hour": int(runs / secs * 3600),
              "simulated_time_steps": sum(s["ticks"] for s in stats), "simulated_time_unit": "basic blocks of the code under test executed",
              "faults_injected": faults,
              "other_counts": {k: cnt[k] for k in cnt if k not in faults},
              "distinct_interleavings": uni("scheds"), "distinct_end_states": uni("states"),
              "state_measure": "hash over the results, callbacks and delivered contents of all tasks at the end of the run; interleaving: hash over the sequence of (step, task) switches and nested programs",
              "code_edges_reached": edges, "replayed_corpus_plans": ncorpus,
              "same_seed_reruns_identical": deterministic, "real_components": REAL, "stub_components": STUB,
              "known_findings_hit": dict(knownHit)},
          "assumptions": ["the stub of open62541 answers like the real server for the calls the backend makes", "code behaves under -O1 with sanitizers as it does in a release build, sanitizer findings aside",
                          "data races between two basic blocks are not explored: tasks switch at basic block boundaries of the code under test", "a clean batch is a sample of the space, not a proof"],
          "wall_s": round(wall, 1), "violations": len(bad)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e: # an error of the check, not a verdict
        print("check failed: %r" % e, file=sys.stderr)
        sys.exit(2)
