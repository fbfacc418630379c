#!/usr/bin/env python3
"""mk.py SPEC.py...   makes /verif/seeded/<id>: SPEC defines id, property, file, old, new (or edits), needs, breaks, demo, wrap, server"""
import json, os, shutil, subprocess, sys
K = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(K))
for spec in sys.argv[1:]:
    s = {}; exec(open(spec).read(), s)
    w = "/tmp/mkseed-tree"; subprocess.run(["git", "-C", "/repo", "worktree", "prune"]); shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
    for f, old, new in s.get("edits") or [(s["file"], s["old"], s["new"])]:
        p = os.path.join(w, f); t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(V, "seeded", s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    srv = bool(s.get("server"))
    open(d + ("/demo.cpp" if srv else "/demo.c"), "w").write('#include "demo_%s.h"\n' % ("server" if srv else "common") + s["demo"])
    if s.get("wrap"): open(d + "/wrap", "w").write(" ".join("-Wl,--wrap=" + x for x in s["wrap"]) + "\n")
    shutil.copy(K + "/demo.sh", d); os.chmod(d + "/demo.sh", 0o755); shutil.copy(K + "/demo_common.h", d)
    shutil.copytree(V + "/stub/open62541", d + "/stub/open62541"); shutil.copy(V + "/stub/ua_types.c", d)
    if srv:
        shutil.copy(K + "/demo_server.h", d)
        for f in ("ua_server.cpp", "sim_server.h", "ns0_table.inc"): shutil.copy(V + "/stub/" + f, d)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
    ok = a.returncode == 0 and b.returncode not in (0, 2)
    print(s["id"], "ok" if ok else "NOT OK", a.returncode, b.returncode, (b.stderr.strip().splitlines() or [""])[0][:150])
    if not ok: print(a.stderr[-1500:], "----", b.stderr[-1500:])
    shutil.rmtree(w)
