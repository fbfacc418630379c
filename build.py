"""Builds nlsim from /repo's working tree (sanitized, instrumented) and the simulator."""
import concurrent.futures, glob, hashlib, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NL_REPO", "/repo")
OUT = os.environ.get("NL_OUT", os.path.join(V, "build"))
SAN = ["-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all", "-no-pie", "-fno-pie"]
INC = ["-I" + V + "/stub", "-I/usr/include/libxml2", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/backends/open62541/include", "-I" + REPO + "/backends/open62541/src"]
CFLAGS = ["-std=gnu11", "-O1", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-DUSE_CLEANUP_CUSTOM_DATATYPES=1", "-w"] + SAN
CXX = ["-std=gnu++17", "-O1", "-g1", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-DUSE_CLEANUP_CUSTOM_DATATYPES=1", "-w", "-no-pie", "-fno-pie", "-fno-omit-frame-pointer"]
REDEF = """malloc calloc realloc free strdup strndup reallocarray fopen fclose printf vprintf fprintf vfprintf puts putchar fputs fputc fwrite fflush
pthread_mutex_lock pthread_once xmlCleanupParser xmlCreatePushParserCtxt xmlFreeParserCtxt""".split()
SEAMS = ["CharArenaAllocator_new", "NodeContainer_new"]

def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(" ".join(cmd) + "\n" + r.stderr[-4000:])

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def build(log=None):
    os.makedirs(OUT + "/obj", exist_ok=True)
    hdr = sorted(glob.glob(REPO + "/include/**/*.h", recursive=True) + glob.glob(REPO + "/src/**/*.h", recursive=True) + glob.glob(REPO + "/backends/open62541/**/*.h", recursive=True))
    stubh = sorted(glob.glob(V + "/stub/**/*.h", recursive=True) + glob.glob(V + "/stub/*.inc"))
    simh = sorted(glob.glob(V + "/sim/*.h"))
    code = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/nodes/*.c") + glob.glob(REPO + "/backends/open62541/src/*.c"))
    base = digest(hdr + stubh + [os.path.abspath(__file__)], " ".join(CFLAGS + CXX + REDEF) + REPO)
    jobs, objs = [], []
    for c in code + [V + "/stub/ua_types.c"]:
        o = OUT + "/obj/" + os.path.basename(c)[:-2] + "-" + digest([c], base) + ".o"
        objs.append(o)
        cov = [] if c.startswith(V) else ["-fsanitize-coverage=trace-pc"]
        if not os.path.exists(o):
            jobs.append((["gcc"] + CFLAGS + cov + INC + ["-c", c, "-o", o + ".tmp.o"], o))
    sbase = digest(simh, base)
    for c in sorted(glob.glob(V + "/sim/*.cpp")) + [V + "/stub/ua_server.cpp"]:
        o = OUT + "/obj/" + os.path.basename(c)[:-4] + "-" + digest([c], sbase) + ".o"
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((["g++"] + CXX + INC + ["-I" + V + "/sim", "-c", c, "-o", o + ".tmp.o"], o))
    def one(j):
        cmd, o = j
        run(cmd)
        if cmd[0] == "gcc":
            # the initial sizes of arenas and node containers are the simulator's choice
            own = subprocess.run(["nm", o + ".tmp.o"], capture_output=True, text=True).stdout
            syms = REDEF + [s for s in SEAMS if " T %s\n" % s not in own]
            run(["objcopy"] + ["--redefine-sym=%s=sim_%s" % (s, s) for s in syms] + [o + ".tmp.o"])
        os.replace(o + ".tmp.o", o)
    jobs.sort(key=lambda j: -os.path.getsize([a for a in j[0] if a.endswith((".c", ".cpp"))][0]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    exe = OUT + "/nlsim-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:20]
    if not os.path.exists(exe):
        run(["g++", "-no-pie", "-fsanitize=address,undefined", "-o", exe + ".tmp"] + objs + ["-lxml2", "-lpthread"])
        os.replace(exe + ".tmp", exe)
    keep = set(objs) | {exe}
    for f in glob.glob(OUT + "/obj/*.o") + glob.glob(OUT + "/nlsim-*"):
        if f not in keep:
            try: os.unlink(f)
            except OSError: pass
    return exe

if __name__ == "__main__":
    print(build())
