// nlsim batch PROP SEED FROM TO STRIDE DEADLINE OUTDIR   many seeded runs
// nlsim exec PLANFILE                                   one run from a replay file
// nlsim gen PROP SEED INDEX                             print the plan of one run (faults included)
#include "exec.h"
#include "gen.h"
#include "shrink.h"
#include <sys/personality.h>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static rt::Result *shared() {
    void *p = mmap(nullptr, sizeof(rt::Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return (rt::Result *)p;
}
extern "C" void __sanitizer_purge_allocator();
static FILE *OUT;
static int errFd = -1;
static bool verbose;
struct Outcome { int status = 0; bool ok = false; std::string kind, detail; };
static std::string crashSite(const std::string &e) { // innermost function of the code under test
    std::istringstream in(e); std::string l, first, head;
    while (std::getline(in, l)) {
        if (head.empty() && (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error:") != std::string::npos || l.find("Assertion") != std::string::npos)) {
            size_t a = l.find("ERROR: AddressSanitizer: "); head = a != std::string::npos ? l.substr(a + 25, l.find(' ', a + 25) - a - 25) : l.find("Assertion") != std::string::npos ? "assertion" : l.substr(l.find("runtime error:") + 15, 60);
            if (head == "ABRT") head = "abort";
        }
        size_t i = l.find(" in "); size_t h = l.find('#');
        if (i == std::string::npos || h == std::string::npos || h > 8) continue;
        std::string f = l.substr(i + 4); std::string fn = f.substr(0, f.find(' '));
        if (first.empty() && l.find("/sim/") == std::string::npos && l.find("/stub/") == std::string::npos && l.find(".c:") != std::string::npos && l.find("asan") == std::string::npos && l.find("../") == std::string::npos && l.find("nptl") == std::string::npos && l.find("assert") == std::string::npos && l.find("stdlib") == std::string::npos) first = fn;
    }
    return head + " in " + (first.empty() ? "?" : first);
}
static Outcome runOne(const Plan &p, rt::Result *r) {
    memset((void *)r, 0, offsetof(rt::Result, tail)); r->transcriptLen = 0; r->transcripts[0] = 0;
    memset(r->edges, 0, sizeof r->edges);
    if (ftruncate(errFd, 0)) {}
    lseek(errFd, 0, SEEK_SET);
    fflush(OUT);
    __sanitizer_purge_allocator(); // small processes fork faster
    pid_t pid = fork();
    if (pid == 0) {
        dup2(errFd, 2);
        struct rlimit rl = {40, 45}; setrlimit(RLIMIT_CPU, &rl);
        struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
        alarm(300);
        execPlan(p, r);
        _exit(0);
    }
    Outcome o; int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    o.status = st;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && r->done) { o.ok = true; return o; }
    std::string e; char b[8192]; lseek(errFd, 0, SEEK_SET); ssize_t n; while (e.size() < 20000 && (n = read(errFd, b, sizeof b)) > 0) e.append(b, (size_t)n);
    if (verbose) fprintf(stderr, "%s\n", e.c_str());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97 && r->hang) { o.kind = "hang"; o.detail = "no end within the step budget (" + std::to_string(r->ticks) + " steps) at " + r->where; }
    else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) { o.kind = "hang"; o.detail = std::string("out of CPU time at ") + r->where; }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { o.kind = "harness-stuck"; o.detail = r->where; }
    else { o.kind = "crash"; o.detail = crashSite(e) + " at " + r->where + (WIFSIGNALED(st) ? " (signal " + std::to_string(WTERMSIG(st)) + ")" : ""); }
    return o;
}
struct Found { std::string kind, detail; };
static bool hasTag(const char *props, const std::string &prop) { std::string s = std::string(",") + props + ","; return s.find("," + prop + ",") != std::string::npos; }
static std::map<std::string, std::vector<std::string>> transcripts(const rt::Result *r) {
    std::map<std::string, std::vector<std::string>> m;
    size_t i = 0;
    while (i < r->transcriptLen) { std::string t(r->transcripts + i); i += t.size() + 1; size_t e = t.find('\n'); m[t.substr(0, e)].push_back(t.substr(e + 1)); }
    return m;
}
static std::string firstDiff(const std::string &a, const std::string &b) {
    std::istringstream x(a), y(b); std::string l, m;
    std::getline(x, l); std::getline(y, m); // the digests
    for (;;) {
        bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m);
        if (!p && !q) return "";
        if (!p) l = "(end)"; if (!q) m = "(end)";
        if (l != m) return "alone: '" + l.substr(0, 300) + "', together: '" + m.substr(0, 300) + "'";
    }
}
// executes one plan with everything its property asks for
static std::vector<Found> check(Plan &p, rt::Result *r, rt::Result *agg, std::string &harness) {
    std::vector<Found> out;
    std::map<std::string, std::string> solo; bool soloBad = false;
    if (p.property == "C03") {
        for (auto &t : p.tasks) {
            Plan q = p; q.solo = t.name;
            Outcome o = runOne(q, r);
            if (!o.ok) { if (o.kind == "harness-stuck") harness = o.detail; soloBad = true; break; }
            auto m = transcripts(r); auto i = m.find(t.name); if (i != m.end() && !i->second.empty()) solo[t.name] = i->second[0];
        }
        if (soloBad) return out;
    }
    Outcome o = runOne(p, r);
    if (agg) { for (int i = 0; i < rt::ST_N; i++) agg->stats[i] += r->stats[i]; agg->ticks += r->ticks; for (size_t i = 0; i < sizeof r->edges; i++) agg->edges[i] |= r->edges[i]; }
    if (!o.ok) { if (o.kind == "harness-stuck") harness = o.detail; else out.push_back({o.kind, o.detail}); return out; }
    for (int i = 0; i < r->nviol; i++) if (hasTag(r->viol[i].props, p.property) || verbose) out.push_back({r->viol[i].kind + std::string(hasTag(r->viol[i].props, p.property) ? "" : std::string("(other:") + r->viol[i].props + ")"), r->viol[i].detail});
    if (p.property == "C03" && out.empty())
        for (auto &m : transcripts(r)) for (auto &t : m.second) {
            auto i = solo.find(m.first);
            if (i != solo.end() && i->second.substr(0, i->second.find('\n')) != t.substr(0, t.find('\n'))) { out.push_back({"interference", "task " + m.first + " behaves differently when others run: " + firstDiff(i->second, t)}); return out; }
        }
    return out;
}
static std::string js(const std::string &s) { std::string o = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
static Plan makePlan(const std::string &prop, uint64_t seed, uint64_t idx, rt::Result *r) {
    Plan p = genPlan(prop, seed, idx);
    if (wantsProbe(prop)) { Outcome o = runOne(p, r); if (o.ok) placeFaults(p, *r); }
    return planParse(planText(p)); // exactly what a replay file says
}
int main(int argc, char **argv) {
    // no address randomisation: not even an accidental dependence on addresses differs between runs
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("NLSIM_ASLR")) { setenv("NLSIM_ASLR", "1", 1); if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    // the real standard output is kept for this program: nothing the code under test prints gets between its lines
    int out = dup(1), null = open("/dev/null", O_WRONLY);
    if (out < 0 || null < 0) { perror("stdout"); return 2; }
    fcntl(out, F_SETFD, FD_CLOEXEC); dup2(null, 1); close(null);
    OUT = fdopen(out, "w");
    setvbuf(OUT, nullptr, _IOFBF, 1 << 16);
    char tn[] = "/tmp/nlsim.err.XXXXXX"; errFd = mkstemp(tn); if (errFd < 0) { perror("mkstemp"); return 2; } unlink(tn);
    fcntl(errFd, F_SETFD, FD_CLOEXEC);
    rt::zygote();
    rt::Result *r = shared();
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "gen" && argc >= 5) { Plan p = makePlan(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), r); fprintf(OUT, "%s", planText(p).c_str()); fflush(OUT); return 0; }
    if (cmd == "exec" && argc >= 3) {
        std::ifstream in(argv[2]); std::stringstream ss; ss << in.rdbuf();
        Plan p = planParse(ss.str()); verbose = getenv("NLSIM_VERBOSE") != nullptr;
        std::string h; auto f = check(p, r, nullptr, h);
        for (auto &x : f) fprintf(OUT, "V %s\t%s\n", x.kind.c_str(), x.detail.c_str());
        if (!h.empty()) fprintf(OUT, "H %s\n", h.c_str());
        fprintf(OUT, "R ticks=%llu state=%llx sched=%llx transcript=%llx nsw=%u\n", (unsigned long long)r->ticks, (unsigned long long)r->stateHash, (unsigned long long)r->schedHash, (unsigned long long)r->transcriptHash, r->nsw);
        if (getenv("NLSIM_SW")) { for (unsigned i = 0; i < r->nsw; i++) fprintf(OUT, "W %llu %d\n", (unsigned long long)r->sw[i].tick, r->sw[i].task); }
        if (getenv("NLSIM_TRACE")) for (auto &m : transcripts(r)) for (auto &t : m.second) fprintf(OUT, "--- %s\n%s", m.first.c_str(), t.c_str());
        if (getenv("NLSIM_DUMP")) for (auto &f : p.files) if (p.doc(f.doc)) fprintf(OUT, "=== %s\n%s\n", f.name.c_str(), applyDamage(render(*p.doc(f.doc)).bytes, f.damage).c_str());
        fflush(OUT);
        return !h.empty() ? 2 : f.empty() ? 0 : 1;
    }
    if (cmd == "shrink" && argc >= 5) { // nlsim shrink PLAN OUT SECONDS
        std::ifstream in(argv[2]); std::stringstream ss; ss << in.rdbuf();
        Plan p = planParse(ss.str()); double limit = atof(argv[4]); auto t0 = std::chrono::steady_clock::now(); size_t tries = 0;
        auto cls = [](const Found &f) { return f.kind + (f.kind == "crash" ? " " + f.detail.substr(0, f.detail.find(" at ")) : ""); };
        std::string h; auto f = check(p, r, nullptr, h);
        if (f.empty()) { fprintf(OUT, "N\n"); fflush(OUT); return 2; }
        std::string want = cls(f[0]);
        auto fails = [&](const Plan &q) {
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) throw OutOfTime();
            tries++; Plan c = q; std::string hh; auto g = check(c, r, nullptr, hh);
            for (auto &x : g) if (cls(x) == want) return true;
            return false;
        };
        if (p.tasks.size() > 1 && !p.explicitSched && r->nsw < rt::MAXSW) { // the schedule as a list of switches
            std::string dummy; check(p, r, nullptr, dummy);
            Plan q = p; q.explicitSched = true; q.switches.clear();
            for (unsigned i = 0; i < r->nsw; i++) q.switches.push_back({r->sw[i].tick, r->sw[i].task});
            try { if (fails(planParse(planText(q)))) p = q; } catch (OutOfTime &) {}
        }
        size_t n = shrinkPlan(p, fails);
        std::ofstream(argv[3]) << planText(p);
        fprintf(OUT, "M steps=%zu tries=%zu\n", n, tries); fflush(OUT);
        return 0;
    }
    if (cmd == "batch" && argc >= 9) {
        std::string prop = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), to = strtoull(argv[5], 0, 10), stride = strtoull(argv[6], 0, 10);
        double deadline = atof(argv[7]); std::string dir = argv[8]; bool hashes = getenv("NLSIM_HASH") != nullptr;
        rt::Result *agg = shared(); memset((void *)agg, 0, sizeof *agg);
        auto t0 = std::chrono::steady_clock::now(); uint64_t runs = 0, viol = 0, nontrivial = 0, faulty = 0; std::set<uint64_t> distinct, states, scheds; std::set<std::string> kinds;
        for (uint64_t i = from; i < to; i += stride) {
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline) break;
            Plan p = makePlan(prop, seed, i, r); std::string h;
            auto f = check(p, r, agg, h);
            runs++;
            bool nt = r->stats[rt::ST_NODES] > 0 || r->stats[rt::ST_OFFERS] > 0 || r->stats[rt::ST_IMPORT_FAIL] + r->stats[rt::ST_SORT_FAIL] + r->stats[rt::ST_LOAD_FAIL] > 0;
            uint64_t fl = 0; for (int k = 0; k <= rt::ST_NEST; k++) fl += r->stats[k]; fl += r->stats[rt::ST_XMLCTX] + r->stats[rt::ST_SWITCH] + r->stats[rt::ST_TRUNC];
            if (nt) { nontrivial++; distinct.insert(r->transcriptHash * 31 + r->schedHash); states.insert(r->stateHash); scheds.insert(r->schedHash); }
            if (fl) faulty++;
            if (hashes) fprintf(OUT, "X %llu %llx %llx %llx %llu\n", (unsigned long long)i, (unsigned long long)r->transcriptHash, (unsigned long long)r->schedHash, (unsigned long long)r->stateHash, (unsigned long long)r->ticks);
            if (!h.empty()) fprintf(OUT, "H %llu %s\n", (unsigned long long)i, h.c_str());
            for (auto &x : f) {
                viol++;
                std::string key = x.kind + (x.kind == "crash" ? x.detail.substr(0, x.detail.find(" at ")) : "");
                if (!kinds.insert(key).second && !getenv("NLSIM_ALL")) continue;
                std::string fn = dir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".plan";
                std::ofstream(fn) << planText(p);
                fprintf(OUT, "V %llu\t%s\t%s\t%s\n", (unsigned long long)i, fn.c_str(), x.kind.c_str(), x.detail.c_str());
            }
            fflush(OUT);
        }
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        size_t edges = 0; for (size_t i = 0; i < sizeof agg->edges; i++) edges += agg->edges[i];
        std::string hex; // coverage map as a bit string
        for (size_t i = 0; i < sizeof agg->edges; i += 4) { int v = agg->edges[i] | agg->edges[i + 1] << 1 | agg->edges[i + 2] << 2 | agg->edges[i + 3] << 3; hex += "0123456789abcdef"[v]; }
        fprintf(OUT, "S {\"runs\":%llu,\"nontrivial\":%llu,\"faulty\":%llu,\"violations\":%llu,\"seconds\":%.3f,\"ticks\":%llu,\"edges\":%zu,\"stats\":{", (unsigned long long)runs, (unsigned long long)nontrivial, (unsigned long long)faulty, (unsigned long long)viol, el, (unsigned long long)agg->ticks, edges);
        for (int i = 0; i < rt::ST_N; i++) fprintf(OUT, "%s%s:%llu", i ? "," : "", js(rt::statName[i]).c_str(), (unsigned long long)agg->stats[i]);
        auto list = [](const char *n, const std::set<uint64_t> &s) { fprintf(OUT, "],\"%s\":[", n); bool c = false; for (auto x : s) { fprintf(OUT, "%s\"%llx\"", c ? "," : "", (unsigned long long)x); c = true; } };
        fprintf(OUT, "},\"x\":["); list("distinct", distinct); list("scheds", scheds); list("states", states); fprintf(OUT, "],\"map\":\"%s\"}\n", hex.c_str());
        fflush(OUT);
        return 0;
    }
    fprintf(stderr, "usage\n");
    return 2;
}
