#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <libxml/parser.h>
#include <libxml/xmlerror.h>
#include <map>
#include <unistd.h>
#include <unordered_map>

static void xmlQuiet(void *, const char *, ...) {}
namespace rt {
const char *statName[ST_N] = {"alloc_fail", "open_error", "read_error", "read_eintr", "short_read", "missing_file", "damaged_file", "refused_node", "refused_reference",
    "nested_program", "task_switch", "xml_context_failure", "allocations", "reads", "opens", "ops", "import_ok", "import_failed", "sort_ok", "sort_failed",
    "load_ok", "load_failed", "nodes_checked", "offers", "callbacks", "extension_events", "retry_rounds", "late_acceptances", "success_after_failure", "repeated_sorts", "custom_types_checked",
    "oom_contained", "truncated_file"};
Result *R = nullptr;
thread_local TaskState *cur = nullptr;

struct Blk { size_t size; uint64_t seq; void *site; bool host; char frame[12]; long op; };
static std::unordered_map<void *, Blk> *blocks, *xblocks;
static uint64_t seq, junkSeed, runStartSeq;
static size_t liveBytes;
static Plan plan;
static uint64_t ticks, budget = 50000000, nextSwitch = ~0ull;
static bool schedOn, inRun;
static Rng schedRng(1);
static size_t switchPos;
static std::vector<TaskState *> tasks;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static TaskState *active;
static int activeParsers;
static bool allocFaultFired;
static uintptr_t prevPc;

void note(const std::string &l) {
    if (!cur || !cur->frame) return;
    cur->frame->transcript += l; cur->frame->transcript += '\n';
}
void violation(const std::string &props, const std::string &kind, const std::string &detail) {
    if (!R || R->nviol >= MAXV) return;
    for (int i = 0; i < R->nviol; i++) if (kind == R->viol[i].kind && props == R->viol[i].props) return;
    Violation &v = R->viol[R->nviol];
    snprintf(v.props, sizeof v.props, "%s", props.c_str());
    snprintf(v.kind, sizeof v.kind, "%s", kind.c_str());
    std::string d = detail;
    if (cur && cur->frame) d = "[" + cur->frame->name + " op " + std::to_string(cur->frame->op) + "] " + d;
    snprintf(v.detail, sizeof v.detail, "%s", d.c_str());
    R->nviol++;
}
bool anyAllocFault() { return allocFaultFired; }
void setBudget(uint64_t b) { budget = b; }

// ---- scheduling ----
static void waitTurn(TaskState *me) { // mx held
    while (active != me) pthread_cond_wait(&me->cv, &mx);
}
static void give(TaskState *to) { active = to; pthread_cond_signal(&to->cv); }
static void arm() {
    if (!schedOn) { nextSwitch = ~0ull; return; }
    if (plan.explicitSched) nextSwitch = switchPos < plan.switches.size() ? plan.switches[switchPos].first : ~0ull;
    else nextSwitch = ticks + 1 + schedRng.below((uint64_t)plan.schedMean * 2);
}
static void record(int task) {
    if (R->nsw < MAXSW) { R->sw[R->nsw].tick = ticks; R->sw[R->nsw].task = task; R->nsw++; }
    R->stats[ST_SWITCH]++;
    R->schedHash = (R->schedHash ^ (uint64_t)(task + 1)) * 1099511628211ull ^ (prevPc << 8);
}
static TaskState *pickRandom() {
    std::vector<TaskState *> r;
    for (auto t : tasks) if (!t->finished) r.push_back(t);
    return r.empty() ? nullptr : r[schedRng.below(r.size())];
}
static void maybeSwitch() {
    TaskState *me = cur, *to = nullptr;
    if (plan.explicitSched) {
        while (switchPos < plan.switches.size() && plan.switches[switchPos].first <= ticks) {
            int t = plan.switches[switchPos++].second;
            if (t >= 0 && t < (int)tasks.size() && !tasks[t]->finished) to = tasks[t];
        }
    } else if (R->nsw < MAXSW - 64) to = pickRandom();
    arm();
    if (!to || to == me) return;
    record(to->index);
    pthread_mutex_lock(&mx);
    give(to);
    waitTurn(me);
    pthread_mutex_unlock(&mx);
}
// A call into the host, the server or the allocator: a place to switch at, more often than others,
// as it ends a straight line of stores whose result the callee reads.
static void point() {
    TaskState *t = cur;
    if (!t || t->hostDepth > 0 || !inRun || !schedOn) return;
    ticks++;
    if (ticks >= nextSwitch || (!plan.explicitSched && plan.schedMean <= 300 && schedRng.below(24) == 0)) maybeSwitch();
}
static void yieldOther() { // used when a task would block on a lock held by another one
    TaskState *me = cur, *to = nullptr;
    for (size_t i = 1; i <= tasks.size(); i++) { TaskState *t = tasks[(me->index + i) % tasks.size()]; if (!t->finished && t != me) { to = t; break; } }
    if (!to) return;
    pthread_mutex_lock(&mx); give(to); waitTurn(me); pthread_mutex_unlock(&mx);
}
static void *threadMain(void *p) {
    TaskState *me = (TaskState *)p;
    cur = me;
    pthread_mutex_lock(&mx); waitTurn(me); pthread_mutex_unlock(&mx);
    xmlSetGenericErrorFunc(nullptr, xmlQuiet);
    me->fn();
    xmlResetLastError();
    pthread_mutex_lock(&mx);
    me->finished = true;
    TaskState *to = nullptr;
    if (plan.explicitSched) { // the switch recorded at this very tick, else the first runnable one
        if (switchPos < plan.switches.size() && plan.switches[switchPos].first <= ticks) {
            int t = plan.switches[switchPos++].second;
            if (t >= 0 && t < (int)tasks.size() && !tasks[t]->finished) to = tasks[t];
        }
        if (!to) for (auto t : tasks) if (!t->finished) { to = t; break; }
    } else to = schedOn ? pickRandom() : [&]() -> TaskState * { for (auto t : tasks) if (!t->finished) return t; return nullptr; }();
    if (to) { if (tasks.size() > 1) record(to->index); arm(); give(to); }
    else { active = nullptr; }
    pthread_mutex_unlock(&mx);
    return nullptr;
}
void runTasks(std::vector<std::function<void()>> fns) {
    tasks.clear();
    for (size_t i = 0; i < fns.size(); i++) {
        TaskState *t = new TaskState; t->index = (int)i; t->fn = fns[i];
        pthread_cond_init(&t->cv, nullptr);
        tasks.push_back(t);
    }
    schedOn = fns.size() > 1 && (plan.explicitSched || plan.schedMean > 0);
    schedRng = Rng(plan.schedSeed);
    switchPos = 0; ticks = 0; inRun = true;
    active = tasks.empty() ? nullptr : (schedOn && !plan.explicitSched ? pickRandom() : tasks[0]);
    if (schedOn && plan.explicitSched && !plan.switches.empty() && plan.switches[0].first == 0) { int t = plan.switches[0].second; if (t >= 0 && t < (int)tasks.size()) active = tasks[t]; switchPos = 1; }
    if (schedOn && !plan.explicitSched) record(active->index);
    arm();
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
    for (auto t : tasks) pthread_create(&t->th, &at, threadMain, t);
    for (auto t : tasks) pthread_join(t->th, nullptr);
    inRun = false;
    R->ticks = ticks;
}

// ---- virtual disk ----
static std::map<std::string, VFile> *files;
void setFile(const std::string &n, const VFile &f) { (*files)[n] = f; }
const VFile *getFile(const std::string &n) { auto i = files->find(n); return i == files->end() ? nullptr : &i->second; }
struct Cookie { std::string name, bytes; size_t pos = 0; long errUsed[16] = {0}; std::string owner; };
static std::map<FILE *, Cookie *> *handles;
size_t openFiles() { return handles->size(); }

static ssize_t ckRead(void *c, char *buf, size_t n) {
    Cookie *k = (Cookie *)c;
    R->stats[ST_READS]++;
    Frame *f = cur ? cur->frame : nullptr;
    if (f) f->reads++;
    size_t left = k->bytes.size() - k->pos;
    size_t m = std::min(n, left);
    int fi = -1;
    for (auto &x : plan.faults) {
        if (x.kind != "read") continue;
        fi++;
        if (!f || x.task != f->name || (x.op >= 0 && x.op != f->op)) continue;
        if (fi >= 16 || (x.n >= 0 && k->errUsed[fi] >= x.n)) continue;
        size_t at = (size_t)x.k;
        if (x.arg.compare(0, 3, "err") == 0) {
            if (at == k->pos || (at > k->bytes.size() && k->pos == k->bytes.size())) {
                k->errUsed[fi]++;
                errno = atoi(x.arg.c_str() + 4);
                if (errno == EINTR) { f->eintr = true; R->stats[ST_READ_EINTR]++; } else { f->ioErr = true; R->stats[ST_READ_ERR]++; }
                int e = errno; note("  read error " + std::to_string(e) + " at " + std::to_string(k->pos)); errno = e;
                return -1;
            }
            if (at > k->pos && at < k->pos + m) m = at - k->pos;
        } else { // short: deliver only up to offset k
            if (at > k->pos && at < k->pos + m) { m = at - k->pos; R->stats[ST_SHORT_READ]++; }
        }
    }
    memcpy(buf, k->bytes.data() + k->pos, m);
    k->pos += m;
    if (f) f->delivered = k->pos;
    return (ssize_t)m;
}
static int ckSeek(void *c, off64_t *off, int wh) {
    Cookie *k = (Cookie *)c;
    off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)k->pos : (off64_t)k->bytes.size();
    off64_t r = b + *off;
    if (r < 0) return -1;
    k->pos = std::min((size_t)r, k->bytes.size()); *off = (off64_t)k->pos;
    return 0;
}
static int ckClose(void *c) { delete (Cookie *)c; return 0; }

// ---- life cycle ----
struct XB { size_t n; uint64_t seq; };
static void *xm(size_t n) { void *p = malloc(n); if (p) { if (junkSeed) memset(p, 0xA5, n); (*xblocks)[p] = Blk{n, ++seq, nullptr, true, "", 0}; } return p; }
static pthread_mutex_t xmx = PTHREAD_MUTEX_INITIALIZER;
static void *xMalloc(size_t n) { pthread_mutex_lock(&xmx); void *p = xm(n); pthread_mutex_unlock(&xmx); return p; }
static void xFree(void *p) { if (!p) return; pthread_mutex_lock(&xmx); xblocks->erase(p); pthread_mutex_unlock(&xmx); free(p); }
static void *xRealloc(void *p, size_t n) {
    pthread_mutex_lock(&xmx);
    uint64_t s = ++seq; if (p) { auto i = xblocks->find(p); if (i != xblocks->end()) { s = i->second.seq; xblocks->erase(i); } }
    void *q = realloc(p, n);
    if (q) (*xblocks)[q] = Blk{n, s, nullptr, true, "", 0};
    pthread_mutex_unlock(&xmx);
    return q;
}
static char *xStrdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)xMalloc(n); if (p) memcpy(p, s, n); return p; }

void zygote() {
    blocks = new std::unordered_map<void *, Blk>; xblocks = new std::unordered_map<void *, Blk>;
    files = new std::map<std::string, VFile>; handles = new std::map<FILE *, Cookie *>;
    xmlMemSetup(xFree, xMalloc, xRealloc, xStrdup);
    xmlInitParser();
    xmlSetGenericErrorFunc(nullptr, xmlQuiet);
    for (const char *s : {"<?xml version='1.0' encoding='ISO-8859-1'?><a b='&amp;'>x</a>", "<a><b></a>"}) {
        xmlDocPtr d = xmlReadMemory(s, (int)strlen(s), "w", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
        if (d) xmlFreeDoc(d);
    }
    xmlResetLastError();
}
void begin(const Plan &p, Result *r) {
    plan = p; R = r; junkSeed = p.junk;
    blocks->clear(); files->clear(); handles->clear();
    runStartSeq = seq;
    allocFaultFired = false; ticks = 0; activeParsers = 0; prevPc = 0; liveBytes = 0;
    budget = 50000000;
    R->schedHash = 1469598103934665603ull;
}
size_t liveBlocks() { size_t n = 0; for (auto &b : *blocks) { (void)b; n++; } return n; }
std::string leakReport(size_t &n) {
    std::vector<std::pair<uint64_t, std::string>> v;
    for (auto &b : *blocks) {
        char t[160]; snprintf(t, sizeof t, "%zu bytes allocated by %p in %s op %ld", b.second.size, b.second.site, b.second.frame, b.second.op);
        v.push_back({b.second.seq, t});
    }
    n = v.size();
    std::sort(v.begin(), v.end());
    std::string o;
    for (size_t i = 0; i < v.size() && i < 6; i++) o += (i ? "; " : "") + v[i].second;
    return o;
}
void finish() {
    xmlCleanupParser();
    size_t xl = 0; size_t xb = 0;
    for (auto &b : *xblocks) if (b.second.seq > runStartSeq) { xl++; xb += b.second.size; }
    if (xl) violation(allocFaultFired ? "C08" : "C07", "xml-leak", "XML parser memory still allocated after everything was deleted (" + std::to_string(xl > 40 ? 40 : xl) + (xl > 40 ? "+" : "") + " blocks)");
    if (!handles->empty()) violation(allocFaultFired ? "C08" : "C07", "file-leak", std::to_string(handles->size()) + " file handle(s) still open after everything was deleted");
    size_t n; std::string l = leakReport(n);
    if (n) violation(allocFaultFired ? "C08" : "C07", "leak", std::to_string(n) + " block(s) still allocated after everything was deleted: " + l);
}
static bool faultHere(const char *kind, uint64_t k) {
    Frame *f = cur->frame;
    if (!f) return false;
    for (auto &x : plan.faults)
        if (x.kind == kind && x.task == f->name && (x.op < 0 || x.op == f->op) && (long)k >= x.k && (x.n < 0 || (long)k < x.k + x.n)) return true;
    return false;
}
// The call path of an allocation; one of its occurrences is remembered, each with the same probability
extern "C" char __executable_start, etext;
static __attribute__((noinline)) void noteSite(uint64_t k) {
    uint64_t h = 1469598103934665603ull;
    uintptr_t *fp = (uintptr_t *)__builtin_frame_address(0);
    for (int i = 0; i < 7; i++) {
        uintptr_t ret = fp[1];
        if (ret < (uintptr_t)&__executable_start || ret >= (uintptr_t)&etext) break;
        if (i > 1) h = (h ^ ret) * 1099511628211ull;
        fp = (uintptr_t *)fp[0];
    }
    Frame *f = cur->frame;
    for (char c : f->name) h = (h ^ (unsigned char)c) * 1099511628211ull;
    h = ((h ^ (uint64_t)f->op) * 0x9E3779B97F4A7C15ull) | 1;
    for (unsigned i = (unsigned)(h >> 40), n = 0; n < 64; i++, n++) {
        auto &s = R->sites[i % MAXSITE];
        if (s.key && s.key != h) continue;
        if (!s.key) { s.key = h; s.op = (int)f->op; snprintf(s.task, sizeof s.task, "%s", f->name.c_str()); }
        s.count++;
        uint64_t z = (h ^ s.count) * 0xD6E8FEB86659FD93ull; z ^= z >> 32; z *= 0xD6E8FEB86659FD93ull; z ^= z >> 29;
        if (z % s.count == 0) s.pick = (uint32_t)k;
        return;
    }
}
static void *allocImpl(size_t n, bool zero, void *site) {
    if (!blocks) return zero ? calloc(1, n) : malloc(n);
    bool host = !cur || cur->hostDepth > 0;
    if (!host) {
        point();
        R->stats[ST_ALLOCS]++;
        uint64_t k = cur->frame->allocs++;
        noteSite(k);
        if (faultHere("alloc", k)) {
            R->stats[ST_ALLOC_FAIL]++; cur->frame->faulted = true; allocFaultFired = true;
            errno = ENOMEM;
            return nullptr;
        }
        if (n > (1u << 30) || liveBytes + n > (3u << 30)) { errno = ENOMEM; return nullptr; }
    }
    void *p = zero ? calloc(1, n) : malloc(n);
    if (!p) return nullptr;
    if (!zero) { uint64_t z = junkSeed | 1; unsigned char *c = (unsigned char *)p; for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) z = z * 6364136223846793005ull + 1442695040888963407ull + seq; c[i] = (unsigned char)((z >> (8 * (i & 7))) | 1); } }
    Blk b{n, ++seq, site, host, "", cur && cur->frame ? cur->frame->op : -1};
    snprintf(b.frame, sizeof b.frame, "%s", cur && cur->frame ? cur->frame->name.c_str() : "-");
    (*blocks)[p] = b; liveBytes += n;
    return p;
}
} // namespace rt
using namespace rt;

extern "C" {
void sim_host_enter(void) { point(); if (cur) cur->hostDepth++; }
void sim_host_leave(void) { if (cur) cur->hostDepth--; }
void *sim_malloc(size_t n) { return allocImpl(n, false, __builtin_return_address(0)); }
void *sim_calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return allocImpl(n, true, __builtin_return_address(0));
}
void sim_free(void *p) {
    if (!p) return;
    if (blocks) { auto i = blocks->find(p); if (i != blocks->end()) { liveBytes -= i->second.size; blocks->erase(i); } }
    free(p);
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return allocImpl(n, false, __builtin_return_address(0));
    if (n == 0) { sim_free(p); return nullptr; }
    size_t old = 0; bool known = false;
    if (blocks) { auto i = blocks->find(p); if (i != blocks->end()) { old = i->second.size; known = true; } }
    if (!known) return realloc(p, n); // not ours (or freed): the sanitizer decides
    void *q = allocImpl(n, false, __builtin_return_address(0));
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    sim_free(p);
    return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)allocImpl(n, false, __builtin_return_address(0)); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)allocImpl(n + 1, false, __builtin_return_address(0)); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

FILE *sim_fopen(const char *path, const char *mode) {
    R->stats[ST_OPENS]++;
    std::string name(path ? path : "");
    if (name.compare(0, 5, "/sim/") == 0) name = name.substr(5);
    auto it = files->find(name);
    Frame *f = cur ? cur->frame : nullptr;
    if (f) f->opened = true;
    if (f) for (auto &x : plan.faults)
        if (x.kind == "open" && x.task == f->name && (x.op < 0 || x.op == f->op)) { R->stats[ST_OPEN_FAIL]++; f->ioErr = true; errno = atoi(x.arg.c_str()); return nullptr; }
    if (it == files->end() || it->second.missing) { R->stats[ST_MISSING]++; errno = ENOENT; return nullptr; }
    if (it->second.openErr) { R->stats[ST_OPEN_FAIL]++; errno = it->second.openErr; return nullptr; }
    Cookie *c = new Cookie; c->name = name; c->bytes = it->second.bytes; c->owner = f ? f->name : "";
    cookie_io_functions_t io = {ckRead, nullptr, ckSeek, ckClose};
    FILE *fp = fopencookie(c, mode && *mode ? "r" : "r", io);
    (*handles)[fp] = c;
    return fp;
}
int sim_fclose(FILE *f) {
    if (f == stdout || f == stderr) return 0;
    auto i = handles->find(f);
    if (i == handles->end()) { violation("C07", "double-close", "a file handle is closed that is not open"); return EOF; }
    handles->erase(i);
    return fclose(f);
}
int sim_printf(const char *fmt, ...) { va_list a; va_start(a, fmt); char b[512]; int r = vsnprintf(b, sizeof b, fmt, a); va_end(a); return r; }
int sim_vprintf(const char *fmt, va_list a) { char b[512]; return vsnprintf(b, sizeof b, fmt, a); }
int sim_fprintf(FILE *, const char *fmt, ...) { va_list a; va_start(a, fmt); char b[512]; int r = vsnprintf(b, sizeof b, fmt, a); va_end(a); return r; }
int sim_vfprintf(FILE *, const char *fmt, va_list a) { char b[512]; return vsnprintf(b, sizeof b, fmt, a); }
int sim_puts(const char *s) { return (int)strlen(s); }
int sim_putchar(int c) { return c; }
int sim_fputs(const char *s, FILE *) { return (int)strlen(s); }
int sim_fputc(int c, FILE *) { return c; }
size_t sim_fwrite(const void *, size_t, size_t m, FILE *) { return m; }
int sim_fflush(FILE *) { return 0; }

int sim_pthread_mutex_lock(pthread_mutex_t *m) {
    for (long i = 0;; i++) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        if (i > 100000) { violation("C03,C09", "deadlock", "a lock is never released"); R->hang = 1; _exit(97); }
        yieldOther();
    }
}
int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) {
    static std::map<pthread_once_t *, int> *st; if (!st) st = new std::map<pthread_once_t *, int>;
    int &s = (*st)[o];
    if (s == 0) { s = 1; fn(); s = 2; return 0; }
    while (s == 1) yieldOther();
    return 0;
}
void sim_xmlCleanupParser(void) {
    if (activeParsers > 0) { violation("C03", "xml-cleanup-while-parsing", "the XML library's global state is torn down while another import is parsing"); return; }
    /* the process hosts other users of the library: tearing it down is left to them; calling the real one here would be
       legal only because nobody parses, and re-initialisation is automatic */
    xmlCleanupParser();
    xmlInitParser();
    xmlSetGenericErrorFunc(nullptr, xmlQuiet);
}
xmlParserCtxtPtr sim_xmlCreatePushParserCtxt(xmlSAXHandlerPtr sax, void *ud, const char *chunk, int size, const char *fn) {
    Frame *f = cur ? cur->frame : nullptr;
    if (f && cur->hostDepth == 0) for (auto &x : plan.faults)
        if (x.kind == "xmlctx" && x.task == f->name && (x.op < 0 || x.op == f->op)) { R->stats[ST_XMLCTX]++; f->faulted = true; allocFaultFired = true; return nullptr; }
    activeParsers++;
    xmlParserCtxtPtr c = xmlCreatePushParserCtxt(sax, ud, chunk, size, fn);
    if (!c) activeParsers--;
    return c;
}
void sim_xmlFreeParserCtxt(xmlParserCtxtPtr c) { if (c) activeParsers--; xmlFreeParserCtxt(c); }

void __sanitizer_cov_trace_pc(void) {
    TaskState *t = cur;
    if (!t || t->hostDepth > 0 || !inRun) return;
    ticks++;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    uintptr_t e = (pc ^ (prevPc >> 1)) * 0x9E3779B97F4A7C15ull;
    R->edges[e >> 48] = 1;
    prevPc = pc;
    if (ticks >= budget) {
        R->hang = 1; R->ticks = ticks;
        _exit(97);
    }
    if (ticks >= nextSwitch) maybeSwitch();
}
}
