#include "exec_int.h"
extern "C" {
#include "CharAllocator.h"
#include "nodes/NodeContainer.h"
}
#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <libxml/parser.h>
#include <libxml/tree.h>

const Plan *gPlan;
static std::map<std::string, FileInfo *> gFiles;
void record(const std::string &s) { rt::note(s); rt::R->stateHash = hashStr(s, rt::R->stateHash); }
std::string join(const std::string &a, const std::string &b) {
    std::set<std::string> s; std::string o;
    for (auto &x : {a, b}) { size_t i = 0; while (i < x.size()) { size_t e = x.find(',', i); if (e == std::string::npos) e = x.size(); if (e > i) s.insert(x.substr(i, e - i)); i = e + 1; } }
    for (auto &x : s) o += (o.empty() ? "" : ",") + x;
    return o;
}
FileInfo *fileInfo(const std::string &name) { auto i = gFiles.find(name); return i == gFiles.end() ? nullptr : i->second; }
const ExtObj *Group::extOf(size_t node) const {
    if (!extOn || node >= doc.nodes.size() || !doc.nodes[node].nExt) return nullptr;
    size_t n = 0;
    for (size_t i = 0; i <= node; i++) n += (size_t)doc.nodes[i].nExt;
    return n <= exts.size() ? exts[n - 1] : nullptr;
}

// ---- what an XML processor says about damaged bytes ----
static void domSay(const std::string &b, bool push, bool &wf, bool &clean) {
    xmlParserCtxtPtr c;
    if (!push) {
        c = xmlNewParserCtxt();
        xmlDocPtr d = xmlCtxtReadMemory(c, b.data(), (int)b.size(), "f", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
        if (d && d != c->myDoc) xmlFreeDoc(d);
    } else {
        c = xmlCreatePushParserCtxt(nullptr, nullptr, b.data(), (int)std::min<size_t>(4, b.size()), nullptr);
        xmlCtxtUseOptions(c, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
        for (size_t i = 4; i < b.size(); i += 1024) xmlParseChunk(c, b.data() + i, (int)std::min<size_t>(1024, b.size() - i), 0);
        xmlParseChunk(c, "", 0, 1);
    }
    wf = c->wellFormed; clean = wf && c->nsWellFormed && c->errNo == 0;
    if (c->myDoc) { xmlFreeDoc(c->myDoc); c->myDoc = nullptr; }
    xmlFreeParserCtxt(c);
}
static FileInfo *makeFile(const Plan &p, const File &f) {
    FileInfo *i = new FileInfo; i->f = &f; i->d = p.doc(f.doc);
    if (f.missing || f.openErr || !i->d) { i->want = FileInfo::FALSE_; return i; }
    i->r = render(*i->d); i->bytes = applyDamage(i->r.bytes, f.damage);
    bool hostile = false;
    for (auto &d : f.damage) if (d.kind == "none") hostile = true;
    i->exact = !hostile && i->bytes == i->r.bytes;
    i->prefix = !hostile && i->bytes.size() <= i->r.bytes.size() && i->r.bytes.compare(0, i->bytes.size(), i->bytes) == 0;
    bool deep = false; // the reader has other limits than the parser the loader uses
    for (auto &d : f.damage) deep |= d.kind == "deep" && d.b > 200;
    if (i->exact) i->want = FileInfo::TRUE_;
    else if (deep) i->want = FileInfo::ANY;
    else if (i->bytes.size() < 4) i->want = FileInfo::FALSE_;
    else if (i->bytes.find("<!D") != std::string::npos || i->bytes.find("<!E") != std::string::npos || i->bytes.find("DOCTYPE") != std::string::npos) i->want = FileInfo::ANY;
    else {
        bool w1, c1, w2, c2;
        domSay(i->bytes, false, w1, c1); domSay(i->bytes, true, w2, c2);
        i->want = c1 && c2 ? FileInfo::TRUE_ : !w1 && !w2 ? FileInfo::FALSE_ : FileInfo::ANY;
        xmlResetLastError();
    }
    if (!i->exact) rt::R->stats[i->prefix ? rt::ST_TRUNC : rt::ST_DAMAGE]++;
    return i;
}

// ---- host side callbacks ----
static Exec *me() { return cur && cur->frame ? (Exec *)cur->frame->exec : nullptr; }
static void runNested(const Task *t) {
    Exec *up = me();
    if (!t || up->depth >= 3) return;
    rt::R->stats[rt::ST_NEST]++;
    Exec e; e.task = t; e.depth = up->depth + 1;
    rt::Frame *f = cur->frame;
    e.frame.name = t->name; e.frame.exec = &e; e.frame.up = f;
    cur->frame = &e.frame;
    e.run();
    cur->frame = f;
}
void fireEvent() {
    rt::R->stats[rt::ST_CALLBACKS]++;
    rt::Frame *f = cur->frame;
    uint64_t k = f->events++;
    if (!gPlan->solo.empty()) return;
    for (auto &x : gPlan->faults)
        if (x.kind == "nest" && x.task == f->name && x.op == f->op && (uint64_t)x.k == k) runNested(gPlan->task(x.arg));
}
void logCb(void *ctx, NodesetLoader_LogLevel lvl, const char *msg, ...) {
    rt::Host h;
    char b[1024]; va_list a; va_start(a, msg); vsnprintf(b, sizeof b, msg, a); va_end(a);
    Exec *e = (Exec *)ctx;
    if (e != me()) { violation("C03", "log-wrong-context", "a log message reached another program's logger"); return; }
    if (lvl == NODESETLOADER_LOGLEVEL_ERROR) { e->errors++; e->lastError = b; }
    else if (lvl == NODESETLOADER_LOGLEVEL_WARNING) e->warnings++;
    record("  log " + std::to_string((int)lvl) + " " + b);
    fireEvent();
}
static unsigned short addNsOf(int which, void *ctx, const char *uri) {
    rt::Host h;
    Exec *e = me(); bool ours = false;
    for (auto &c : e->impCtx) if (&c == ctx) ours = true;
    if (!ours) { violation("C03,C11", "ns-wrong-context", "addNamespace called with another program's user context"); return 0; }
    if (((ImpCtx *)ctx)->serial != e->call.serial) violation("C11", "ns-old-context", "addNamespace called with the user context of another import");
    if (which != e->call.cb) violation("C03,C11", "ns-wrong-callback", "a namespace was reported to the callback of an earlier import");
    std::string u = uri ? uri : "";
    if (!uri) e->call.nullUri = true;
    auto i = e->nsReg.find(u);
    unsigned idx;
    if (i != e->nsReg.end()) idx = i->second;
    else { idx = e->nsNext; e->nsNext += e->nsStep; e->nsReg[u] = idx; }
    e->call.uris.push_back(u); e->call.idx.push_back(idx);
    record("  ns " + u + " " + std::to_string(idx));
    fireEvent();
    return (unsigned short)idx;
}
static unsigned short addNs(void *ctx, const char *uri) { return addNsOf(0, ctx, uri); }
static unsigned short addNs2(void *ctx, const char *uri) { return addNsOf(1, ctx, uri); }
static void *extNew(void) {
    rt::Host h; Exec *e = me();
    ExtObj *o = new ExtObj; o->serial = (int)e->extObjs.size();
    e->extObjs.push_back(o);
    e->extLog.push_back({{'n', "", {}, ""}, o->serial});
    rt::R->stats[rt::ST_EXT_EVENTS]++;
    fireEvent();
    return o;
}
static ExtObj *extArg(void *p, const char *what) {
    Exec *e = me();
    for (auto o : e->extObjs) if (o == p) { if (o->finished) e->extErr.push_back(std::string(what) + " after finish"); return o; }
    e->extErr.push_back(std::string(what) + " with an object newExtension did not return");
    return nullptr;
}
static void extPush(ExtObj *o, ExtEv ev) {
    Exec *e = me();
    rt::R->stats[rt::ST_EXT_EVENTS]++;
    if (o) e->extLog.push_back({ev, o->serial});
    std::string t = std::string("  ext ") + ev.kind + " " + ev.name + " " + ev.text; for (auto &a : ev.attrs) t += " " + a.first + "=" + a.second;
    record(t);
    fireEvent();
}
static void extStart(void *p, const char *name, int n, const char **at) {
    rt::Host h; ExtObj *o = extArg(p, "start"); ExtEv ev{'s', name ? name : "", {}, ""};
    for (int i = 0; i < n; i++) ev.attrs.push_back({at[i * 5], std::string(at[i * 5 + 3], at[i * 5 + 4])});
    std::sort(ev.attrs.begin(), ev.attrs.end());
    extPush(o, ev);
}
static void extEnd(void *p, const char *name, const char *val) { rt::Host h; ExtObj *o = extArg(p, "end"); extPush(o, {'e', name ? name : "", {}, val ? val : ""}); }
static void extFinish(void *p) { rt::Host h; ExtObj *o = extArg(p, "finish"); if (o) o->finished = true; extPush(o, {'f', "", {}, ""}); }
NodesetLoader_ExtensionInterface gExt = {nullptr, extNew, extStart, extEnd, extFinish};

void Exec::checkExt(const std::vector<ExtEv> &full, bool prefixOk, bool on) {
    for (auto &s : extErr) violation("C13", "ext-object", s);
    extErr.clear();
    std::vector<ExtRec> got(extLog.begin() + (long)extOpStart, extLog.end());
    if (!on && !got.empty()) { violation("C13", "ext-uninvited", "extension handler called although none was given"); return; }
    if (!on) return;
    int serial = got.empty() ? 0 : got[0].serial - 1;
    auto show = [](const ExtEv &e) { std::string t = std::string(1, e.kind) + " " + e.name + " '" + e.text + "'"; for (auto &a : e.attrs) t += " " + a.first + "='" + a.second + "'"; return t; };
    for (size_t i = 0; i < got.size(); i++) {
        if (i >= full.size()) { violation("C13", "ext-extra", "unexpected extension event " + show(got[i].ev)); return; }
        ExtEv want = full[i]; std::sort(want.attrs.begin(), want.attrs.end());
        if (want.kind == 'n') serial = got[i].serial > serial ? got[i].serial : -2;
        const ExtEv &g = got[i].ev;
        if (g.kind != want.kind || g.name != want.name || g.attrs != want.attrs || g.text != want.text) { violation("C13", "ext-event", "extension event " + std::to_string(i) + " is " + show(g) + ", expected " + show(want)); return; }
        if (got[i].serial != serial) { violation("C13", "ext-wrong-object", "extension event " + show(g) + " delivered with another extension's object"); return; }
    }
    if (got.size() < full.size() && !prefixOk) violation("C13", "ext-missing", "extension event missing: " + show(full[got.size()]));
}

// ---- host reference service ----
static const Id HASSUBTYPE = Id::n0(45);
static bool svcHier(void *c, const NL_Reference *r) { rt::Host h; LoaderObj *L = (LoaderObj *)c; return L->hier.count(Id::of(r->refType)) > 0; }
static bool svcNon(void *c, const NL_Reference *r) { rt::Host h; LoaderObj *L = (LoaderObj *)c; Id t = Id::of(r->refType); return !L->hier.count(t) && ((t.ns == 0 && !(L->late && !L->sorting)) || L->known.count(t)); }
static bool svcTd(void *, const NL_Reference *r) { rt::Host h; return Id::of(r->refType) == Id::n0(40); }
static void svcAdd(void *c, const NL_ReferenceTypeNode *n) {
    rt::Host h; LoaderObj *L = (LoaderObj *)c;
    Id id = Id::of(n->id); bool hr = false;
    for (const NL_Reference *r : {n->hierachicalRefs, n->nonHierachicalRefs, n->unknownRefs})
        for (; r; r = r->next) if (!r->isForward && Id::of(r->refType) == HASSUBTYPE && L->hier.count(Id::of(r->target))) hr = true;
    L->known.insert(id);
    if (hr) L->hier.insert(id);
    fireEvent();
}

// ---- executor ----
static std::string tagsOr(const std::string &t, const std::string &more) { return join(t, more); }
std::string Exec::ctxTags(const LoaderObj *L) const {
    std::string t;
    if (L->failedBefore) t = join(t, "C10");
    if (L->oomBefore || frame.faulted) t = join(t, "C08");
    return t;
}
void Exec::opNew(const Op &op) {
    if (loaders.count(op.obj)) return;
    LoaderObj *L = new LoaderObj; L->ex = this;
    L->host = op.get("svc") == "host" || op.get("svc") == "late"; L->late = op.get("svc") == "late";
    L->logger.context = this; L->logger.log = logCb;
    L->hier = internalHier();
    L->svc = NL_ReferenceService{L, svcHier, svcNon, svcTd, svcAdd};
    bool ownLog = op.get("log") != "none";
    { rt::Lib g; L->l = NodesetLoader_new(ownLog ? &L->logger : nullptr, L->host ? &L->svc : nullptr); }
    record(std::string("new ") + (L->l ? "ok" : "null"));
    if (!L->l) { if (!frame.faulted) violation("C01", "new-null", "NodesetLoader_new failed without a reason"); delete L; return; }
    if (!ownLog) L->logger.context = nullptr;
    loaders[op.obj] = L;
}
void Exec::opImport(const Op &op) {
    auto it = loaders.find(op.obj);
    FileInfo *fi = fileInfo(op.arg);
    if (it == loaders.end() || !fi) return;
    LoaderObj *L = it->second;
    bool ext = op.num("ext", 1);
    call = CallCtx(); extOpStart = extLog.size();
    size_t extObj0 = extObjs.size();
    NL_FileContext fc; memset(&fc, 0, sizeof fc);
    std::string path = "/sim/" + op.arg;
    impCtx.push_back({this, (int)impCtx.size() + 1}); call.serial = impCtx.back().serial; fc.userContext = &impCtx.back(); fc.file = path.c_str(); call.cb = (int)(L->nImports++ % 3 == 1); fc.addNamespace = call.cb ? addNs2 : addNs; fc.extensionHandling = ext ? &gExt : nullptr;
    bool ok; { rt::Lib g; ok = NodesetLoader_importFile(L->l, &fc); }
    record(std::string("import ") + op.arg + (ok ? " ok" : " failed") + " ns=" + std::to_string(call.uris.size()));
    rt::R->stats[ok ? rt::ST_IMPORT_OK : rt::ST_IMPORT_FAIL]++;
    bool faulted = frame.faulted, first = !L->everImported; (void)first;
    L->everImported = true;
    std::string ct = ctxTags(L);
    // result
    if (ok && frame.ioErr) violation(tagsOr("C01", ct), "import-true-unreadable", "import reported success although the file could not be read to its end (" + op.arg + ")");
    else if (ok && fi->want == FileInfo::FALSE_) violation(tagsOr("C01", ct), "import-true-malformed", "import reported success for a " + std::string(fi->f->missing || fi->f->openErr ? "file that cannot be opened" : "file that is not well-formed") + " (" + op.arg + ", " + std::to_string(fi->bytes.size()) + " bytes)");
    else if (ok && frame.delivered < fi->bytes.size() && fi->want != FileInfo::ANY) violation(tagsOr("C01", ct), "import-true-incomplete", "import reported success after reading " + std::to_string(frame.delivered) + " of " + std::to_string(fi->bytes.size()) + " bytes");
    else if (!ok && fi->want == FileInfo::TRUE_ && !faulted && !frame.ioErr && !frame.eintr) violation(tagsOr("C01", ct), "import-false", "import of a readable well-formed file failed (" + op.arg + "): " + lastError);
    if (!ok && !faulted && !errors && L->logger.context) violation("C01", "import-silent", "import failed without an error-level log message");
    if (frame.opened == false && fi->want == FileInfo::TRUE_ && ok) violation("C01", "import-unopened", "import reported success without opening the file");
    // namespaces
    const Doc *d = fi->d;
    std::vector<unsigned> ns{0}; for (auto i : call.idx) ns.push_back(i);
    if (d && !(fi->f->missing || fi->f->openErr) && (fi->exact || fi->prefix)) {
        Group g; g.fi = fi; g.doc = expectDoc(*d, ns, &fi->r);
        size_t avail = (size_t)frame.delivered;
        size_t maxUri = 0, minUri = g.doc.uris.size();
        for (size_t e : g.doc.uriEnd) if (e <= avail) maxUri++;
        if (!ok) minUri = 0;
        for (size_t i = 0; i < call.uris.size(); i++)
            if (i >= g.doc.uris.size() || call.uris[i] != g.doc.uris[i]) { violation(tagsOr("C11", ct), "uri-wrong", "addNamespace call " + std::to_string(i) + " got '" + call.uris[i] + "', the file says '" + (i < g.doc.uris.size() ? g.doc.uris[i] : "(none)") + "'"); break; }
        if (call.uris.size() < minUri) violation(tagsOr("C11", ct), "uri-missing", "addNamespace was called " + std::to_string(call.uris.size()) + " times for " + std::to_string(minUri) + " namespaces");
        if (call.uris.size() > maxUri) violation(tagsOr("C11", ct), "uri-early", "more namespaces registered than were read");
        if (call.nullUri) violation(tagsOr("C11,C09", ct), "uri-null", "addNamespace called with a null uri");
        g.kmax = 0; for (size_t e : g.doc.nodeEnd) if (e <= avail) g.kmax++;
        if (ok) { g.kmin = g.kmax = g.doc.nodes.size(); } else { g.kmin = 0; g.failed = true; }
        if (g.doc.uris.size() != call.uris.size() && ok) {} // reported above
        std::vector<ExtEv> full; for (auto &x : g.doc.exts) full.insert(full.end(), x.begin(), x.end());
        checkExt(full, !ok, ext);
        g.extOn = ext;
        for (size_t i = extObj0; i < extObjs.size(); i++) g.exts.push_back(extObjs[i]);
        L->groups.push_back(g);
    } else if (d && !(fi->f->missing || fi->f->openErr)) { L->dirty = true; for (auto &s : extErr) violation("C13", "ext-object", s); extErr.clear(); }
    else if (!call.uris.empty()) violation("C11", "uri-nofile", "addNamespace called although the file could not be opened");
    if (ok && L->failedBefore) rt::R->stats[rt::ST_FAIL_THEN_OK]++;
    if (!ok) { L->failedBefore = true; if (!faulted) {} }
    if (faulted) { L->oomBefore = true; rt::R->stats[rt::ST_OOM_CONTAINED]++; }
    L->sorted = false;
    L->murky = L->murkyNext;
}
namespace {
struct Combo { std::vector<size_t> k; };
typedef std::map<Id, std::pair<const Group *, size_t>> Accepted;
}
static bool nextCombo(const LoaderObj *L, std::vector<size_t> &k) {
    for (size_t i = 0; i < k.size(); i++) {
        if (k[i] < L->groups[i].kmax) { k[i]++; return true; }
        k[i] = L->groups[i].kmin;
    }
    return false;
}
static size_t comboCount(const LoaderObj *L) { size_t n = 1; for (auto &g : L->groups) { n *= g.kmax - g.kmin + 1; if (n > 100000) break; } return n; }
static Accepted accepted(const LoaderObj *L, const std::vector<size_t> &k) {
    Accepted a;
    for (size_t i = 0; i < L->groups.size(); i++)
        for (size_t j = 0; j < k[i]; j++) a.insert({L->groups[i].doc.nodes[j].id, {&L->groups[i], j}});
    return a;
}
static Graph graphOf(const LoaderObj *L, const Accepted &a) {
    std::vector<const ENode *> v; for (auto &p : a) v.push_back(&p.second.first->doc.nodes[p.second.second]);
    (void)L;
    return analyse(v, internalHier(), {}, true);
}
enum { MAXCOMBO = 400 };
void Exec::opSort(const Op &op) {
    auto it = loaders.find(op.obj); if (it == loaders.end()) return;
    LoaderObj *L = it->second;
    bool again = L->lastSort;
    L->epoch++;
    bool ok; L->sorting = true; { rt::Lib g; ok = NodesetLoader_sort(L->l); } L->sorting = false;
    record(std::string("sort ") + (ok ? "ok" : "failed"));
    rt::R->stats[ok ? rt::ST_SORT_OK : rt::ST_SORT_FAIL]++;
    if (again) rt::R->stats[rt::ST_RESORT]++;
    L->sorted = true; L->lastSort = ok; L->nSorts++;
    std::string ct = ctxTags(L);
    if (frame.faulted) L->oomBefore = true;
    if (!ok && frame.faulted) { return; }
    if (!ok && !errors && L->logger.context && L->everImported) violation("C01", "sort-silent", "sort failed without an error-level log message");
    if (!L->everImported || L->dirty || comboCount(L) > MAXCOMBO) return;
    bool canOk = false, canFail = false; Graph gg;
    std::vector<size_t> k; for (auto &g : L->groups) k.push_back(g.kmin);
    do {
        Accepted a = accepted(L, k); Graph g = graphOf(L, a); (g.ok() ? canOk : canFail) = true; gg = g;
        if (g.cycleSoft) canFail = true;
        for (auto &p : a) {
            const ENode &n = p.second.first->doc.nodes[p.second.second];
            if (n.cls == NODECLASS_REFERENCETYPE) for (auto &r : n.refs) if (!r.fwd && r.type == HASSUBTYPE && r.target.ns != 0 && !a.count(r.target)) L->murkyNext = true;
        }
    } while (nextCombo(L, k));
    if (L->murky) return;
    if (ok && !canOk) violation(tagsOr("C04", ct), gg.cycle ? "sort-true-cycle" : "sort-true-unresolved", gg.cycle ? "sort reported success although hierarchical references form a cycle" : "sort reported success although a reference type cannot be resolved");
    if (!ok && !canFail) violation(tagsOr("C04", ct), "sort-false", "sort of resolvable, acyclic nodes failed: " + lastError);
}
static std::string refSet(std::vector<ERef> v) { std::sort(v.begin(), v.end()); std::string o; for (auto &r : v) o += r.text() + ", "; return o.size() > 400 ? o.substr(0, 400) : o; }
// "" = the delivered references are the ones of the file
static std::string diffRefs(const ENode &e, const ENode &g, const Graph &gr, const Accepted &acc, bool murky, bool resorted) { // resorted: a link to a parent that was not there yet is a component
    if (!g.refs.empty()) return "references left unclassified: " + refSet(g.refs);
    if (!murky) for (auto &r : g.hier) if (!gr.hierTypes.count(r.type) && !gr.softTypes.count(r.type)) return "non-hierarchical reference " + r.text() + " delivered as hierarchical";
    if (!murky) for (auto &r : g.nonhier) if (gr.hierTypes.count(r.type)) return "hierarchical reference " + r.text() + " delivered as non-hierarchical";
    std::multiset<ERef> want(e.refs.begin(), e.refs.end()), have(g.hier.begin(), g.hier.end());
    have.insert(g.nonhier.begin(), g.nonhier.end());
    std::multiset<ERef> extra = have, missing = want;
    for (auto &r : want) { auto i = extra.find(r); if (i != extra.end()) extra.erase(i); }
    for (auto &r : have) { auto i = missing.find(r); if (i != missing.end()) missing.erase(i); }
    if (!missing.empty()) return "reference lost: " + missing.begin()->text();
    bool soft = false, anyInv = false;
    for (auto &r : e.refs) if (!r.fwd) { if (gr.softTypes.count(r.type)) soft = true; else if (gr.hierTypes.count(r.type)) anyInv = true; }
    bool inst = e.f.count("parent") && !e.parent.isNull();
    bool must = inst && !anyInv && !soft && !murky, may = inst && (!anyInv || murky);
    std::set<Id> types;
    auto p = acc.find(e.parent);
    if (p != acc.end()) for (auto &r : p->second.first->doc.nodes[p->second.second].refs) if (r.target == e.id && r.fwd && gr.hierTypes.count(r.type)) types.insert(r.type);
    if (types.empty() || murky || resorted) types.insert(Id::n0(47));
    if (!extra.empty() && may) {
        const ERef &x = *extra.begin();
        if (!x.fwd && x.target == e.parent && types.count(x.type)) { extra.erase(extra.begin()); must = false; }
    }
    if (!extra.empty()) return "reference invented: " + extra.begin()->text();
    if (must) return "no reference to the parent named by ParentNodeId";
    if (refSet(e.td) != refSet(g.td)) return "type definition [" + refSet(g.td) + "] instead of [" + refSet(e.td) + "]";
    return "";
}
namespace { struct WalkCtx { Exec *e; std::vector<NL_Node *> v; int cls; }; }
static void walkCb(void *c, NL_Node *n) { rt::Host h; WalkCtx *w = (WalkCtx *)c; w->v.push_back(n); if (w->v.size() < 64) fireEvent(); }
void Exec::opWalk(const Op &op) {
    auto it = loaders.find(op.obj); if (it == loaders.end()) return;
    LoaderObj *L = it->second;
    std::string ct = ctxTags(L);
    std::vector<std::vector<NL_Node *>> lists(8);
    std::vector<std::pair<ENode, const NL_Node *>> got; std::map<Id, size_t> byId;
    for (int c = 0; c < 8; c++) {
        WalkCtx w{this, {}, c}; size_t n;
        { rt::Lib g; n = NodesetLoader_forEachNode(L->l, (NL_NodeClass)c, &w, walkCb); }
        if (n != w.v.size()) violation(tagsOr("C04", ct), "walk-count", "forEachNode returned " + std::to_string(n) + " but delivered " + std::to_string(w.v.size()) + " nodes");
        lists[(size_t)c] = w.v;
        for (auto p : w.v) {
            ENode s = snapshot(p);
            if (s.cls != c) violation(tagsOr("C04", ct), "walk-class", s.id.text() + " of class " + std::to_string(s.cls) + " delivered by the walk over class " + std::to_string(c));
            if (byId.count(s.id) && !L->dirty) violation(tagsOr("C04", ct), "walk-twice", s.id.text() + " delivered more than once");
            byId[s.id] = got.size();
            got.push_back({s, p});
            record("  node " + s.text());
        }
    }
    rt::R->stats[rt::ST_NODES] += got.size();
    std::map<const NL_Node *, LoaderObj::Snap> snaps;
    for (auto &g : got) {
        std::string t; for (auto &p : g.first.f) t += p.first + "=" + p.second + ";";
        snaps[g.second] = {g.second, g.first.id.text() + t, refSet(g.first.hier) + refSet(g.first.nonhier) + refSet(g.first.td), L->epoch};
    }
    L->snaps = snaps;
    if (L->dirty) return;
    // everything delivered must come from an accepted file
    size_t cc = comboCount(L);
    bool full = L->sorted && L->lastSort && cc <= MAXCOMBO;
    if (!full) {
        for (auto &g : got) {
            bool found = false; std::string why = "no imported file describes it";
            for (auto &gr : L->groups) for (size_t j = 0; j < gr.kmax && !found; j++) if (gr.doc.nodes[j].id == g.first.id) { std::string d = diffNodes(gr.doc.nodes[j], g.first, false); if (d.empty()) found = true; else why = d; }
            if (!found) violation(tagsOr("C02", ct), "node-wrong", g.first.id.text() + ": " + why);
        }
        return;
    }
    std::vector<size_t> k; for (auto &g : L->groups) k.push_back(g.kmin);
    struct Bad { std::string tags, kind, detail; }; Bad best; int bestScore = -1;
    bool anyOk = false;
    do {
        Accepted a = accepted(L, k);
        Graph gr = graphOf(L, a);
        if (!gr.ok()) continue;
        anyOk = true;
        Bad bad; int score = 0;
        auto fail = [&](int sc, const char *tags, const std::string &kind, const std::string &d) { if (bad.kind.empty() || sc < score) { bad = {tags, kind, d}; score = sc; } };
        for (auto &p : a) if (!byId.count(p.first)) { fail(1, "C04", "node-missing", p.first.text() + " was imported and sorted but is not delivered (" + std::to_string(got.size()) + " of " + std::to_string(a.size()) + " delivered)"); break; }
        if (bad.kind.empty()) for (auto &g : got) if (!a.count(g.first.id)) { fail(1, "C02,C04,C11", "node-unknown", g.first.id.text() + " is delivered but no imported file describes it"); break; }
        if (bad.kind.empty()) for (auto &g : got) {
            auto &src = a[g.first.id]; const ENode &e = src.first->doc.nodes[src.second];
            std::string d = diffNodes(e, g.first, false);
            if (!d.empty()) { fail(2, "C02", "node-content", g.first.id.text() + " " + d); break; }
            d = diffRefs(e, g.first, gr, a, L->murky, L->nSorts > 1);
            if (!d.empty()) { // the order follows from the classification and the link to the parent
                bool order = d.find("hierarchical") != std::string::npos || d.find("unclassified") != std::string::npos || d.find("ParentNodeId") != std::string::npos;
                fail(2, order ? "C02,C04" : "C02", "node-refs", g.first.id.text() + ": " + d); break;
            }
            const ExtObj *eo = src.first->extOf(src.second);
            if (g.second->extension != (void *)eo) { fail(3, "C13", "ext-attached", g.first.id.text() + ": the extension object attached to the node is not the one created for it"); break; }
        }
        if (bad.kind.empty() && !L->murky) for (auto &l : lists) {
            std::map<Id, size_t> pos; for (size_t i = 0; i < l.size(); i++) pos[Id::of(l[i]->id)] = i;
            for (auto &p : pos) { // everything reachable from p must not stand before it
                std::set<Id> seen; std::vector<Id> q{p.first};
                while (!q.empty()) {
                    Id c = q.back(); q.pop_back();
                    auto s = gr.succ.find(c); if (s == gr.succ.end()) continue;
                    for (auto &t : s->second) if (seen.insert(t).second) {
                        q.push_back(t);
                        auto j = pos.find(t);
                        if (j != pos.end() && j->second < p.second) { fail(4, "C04", "walk-order", t.text() + " is delivered before " + p.first.text() + ", which precedes it hierarchically"); goto done; }
                    }
                }
            }
        }
    done:
        if (bad.kind.empty()) return; // this is a legal outcome
        if (score > bestScore) { bestScore = score; best = bad; }
    } while (nextCombo(L, k));
    if (anyOk) {
        std::string t = tagsOr(best.tags, ct);
        if (best.kind == "node-content" || best.kind == "node-refs") { // wrong namespace index?
            if (best.detail.find("ns=") != std::string::npos || best.detail.find("bn: ") != std::string::npos) t = join(t, "C11");
        }
        violation(t, best.kind, best.detail);
    }
}
void Exec::opRefs(const Op &op) {
    auto it = loaders.find(op.obj); if (it == loaders.end()) return;
    LoaderObj *L = it->second;
    const NL_BiDirectionalReference *r; { rt::Lib g; r = NodesetLoader_getBidirectionalRefs(L->l); }
    std::map<std::string, size_t> got, must, may;
    size_t n = 0;
    for (; r; r = r->next, n++) got[Id::of(r->source).text() + " > " + Id::of(r->target).text() + " : " + Id::of(r->refType).text()]++;
    record("refs " + std::to_string(n)); for (auto &s : got) record("  " + s.first + " " + std::to_string(s.second));
    if (L->dirty) return;
    // a node is the one read first: once for every reference of it
    std::set<Id> surely, maybe;
    for (auto &g : L->groups) for (size_t j = 0; j < g.kmax && j < g.doc.nodes.size(); j++) {
        const ENode &e = g.doc.nodes[j];
        if (surely.count(e.id)) continue;
        const std::string &bn = e.f.at("bn");
        if (bn.substr(bn.find(':') + 1) == "Default Binary") {
            std::map<std::string, size_t> mine;
            for (auto &x : e.refs) if (x.type == Id::n0(38) && !x.fwd) mine[x.target.text() + " > " + e.id.text() + " : " + x.type.text()]++;
            for (auto &x : mine) { may[x.first] = std::max(may[x.first], x.second); if (j < g.kmin && !maybe.count(e.id)) must[x.first] = x.second; }
        }
        maybe.insert(e.id); if (j < g.kmin) surely.insert(e.id);
    }
    std::string ct = ctxTags(L);
    for (auto &s : must) if (got[s.first] < s.second) { violation(tagsOr("C02,C11", ct), "encoding-missing", "encoding reference not reported: " + s.first); break; }
    for (auto &s : got) if (s.second > may[s.first]) { violation(tagsOr("C02,C10,C11", ct), "encoding-wrong", may[s.first] ? "encoding reference reported " + std::to_string(s.second) + " times: " + s.first : "encoding reference reported that no node read describes: " + s.first); break; }
}
void Exec::del(LoaderObj *L) {
    { rt::Lib g; NodesetLoader_delete(L->l); }
    delete L;
}
void Exec::opDelete(const Op &op) {
    auto it = loaders.find(op.obj); if (it == loaders.end()) return;
    del(it->second); loaders.erase(it);
    record("delete");
}
void Exec::opBad(const Op &op) {
    auto it = loaders.find(op.obj); if (it == loaders.end()) return;
    LoaderObj *L = it->second; bool ok;
    NL_FileContext fc; memset(&fc, 0, sizeof fc); fc.file = "/sim/none"; fc.userContext = this;
    { rt::Lib g; ok = NodesetLoader_importFile(L->l, op.arg == "ctx" ? nullptr : &fc); }
    record(std::string("bad ") + (ok ? "ok" : "failed"));
    if (ok) violation("C01", "import-badargs", "import without a file context or namespace callback reported success");
    if (!errors && L->logger.context) violation("C01", "import-silent", "import failed without an error-level log message");
    L->failedBefore = true;
}
extern "C" CharArenaAllocator *sim_CharArenaAllocator_new(size_t n) {
    for (auto &k : gPlan->opts) if (k.first == "arena") n = (size_t)atol(k.second.c_str());
    return CharArenaAllocator_new(n);
}
extern "C" NodeContainer *sim_NodeContainer_new(size_t n, bool owner) {
    for (auto &k : gPlan->opts) if (k.first == "nodes" && (n == 10 || n == 100 || n == 1000 || n == 10000)) n = (size_t)atol(k.second.c_str());
    return NodeContainer_new(n, owner);
}
void Exec::opArena(const Op &op) {
    struct B { char *p; std::string want; };
    std::vector<B> bl; CharArenaAllocator *a;
    { rt::Lib g; a = CharArenaAllocator_new((size_t)op.num("init", 64)); }
    if (!a) { if (!frame.faulted) violation("C02", "arena-null", "arena could not be created"); return; }
    unsigned c = 0;
    size_t i = 0;
    auto check = [&](const char *when) {
        for (size_t j = 0; j < bl.size(); j++)
            if (memcmp(bl[j].p, bl[j].want.data(), bl[j].want.size())) { violation("C02", "arena-content", "stored string " + std::to_string(j) + " of " + std::to_string(bl.size()) + " changed after " + when); return false; }
        return true;
    };
    while (i < op.arg.size()) {
        char k = op.arg[i++]; size_t n = (size_t)atol(op.arg.c_str() + i);
        while (i < op.arg.size() && isdigit((unsigned char)op.arg[i])) i++;
        if (k == 'm' || (k == 'r' && bl.empty())) {
            char *p; { rt::Lib g; p = CharArenaAllocator_malloc(a, n); }
            if (!p) { if (!frame.faulted) violation("C02", "arena-null", "arena allocation failed"); continue; }
            for (size_t j = 0; j < n; j++) if (p[j]) { violation("C02", "arena-dirty", "fresh arena memory is not zero"); break; }
            B b{p, std::string()}; for (size_t j = 0; j < n; j++) { p[j] = (char)(1 + (c++ % 251)); b.want += p[j]; }
            bl.push_back(b);
            if (!check("malloc")) break;
        } else if (k == 'r') {
            char *p; { rt::Lib g; p = CharArenaAllocator_realloc(a, n); }
            if (!p) { if (!frame.faulted) violation("C02", "arena-null", "arena extension failed"); continue; }
            B &b = bl.back(); size_t old = b.want.size();
            if (memcmp(p, b.want.data(), old)) { violation("C02", "arena-lost", "extending a string lost its first " + std::to_string(old) + " bytes"); break; }
            for (size_t j = old; j < old + n; j++) if (p[j]) { violation("C02", "arena-dirty", "extended arena memory is not zero"); break; }
            b.p = p;
            for (size_t j = old; j < old + n; j++) { p[j] = (char)(1 + (c++ % 251)); b.want += p[j]; }
            if (!check("realloc")) break;
        }
    }
    { rt::Lib g; CharArenaAllocator_delete(a); }
    record("arena " + std::to_string(bl.size()));
}
void Exec::verifySnaps() {
    for (auto &p : loaders) {
        LoaderObj *L = p.second;
        for (auto &s : L->snaps) {
            ENode n = snapshot(s.second.p);
            std::string t; for (auto &q : n.f) t += q.first + "=" + q.second + ";";
            t = n.id.text() + t;
            if (t != s.second.text) { violation(tagsOr("C02", join(ctxTags(L), gPlan->tasks.size() > 1 ? "C03" : "")), "node-changed", "a delivered node changed later: " + t.substr(0, 300) + " was " + s.second.text.substr(0, 300)); return; }
            if (s.second.epoch == L->epoch && refSet(n.hier) + refSet(n.nonhier) + refSet(n.td) != s.second.refs) { violation("C02", "refs-changed", "references of a delivered node changed later"); return; }
        }
    }
}
void Exec::step(const Op &op) {
    frame.allocs = frame.reads = frame.events = frame.delivered = 0;
    frame.faulted = frame.ioErr = frame.eintr = frame.opened = false;
    errors = warnings = 0; lastError.clear();
    rt::R->stats[rt::ST_OPS]++;
    rt::R->crashTask = cur->index; rt::R->crashOp = (int)frame.op;
    snprintf(rt::R->where, sizeof rt::R->where, "%s op %ld: %s %s %s", frame.name.c_str(), frame.op, op.kind.c_str(), op.obj.c_str(), op.arg.substr(0, 40).c_str());
    record("op " + op.kind + " " + op.obj + " " + op.arg.substr(0, 60));
    if (op.kind == "new") opNew(op);
    else if (op.kind == "import") opImport(op);
    else if (op.kind == "sort") opSort(op);
    else if (op.kind == "walk") opWalk(op);
    else if (op.kind == "refs") opRefs(op);
    else if (op.kind == "delete") opDelete(op);
    else if (op.kind == "bad") opBad(op);
    else if (op.kind == "arena") opArena(op);
    else srvOp(op);
    verifySnaps();
    srvVerify();
    if (rt::R->nAllocs < 256) {
        auto &x = rt::R->opAllocs[rt::R->nAllocs++];
        snprintf(x.task, sizeof x.task, "%s", frame.name.c_str()); x.op = (int)frame.op; x.allocs = (uint32_t)frame.allocs; x.reads = (uint32_t)frame.reads; x.events = (uint32_t)frame.events;
    }
}
void Exec::run() {
    for (auto &k : gPlan->opts) { if (k.first == "nsbase") nsNext = (unsigned)atol(k.second.c_str()); if (k.first == "nsstep") nsStep = (unsigned)atol(k.second.c_str()); }
    for (size_t i = 0; i < task->ops.size(); i++) { frame.op = (long)i; step(task->ops[i]); }
    frame.op = (long)task->ops.size();
    frame.faulted = false; frame.allocs = 0;
    snprintf(rt::R->where, sizeof rt::R->where, "%s end", frame.name.c_str());
    while (!loaders.empty()) { LoaderObj *L = loaders.begin()->second; loaders.erase(loaders.begin()); del(L); }
    srvEnd();
    for (auto o : extObjs) delete o;
    extObjs.clear();
    std::string t = frame.name + "\n" + frame.transcript;
    // the digest always, the text where there is room
    std::string h = frame.name + "\n#" + std::to_string(hashStr(frame.transcript)) + "\n";
    const size_t room = sizeof rt::R->transcripts, end = rt::R->transcriptLen;
    if (end + h.size() + frame.transcript.size() + 1 <= room) h += frame.transcript;
    if (end + h.size() + 1 <= room) { memcpy(rt::R->transcripts + end, h.c_str(), h.size() + 1); rt::R->transcriptLen += h.size() + 1; }
    rt::R->transcriptHash = hashStr(t, rt::R->transcriptHash);
}
void execPlan(const Plan &p, rt::Result *r) {
    gPlan = &p;
    rt::begin(p, r);
    size_t bytes = 0;
    rt::TaskState boot; boot.index = 0; boot.hostDepth = 1; cur = &boot;
    for (auto &f : p.files) {
        FileInfo *i = makeFile(p, f); gFiles[f.name] = i;
        rt::VFile v; v.bytes = i->bytes; v.missing = f.missing; v.openErr = f.openErr;
        rt::setFile(f.name, v); bytes += i->bytes.size();
    }
    cur = nullptr;
    rt::setBudget(20000000ull + 2000ull * bytes);
    std::vector<std::function<void()>> fns;
    std::vector<std::unique_ptr<Exec>> ex;
    for (auto &t : p.tasks) {
        if (p.solo.empty() ? t.nested : t.name != p.solo) continue;
        ex.emplace_back(new Exec); Exec *e = ex.back().get();
        e->task = &t; e->frame.name = t.name; e->frame.exec = e;
        fns.push_back([e]() { cur->frame = &e->frame; e->run(); cur->frame = nullptr; });
    }
    rt::runTasks(fns);
    rt::finish();
    for (auto &f : gFiles) delete f.second;
    gFiles.clear();
    r->done = 1;
}
