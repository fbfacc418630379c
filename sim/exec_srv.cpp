// Programs over a (simulated) server: load files into it, compare it with what the files say.
#include "exec_int.h"
#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <functional>

extern "C" void *sim_calloc(size_t, size_t);
static const Id HASSUBTYPE = Id::n0(45), HASENCODING = Id::n0(38), HASTYPEDEF = Id::n0(40);
static const int uaClass[8] = {UA_NODECLASS_OBJECT, UA_NODECLASS_OBJECTTYPE, UA_NODECLASS_VARIABLE, UA_NODECLASS_DATATYPE, UA_NODECLASS_METHOD, UA_NODECLASS_REFERENCETYPE, UA_NODECLASS_VARIABLETYPE, UA_NODECLASS_VIEW};
static const int classRank[8] = {4, 2, 6, 1, 5, 0, 3, 7}; // order in which the first round goes through the classes

struct SrvObj {
    UA_Server *s = nullptr; UA_Logger log; Exec *ex = nullptr;
    bool dirty = false, oomBefore = false, failedBefore = false;
    struct TSnap { const UA_DataType *p; std::string text; bool host; };
    std::vector<TSnap> types;              // custom types published so far
    std::map<Id, std::string> values;      // stored values
    std::set<Id> abstractTypes;            // data types some load declared abstract
};

// ---- small helpers over the server's state ----
struct Trip { Id s, t, d; bool operator<(const Trip &o) const { return std::tie(s, t, d) < std::tie(o.s, o.t, o.d); } bool operator==(const Trip &o) const { return s == o.s && t == o.t && d == o.d; } std::string text() const { return s.text() + " -[" + t.text() + "]-> " + d.text(); } };
static Trip trip(const Id &src, const Id &type, bool fwd, const Id &target) { return fwd ? Trip{src, type, target} : Trip{target, type, src}; }
static std::set<Trip> triples(const UA_Server *s) {
    std::set<Trip> o;
    for (auto &n : s->nodes) for (auto &r : n.second.refs) o.insert(trip(n.first, r.type, r.fwd, r.target));
    return o;
}
static bool isRefType(const UA_Server *s, const Id &t) { auto i = s->nodes.find(t); return i != s->nodes.end() && i->second.cls == UA_NODECLASS_REFERENCETYPE; }
static void subTree(const UA_Server *s, const Id &root, std::set<Id> &out) {
    std::vector<Id> q{root}; out.insert(root);
    while (!q.empty()) {
        Id c = q.back(); q.pop_back();
        auto i = s->nodes.find(c); if (i == s->nodes.end()) continue;
        for (auto &r : i->second.refs) if (r.fwd && r.type == HASSUBTYPE && isRefType(s, r.target) && out.insert(r.target).second) q.push_back(r.target);
    }
}
static const UA_DataType *findBuiltin(const Id &id) { for (size_t i = 0; i < UA_TYPES_COUNT; i++) if (Id::of(UA_TYPES[i].typeId) == id) return &UA_TYPES[i]; return nullptr; }
static const UA_DataType *findCustom(const UA_DataTypeArray *a, const Id &id) {
    for (; a; a = a->next) for (size_t i = 0; i < a->typesSize; i++) if (Id::of(a->types[i].typeId) == id) return &a->types[i];
    return nullptr;
}
static std::string typeText(const UA_DataType *t) {
    std::string o = Id::of(t->typeId).text() + " '" + (t->typeName ? t->typeName : "(null)") + "' kind " + std::to_string(t->typeKind) + " size " + std::to_string(t->memSize) + " pf " + std::to_string(t->pointerFree) + " ov " + std::to_string(t->overlayable) + " enc " + Id::of(t->binaryEncodingId).text() + " {";
    for (unsigned i = 0; i < t->membersSize; i++) {
        auto &m = t->members[i];
        o += std::string(m.memberName ? m.memberName : "(null)") + ":" + (m.memberType ? Id::of(m.memberType->typeId).text() + "/" + std::to_string(m.memberType->memSize) : "(null)") + (m.isArray ? "[]" : "") + (m.isOptional ? "?" : "") + "+" + std::to_string(m.padding) + " ";
    }
    return o + "}";
}

// ---- memory layout, as a C compiler would lay the struct out ----
static unsigned alignOf(const UA_DataType *t, int depth = 0);
static unsigned memberAlign(const UA_DataTypeMember &m, int depth) { return m.isArray || m.isOptional ? 8 : alignOf(m.memberType, depth + 1); }
static unsigned alignOf(const UA_DataType *t, int depth) {
    if (depth > 60) return 8;
    switch (t->typeKind) {
    case UA_DATATYPEKIND_BOOLEAN: case UA_DATATYPEKIND_SBYTE: case UA_DATATYPEKIND_BYTE: return 1;
    case UA_DATATYPEKIND_INT16: case UA_DATATYPEKIND_UINT16: return 2;
    case UA_DATATYPEKIND_INT32: case UA_DATATYPEKIND_UINT32: case UA_DATATYPEKIND_FLOAT: case UA_DATATYPEKIND_STATUSCODE: case UA_DATATYPEKIND_ENUM: case UA_DATATYPEKIND_GUID: return 4;
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: case UA_DATATYPEKIND_UNION: {
        unsigned a = t->typeKind == UA_DATATYPEKIND_UNION ? 4 : 1;
        for (unsigned i = 0; i < t->membersSize; i++) a = std::max(a, memberAlign(t->members[i], depth));
        return a;
    }
    default: return 8;
    }
}
static unsigned up(unsigned n, unsigned a) { return (n + a - 1) / a * a; }

// ---- expected values ----
struct ValueExp {
    const std::vector<unsigned> &ns; bool usesNs = false, unsure = false, misfit = false; // misfit: not of the shape of its type, so there is no value
    ValueExp(const std::vector<unsigned> &n) : ns(n) {}
    static bool blank(const std::string &s) { for (unsigned char c : s) if (!isspace(c)) return false; return true; }
    static void put(std::string &o, const std::string &s) { o += '"'; char b[5]; for (unsigned char c : s) { if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, 5, "\\x%02x", c); o += b; } else o += (char)c; } o += '"'; }
    static std::string text(const El *e) { return e && e->kids.empty() && !blank(e->text) ? e->text : ""; }
    static const El *kid(const El *e, const std::string &n) { if (e) for (auto &k : e->kids) if (k.name == n) return &k; return nullptr; }
    unsigned mapNs(unsigned n) { if (n == 0) return 0; usesNs = true; if (n < ns.size()) return ns[n]; unsure = true; return 65535; }
    void number(std::string &o, const std::string &t0, int kind) {
        std::string t = t0; if (t.empty()) t = "0";
        char *e = nullptr; char b[64]; errno = 0;
        auto rangeI = [&](long long lo, long long hi) { long long v = strtoll(t.c_str(), &e, 10); if (errno || v < lo || v > hi) unsure = true; snprintf(b, 64, "%lld", v); };
        switch (kind) {
        case UA_DATATYPEKIND_SBYTE: rangeI(-128, 127); break; case UA_DATATYPEKIND_BYTE: rangeI(0, 255); break;
        case UA_DATATYPEKIND_INT16: rangeI(-32768, 32767); break; case UA_DATATYPEKIND_UINT16: rangeI(0, 65535); break;
        case UA_DATATYPEKIND_INT32: rangeI(-2147483648ll, 2147483647ll); break; case UA_DATATYPEKIND_UINT32: rangeI(0, 4294967295ll); break;
        case UA_DATATYPEKIND_INT64: { long long v = strtoll(t.c_str(), &e, 10); if (errno) unsure = true; snprintf(b, 64, "%lld", v); break; }
        case UA_DATATYPEKIND_UINT64: { if (t[0] == '-') unsure = true; unsigned long long v = strtoull(t.c_str(), &e, 10); if (errno) unsure = true; snprintf(b, 64, "%llu", v); break; }
        case UA_DATATYPEKIND_FLOAT: { double v = strtod(t.c_str(), &e); snprintf(b, 64, "%.9g", (double)(float)v); break; }
        default: { double v = strtod(t.c_str(), &e); snprintf(b, 64, "%.17g", v); }
        }
        if (e && *e) unsure = true; // not a number
        o += b;
    }
    static int64_t days(int y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153u * (unsigned)(m + (m > 2 ? -3 : 9)) + 2) / 5 + (unsigned)d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
    // e: nullptr = not stated
    void val(std::string &o, const El *e, const UA_DataType *t, int depth = 0) {
        if (depth > 18) { unsure = true; return; }
        bool prim = t->typeKind <= UA_DATATYPEKIND_DATETIME || t->typeKind == UA_DATATYPEKIND_BYTESTRING || t->typeKind == UA_DATATYPEKIND_ENUM;
        if (e && (prim ? !e->kids.empty() : e->kids.empty() && !blank(e->text))) { misfit = true; return; } // of another shape
        std::string s = text(e);
        switch (t->typeKind) {
        case UA_DATATYPEKIND_BOOLEAN: if (!s.empty() && s != "true" && s != "false" && s != "1" && s != "0") unsure = true; o += s == "true" || s == "1" ? "true" : "false"; return;
        case UA_DATATYPEKIND_STRING: put(o, s); return;
        case UA_DATATYPEKIND_BYTESTRING: { Id i; s.erase(std::remove_if(s.begin(), s.end(), [](unsigned char c) { return isspace(c); }), s.end()); if (!s.empty() && (s.size() % 4 || !parseIdText("b=" + s, i))) unsure = true; put(o, s.empty() ? "" : i.str); return; }
        case UA_DATATYPEKIND_DATETIME: {
            if (s.empty()) { o += "0"; return; }
            int y, mo, d, h, mi, sc; char z, x; if (sscanf(s.c_str(), "%d-%d-%dT%d:%d:%d%c%c", &y, &mo, &d, &h, &mi, &sc, &z, &x) != 7 || z != 'Z' || mo < 1 || mo > 12) { unsure = true; return; }
            int64_t sec = days(y, mo, d) * 86400 + h * 3600 + mi * 60 + sc;
            o += std::to_string(sec * 10000000ll + 116444736000000000ll); return;
        }
        case UA_DATATYPEKIND_GUID: { std::string g = text(kid(e, "String")); Id i; if (!g.empty() && !parseIdText("g=" + g, i)) unsure = true; std::string b = g.empty() ? std::string(16, '\0') : i.str; char q[4]; for (unsigned char c : b) { snprintf(q, 4, "%02x", c); o += q; } return; }
        case UA_DATATYPEKIND_NODEID: { std::string g = text(kid(e, "Identifier")); Id i; if (!g.empty()) { if (!parseIdText(g, i)) unsure = true; i.ns = mapNs(i.ns); } put(o, i.text()); return; }
        case UA_DATATYPEKIND_QUALIFIEDNAME: { std::string n; number(n, text(kid(e, "NamespaceIndex")), UA_DATATYPEKIND_UINT16); o += std::to_string(mapNs((unsigned)atoi(n.c_str()))) + ":"; put(o, text(kid(e, "Name"))); return; }
        case UA_DATATYPEKIND_LOCALIZEDTEXT: put(o, text(kid(e, "Locale"))); o += '/'; put(o, text(kid(e, "Text"))); return;
        case UA_DATATYPEKIND_STATUSCODE: number(o, text(kid(e, "Code")), UA_DATATYPEKIND_UINT32); return;
        case UA_DATATYPEKIND_ENUM: { size_t u = s.rfind('_'); number(o, u == std::string::npos ? s : s.substr(u + 1), UA_DATATYPEKIND_INT32); return; }
        case UA_DATATYPEKIND_STRUCTURE: {
            o += '{';
            for (unsigned i = 0; i < t->membersSize; i++) { auto &m = t->members[i]; if (m.isOptional) { unsure = true; return; } member(o, kid(e, m.memberName), m, depth); o += ';'; }
            o += '}'; return;
        }
        case UA_DATATYPEKIND_UNION: {
            std::string sw; number(sw, e && !e->kids.empty() ? text(&e->kids[0]) : "", UA_DATATYPEKIND_UINT32);
            unsigned sel = (unsigned)strtoul(sw.c_str(), nullptr, 10);
            if (sel > t->membersSize) { misfit = true; return; }
            o += "<" + std::to_string(sel) + ":";
            if (sel) member(o, e->kids.size() > 1 ? &e->kids[1] : nullptr, t->members[sel - 1], depth);
            o += '>'; return;
        }
        case UA_DATATYPEKIND_VARIANT: if (e) unsure = true; o += "none"; return;
        default:
            if (t->typeKind > UA_DATATYPEKIND_DOUBLE || e == nullptr ? t->typeKind > UA_DATATYPEKIND_DOUBLE : false) { unsure = true; return; }
            number(o, s, (int)t->typeKind);
        }
    }
    void member(std::string &o, const El *e, const UA_DataTypeMember &m, int depth) {
        o += std::string(m.memberName ? m.memberName : "?") + "=";
        if (!m.isArray) { val(o, e, m.memberType, depth + 1); return; }
        o += '[';
        if (e) for (auto &k : e->kids) { val(o, &k, m.memberType, depth + 1); o += ','; }
        o += ']';
    }
    static const El *body(const El &x) { for (auto &k : x.kids) if (k.name == "Body" && !k.kids.empty()) return &k.kids[0]; return nullptr; }
    std::string variable(const El &e, const UA_DataType *t) {
        std::string o = std::string(t->typeName ? t->typeName : "?") + "(" + Id::of(t->typeId).text() + ")";
        if (e.name.compare(0, 6, "ListOf") == 0) {
            o += "[" + std::to_string(e.kids.size()) + "|";
            bool ext = !e.kids.empty() && e.kids[0].name == "ExtensionObject";
            if (ext && t->typeKind < UA_DATATYPEKIND_STRUCTURE) unsure = true;
            for (auto &k : e.kids) { const El *b = ext ? body(k) : &k; if (!b) { unsure = true; break; } val(o, b, t); o += ','; }
            return o + "]";
        }
        const El *b = e.name == "ExtensionObject" ? body(e) : &e;
        if (e.name == "ExtensionObject" && t->typeKind < UA_DATATYPEKIND_STRUCTURE && t->typeKind != UA_DATATYPEKIND_ENUM) unsure = true;
        if (!b || (e.name == "ExtensionObject" && t->typeKind == UA_DATATYPEKIND_ENUM && text(b).empty())) { unsure = true; return o; }
        val(o, b, t);
        return o;
    }
};

// ---- host side ----
static Exec *me() { return cur && cur->frame ? (Exec *)cur->frame->exec : nullptr; }
static void uaLog(void *ctx, UA_LogLevel lvl, UA_LogCategory, const char *msg, va_list args) {
    rt::Host h;
    SrvObj *S = (SrvObj *)ctx;
    char b[1024]; vsnprintf(b, sizeof b, msg, args);
    Exec *e = me();
    if (!e || S->ex != e) { violation("C03", "log-wrong-context", "a log message reached another server's logger"); return; }
    if (lvl >= UA_LOGLEVEL_ERROR) { e->errors++; e->lastError = b; }
    else if (lvl == UA_LOGLEVEL_WARNING) e->warnings++;
    record("  log " + std::to_string((int)lvl) + " " + b);
    fireEvent();
}
static void hostLink(UA_Server *s, const Id &a, const Id &t, const Id &b) { s->nodes[a].refs.insert({t, true, b}); s->nodes[b].refs.insert({t, false, a}); }
static Id ns1(uint32_t n) { Id i = Id::n0(n); i.ns = 1; return i; }
static void hostNode(UA_Server *s, const Id &id, int cls, const std::string &name, const Id &parent, const Id &ref, const Id &td) {
    SrvNode &n = s->nodes[id]; n.id = id; n.cls = cls; n.bnNs = 1; n.bnName = name; n.dnText = name;
    hostLink(s, parent, ref, id);
    if (!td.isNull()) hostLink(s, id, HASTYPEDEF, td);
}
static char *dup(const char *s) { char *p = (char *)sim_calloc(strlen(s) + 1, 1); strcpy(p, s); return p; }
static void opServer(Exec *e, const Op &op) {
    if (e->servers.count(op.obj)) return;
    SrvObj *S = new SrvObj; S->ex = e; S->s = UA_Server_new();
    S->log.log = uaLog; S->log.context = S; S->log.clear = nullptr;
    S->s->config.logging = &S->log;
    S->s->event = fireEvent;
    UA_Server *s = S->s;
    for (long i = 0; i < op.num("pre"); i++) hostNode(s, ns1(100 + (uint32_t)i), UA_NODECLASS_OBJECT, "Pre" + std::to_string(i), Id::n0(85), Id::n0(35), Id::n0(58));
    for (long i = 0; i < op.num("many"); i++) hostNode(s, ns1(3000 + (uint32_t)i), UA_NODECLASS_REFERENCETYPE, "Rt" + std::to_string(i), Id::n0(47), HASSUBTYPE, Id());
    if (op.num("dtypes")) { hostNode(s, ns1(2900), UA_NODECLASS_DATATYPE, "HostDouble", Id::n0(11), HASSUBTYPE, Id()); hostNode(s, ns1(2901), UA_NODECLASS_DATATYPE, "HostDouble2", ns1(2900), HASSUBTYPE, Id()); }
    if (op.num("cyc")) { // the host's own type tree contains a cycle
        hostNode(s, ns1(4000), UA_NODECLASS_REFERENCETYPE, "CycA", Id::n0(33), HASSUBTYPE, Id());
        hostNode(s, ns1(4001), UA_NODECLASS_REFERENCETYPE, "CycB", ns1(4000), HASSUBTYPE, Id());
        hostLink(s, ns1(4001), HASSUBTYPE, ns1(4000));
    }
    if (op.num("preset")) { // custom types of the host's own
        UA_DataType *t = (UA_DataType *)sim_calloc(1, sizeof(UA_DataType));
        t->typeName = dup("HostStruct"); t->typeId = UA_NODEID_NUMERIC(1, 2950); t->typeKind = UA_DATATYPEKIND_STRUCTURE; t->memSize = 8; t->pointerFree = 1; t->membersSize = 2;
        t->members = (UA_DataTypeMember *)sim_calloc(2, sizeof(UA_DataTypeMember));
        t->members[0].memberName = dup("x"); t->members[0].memberType = &UA_TYPES[UA_TYPES_INT32];
        t->members[1].memberName = dup("y"); t->members[1].memberType = &UA_TYPES[UA_TYPES_INT16];
        UA_DataTypeArray *a = (UA_DataTypeArray *)sim_calloc(1, sizeof(UA_DataTypeArray));
        a->types = t; *(size_t *)(uintptr_t)&a->typesSize = 1;
        s->config.customDataTypes = a;
        S->types.push_back({t, typeText(t), true});
        hostNode(s, ns1(2950), UA_NODECLASS_DATATYPE, "HostStruct", Id::n0(22), HASSUBTYPE, Id());
    }
    e->servers[op.obj] = S;
    record("server " + op.obj);
}
static void closeServer(SrvObj *S) {
    const UA_DataTypeArray *types = S->s->config.customDataTypes;
    UA_Server_delete(S->s); // the values go before their types
    { rt::Lib g; NodesetLoader_cleanupCustomDataTypes(types); }
    delete S;
}
static void opRead(Exec *e, SrvObj *S) { // a client reads every value
    size_t n = 0;
    for (auto &p : S->s->nodes) {
        if (!p.second.value.type) continue;
        UA_Variant v, w; UA_Variant_init(&v); UA_Variant_init(&w);
        UA_StatusCode a = UA_Variant_copy(&p.second.value, &v), b = UA_Variant_copy(&v, &w);
        if (a || b || sim_value_text(w) != sim_value_text(p.second.value)) violation("C12", "value-copy", "the value of " + p.first.text() + " cannot be copied faithfully");
        UA_Variant_clear(&v); UA_Variant_clear(&w);
        n++;
    }
    record("read " + std::to_string(n));
}

// ---- the oracle for one load ----
namespace {
struct Load {
    Exec *e; SrvObj *S; const FileInfo *fi; UA_Server *s; bool ok; std::string ct;
    std::vector<unsigned> ns; Group grp; Graph gr;
    std::map<Id, std::pair<const ENode *, size_t>> first; // first description of each id
    // before
    std::map<Id, std::string> oldText; std::set<Trip> oldRefs; const UA_DataTypeArray *oldHead = nullptr; std::map<Id, SrvNode> oldNodes;
    // offers
    struct Off { std::vector<size_t> at; long good = -1; bool exists = false; size_t injected = 0; };
    std::map<Id, Off> off; bool refusals = false, refRefusals = false;
    std::set<Trip> after;

    bool existed(const Id &i) const { return oldText.count(i) > 0; }
    bool acceptedNow(const Id &i) const { auto x = off.find(i); return x != off.end() && x->second.good >= 0; }
    std::string tags(const std::string &t) const { return join(join(t, ct), refusals || refRefusals ? "C06" : ""); }

    // which parent can make the server accept n, and in which round at the latest (-1: not promised)
    std::map<Id, int> rounds; std::set<Id> busy;
    int depRound(const Id &id, int cls) { // cls: class of the node that depends on it
        if (existed(id)) return 0;
        auto f = first.find(id); if (f == first.end()) return -1;
        int r = round(id); if (r < 0) return -1;
        return r + (classRank[f->second.first->cls] > classRank[cls] ? 1 : 0);
    }
    int round(const Id &id) {
        auto m = rounds.find(id); if (m != rounds.end()) return m->second;
        if (!busy.insert(id).second) return -1;
        int r = roundOf(*first[id].first);
        if (r > 9) r = -1;
        busy.erase(id);
        return rounds[id] = r;
    }
    int clsOf(const Id &id) { auto o = oldNodes.find(id); if (o != oldNodes.end()) return o->second.cls; auto f = first.find(id); return f == first.end() ? -1 : uaClass[f->second.first->cls]; }
    std::vector<ERef> inverseHier(const ENode &n) { std::vector<ERef> v; for (auto &r : n.refs) if (!r.fwd && gr.hierTypes.count(r.type)) v.push_back(r); return v; }
    bool linkType(const Id &t) { // can surely link a node to its parent once it is there
        auto o = oldNodes.find(t); if (o != oldNodes.end()) return !o->second.isAbstract;
        size_t c = 0; auto f = first.find(t); if (f != first.end()) for (auto &x : f->second.first->refs) if (!x.fwd && x.type == HASSUBTYPE) c++;
        return c == 1;
    }
    int roundOf(const ENode &n) {
        auto o = off.find(n.id); int k = o == off.end() ? 0 : (int)o->second.injected;
        if (existed(n.id) || n.id.isNull()) return -1;
        if (n.id.ns >= s->namespaces.size()) return -1;
        auto dep = [&](const Id &id) { if (k < 0) return; int r = depRound(id, n.cls); if (r < 0) k = -1; else k = std::max(k, r); };
        bool type = !(n.cls == NODECLASS_OBJECT || n.cls == NODECLASS_VARIABLE || n.cls == NODECLASS_METHOD || n.cls == NODECLASS_VIEW);
        auto inv = inverseHier(n);
        bool anyHier = false; for (auto &r : n.refs) if (gr.hierTypes.count(r.type)) anyHier = true;
        if (type) {
            size_t c = 0;
            for (auto &r : inv) if (r.type == HASSUBTYPE) { c++; if (clsOf(r.target) != uaClass[n.cls]) return -1; dep(r.target); }
            if (c != 1) return -1;
        } else {
            std::vector<ERef> cand;
            for (auto &r : inv) if (r.target == n.parent) cand.push_back(r);
            if (cand.empty()) cand = inv;
            if (cand.empty()) {
                if (!n.parent.isNull()) {
                    if (anyHier) return -1;
                    dep(n.parent);
                    auto pf = first.find(n.parent); // a forward reference of the parent may say how it is linked
                    if (pf != first.end()) for (auto &r : pf->second.first->refs) if (r.target == n.id && gr.hierTypes.count(r.type)) { if (!linkType(r.type)) return -1; dep(r.type); }
                }
                else if (n.cls == NODECLASS_METHOD || n.cls == NODECLASS_VIEW) return -1;
            }
            for (auto &r : cand) {
                dep(r.target); dep(r.type);
                if (!linkType(r.type)) return -1;
            }
        }
        if (n.cls == NODECLASS_OBJECT || n.cls == NODECLASS_VARIABLE) {
            if (n.td.size() > 1) return -1;
            for (auto &r : n.td) { if (!r.fwd || clsOf(r.target) != (n.cls == NODECLASS_OBJECT ? UA_NODECLASS_OBJECTTYPE : UA_NODECLASS_VARIABLETYPE)) return -1; dep(r.target); }
        }
        return k;
    }
    std::string nodeDiff(const ENode &e, const SrvNode &g);
    std::string valueDiff(const ENode &e, const SrvNode &g, bool &usesNs);
    void checkOffers(); void checkNodes(); void checkRefs(); void checkTypes();
    bool rootOf(Id id, Id &root); bool parentOf(const Id &id, Id &p);
};
}
static bool b01(const std::string &s) { return s == "true" || s == "1"; }
std::string Load::nodeDiff(const ENode &x, const SrvNode &g) {
    auto f = [&](const char *k) { auto i = x.f.find(k); return i == x.f.end() ? std::string() : i->second; };
    auto bad = [&](const std::string &what, const std::string &have, const std::string &want) { return what + ": '" + have.substr(0, 200) + "' instead of '" + want.substr(0, 200) + "'"; };
    if (g.cls != uaClass[x.cls]) return bad("class", std::to_string(g.cls), std::to_string(uaClass[x.cls]));
    std::string bn = std::to_string(g.bnNs) + ":" + g.bnName; if (bn != f("bn")) return bad("bn", bn, f("bn"));
#define CK(name, have, key) if ((have) != f(key)) return bad(name, have, f(key))
    CK("display name locale", g.dnLoc, "dnLoc"); CK("display name", g.dnText, "dnText"); CK("description locale", g.deLoc, "deLoc"); CK("description", g.deText, "deText");
#define CI(name, have, want) if ((long)(have) != (long)(want)) return bad(name, std::to_string((long)(have)), std::to_string((long)(want)))
    auto num = [&](const char *k) { return atol(f(k).c_str()); };
    auto dims = [&](bool var) -> std::string {
        std::vector<uint32_t> st; std::string t = f("dims"); if (!t.empty()) { size_t i = 0; while (i <= t.size()) { size_t c = t.find(',', i); if (c == std::string::npos) c = t.size(); st.push_back((uint32_t)atoi(t.substr(i, c - i).c_str())); i = c + 1; } }
        std::string h; for (auto d : g.arrayDims) h += std::to_string(d) + ",";
        bool okD = g.arrayDims == st;
        if (st.empty()) {
            long vr = num("vr");
            if ((var ? vr == 1 : vr >= 0) && g.arrayDims == std::vector<uint32_t>{0}) okD = true;
            if (var && x.src) for (auto &i : x.src->items) if (i.kind == Item::VAL && i.el.name.compare(0, 6, "ListOf") == 0 && g.arrayDims == std::vector<uint32_t>{(uint32_t)i.el.kids.size()}) okD = true;
        }
        return okD ? "" : bad("array dimensions", h, t);
    };
    switch (x.cls) {
    case NODECLASS_OBJECT: CI("event notifier", g.eventNotifier, num("ev")); break;
    case NODECLASS_OBJECTTYPE: case NODECLASS_DATATYPE: CI("abstract", g.isAbstract, b01(f("abs"))); break;
    case NODECLASS_VARIABLE: {
        CK("data type", g.dataType.text(), "dt"); CI("value rank", g.valueRank, num("vr")); CI("access level", g.accessLevel, num("al") & 255); CI("user access level", g.userAccessLevel, num("ual") & 255);
        CI("historizing", g.historizing, b01(f("hist"))); if (g.minSampling != atof(f("ms").c_str())) return bad("sampling interval", std::to_string(g.minSampling), f("ms"));
        std::string d = dims(true); if (!d.empty()) return d; break;
    }
    case NODECLASS_VARIABLETYPE: { CK("data type", g.dataType.text(), "dt"); CI("value rank", g.valueRank, num("vr")); CI("abstract", g.isAbstract, b01(f("abs"))); std::string d = dims(false); if (!d.empty()) return d; break; }
    case NODECLASS_METHOD: CI("executable", g.executable, b01(f("ex"))); CI("user executable", g.userExecutable, b01(f("uex"))); break;
    case NODECLASS_REFERENCETYPE: CI("symmetric", g.symmetric, b01(f("sym"))); CK("inverse name locale", g.invLoc, "invLoc"); CK("inverse name", g.invText, "invText"); break;
    case NODECLASS_VIEW: CI("contains no loops", g.containsNoLoops, b01(f("cnl"))); CI("event notifier", g.eventNotifier, num("ev")); break;
    }
    return "";
}
std::string Load::valueDiff(const ENode &x, const SrvNode &g, bool &usesNs) {
    const Item *v = nullptr; if (x.src) for (auto &i : x.src->items) if (i.kind == Item::VAL) { if (v) return ""; v = &i; }
    std::string want = "none", have = sim_value_text(g.value);
    if (x.cls == NODECLASS_VARIABLE && v && !v->el.name.empty()) {
        Id dt; for (auto &p : s->nodes) if (p.second.cls == UA_NODECLASS_DATATYPE && p.first.text() == x.f.at("dt")) dt = p.first;
        const UA_DataType *t = nullptr;
        for (size_t i = 0; i < UA_TYPES_COUNT && !t; i++) if (Id::of(UA_TYPES[i].typeId).text() == x.f.at("dt")) t = &UA_TYPES[i];
        if (!t) for (const UA_DataTypeArray *a = s->config.customDataTypes; a && !t; a = a->next) for (size_t i = 0; i < a->typesSize && !t; i++) if (Id::of(a->types[i].typeId).text() == x.f.at("dt")) t = &a->types[i];
        if (!t && !dt.isNull()) { Id r; if (existed(dt) && rootOf(dt, r)) t = findBuiltin(r); }
        if (!t) return "";
        if (t->typeKind == UA_DATATYPEKIND_VARIANT) return "";
        ValueExp ve(ns);
        want = ve.variable(v->el, t);
        usesNs = ve.usesNs;
        if (ve.unsure) return "";
        if (ve.misfit) want = "none";
    }
    return have == want ? "" : "value: " + have.substr(0, 500) + " instead of " + want.substr(0, 500);
}
void Load::checkOffers() {
    const auto &O = s->offers;
    rt::R->stats[rt::ST_OFFERS] += O.size();
    bool full = ok && !(e->frame.faulted);
    std::map<Id, size_t> cnt; std::set<Id> done;
    size_t maxRound = 0;
    for (size_t i = 0; i < O.size(); i++) {
        auto f = first.find(O[i].id);
        if (f == first.end()) { violation(tags("C06,C14"), "offer-unknown", O[i].id.text() + " was offered to the server but the file does not describe it"); return; }
        if (done.count(O[i].id)) { violation(tags("C06"), "offer-again", O[i].id.text() + " was offered again although the server had accepted it"); return; }
        size_t k = ++cnt[O[i].id]; maxRound = std::max(maxRound, k);
        if (full && k > 1)
            for (auto &p : first) if (p.first != O[i].id && !done.count(p.first) && cnt[p.first] + 1 < k) { violation(tags("C06"), "offer-turn", O[i].id.text() + " was offered " + std::to_string(k) + " times before " + p.first.text() + " had its turn " + std::to_string(k - 1)); return; }
        if (O[i].result == UA_STATUSCODE_GOOD) { done.insert(O[i].id); if (k > 1) rt::R->stats[rt::ST_LATE_ACCEPT]++; }
    }
    if (maxRound > 1) rt::R->stats[rt::ST_ROUNDS] += maxRound - 1;
    if (O.size() > 100 * first.size() + 100) violation(tags("C06"), "offer-bound", std::to_string(O.size()) + " offers for " + std::to_string(first.size()) + " nodes");
    if (!full) return;
    for (auto &p : first) {
        if (!cnt[p.first]) { violation(tags("C06,C14"), "offer-none", p.first.text() + " was never offered to the server"); return; }
        if (!done.count(p.first) && !off[p.first].exists && cnt[p.first] < 10) { violation(tags("C06"), "offer-few", p.first.text() + " was offered only " + std::to_string(cnt[p.first]) + " times although the server never accepted it"); return; }
    }
}
void Load::checkNodes() {
    std::string sub;
    for (auto &p : s->nodes) {
        if (existed(p.first)) continue;
        if (!first.count(p.first)) { violation(tags("C14,C11"), "node-extra", p.first.text() + " is in the server after the load but the file does not describe it"); return; }
    }
    if (!ok) return; // out of memory on the way: what is there may be incomplete
    for (auto &p : first) {
        const ENode &x = *p.second.first;
        auto g = s->nodes.find(p.first);
        if (g == s->nodes.end()) {
            int r = round(p.first);
            if (r >= 0) {
                bool promised = r > 0;
                violation(tags(promised ? "C06,C14" : "C14,C11"), "node-missing", p.first.text() + " (" + classEl[x.cls] + ") is not in the server after a successful load" + (promised ? ", due in round " + std::to_string(r) : ""));
                return;
            }
            continue;
        }
        if (existed(p.first) || !acceptedNow(p.first)) continue;
        std::string t = off[p.first].good > 0 ? "C06,C14" : "C14";
        std::string d = nodeDiff(x, g->second);
        if (!d.empty()) { violation(tags(d.compare(0, 3, "bn:") == 0 || d.compare(0, 9, "data type") == 0 ? join(t, "C11") : t), "node-content", p.first.text() + " " + d); return; }
        bool usesNs = false; d = valueDiff(x, g->second, usesNs);
        if (!d.empty()) { violation(tags(usesNs ? join(t, "C11") : t), "node-value", p.first.text() + " " + d); return; }
        const ExtObj *eo = grp.extOf(p.second.second);
        if (g->second.context != (void *)eo) { violation(tags("C13"), "ext-attached", p.first.text() + ": the extension object attached to the node is not the one created for it"); return; }
    }
}
void Load::checkRefs() {
    std::set<Trip> may, must, refused;
    for (auto &c : s->refCalls) if (c.refused) refused.insert(trip(c.src, c.type, c.fwd, c.target));
    for (auto &p : first) {
        const ENode &x = *p.second.first;
        bool here = s->nodes.count(p.first) > 0;
        for (auto &r : x.refs) {
            Trip t = trip(x.id, r.type, r.fwd, r.target);
            may.insert(t);
            if (here && s->nodes.count(r.target) && isRefType(s, r.type)) must.insert(t);
        }
        bool tdc = x.cls == NODECLASS_OBJECT || x.cls == NODECLASS_VARIABLE;
        for (auto &r : x.td) { Trip t = trip(x.id, r.type, r.fwd, r.target); may.insert(t); if (acceptedNow(x.id) && x.td.size() == 1) must.insert(t); }
        if (tdc && x.td.empty()) { Trip t{x.id, HASTYPEDEF, Id::n0(x.cls == NODECLASS_OBJECT ? 58 : 63)}; may.insert(t); }
        bool inst = x.f.count("parent") && !x.parent.isNull();
        if (inst) {
            bool anyInv = false;
            for (auto &r : x.refs) if (gr.hierTypes.count(r.type) && !r.fwd) anyInv = true;
            if (!anyInv) {
                std::set<Id> types;
                auto pf = first.find(x.parent);
                if (pf != first.end()) for (auto &r : pf->second.first->refs) if (r.target == x.id && r.fwd && gr.hierTypes.count(r.type)) types.insert(r.type);
                if (types.empty()) types.insert(Id::n0(47));
                bool have = false;
                for (auto &t : types) { may.insert({x.parent, t, x.id}); if (after.count({x.parent, t, x.id})) have = true; }
                if (ok && acceptedNow(x.id) && !have) { violation(tags("C14"), "parent-missing", x.id.text() + " is not linked to " + x.parent.text() + ", its ParentNodeId"); return; }
            }
        }
    }
    for (auto &t : after) if (!oldRefs.count(t) && !may.count(t)) { violation(tags("C14,C11"), "ref-extra", "after the load the server has the reference " + t.text() + ", which the file does not state"); return; }
    if (!ok) return;
    for (auto &t : must) if (!after.count(t) && !refused.count(t)) { violation(tags("C14,C11"), "ref-missing", "reference " + t.text() + " is stated in the file and both ends exist, but it is not in the server"); return; }
}
bool Load::parentOf(const Id &id, Id &p) {
    std::set<Id> v;
    auto f = first.find(id); auto o = oldNodes.find(id);
    if (f != first.end()) for (auto &r : f->second.first->refs) if (!r.fwd && r.type == HASSUBTYPE) v.insert(r.target);
    if (o != oldNodes.end()) for (auto &r : o->second.refs) if (!r.fwd && r.type == HASSUBTYPE) { auto c = oldNodes.find(r.target); if (c != oldNodes.end() && c->second.cls == UA_NODECLASS_DATATYPE) v.insert(r.target); }
    if (v.size() != 1) return false;
    p = *v.begin(); return true;
}
bool Load::rootOf(Id id, Id &root) {
    for (int i = 0; i < 900; i++) {
        if (id.ns == 0 && id.type == UA_NODEIDTYPE_NUMERIC && (id.num <= 29 || id.num == 12755)) { root = id; return true; }
        Id p; if (!parentOf(id, p)) return false;
        id = p;
    }
    return false;
}
void Load::checkTypes() {
    const UA_DataTypeArray *head = s->config.customDataTypes;
    if (head == oldHead) {
        if (!ok) return;
        for (auto &p : first) if (p.second.first->cls == NODECLASS_DATATYPE && !findCustom(oldHead, p.first)) { violation(tags("C12"), "type-missing", "data type " + p.first.text() + " was loaded but is not among the custom types"); return; }
        return;
    }
    std::vector<const UA_DataType *> fresh;
    size_t guard = 0;
    const UA_DataTypeArray *a = head;
    for (; a && a != oldHead && guard < 100; a = a->next, guard++) for (size_t i = 0; i < a->typesSize; i++) fresh.push_back(&a->types[i]);
    if (a != oldHead) { violation(tags("C12"), "types-lost", "the custom types known before the load are no longer in the server's list"); return; }
    std::map<Id, const UA_DataType *> byId;
    for (auto t : fresh) {
        Id id = Id::of(t->typeId);
        if (!byId.insert({id, t}).second) { violation(tags("C12"), "type-twice", "data type " + id.text() + " was added twice"); return; }
        if (findCustom(oldHead, id)) { violation(tags("C12"), "type-again", "data type " + id.text() + " was added again"); return; }
        if (!first.count(id)) { violation(tags("C12,C11"), "type-extra", "custom type " + id.text() + " was added, which the file does not describe"); return; }
        for (unsigned i = 0; i < t->membersSize; i++) if (!t->members[i].memberType || !t->members[i].memberName) { violation(tags("C12"), "type-member", "custom type " + id.text() + " has an incomplete member"); return; }
    }
    rt::R->stats[rt::ST_CUSTOM_TYPES] += fresh.size();
    if (!ok) return;
    for (auto &p : first) if (p.second.first->cls == NODECLASS_DATATYPE && !byId.count(p.first) && !findCustom(oldHead, p.first)) { violation(tags("C12"), "type-missing", "data type " + p.first.text() + " was loaded but is not among the custom types"); return; }
    // members the model expects: name, candidates for the type, array, optional
    struct MM { std::string name; std::set<Id> types; bool arr, opt; };
    struct MT { bool sure = true; int kind = 0; std::vector<MM> m; bool fixed = false; const UA_DataType *base = nullptr; };
    std::map<Id, MT> model; std::set<Id> busyT;
    const Id variant = Id::n0(24);
    std::function<const MT &(const Id &)> get = [&](const Id &id) -> const MT & {
        auto it = model.find(id); if (it != model.end()) return it->second;
        MT t; const ENode &x = *first[id].first; Id root, par;
        if (!busyT.insert(id).second || !parentOf(id, par) || !rootOf(id, root)) { t.sure = false; return model[id] = t; }
        if (root == Id::n0(29)) t.kind = UA_DATATYPEKIND_ENUM;
        else if (root == Id::n0(12755)) { t.kind = UA_DATATYPEKIND_STRUCTURE; if (x.isUnion) t.sure = false; }
        else if (root == Id::n0(22)) {
            t.kind = x.isUnion ? UA_DATATYPEKIND_UNION : UA_DATATYPEKIND_STRUCTURE;
            if (x.isEnum) t.sure = false;
            bool opt = false;
            if (par != Id::n0(22)) { // inherited members
                int pk = 0;
                auto addDesc = [&](const UA_DataType *q) { pk = (int)q->typeKind; for (unsigned i = 0; i < q->membersSize; i++) t.m.push_back({q->members[i].memberName, {Id::of(q->members[i].memberType->typeId)}, (bool)q->members[i].isArray, (bool)q->members[i].isOptional}); };
                if (const UA_DataType *q = findBuiltin(par)) addDesc(q);
                else if (const UA_DataType *q = findCustom(oldHead, par)) addDesc(q);
                else if (first.count(par) && byId.count(par)) { const MT &q = get(par); if (!q.sure) t.sure = false; t.m = q.m; pk = q.kind; }
                else if (par.ns) t.sure = false;
                if (pk == UA_DATATYPEKIND_OPTSTRUCT) { opt = true; if (t.m.empty()) t.sure = false; }
                if (!t.m.empty() && (pk == UA_DATATYPEKIND_UNION || x.isUnion)) t.sure = false;
            }
            if (x.hasDef && !x.isOptionSet) for (auto &f : x.fields) {
                MM m{f.name, {}, f.valueRank >= 0, f.optional};
                if (f.optional) opt = true;
                if (findBuiltin(f.dataType)) m.types.insert(f.dataType);
                else if (f.dataType.ns == 0) m.types.insert(variant);
                else {
                    bool fr = byId.count(f.dataType) > 0, old = findCustom(oldHead, f.dataType) != nullptr;
                    if (fr) m.types.insert(b01(first[f.dataType].first->f.at("abs")) ? variant : f.dataType);
                    else if (old) { m.types.insert(f.dataType); if (S->abstractTypes.count(f.dataType)) m.types.insert(variant); if (first.count(f.dataType) && b01(first[f.dataType].first->f.at("abs"))) m.types.insert(variant); }
                    else m.types.insert(variant);
                }
                t.m.push_back(m);
            }
            if (opt) { if (x.isUnion) t.sure = false; t.kind = UA_DATATYPEKIND_OPTSTRUCT; }
            if (t.m.size() > 255 || x.fields.size() > 255) t.sure = false;
        } else {
            const UA_DataType *q = findBuiltin(root); if (!q) q = findBuiltin(variant);
            t.kind = (int)q->typeKind; t.base = q;
        }
        busyT.erase(id);
        return model[id] = t;
    };
    std::map<Id, unsigned> upper; // an upper bound of the size
    std::function<unsigned(const Id &)> atMost = [&](const Id &id) -> unsigned {
        if (const UA_DataType *q = findBuiltin(id)) return q->memSize;
        if (!byId.count(id)) { const UA_DataType *q = findCustom(oldHead, id); return q ? q->memSize : 48; }
        auto it = upper.find(id); if (it != upper.end()) return it->second;
        upper[id] = 1u << 20; // itself
        unsigned n = 8;
        for (auto &m : get(id).m) { unsigned k = m.arr ? 16 : 8; if (!m.arr && !m.opt) for (auto &t : m.types) k = std::max(k, atMost(t)); n = std::min(n + k + 8, 1u << 20); }
        return upper[id] = n;
    };
    // types that contain themselves, or contain such a type, have no layout
    std::map<Id, int> layout; // 1: being visited, 2: fine, 3: endless
    std::function<bool(const Id &)> endless = [&](const Id &id) {
        if (!byId.count(id)) return false;
        int &st = layout[id];
        if (st == 1 || st == 3) return true;
        if (st == 2) return false;
        st = 1; bool bad = !get(id).sure || atMost(id) > 65535; // too large to be described
        Id q; if (parentOf(id, q) && endless(q)) bad = true; // inherits its members
        for (auto &m : get(id).m) if (!m.arr && !m.opt) for (auto &t : m.types) if (endless(t)) bad = true;
        layout[id] = bad ? 3 : 2;
        return bad;
    };
    for (auto &p : byId) {
        const ENode &x = *first[p.first].first; const UA_DataType *t = p.second;
        auto bad = [&](const std::string &d) { violation(tags("C12"), "type-wrong", "custom type " + p.first.text() + ": " + d + "; it is " + typeText(t).substr(0, 700)); };
        std::string nm = x.f.at("bn"); nm = nm.substr(nm.find(':') + 1);
        if (nm != (t->typeName ? t->typeName : "")) { bad("name is not '" + nm + "'"); return; }
        MT m = get(p.first);
        if (!m.sure || endless(p.first)) continue;
        if ((int)t->typeKind != m.kind) { bad("kind is not " + std::to_string(m.kind)); return; }
        if (m.base) { if (t->memSize != m.base->memSize || t->pointerFree != m.base->pointerFree || t->membersSize || (t->overlayable && !m.base->overlayable)) { bad("layout is not the one of " + std::string(m.base->typeName)); return; } continue; }
        if (m.kind == UA_DATATYPEKIND_ENUM) { if (t->memSize != 4 || !t->pointerFree || t->membersSize) { bad("layout is not the one of an enumeration"); return; } continue; }
        // encoding id
        std::set<Id> enc;
        bool namedOtherwise = false; // described twice under different names
        for (auto &q : grp.doc.nodes) { const std::string &bn = q.f.at("bn"); if (bn.substr(bn.find(':') + 1) == "Default Binary") for (auto &r : q.refs) if (r.type == HASENCODING && !r.fwd && r.target == p.first) { enc.insert(q.id); const std::string &b1 = first[q.id].first->f.at("bn"); if (b1 != bn) namedOtherwise = true; } }
        if (enc.empty() || namedOtherwise) { for (auto &r : x.refs) if (r.type == HASENCODING) enc.insert(r.target); enc.insert(Id()); }
        if (!enc.count(Id::of(t->binaryEncodingId))) { violation(tags("C12,C11"), "type-encoding", "custom type " + p.first.text() + ": binary encoding id is " + Id::of(t->binaryEncodingId).text() + " instead of " + enc.begin()->text()); return; }
        if (t->membersSize != m.m.size()) { bad(std::to_string(t->membersSize) + " members instead of " + std::to_string(m.m.size())); return; }
        bool pf = true; unsigned off = 0, size = 0, al = 1; bool un = m.kind == UA_DATATYPEKIND_UNION; if (un) al = 4;
        for (size_t i = 0; i < m.m.size(); i++) al = std::max(al, memberAlign(t->members[i], 0));
        for (size_t i = 0; i < m.m.size(); i++) {
            const UA_DataTypeMember &g = t->members[i]; const MM &w = m.m[i];
            if (w.name != g.memberName) { bad("member " + std::to_string(i) + " is not called '" + w.name + "'"); return; }
            Id mt = Id::of(g.memberType->typeId);
            if (!w.types.count(mt)) { bad("member " + w.name + " has type " + mt.text() + " instead of " + w.types.begin()->text()); return; }
            const UA_DataType *right = findBuiltin(mt); if (!right) right = findCustom(head, mt);
            if (g.memberType != right) { bad("member " + w.name + " does not refer to the type registered as " + mt.text()); return; }
            if ((bool)g.isArray != w.arr || (bool)g.isOptional != w.opt) { bad("member " + w.name + " array/optional flags differ"); return; }
            unsigned start = un ? up(4, al) : up(off, memberAlign(g, 0));
            if (g.padding != start - (un ? 0 : off) - (un ? 0 : 0) && !(un && g.padding == start)) { bad("member " + w.name + " padding is not " + std::to_string(un ? start : start - off)); return; }
            unsigned sz = g.isArray ? 16 : g.isOptional ? 8 : g.memberType->memSize;
            if (g.isArray || g.isOptional || !g.memberType->pointerFree) pf = false;
            off = un ? off : start + sz; size = std::max(size, start + sz);
        }
        if (m.m.empty()) continue;
        if (up(size, al) > 65535) continue;
        if (t->memSize != up(size, al)) { bad("size is not " + std::to_string(up(size, al))); return; }
        bool flat = true; unsigned at = 0; for (size_t i = 0; i < t->membersSize; i++) { const UA_DataTypeMember &g = t->members[i]; if (g.padding || g.isArray || g.isOptional || !g.memberType->overlayable) flat = false; at += g.memberType->memSize; }
        if (t->overlayable && (un || !flat || at != t->memSize)) { bad("overlayable although its memory is not its encoding"); return; }
        if ((bool)t->pointerFree != pf) { bad("pointerFree is not " + std::to_string(pf)); return; }
    }
}
static void snapshotServer(SrvObj *S) { // after an operation: remember what must not change any more
    S->values.clear();
    for (auto &p : S->s->nodes) if (p.second.value.type) S->values[p.first] = sim_value_text(p.second.value);
    std::set<const UA_DataType *> have; for (auto &t : S->types) have.insert(t.p);
    for (const UA_DataTypeArray *a = S->s->config.customDataTypes; a; a = a->next) for (size_t i = 0; i < a->typesSize; i++) if (!have.count(&a->types[i])) S->types.push_back({&a->types[i], typeText(&a->types[i]), false});
}
static bool verifyServer(Exec *e, SrvObj *S, const std::string &ct) { // everything remembered is still so
    for (auto &t : S->types) {
        std::string now = typeText(t.p);
        if (now != t.text) { violation(join("C12", ct), "type-changed", "a custom type changed: " + now.substr(0, 500) + " was " + t.text.substr(0, 500)); return false; }
        const UA_DataType *q; { rt::Lib g; q = NodesetLoader_getCustomDataType(S->s, &t.p->typeId); }
        if (q != t.p) { violation(join("C12", ct), "type-lookup", "looking up custom type " + Id::of(t.p->typeId).text() + (q ? " gives another descriptor" : " finds nothing")); return false; }
    }
    for (auto &v : S->values) {
        auto i = S->s->nodes.find(v.first);
        std::string now = i == S->s->nodes.end() ? "(gone)" : sim_value_text(i->second.value);
        if (now != v.second) { violation(join("C12,C14", ct), "value-changed", "the value of " + v.first.text() + " changed: " + now.substr(0, 500) + " was " + v.second.substr(0, 500)); return false; }
    }
    (void)e;
    return true;
}
static void opLoad(Exec *e, SrvObj *S, const Op &op) {
    FileInfo *fi = fileInfo(op.arg); if (!fi) return;
    UA_Server *s = S->s; Load L; L.e = e; L.S = S; L.fi = fi; L.s = s;
    bool ext = op.num("ext", 0);
    e->extOpStart = e->extLog.size(); size_t extObj0 = e->extObjs.size();
    for (auto &p : s->nodes) { L.oldText[p.first] = sim_node_text(p.second, true); SrvNode c; c.cls = p.second.cls; c.isAbstract = p.second.isAbstract; c.refs = p.second.refs; L.oldNodes[p.first] = c; }
    L.oldRefs = triples(s); L.oldHead = s->config.customDataTypes;
    std::set<Id> baseHier, baseKnown; subTree(s, Id::n0(33), baseHier); subTree(s, Id::n0(32), baseKnown); baseKnown.insert(HASTYPEDEF);
    s->offers.clear(); s->nsCalls.clear(); s->refCalls.clear();
    // faults of this operation
    struct RF { const Fault *f; long used; }; std::vector<RF> refuse, refuseRef; long refCall = 0;
    if (gPlan->solo.empty() || true) for (auto &f : gPlan->faults) if (f.task == e->frame.name && f.op == e->frame.op) { if (f.kind == "refuse") refuse.push_back({&f, 0}); if (f.kind == "refuseref") refuseRef.push_back({&f, 0}); }
    auto mapId = [&](const std::string &t) { Id i; if (!parseIdText(t, i)) return Id(); if (i.ns && i.ns <= s->nsCalls.size()) i.ns = s->nsCalls[i.ns - 1].second; return i; };
    std::map<Id, size_t> injected;
    s->refuse = [&](const Id &id, int, size_t) {
        for (auto &r : refuse) if ((r.f->n < 0 || r.used < r.f->n) && mapId(r.f->arg) == id) { r.used++; injected[id]++; rt::R->stats[rt::ST_REFUSE]++; return true; }
        return false;
    };
    s->refuseRef = [&](const Id &, const Id &, const Id &, bool) {
        long k = refCall++;
        for (auto &r : refuseRef) if (k >= r.f->k && (r.f->n < 0 || k < r.f->k + r.f->n)) { rt::R->stats[rt::ST_REFUSE_REF]++; return true; }
        return false;
    };
    std::string path = "/sim/" + op.arg;
    bool ok; { rt::Lib g; ok = NodesetLoader_loadFile(s, path.c_str(), ext ? &gExt : nullptr); }
    s->refuse = nullptr; s->refuseRef = nullptr;
    rt::Frame &fr = e->frame;
    L.ok = ok; L.refusals = !injected.empty(); for (auto &c : s->refCalls) if (c.refused) L.refRefusals = true;
    record(std::string("load ") + op.arg + (ok ? " ok" : " failed") + " ns=" + std::to_string(s->nsCalls.size()) + " offers=" + std::to_string(s->offers.size()));
    for (auto &o : s->offers) record("  offer " + o.id.text() + " " + std::to_string(o.result));
    rt::R->stats[ok ? rt::ST_LOAD_OK : rt::ST_LOAD_FAIL]++;
    std::string ct; if (S->failedBefore) ct = join(ct, "C05"); if (S->oomBefore || fr.faulted) ct = join(ct, "C08");
    L.ct = ct;
    bool faulted = fr.faulted;
    // ---- what the file is ----
    const Doc *d = fi->d;
    bool noFile = fi->f->missing || fi->f->openErr;
    L.ns = {0}; for (auto &c : s->nsCalls) L.ns.push_back(c.second);
    bool parsed = d && !noFile && (fi->exact || fi->prefix);
    if (parsed) {
        L.grp.fi = fi; L.grp.doc = expectDoc(*d, L.ns, &fi->r);
        for (size_t i = 0; i < L.grp.doc.nodes.size(); i++) L.first.insert({L.grp.doc.nodes[i].id, {&L.grp.doc.nodes[i], i}});
        std::vector<const ENode *> v; for (auto &p : L.first) v.push_back(p.second.first);
        L.gr = analyse(v, baseHier, baseKnown, false, false);
        L.grp.extOn = ext;
        for (size_t i = extObj0; i < e->extObjs.size(); i++) L.grp.exts.push_back(e->extObjs[i]);
    }
    // ---- the result ----
    FileInfo::Want want = fi->want; bool sortBad = false;
    if (fi->exact) { if (!L.gr.ok()) { want = FileInfo::FALSE_; sortBad = true; } else if (L.gr.cycleSoft) want = FileInfo::ANY; }
    else if (want == FileInfo::TRUE_) want = FileInfo::ANY;
    if (ok && fr.ioErr) violation(join("C01,C05", ct), "load-true-unreadable", "load reported success although the file could not be read to its end (" + op.arg + ")");
    else if (ok && want == FileInfo::FALSE_) violation(join(sortBad ? "C04,C05" : "C01,C05", ct), sortBad ? "load-true-unsortable" : "load-true-malformed", sortBad ? std::string("load reported success although ") + (L.gr.cycle ? "hierarchical references form a cycle" : "a reference type cannot be resolved") : "load reported success for a file that is not well-formed or cannot be opened");
    else if (ok && fr.delivered < fi->bytes.size() && fi->want != FileInfo::ANY) violation(join("C01,C05", ct), "load-true-incomplete", "load reported success after reading " + std::to_string(fr.delivered) + " of " + std::to_string(fi->bytes.size()) + " bytes");
    else if (!ok && want == FileInfo::TRUE_ && !faulted && !fr.ioErr && !fr.eintr) violation(join("C01,C14", join(ct, L.refusals || L.refRefusals ? "C06" : "")), "load-false", "load of a readable well-formed resolvable file failed (" + op.arg + "): " + e->lastError);
    if (!ok && !faulted && !e->errors) violation("C01", "load-silent", "load failed without an error-level log message");
    // ---- namespaces ----
    if (parsed) {
        size_t avail = (size_t)fr.delivered, maxUri = 0, minUri = ok ? L.grp.doc.uris.size() : 0;
        for (size_t x : L.grp.doc.uriEnd) if (x <= avail) maxUri++;
        for (size_t i = 0; i < s->nsCalls.size(); i++)
            if (i >= L.grp.doc.uris.size() || s->nsCalls[i].first != L.grp.doc.uris[i]) { violation(join("C11", ct), "uri-wrong", "addNamespace call " + std::to_string(i) + " got '" + s->nsCalls[i].first + "', the file says '" + (i < L.grp.doc.uris.size() ? L.grp.doc.uris[i] : "(none)") + "'"); break; }
        if (s->nsCalls.size() < minUri) violation(join("C11", ct), "uri-missing", "addNamespace was called " + std::to_string(s->nsCalls.size()) + " times for " + std::to_string(minUri) + " namespaces");
        if (s->nsCalls.size() > maxUri) violation(join("C11", ct), "uri-early", "more namespaces registered than were read");
        std::vector<ExtEv> full; for (auto &x : L.grp.doc.exts) full.insert(full.end(), x.begin(), x.end());
        e->checkExt(full, !ok, ext);
    } else { e->extErr.clear(); if (noFile && !s->nsCalls.empty()) violation("C11", "uri-nofile", "addNamespace called although the file could not be opened"); }
    // ---- what was there before ----
    L.after = triples(s);
    for (auto &p : L.oldText) {
        auto i = s->nodes.find(p.first);
        std::string now = i == s->nodes.end() ? "(gone)" : sim_node_text(i->second, true);
        if (now != p.second) { violation(join(ok ? "C14" : "C05,C14", ct), "old-node-changed", p.first.text() + " was there before the load and changed: " + now.substr(0, 500) + " was " + p.second.substr(0, 500)); break; }
    }
    for (auto &t : L.oldRefs) if (!L.after.count(t)) { violation(join(ok ? "C14" : "C05,C14", ct), "old-ref-gone", "reference " + t.text() + " was there before the load and is gone"); break; }
    verifyServer(e, S, ct);
    bool oom = faulted && !ok;
    if (!ok && !oom) { // nothing may have happened
        std::string t = join("C05", ct);
        if (s->nodes.size() != L.oldText.size()) { for (auto &p : s->nodes) if (!L.existed(p.first)) { violation(t, "failed-load-node", "the load failed but node " + p.first.text() + " is in the server"); break; } }
        else if (L.after != L.oldRefs) { for (auto &x : L.after) if (!L.oldRefs.count(x)) { violation(t, "failed-load-ref", "the load failed but reference " + x.text() + " is in the server"); break; } }
        if (s->config.customDataTypes != L.oldHead) violation(t, "failed-load-types", "the load failed but the server's custom data types changed");
        if (!s->offers.empty()) violation(t, "failed-load-offer", "the load failed but nodes were offered to the server");
    } else if (fi->exact) {
        for (auto &p : injected) L.off[p.first].injected = p.second;
        std::map<Id, size_t> cnt;
        for (size_t i = 0; i < s->offers.size(); i++) {
            auto &o = L.off[s->offers[i].id]; o.at.push_back(i); size_t k = cnt[s->offers[i].id]++;
            if (s->offers[i].result == UA_STATUSCODE_GOOD) o.good = (long)k;
            if (s->offers[i].result == UA_STATUSCODE_BADNODEIDEXISTS) o.exists = true;
        }
        L.checkOffers(); L.checkNodes(); L.checkRefs(); L.checkTypes();
        if (ok) for (auto &p : L.first) if (p.second.first->cls == NODECLASS_DATATYPE && b01(p.second.first->f.at("abs"))) S->abstractTypes.insert(p.first);
    } else if (ok) S->dirty = true;
    if (!ok) S->failedBefore = true; else if (S->failedBefore) rt::R->stats[rt::ST_FAIL_THEN_OK]++;
    if (faulted) { S->oomBefore = true; rt::R->stats[rt::ST_OOM_CONTAINED]++; }
    snapshotServer(S);
}
void Exec::srvOp(const Op &op) {
    if (op.kind == "server") { opServer(this, op); return; }
    auto it = servers.find(op.obj); if (it == servers.end()) return;
    if (op.kind == "load") opLoad(this, it->second, op);
    else if (op.kind == "badload") { // no server or no path
        bool ok; { rt::Lib g; ok = NodesetLoader_loadFile(op.arg == "path" ? it->second->s : nullptr, op.arg == "path" ? nullptr : "/sim/none", nullptr); }
        record(std::string("badload ") + (ok ? "ok" : "failed"));
        if (ok) violation("C01,C05", "load-badargs", "a load without a server or path reported success");
    }
    else if (op.kind == "read") opRead(this, it->second);
    else if (op.kind == "close") { SrvObj *S = it->second; servers.erase(it); closeServer(S); record("close"); }
}
void Exec::srvVerify() { for (auto &p : servers) verifyServer(this, p.second, ""); }
void Exec::srvEnd() { while (!servers.empty()) { SrvObj *S = servers.begin()->second; servers.erase(servers.begin()); closeServer(S); } }
