/* Simulated open62541 1.4 server. Part of the simulator (a stand-in for the real server): an information
 * model with the checks the real one makes when nodes and references are added, plus seams for refusals. */
#include "sim_server.h"
#include <open62541/server_config_default.h>
#include <cstring>
#include <cstdio>
#include <cinttypes>

static std::string S(const UA_String &s) { return s.length ? std::string((const char *)s.data, s.length) : std::string(); }
bool Id::isNull() const {
    if (ns) return false;
    if (type == UA_NODEIDTYPE_NUMERIC) return num == 0;
    if (type == UA_NODEIDTYPE_GUID) return str == std::string(16, '\0');
    return str.empty();
}
Id Id::of(const UA_NodeId &n) {
    Id i; i.ns = n.namespaceIndex; i.type = n.identifierType;
    switch (n.identifierType) {
    case UA_NODEIDTYPE_NUMERIC: i.num = n.identifier.numeric; break;
    case UA_NODEIDTYPE_GUID: i.str.assign((const char *)&n.identifier.guid, 16); break;
    default: i.str = S(n.identifier.string);
    }
    return i;
}
static void hexs(std::string &o, const std::string &s) { char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); o += b; } }
std::string Id::text() const {
    std::string o = "ns=" + std::to_string(ns) + ";";
    if (type == UA_NODEIDTYPE_NUMERIC) return o + "i=" + std::to_string(num);
    if (type == UA_NODEIDTYPE_STRING) return o + "s=" + str;
    o += type == UA_NODEIDTYPE_GUID ? "g=" : "b=";
    hexs(o, str);
    return o;
}

struct Ns0Row { uint32_t id; int cls; const char *bn, *dn; uint32_t parent, ptype, td; int abstr, symm; const char *inv; };
static const Ns0Row ns0[] = {
#include "ns0_table.inc"
};

static void link(UA_Server *s, const Id &a, const Id &t, const Id &b) {
    s->nodes[a].refs.insert({t, true, b});
    s->nodes[b].refs.insert({t, false, a});
}
static void defaultLog(void *, UA_LogLevel, UA_LogCategory, const char *, va_list) {}

extern "C" UA_Server *UA_Server_new(void) {
    HostScope h;
    UA_Server *s = new UA_Server;
    s->namespaces = {"http://opcfoundation.org/UA/", "urn:sim:application"};
    memset(&s->config, 0, sizeof s->config);
    memset(&s->logger, 0, sizeof s->logger);
    s->logger.log = defaultLog;
    s->config.logging = &s->logger;
    for (const Ns0Row &r : ns0) {
        SrvNode &n = s->nodes[Id::n0(r.id)];
        n.id = Id::n0(r.id); n.cls = r.cls; n.bnName = r.bn; n.dnText = r.dn; n.isAbstract = r.abstr; n.symmetric = r.symm; n.invText = r.inv;
        n.valueRank = r.cls == UA_NODECLASS_VARIABLETYPE ? -2 : 0;
        n.dataType = r.cls == UA_NODECLASS_VARIABLETYPE ? Id::n0(24) : Id();
    }
    for (const Ns0Row &r : ns0) {
        if (r.parent) link(s, Id::n0(r.parent), Id::n0(r.ptype), Id::n0(r.id));
        if (r.td) link(s, Id::n0(r.id), Id::n0(40), Id::n0(r.td));
    }
    return s;
}
extern "C" void UA_Server_delete(UA_Server *s) {
    HostScope h;
    if (!s) return;
    for (auto &p : s->nodes) UA_Variant_clear(&p.second.value);
    delete s;
}
extern "C" UA_StatusCode UA_Server_run_shutdown(UA_Server *) { return UA_STATUSCODE_GOOD; }
extern "C" UA_StatusCode UA_Server_run_startup(UA_Server *) { return UA_STATUSCODE_GOOD; }
extern "C" UA_ServerConfig *UA_Server_getConfig(UA_Server *s) { return s ? &s->config : nullptr; }
extern "C" UA_StatusCode UA_ServerConfig_setDefault(UA_ServerConfig *) { return UA_STATUSCODE_GOOD; }
extern "C" UA_StatusCode UA_ServerConfig_setMinimal(UA_ServerConfig *, UA_UInt16, const UA_ByteString *) { return UA_STATUSCODE_GOOD; }

extern "C" UA_UInt16 UA_Server_addNamespace(UA_Server *s, const char *name) {
    HostScope h;
    s->apiCalls++;
    std::string n(name); /* like the real one: the caller must pass a string */
    size_t i = 0;
    while (i < s->namespaces.size() && s->namespaces[i] != n) i++;
    if (i == s->namespaces.size()) s->namespaces.push_back(n);
    s->nsCalls.push_back({n, (unsigned)i});
    if (s->event) s->event();
    return (UA_UInt16)i;
}

static bool isSubtype(UA_Server *s, const Id &leaf, const Id &root) {
    std::set<Id> seen; std::vector<Id> q{leaf};
    while (!q.empty()) {
        Id c = q.back(); q.pop_back();
        if (c == root) return true;
        if (!seen.insert(c).second) continue;
        auto it = s->nodes.find(c);
        if (it == s->nodes.end()) continue;
        for (auto &r : it->second.refs) if (!r.fwd && r.type == Id::n0(45)) q.push_back(r.target);
    }
    return false;
}

static UA_String mk(const std::string &v) {
    UA_String o; UA_String_init(&o);
    UA_String t; t.length = v.size(); t.data = (UA_Byte *)(uintptr_t)v.data();
    UA_String_copy(&t, &o);
    return o;
}
static UA_NodeId mkId(const Id &i) {
    UA_NodeId n; UA_NodeId_init(&n);
    n.namespaceIndex = (UA_UInt16)i.ns; n.identifierType = (enum UA_NodeIdType)i.type;
    if (i.type == UA_NODEIDTYPE_NUMERIC) n.identifier.numeric = i.num;
    else if (i.type == UA_NODEIDTYPE_GUID) memcpy(&n.identifier.guid, i.str.data(), 16);
    else n.identifier.string = mk(i.str);
    return n;
}

static UA_BrowseResult browseFrom(UA_Server *s, const SrvCont &c) {
    UA_BrowseResult br; memset(&br, 0, sizeof br);
    auto it = s->nodes.find(c.node);
    if (it == s->nodes.end()) { br.statusCode = UA_STATUSCODE_BADNODEIDUNKNOWN; return br; }
    if (!c.type.isNull() && !s->nodes.count(c.type)) { br.statusCode = UA_STATUSCODE_BADREFERENCETYPEIDINVALID; return br; }
    std::vector<const SrvRef *> hits;
    for (auto &r : it->second.refs) {
        if (c.direction == UA_BROWSEDIRECTION_FORWARD && !r.fwd) continue;
        if (c.direction == UA_BROWSEDIRECTION_INVERSE && r.fwd) continue;
        if (!c.type.isNull() && r.type != c.type && !(c.subtypes && isSubtype(s, r.type, c.type))) continue;
        auto t = s->nodes.find(r.target);
        if (t == s->nodes.end()) continue;
        if (c.classMask && !(c.classMask & (unsigned)t->second.cls)) continue;
        hits.push_back(&r);
    }
    hits.erase(hits.begin(), hits.begin() + (long)std::min(c.offset, hits.size()));
    size_t n = hits.size();
    if (c.max && n > c.max) {
        n = c.max;
        SrvCont next = c; next.offset += n;
        std::string name = "more" + std::to_string(++s->contSeq);
        s->continuations[name] = next;
        br.continuationPoint = mk(name);
    }
    if (n) {
        br.references = (UA_ReferenceDescription *)UA_calloc(n, sizeof(UA_ReferenceDescription));
        br.referencesSize = n;
        for (size_t i = 0; i < n; i++) {
            UA_ReferenceDescription *d = &br.references[i];
            const SrvNode &t = s->nodes[hits[i]->target];
            d->nodeId.nodeId = mkId(t.id);
            d->isForward = hits[i]->fwd;
            if (c.resultMask & UA_BROWSERESULTMASK_REFERENCETYPEID) d->referenceTypeId = mkId(hits[i]->type);
            if (c.resultMask & UA_BROWSERESULTMASK_NODECLASS) d->nodeClass = (UA_NodeClass)t.cls;
            if (c.resultMask & UA_BROWSERESULTMASK_BROWSENAME) { d->browseName.namespaceIndex = (UA_UInt16)t.bnNs; d->browseName.name = mk(t.bnName); }
            if (c.resultMask & UA_BROWSERESULTMASK_DISPLAYNAME) { d->displayName.locale = mk(t.dnLoc); d->displayName.text = mk(t.dnText); }
            if (c.resultMask & UA_BROWSERESULTMASK_TYPEDEFINITION) for (auto &r : t.refs) if (r.fwd && r.type == Id::n0(40)) { d->typeDefinition.nodeId = mkId(r.target); break; }
        }
    }
    return br;
}
extern "C" UA_BrowseResult UA_Server_browse(UA_Server *s, UA_UInt32 maxReferences, const UA_BrowseDescription *bd) {
    HostScope h;
    s->apiCalls++; s->browseCalls++;
    SrvCont c; c.node = Id::of(bd->nodeId); c.type = Id::of(bd->referenceTypeId); c.direction = bd->browseDirection; c.subtypes = bd->includeSubtypes;
    c.classMask = bd->nodeClassMask; c.resultMask = bd->resultMask; c.max = maxReferences;
    return browseFrom(s, c);
}
extern "C" UA_BrowseResult UA_Server_browseNext(UA_Server *s, UA_Boolean release, const UA_ByteString *cp) {
    HostScope h;
    s->apiCalls++; s->browseCalls++;
    UA_BrowseResult br; memset(&br, 0, sizeof br);
    auto i = s->continuations.find(S(*cp));
    if (i == s->continuations.end()) { br.statusCode = UA_STATUSCODE_BADNOTFOUND; return br; }
    SrvCont c = i->second; s->continuations.erase(i);
    return release ? br : browseFrom(s, c);
}

static bool isTypeClass(int c) {
    return c == UA_NODECLASS_VARIABLETYPE || c == UA_NODECLASS_OBJECTTYPE || c == UA_NODECLASS_REFERENCETYPE || c == UA_NODECLASS_DATATYPE;
}

static UA_StatusCode addImpl(UA_Server *s, SrvNode &n, UA_NodeId reqId, UA_NodeId parentId, UA_NodeId refTypeId,
                             UA_QualifiedName bn, UA_NodeId typeDef, void *ctx, UA_NodeId *out) {
    n.id = Id::of(reqId);
    n.bnNs = bn.namespaceIndex; n.bnName = S(bn.name);
    n.context = ctx;
    if (n.id.ns >= s->namespaces.size()) return UA_STATUSCODE_BADNODEIDINVALID;
    if (n.id.isNull()) { Id f; f.ns = n.id.ns; f.num = s->freshId++; n.id = f; }
    if (s->nodes.count(n.id)) return UA_STATUSCODE_BADNODEIDEXISTS;
    Id parent = Id::of(parentId), rt = Id::of(refTypeId), td = Id::of(typeDef);
    bool tc = isTypeClass(n.cls);
    bool noParent = (n.cls == UA_NODECLASS_OBJECT || n.cls == UA_NODECLASS_VARIABLE) && parent.isNull() && rt.isNull();
    if (!noParent) {
        auto p = s->nodes.find(parent);
        if (p == s->nodes.end()) return UA_STATUSCODE_BADPARENTNODEIDINVALID;
        auto r = s->nodes.find(rt);
        if (r == s->nodes.end() || r->second.cls != UA_NODECLASS_REFERENCETYPE) return UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
        if (r->second.isAbstract) return UA_STATUSCODE_BADREFERENCENOTALLOWED;
        if (tc) {
            if (rt != Id::n0(UA_NS0ID_HASSUBTYPE)) return UA_STATUSCODE_BADREFERENCENOTALLOWED;
            if (p->second.cls != n.cls) return UA_STATUSCODE_BADPARENTNODEIDINVALID;
        } else if (!isSubtype(s, rt, Id::n0(UA_NS0ID_HIERARCHICALREFERENCES)))
            return UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
    }
    if (n.cls == UA_NODECLASS_OBJECT || n.cls == UA_NODECLASS_VARIABLE) {
        if (td.isNull()) td = Id::n0(n.cls == UA_NODECLASS_OBJECT ? UA_NS0ID_BASEOBJECTTYPE : UA_NS0ID_BASEDATAVARIABLETYPE);
        auto t = s->nodes.find(td);
        if (t == s->nodes.end()) return UA_STATUSCODE_BADTYPEDEFINITIONINVALID;
        if (t->second.cls != (n.cls == UA_NODECLASS_OBJECT ? UA_NODECLASS_OBJECTTYPE : UA_NODECLASS_VARIABLETYPE))
            return UA_STATUSCODE_BADTYPEDEFINITIONINVALID;
    }
    Id id = n.id;
    s->nodes[id] = n;
    UA_Variant_init(&n.value); /* moved */
    if (!noParent) link(s, parent, rt, id);
    if (n.cls == UA_NODECLASS_OBJECT || n.cls == UA_NODECLASS_VARIABLE) link(s, id, Id::n0(40), td);
    if (out) *out = mkId(id);
    return UA_STATUSCODE_GOOD;
}
static UA_StatusCode add(UA_Server *s, SrvNode &n, UA_NodeId reqId, UA_NodeId parentId, UA_NodeId refTypeId,
                         UA_QualifiedName bn, UA_NodeId typeDef, void *ctx, UA_NodeId *out) {
    s->apiCalls++;
    Id id = Id::of(reqId);
    bool injected = s->refuse && s->refuse(id, n.cls, s->offers.size());
    UA_StatusCode r = injected ? UA_STATUSCODE_BADRESOURCEUNAVAILABLE : addImpl(s, n, reqId, parentId, refTypeId, bn, typeDef, ctx, out);
    if (r != UA_STATUSCODE_GOOD) UA_Variant_clear(&n.value);
    s->offers.push_back({id, n.cls, r, injected});
    if (s->event) s->event();
    return r;
}
template <class A> static void common(SrvNode &n, const A &a) {
    n.dnLoc = S(a.displayName.locale); n.dnText = S(a.displayName.text);
    n.deLoc = S(a.description.locale); n.deText = S(a.description.text);
}

extern "C" UA_StatusCode UA_Server_addNode_begin(UA_Server *s, const UA_NodeClass cls, const UA_NodeId id, const UA_NodeId parent,
    const UA_NodeId refType, const UA_QualifiedName bn, const UA_NodeId td, const void *attr, const UA_DataType *at, void *ctx, UA_NodeId *out) {
    HostScope h;
    SrvNode n; n.cls = cls;
    switch (cls) {
    case UA_NODECLASS_OBJECT: {
        if (at != &UA_TYPES[UA_TYPES_OBJECTATTRIBUTES]) return UA_STATUSCODE_BADTYPEMISMATCH;
        auto *a = (const UA_ObjectAttributes *)attr; common(n, *a); n.eventNotifier = a->eventNotifier; break;
    }
    case UA_NODECLASS_VARIABLE: {
        if (at != &UA_TYPES[UA_TYPES_VARIABLEATTRIBUTES]) return UA_STATUSCODE_BADTYPEMISMATCH;
        auto *a = (const UA_VariableAttributes *)attr; common(n, *a);
        n.dataType = Id::of(a->dataType); n.valueRank = a->valueRank; n.accessLevel = a->accessLevel; n.userAccessLevel = a->userAccessLevel;
        n.minSampling = a->minimumSamplingInterval; n.historizing = a->historizing;
        n.arrayDims.assign(a->arrayDimensions, a->arrayDimensions + a->arrayDimensionsSize);
        if (UA_Variant_copy(&a->value, &n.value) != UA_STATUSCODE_GOOD) return UA_STATUSCODE_BADOUTOFMEMORY;
        break;
    }
    case UA_NODECLASS_VARIABLETYPE: {
        if (at != &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES]) return UA_STATUSCODE_BADTYPEMISMATCH;
        auto *a = (const UA_VariableTypeAttributes *)attr; common(n, *a);
        n.dataType = Id::of(a->dataType); n.valueRank = a->valueRank; n.isAbstract = a->isAbstract;
        n.arrayDims.assign(a->arrayDimensions, a->arrayDimensions + a->arrayDimensionsSize);
        if (UA_Variant_copy(&a->value, &n.value) != UA_STATUSCODE_GOOD) return UA_STATUSCODE_BADOUTOFMEMORY;
        break;
    }
    case UA_NODECLASS_OBJECTTYPE: { auto *a = (const UA_ObjectTypeAttributes *)attr; common(n, *a); n.isAbstract = a->isAbstract; break; }
    case UA_NODECLASS_DATATYPE: { auto *a = (const UA_DataTypeAttributes *)attr; common(n, *a); n.isAbstract = a->isAbstract; break; }
    case UA_NODECLASS_REFERENCETYPE: {
        auto *a = (const UA_ReferenceTypeAttributes *)attr; common(n, *a); n.isAbstract = a->isAbstract; n.symmetric = a->symmetric;
        n.invLoc = S(a->inverseName.locale); n.invText = S(a->inverseName.text); break;
    }
    case UA_NODECLASS_VIEW: { auto *a = (const UA_ViewAttributes *)attr; common(n, *a); n.containsNoLoops = a->containsNoLoops; n.eventNotifier = a->eventNotifier; break; }
    case UA_NODECLASS_METHOD: { auto *a = (const UA_MethodAttributes *)attr; common(n, *a); n.executable = a->executable; n.userExecutable = a->userExecutable; break; }
    default: return UA_STATUSCODE_BADNODECLASSINVALID;
    }
    return add(s, n, id, parent, refType, bn, td, ctx, out);
}
extern "C" UA_StatusCode UA_Server_addNode_finish(UA_Server *, const UA_NodeId) { return UA_STATUSCODE_GOOD; }
extern "C" UA_StatusCode UA_Server_addMethodNode(UA_Server *s, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId rt,
    const UA_QualifiedName bn, const UA_MethodAttributes attr, UA_MethodCallback, size_t inSize, const UA_Argument *in, size_t outSize,
    const UA_Argument *outArgs, void *ctx, UA_NodeId *out) {
    UA_StatusCode r = UA_Server_addNode_begin(s, UA_NODECLASS_METHOD, id, parent, rt, bn, UA_NODEID_NULL, &attr, &UA_TYPES[UA_TYPES_METHODATTRIBUTES], ctx, out);
    if (r != UA_STATUSCODE_GOOD) return r;
    HostScope h;
    for (int k = 0; k < 2; k++) { /* arguments become properties of the method */
        size_t n = k ? outSize : inSize;
        for (size_t i = 0; i < n; i++) (void)S((k ? outArgs : in)[i].name);
        if (!n) continue;
        SrvNode p; p.cls = UA_NODECLASS_VARIABLE; p.id.ns = id.namespaceIndex; p.id.num = s->freshId++; p.bnName = k ? "OutputArguments" : "InputArguments";
        s->nodes[p.id] = p;
        link(s, Id::of(id), Id::n0(46), p.id);
    }
    return r;
}
#define ADD4(NAME, CLS, TI) \
extern "C" UA_StatusCode UA_Server_add##NAME##Node(UA_Server *s, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId rt, \
    const UA_QualifiedName bn, const UA_##NAME##Attributes attr, void *ctx, UA_NodeId *out) { \
    return UA_Server_addNode_begin(s, CLS, id, parent, rt, bn, UA_NODEID_NULL, &attr, &UA_TYPES[TI], ctx, out); }
ADD4(View, UA_NODECLASS_VIEW, UA_TYPES_VIEWATTRIBUTES)
ADD4(ObjectType, UA_NODECLASS_OBJECTTYPE, UA_TYPES_OBJECTTYPEATTRIBUTES)
ADD4(ReferenceType, UA_NODECLASS_REFERENCETYPE, UA_TYPES_REFERENCETYPEATTRIBUTES)
ADD4(DataType, UA_NODECLASS_DATATYPE, UA_TYPES_DATATYPEATTRIBUTES)
#define ADD5(NAME, CLS, TI) \
extern "C" UA_StatusCode UA_Server_add##NAME##Node(UA_Server *s, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId rt, \
    const UA_QualifiedName bn, const UA_NodeId td, const UA_##NAME##Attributes attr, void *ctx, UA_NodeId *out) { \
    return UA_Server_addNode_begin(s, CLS, id, parent, rt, bn, td, &attr, &UA_TYPES[TI], ctx, out); }
ADD5(Object, UA_NODECLASS_OBJECT, UA_TYPES_OBJECTATTRIBUTES)
ADD5(Variable, UA_NODECLASS_VARIABLE, UA_TYPES_VARIABLEATTRIBUTES)
ADD5(VariableType, UA_NODECLASS_VARIABLETYPE, UA_TYPES_VARIABLETYPEATTRIBUTES)

extern "C" UA_StatusCode UA_Server_addReference(UA_Server *s, const UA_NodeId src, const UA_NodeId rt, const UA_ExpandedNodeId tgt, UA_Boolean fwd) {
    HostScope h;
    s->apiCalls++;
    Id a = Id::of(src), t = Id::of(rt), b = Id::of(tgt.nodeId);
    bool refused = s->refuseRef && s->refuseRef(a, t, b, fwd);
    s->refCalls.push_back({a, t, b, (bool)fwd, refused});
    if (refused) return UA_STATUSCODE_BADRESOURCEUNAVAILABLE;
    auto r = s->nodes.find(t);
    if (r == s->nodes.end() || r->second.cls != UA_NODECLASS_REFERENCETYPE) return UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
    auto x = s->nodes.find(a), y = s->nodes.find(b);
    if (x == s->nodes.end() || y == s->nodes.end()) return UA_STATUSCODE_BADNODEIDUNKNOWN;
    bool f1 = x->second.refs.insert({t, fwd, b}).second;
    bool f2 = y->second.refs.insert({t, !fwd, a}).second;
    return (f1 || f2) ? UA_STATUSCODE_GOOD : UA_STATUSCODE_BADDUPLICATEREFERENCENOTALLOWED;
}

extern "C" UA_StatusCode UA_Server_deleteReference(UA_Server *s, const UA_NodeId src, const UA_NodeId rt, UA_Boolean fwd, const UA_ExpandedNodeId tgt, UA_Boolean both) {
    HostScope h;
    s->apiCalls++;
    auto x = s->nodes.find(Id::of(src)), y = s->nodes.find(Id::of(tgt.nodeId));
    if (x == s->nodes.end()) return UA_STATUSCODE_BADNODEIDUNKNOWN;
    bool d = x->second.refs.erase({Id::of(rt), fwd, Id::of(tgt.nodeId)}) > 0;
    if (both && y != s->nodes.end()) y->second.refs.erase({Id::of(rt), !fwd, Id::of(src)});
    return d ? UA_STATUSCODE_GOOD : UA_STATUSCODE_BADNOTFOUND;
}
extern "C" UA_StatusCode UA_Server_deleteNode(UA_Server *s, const UA_NodeId id, UA_Boolean refs) {
    HostScope h;
    s->apiCalls++;
    auto x = s->nodes.find(Id::of(id));
    if (x == s->nodes.end()) return UA_STATUSCODE_BADNODEIDUNKNOWN;
    if (refs) for (auto &r : x->second.refs) { auto y = s->nodes.find(r.target); if (y != s->nodes.end() && y != x) y->second.refs.erase({r.type, !r.fwd, x->first}); }
    UA_Variant_clear(&x->second.value);
    s->nodes.erase(x);
    return UA_STATUSCODE_GOOD;
}
extern "C" UA_StatusCode UA_Server_writeValue(UA_Server *s, const UA_NodeId id, const UA_Variant v) {
    HostScope h;
    s->apiCalls++;
    auto x = s->nodes.find(Id::of(id));
    if (x == s->nodes.end()) return UA_STATUSCODE_BADNODEIDUNKNOWN;
    UA_Variant c; UA_Variant_init(&c);
    UA_StatusCode r = UA_Variant_copy(&v, &c);
    if (r != UA_STATUSCODE_GOOD) return r;
    UA_Variant_clear(&x->second.value); x->second.value = c;
    return r;
}
extern "C" UA_StatusCode UA_Server_getNamespaceByName(UA_Server *s, const UA_String uri, size_t *idx) {
    HostScope h;
    for (size_t i = 0; i < s->namespaces.size(); i++) if (s->namespaces[i] == S(uri)) { *idx = i; return UA_STATUSCODE_GOOD; }
    return UA_STATUSCODE_BADNOTFOUND;
}
#define FIND(CODE) HostScope h; auto it = s->nodes.find(Id::of(id)); if (it == s->nodes.end()) return UA_STATUSCODE_BADNODEIDUNKNOWN; SrvNode &n = it->second; CODE; return UA_STATUSCODE_GOOD
extern "C" UA_StatusCode UA_Server_readNodeClass(UA_Server *s, const UA_NodeId id, UA_NodeClass *o) { FIND(*o = (UA_NodeClass)n.cls); }
extern "C" UA_StatusCode UA_Server_readNodeId(UA_Server *s, const UA_NodeId id, UA_NodeId *o) { FIND(*o = mkId(n.id)); }
extern "C" UA_StatusCode UA_Server_readValue(UA_Server *s, const UA_NodeId id, UA_Variant *o) { FIND(return UA_Variant_copy(&n.value, o)); }
extern "C" UA_StatusCode UA_Server_readBrowseName(UA_Server *s, const UA_NodeId id, UA_QualifiedName *o) { FIND(o->namespaceIndex = (UA_UInt16)n.bnNs; o->name = mk(n.bnName)); }
extern "C" UA_StatusCode UA_Server_readDisplayName(UA_Server *s, const UA_NodeId id, UA_LocalizedText *o) { FIND(o->locale = mk(n.dnLoc); o->text = mk(n.dnText)); }
extern "C" UA_StatusCode UA_Server_readDescription(UA_Server *s, const UA_NodeId id, UA_LocalizedText *o) { FIND(o->locale = mk(n.deLoc); o->text = mk(n.deText)); }
extern "C" UA_StatusCode UA_Server_readInverseName(UA_Server *s, const UA_NodeId id, UA_LocalizedText *o) { FIND(o->locale = mk(n.invLoc); o->text = mk(n.invText)); }
extern "C" UA_StatusCode UA_Server_readValueRank(UA_Server *s, const UA_NodeId id, UA_Int32 *o) { FIND(*o = n.valueRank); }
extern "C" UA_StatusCode UA_Server_readArrayDimensions(UA_Server *s, const UA_NodeId id, UA_Variant *o) {
    FIND(UA_Variant t; UA_Variant_init(&t); UA_Variant_setArray(&t, n.arrayDims.data(), n.arrayDims.size(), &UA_TYPES[UA_TYPES_UINT32]); return UA_Variant_copy(&t, o));
}
extern "C" UA_StatusCode UA_Server_readDataType(UA_Server *s, const UA_NodeId id, UA_NodeId *o) { FIND(*o = mkId(n.dataType)); }
extern "C" UA_StatusCode UA_Server_readEventNotifier(UA_Server *s, const UA_NodeId id, UA_Byte *o) { FIND(*o = (UA_Byte)n.eventNotifier); }
extern "C" UA_StatusCode UA_Server_readIsAbstract(UA_Server *s, const UA_NodeId id, UA_Boolean *o) { FIND(*o = n.isAbstract); }
extern "C" UA_StatusCode UA_Server_readSymmetric(UA_Server *s, const UA_NodeId id, UA_Boolean *o) { FIND(*o = n.symmetric); }
extern "C" UA_StatusCode UA_Server_readHistorizing(UA_Server *s, const UA_NodeId id, UA_Boolean *o) { FIND(*o = n.historizing); }
extern "C" UA_StatusCode UA_Server_getNodeContext(UA_Server *s, UA_NodeId id, void **o) { FIND(*o = n.context); }

/* ---- canonical text of values ---- */
static void put(std::string &o, const std::string &s) {
    o += '"';
    char b[5];
    for (unsigned char c : s) { if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, 5, "\\x%02x", c); o += b; } else o += (char)c; }
    o += '"';
}
static void valText(std::string &o, const void *p, const UA_DataType *t, int depth);
static void memberText(std::string &o, const UA_DataTypeMember *m, uintptr_t &ptr, int depth) {
    o += m->memberName ? m->memberName : "?"; o += '=';
    const UA_DataType *mt = m->memberType;
    ptr += m->padding;
    if (m->isArray) {
        size_t n = *(const size_t *)ptr; ptr += sizeof(size_t);
        const char *d = *(const char *const *)ptr; ptr += sizeof(void *);
        o += '[';
        for (size_t i = 0; i < n && d > (const char *)UA_EMPTY_ARRAY_SENTINEL; i++) { valText(o, d + i * mt->memSize, mt, depth + 1); o += ','; }
        o += ']';
    } else if (m->isOptional) {
        const void *d = *(void *const *)ptr; ptr += sizeof(void *);
        if (d) valText(o, d, mt, depth + 1); else o += "absent";
    } else { valText(o, (const void *)ptr, mt, depth + 1); ptr += mt->memSize; }
}
static void valText(std::string &o, const void *p, const UA_DataType *t, int depth) {
    char b[64];
    if (depth > 20) { o += "..."; return; }
    switch (t->typeKind) {
    case UA_DATATYPEKIND_BOOLEAN: o += *(const unsigned char *)p ? "true" : "false"; return;
    case UA_DATATYPEKIND_SBYTE: snprintf(b, 64, "%d", *(const int8_t *)p); break;
    case UA_DATATYPEKIND_BYTE: snprintf(b, 64, "%u", *(const uint8_t *)p); break;
    case UA_DATATYPEKIND_INT16: { int16_t v; memcpy(&v, p, 2); snprintf(b, 64, "%d", v); break; }
    case UA_DATATYPEKIND_UINT16: { uint16_t v; memcpy(&v, p, 2); snprintf(b, 64, "%u", v); break; }
    case UA_DATATYPEKIND_INT32: case UA_DATATYPEKIND_ENUM: { int32_t v; memcpy(&v, p, 4); snprintf(b, 64, "%d", v); break; }
    case UA_DATATYPEKIND_UINT32: case UA_DATATYPEKIND_STATUSCODE: { uint32_t v; memcpy(&v, p, 4); snprintf(b, 64, "%u", v); break; }
    case UA_DATATYPEKIND_INT64: case UA_DATATYPEKIND_DATETIME: { int64_t v; memcpy(&v, p, 8); snprintf(b, 64, "%" PRId64, v); break; }
    case UA_DATATYPEKIND_UINT64: { uint64_t v; memcpy(&v, p, 8); snprintf(b, 64, "%" PRIu64, v); break; }
    case UA_DATATYPEKIND_FLOAT: { float v; memcpy(&v, p, 4); snprintf(b, 64, "%.9g", (double)v); break; }
    case UA_DATATYPEKIND_DOUBLE: { double v; memcpy(&v, p, 8); snprintf(b, 64, "%.17g", v); break; }
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT: put(o, S(*(const UA_String *)p)); return;
    case UA_DATATYPEKIND_GUID: hexs(o, std::string((const char *)p, 16)); return;
    case UA_DATATYPEKIND_NODEID: put(o, Id::of(*(const UA_NodeId *)p).text()); return;
    case UA_DATATYPEKIND_EXPANDEDNODEID: put(o, Id::of(((const UA_ExpandedNodeId *)p)->nodeId).text()); return;
    case UA_DATATYPEKIND_QUALIFIEDNAME: { auto *q = (const UA_QualifiedName *)p; o += std::to_string(q->namespaceIndex) + ":"; put(o, S(q->name)); return; }
    case UA_DATATYPEKIND_LOCALIZEDTEXT: { auto *q = (const UA_LocalizedText *)p; put(o, S(q->locale)); o += '/'; put(o, S(q->text)); return; }
    case UA_DATATYPEKIND_VARIANT: o += sim_value_text(*(const UA_Variant *)p); return;
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: {
        uintptr_t q = (uintptr_t)p;
        o += '{';
        for (unsigned i = 0; i < t->membersSize; i++) { memberText(o, &t->members[i], q, depth); o += ';'; }
        o += '}'; return;
    }
    case UA_DATATYPEKIND_UNION: {
        uint32_t sel; memcpy(&sel, p, 4);
        o += "<" + std::to_string(sel) + ":";
        if (sel > 0 && sel <= t->membersSize) { uintptr_t q = (uintptr_t)p; memberText(o, &t->members[sel - 1], q, depth); }
        o += '>'; return;
    }
    default: o += "kind" + std::to_string(t->typeKind); return;
    }
    o += b;
}
std::string sim_value_text(const UA_Variant &v) {
    std::string o;
    if (!v.type) return "none";
    o += v.type->typeName ? v.type->typeName : "?";
    o += '(' + Id::of(v.type->typeId).text() + ')';
    if (UA_Variant_isScalar(&v)) { valText(o, v.data, v.type, 0); return o; }
    o += '[' + std::to_string(v.arrayLength) + '|';
    for (size_t i = 0; i < v.arrayLength; i++) { valText(o, (const char *)v.data + i * v.type->memSize, v.type, 0); o += ','; }
    o += ']';
    return o;
}
std::string sim_node_text(const SrvNode &n, bool withContext) {
    std::string o = n.id.text() + " class=" + std::to_string(n.cls) + " bn=" + std::to_string(n.bnNs) + ":";
    put(o, n.bnName); o += " dn="; put(o, n.dnLoc); put(o, n.dnText); o += " de="; put(o, n.deLoc); put(o, n.deText);
    o += " inv="; put(o, n.invLoc); put(o, n.invText);
    char b[256];
    snprintf(b, 256, " abs=%d sym=%d cnl=%d ex=%d uex=%d hist=%d ev=%d al=%d ual=%d vr=%d ms=%.17g", n.isAbstract, n.symmetric, n.containsNoLoops,
             n.executable, n.userExecutable, n.historizing, n.eventNotifier, n.accessLevel, n.userAccessLevel, n.valueRank, n.minSampling);
    o += b; o += " dt=" + n.dataType.text() + " dims=";
    for (auto d : n.arrayDims) o += std::to_string(d) + ",";
    o += " val=" + sim_value_text(n.value);
    if (withContext) { snprintf(b, 256, " ctx=%p", n.context); o += b; }
    return o;
}
