#include "model.h"
#include <algorithm>
#include <cstring>
#include <functional>

const char *classEl[8] = {"UAObject", "UAObjectType", "UAVariable", "UADataType", "UAMethod", "UAReferenceType", "UAVariableType", "UAView"};
int classOf(const std::string &el) { for (int i = 0; i < 8; i++) if (el == classEl[i]) return i; return -1; }

static bool unhex(const std::string &s, std::string &o) {
    if (s.size() % 2) return false;
    for (size_t i = 0; i < s.size(); i += 2) {
        if (!isxdigit((unsigned char)s[i]) || !isxdigit((unsigned char)s[i + 1])) return false;
        o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
    }
    return true;
}
static bool parseGuid(const std::string &g, std::string &o) {
    if (g.size() != 36 || g[8] != '-' || g[13] != '-' || g[18] != '-' || g[23] != '-') return false;
    std::string h;
    if (!unhex(g.substr(0, 8) + g.substr(9, 4) + g.substr(14, 4) + g.substr(19, 4) + g.substr(24), h)) return false;
    o = h;
    std::swap(o[0], o[3]); std::swap(o[1], o[2]); std::swap(o[4], o[5]); std::swap(o[6], o[7]); // little endian fields
    return true;
}
static bool b64(const std::string &s, std::string &o) {
    static const std::string T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    unsigned acc = 0; int n = 0;
    for (char c : s) {
        if (c == '=') break;
        size_t p = T.find(c); if (p == std::string::npos) return false;
        acc = acc << 6 | (unsigned)p; n += 6;
        if (n >= 8) { n -= 8; o += (char)(acc >> n & 255); }
    }
    return true;
}
bool parseIdText(const std::string &s, Id &out) {
    out = Id();
    size_t i = 0; unsigned ns = 0;
    if (s.compare(0, 3, "ns=") == 0) {
        size_t e = s.find(';'); if (e == std::string::npos) return false;
        for (size_t k = 3; k < e; k++) { if (!isdigit((unsigned char)s[k])) return false; ns = ns * 10 + (unsigned)(s[k] - '0'); }
        i = e + 1;
    }
    if (s.size() < i + 2 || s[i + 1] != '=') return false;
    std::string v = s.substr(i + 2);
    Id r; r.ns = ns;
    switch (s[i]) {
    case 'i': r.type = UA_NODEIDTYPE_NUMERIC; if (v.empty()) return false; for (char c : v) { if (!isdigit((unsigned char)c)) return false; r.num = r.num * 10 + (uint32_t)(c - '0'); } break;
    case 's': r.type = UA_NODEIDTYPE_STRING; r.str = v; break;
    case 'g': r.type = UA_NODEIDTYPE_GUID; if (!parseGuid(v, r.str)) return false; break;
    case 'b': r.type = UA_NODEIDTYPE_BYTESTRING; if (!b64(v, r.str)) return false; break;
    default: return false;
    }
    out = r;
    return true;
}
static std::string attr(const KV &kv, const std::string &k, const std::string &d) { for (auto &p : kv) if (p.first == k) return p.second; return d; }
static bool hasAttr(const KV &kv, const std::string &k) { for (auto &p : kv) if (p.first == k) return true; return false; }

static bool truth(const std::string &s) { return s == "true" || s == "1"; } // xs:boolean
struct Names {
    const std::vector<unsigned> &ns; std::map<std::string, Id> al; size_t known;
    Id id(const std::string &s) const {
        Id r; if (!parseIdText(s, r)) return Id();
        if (r.ns > 0 && r.ns < known) r.ns = ns[r.ns];
        return r;
    }
    Id alias(const std::string &s) const { auto i = al.find(s); return i == al.end() ? id(s) : i->second; }
    std::string bn(const std::string &s) const {
        size_t c = s.find(':');
        if (c == std::string::npos) return "0:" + s;
        unsigned n = (unsigned)atoi(s.c_str()) & 0xFFFF;
        if (n > 0 && n < known) n = ns[n];
        return std::to_string(n) + ":" + s.substr(c + 1);
    }
};
static bool blank(const std::string &s) { for (unsigned char c : s) if (!isspace(c)) return false; return true; }
static void dataText(std::string &o, const El &e, bool root) {
    o += "(" + e.name;
    (void)root;
    if (e.kids.empty()) { if (!blank(e.text)) o += "='" + e.text + "'"; }
    else for (auto &k : e.kids) dataText(o, k, false);
    o += ")";
}
static std::string valueText(const El &e) { // mirrors the documented shape of NL_Value
    std::string o;
    auto extObj = [&](const El &x, std::string &type, const El **body) {
        *body = nullptr;
        for (auto &k : x.kids) {
            if (k.name == "TypeId") for (auto &q : k.kids) if (q.name == "Identifier") type = q.text;
            if (k.name == "Body" && !k.kids.empty()) *body = &k.kids[0];
        }
    };
    if (e.name.compare(0, 6, "ListOf") == 0) {
        bool eo = !e.kids.empty() && e.kids[0].name == "ExtensionObject";
        std::string type, body;
        body = "(" + e.name;
        for (size_t i = 0; i < e.kids.size(); i++) {
            if (eo) { const El *b; extObj(e.kids[i], type, &b); if (b) { dataText(body, *b, false); } }
            else { if (i == 0) type = e.kids[0].name; dataText(body, e.kids[i], false); }
        }
        body += ")";
        return std::string("array ") + (eo ? "ext " : "") + "type=" + type + " " + body;
    }
    if (e.name == "ExtensionObject") {
        std::string type, body; const El *b; extObj(e, type, &b);
        if (b) dataText(body, *b, true);
        return "ext type=" + type + " " + body;
    }
    dataText(o, e, true);
    return "type=" + e.name + " " + o;
}
static void extEvents(std::vector<ExtEv> &o, const El &e) {
    o.push_back({'s', e.name, e.attrs, ""});
    std::string t = e.text;
    for (auto &k : e.kids) { extEvents(o, k); t = k.tail; }
    o.push_back({'e', e.name, {}, t});
}

EDoc expectDoc(const Doc &d, const std::vector<unsigned> &ns, const Rendered *r) {
    EDoc out; Names N{ns, {}, 1};
    for (size_t pi = 0; pi < d.parts.size(); pi++) {
        const DocPart &p = d.parts[pi];
        size_t end = r ? r->parts[pi].end : 0;
        if (p.kind == DocPart::URI) { out.uris.push_back(p.a); out.uriEnd.push_back(end); if (N.known < ns.size()) N.known++; }
        else if (p.kind == DocPart::ALIAS) { N.al[p.a] = N.id(p.b); }
        else if (p.kind == DocPart::NODE) {
            ENode n; const DocNode &s = p.node;
            n.src = &s; n.part = (int)pi;
            n.cls = classOf(s.cls);
            n.id = N.id(attr(s.attrs, "NodeId", ""));
            auto &f = n.f;
            f["bn"] = N.bn(attr(s.attrs, "BrowseName", ""));
            auto A = [&](const char *k, const char *key, const char *def) { f[key] = attr(s.attrs, k, def); };
            switch (n.cls) {
            case NODECLASS_OBJECTTYPE: A("IsAbstract", "abs", "false"); break;
            case NODECLASS_OBJECT: A("EventNotifier", "ev", "0"); break;
            case NODECLASS_VARIABLE:
                f["dt"] = N.alias(attr(s.attrs, "DataType", "i=24")).text();
                A("ValueRank", "vr", "-1"); A("MinimumSamplingInterval", "ms", "-1"); A("ArrayDimensions", "dims", "");
                A("AccessLevel", "al", "1"); A("UserAccessLevel", "ual", "1"); A("Historizing", "hist", "false"); break;
            case NODECLASS_VARIABLETYPE:
                f["dt"] = N.alias(attr(s.attrs, "DataType", "i=24")).text();
                A("ValueRank", "vr", "-1"); A("ArrayDimensions", "dims", ""); A("IsAbstract", "abs", "false"); break;
            case NODECLASS_DATATYPE: A("IsAbstract", "abs", "false"); break;
            case NODECLASS_METHOD: A("Executable", "ex", "true"); A("UserExecutable", "uex", "true"); break;
            case NODECLASS_REFERENCETYPE: A("Symmetric", "sym", "false"); break;
            case NODECLASS_VIEW: A("ContainsNoLoops", "cnl", "false"); A("EventNotifier", "ev", "0"); break;
            }
            bool inst = n.cls == NODECLASS_OBJECT || n.cls == NODECLASS_VARIABLE || n.cls == NODECLASS_METHOD || n.cls == NODECLASS_VIEW;
            if (inst) { n.parent = N.id(attr(s.attrs, "ParentNodeId", "")); f["parent"] = n.parent.text(); }
            f["dnLoc"] = f["dnText"] = f["deLoc"] = f["deText"] = "";
            if (n.cls == NODECLASS_REFERENCETYPE) f["invLoc"] = f["invText"] = "";
            std::vector<ExtEv> ev;
            for (auto &i : s.items) switch (i.kind) {
                case Item::DN: f["dnLoc"] = attr(i.kv, "Locale", ""); f["dnText"] = i.text; break;
                case Item::DE: f["deLoc"] = attr(i.kv, "Locale", ""); f["deText"] = i.text; break;
                case Item::INV: if (n.cls == NODECLASS_REFERENCETYPE) { f["invLoc"] = attr(i.kv, "Locale", ""); f["invText"] = i.text; } break;
                case Item::REF: {
                    ERef e; e.type = N.alias(attr(i.kv, "ReferenceType", "")); e.fwd = truth(attr(i.kv, "IsForward", "true")); e.target = N.alias(i.text);
                    if (e.type == Id::n0(40) && (n.cls == NODECLASS_OBJECT || n.cls == NODECLASS_VARIABLE)) n.td.push_back(e);
                    else n.refs.push_back(e);
                    break;
                }
                case Item::VAL: n.hasValue = true; n.valueExp = i.exp; if (n.cls == NODECLASS_VARIABLE) f["value"] = i.el.name.empty() ? "empty" : valueText(i.el); break;
                case Item::DEF: if (n.cls == NODECLASS_DATATYPE) { n.hasDef = true; n.fields.clear(); n.isEnum = false; n.isUnion = truth(attr(i.kv, "IsUnion", "false")); n.isOptionSet = truth(attr(i.kv, "IsOptionSet", "false")); } break;
                case Item::FIELD: {
                    if (n.cls != NODECLASS_DATATYPE || !n.hasDef || n.isOptionSet) break;
                    EField e; e.name = attr(i.kv, "Name", "");
                    if (hasAttr(i.kv, "Value")) { e.value = atoi(attr(i.kv, "Value", "").c_str()); n.isEnum = true; }
                    else { e.dataType = N.alias(attr(i.kv, "DataType", "i=24")); e.valueRank = atoi(attr(i.kv, "ValueRank", "-1").c_str()); e.optional = truth(attr(i.kv, "IsOptional", "false")); }
                    n.fields.push_back(e);
                    break;
                }
                case Item::EXT:
                    n.nExt++; ev.push_back({'n', "", {}, ""}); for (auto &k : i.el.kids) extEvents(ev, k); ev.push_back({'f', "", {}, ""});
                    break;
                default: break;
                }
            if (n.cls == NODECLASS_VARIABLE && !f.count("value")) f["value"] = "none";
            if (n.cls == NODECLASS_DATATYPE) {
                std::string t = n.hasDef ? std::string("def u") + (n.isUnion ? "1" : "0") + " o" + (n.isOptionSet ? "1" : "0") + " e" + (n.isEnum ? "1" : "0") : "none";
                for (auto &x : n.fields) t += " {" + x.name + " " + x.dataType.text() + " " + std::to_string(x.valueRank) + " " + std::to_string(x.value) + (x.optional ? " opt" : "") + "}";
                f["def"] = t;
            }
            out.nodes.push_back(n); out.exts.push_back(ev); out.nodeEnd.push_back(end);
        }
    }
    out.aliases = N.al;
    return out;
}

static std::string S(const char *s) { return s ? s : ""; }
static void snapData(std::string &o, const NL_Data *d, int depth) {
    if (depth > 200) { o += "..."; return; }
    o += "(" + S(d->name);
    if (d->type == DATATYPE_PRIMITIVE) { if (d->val.primitiveData.value) o += "='" + S(d->val.primitiveData.value) + "'"; }
    else for (size_t i = 0; i < d->val.complexData.membersSize; i++) snapData(o, d->val.complexData.members[i], depth + 1);
    o += ")";
}
static std::vector<ERef> snapRefs(const NL_Reference *r) {
    std::vector<ERef> v;
    for (; r; r = r->next) { ERef e; e.type = Id::of(r->refType); e.fwd = r->isForward; e.target = Id::of(r->target); v.push_back(e); }
    return v;
}
ENode snapshot(const NL_Node *x) {
    ENode n; n.cls = x->nodeClass; n.id = Id::of(x->id);
    auto &f = n.f;
    f["bn"] = std::to_string(x->browseName.nsIdx) + ":" + S(x->browseName.name);
    f["dnLoc"] = S(x->displayName.locale); f["dnText"] = S(x->displayName.text);
    f["deLoc"] = S(x->description.locale); f["deText"] = S(x->description.text);
    n.hier = snapRefs(x->hierachicalRefs); n.nonhier = snapRefs(x->nonHierachicalRefs);
    for (auto &r : snapRefs(x->unknownRefs)) n.refs.push_back(r);
    switch (x->nodeClass) {
    case NODECLASS_OBJECT: { auto o = (const NL_ObjectNode *)x; f["ev"] = S(o->eventNotifier); n.td = snapRefs(o->refToTypeDef); break; }
    case NODECLASS_OBJECTTYPE: f["abs"] = S(((const NL_ObjectTypeNode *)x)->isAbstract); break;
    case NODECLASS_VARIABLE: {
        auto o = (const NL_VariableNode *)x; f["dt"] = Id::of(o->datatype).text(); f["vr"] = S(o->valueRank); f["ms"] = S(o->minimumSamplingInterval);
        f["dims"] = S(o->arrayDimensions); f["al"] = S(o->accessLevel); f["ual"] = S(o->userAccessLevel); f["hist"] = S(o->historizing);
        n.td = snapRefs(o->refToTypeDef);
        if (!o->value) f["value"] = "none";
        else if (!o->value->data && !o->value->isExtensionObject) f["value"] = "empty";
        else {
            std::string t; t += o->value->isArray ? "array " : ""; t += o->value->isExtensionObject ? "ext " : ""; t += "type=" + S(o->value->type) + " ";
            if (o->value->data) snapData(t, o->value->data, 0);
            f["value"] = t;
        }
        break;
    }
    case NODECLASS_VARIABLETYPE: { auto o = (const NL_VariableTypeNode *)x; f["dt"] = Id::of(o->datatype).text(); f["vr"] = S(o->valueRank); f["dims"] = S(o->arrayDimensions); f["abs"] = S(o->isAbstract); break; }
    case NODECLASS_DATATYPE: {
        auto o = (const NL_DataTypeNode *)x; f["abs"] = S(o->isAbstract);
        std::string t = "none";
        if (o->definition) {
            t = std::string("def u") + (o->definition->isUnion ? "1" : "0") + " o" + (o->definition->isOptionSet ? "1" : "0") + " e" + (o->definition->isEnum ? "1" : "0");
            for (size_t i = 0; i < o->definition->fieldCnt; i++) {
                auto &q = o->definition->fields[i];
                t += " {" + S(q.name) + " " + Id::of(q.dataType).text() + " " + std::to_string(q.valueRank) + " " + std::to_string(q.value) + (q.isOptional ? " opt" : "") + "}";
            }
        }
        f["def"] = t; break;
    }
    case NODECLASS_METHOD: { auto o = (const NL_MethodNode *)x; f["ex"] = S(o->executable); f["uex"] = S(o->userExecutable); break; }
    case NODECLASS_REFERENCETYPE: { auto o = (const NL_ReferenceTypeNode *)x; f["sym"] = S(o->symmetric); f["invLoc"] = S(o->inverseName.locale); f["invText"] = S(o->inverseName.text); break; }
    case NODECLASS_VIEW: { auto o = (const NL_ViewNode *)x; f["cnl"] = S(o->containsNoLoops); f["ev"] = S(o->eventNotifier); break; }
    }
    if (NodesetLoader_isInstanceNode(x)) { n.parent = Id::of(((const NL_InstanceNode *)x)->parentNodeId); f["parent"] = n.parent.text(); }
    return n;
}
std::string ENode::text() const {
    std::string o = id.text() + " cls=" + std::to_string(cls);
    for (auto &p : f) o += " " + p.first + "='" + p.second + "'";
    auto rs = [&](const char *k, std::vector<ERef> v) { std::sort(v.begin(), v.end()); o += std::string(" ") + k + "["; for (auto &r : v) o += r.text() + ","; o += "]"; };
    rs("h", hier); rs("n", nonhier); rs("u", refs); rs("td", td);
    return o;
}
std::string diffNodes(const ENode &e, const ENode &g, bool) {
    if (e.cls != g.cls) return "class " + std::to_string(g.cls) + " instead of " + std::to_string(e.cls);
    for (auto &p : e.f) {
        auto i = g.f.find(p.first);
        if (i == g.f.end() || i->second != p.second) {
            std::string got = i == g.f.end() ? "(missing)" : i->second;
            auto cut = [](const std::string &s) { return s.size() > 300 ? s.substr(0, 140) + "..(" + std::to_string(s.size()) + " bytes).." + s.substr(s.size() - 60) : s; };
            return p.first + ": '" + cut(got) + "' instead of '" + cut(p.second) + "'";
        }
    }
    return "";
}

std::set<Id> internalHier() {
    std::set<Id> s;
    for (unsigned i : {33, 34, 35, 36, 44, 45, 46, 47, 48, 49, 56}) s.insert(Id::n0(i));
    return s;
}
static bool hasCycle(const std::set<Id> &all, std::map<Id, std::set<Id>> &succ) { // iterative depth first search
    std::map<Id, int> st;
    for (auto &s : all) {
        if (st[s]) continue;
        std::vector<std::pair<Id, std::set<Id>::iterator>> stack;
        auto push = [&](const Id &i) { st[i] = 1; stack.push_back({i, succ[i].begin()}); };
        push(s);
        while (!stack.empty()) {
            auto &top = stack.back();
            if (top.second == succ[top.first].end()) { st[top.first] = 2; stack.pop_back(); continue; }
            Id nx = *top.second; ++top.second;
            if (st[nx] == 1) return true;
            if (!st[nx]) push(nx);
        }
    }
    return false;
}
Graph analyse(const std::vector<const ENode *> &nodes, const std::set<Id> &baseHier, const std::set<Id> &baseKnown, bool ns0AllKnown, bool encodingSoft) {
    Graph g; g.hierTypes = baseHier; g.knownTypes = baseKnown; g.knownTypes.insert(baseHier.begin(), baseHier.end());
    std::map<Id, const ENode *> types;
    for (auto n : nodes) if (n->cls == NODECLASS_REFERENCETYPE) { types[n->id] = n; g.knownTypes.insert(n->id); }
    // a type is hierarchical if it is a subtype (written at the subtype) of a hierarchical one
    bool more = true;
    while (more) {
        more = false;
        for (auto &t : types) {
            if (g.hierTypes.count(t.first)) continue;
            for (auto &r : t.second->refs)
                if (!r.fwd && r.type == Id::n0(45) && g.hierTypes.count(r.target)) { g.hierTypes.insert(t.first); more = true; break; }
        }
    }
    if (encodingSoft) g.softTypes.insert(Id::n0(38));
    for (more = true; more;) {
        more = false;
        for (auto &t : types) {
            if (g.hierTypes.count(t.first) || g.softTypes.count(t.first)) continue;
            for (auto &r : t.second->refs)
                if (!r.fwd && r.type == Id::n0(45) && g.softTypes.count(r.target)) { g.softTypes.insert(t.first); more = true; break; }
        }
    }
    std::map<Id, std::set<Id>> soft; std::set<Id> all;
    for (auto n : nodes) {
        all.insert(n->id);
        if (n->f.count("parent") && !n->parent.isNull() && n->parent != n->id) { soft[n->parent].insert(n->id); all.insert(n->parent); } // a missing reference to the parent is added
        for (auto &r : n->refs) {
            bool known = g.knownTypes.count(r.type) || (ns0AllKnown && r.type.ns == 0);
            if (!known) g.unresolved = true;
            bool h = g.hierTypes.count(r.type) > 0, s = g.softTypes.count(r.type) > 0;
            if ((!h && !s) || r.target == n->id) continue;
            if (h) { if (r.fwd) g.succ[n->id].insert(r.target); else g.succ[r.target].insert(n->id); }
            if (r.fwd) soft[n->id].insert(r.target); else soft[r.target].insert(n->id);
            all.insert(r.target);
        }
    }
    g.cycle = hasCycle(all, g.succ);
    g.cycleSoft = g.cycle || hasCycle(all, soft);
    return g;
}
