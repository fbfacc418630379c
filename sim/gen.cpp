#include "gen_int.h"

static const char *NS0 = "http://opcfoundation.org/UA/";
std::string genName(Rng &r) {
    static const std::vector<std::string> v = {"Pump", "Motor", "Temp", "Level", "a", "X1", "Device", "Alarm", "State", "Limit", "Node", "Zone"};
    std::string s = r.pick(v);
    if (r.chance(50)) s += std::to_string(r.below(1000));
    return s;
}
static std::string uni(Rng &r) {
    static const std::vector<std::string> v = {"\xC3\xA4", "\xC3\xBF", "\xE2\x82\xAC", "\xE6\xBC\xA2", "\xF0\x9F\x98\x80", "\xC2\xA0", "\xC4\x80", "\xEF\xBF\xBD"};
    return r.pick(v);
}
std::string World::str(bool attr, int maxLen) {
    (void)attr;
    std::string s;
    if (!r.chance(o.strange)) return genName(r);
    int kind = r.range(0, 9);
    if (kind == 0) return "";
    int n = r.range(1, 12);
    if (r.chance(o.longText)) n = r.pick(std::vector<int>{60, 255, 256, 300, 1000, 1024, 2000, 5000, 9000});
    if (r.chance(o.longText / 4)) n = r.pick(std::vector<int>{20000, 33000, 70000});
    if (maxLen && n > maxLen) n = maxLen;
    static const std::string sp = "&<>\"' ;:=.,-_/%#[](){}";
    for (int i = 0; i < n; i++) {
        int k = (int)r.below(100);
        if (kind < 4 || k < 60) s += (char)('a' + r.below(26));
        else if (k < 85) s += sp[r.below(sp.size())];
        else if (k < 97) s += uni(r);
        else s += r.pick(std::vector<std::string>{"\n", "\t", "  ", "]]>", "--", "\r\n"});
    }
    return s;
}
bool World::sees(const GDoc &d, unsigned u) const { return u == 0 || std::find(d.uris.begin(), d.uris.end(), u) != d.uris.end(); }
void World::repeatUri(GDoc &d) {
    if (d.uris.empty() || !r.chance(o.repeatUri)) return;
    unsigned u = r.chance(20) ? 0 : r.pick(d.uris);
    d.uris.insert(d.uris.begin() + (long)r.below(d.uris.size() + 1), u);
}
// URIs which differ by their case, by a last character or by white space only
void World::similarUris() {
    for (size_t i = 3; i < uris.size(); i++) if (r.chance(8)) {
        std::string t = uris[i - 1];
        switch (r.below(5)) {
        case 0: for (char &z : t) if (r.chance(50) && isalpha((unsigned char)z)) z ^= 32; break;
        case 1: t += "/"; break;
        case 2: if (t.size() > 1) t.pop_back(); break;
        case 3: t = " " + t; break;
        default: t += " ";
        }
        bool used = t.empty(); for (auto &u : uris) used |= u == t;
        if (!used && (t.size() < 2 || (unsigned char)t[t.size() - 1] < 128)) uris[i] = t;
    }
}
unsigned World::pickU(const GDoc &d) {
    std::vector<unsigned> c; for (unsigned u : d.uris) if (u) c.push_back(u);
    return r.pick(c);
}
std::string World::idText(unsigned u, const std::string &t, const GDoc &d) {
    std::vector<size_t> at; // a table can list a URI twice, or the one of the base namespace
    for (size_t i = 0; i < d.uris.size(); i++) if (d.uris[i] == u) at.push_back(i);
    if (u == 0 && (at.empty() || !r.chance(30))) return t;
    return "ns=" + std::to_string((at.empty() ? d.uris.size() : at.size() == 1 ? at[0] : r.pick(at)) + 1) + ";" + t;
}
std::string newIdt(World &w) {
    Rng &r = w.r; unsigned s = ++w.serial; char b[80];
    switch (r.range(0, 9)) {
    case 0: case 1: case 2: { std::string t = "s=n" + std::to_string(s); int n = r.range(0, 6); static const std::string sp = "&<>\"';:=., -_/"; for (int i = 0; i < n; i++) t += r.chance(20) ? uni(r) : std::string(1, sp[r.below(sp.size())]); return t + "e"; }
    case 3: snprintf(b, 80, "g=%08X-%04x-4abc-8def-%012X", (unsigned)r.next(), s & 0xffff, s * 77u); return b;
    case 4: { static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string t = "b="; for (int i = 0; i < 8; i++) t += T[r.below(64)]; snprintf(b, 80, "%c%c%c%c", T[s & 63], T[(s >> 6) & 63], 'Q', 'x'); return t + b; }
    case 5: if (r.chance(40)) return "s=TheSameLongPrefix.OfEveryNode.InThisNamespace." + std::to_string(s) + (r.chance(50) ? ".AndTheSameLongEndOfEveryNodeInThisNamespace" : "");
        return "i=" + std::to_string(4294900000u + s);
    default: return "i=" + std::to_string(5000 + s);
    }
}
El genValueEl(Rng &r, World &w) {
    static const std::vector<std::string> prim = {"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime", "ByteString"};
    auto leaf = [&](const std::string &n) { El e; e.name = n; if (n == "String" || r.chance(10)) e.text = w.str(false); else e.text = std::to_string(r.range(0, 100)); return e; };
    auto name = [&]() { return r.chance(12) ? r.pick(std::vector<std::string>{"Body", "Value", "ExtensionObject", "TypeId", "Identifier", "ListOfString", "ListOfExtensionObject", "UAObject", "Extension", "NamespaceUris"}) : genName(r); };
    std::function<El(const std::string &, int)> tree = [&](const std::string &n, int depth) {
        El e; e.name = n;
        if (depth > 0 && r.chance(60)) { int k = r.range(1, 4); for (int i = 0; i < k; i++) e.kids.push_back(tree(name(), depth - 1)); }
        else { e = leaf(n); if (r.chance(60)) e.text = w.str(false); }
        return e;
    };
    auto ext = [&](const std::string &tid) {
        El e; e.name = "ExtensionObject";
        El t; t.name = "TypeId"; El i; i.name = "Identifier"; i.text = tid; t.kids.push_back(i);
        El b; b.name = "Body"; b.kids.push_back(tree(name(), 3)); e.kids.push_back(t); e.kids.push_back(b);
        return e;
    };
    switch (r.range(0, 7)) {
    case 0: { El e; std::string t = r.pick(prim); e.name = "ListOf" + t; int n = r.range(0, 6); if (r.chance(8)) n = 150; for (int i = 0; i < n; i++) e.kids.push_back(leaf(t)); return e; }
    case 1: { El e; e.name = "ListOfExtensionObject"; std::string t = "i=" + std::to_string(r.range(100, 400)); int n = r.range(1, 4); for (int i = 0; i < n; i++) e.kids.push_back(ext(t)); return e; }
    case 2: return ext("i=" + std::to_string(r.range(100, 400)));
    case 3: return tree(r.pick(std::vector<std::string>{"LocalizedText", "QualifiedName", "Range", "EUInformation"}), 3);
    default: return leaf(r.pick(prim));
    }
}
El genExtEl(Rng &r, World &w, int depth) {
    El e; e.name = r.pick(std::vector<std::string>{"a", "b", "Item", "Value", "DisplayName", "Extensions", "Extension", "Reference", "Field", "meta", "Uri", "UAObject"});
    if (r.chance(12)) e.name = genName(r);
    std::set<std::string> used;
    int na = r.range(0, 3); for (int i = 0; i < na; i++) { std::string k = r.pick(std::vector<std::string>{"id", "Name", "x", "key", "NodeId"}); if (used.insert(k).second) e.attrs.push_back({k, w.str(true)}); }
    if (r.chance(3)) { int n = r.range(4, 60); for (int i = 0; i < n; i++) e.attrs.push_back({"a" + std::to_string(i), r.chance(90) ? std::to_string(i) : w.str(true)}); }
    if (r.chance(60)) e.text = w.str(false);
    if (depth > 0 && r.chance(50)) { int n = r.range(1, 3); for (int i = 0; i < n; i++) { El k = genExtEl(r, w, depth - 1); if (r.chance(50)) k.tail = w.str(false); e.kids.push_back(k); } }
    return e;
}
static El genUnknown(Rng &r, World &w, int depth) {
    El e; e.name = r.pick(std::vector<std::string>{"RolePermissions", "Documentation", "Model", "Foo", "TranslatedText", "LastModified"});
    if (depth < 2) e.name = r.pick(std::vector<std::string>{"RolePermission", "Bar", "DisplayName", "Value", "Field", "References", "Reference", "Uri", "Alias", "UAObject", "Extension"});
    if (r.chance(40)) e.attrs.push_back({r.pick(std::vector<std::string>{"NodeId", "x", "Permissions", "BrowseName"}), "i=1"});
    if (r.chance(60)) e.text = w.str(false, 2000);
    if (depth > 0 && r.chance(60)) { int n = r.range(1, 2); for (int i = 0; i < n; i++) { El k = genUnknown(r, w, depth - 1); e.kids.push_back(k); } }
    return e;
}

void addRef(World &w, int at, const GDoc &d, unsigned tu, const std::string &tt, bool fwd, unsigned u, const std::string &idt) {
    Item it; it.kind = Item::REF;
    std::string type = w.idText(tu, tt, d), target = w.idText(u, idt, d);
    for (auto &a : d.aliases) {
        if (a.second.first == tu && a.second.second == tt && w.r.chance(70)) type = a.first;
        if (a.second.first == u && a.second.second == idt && w.r.chance(70)) target = a.first;
    }
    it.kv.push_back({"ReferenceType", type});
    if (!fwd) it.kv.push_back({"IsForward", w.r.chance(4) ? "0" : "false"}); else if (w.r.chance(20)) it.kv.push_back({"IsForward", w.r.chance(10) ? "1" : "true"});
    it.text = target;
    DocNode &n = w.nodes[(size_t)at].n;
    for (auto &x : n.items) if (x.kind == Item::REF && x.text == target && x.kv == it.kv) return; // said already
    n.items.push_back(it);
}
static std::string canonId(World &w, const GDoc &d, const std::string &t) { // one text per node
    if (t.compare(0, 3, "ns=")) return "0;" + t;
    size_t k = (size_t)atol(t.c_str() + 3), e = t.find(';');
    return (k >= 1 && k <= d.uris.size() ? std::to_string(d.uris[k - 1]) : "-") + (e == std::string::npos ? t : t.substr(e));
}
bool hasRefPair(World &w, int at, const std::string &t) {
    const GDoc &d = w.docs[(size_t)w.nodes[(size_t)at].doc];
    for (auto &x : w.nodes[(size_t)at].n.items) if (x.kind == Item::REF && canonId(w, d, x.text) == canonId(w, d, t)) return true;
    return false;
}

// documents for the loader alone: anything the format can say
static void genWorld(World &w, Plan &p) {
    Rng &r = w.r; GOpt &o = w.o;
    w.uris.push_back(NS0);
    for (int i = 0; i < o.uriPool; i++) w.uris.push_back(r.chance(10) ? "urn:" + w.str(false, 300) + std::to_string(i) : "http://test.org/" + (i < 26 ? std::string(1, (char)('A' + i)) : std::to_string(i)) + "/");
    w.similarUris();
    if (r.chance(5)) w.uris.back() = "";
    for (int d = 0; d < o.docs; d++) {
        GDoc g; g.name = "d" + std::to_string(d);
        std::vector<unsigned> all; for (unsigned i = 1; i < w.uris.size(); i++) all.push_back(i);
        for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[r.below(i)]);
        int n = r.range(r.chance(90) ? 1 : 0, o.maxUris);
        for (int i = 0; i < n && i < (int)all.size(); i++) g.uris.push_back(all[(size_t)i]);
        w.repeatUri(g);
        w.docs.push_back(g);
    }
    // nodes
    long rank = 0;
    std::vector<int> refTypes;
    bool typeChain = o.customRefs && r.chance(6); // a long line of reference types, each the super type of the next
    for (int d = 0; d < o.docs; d++) {
        int n = r.range(o.minNodes, o.maxNodes);
        if (r.chance(4)) n *= 6;
        for (int i = 0; i < n; i++) {
            GNode g; g.doc = d; g.rank = rank++;
            GDoc &gd = w.docs[(size_t)d];
            g.u = gd.uris.empty() || r.chance(8) ? 0 : w.pickU(gd);
            g.idt = newIdt(w);
            int c = (int)r.below(100);
            g.cls = c < 26 ? 0 : c < 36 ? 1 : c < 62 ? 2 : c < 70 ? 3 : c < 78 ? 4 : c < 86 ? 5 : c < 94 ? 6 : 7;
            if ((o.customRefs > 60 && r.chance(25)) || (typeChain && r.chance(45))) g.cls = NODECLASS_REFERENCETYPE;
            if (o.dataTypes > 60 && r.chance(40)) g.cls = NODECLASS_DATATYPE;
            if (g.cls == NODECLASS_REFERENCETYPE && g.u == 0) { if (gd.uris.empty()) g.cls = NODECLASS_OBJECT; else g.u = w.pickU(gd); } // the types of the base namespace are a given
            g.n.cls = classEl[g.cls];
            gd.nodes.push_back((int)w.nodes.size());
            if (g.cls == NODECLASS_REFERENCETYPE) refTypes.push_back((int)w.nodes.size());
            w.nodes.push_back(g);
        }
    }
    // more than the initial capacity of the containers
    bool bulk = false;
    if ((int)r.below(1000) < o.bulk && !w.docs.empty()) {
        bulk = true;
        int kind = r.range(0, 9), d = (int)r.below(w.docs.size());
        GDoc &gd = w.docs[(size_t)d]; if (gd.uris.empty()) gd.uris.push_back(1);
        std::vector<std::pair<int, int>> add;
        if (kind < 4) { add = {{NODECLASS_REFERENCETYPE, r.range(55, 240)}, {NODECLASS_OBJECT, r.range(50, 250)}}; o.customRefs = 85; }
        else if (kind < 6) add = {{r.pick(std::vector<int>{NODECLASS_DATATYPE, NODECLASS_OBJECTTYPE, NODECLASS_VARIABLETYPE}), r.range(101, 230)}};
        else if (kind < 8) add = {{NODECLASS_REFERENCETYPE, r.range(101, 150)}, {NODECLASS_DATATYPE, 110}, {NODECLASS_OBJECTTYPE, 110}, {NODECLASS_VARIABLETYPE, 110}};
        else if (kind < 9 || !r.chance(30)) add = {{r.pick(std::vector<int>{NODECLASS_METHOD, NODECLASS_VIEW, NODECLASS_VARIABLE}), r.range(1001, 2100)}};
        else { add = {{r.pick(std::vector<int>{NODECLASS_OBJECT, NODECLASS_VARIABLE}), r.range(10001, 10400)}}; o.values = 1; o.ext = 0; }
        o.longText = 0;
        for (auto &q : add) for (int i = 0; i < q.second; i++) {
            GNode g; g.doc = d; g.rank = rank++; g.u = w.pickU(gd); g.idt = q.second > 500 ? "i=" + std::to_string(1000000 + ++w.serial) : newIdt(w); g.cls = q.first; g.n.cls = classEl[g.cls];
            gd.nodes.push_back((int)w.nodes.size());
            if (g.cls == NODECLASS_REFERENCETYPE) refTypes.push_back((int)w.nodes.size());
            w.nodes.push_back(g);
        }
    }
    // ranks independent of the position
    if (!o.chain) for (size_t i = w.nodes.size(); i > 1; i--) std::swap(w.nodes[i - 1].rank, w.nodes[r.below(i)].rank);
    else if (r.chance(60)) for (size_t i = 0; i < w.nodes.size(); i++) w.nodes[i].rank = -w.nodes[i].rank;
    if (typeChain && r.chance(70)) { // against the order of the file
        std::vector<long> v; for (int t : refTypes) v.push_back(w.nodes[(size_t)t].rank);
        std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size(); i++) w.nodes[(size_t)refTypes[i]].rank = v[i];
    }
    // aliases
    for (auto &gd : w.docs) {
        static const std::vector<std::pair<std::string, std::string>> std0 = {{"HasComponent", "i=47"}, {"HasProperty", "i=46"}, {"Organizes", "i=35"}, {"HasSubtype", "i=45"}, {"HasTypeDefinition", "i=40"}, {"HasEncoding", "i=38"}, {"Int32", "i=6"}, {"String", "i=12"}, {"Double", "i=11"}, {"HasModellingRule", "i=37"}};
        for (auto &a : std0) if (r.chance(o.alias)) gd.aliases.push_back({a.first, {0, a.second}});
        int n = r.chance(o.alias) ? r.range(0, 3) : 0;
        if (r.chance(3)) n = r.range(290, 330);
        if (w.nodes.empty()) n = 0;
        for (int i = 0; i < n; i++) {
            int x = (int)r.below(w.nodes.size());
            const GNode &g = w.nodes[(size_t)x];
            std::string nm = o.sameAliases || r.chance(30) ? "Al" + std::to_string(i) : "My" + std::to_string(i) + genName(r);
            if (r.chance(10)) nm = "ALongAliasNameWhichIsUsedForTheType" + std::to_string(i); // names alike but for a few letters
            if (r.chance(10)) nm = std::to_string(i) + "ALongAliasNameWhichIsUsedForTheType";
            if (r.chance(8)) nm = r.pick(std::vector<std::string>{"a=b", "nsx=1;i=3", "k=", "=", ";", "ns", "Has Component", "i"}) + std::to_string(i);
            if (!gd.aliases.empty() && r.chance(12)) { // names which differ by case only
                std::string c = r.pick(gd.aliases).first; for (char &z : c) if (r.chance(50) && isalpha((unsigned char)z)) z ^= 32;
                bool used = false; for (auto &al : gd.aliases) used |= al.first == c;
                if (!used) nm = c;
            }
            if (w.sees(gd, g.u)) gd.aliases.push_back({nm, {g.u, g.idt}});
        }
        for (size_t i = gd.aliases.size(); i > 1; i--) std::swap(gd.aliases[i - 1], gd.aliases[r.below(i)]);
    }
    auto hierType = [&](const GDoc &gd, unsigned &tu, std::string &tt) {
        tu = 0;
        if (!refTypes.empty() && r.chance(o.customRefs)) {
            const GNode &t = w.nodes[(size_t)r.pick(refTypes)];
            if (w.sees(gd, t.u)) { tu = t.u; tt = t.idt; return; }
        }
        tt = r.pick(std::vector<std::string>{"i=47", "i=47", "i=46", "i=35", "i=45", "i=49", "i=34", "i=36", "i=48", "i=44", "i=33", "i=56"});
    };
    // a node with more references than usual
    size_t fat = (size_t)-1; int fatRefs = 0;
    int fatFwd = 85;
    if (r.chance(3) && !w.nodes.empty()) { fat = r.below(w.nodes.size()); fatRefs = r.chance(80) ? r.range(15, 130) : r.range(130, 1500); if (r.chance(40)) { fatFwd = 5; if (r.chance(50)) fatRefs = r.range(256, 700); } }
    // content
    for (size_t x = 0; x < w.nodes.size(); x++) {
        GNode &g = w.nodes[x]; const GDoc &gd = w.docs[(size_t)g.doc]; KV &a = g.n.attrs; int c = g.cls;
        attrib(a, "NodeId", w.idText(g.u, g.idt, gd));
        std::string bn = w.str(true);
        if (gd.uris.empty() || r.chance(20)) { std::replace(bn.begin(), bn.end(), ':', '_'); attrib(a, "BrowseName", bn); }
        else attrib(a, "BrowseName", std::to_string(r.below(gd.uris.size() + 1)) + ":" + bn);
        auto dataType = [&]() -> std::string {
            std::vector<std::string> v{"i=6", "i=12", "i=24", "i=1", "i=11"};
            for (auto &al : gd.aliases) v.push_back(al.first);
            for (auto n : gd.nodes) if (w.nodes[(size_t)n].cls == NODECLASS_DATATYPE) v.push_back(w.idText(w.nodes[(size_t)n].u, w.nodes[(size_t)n].idt, gd));
            return r.pick(v);
        };
        if ((c == 1 || c == 3 || c == 6) && r.chance(50)) attrib(a, "IsAbstract", boolT(r));
        if (c == 5 && r.chance(50)) attrib(a, "Symmetric", boolT(r));
        if (c == 7 && r.chance(50)) attrib(a, "ContainsNoLoops", boolT(r));
        if ((c == 0 || c == 7) && r.chance(30)) attrib(a, "EventNotifier", std::to_string(r.range(0, 5)));
        if (c == 2 || c == 6) {
            if (r.chance(70)) attrib(a, "DataType", dataType());
            if (r.chance(40)) attrib(a, "ValueRank", std::to_string(r.range(-3, 3)));
            if (r.chance(20)) attrib(a, "ArrayDimensions", r.pick(std::vector<std::string>{"1", "0", "2,3", "10,20,30", "1,2,3,4,5,6,7,8,9,10,11,12"}));
        }
        if (c == 2) {
            if (r.chance(30)) attrib(a, "AccessLevel", std::to_string(r.range(0, 7)));
            if (r.chance(30)) attrib(a, "UserAccessLevel", std::to_string(r.range(0, 7)));
            if (r.chance(20)) attrib(a, "MinimumSamplingInterval", std::to_string(r.range(0, 1000)));
            if (r.chance(20)) attrib(a, "Historizing", boolT(r));
        }
        if (c == 4) { if (r.chance(40)) attrib(a, "Executable", boolT(r)); if (r.chance(40)) attrib(a, "UserExecutable", boolT(r)); }
        for (auto &kv : a) { // handed to the host as they are
            static const std::set<std::string> raw = {"IsAbstract", "Symmetric", "ContainsNoLoops", "EventNotifier", "ValueRank", "ArrayDimensions", "AccessLevel", "UserAccessLevel", "MinimumSamplingInterval", "Historizing", "Executable", "UserExecutable"};
            if (raw.count(kv.first) && r.chance(6)) kv.second = r.chance(50) ? "" : w.str(true, 400);
        }
        if (r.chance(10)) attrib(a, "SymbolicName", genName(r));
        if (r.chance(5)) attrib(a, "ReleaseStatus", "Draft");
        std::vector<Item> &it = g.n.items;
        auto loc = [&](Item::Kind k) { Item i; i.kind = k; if (r.chance(40)) i.kv.push_back({"Locale", r.pick(std::vector<std::string>{"en", "de-DE", "", "zh"})}); i.text = w.str(false); it.push_back(i); };
        if (r.chance(85)) loc(Item::DN);
        if (r.chance(35)) loc(Item::DE);
        if (c == 5 && r.chance(60)) loc(Item::INV);
        if (r.chance(5)) loc(r.chance(50) ? Item::DN : r.chance(60) ? Item::DE : Item::INV); // the last one counts
        if (r.chance(5)) loc(Item::CAT);
        if (c == 2 && r.chance(o.values)) { Item i; i.kind = Item::VAL; i.el = genValueEl(r, w); it.push_back(i); }
        if (r.chance(o.ext)) { int n = r.chance(80) ? 1 : r.chance(90) ? 2 : r.range(3, 30); while (n--) { Item i; i.kind = Item::EXT; i.el.name = "Extension"; if (r.chance(20)) i.el.text = "\n "; int k = r.range(r.chance(90) ? 1 : 0, 3); while (k--) { El e = genExtEl(r, w, 3); if (r.chance(30)) e.tail = "\n  "; i.el.kids.push_back(e); } it.push_back(i); } }
        for (int defs = c == 3 && r.chance(75) ? r.chance(5) ? 2 : 1 : 0; defs; defs--) { // a second one replaces the first
            Item i; i.kind = Item::DEF; i.kv.push_back({"Name", genName(r)});
            bool en = r.chance(35), os = r.chance(10);
            if (r.chance(20)) i.kv.push_back({"IsUnion", boolT(r)});
            if (os) i.kv.push_back({"IsOptionSet", "true"}); else if (r.chance(10)) i.kv.push_back({"IsOptionSet", "false"});
            it.push_back(i);
            int n = r.range(0, 5); if (r.chance(3)) n = 120;
            for (int k = 0; k < n; k++) {
                Item q; q.kind = Item::FIELD; q.kv.push_back({"Name", r.chance(20) ? w.str(true, 300) + "f" : "f" + std::to_string(k)});
                if (en || os) q.kv.push_back({"Value", r.chance(5) ? r.pick(std::vector<std::string>{"2147483647", "-2147483648", "0", "+7", "007"}) : std::to_string(r.range(-5, 70000))});
                else {
                    if (r.chance(85)) q.kv.push_back({"DataType", dataType()});
                    if (r.chance(30)) q.kv.push_back({"ValueRank", std::to_string(r.range(-1, 2))});
                    if (r.chance(20)) q.kv.push_back({"IsOptional", boolT(r)});
                }
                it.push_back(q);
            }
        }
        // references
        if (c == 5 && !(o.unresolved && r.chance(10))) {
            if (refTypes.size() > 1 && r.chance(typeChain ? 95 : 55)) { // subtype of another custom type with a lower rank
                std::vector<int> cand; for (int t : refTypes) if (w.nodes[(size_t)t].rank < g.rank && w.sees(gd, w.nodes[(size_t)t].u)) cand.push_back(t);
                if (typeChain && !cand.empty()) { int b = cand[0]; for (int t : cand) if (w.nodes[(size_t)t].rank > w.nodes[(size_t)b].rank) b = t; cand = {b}; }
                if (!cand.empty()) { auto &t = w.nodes[(size_t)r.pick(cand)]; addRef(w, (int)x, gd, 0, "i=45", false, t.u, t.idt); }
                else addRef(w, (int)x, gd, 0, "i=45", false, 0, r.chance(60) ? "i=33" : "i=32");
            } else addRef(w, (int)x, gd, 0, "i=45", false, 0, r.pick(std::vector<std::string>{"i=33", "i=32", "i=35", "i=47", "i=44", "i=41", "i=36", "i=40"}));
            if (r.chance(25)) addRef(w, (int)x, gd, 0, r.pick(std::vector<std::string>{"i=47", "i=46", "i=35"}), false, 0, r.pick(std::vector<std::string>{"i=33", "i=47", "i=35", "i=44"})); // does not make it hierarchical
        }
        bool inst = c == 0 || c == 2 || c == 4 || c == 7;
        if ((c == 0 || c == 2) && r.chance(70)) {
            std::vector<std::string> v{c == 0 ? "i=58" : "i=63", c == 0 ? "i=61" : "i=68"};
            std::vector<unsigned> u{0, 0};
            for (auto n : gd.nodes) if (w.nodes[(size_t)n].cls == (c == 0 ? 1 : 6)) { v.push_back(w.nodes[(size_t)n].idt); u.push_back(w.nodes[(size_t)n].u); }
            size_t k = r.below(v.size());
            addRef(w, (int)x, gd, 0, "i=40", true, u[k], v[k]);
            if (r.chance(4)) addRef(w, (int)x, gd, 0, "i=40", r.chance(70), 0, c == 0 ? "i=2004" : "i=2365"); // a second one
        }
        std::vector<int> lower, higher;
        if (w.nodes.size() > 400) for (int k = 0; k < 60; k++) { size_t y = r.below(w.nodes.size()); if (y != x && w.sees(gd, w.nodes[y].u)) (w.nodes[y].rank < g.rank ? lower : higher).push_back((int)y); }
        else for (size_t y = 0; y < w.nodes.size(); y++) if (y != x && w.sees(gd, w.nodes[y].u)) (w.nodes[y].rank < g.rank ? lower : higher).push_back((int)y);
        int inv = 0;
        int nr = o.chain ? 1 : r.range(0, 3);
        for (int k = 0; k < nr; k++) {
            unsigned tu; std::string tt; hierType(gd, tu, tt);
            if (c == 5 && tu) continue; // a reference type's own references do not depend on custom types
            bool down = r.chance(35);
            auto &cand = down ? higher : lower;
            if (cand.empty() || r.chance(15)) { if (!down && r.chance(50)) { addRef(w, (int)x, gd, tu, tt, false, 0, r.pick(std::vector<std::string>{"i=85", "i=84", "i=86", "i=2253"})); inv++; } continue; }
            int t = r.pick(cand);
            if (o.chain) { long best = -1000000000; for (int y : lower) if (w.nodes[(size_t)y].rank > best) { best = w.nodes[(size_t)y].rank; t = y; } if (lower.empty()) continue; down = false; }
            auto &tn = w.nodes[(size_t)t];
            if (hasRefPair(w, (int)x, w.idText(tn.u, tn.idt, gd))) continue;
            if (c == 5 && tn.cls == 5 && r.chance(50)) continue; // only HasSubtype makes a reference type hierarchical
            addRef(w, (int)x, gd, tu, tt, down, tn.u, tn.idt);
            if (!down) inv++;
        }
        int nn = r.chance(40) ? r.range(1, 2) : 0;
        for (int k = 0; k < nn; k++) { // other references, any direction
            int t = (int)r.below(w.nodes.size()); auto &tn = w.nodes[(size_t)t];
            if (!w.sees(gd, tn.u) || t == (int)x || hasRefPair(w, (int)x, w.idText(tn.u, tn.idt, gd))) continue;
            std::string ty = r.pick(std::vector<std::string>{"i=37", "i=39", "i=41", "i=51", "i=52", "i=53", "i=3065", "i=9004"});
            addRef(w, (int)x, gd, 0, ty, r.chance(60), tn.u, tn.idt);
        }
        if (x == fat) { // distinct targets, which need not exist
            int mixed = r.range(0, 2);
            for (int k = 0; k < fatRefs; k++) {
                bool hier = mixed == 1 || (mixed == 2 && r.chance(50));
                if (hier && c == 5) continue;
                addRef(w, (int)x, gd, 0, hier ? r.pick(std::vector<std::string>{"i=35", "i=46", "i=47"}) : r.pick(std::vector<std::string>{"i=37", "i=41", "i=52", "i=9004"}), r.chance(hier ? fatFwd : 60), hier || gd.uris.empty() ? 0 : w.pickU(gd), "i=" + std::to_string(700000 + k));
            }
        }
        if (o.unresolved && r.chance(30)) { int t = (int)r.below(w.nodes.size()); auto &tn = w.nodes[(size_t)t]; if (!gd.uris.empty() && w.sees(gd, tn.u)) addRef(w, (int)x, gd, w.pickU(gd), "i=999999", r.chance(50), tn.u, tn.idt); }
        // encodings
        if (c == 0 && r.chance(o.dataTypes)) {
            std::vector<int> dts; for (int y : lower) if (w.nodes[(size_t)y].cls == 3) dts.push_back(y);
            if (!dts.empty()) {
                auto &tn = w.nodes[(size_t)r.pick(dts)];
                if (!hasRefPair(w, (int)x, w.idText(tn.u, tn.idt, gd))) {
                    for (auto &kv : a) if (kv.first == "BrowseName") kv.second = r.chance(80) ? "Default Binary" : "Default XML";
                    addRef(w, (int)x, gd, 0, "i=38", false, tn.u, tn.idt);
                }
            }
        }
        if (inst && o.parents && r.chance(45)) {
            if (!inv) { if (!lower.empty() && r.chance(70)) { auto &tn = w.nodes[(size_t)r.pick(lower)]; attrib(a, "ParentNodeId", w.idText(tn.u, tn.idt, gd)); } else attrib(a, "ParentNodeId", "i=85"); }
            else { // the target of one of its inverse references, spelled as an id
                for (auto &q : it) if (q.kind == Item::REF && q.kv.size() > 1 && truthless(q.kv[1].second) && (q.text.compare(0, 3, "ns=") == 0 || q.text.find('=') == 1) && q.kv[0].second != "i=38" && q.kv[0].second != "HasEncoding") { attrib(a, "ParentNodeId", q.text); break; }
            }
        }
        if (r.chance(o.unknown)) { Item i; i.kind = Item::UNK; i.el = genUnknown(r, w, 2); it.push_back(i); }
    }
    if (o.parents && !bulk) for (size_t x = 0; x < w.nodes.size(); x++) { // only the parent states the link
        GNode &g = w.nodes[x]; if (!(g.cls == 0 || g.cls == 2 || g.cls == 4 || g.cls == 7) || !r.chance(25)) continue;
        bool inv = false; for (auto &a : g.n.attrs) if (a.first == "ParentNodeId") inv = true;
        for (auto &q : g.n.items) if (q.kind == Item::REF && q.kv.size() > 1 && truthless(q.kv[1].second)) inv = true;
        if (inv) continue;
        for (size_t y = 0; y < w.nodes.size(); y++) {
            GNode &q = w.nodes[y]; if (y == x || q.rank >= g.rank || !w.sees(w.docs[(size_t)g.doc], q.u) || !w.sees(w.docs[(size_t)q.doc], g.u) || !r.chance(30)) continue;
            if (r.chance(50)) addRef(w, (int)y, w.docs[(size_t)q.doc], 0, r.pick(std::vector<std::string>{"i=35", "i=46", "i=49", "i=37"}), true, g.u, g.idt);
            addRef(w, (int)y, w.docs[(size_t)q.doc], 0, r.pick(std::vector<std::string>{"i=35", "i=46", "i=49", "i=47"}), true, g.u, g.idt);
            attrib(g.n.attrs, "ParentNodeId", w.idText(q.u, q.idt, w.docs[(size_t)g.doc])); break;
        }
    }
    if (o.cycle && w.nodes.size() > 1) { // close a ring
        int len = r.range(2, (int)std::min<size_t>(5, w.nodes.size()));
        if (r.chance(15)) len = (int)w.nodes.size();
        int st = (int)r.below(w.nodes.size());
        for (int i = 0; i < len; i++) {
            int a = (st + i) % (int)w.nodes.size(), b = (st + (i + 1) % len) % (int)w.nodes.size();
            auto &A = w.nodes[(size_t)a]; auto &B = w.nodes[(size_t)b];
            const GDoc &da = w.docs[(size_t)A.doc], &db = w.docs[(size_t)B.doc];
            if (r.chance(50) && w.sees(da, B.u)) addRef(w, a, da, 0, "i=47", true, B.u, B.idt);
            else if (w.sees(db, A.u)) addRef(w, b, db, 0, "i=47", false, A.u, A.idt);
        }
    }
    // order of the items of each node, then of the nodes of each document
    for (auto &g : w.nodes) {
        auto &it = g.n.items;
        // blocks: Definition with its fields stay together
        std::vector<std::vector<Item>> bl;
        for (auto &i : it) { if (i.kind == Item::FIELD && !bl.empty()) bl.back().push_back(i); else bl.push_back({i}); }
        if (r.chance(60)) for (size_t i = bl.size(); i > 1; i--) std::swap(bl[i - 1], bl[r.below(i)]);
        else std::stable_sort(bl.begin(), bl.end(), [](const std::vector<Item> &a, const std::vector<Item> &b) { return (a[0].kind == Item::REF) < (b[0].kind == Item::REF); });
        it.clear(); for (auto &b : bl) it.insert(it.end(), b.begin(), b.end());
    }
    for (auto &gd : w.docs) {
        if (!o.chain || r.chance(50)) for (size_t i = gd.nodes.size(); i > 1; i--) std::swap(gd.nodes[i - 1], gd.nodes[r.below(i)]);
        finishDoc(w, p, gd);
    }
    if (r.chance(o.overlap)) { // some nodes described twice, identically
        for (auto &d : p.docs) {
            std::vector<DocPart> dup; for (auto &x : d.parts) if (x.kind == DocPart::NODE && r.chance(20)) dup.push_back(x);
            for (auto &x : dup) d.parts.push_back(x);
        }
    }
}
void finishDoc(World &w, Plan &p, GDoc &gd) {
    Rng &r = w.r;
    Doc d; d.name = gd.name; d.style = r.chance(w.o.style) ? 1 + r.below(1000000) : 0;
    if (r.chance(w.o.enc)) d.enc = r.pick(std::vector<std::string>{"utf8decl", "bom", "latin1", "utf16le"});
    for (unsigned u : gd.uris) { DocPart x; x.kind = DocPart::URI; x.a = w.uris[u]; d.parts.push_back(x); }
    if (r.chance(w.o.unknown)) { DocPart x; x.kind = DocPart::UNK; x.el = genUnknown(r, w, 2); d.parts.push_back(x); }
    auto topExt = [&]() { // what other tools add to a nodeset, of any shape
        DocPart x; x.kind = DocPart::UNK; x.el.name = "Extensions";
        for (int n = r.range(0, 2); n > 0; n--) { El e; e.name = "Extension"; for (int k = r.range(0, 2); k > 0; k--) { e.kids.push_back(genExtEl(r, w, 2)); if (r.chance(30)) { e.kids.back().name = r.pick(std::vector<std::string>{"UAObject", "UAVariable", "NamespaceUris", "Alias", "Aliases"}); e.kids.back().attrs = {{"NodeId", "i=99" + std::to_string(r.range(0, 9))}, {"BrowseName", "x"}}; } } x.el.kids.push_back(e); }
        d.parts.push_back(x);
    };
    if (r.chance(w.o.unknown / 2)) topExt();
    for (auto &a : gd.aliases) { DocPart x; x.kind = DocPart::ALIAS; x.a = a.first; x.b = w.idText(a.second.first, a.second.second, gd); d.parts.push_back(x); }
    for (int n : gd.nodes) {
        DocPart x; x.kind = DocPart::NODE; x.node = w.nodes[(size_t)n].n; d.parts.push_back(x);
        if (r.chance(w.o.unknown / 4)) { DocPart y; y.kind = DocPart::UNK; y.el = genUnknown(r, w, 2); d.parts.push_back(y); }
        if (r.chance(5)) { DocPart y; y.kind = DocPart::RAW; y.a = "<!-- between -->"; d.parts.push_back(y); }
    }
    if (r.chance(w.o.unknown / 3)) topExt();
    p.docs.push_back(d);
}

// ---- programs and faults ----
static void hostFaults(Gen &g, long o, const std::string &doc) {
    if (g.r.chance(35)) g.shortReads(o, doc);
}
static void hostileEl(Rng &r, El &e, int depth = 0) { // somewhere within a value
    if (!e.kids.empty() && depth < 12 && r.chance(80)) {
        size_t i = r.below(e.kids.size()); int k = r.range(0, 19);
        if (k == 0) e.kids.erase(e.kids.begin() + (long)i);
        else if (k == 1) { El c = e.kids[i]; e.kids.push_back(c); }
        else if (k == 2) std::swap(e.kids[i], e.kids[r.below(e.kids.size())]);
        else if (k == 3) { El c = e.kids[i]; e.kids[i].kids.push_back(c); }
        else hostileEl(r, e.kids[i], depth + 1);
        return;
    }
    if (r.chance(8)) { e.name = r.pick(std::vector<std::string>{"ListOf", "ExtensionObject", "Body", "SwitchField", "EncodingMask", "Value", "Int32", "x"}); return; }
    e.text = r.pick(std::vector<std::string>{"", "=", "==", "====", "A", "QQ=", "QQ==QQ==", "Q!==", "===A", "\xC3\xA4\xC3\xA4", "   ", "-1", "99999999999999999999999", "-99999999999999999999999", "1e999", "NaN", "0x10", "i=", "ns=99;i=1", "g=1", "s=", "2020-13-45T99:99:99Z", "2020", "-000000-", "9999999999-01-01T00:00:00Z", "_", "Name_", "Name_-1", "Name_99999999999", "4294967295", "2147483648", std::string(5000, 'A'), std::string(4001, '=')});
    bool bytes = e.name == "ByteString" || e.name == "ListOfByteString";
    if (bytes ? r.chance(70) : r.chance(25)) { // nearly an encoded ByteString, id, Guid or number
        static const std::vector<std::string> alphabets = {"AQ=", "AQz+/9==", "ins=;1:b", "0123456789abcdef-", "-+.e19"};
        const std::string &al = alphabets[bytes ? r.below(2) : r.below(alphabets.size())];
        e.text.clear(); for (int q = r.range(0, 28); q > 0; q--) e.text += al[r.below(al.size())];
        if (r.chance(50)) e.text.resize(e.text.size() / 4 * 4);
        if (r.chance(40)) { size_t q = (size_t)r.range(1, 6); if (r.chance(50)) q = std::min(q, e.text.size()), e.text.resize(e.text.size() - q); e.text.append(q, '='); }
    }
    if (r.chance(20)) e.text = "\n " + e.text + " ";
}
void mutateHostile(Gen &g, World &w, bool valuesOnly) { // structurally strange documents
    Rng &r = g.r;
    if (valuesOnly) {
        static const char *N[] = {"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime", "Guid", "ByteString", "XmlElement", "NodeId", "ExpandedNodeId", "StatusCode", "QualifiedName", "LocalizedText"};
        for (auto &d : g.p.docs) for (auto &x : d.parts) if (x.kind == DocPart::NODE) for (auto &i : x.node.items) if (i.kind == Item::VAL) {
            if (r.chance(35)) { // a value of a built-in type
                int k = r.chance(25) ? 14 : (int)r.below(21); El e; e.name = N[k];
                auto kid = [&](const char *n) { El c; c.name = n; e.kids.push_back(c); };
                if (k == 13) kid("String"); if (k == 16 || k == 17) kid("Identifier"); if (k == 18) kid("Code"); if (k == 19) { kid("NamespaceIndex"); kid("Name"); } if (k == 20) { kid("Locale"); kid("Text"); }
                for (auto &a : x.node.attrs) if (a.first == "DataType") a.second = "i=" + std::to_string(k + 1);
                if (r.chance(40)) { El l; l.name = "ListOf" + e.name; for (int q = r.range(1, 4); q > 0; q--) { l.kids.push_back(e); hostileEl(r, l.kids.back()); } i.el = l; continue; }
                i.el = e;
            }
            if (r.chance(60)) for (int q = r.range(1, 3); q > 0; q--) hostileEl(r, i.el);
        }
        return;
    }
    int spare = r.pick(std::vector<int>{0, 0, 50, 80, 95}); // a document which is hardly wrong gets further
    for (auto &d : g.p.docs) for (auto &x : d.parts) {
        if (r.chance(spare)) continue;
        if (x.kind == DocPart::URI && r.chance(10)) x.a = r.pick(std::vector<std::string>{"", std::string(20000, 'u'), "\n"});
        if (x.kind == DocPart::ALIAS) { if (r.chance(10)) x.b = r.pick(std::vector<std::string>{"", "ns=9;i=4", "xx", "i=99999999999999", "ns=77777;s=a", "s=", "g=1", "b=@@"}); if (r.chance(5)) x.a = ""; }
        if (x.kind != DocPart::NODE) continue;
        DocNode &n = x.node;
        for (size_t i = 0; i < n.attrs.size();) {
            int k = (int)r.below(100);
            if (k < 4) { n.attrs.erase(n.attrs.begin() + (long)i); continue; }
            if (k < 9) n.attrs[i].second = r.pick(std::vector<std::string>{"", "ns=5;i=1", "ns=65536;i=1", "ns=-1;i=1", "i=", "garbage", "999999999999999999999", "-", ":", "1:", "70000:x", "ns=1;s=", "g=00000000-0000-0000-0000-000000000000", "i=0", std::string(3000, 'q')});
            i++;
        }
        if (r.chance(6)) n.cls = classEl[r.below(8)];
        for (size_t i = 0; i < n.items.size();) {
            Item &it = n.items[i]; int k = (int)r.below(100);
            if (k < 3) { n.items.erase(n.items.begin() + (long)i); continue; }
            if (k < 8) it.text = r.pick(std::vector<std::string>{"", "ns=99;i=1", "junk", "i=0", " ", "ns=1;g=xyz", "ns=;i=2"});
            if (k >= 8 && k < 12 && !it.kv.empty()) it.kv.erase(it.kv.begin() + (long)r.below(it.kv.size()));
            if (k >= 12 && k < 16 && !it.kv.empty()) it.kv[r.below(it.kv.size())].second = r.pick(std::vector<std::string>{"", "maybe", "-999999999999", "i=1000000", "ns=3;i=2", "Unknown"});
            if (it.kind == Item::VAL && r.chance(35)) for (int q = r.range(1, 3); q > 0; q--) hostileEl(r, it.el);
            if (k >= 16 && k < 19) { Item c = it; n.items.insert(n.items.begin() + (long)i, c); i++; }
            i++;
        }
        if (r.chance(6)) { Item i; i.kind = Item::DEF; i.kv.push_back({"Name", "x"}); if (r.chance(40)) i.kv.push_back({"IsUnion", "true"}); n.items.insert(n.items.begin() + (long)r.below(n.items.size() + 1), i); }
        if (r.chance(6)) { Item i; i.kind = Item::FIELD; i.kv.push_back({"Name", "x"}); if (r.chance(50)) i.kv.push_back({"DataType", "i=6"}); n.items.insert(n.items.begin() + (long)r.below(n.items.size() + 1), i); }
        if (r.chance(8)) { Item i; i.kind = Item::VAL; i.el = genValueEl(r, w); n.items.push_back(i); }
        if (r.chance(4)) { // deep nesting
            Item i; i.kind = r.chance(50) ? Item::VAL : r.chance(50) ? Item::EXT : Item::UNK;
            El e; e.name = "Deep"; int dep = r.range(50, 240); for (int k = 0; k < dep; k++) { El o; o.name = r.chance(10) ? "ExtensionObject" : r.chance(10) ? "Extension" : "D"; o.kids.push_back(e); e = o; }
            if (i.kind == Item::EXT) { i.el.name = "Extension"; i.el.kids.push_back(e); } else i.el = e;
            n.items.push_back(i);
        }
        if (r.chance(5)) { // values whose wrapper is odd
            Item i; i.kind = Item::VAL; El e;
            switch (r.range(0, 6)) {
            case 0: e.name = "ExtensionObject"; break;
            case 1: { e.name = "ExtensionObject"; El t; t.name = "TypeId"; e.kids.push_back(t); El b; b.name = "Body"; e.kids.push_back(b); break; }
            case 2: { e.name = "ListOfExtensionObject"; El t; t.name = "ExtensionObject"; e.kids.push_back(t); e.kids.push_back(t); break; }
            case 3: { e.name = "ListOf"; break; }
            case 4: { e.name = "ExtensionObject"; El b; b.name = "Body"; El q; q.name = "ExtensionObject"; q.kids.push_back(b); b.kids.push_back(q); e.kids.push_back(b); break; }
            case 5: { e.name = "Body"; El q; q.name = "TypeId"; e.kids.push_back(q); break; }
            default: { e.name = "Identifier"; e.text = "i=3"; }
            }
            i.el = e; n.items.push_back(i);
        }
        if (r.chance(4)) { Item i; i.kind = Item::UNK; i.el.name = r.pick(std::vector<std::string>{"UAObject", "UADataType", "UAVariable", "Definition", "References", "Extensions", "Value", "Aliases", "NamespaceUris"}); i.el.text = "t"; El k; k.name = r.pick(std::vector<std::string>{"Field", "Reference", "Extension", "Uri", "Alias", "UAMethod"}); k.text = "i=1"; k.attrs.push_back({"NodeId", "i=77"}); i.el.kids.push_back(k); n.items.push_back(i); }
    }
    for (auto &d : g.p.docs) {
        if (r.chance(6)) { for (int i = 0; i < 700; i++) { DocPart x; x.kind = DocPart::ALIAS; x.a = "Z" + std::to_string(i); x.b = "i=" + std::to_string(i); d.parts.insert(d.parts.begin(), x); } }
        if (r.chance(6)) { int n = r.range(40, 90); for (int i = 0; i < n; i++) { DocPart x; x.kind = DocPart::NODE; x.node.cls = "UAReferenceType"; x.node.attrs = {{"NodeId", "ns=1;i=" + std::to_string(100000 + i)}, {"BrowseName", "R"}}; Item it; it.kind = Item::REF; it.kv = {{"ReferenceType", "i=45"}, {"IsForward", "false"}}; it.text = i && r.chance(30) ? "ns=1;i=" + std::to_string(100000 + r.range(0, n - 1)) : "i=33"; x.node.items.push_back(it); d.parts.push_back(x); } }
        if (r.chance(6)) { // data types which are made of the ones before
            int n = r.chance(80) ? r.range(2, 70) : r.range(70, 1500), k = r.range(1, 3); bool uni = r.chance(50), back = r.chance(30); std::vector<DocPart> v;
            for (int i = 0; i < n; i++) {
                DocPart x; x.kind = DocPart::NODE; x.node.cls = "UADataType"; x.node.attrs = {{"NodeId", "ns=1;i=" + std::to_string(200000 + i)}, {"BrowseName", "1:C" + std::to_string(i)}};
                Item it; it.kind = Item::REF; it.kv = {{"ReferenceType", "i=45"}, {"IsForward", "false"}}; it.text = uni ? "i=12756" : "i=22"; x.node.items.push_back(it);
                Item d; d.kind = Item::DEF; d.kv = {{"Name", "1:C" + std::to_string(i)}}; if (uni) d.kv.push_back({"IsUnion", "true"}); x.node.items.push_back(d);
                for (int q = 1; q <= k; q++) { Item f; f.kind = Item::FIELD; f.kv = {{"Name", "f" + std::to_string(q)}, {"DataType", i >= q ? "ns=1;i=" + std::to_string(200000 + i - (r.chance(50) ? 1 : q)) : r.chance(50) ? "i=7" : "i=3"}}; if (!uni && !(i < q) && r.chance(n > 60 ? 1 : 5)) f.kv.push_back({"ValueRank", "1"}); x.node.items.push_back(f); }
                v.push_back(x);
            }
            if (back) std::reverse(v.begin(), v.end());
            if (r.chance(60)) { // a value of one of them
                std::string t = v[r.below(v.size())].node.attrs[0].second, e = "ns=1;i=199998";
                auto ref = [](const char *ty, const std::string &to, bool fwd) { Item i; i.kind = Item::REF; i.kv = {{"ReferenceType", ty}}; if (!fwd) i.kv.push_back({"IsForward", "false"}); i.text = to; return i; };
                DocPart x; x.kind = DocPart::NODE; x.node.cls = "UAObject"; x.node.attrs = {{"NodeId", e}, {"BrowseName", "Default XML"}}; x.node.items = {ref("i=40", "i=76", true), ref("i=38", t, false)}; v.push_back(x);
                for (auto &y : v) if (y.node.attrs[0].second == t) y.node.items.insert(y.node.items.begin(), ref("i=38", e, true));
                DocPart y; y.kind = DocPart::NODE; y.node.cls = "UAVariable"; y.node.attrs = {{"NodeId", "ns=1;i=199999"}, {"BrowseName", "1:chain"}, {"DataType", t}}; y.node.items = {ref("i=40", "i=63", true), ref("i=35", "i=85", false)};
                El in; in.name = "f1"; in.text = "7"; int dep = r.range(1, 120);
                for (int q = 0; q < dep; q++) { El o; o.name = "f" + std::to_string(r.range(1, k)); if (uni) { El sw; sw.name = "SwitchField"; sw.text = std::to_string(r.range(0, k)); o.kids.push_back(sw); } o.kids.push_back(in); in = o; }
                in.name = "C"; Item val; val.kind = Item::VAL; val.el.name = "ExtensionObject"; El id; id.name = "Identifier"; id.text = e; El ty; ty.name = "TypeId"; ty.kids.push_back(id); El body; body.name = "Body"; body.kids.push_back(in);
                val.el.kids.push_back(ty); val.el.kids.push_back(body); y.node.items.push_back(val); v.push_back(y);
            }
            d.parts.insert(d.parts.end(), v.begin(), v.end());
        }
        if (r.chance(spare)) continue;
        if (r.chance(20)) { size_t n = d.parts.size(); for (size_t i = n; i > 1; i--) if (r.chance(30)) std::swap(d.parts[i - 1], d.parts[r.below(i)]); }
    }
}
void byteHostility(Gen &g, File &f) {
    Rng &r = g.r; int k = r.range(1, 5); bool deep = r.chance(8);
    if (deep && r.chance(70)) k = 0;
    static const std::vector<std::string> tok = {"<UAObject NodeId=\"i=1\">", "</UAObject>", "<Value>", "</Value>", "<Definition>", "</Definition>", "<Field Name=\"a\"/>", "<Field Name=\"a\" DataType=\"i=1\"/>",
        "<References>", "</References>", "<Reference ReferenceType=\"i=45\">", "</Reference>", "<Extension>", "</Extension>", "<Extensions>", "<ExtensionObject>", "</ExtensionObject>", "<Body>", "</Body>", "<TypeId>", "<Identifier>i=1</Identifier>",
        "<NamespaceUris>", "</NamespaceUris>", "<Uri>", "</Uri>", "<Uri/>", "<Aliases>", "<Alias>", "<Alias Alias=\"q\">i=3</Alias>", "<ListOfInt32>", "</ListOfInt32>", "<DisplayName>", "<InverseName>x</InverseName>", "<Description/>", "<String/>", "<Int32>3</Int32>", "<UADataType NodeId=\"ns=1;i=9\" BrowseName=\"1:q\">", "<Reference/>", "<UAVariable/>",
        "<!DOCTYPE a [<!ENTITY x \"yyyyyyyyyy\"><!ENTITY y \"&x;&x;&x;&x;&x;&x;&x;&x;\"><!ENTITY z \"&y;&y;&y;&y;&y;&y;&y;&y;\">]>", "&z;", "&x;", "&amp;", "&lt;", "xmlns:b=\"q\"", "b:", " NodeId=\"\"", " NodeId=\"ns=1;i=1\""};
    while (k--) {
        Damage d; d.a = g.spot(f.doc);
        int q = r.range(0, 9);
        if (q < 5) { d.kind = "ins"; d.text = r.pick(tok); }
        else if (q < 7) { d.kind = "dup"; d.b = 1 + r.below(2000); d.c = g.spot(f.doc); }
        else if (q < 8) { d.kind = "drop"; d.b = 1 + r.below(200); }
        else { g.damage(f); continue; }
        f.damage.push_back(d);
    }
    if (deep) { // elements nested deeply: in a value, an extension, a node, a reference, the document
        static const std::vector<std::pair<std::string, std::string>> in = {
            {"<UAVariable NodeId=\"i=900001\" BrowseName=\"x\"><Value><ExtensionObject><TypeId><Identifier>i=1</Identifier></TypeId><Body>", "</Body></ExtensionObject></Value></UAVariable>"},
            {"<UAVariable NodeId=\"i=900001\" BrowseName=\"x\"><Value>", "</Value></UAVariable>"},
            {"<UAVariable NodeId=\"i=900001\" BrowseName=\"x\"><Value><ListOfExtensionObject><ExtensionObject><Body>", "</Body></ExtensionObject></ListOfExtensionObject></Value></UAVariable>"},
            {"<UAObject NodeId=\"i=900001\" BrowseName=\"x\"><Extensions><Extension>", "</Extension></Extensions></UAObject>"},
            {"<UAObject NodeId=\"i=900001\" BrowseName=\"x\">", "</UAObject>"}, {"<UAObject NodeId=\"i=900001\" BrowseName=\"x\"><References>", "</References></UAObject>"}, {"", ""}};
        static const std::vector<std::string> tags = {"a", "a", "a", "a", "a", "a", "a", "ExtensionObject", "Body", "ListOfInt32", "Value", "Extension", "UAObject", "Reference", "Identifier"};
        auto &x = r.pick(in); size_t at; Rendered re = render(*g.p.doc(f.doc));
        std::vector<size_t> ends;
        for (size_t i = 0; (i = re.bytes.find("</UA", i)) != std::string::npos; i++) { size_t k = re.bytes.find('>', i); if (k != std::string::npos && re.bytes.compare(i, 7, "</UANod")) ends.push_back(k + 1); }
        at = ends.empty() || r.chance(10) ? g.spot(f.doc) : r.pick(ends);
        Damage a; a.kind = "ins"; a.a = at; a.text = x.first + x.second;
        Damage d; d.kind = "deep"; d.text = r.pick(tags);
        if (r.chance(30)) { // a value of a structure which contains itself
            std::string t = "ns=1;i=990001", e = "ns=1;i=990002", ref = "<Reference ReferenceType=\"i=";
            a.text = "<UADataType NodeId=\"" + t + "\" BrowseName=\"1:Rec\"><References>" + ref + "45\" IsForward=\"false\">i=22</Reference>" + ref + "38\">" + e + "</Reference></References><Definition Name=\"1:Rec\"><Field Name=\"kids\" DataType=\"" + t + "\" ValueRank=\"1\"/></Definition></UADataType>"
                "<UAObject NodeId=\"" + e + "\" BrowseName=\"Default XML\"><References>" + ref + "40\">i=76</Reference>" + ref + "38\" IsForward=\"false\">" + t + "</Reference></References></UAObject>"
                "<UAVariable NodeId=\"ns=1;i=990003\" BrowseName=\"1:rec\" DataType=\"" + t + "\"><References>" + ref + "40\">i=63</Reference>" + ref + "35\" IsForward=\"false\">i=85</Reference></References><Value><ExtensionObject><TypeId><Identifier>" + e + "</Identifier></TypeId><Body><Rec>";
            d.a = at + a.text.size(); d.text = "kids/Rec"; a.text += "</Rec></Body></ExtensionObject></Value></UAVariable>";
        } else d.a = at + x.first.size();
        d.c = r.chance(80);
        d.b = r.chance(60) ? (uint64_t)r.range(1, 260) : r.chance(60) ? (uint64_t)r.range(250, 5000) : (uint64_t)r.range(5000, d.text.size() > 2 ? 80000 : 300000); // with the limits of libxml2 lifted these are trees
        f.damage.insert(f.damage.begin(), d);
        if (!a.text.empty()) f.damage.insert(f.damage.begin(), a);
    }
    Damage n; n.kind = "none"; f.damage.push_back(n);
}
// a program over one loader; files: importable names with their documents
static void program(Gen &g, const std::string &L, const std::vector<std::string> &files, bool faults, int maxImports) {
    Rng &r = g.r;
    g.op("new", L, "", g.svcKv());
    if (r.chance(4)) g.op("sort", L);
    if (r.chance(4)) g.op("walk", L);
    int n = r.range(1, maxImports);
    for (int i = 0; i < n; i++) {
        std::string f = i < (int)files.size() && r.chance(75) ? files[(size_t)i] : r.pick(files);
        KV kv; if (r.chance(15)) kv.push_back({"ext", "0"});
        long o = g.op("import", L, f, kv);
        const File *fi = g.p.file(f);
        if (fi && g.p.doc(fi->doc)) { hostFaults(g, o, fi->doc); if (faults && r.chance(20)) g.readErr(o, fi->doc); else if (faults && r.chance(5)) g.fault("open", o, 0, 1, std::to_string(r.pick(std::vector<int>{EACCES, EMFILE, ENOENT, EIO}))); }
        if (r.chance(15)) { g.op("sort", L); if (r.chance(60)) g.op("walk", L); if (r.chance(30)) g.op("refs", L); }
        if (r.chance(5)) g.op("walk", L);
        if (faults && r.chance(4)) g.op("bad", L, r.chance(50) ? "ctx" : "ns");
    }
    if (r.chance(92)) { g.op("sort", L); g.op("walk", L); }
    if (r.chance(40)) g.op("refs", L);
    if (r.chance(8)) { g.op("sort", L); g.op("walk", L); }
    g.finishUp(L);
}
static void arenaOp(Gen &g) {
    Rng &r = g.r; std::string a; bool have = false; int n = r.range(1, 60);
    static const std::vector<int> sz = {1, 2, 3, 5, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 100, 255, 256, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000, 9000};
    for (int i = 0; i < n; i++) { bool m = !have || r.chance(40); have = true; a += (m ? "m" : "r") + std::to_string(r.chance(70) ? r.pick(sz) : r.range(1, 3000)); }
    g.op("arena", "x", a, {{"init", std::to_string(r.pick(std::vector<int>{1, 8, 16, 64, 100, 256, 1024, 4096, 1 << 16}))}});
}

bool wantsProbe(const std::string &prop) { return prop == "C08"; }
static Plan makePlan(const std::string &prop, uint64_t seed, uint64_t index) {
    Plan p; p.property = prop; p.seed = seed; p.index = index;
    World w(hashStr(prop + "/" + std::to_string(seed) + "/" + std::to_string(index)));
    Rng &r = w.r; GOpt &o = w.o;
    p.junk = r.chance(70) ? r.next() | 1 : 0;
    if (r.chance(40)) { p.opts.push_back({"nsbase", std::to_string(r.pick(std::vector<int>{2, 2, 3, 10, 1, 1000, 60000}))}); if (r.chance(30)) p.opts.push_back({"nsstep", std::to_string(r.range(1, 7))}); }
    if (prop == "C05" || prop == "C06" || prop == "C12" || prop == "C14") { genServerPlan(p, w); return p; }
    {
        static const std::map<std::string, int> mix = {{"C01", 15}, {"C03", 30}, {"C07", 45}, {"C08", 45}, {"C09", 35}, {"C11", 30}, {"C13", 30}};
        auto m = mix.find(prop); if (m != mix.end() && r.chance(m->second)) { genServerPlan(p, w); return p; }
    }
    Gen g{p, r, ""};
    std::vector<std::string> files;
    auto oneFilePerDoc = [&]() { for (auto &d : p.docs) files.push_back(g.importable(d.name)); };
    if (prop == "C01") {
        o.docs = r.range(1, 2); o.maxNodes = r.pick(std::vector<int>{1, 2, 6, 15}); o.minNodes = r.chance(10) ? 0 : 1; o.unresolved = r.chance(15); o.parents = true;
        genWorld(w, p);
        if (r.chance(1)) g.pad("d0", 1024 * (size_t)r.range(200, 3000) + g.edge()); else if (r.chance(35)) g.pad("d0", 1024 * (size_t)r.range(1, 70) + g.edge());
        g.newTask("a"); g.op("new", "L", "", g.svcKv());
        int n = r.range(1, 3);
        for (int i = 0; i < n; i++) {
            std::string doc = r.pick(p.docs).name; int k = r.range(0, 9);
            File &f = g.file("f" + std::to_string(p.files.size()), doc); std::string fn = f.name;
            if (k == 0) { f.missing = true; f.doc = ""; } else if (k == 1) { f.openErr = r.pick(std::vector<int>{EACCES, EMFILE, EISDIR, EIO}); }
            else if (k < 5) { g.damage(f); if (r.chance(10)) g.damage(f); }
            long q = g.op("import", "L", fn, r.chance(15) ? KV{{"ext", "0"}} : KV{});
            if (k >= 2 && r.chance(30)) g.shortReads(q, doc);
            if (k == 5 || k == 6) g.readErr(q, doc);
            if (k == 7 && r.chance(20)) g.fault("xmlctx", q, 0, 1, "");
            if (r.chance(5)) g.op("bad", "L", r.chance(50) ? "ctx" : "ns");
        }
        if (r.chance(40)) { g.op("sort", "L"); g.op("walk", "L"); }
        g.finishUp("L");
    } else if (prop == "C02") {
        o.docs = r.range(1, 3); o.maxNodes = r.pick(std::vector<int>{2, 6, 12}); o.values = 60; o.strange = 60; o.longText = 12; o.customRefs = 50; o.dataTypes = 40; o.ext = 15;
        o.bulk = 15; genWorld(w, p); oneFilePerDoc();
        if (r.chance(6)) g.pad("d0", 1024 * (size_t)r.range(1, 70) + g.edge());
        g.newTask("a");
        if (r.chance(20)) arenaOp(g);
        program(g, "L", files, false, o.docs);
        if (r.chance(25)) program(g, "M", files, r.chance(30), 2);
    } else if (prop == "C03") {
        o.docs = r.range(1, 3); o.maxNodes = r.pick(std::vector<int>{3, 8}); o.customRefs = 70; o.longText = 3; o.sameAliases = r.chance(50); o.ext = 20;
        o.unresolved = r.chance(10); o.cycle = r.chance(10); if (o.cycle) o.parents = false;
        genWorld(w, p); oneFilePerDoc();
        if (r.chance(30)) { File &f = g.file("bad", p.docs[0].name); g.damage(f); files.push_back("bad"); }
        int n = r.range(2, 3);
        bool nestOnly = r.chance(20);
        if (nestOnly) n = 1;
        std::vector<std::string> names;
        for (int i = 0; i < n; i++) { std::string t(1, (char)('a' + i)); names.push_back(t); g.newTask(t); program(g, "L", files, true, 2); if (r.chance(20)) program(g, "M", files, true, 1); }
        if (nestOnly || r.chance(25)) {
            g.newTask("x", true); program(g, "L", files, true, 1);
            int k = r.range(1, 3);
            while (k--) { g.t = r.pick(names); Task *t = g.task(); long q = (long)r.below(t->ops.size()); g.fault("nest", q, (long)r.below(12), 1, "x"); }
        }
        if (!nestOnly) { p.schedSeed = r.next() | 1; p.schedMean = r.pick(std::vector<int>{30, 100, 300, 1000, 5000}); }
    } else if (prop == "C04") {
        o.docs = r.range(1, 3); o.maxNodes = r.pick(std::vector<int>{4, 12, 30}); o.customRefs = r.pick(std::vector<int>{10, 50, 90}); o.values = 0; o.longText = 1; o.strange = 15; o.ext = 0; o.unknown = 2; o.enc = 5;
        o.cycle = r.chance(25); o.unresolved = !o.cycle && r.chance(15); o.chain = r.chance(15); if (o.chain && r.chance(30)) o.maxNodes = 150; if (o.cycle) o.parents = false;
        o.uriPool = 2; o.maxUris = 2; o.overlap = 25;
        o.bulk = 15; genWorld(w, p); oneFilePerDoc();
        if (r.chance(30)) for (size_t i = files.size(); i > 1; i--) std::swap(files[i - 1], files[r.below(i)]);
        g.newTask("a"); program(g, "L", files, false, (int)files.size() + 1);
    } else if (prop == "C07") {
        o.docs = r.range(1, 2); o.maxNodes = r.pick(std::vector<int>{2, 8}); o.values = 50; o.ext = 20; o.dataTypes = 40; o.customRefs = 50; o.overlap = 40; o.longText = 3;
        o.cycle = r.chance(15); o.unresolved = r.chance(20); if (o.cycle) o.parents = false;
        o.bulk = 12; genWorld(w, p); oneFilePerDoc();
        if (r.chance(60)) { File &f = g.file("bad", r.pick(p.docs).name); g.damage(f); files.push_back("bad"); }
        g.newTask("a");
        if (r.chance(10)) arenaOp(g);
        program(g, "L", files, true, 3);
        if (r.chance(30)) program(g, "M", files, true, 2);
    } else if (prop == "C08") {
        o.docs = r.range(1, 2); o.minNodes = 1; o.maxNodes = r.pick(std::vector<int>{1, 3, 6}); o.values = 60; o.ext = 25; o.dataTypes = 50; o.customRefs = 60; o.longText = 4; o.unknown = 5; o.overlap = 10;
        o.unresolved = r.chance(10);
        o.bulk = 20; genWorld(w, p); oneFilePerDoc();
        g.newTask("a");
        if (r.chance(10)) arenaOp(g);
        g.op("new", "L", "", g.svcKv());
        for (auto &f : files) g.op("import", "L", f);
        g.op("sort", "L"); g.op("walk", "L"); if (r.chance(50)) g.op("refs", "L");
        if (r.chance(60)) { g.op("import", "L", files[0]); g.op("sort", "L"); g.op("walk", "L"); g.op("refs", "L"); }
        g.op("delete", "L");
        if (r.chance(40)) { g.op("new", "N"); g.op("import", "N", files[0]); g.op("sort", "N"); g.op("walk", "N"); }
    } else if (prop == "C09") {
        o.docs = r.range(1, 2); o.maxNodes = r.pick(std::vector<int>{2, 8, 16}); o.values = 50; o.ext = 20; o.dataTypes = 40; o.customRefs = 50; o.longText = 3; o.unresolved = r.chance(20); o.cycle = r.chance(10);
        o.bulk = 10; genWorld(w, p);
        mutateHostile(g, w);
        for (auto &d : p.docs) { File &f = g.file("f" + std::to_string(p.files.size()), d.name); files.push_back(f.name); if (r.chance(60)) byteHostility(g, f); else { Damage n; n.kind = "none"; f.damage.push_back(n); } }
        g.newTask("a"); program(g, "L", files, r.chance(30), 3);
    } else if (prop == "C10") {
        o.docs = r.range(2, 3); o.minNodes = 1; o.maxNodes = r.pick(std::vector<int>{3, 6}); o.customRefs = 50; o.sameAliases = true; o.alias = 80; o.longText = 2; o.ext = 15; o.uriPool = 3; o.maxUris = 3;
        o.unresolved = r.chance(8);
        o.bulk = 8; genWorld(w, p); oneFilePerDoc();
        g.newTask("a"); g.op("new", "L", "", g.svcKv());
        int bad = r.range(1, 2), steps = r.range(2, 4);
        std::vector<int> kind; for (int i = 0; i < steps; i++) kind.push_back(i < bad ? 1 : 0);
        for (size_t i = kind.size(); i > 1; i--) std::swap(kind[i - 1], kind[r.below(i)]);
        if (kind.back()) kind.push_back(0);
        for (int k : kind) {
            std::string f = r.pick(files), doc = p.file(f)->doc;
            if (!k) { long q = g.op("import", "L", f); if (r.chance(20)) g.shortReads(q, doc); }
            else switch (r.range(0, 4)) {
                case 0: { File x; x.name = "miss" + std::to_string(p.files.size()); x.missing = true; p.files.push_back(x); g.op("import", "L", x.name); break; }
                case 1: { long q = g.op("import", "L", f); g.fault("read", q, (long)g.spot(doc), -1, "err=5"); break; }
                case 2: { long q = g.op("import", "L", f); g.fault("open", q, 0, 1, std::to_string(EMFILE)); break; }
                default: { File &x = g.file("t" + std::to_string(p.files.size()), doc); std::string n = x.name; if (r.chance(80)) { Damage d; d.kind = "trunc"; d.a = g.spot(doc); x.damage.push_back(d); } else g.damage(x); g.op("import", "L", n); }
                }
            if (r.chance(20)) { g.op("sort", "L"); if (r.chance(50)) g.op("walk", "L"); }
        }
        g.op("sort", "L"); g.op("walk", "L"); if (r.chance(50)) g.op("refs", "L");
        g.finishUp("L");
    } else if (prop == "C11") {
        o.docs = r.range(1, 4); o.maxNodes = r.pick(std::vector<int>{2, 6}); o.maxUris = r.chance(10) ? 30 : r.chance(3) ? r.range(60, 400) : 5; o.uriPool = o.maxUris; o.values = 10; o.dataTypes = 40; o.customRefs = 40; o.longText = 2; o.alias = 80; o.sameAliases = true; o.repeatUri = 20;
        genWorld(w, p); oneFilePerDoc();
        if (r.chance(25)) { File &f = g.file("bad", r.pick(p.docs).name); Damage d; d.kind = "trunc"; d.a = g.spot(f.doc); f.damage.push_back(d); files.insert(files.begin() + (long)r.below(files.size() + 1), "bad"); }
        g.newTask("a"); program(g, "L", files, false, (int)files.size() + 1);
        if (r.chance(30)) program(g, "M", files, false, 2);
    } else { // C13
        o.docs = r.range(1, 2); o.maxNodes = r.pick(std::vector<int>{2, 5}); o.ext = 80; o.values = 10; o.longText = 10; o.strange = 50;
        genWorld(w, p); oneFilePerDoc();
        if (r.chance(40)) { File &f = g.file("bad", r.pick(p.docs).name); if (r.chance(70)) { Damage d; d.kind = "trunc"; d.a = g.spot(f.doc); f.damage.push_back(d); } else g.damage(f); files.push_back("bad"); }
        g.newTask("a"); program(g, "L", files, true, 2);
        if (r.chance(30)) { g.newTask("x", true); program(g, "L", files, true, 1); g.t = "a"; int k = r.range(1, 2); while (k--) g.fault("nest", (long)r.below(g.task()->ops.size()), (long)r.below(12), 1, "x"); }
    }
    return p;
}
Plan genPlan(const std::string &prop, uint64_t seed, uint64_t index) {
    Plan p = makePlan(prop, seed, index);
    Rng r(hashStr(prop + "/env/" + std::to_string(seed) + "/" + std::to_string(index)));
    if (r.chance(50)) p.opts.push_back({"arena", std::to_string(r.pick(std::vector<int>{1, 16, 64, 100, 256, 1000, 4096, 20000}))}); // not one large region for everything
    if (r.chance(40)) p.opts.push_back({"nodes", std::to_string(r.pick(std::vector<int>{4, 4, 5, 7, 10, 30, 100}))});
    return p;
}
void placeFaults(Plan &p, const rt::Result &probe) {
    Rng r(p.seed * 1000003 + p.index * 7 + 99);
    struct C { std::string task; int op; uint32_t n; };
    std::vector<C> c; uint64_t total = 0;
    for (unsigned i = 0; i < probe.nAllocs && i < 256; i++) if (probe.opAllocs[i].allocs) { c.push_back({probe.opAllocs[i].task, probe.opAllocs[i].op, probe.opAllocs[i].allocs}); total += probe.opAllocs[i].allocs; }
    if (c.empty()) return;
    std::vector<const rt::Result::Site *> sites;
    for (auto &s : probe.sites) if (s.key) for (auto &q : c) if (q.op == s.op && q.task == s.task) { sites.push_back(&s); break; }
    int k = r.chance(75) ? 1 : r.range(2, 4);
    while (k--) {
        const C *x = &c[r.below(c.size())];
        if (r.chance(50)) { uint64_t z = r.below(total); for (auto &q : c) { if (z < q.n) { x = &q; break; } z -= q.n; } }
        Fault f; f.kind = "alloc"; f.task = x->task; f.op = x->op; f.k = (long)r.below(x->n);
        if (!sites.empty() && r.chance(60)) { auto s = sites[r.below(sites.size())]; f.task = s->task; f.op = s->op; f.k = s->pick; } // rare call paths as often as frequent ones
        f.n = r.pick(std::vector<int>{1, 1, 1, 2, 5, 50, -1});
        p.faults.push_back(f);
    }
    if (r.chance(4)) { Fault f; f.kind = "xmlctx"; f.task = c[0].task; for (auto &t : p.tasks) if (t.name == f.task) for (size_t i = 0; i < t.ops.size(); i++) if (t.ops[i].kind == "import" || t.ops[i].kind == "load") f.op = (long)i; f.n = 1; if (f.op >= 0) p.faults.push_back(f); }
}
