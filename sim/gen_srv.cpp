// Worlds and programs for whole servers: nodesets that build on each other, loaded one after the other.
#include "gen_int.h"

namespace {
enum TK { LEAF, STRUCT, ENUM, UNION, OPTSET, SIMPLE };
struct Fld { std::string name; int type = -1; bool arr = false, opt = false; };
struct TI { unsigned u = 0; std::string idt, name; TK kind = LEAF; int leaf = 0; bool abstr = false, hasDef = true; std::vector<Fld> f; int parent = -1, node = -1, nvals = 0; std::string encIdt; unsigned encU = 0; };
struct SW { // one world of nodesets
    World &w; Rng &r; Plan &p; std::vector<TI> types; int nBuiltin = 0;
    int bigPct = 1, budget = 0, dtWeight = 20, strange = 6, missing = 4;
    bool host = false, line = false; int lineKind = 0; long many = 0, pre = 0, dtypes = 0, cyc = 0, preset = 0, bigArr = 0;
    SW(World &w_, Plan &p_) : w(w_), r(w_.r), p(p_) {}

    void builtins() {
        static const char *N[] = {"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime", "Guid", "ByteString"};
        for (int i = 0; i < 15; i++) { TI t; t.idt = "i=" + std::to_string(i + 1); t.name = N[i]; t.leaf = i + 1; types.push_back(t); }
        auto leaf = [&](int id, const char *n) { TI t; t.idt = "i=" + std::to_string(id); t.name = n; t.leaf = id; types.push_back(t); };
        leaf(17, "NodeId"); leaf(19, "StatusCode"); leaf(20, "QualifiedName"); leaf(21, "LocalizedText");
        leaf(16, "XmlElement"); leaf(18, "ExpandedNodeId"); leaf(22, "Structure"); leaf(23, "DataValue"); leaf(24, "BaseDataType"); leaf(25, "DiagnosticInfo"); // without values
        { TI t; t.idt = "i=884"; t.name = "Range"; t.kind = STRUCT; t.f = {{"Low", 10}, {"High", 10}}; types.push_back(t); }
        { TI t; t.idt = "i=887"; t.name = "EUInformation"; t.kind = STRUCT; t.f = {{"NamespaceUri", 11}, {"UnitId", 5}, {"DisplayName", 18}, {"Description", 18}}; types.push_back(t); }
        { TI t; t.idt = "i=7594"; t.name = "EnumValueType"; t.kind = STRUCT; t.f = {{"Value", 7}, {"DisplayName", 18}, {"Description", 18}}; types.push_back(t); }
        { TI t; t.idt = "i=296"; t.name = "Argument"; t.kind = STRUCT; t.f = {{"Name", 11}, {"DataType", 15}, {"ValueRank", 5}, {"ArrayDimensions", 6, true}, {"Description", 18}}; types.push_back(t); }
        { TI t; t.idt = "i=290"; t.name = "Double"; t.kind = SIMPLE; t.leaf = 11; types.push_back(t); } // Duration
        { TI t; t.idt = "i=852"; t.name = "Int32"; t.kind = ENUM; types.push_back(t); }               // ServerState
        nBuiltin = (int)types.size();
    }
    // ---- values ----
    std::string leafText(int leaf) {
        auto num = [&](long long lo, long long hi) { int k = r.range(0, 9); return k == 0 ? std::to_string(lo) : k == 1 ? std::to_string(hi) : k == 2 ? std::string("0") : std::to_string(lo < 0 ? (long long)r.range(-100, 100) : (long long)r.range(0, 100)); };
        switch (leaf) {
        case 1: return boolT(r);
        case 2: return num(-128, 127); case 3: return num(0, 255); case 4: return num(-32768, 32767); case 5: return num(0, 65535);
        case 6: return num(-2147483648ll, 2147483647ll); case 7: return num(0, 4294967295ll);
        case 8: return num(-9223372036854775807ll, 9223372036854775807ll); case 9: return r.chance(15) ? "18446744073709551615" : num(0, 9223372036854775807ll);
        case 10: case 11: return r.pick(std::vector<std::string>{"0", "1.5", "-3.25", "1e10", "-2.5E-3", "12345.678", "100", "-0.1"});
        case 12: return r.chance(40) ? w.str(false, 3000) : genName(r);
        case 13: { char b[64]; snprintf(b, 64, "%04d-%02d-%02dT%02d:%02d:%02dZ", r.range(1601, 2200), r.range(1, 12), r.range(1, 28), r.range(0, 23), r.range(0, 59), r.range(0, 59)); return b; }
        case 15: { static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string s; int n = r.range(0, 5) * 4; for (int i = 0; i < n; i++) s += T[r.below(64)]; if (r.chance(45)) s += r.pick(std::vector<std::string>{"QQ==", "QUI=", "/+8="}); if (r.chance(20)) for (int k = r.range(1, 4); k > 0; k--) s.insert(r.below(s.size() + 1), r.pick(std::vector<std::string>{"\n", "\t", " ", "\n    ", " \t"})); return s; }
        case 16: case 18: case 22: case 23: case 24: case 25: return r.chance(50) ? "" : "x";
        }
        return "";
    }
    El leafEl(const std::string &name, int leaf, const GDoc &gd) {
        El e; e.name = name;
        auto kid = [&](const char *n, const std::string &t) { if (r.chance(8)) return; El k; k.name = n; k.text = t; e.kids.push_back(k); };
        char b[64];
        switch (leaf) {
        case 14: snprintf(b, 64, "%08x-%04X-4abc-8def-%012X", (unsigned)r.next(), r.range(0, 65535), r.range(0, 1000000)); kid("String", b); break;
        case 17: { const GNode *g = w.nodes.empty() ? nullptr : &w.nodes[r.below(w.nodes.size())]; kid("Identifier", r.chance(2) ? "ns=" + std::to_string(gd.uris.size() + 1 + r.below(3)) + ";i=5" : g && w.sees(gd, g->u) ? w.idText(g->u, g->idt, gd) : "i=" + std::to_string(r.range(0, 3000))); break; }
        case 19: kid("Code", std::to_string(r.chance(50) ? 0 : 2147483648u + (unsigned)r.below(1000000))); break;
        case 20: kid("NamespaceIndex", std::to_string(r.chance(2) ? gd.uris.size() + 1 + r.below(3) : gd.uris.size() > 40 && r.chance(50) ? gd.uris.size() - r.below(30) : r.below(gd.uris.size() + 1))); kid("Name", leafText(12)); break;
        case 21: if (r.chance(60)) kid("Locale", r.pick(std::vector<std::string>{"en", "de", ""})); kid("Text", leafText(12)); break;
        default: if (!r.chance(4)) e.text = leafText(leaf);
        }
        return e;
    }
    std::vector<Fld> allFields(int t) { std::vector<Fld> v; for (int q = t, i = 0; q >= 0 && i < 30; q = types[(size_t)q].parent, i++) v.insert(v.begin(), types[(size_t)q].f.begin(), types[(size_t)q].f.end()); return v; }
    El valEl(const std::string &name, int t, const GDoc &gd, int depth) {
        const TI &x = types[(size_t)t];
        El e; e.name = name;
        if (--budget < 0) return e;
        if (r.chance(2)) { e.text = "oops"; return e; }
        switch (x.kind) {
        case LEAF: case SIMPLE: return leafEl(name, x.leaf, gd);
        case ENUM: { int v = r.range(0, 5); if (r.chance(15)) v = r.pick(std::vector<int>{-1, -70000, 100, 65536, 2147483647}); e.text = r.chance(50) ? std::to_string(v) : r.pick(std::vector<std::string>{"Name" + std::to_string(v) + "_", "Some_Name_", "Name_", "_", "a1_"}) + std::to_string(v); return e; }
        case OPTSET: { El a; a.name = "Value"; a.text = "AQ=="; El b; b.name = "ValidBits"; b.text = "Aw=="; e.kids = {a, b}; return e; }
        case UNION: {
            if (x.f.empty()) return e;
            int k = r.range(0, (int)x.f.size());
            El s; s.name = "SwitchField"; s.text = std::to_string(k); e.kids.push_back(s);
            if (r.chance(2)) e.kids[0].text = std::to_string(r.pick(std::vector<int>{(int)x.f.size() + 1, 255, 70000})); // no such field
            if (k) e.kids.push_back(fieldEl(x.f[(size_t)k - 1], gd, depth + 1));
            return e;
        }
        case STRUCT: {
            auto f = allFields(t);
            for (auto &q : f) { if (r.chance(8) || depth > 5) continue; e.kids.push_back(fieldEl(q, gd, depth + 1)); }
            if (r.chance(5) && e.kids.size() > 1) std::swap(e.kids[0], e.kids[1]);
            if (r.chance(4)) { El k; k.name = "Extra"; k.text = "1"; e.kids.push_back(k); }
            return e;
        }
        }
        return e;
    }
    El fieldEl(const Fld &f, const GDoc &gd, int depth) {
        if (f.type < 0 || depth > 6) { El e; e.name = f.name; return e; }
        if (!f.arr) return valEl(f.name, f.type, gd, depth);
        El e; e.name = f.name; int n = r.range(0, 4); if (depth > 3) n = std::min(n, 1); if (r.chance(3) && types[(size_t)f.type].kind == LEAF) n = 40;
        if (bigArr && types[(size_t)f.type].kind == LEAF) { n = (int)bigArr; budget += n; bigArr = 0; }
        for (int i = 0; i < n && budget > 0; i++) e.kids.push_back(valEl(types[(size_t)f.type].name, f.type, gd, depth));
        return e;
    }
    El wrap(int t, const GDoc &gd) {
        const TI &x = types[(size_t)t];
        if (x.kind == LEAF || x.kind == SIMPLE) return valEl(x.name, t, gd, 0);
        if (x.kind == ENUM) return valEl(r.chance(50) ? "Int32" : "String", t, gd, 0);
        El e; e.name = "ExtensionObject"; El ti; ti.name = "TypeId"; El id; id.name = "Identifier"; id.text = x.encIdt.empty() ? w.idText(x.u, x.idt, gd) : w.idText(x.encU, x.encIdt, gd); ti.kids.push_back(id);
        El b; b.name = "Body"; b.kids.push_back(valEl(x.name, t, gd, 0)); e.kids = {ti, b};
        return e;
    }
    El value(int t, const GDoc &gd, bool arr) {
        budget = r.pick(std::vector<int>{20, 60, 200});
        if (!arr) return wrap(t, gd);
        const TI &x = types[(size_t)t];
        El e; int n = r.range(0, 4); if (r.chance(3)) n = 100;
        if (bigArr && r.chance(50)) { n = (int)bigArr; budget += 20 * n; bigArr = 0; }
        for (int i = 0; i < n && budget > 0; i++) e.kids.push_back(wrap(t, gd));
        bool eo = x.kind != LEAF && x.kind != SIMPLE && x.kind != ENUM;
        std::string nm = eo ? "ExtensionObject" : x.kind == ENUM ? "Int32" : x.name;
        for (auto &k : e.kids) if (!eo) k.name = nm;
        e.name = "ListOf" + nm;
        return e;
    }

    // ---- references ----
    void ref(int at, const std::string &t0, bool fwd, unsigned u, const std::string &idt, unsigned tu = 0) { GNode &g = w.nodes[(size_t)at]; addRef(w, at, w.docs[(size_t)g.doc], tu, t0, fwd, u, idt); }
    bool seen(int at, int other) { return w.sees(w.docs[(size_t)w.nodes[(size_t)at].doc], w.nodes[(size_t)other].u); }
    std::string text(int at, int other) { return w.idText(w.nodes[(size_t)other].u, w.nodes[(size_t)other].idt, w.docs[(size_t)w.nodes[(size_t)at].doc]); }
    // earlier nodes the document of `at` can name
    std::vector<int> lower(int at, std::function<bool(const GNode &)> ok) {
        std::vector<int> v; const GNode &g = w.nodes[(size_t)at];
        for (size_t i = 0; i < w.nodes.size(); i++) { const GNode &x = w.nodes[i]; if ((int)i != at && ok(x) && seen(at, (int)i) && (x.doc < g.doc || (x.doc == g.doc && x.rank < g.rank))) v.push_back((int)i); }
        return v;
    }
    int last(const std::vector<int> &c, int at) { // any of them, or the one which makes the line longer
        int t = r.pick(c); if (line && r.chance(90)) for (int q : c) if (w.nodes[(size_t)q].doc == w.nodes[(size_t)at].doc && (w.nodes[(size_t)q].rank > w.nodes[(size_t)t].rank || w.nodes[(size_t)t].doc != w.nodes[(size_t)at].doc)) t = q;
        return t;
    }
    bool hostSeen(int at) { const GDoc &d = w.docs[(size_t)w.nodes[(size_t)at].doc]; return std::find(d.uris.begin(), d.uris.end(), 1u) != d.uris.end(); }
    // a type's super type
    void super(int at, const std::vector<std::string> &base, int cls, int customPct = 55) {
        auto c = lower(at, [&](const GNode &x) { return x.cls == cls; });
        if (!c.empty() && r.chance(customPct)) { int t = last(c, at);
            ref(at, "i=45", false, w.nodes[(size_t)t].u, w.nodes[(size_t)t].idt); if (r.chance(15) && w.nodes[(size_t)t].doc == w.nodes[(size_t)at].doc) ref(t, "i=45", true, w.nodes[(size_t)at].u, w.nodes[(size_t)at].idt); }
        else ref(at, "i=45", false, 0, r.pick(base));
        if (r.chance(strange / 3)) ref(at, "i=45", false, 0, r.pick(base)); // maybe a second one
    }
    // a hierarchical reference type usable for a link
    void link(int at, unsigned &tu, std::string &tt) {
        auto c = lower(at, [&](const GNode &x) { return x.cls == NODECLASS_REFERENCETYPE; });
        auto any = std::vector<int>(); for (size_t i = 0; i < w.nodes.size(); i++) if (w.nodes[i].cls == NODECLASS_REFERENCETYPE && w.nodes[i].doc <= w.nodes[(size_t)at].doc && seen(at, (int)i) && w.nodes[i].enumT) any.push_back((int)i); // enumT: hierarchical
        if (!any.empty() && r.chance(w.o.customRefs)) { auto &t = w.nodes[(size_t)r.pick(any)]; tu = t.u; tt = t.idt; return; }
        if (many && hostSeen(at) && r.chance(30)) { tu = 1; tt = "i=" + std::to_string(3000 + r.below((uint64_t)many)); return; }
        if (cyc && hostSeen(at) && r.chance(20)) { tu = 1; tt = "i=" + std::to_string(4000 + r.below(2)); return; }
        tu = 0; tt = r.chance(strange / 3) ? r.pick(std::vector<std::string>{"i=33", "i=34", "i=44"}) : r.pick(std::vector<std::string>{"i=47", "i=47", "i=46", "i=35", "i=49", "i=36", "i=48", "i=129", "i=14936", "i=56"});
    }
    void definition(int at, int ti) {
        GNode &g = w.nodes[(size_t)at]; TI &x = types[(size_t)ti]; const GDoc &gd = w.docs[(size_t)g.doc];
        if (!x.hasDef) return;
        Item d; d.kind = Item::DEF; d.kv.push_back({"Name", x.name});
        if (x.kind == UNION) d.kv.push_back({"IsUnion", "true"}); else if (r.chance(10)) d.kv.push_back({"IsUnion", "false"});
        if (x.kind == OPTSET && r.chance(85)) d.kv.push_back({"IsOptionSet", "true"});
        g.n.items.push_back(d);
        if (x.kind == ENUM || x.kind == OPTSET) { int n = r.range(0, 5); if (r.chance(3)) n = 90; for (int i = 0; i < n; i++) { Item f; f.kind = Item::FIELD; f.kv = {{"Name", "Name" + std::to_string(i)}, {"Value", std::to_string(i)}}; g.n.items.push_back(f); } return; }
        for (auto &q : x.f) {
            Item f; f.kind = Item::FIELD; f.kv.push_back({"Name", q.name});
            const TI &t = types[(size_t)q.type];
            std::string dt = w.idText(t.u, t.idt, gd);
            for (auto &a : gd.aliases) if (a.second.first == t.u && a.second.second == t.idt && r.chance(70)) dt = a.first;
            f.kv.push_back({"DataType", dt});
            if (q.arr) f.kv.push_back({"ValueRank", std::to_string(r.chance(80) ? 1 : r.range(0, 3))}); else if (r.chance(20)) f.kv.push_back({"ValueRank", "-1"});
            if (q.opt) f.kv.push_back({"IsOptional", "true"});
            g.n.items.push_back(f);
        }
    }
    int typeOfNode(int node) { for (size_t i = 0; i < types.size(); i++) if (types[i].node == node) return (int)i; return -1; }
    bool visible(int at, int ti) { const TI &t = types[(size_t)ti]; if (t.u == 0) return true; if (!w.sees(w.docs[(size_t)w.nodes[(size_t)at].doc], t.u)) return false; return t.node < 0 || w.nodes[(size_t)t.node].doc <= w.nodes[(size_t)at].doc; }

    void dataType(int at) {
        GNode &g = w.nodes[(size_t)at];
        TI t; t.u = g.u; t.idt = g.idt; t.node = at; t.name = "T" + std::to_string(at) + genName(r); if (r.chance(4)) t.name = r.pick(std::vector<std::string>{"Body", "Value", "ExtensionObject", "TypeId", "ListOf", "ListOfX", "Structure"}) + (r.chance(50) ? "" : std::to_string(at));
        int k = line && r.chance(85) ? lineKind : r.range(0, 99);
        auto cand = lower(at, [&](const GNode &x) { return x.cls == NODECLASS_DATATYPE; });
        if (k < 55) {
            t.kind = STRUCT; bool link = false;
            std::vector<int> ps; for (int c : cand) { int q = typeOfNode(c); if (q >= 0 && types[(size_t)q].kind == STRUCT) ps.push_back(c); }
            if (!ps.empty() && r.chance(line ? 90 : 40)) { int c = last(ps, at); t.parent = typeOfNode(c); ref(at, "i=45", false, w.nodes[(size_t)c].u, w.nodes[(size_t)c].idt); link = true; }
            if (!link && r.chance(12)) { int q = nBuiltin - 6 + (int)r.below(4); t.parent = q; ref(at, "i=45", false, 0, types[(size_t)q].idt); link = true; }
            if (!link && preset && hostSeen(at) && r.chance(20)) { ref(at, "i=45", false, 1, "i=2950"); link = true; for (size_t q = 0; q < types.size(); q++) if (types[q].u == 1 && types[q].idt == "i=2950") t.parent = (int)q; }
            if (!link) ref(at, "i=45", false, 0, "i=22");
            t.abstr = r.chance(12);
        } else if (k < 70) { t.kind = ENUM; std::vector<int> ps; for (int c : cand) { int q = typeOfNode(c); if (q >= 0 && types[(size_t)q].kind == ENUM) ps.push_back(c); } if (!ps.empty() && r.chance(line ? 90 : 25)) { int c = last(ps, at); ref(at, "i=45", false, w.nodes[(size_t)c].u, w.nodes[(size_t)c].idt); } else ref(at, "i=45", false, 0, "i=29"); }
        else if (k < 80) { t.kind = UNION; ref(at, "i=45", false, 0, r.chance(60) ? "i=22" : "i=12756"); }
        else if (k < 86) { t.kind = OPTSET; ref(at, "i=45", false, 0, r.chance(70) ? "i=12755" : "i=7"); if (false) t.leaf = 7; }
        else {
            t.kind = SIMPLE; t.leaf = 11;
            std::vector<int> ps; for (int c : cand) { int q = typeOfNode(c); if (q >= 0 && types[(size_t)q].kind == SIMPLE) ps.push_back(c); }
            if (!ps.empty() && r.chance(line ? 95 : 40)) { int c = last(ps, at); t.leaf = types[(size_t)typeOfNode(c)].leaf; ref(at, "i=45", false, w.nodes[(size_t)c].u, w.nodes[(size_t)c].idt); }
            else if (dtypes && hostSeen(at) && r.chance(50)) ref(at, "i=45", false, 1, "i=" + std::to_string(2900 + r.below(2)));
            else { t.leaf = r.pick(std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 20, 21}); ref(at, "i=45", false, 0, "i=" + std::to_string(t.leaf)); }
            static const char *N[] = {"", "Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime", "Guid", "ByteString", "", "NodeId", "", "StatusCode", "QualifiedName", "LocalizedText"};
            t.name = N[t.leaf]; t.hasDef = r.chance(15);
        }
        if (r.chance(8)) t.hasDef = false;
        types.push_back(t);
        if (t.kind != SIMPLE) for (auto &a : g.n.attrs) if (a.first == "BrowseName") { size_t c = a.second.find(':'); a.second = (c == std::string::npos ? "" : a.second.substr(0, c + 1)) + t.name; }
        if (t.abstr) attrib(g.n.attrs, "IsAbstract", "true");
        if (r.chance(strange / 3)) ref(at, "i=45", false, 0, "i=22");
        if (r.chance(8)) ref(at, "i=35", false, 0, r.pick(std::vector<std::string>{"i=90", "i=95"})); // a folder that shows it
        for (int c : cand) if (w.nodes[(size_t)c].doc == g.doc && hasRefPair(w, at, text(at, c)) && r.chance(20)) ref(c, "i=45", true, g.u, g.idt); // stated at both ends
    }
    void fields(int ti) { // after all data types are known, so that they can refer to each other
        TI &x = types[(size_t)ti]; if (x.kind != STRUCT && x.kind != UNION) return; if (!x.hasDef) return;
        if (x.kind == STRUCT && x.parent < 0 && r.chance(bigPct)) { // near and beyond the largest size a description can have
            std::vector<int> big; for (size_t q = (size_t)nBuiltin; q < types.size(); q++) if ((int)q != ti && types[q].kind == STRUCT && types[q].f.size() > 100 && visible(x.node, (int)q)) big.push_back((int)q);
            int n = r.range(1, 4);
            if (big.empty()) for (int i = 0; i < 250; i++) { Fld f; f.name = "f" + std::to_string(i); f.type = nBuiltin - 5 - (i == 249 ? r.range(0, 1) : 0); x.f.push_back(f); } // EUInformation
            else for (int i = 0; i < n; i++) { Fld f; f.name = "b" + std::to_string(i); f.type = r.pick(big); f.arr = r.chance(15); x.f.push_back(f); }
            bigPct = 60;
            return;
        }
        int n = r.range(0, 6); if (r.chance(2)) n = r.pick(std::vector<int>{30, 100, 127, 128, 130, 254, 255, 256}); if (x.kind == UNION && n == 0 && r.chance(70)) n = 1;
        bool opt = x.kind == STRUCT && r.chance(12);
        std::vector<int> cust; for (size_t q = (size_t)nBuiltin; q < types.size(); q++) if (visible(x.node, (int)q)) cust.push_back((int)q);
        for (int i = 0; i < n; i++) {
            Fld f; f.name = r.chance(3) ? "F-" + std::to_string(i) + r.pick(std::vector<std::string>{"\xC3\xA4", ".x", "_", "-b", "\xC3\xA9"}) : (r.chance(50) ? "f" : "F") + std::to_string(ti) + "_" + std::to_string(i);
            if (x.f.size() && r.chance(1)) f.name = x.f[0].name;
            else if (x.f.size() && r.chance(4)) { f.name = r.pick(x.f).name; for (auto &c : f.name) if (isalpha((unsigned char)c)) { c = (char)(c ^ 32); break; } } // differs from another one by its case only
            else if (x.f.size() && r.chance(3)) f.name = r.pick(x.f).name + "x";
            if (r.chance(4)) f.name = r.pick(std::vector<std::string>{"Body", "Value", "ExtensionObject", "TypeId", "Identifier", "ListOf" + std::to_string(i), "ListOfExtensionObject", "SwitchField", "String", "Text", "Extension", "UAVariable"}); // names which mean something elsewhere
            f.type = !cust.empty() && r.chance(45) ? r.pick(cust) : (int)r.below((uint64_t)nBuiltin);
            f.arr = r.chance(25);
            if (!f.arr && types[(size_t)f.type].node >= 0 && types[(size_t)f.type].node >= x.node && r.chance(85)) f.arr = true; // no self-embedding, mostly
            f.opt = opt && r.chance(50);
            x.f.push_back(f);
        }
    }
    void commonAttrs(int at) {
        GNode &g = w.nodes[(size_t)at]; const GDoc &gd = w.docs[(size_t)g.doc]; KV &a = g.n.attrs; int c = g.cls;
        attrib(a, "NodeId", w.idText(g.u, g.idt, gd));
        std::string bn = w.str(true, 400);
        if (gd.uris.empty() || r.chance(20)) { std::replace(bn.begin(), bn.end(), ':', '_'); attrib(a, "BrowseName", bn); } else attrib(a, "BrowseName", std::to_string(r.below(gd.uris.size() + 1)) + ":" + bn);
        if ((c == 1 || c == 6) && r.chance(30)) attrib(a, "IsAbstract", boolT(r));
        if (c == 5 && r.chance(50)) attrib(a, "Symmetric", boolT(r));
        if (c == 7 && r.chance(60)) attrib(a, "ContainsNoLoops", boolT(r));
        if ((c == 0 || c == 7) && r.chance(30)) attrib(a, "EventNotifier", std::to_string(r.range(0, r.chance(50) ? 5 : 255)));
        if (c == 4) { if (r.chance(50)) attrib(a, "Executable", boolT(r)); if (r.chance(50)) attrib(a, "UserExecutable", boolT(r)); }
        if (c == 2) {
            if (r.chance(40)) attrib(a, "AccessLevel", std::to_string(r.range(0, 255)));
            if (r.chance(40)) attrib(a, "UserAccessLevel", std::to_string(r.range(0, 255)));
            if (r.chance(30)) attrib(a, "MinimumSamplingInterval", r.pick(std::vector<std::string>{"0", "100", "2.5", "1000", "-1"}));
            if (r.chance(30)) attrib(a, "Historizing", boolT(r));
        }
        auto loc = [&](Item::Kind k) { Item i; i.kind = k; if (r.chance(40)) i.kv.push_back({"Locale", r.pick(std::vector<std::string>{"en", "de-DE", "", "zh"})}); i.text = w.str(false); g.n.items.push_back(i); };
        if (r.chance(85)) loc(Item::DN);
        if (r.chance(40)) loc(Item::DE);
        if (c == 5 && r.chance(60)) loc(Item::INV);
        if (r.chance(w.o.ext)) { Item i; i.kind = Item::EXT; i.el.name = "Extension"; int k = r.range(0, 2); while (k--) i.el.kids.push_back(genExtEl(r, w, 2)); g.n.items.push_back(i); }
    }
    void parent(int at) { // where an instance lives
        GNode &g = w.nodes[(size_t)at]; unsigned tu; std::string tt; link(at, tu, tt);
        bool needInv = g.cls == NODECLASS_METHOD || g.cls == NODECLASS_VIEW;
        if (r.chance(missing / 2)) return; // an orphan
        unsigned u = 0; std::string idt = r.pick(std::vector<std::string>{"i=85", "i=85", "i=2253", "i=86", "i=87", "i=58", "i=78"}); int node = -1;
        bool below = r.chance(6); // properties of types, e.g. the names of an enumeration
        auto c = lower(at, [&](const GNode &x) { return below ? x.cls == NODECLASS_DATATYPE : x.cls != NODECLASS_REFERENCETYPE && x.cls != NODECLASS_DATATYPE; });
        auto vars = lower(at, [&](const GNode &x) { return x.cls == NODECLASS_VARIABLE || x.cls == NODECLASS_METHOD; });
        if (!vars.empty() && !below && r.chance(30)) node = r.pick(vars); // a parent of a class that is added later
        else if (!c.empty() && r.chance(65)) node = r.pick(c);
        else if (r.chance(missing)) { std::vector<int> l; for (size_t i = 0; i < w.nodes.size(); i++) if (w.nodes[i].doc > g.doc && seen(at, (int)i)) l.push_back((int)i); if (!l.empty()) node = r.pick(l); }
        if (node >= 0) { u = w.nodes[(size_t)node].u; idt = w.nodes[(size_t)node].idt; }
        else if (pre && hostSeen(at) && r.chance(50)) { u = 1; idt = "i=" + std::to_string(100 + r.below((uint64_t)pre)); }
        else if (r.chance(missing)) { if (!w.docs[(size_t)g.doc].uris.empty()) { u = w.pickU(w.docs[(size_t)g.doc]); idt = "s=nowhere" + std::to_string(r.below(3)); } }
        std::string pt = w.idText(u, idt, w.docs[(size_t)g.doc]);
        int how = needInv ? 0 : r.range(0, 9);
        if (how < 7) {
            ref(at, tt, false, u, idt, tu);
            if (r.chance(40)) attrib(g.n.attrs, "ParentNodeId", pt);
            if (node >= 0 && w.nodes[(size_t)node].doc == g.doc && r.chance(30)) ref(node, tt, true, g.u, g.idt, tu);
            if (r.chance(12)) { // a second parent
                auto c2 = lower(at, [&](const GNode &x) { return x.cls == NODECLASS_OBJECT; });
                if (!c2.empty()) { int q = r.pick(c2); unsigned tu2; std::string tt2; link(at, tu2, tt2); if (!hasRefPair(w, at, text(at, q))) ref(at, tt2, false, w.nodes[(size_t)q].u, w.nodes[(size_t)q].idt, tu2); }
            }
        } else {
            attrib(g.n.attrs, "ParentNodeId", pt);
            if (how == 8 && node >= 0 && w.nodes[(size_t)node].doc == g.doc) ref(node, tt, true, g.u, g.idt, tu);
        }
    }
    void instance(int at) {
        GNode &g = w.nodes[(size_t)at]; const GDoc &gd = w.docs[(size_t)g.doc];
        parent(at);
        if (g.cls == NODECLASS_OBJECT || g.cls == NODECLASS_VARIABLE) {
            int tc = g.cls == NODECLASS_OBJECT ? NODECLASS_OBJECTTYPE : NODECLASS_VARIABLETYPE;
            std::vector<int> c; for (size_t i = 0; i < w.nodes.size(); i++) if (w.nodes[i].cls == tc && w.nodes[i].doc <= g.doc && seen(at, (int)i)) c.push_back((int)i);
            if (!c.empty() && r.chance(45)) { int t = r.pick(c); ref(at, "i=40", true, w.nodes[(size_t)t].u, w.nodes[(size_t)t].idt); }
            else if (r.chance(strange / 2)) { if (r.chance(50)) ref(at, "i=40", true, 0, g.cls == NODECLASS_OBJECT ? "i=63" : "i=58"); else if (!gd.uris.empty()) ref(at, "i=40", true, w.pickU(gd), "i=987654"); }
            else if (r.chance(80)) ref(at, "i=40", true, 0, g.cls == NODECLASS_OBJECT ? r.pick(std::vector<std::string>{"i=58", "i=61"}) : r.pick(std::vector<std::string>{"i=63", "i=68", "i=2365"}));
        }
        if (g.cls == NODECLASS_VARIABLE || g.cls == NODECLASS_VARIABLETYPE) {
            std::vector<int> cust; for (size_t q = (size_t)nBuiltin; q < types.size(); q++) if (visible(at, (int)q)) cust.push_back((int)q);
            int t = !cust.empty() && r.chance(50) ? r.pick(cust) : (int)r.below((uint64_t)nBuiltin);
            if (gd.uris.size() > 40 && r.chance(70)) t = r.chance(50) ? 15 : 17;
            const TI &x = types[(size_t)t];
            std::string dt = w.idText(x.u, x.idt, gd);
            for (auto &a : gd.aliases) if (a.second.first == x.u && a.second.second == x.idt && r.chance(70)) dt = a.first;
            if (r.chance(strange / 2)) dt = r.pick(std::vector<std::string>{"i=24", "i=26", "i=22", "i=29", "i=99999", "i=27"});
            if (r.chance(92)) attrib(g.n.attrs, "DataType", dt);
            bool arr = r.chance(30);
            if (arr ? r.chance(70) : r.chance(30)) attrib(g.n.attrs, "ValueRank", std::to_string(arr ? r.pick(std::vector<int>{1, 1, 1, 0, -2, -3, 2}) : r.pick(std::vector<int>{-1, -1, -2, -3})));
            if (r.chance(12)) attrib(g.n.attrs, "ArrayDimensions", r.pick(std::vector<std::string>{"1", "0", "3", "2,3", "10,20,30", "1,2,3,4,5,6", "0,0,0,0,0,0,0,0,0,0,0,7", "65535,65536,70000", "2147483647"}));
            if (g.cls == NODECLASS_VARIABLE && r.chance(w.o.values)) { Item i; i.kind = Item::VAL; i.el = r.chance(strange / 2) ? genValueEl(r, w) : value(t, gd, arr); g.n.items.push_back(i); }
        }
    }
    void build() {
        GOpt &o = w.o;
        w.uris = {"http://opcfoundation.org/UA/", "urn:sim:application"};
        for (int i = 0; i < o.uriPool; i++) w.uris.push_back(r.chance(6) ? "urn:" + w.str(false, 200) + std::to_string(i) : "http://test.org/" + (i < 26 ? std::string(1, (char)('A' + i)) : std::to_string(i)) + "/");
        w.similarUris();
        builtins();
        if (r.chance(4)) bigArr = r.pick(std::vector<long>{127, 128, 254, 255, 256, 257, 300, 1000});
        if (preset) { TI t; t.u = 1; t.idt = "i=2950"; t.name = "HostStruct"; t.kind = STRUCT; t.f = {{"x", 5}, {"y", 3}}; types.push_back(t); }
        if (dtypes) for (int i = 0; i < 2; i++) { TI t; t.u = 1; t.idt = "i=" + std::to_string(2900 + i); t.name = "Double"; t.kind = SIMPLE; t.leaf = 11; types.push_back(t); }
        for (int d = 0; d < o.docs; d++) {
            GDoc g; g.name = "d" + std::to_string(d);
            std::vector<unsigned> all; for (unsigned i = host ? 1 : 2; i < w.uris.size(); i++) all.push_back(i);
            for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[r.below(i)]);
            int n = r.range(1, o.maxUris); if (n > 20 && r.chance(50)) n = o.maxUris; if (host) { auto q = std::find(all.begin(), all.end(), 1u); if (r.chance(80)) std::swap(*q, all[0]); }
            for (int i = 0; i < n && i < (int)all.size(); i++) g.uris.push_back(all[(size_t)i]);
            w.repeatUri(g);
            w.docs.push_back(g);
        }
        long rank = 0;
        for (int d = 0; d < o.docs; d++) {
            GDoc &gd = w.docs[(size_t)d];
            auto add = [&](int cls) { GNode g; g.doc = d; g.u = w.pickU(gd); if (cls != NODECLASS_REFERENCETYPE && cls != NODECLASS_DATATYPE && r.chance(3)) g.u = 0; g.idt = newIdt(w); if (g.u == 0 && g.idt[0] == 'i') g.idt = "i=" + std::to_string(60000 + w.serial); g.cls = cls; g.rank = (long)r.below(1000000) * 1000 + rank++; g.n.cls = classEl[cls]; gd.nodes.push_back((int)w.nodes.size()); w.nodes.push_back(g); };
            if (!line && r.chance(4)) { line = true; lineKind = r.pick(std::vector<int>{0, 0, 60, 99}); } // long lines of super types
            if (r.chance(line ? 90 : o.customRefs)) { int k = r.range(1, line ? 9 : 4); while (k--) add(NODECLASS_REFERENCETYPE); }
            if (r.chance(line ? 90 : dtWeight)) { int k = line ? r.range(8, 26) : r.range(1, std::max(1, dtWeight / 12)); if (r.chance(2)) k = 30; while (k--) add(NODECLASS_DATATYPE); }
            if (r.chance(50)) { int k = r.range(1, 2); while (k--) add(NODECLASS_OBJECTTYPE); }
            if (r.chance(40)) { int k = r.range(1, 2); while (k--) add(NODECLASS_VARIABLETYPE); }
            int n = r.range(o.minNodes, o.maxNodes); if (r.chance(3)) n *= 6; if ((int)r.below(1000) < 4) n = r.range(100, 400);
            while (n--) { int c = (int)r.below(100); add(c < 40 ? NODECLASS_OBJECT : c < 82 ? NODECLASS_VARIABLE : c < 93 ? NODECLASS_METHOD : NODECLASS_VIEW); }
        }
        // a chain through the classes: each node below one whose class comes later
        for (auto &gd : w.docs) {
            static const std::vector<std::pair<std::string, std::string>> std0 = {{"HasComponent", "i=47"}, {"HasProperty", "i=46"}, {"Organizes", "i=35"}, {"HasSubtype", "i=45"}, {"HasTypeDefinition", "i=40"}, {"HasEncoding", "i=38"}, {"Int32", "i=6"}, {"String", "i=12"}, {"Double", "i=11"}, {"HasModellingRule", "i=37"}, {"Range", "i=884"}};
            for (auto &a : std0) if (r.chance(o.alias)) gd.aliases.push_back({a.first, {0, a.second}});
            if (r.chance(o.alias) && !w.nodes.empty()) for (int i = r.range(0, 3); i > 0; i--) { const GNode &g = w.nodes[r.below(w.nodes.size())]; if (w.sees(gd, g.u)) gd.aliases.push_back({(o.sameAliases ? "Al" : r.chance(40) ? "ALongAliasNameWhichIsUsedForTheTypeOf" + gd.name : "My" + gd.name) + std::to_string(i), {g.u, g.idt}}); }
        }
        for (size_t x = 0; x < w.nodes.size(); x++) commonAttrs((int)x);
        std::vector<int> order; for (size_t x = 0; x < w.nodes.size(); x++) order.push_back((int)x);
        std::sort(order.begin(), order.end(), [&](int a, int b) { auto &A = w.nodes[(size_t)a], &B = w.nodes[(size_t)b]; return A.doc != B.doc ? A.doc < B.doc : A.rank < B.rank; });
        for (int x : order) switch (w.nodes[(size_t)x].cls) {
            case NODECLASS_REFERENCETYPE: {
                auto c = lower(x, [&](const GNode &q) { return q.cls == NODECLASS_REFERENCETYPE; });
                w.nodes[(size_t)x].enumT = true;
                if (!c.empty() && r.chance(line ? 90 : 45)) { int t = last(c, x); w.nodes[(size_t)x].enumT = w.nodes[(size_t)t].enumT; w.nodes[(size_t)x].typeDefT = w.nodes[(size_t)t].typeDefT; ref(x, "i=45", false, w.nodes[(size_t)t].u, w.nodes[(size_t)t].idt); if (r.chance(10) && w.nodes[(size_t)t].doc == w.nodes[(size_t)x].doc) ref(t, "i=45", true, w.nodes[(size_t)x].u, w.nodes[(size_t)x].idt); }
                else if (many && hostSeen(x) && r.chance(40)) ref(x, "i=45", false, 1, "i=" + std::to_string(3000 + r.below((uint64_t)many)));
                else if (r.chance(18)) { w.nodes[(size_t)x].enumT = false; std::string sup = r.pick(std::vector<std::string>{"i=32", "i=41", "i=37", "i=40"}); w.nodes[(size_t)x].typeDefT = sup == "i=40"; ref(x, "i=45", false, 0, sup); }
                else ref(x, "i=45", false, 0, r.pick(std::vector<std::string>{"i=33", "i=35", "i=47", "i=46", "i=44", "i=49", "i=36"}));
                if (r.chance(8)) ref(x, r.pick(std::vector<std::string>{"i=47", "i=35"}), false, 0, r.pick(std::vector<std::string>{"i=33", "i=47", "i=35"})); // does not make it hierarchical
                break; }
            case NODECLASS_DATATYPE: dataType(x); break;
            case NODECLASS_OBJECTTYPE: super(x, {"i=58", "i=61", "i=2041"}, NODECLASS_OBJECTTYPE); break;
            case NODECLASS_VARIABLETYPE: super(x, {"i=62", "i=63", "i=68"}, NODECLASS_VARIABLETYPE); break;
            }
        for (size_t q = (size_t)nBuiltin; q < types.size(); q++) if (types[q].node >= 0) fields((int)q);
        for (size_t q = (size_t)nBuiltin; q < types.size(); q++) if (types[q].node >= 0) definition(types[q].node, (int)q);
        // encodings
        size_t nn = w.nodes.size();
        for (size_t x = 0; x < nn; x++) if (w.nodes[x].cls == NODECLASS_DATATYPE && r.chance(50)) {
            int ti = typeOfNode((int)x); if (types[(size_t)ti].kind == ENUM && r.chance(80)) continue;
            int d = w.nodes[x].doc; GDoc &gd = w.docs[(size_t)d];
            for (const char *nm : {"Default Binary", "Default XML"}) {
                if (r.chance(nm[8] == 'B' ? 15 : 60)) continue;
                GNode g; g.doc = d; g.u = w.pickU(gd); g.idt = newIdt(w); g.cls = NODECLASS_OBJECT; g.rank = (long)r.below(1000000000); g.n.cls = classEl[g.cls];
                attrib(g.n.attrs, "NodeId", w.idText(g.u, g.idt, gd)); attrib(g.n.attrs, "BrowseName", nm); if (r.chance(50)) attrib(g.n.attrs, "SymbolicName", "DefaultBinary");
                int at = (int)w.nodes.size(); gd.nodes.push_back(at); w.nodes.push_back(g);
                ref(at, "i=38", false, w.nodes[x].u, w.nodes[x].idt); ref(at, "i=40", true, 0, "i=76");
                if (r.chance(30)) ref((int)x, "i=38", true, w.nodes[(size_t)at].u, w.nodes[(size_t)at].idt);
                if (nm[8] == 'B') { types[(size_t)ti].encIdt = g.idt; types[(size_t)ti].encU = g.u; }
            }
        }
        for (size_t q = (size_t)nBuiltin; q < types.size(); q++) if (types[q].encU && r.chance(30)) types[q].encIdt.clear();
        for (int x : order) { int c = w.nodes[(size_t)x].cls; if (c == NODECLASS_VARIABLETYPE || c == NODECLASS_OBJECT || c == NODECLASS_VARIABLE || c == NODECLASS_METHOD || c == NODECLASS_VIEW) { if (c == NODECLASS_VARIABLETYPE) { int at = x; GNode &g = w.nodes[(size_t)at]; const GDoc &gd = w.docs[(size_t)g.doc]; int t = (int)r.below(types.size()); if (visible(at, t) && r.chance(80)) attrib(g.n.attrs, "DataType", w.idText(types[(size_t)t].u, types[(size_t)t].idt, gd)); if (r.chance(40)) attrib(g.n.attrs, "ValueRank", std::to_string(r.range(-3, 2))); if (r.chance(20)) attrib(g.n.attrs, "ArrayDimensions", r.pick(std::vector<std::string>{"1", "3", "2,3"})); } else instance(x); } }
        // other references
        size_t fat = r.chance(3) && !w.nodes.empty() ? r.below(w.nodes.size()) : (size_t)-1;
        for (size_t x = 0; x < w.nodes.size(); x++) {
            GNode &g = w.nodes[x]; const GDoc &gd = w.docs[(size_t)g.doc];
            int n = r.chance(40) ? r.range(1, 3) : 0;
            while (n--) {
                unsigned tu = 0; std::string ty = r.pick(std::vector<std::string>{"i=37", "i=39", "i=41", "i=51", "i=52", "i=53", "i=3065", "i=9004"});
                std::vector<int> nh; for (size_t i = 0; i < w.nodes.size(); i++) if (w.nodes[i].cls == NODECLASS_REFERENCETYPE && !w.nodes[i].enumT && !(w.nodes[i].typeDefT && (g.cls == NODECLASS_OBJECT || g.cls == NODECLASS_VARIABLE)) && w.nodes[i].doc <= g.doc && seen((int)x, (int)i)) nh.push_back((int)i);
                if (!nh.empty() && r.chance(40)) { auto &t = w.nodes[(size_t)r.pick(nh)]; tu = t.u; ty = t.idt; }
                int k = r.range(0, 9);
                if (k < 6) { int t = (int)r.below(w.nodes.size()); if (t == (int)x || !seen((int)x, t) || hasRefPair(w, (int)x, text((int)x, t))) continue; ref((int)x, ty, r.chance(60), w.nodes[(size_t)t].u, w.nodes[(size_t)t].idt, tu); }
                else if (k < 9) ref((int)x, ty, r.chance(80), 0, r.pick(std::vector<std::string>{"i=78", "i=80", "i=2253", "i=2041", "i=62"}), tu);
                else if (!gd.uris.empty()) ref((int)x, ty, r.chance(60), w.pickU(gd), "i=777000", tu);
            }
            if (x == fat && !gd.uris.empty()) for (int k = r.chance(80) ? r.range(15, 130) : r.range(130, 600); k > 0; k--) ref((int)x, r.pick(std::vector<std::string>{"i=37", "i=41", "i=52", "i=9004"}), r.chance(60), w.pickU(gd), "i=" + std::to_string(700000 + k));
            if (o.unresolved && r.chance(20)) { if (r.chance(50)) ref((int)x, "i=31", true, 0, "i=85"); else ref((int)x, "i=999999", r.chance(50), 0, "i=85", w.pickU(gd)); }
            // forward hierarchical references to later nodes of the document or of others
            if (g.cls == NODECLASS_OBJECT && r.chance(10)) { int t = (int)r.below(w.nodes.size()); GNode &q = w.nodes[(size_t)t]; if (seen((int)x, t) && (q.doc > g.doc || (q.doc == g.doc && q.rank > g.rank)) && q.cls == NODECLASS_VARIABLE && !hasRefPair(w, (int)x, text((int)x, t))) ref((int)x, "i=47", true, q.u, q.idt); }
            if (g.cls != NODECLASS_REFERENCETYPE && r.chance(g.cls == NODECLASS_OBJECTTYPE || g.cls == NODECLASS_VARIABLETYPE ? 30 : 8)) for (int k = r.range(1, 3); k > 0; k--) { // children which have another parent
                int t = (int)r.below(w.nodes.size()); GNode &q = w.nodes[(size_t)t];
                if (q.cls != NODECLASS_OBJECT && q.cls != NODECLASS_VARIABLE && q.cls != NODECLASS_METHOD && q.cls != NODECLASS_VIEW) continue;
                if (!seen((int)x, t) || !(q.doc > g.doc || (q.doc == g.doc && q.rank > g.rank)) || hasRefPair(w, (int)x, text((int)x, t)) || hasRefPair(w, t, text(t, (int)x))) continue;
                unsigned tu; std::string tt; link((int)x, tu, tt); ref((int)x, tt, true, q.u, q.idt, tu);
            }
            if (r.chance(o.unknown)) { Item i; i.kind = Item::UNK; i.el.name = "RolePermissions"; i.el.text = "x"; g.n.items.push_back(i); }
        }
        if (o.cycle && w.nodes.size() > 1) {
            int d = (int)r.below(w.docs.size()); auto &v = w.docs[(size_t)d].nodes; int len = r.range(2, (int)std::min<size_t>(4, v.size())); size_t st = r.below(v.size());
            if (v.size() > 1) for (int i = 0; i < len; i++) { int a = v[(st + (size_t)i) % v.size()], b = v[(st + (size_t)((i + 1) % len)) % v.size()]; if (r.chance(50)) ref(a, "i=47", true, w.nodes[(size_t)b].u, w.nodes[(size_t)b].idt); else ref(b, "i=47", false, w.nodes[(size_t)a].u, w.nodes[(size_t)a].idt); }
        }
        for (auto &g : w.nodes) {
            std::vector<std::vector<Item>> bl; for (auto &i : g.n.items) { if (i.kind == Item::FIELD && !bl.empty()) bl.back().push_back(i); else bl.push_back({i}); }
            if (r.chance(60)) for (size_t i = bl.size(); i > 1; i--) std::swap(bl[i - 1], bl[r.below(i)]);
            g.n.items.clear(); for (auto &b : bl) g.n.items.insert(g.n.items.end(), b.begin(), b.end());
        }
        for (auto &gd : w.docs) {
            for (size_t i = gd.nodes.size(); i > 1; i--) std::swap(gd.nodes[i - 1], gd.nodes[r.below(i)]);
            finishDoc(w, p, gd);
        }
        if (r.chance(o.overlap)) for (auto &d : p.docs) { std::vector<DocPart> dup; for (auto &x : d.parts) if (x.kind == DocPart::NODE && r.chance(15)) dup.push_back(x); for (auto &x : dup) d.parts.push_back(x); }
    }
    // another version of a document: the same nodes, described differently
    std::string variant(const std::string &doc) {
        Doc d = *p.doc(doc); d.name = doc + "v" + std::to_string(p.docs.size());
        if (d.enc == "latin1") d.enc = "";
        for (auto &x : d.parts) if (x.kind == DocPart::NODE) {
            if (r.chance(30)) for (auto &a : x.node.attrs) if (a.first == "BrowseName") a.second += "2";
            if (r.chance(30)) for (auto &i : x.node.items) if (i.kind == Item::DN) i.text += " changed";
            if (r.chance(20)) for (size_t i = 0; i < x.node.items.size(); i++) if (x.node.items[i].kind == Item::REF && x.node.items[i].kv.size() && x.node.items[i].kv[0].second == "i=47") { x.node.items[i].kv[0].second = "i=35"; break; }
            if (r.chance(20)) for (auto &i : x.node.items) if (i.kind == Item::FIELD) { i.kv[0].second += "x"; break; }
        }
        if (r.chance(40)) { std::vector<DocPart> v; for (auto &x : d.parts) if (x.kind != DocPart::NODE || r.chance(75)) v.push_back(x); d.parts = v; }
        p.docs.push_back(d);
        return d.name;
    }
};
}

void genServerPlan(Plan &p, World &w) {
    Rng &r = w.r; GOpt &o = w.o; const std::string &prop = p.property;
    SW s(w, p); Gen g{p, r, ""};
    p.opts.clear();
    o.docs = r.range(1, 3); o.minNodes = 1; o.maxNodes = r.pick(std::vector<int>{3, 6, 12}); o.maxUris = 3; o.uriPool = 3; o.customRefs = 40; o.values = 50; o.ext = 6; o.strange = 35; o.longText = 2; o.enc = 8; o.overlap = 8; o.alias = 50; o.unknown = 6; o.sameAliases = r.chance(50);
    s.host = r.chance(35);
    if (r.chance(50)) s.pre = r.range(1, 4);
    if (r.chance(6)) s.many = 150; else if (r.chance(10)) s.many = 3;
    if (r.chance(15)) s.dtypes = 1; if (r.chance(5)) s.cyc = 1; if (r.chance(15)) s.preset = 1;
    s.dtWeight = 30;
    int failPct = 15, refusePct = 10;
    bool probe = prop == "C08", hostile = prop == "C09";
    if (prop == "C05") { failPct = 60; o.unresolved = r.chance(35); if (!o.unresolved) o.cycle = r.chance(30); s.dtWeight = 50; o.docs = r.range(1, 3); }
    if (prop == "C06") { refusePct = 70; failPct = 8; o.customRefs = 50; s.missing = 10; o.values = 15; o.maxNodes = r.pick(std::vector<int>{4, 10, 20}); }
    if (prop == "C12") { s.dtWeight = r.pick(std::vector<int>{60, 100, 100}); o.values = 90; o.customRefs = 10; failPct = 8; refusePct = 6; }
    if (prop == "C14") { o.overlap = 15; refusePct = 4; failPct = 6; o.docs = r.range(1, 4); }
    if (prop == "C13") { o.ext = 60; failPct = 25; }
    if (prop == "C11") { o.repeatUri = 20; o.uriPool = o.maxUris = r.chance(15) ? 12 : r.chance(4) ? (r.chance(50) ? r.range(257, 400) : r.range(40, 257)) : 4; o.docs = r.range(1, 4); s.host = r.chance(60); s.dtWeight = 45; o.values = 40; if (o.uriPool > 40) { o.values = 95; o.minNodes = 6; o.maxNodes = 12; } }
    if (prop == "C07") { failPct = 35; refusePct = 20; s.dtWeight = 60; o.values = 70; o.unresolved = r.chance(10); o.ext = 15; }
    if (probe) { o.docs = r.range(1, 2); o.maxNodes = r.pick(std::vector<int>{1, 3, 5}); s.dtWeight = 60; o.values = 80; s.many = 0; refusePct = 5; failPct = 0; o.ext = 20; }
    if (prop == "C01") { failPct = 60; o.maxNodes = 5; refusePct = 2; }
    if (prop == "C03") { o.docs = r.range(1, 2); o.maxNodes = r.pick(std::vector<int>{2, 5}); s.many = 0; refusePct = 10; failPct = 25; }
    bool wild = hostile && r.chance(40); // well-formed documents whose values are wrong
    if (hostile) { s.dtWeight = wild ? r.pick(std::vector<int>{0, 30, 60}) : 60; o.values = wild ? 100 : 70; o.ext = 10; }
    s.build();
    std::vector<std::string> docs; for (auto &d : p.docs) docs.push_back(d.name);
    std::vector<std::string> files; for (auto &d : docs) files.push_back(g.importable(d));
    if (hostile) { mutateHostile(g, w, wild); for (auto &f : p.files) { if (r.chance(wild ? 5 : 55)) byteHostility(g, f); else { Damage n; n.kind = "none"; f.damage.push_back(n); } } }
    else if (r.chance(30)) { std::string v = s.variant(r.pick(docs)); files.push_back(g.importable(v)); }
    auto serverKv = [&]() { KV kv; if (s.pre) kv.push_back({"pre", std::to_string(s.pre)}); if (s.many) kv.push_back({"many", std::to_string(s.many)}); if (s.dtypes) kv.push_back({"dtypes", "1"}); if (s.cyc) kv.push_back({"cyc", "1"}); if (s.preset) kv.push_back({"preset", "1"}); return kv; };
    auto nodeIdOf = [&](const std::string &doc) -> std::string {
        const Doc *d = p.doc(doc); std::vector<std::string> v;
        for (auto &x : d->parts) if (x.kind == DocPart::NODE) for (auto &a : x.node.attrs) if (a.first == "NodeId") v.push_back(a.second);
        return v.empty() ? "i=1" : r.pick(v);
    };
    auto loadOp = [&](const std::string &S, const std::string &f) {
        KV kv; if (r.chance(o.ext > 10 ? 75 : 25)) kv.push_back({"ext", "1"});
        long q = g.op("load", S, f, kv);
        const File *fi = p.file(f); if (!fi || !p.doc(fi->doc)) return;
        std::string doc = fi->doc;
        if (r.chance(15)) g.shortReads(q, doc);
        if (r.chance(refusePct)) { int k = r.range(1, prop == "C06" ? 4 : 2); while (k--) g.fault("refuse", q, 0, r.pick(std::vector<int>{1, 1, 2, 3, 5, 8, -1}), nodeIdOf(doc)); }
        if (r.chance(refusePct / 4)) g.fault("refuseref", q, (long)r.below(30), r.pick(std::vector<int>{1, 2, 10, -1}), "");
    };
    auto failing = [&](const std::string &S) { // a load that should fail
        const std::string f = r.pick(files), doc = p.file(f)->doc;
        switch (r.range(0, 6)) {
        case 0: { File x; x.name = "miss" + std::to_string(p.files.size()); x.missing = true; p.files.push_back(x); g.op("load", S, x.name); break; }
        case 1: { long q = g.op("load", S, f); g.readErr(q, doc); break; }
        case 2: { long q = g.op("load", S, f); g.fault("open", q, 0, 1, std::to_string(r.pick(std::vector<int>{EMFILE, EACCES, EIO}))); break; }
        case 3: { long q = g.op("load", S, f); if (r.chance(30)) g.fault("xmlctx", q, 0, 1, ""); else g.readErr(q, doc); break; }
        default: { File &x = g.file("t" + std::to_string(p.files.size()), doc); std::string n = x.name; if (r.chance(70)) { Damage d; d.kind = "trunc"; d.a = g.spot(doc); x.damage.push_back(d); } else g.damage(x); loadOp(S, n); }
        }
    };
    auto program = [&](const std::string &S, int maxLoads) {
        g.op("server", S, "", serverKv());
        std::vector<std::string> seq = files;
        if ((int)seq.size() > maxLoads) seq.resize((size_t)maxLoads);
        if (r.chance(12)) for (size_t i = seq.size(); i > 1; i--) std::swap(seq[i - 1], seq[r.below(i)]);
        for (auto &f : seq) {
            if (!hostile && !probe && r.chance(failPct)) failing(S);
            loadOp(S, f);
            if (r.chance(15)) g.op("read", S);
            if (r.chance(prop == "C06" ? 20 : 10)) loadOp(S, f); // once more
        }
        if (r.chance(2)) g.op("badload", S, r.chance(50) ? "path" : "server");
        if (r.chance(25)) loadOp(S, r.pick(files));
        if (!hostile && !probe && r.chance(failPct)) { failing(S); if (r.chance(50)) loadOp(S, r.pick(files)); }
        if (r.chance(60)) g.op("read", S);
        if (r.chance(85)) g.op("close", S);
    };
    if (prop == "C03") {
        int n = r.range(2, 3); std::vector<std::string> names;
        for (int i = 0; i < n; i++) { std::string t(1, (char)('a' + i)); names.push_back(t); g.newTask(t); program("S", 2); }
        if (r.chance(25)) { g.newTask("x", true); program("S", 1); int k = r.range(1, 2); while (k--) { g.t = r.pick(names); g.fault("nest", (long)r.below(g.task()->ops.size()), (long)r.below(12), 1, "x"); } }
        p.schedSeed = r.next() | 1; p.schedMean = r.pick(std::vector<int>{30, 100, 300, 1000, 5000});
        return;
    }
    g.newTask("a");
    program("S", 5);
    if (r.chance(prop == "C07" || prop == "C05" ? 25 : 10)) program("T", 2);
}
