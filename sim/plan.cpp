#include "plan.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

uint64_t hashStr(const std::string &s, uint64_t h) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    return h;
}
std::string enc(const std::string &s) {
    if (s.empty()) return "%";
    std::string o; char b[4];
    for (unsigned char c : s) {
        if (c <= 32 || c >= 127 || c == '%' || c == '(' || c == ')' || c == '"') { snprintf(b, 4, "%%%02X", c); o += b; }
        else o += (char)c;
    }
    return o;
}
std::string dec(const std::string &s) {
    if (s == "%") return "";
    std::string o;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '%' && i + 2 < s.size() + 0 && i + 2 <= s.size() - 1) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else o += s[i];
    return o;
}
static std::string kvText(const KV &kv) { std::string o; for (auto &p : kv) o += " " + enc(p.first) + "=" + enc(p.second); return o; }
static void elText(std::string &o, const El &e) {
    o += "(" + enc(e.name) + kvText(e.attrs);
    if (!e.text.empty()) o += " \"" + enc(e.text);
    for (auto &k : e.kids) { o += " "; elText(o, k); if (!k.tail.empty()) o += " \"" + enc(k.tail); }
    o += " )";
}
static const char *itemName[] = {"dn", "de", "inv", "ref", "val", "def", "field", "ext", "unk", "cat"};

std::string planText(const Plan &p) {
    std::ostringstream o;
    o << "plan 1\nproperty " << p.property << "\nseed " << p.seed << " " << p.index << "\njunk " << p.junk << "\n";
    for (auto &k : p.opts) o << "opt " << enc(k.first) << "=" << enc(k.second) << "\n";
    for (auto &d : p.docs) {
        o << "doc " << d.name << " style=" << d.style << " enc=" << enc(d.enc) << "\n";
        for (auto &x : d.parts) {
            std::string e;
            switch (x.kind) {
            case DocPart::URI: o << " uri " << enc(x.a) << "\n"; break;
            case DocPart::ALIAS: o << " alias " << enc(x.a) << " " << enc(x.b) << "\n"; break;
            case DocPart::RAW: o << " raw " << enc(x.a); if (!x.b.empty()) o << " " << enc(x.b); o << "\n"; break;
            case DocPart::UNK: elText(e, x.el); o << " top " << e << "\n"; break;
            case DocPart::NODE:
                o << " node " << x.node.cls << kvText(x.node.attrs) << "\n";
                for (auto &i : x.node.items) {
                    o << "  " << itemName[i.kind] << kvText(i.kv);
                    if (i.kind == Item::DN || i.kind == Item::DE || i.kind == Item::INV || i.kind == Item::REF || i.kind == Item::CAT) o << " \"" << enc(i.text);
                    if (i.kind == Item::VAL || i.kind == Item::EXT || i.kind == Item::UNK) { e.clear(); elText(e, i.el); o << " " << e; }
                    if (!i.exp.empty()) o << " exp " << enc(i.exp);
                    o << "\n";
                }
            }
        }
    }
    for (auto &f : p.files) {
        o << "file " << f.name << " " << (f.missing ? "missing" : "doc=" + f.doc) << " openerr=" << f.openErr << "\n";
        for (auto &d : f.damage) o << " damage " << d.kind << " " << d.a << " " << d.b << " " << d.c << " " << enc(d.text) << "\n";
    }
    for (auto &t : p.tasks) {
        o << (t.nested ? "nested " : "task ") << t.name << "\n";
        for (auto &x : t.ops) o << " op " << x.kind << " " << enc(x.obj) << " " << enc(x.arg) << kvText(x.kv) << "\n";
    }
    for (auto &f : p.faults)
        o << "fault " << f.kind << " task=" << f.task << " op=" << f.op << " k=" << f.k << " n=" << f.n << " arg=" << enc(f.arg) << "\n";
    if (p.schedMean) o << "sched " << p.schedSeed << " " << p.schedMean << "\n";
    if (p.explicitSched) o << "sched explicit\n";
    for (auto &s : p.switches) o << "switch " << s.first << " " << s.second << "\n";
    return o.str();
}

static std::vector<std::string> toks(const std::string &l) {
    std::vector<std::string> v; std::istringstream i(l); std::string t;
    while (i >> t) v.push_back(t);
    return v;
}
static bool isKv(const std::string &t) { return t[0] != '(' && t[0] != '"' && t.find('=') != std::string::npos; }
static std::pair<std::string, std::string> kvOf(const std::string &t) {
    size_t e = t.find('=');
    return {dec(t.substr(0, e)), dec(t.substr(e + 1))};
}
static El elParse(const std::vector<std::string> &v, size_t &i) {
    El e;
    e.name = dec(v[i++].substr(1));
    while (i < v.size() && v[i] != ")") {
        if (v[i][0] == '(') e.kids.push_back(elParse(v, i));
        else if (v[i][0] == '"') { (e.kids.empty() ? e.text : e.kids.back().tail) = dec(v[i].substr(1)); i++; }
        else if (isKv(v[i])) e.attrs.push_back(kvOf(v[i++]));
        else i++;
    }
    i++;
    return e;
}
Plan planParse(const std::string &text) {
    Plan p;
    std::istringstream in(text);
    std::string line;
    Doc *doc = nullptr; File *file = nullptr; Task *task = nullptr;
    while (std::getline(in, line)) {
        auto v = toks(line);
        if (v.empty() || v[0][0] == '#') continue;
        const std::string &c = v[0];
        auto get = [&](const std::string &k) { for (auto &t : v) if (t.compare(0, k.size() + 1, k + "=") == 0) return dec(t.substr(k.size() + 1)); return std::string(); };
        if (c == "property") p.property = v.size() > 1 ? v[1] : "";
        else if (c == "seed") { p.seed = strtoull(v[1].c_str(), 0, 10); p.index = strtoull(v[2].c_str(), 0, 10); }
        else if (c == "junk") p.junk = strtoull(v[1].c_str(), 0, 10);
        else if (c == "opt") p.opts.push_back(kvOf(v[1]));
        else if (c == "doc") { p.docs.emplace_back(); doc = &p.docs.back(); doc->name = v[1]; doc->style = strtoull(get("style").c_str(), 0, 10); doc->enc = get("enc"); }
        else if (doc && (c == "uri" || c == "alias" || c == "raw")) {
            DocPart x; x.kind = c == "uri" ? DocPart::URI : c == "alias" ? DocPart::ALIAS : DocPart::RAW;
            if (v.size() > 1) x.a = dec(v[1]);
            if (v.size() > 2) x.b = dec(v[2]);
            doc->parts.push_back(x);
        } else if (doc && c == "top") { DocPart x; x.kind = DocPart::UNK; size_t i = 1; x.el = elParse(v, i); doc->parts.push_back(x); }
        else if (doc && c == "node") {
            DocPart x; x.kind = DocPart::NODE; x.node.cls = v[1];
            for (size_t i = 2; i < v.size(); i++) if (isKv(v[i])) x.node.attrs.push_back(kvOf(v[i]));
            doc->parts.push_back(x);
        } else if (std::find(itemName, itemName + 10, c) != itemName + 10) {
            if (!doc || doc->parts.empty() || doc->parts.back().kind != DocPart::NODE) continue; // its node was removed
            Item it; it.kind = (Item::Kind)(std::find(itemName, itemName + 10, c) - itemName);
            for (size_t i = 1; i < v.size();) {
                if (v[i][0] == '(') it.el = elParse(v, i);
                else if (v[i][0] == '"') it.text = dec(v[i++].substr(1));
                else if (v[i] == "exp") { it.exp = dec(v[i + 1]); i += 2; }
                else if (isKv(v[i])) it.kv.push_back(kvOf(v[i++]));
                else i++;
            }
            doc->parts.back().node.items.push_back(it);
        } else if (c == "file") {
            p.files.emplace_back(); file = &p.files.back(); file->name = v[1]; file->missing = v[2] == "missing"; file->doc = get("doc");
            file->openErr = atoi(get("openerr").c_str());
        } else if (c == "damage" && file) {
            Damage d; d.kind = v[1]; d.a = strtoull(v[2].c_str(), 0, 10); d.b = strtoull(v[3].c_str(), 0, 10); d.c = strtoull(v[4].c_str(), 0, 10);
            d.text = v.size() > 5 ? dec(v[5]) : "";
            file->damage.push_back(d);
        } else if (c == "task" || c == "nested") { p.tasks.emplace_back(); task = &p.tasks.back(); task->name = v[1]; task->nested = c == "nested"; }
        else if (c == "op" && task) {
            Op x; x.kind = v[1]; x.obj = dec(v[2]); x.arg = dec(v[3]);
            for (size_t i = 4; i < v.size(); i++) if (isKv(v[i])) x.kv.push_back(kvOf(v[i]));
            task->ops.push_back(x);
        } else if (c == "fault") {
            Fault f; f.kind = v[1]; f.task = get("task"); f.op = atol(get("op").c_str()); f.k = atol(get("k").c_str()); f.n = atol(get("n").c_str()); f.arg = get("arg");
            p.faults.push_back(f);
        } else if (c == "sched") {
            if (v[1] == "explicit") p.explicitSched = true;
            else { p.schedSeed = strtoull(v[1].c_str(), 0, 10); p.schedMean = atol(v[2].c_str()); }
        } else if (c == "switch") p.switches.push_back({strtoull(v[1].c_str(), 0, 10), atoi(v[2].c_str())});
    }
    return p;
}

// ---- rendering ----
namespace {
struct R {
    const Doc &d; std::string o; uint64_t style;
    R(const Doc &d) : d(d), style(d.style) {}
    uint64_t h(const std::string &k) { return style ? hashStr(k, style * 0x9E3779B97F4A7C15ull + 77) : 0; }
    bool yes(const std::string &k, int pct) { return style && (int)(h(k) % 100) < pct; }
    void ws(const std::string &k) {
        if (!style) { o += "\n"; return; }
        switch (h(k + "#ws") % 9) {
        case 0: break;
        case 1: o += " "; break;
        case 2: o += "\n\t"; break;
        case 3: o += "\r\n  "; break;
        case 4: o += "\n<!-- " + std::string(h(k + "c") % 40, 'c') + " -->"; break;
        case 5: o += "<?pi " + std::string(h(k + "p") % 10, 'p') + "?>\n"; break;
        default: o += "\n    ";
        }
    }
    static void cp(std::string &o, uint32_t c) {
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    }
    static uint32_t next(const std::string &s, size_t &i) {
        unsigned char c = (unsigned char)s[i++];
        if (c < 0x80) return c;
        int n = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : 1;
        uint32_t v = c & (0x3F >> n);
        while (n-- && i < s.size()) v = v << 6 | ((unsigned char)s[i++] & 63);
        return v;
    }
    bool latin() const { return d.enc == "latin1"; }
    void chr(uint32_t c, bool attr, uint64_t kh, size_t pos) {
        char b[16];
        uint64_t x = 1;
        if (style) { x = (kh ^ (style + pos * 31)) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; }
        if (c == '&') { o += (x % 3 == 0) ? "&#38;" : (x % 3 == 1) ? "&amp;" : "&#x26;"; return; }
        if (c == '<') { o += (x % 2) ? "&lt;" : "&#x3c;"; return; }
        if (c == '>') { o += (x % 2) ? "&gt;" : "&#62;"; return; }
        if (attr && (c == '"' || c == '\'')) { o += c == '"' ? "&quot;" : (x % 2 ? "&apos;" : "&#39;"); return; }
        if (c == '\r' || (attr && (c == '\n' || c == '\t'))) { snprintf(b, 16, "&#%u;", c); o += b; return; }
        if ((latin() && c > 255) || (style && c > 32 && x % 61 == 0)) { snprintf(b, 16, x % 2 ? "&#%u;" : "&#x%X;", c); o += b; return; }
        cp(o, c);
    }
    void text(const std::string &s, const std::string &k) {
        uint64_t kh = hashStr(k);
        if (yes(k + "#cdata", 6) && !s.empty() && s.find("]]>") == std::string::npos && s.find('\r') == std::string::npos && !latin()) {
            size_t m = h(k + "m") % (s.size() + 1);
            while (m < s.size() && ((unsigned char)s[m] & 0xC0) == 0x80) m++;
            for (size_t i = 0, p = 0; i < m; p++) chr(next(s, i), false, kh, p);
            o += "<![CDATA[" + s.substr(m) + "]]>";
            return;
        }
        size_t cut = yes(k + "#cmt", 6) ? h(k + "cc") % (s.size() + 1) : (size_t)-1;
        for (size_t i = 0, p = 0; i < s.size(); p++) {
            if (i >= cut) { o += "<!-- in -->"; cut = (size_t)-1; }
            chr(next(s, i), false, kh, p);
        }
    }
    void attrs(const KV &kv, const std::string &k, const std::string &own = "") {
        std::vector<size_t> ord;
        for (size_t i = 0; i < kv.size(); i++) ord.push_back(i);
        if (style) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[h(k + "#ord" + std::to_string(i)) % i]);
        for (size_t i : ord) {
            char q = yes(k + kv[i].first + "#q", 40) ? '\'' : '"';
            o += yes(k + kv[i].first + "#sp", 10) ? "\n  " : " ";
            if (!own.empty() && yes(k + kv[i].first + "#own", 30)) o += own;
            o += kv[i].first; o += "="; o += q;
            uint64_t kh = hashStr(k + kv[i].first);
            for (size_t j = 0, p = 0; j < kv[i].second.size(); p++) chr(next(kv[i].second, j), true, kh, p);
            o += q;
        }
    }
    // foreign: elements of other schemas, which declare and use prefixes of their own
    void el(const El &e, const std::string &k, const char *prefix, bool foreign = false) {
        bool decl = yes(k + "#decl", foreign ? 12 : 4), own = decl && foreign && yes(k + "#ownp", 60);
        std::string n = (own ? "x1:" : prefix) + e.name, ns;
        if (decl) ns = own || yes(k + "#declp", 50) ? " xmlns:x1=\"urn:x\"" : *prefix ? " xmlns=\"urn:x\"" : " xmlns=\"http://opcfoundation.org/UA/2008/02/Types.xsd\"";
        if (decl && yes(k + "#decl2", 20)) ns += "\n xmlns:x2='urn:x&#65;'";
        bool first = yes(k + "#declf", 50);
        o += "<" + n; if (first) o += ns; attrs(e.attrs, k, own ? "x1:" : ""); if (!first) o += ns;
        if (e.text.empty() && e.kids.empty() && yes(k + "#sc", 50)) { o += "/>"; return; }
        o += ">";
        text(e.text, k + "t");
        int i = 0;
        for (auto &c : e.kids) { std::string kk = k + "/" + std::to_string(i++); el(c, kk, prefix, foreign); text(c.tail, kk + "tail"); }
        o += "</" + n + (yes(k + "#es", 10) ? " >" : ">");
    }
};
}
static std::string kvKey(const KV &kv) { std::string s; for (auto &p : kv) s += p.first + "=" + p.second + ";"; return s; }

// bytes a text takes up to each offset in another encoding
static std::vector<size_t> lengths(const std::string &s, bool wide) {
    std::vector<size_t> m(s.size() + 1); size_t l = 0;
    for (size_t i = 0; i < s.size();) { size_t j = i; uint32_t c = R::next(s, i); while (j < i && j <= s.size()) m[j++] = l; l += wide && c >= 0x10000 ? 4 : wide ? 2 : 1; }
    m[s.size()] = l;
    return m;
}

Rendered render(const Doc &d) {
    Rendered out; R r(d); std::string &o = r.o;
    const std::string pre = r.yes("prefix", 15) ? "ua:" : "";
    const char *vpre = r.yes("vprefix", 60) ? "uax:" : "";
    if (d.enc == "latin1") o += "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>";
    else if (d.enc == "utf16le") o += "<?xml version=\"1.0\" encoding=\"UTF-16\"?>";
    else if (d.enc == "utf8decl") o += "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>";
    else if (!r.style || r.yes("decl", 60)) o += "<?xml version=\"1.0\"?>";
    if (r.style && r.yes("nl", 70)) o += "\n";
    if (r.yes("head", 10)) o += r.yes("headk", 50) ? "<!-- generated, do not edit -->\n" : "<?xml-stylesheet type=\"text/xsl\" href=\"x.xsl\"?>";
    if (r.yes("doctype", 5)) o += r.yes("dtk", 50) ? "<!DOCTYPE " + pre + "UANodeSet>" : "<!DOCTYPE " + pre + "UANodeSet [<!-- none --> <?pi x?>]>\n";
    o += "<" + pre + "UANodeSet" + (r.yes("xsd", 40) ? " xmlns:xsd=\"http://www.w3.org/2001/XMLSchema\" LastModified=\"2020-01-01T00:00:00Z\" xml:lang=\"en\"" : "") + " xmlns" + (pre.empty() ? "" : ":ua") + "=\"http://opcfoundation.org/UA/2011/03/UANodeSet.xsd\" xmlns:uax=\"http://opcfoundation.org/UA/2008/02/Types.xsd\">";
    enum { NONE, URIS, ALIASES } open = NONE;
    auto close = [&]() {
        if (open == URIS) { r.ws("cu"); o += "</" + pre + "NamespaceUris>"; }
        if (open == ALIASES) { r.ws("ca"); o += "</" + pre + "Aliases>"; }
        open = NONE;
    };
    // an element the format does not know, to be skipped with everything in it
    auto junk = [&](const std::string &k, int pct) {
        if (!r.yes(k + "#junk", pct)) return;
        static const char *J[] = {"<Foo/>", "<Foo>text</Foo>", "<Foo><Bar>a</Bar>b<Bar x=\"1\"/></Foo>", "<x:Foo xmlns:x=\"urn:x\" x:NodeId=\"i=1\"><x:Uri>urn:no</x:Uri></x:Foo>", "<Note><Reference ReferenceType=\"i=47\">i=85</Reference><Field Name=\"no\"/></Note>"};
        o += J[r.h(k + "#jk") % 5];
    };
    auto tag = [&](const std::string &n, const KV &kv, const std::string &txt, const std::string &k) {
        o += "<" + pre + n; r.attrs(kv, k);
        bool field = n == "Field" && r.yes(k + "#doc", 25);
        if (txt.empty() && !field && r.yes(k + "#sc", 50)) { o += "/>"; return; }
        o += ">";
        if (field) { r.ws(k + "f1"); if (r.yes(k + "#dn", 50)) { o += "<" + pre + "DisplayName Locale=\"en\">A field</" + pre + "DisplayName>"; r.ws(k + "f2"); } o += "<" + pre + "Description>What <![CDATA[it]]> is</" + pre + "Description>"; r.ws(k + "f3"); }
        junk(k, 3); r.text(txt, k); o += "</" + pre + n + ">";
    };
    for (auto &p : d.parts) {
        if (p.kind == DocPart::URI && open != URIS) { close(); r.ws("u"); o += "<" + pre + "NamespaceUris>"; open = URIS; junk("uris", 3); }
        else if (p.kind == DocPart::ALIAS && open != ALIASES) { close(); r.ws("a"); o += "<" + pre + "Aliases>"; open = ALIASES; junk("aliases", 3); }
        else if (p.kind == DocPart::NODE || p.kind == DocPart::UNK) close();
        size_t st;
        switch (p.kind) {
        case DocPart::URI: r.ws(p.a); st = o.size(); tag("Uri", {}, p.a, "uri" + p.a); break;
        case DocPart::ALIAS: r.ws(p.a); st = o.size(); tag("Alias", {{"Alias", p.a}}, p.b, "al" + p.a); break;
        case DocPart::RAW: st = o.size(); if (p.b.empty()) o += p.a; else { close(); st = o.size(); o += "<" + pre + "Fill>" + std::string((size_t)atol(p.b.c_str()), 'f') + "</" + pre + "Fill>"; } break;
        case DocPart::UNK: r.ws("top"); st = o.size(); r.el(p.el, "top" + p.el.name, pre.c_str(), true); break;
        default: {
            const DocNode &n = p.node;
            std::string k = n.cls + kvKey(n.attrs);
            r.ws(k); st = o.size();
            o += "<" + pre + n.cls; r.attrs(n.attrs, k);
            if (n.items.empty() && r.yes(k + "#sc", 50)) { o += "/>"; break; }
            o += ">";
            enum { N, REFS, DEFN, EXTS } sub = N;
            auto subClose = [&]() {
                if (sub == REFS) { r.ws(k + "cr"); o += "</" + pre + "References>"; }
                if (sub == DEFN) { r.ws(k + "cd"); o += "</" + pre + "Definition>"; }
                if (sub == EXTS) { r.ws(k + "ce"); o += "</" + pre + "Extensions>"; }
                sub = N;
            };
            int idx = 0;
            for (auto &i : n.items) {
                std::string ik = k + itemName[i.kind] + kvKey(i.kv) + i.text;
                (void)idx;
                switch (i.kind) {
                case Item::DN: subClose(); r.ws(ik); tag("DisplayName", i.kv, i.text, ik); break;
                case Item::DE: subClose(); r.ws(ik); tag("Description", i.kv, i.text, ik); break;
                case Item::INV: subClose(); r.ws(ik); tag("InverseName", i.kv, i.text, ik); break;
                case Item::CAT: subClose(); r.ws(ik); tag("Category", i.kv, i.text, ik); break;
                case Item::REF:
                    if (sub != REFS) { subClose(); r.ws(ik + "o"); o += "<" + pre + "References>"; sub = REFS; junk(ik + "R", 3); }
                    r.ws(ik); tag("Reference", i.kv, i.text, ik); break;
                case Item::DEF: subClose(); r.ws(ik); o += "<" + pre + "Definition"; r.attrs(i.kv, ik); o += ">"; sub = DEFN; junk(ik + "D", 4); break;
                case Item::FIELD:
                    if (sub != DEFN) { subClose(); o += "<" + pre + "Definition>"; sub = DEFN; }
                    r.ws(ik); tag("Field", i.kv, i.text, ik); break;
                case Item::VAL: subClose(); r.ws(ik); o += "<" + pre + "Value>"; if (r.style) r.ws(ik + "v"); if (!i.el.name.empty()) r.el(i.el, ik, vpre); if (r.style) r.ws(ik + "w"); o += "</" + pre + "Value>"; break;
                case Item::EXT:
                    if (sub != EXTS) { subClose(); r.ws(ik + "x"); o += "<" + pre + "Extensions>"; sub = EXTS; junk(ik + "E", 3); }
                    o += "<" + pre + "Extension>"; r.text(i.el.text, ik + "xt");
                    { int q = 0; for (auto &c : i.el.kids) { std::string kk = ik + "/x" + std::to_string(q++); r.el(c, kk, "", true); r.text(c.tail, kk + "tail"); } }
                    o += "</" + pre + "Extension>"; break;
                case Item::UNK: subClose(); r.ws(ik); r.el(i.el, ik, pre.c_str(), true); break;
                }
                idx++;
            }
            subClose(); r.ws(k + "end");
            o += "</" + pre + n.cls + (r.yes(k + "#es", 10) ? "\n>" : ">");
        }
        }
        out.parts.push_back({st, o.size()});
    }
    close(); r.ws("endroot");
    o += "</" + pre + "UANodeSet>";
    if (!r.style || r.yes("finalnl", 70)) o += "\n";
    if (d.enc == "bom") { o = "\xEF\xBB\xBF" + o; for (auto &s : out.parts) { s.start += 3; s.end += 3; } }
    if (d.enc == "latin1") {
        auto m = lengths(o, false); for (auto &s : out.parts) { s.start = m[s.start]; s.end = m[s.end]; }
        std::string t; for (size_t i = 0; i < o.size();) t += (char)R::next(o, i);
        o = t;
    }
    if (d.enc == "utf16le") {
        auto m = lengths(o, true); for (auto &s : out.parts) { s.start = 2 + m[s.start]; s.end = 2 + m[s.end]; }
        std::string t = "\xFF\xFE";
        for (size_t i = 0; i < o.size();) {
            uint32_t c = R::next(o, i);
            auto u = [&](uint32_t x) { t += (char)(x & 255); t += (char)(x >> 8); };
            if (c >= 0x10000) { c -= 0x10000; u(0xD800 | c >> 10); u(0xDC00 | (c & 0x3FF)); } else u(c);
        }
        o = t;
    }
    out.bytes = o;
    return out;
}
std::string applyDamage(std::string b, const std::vector<Damage> &dm) {
    for (auto &d : dm) {
        size_t n = b.size();
        if (d.kind == "trunc") { if (d.a < n) b.resize(d.a); }
        else if (d.kind == "ins") b.insert(std::min<size_t>(d.a, n), d.text);
        else if (d.kind == "deep") { // b nested elements, closed when c
            std::string t, e = d.text.empty() ? "a" : d.text, open, shut; // e: one element or outer/inner
            for (size_t i = 0, k; i <= e.size(); i = k + 1) { k = std::min(e.find('/', i), e.size()); open += "<" + e.substr(i, k - i) + ">"; shut = "</" + e.substr(i, k - i) + ">" + shut; }
            for (uint64_t i = 0; i < d.b; i++) t += open;
            if (d.c) for (uint64_t i = 0; i < d.b; i++) t += shut;
            b.insert(std::min<size_t>(d.a, n), t);
        }
        else if (n == 0) continue;
        else if (d.kind == "flip") b[d.a % n] = (char)(b[d.a % n] ^ (char)d.b);
        else if (d.kind == "drop") { size_t a = d.a % n; b.erase(a, d.b); }
        else if (d.kind == "zero") { size_t a = d.a % n; for (size_t i = a; i < std::min(n, a + d.b); i++) b[i] = 0; }
        else if (d.kind == "dup") { size_t a = d.a % n; std::string t = b.substr(a, d.b); b.insert(d.c % (n + 1), t); }
        else if (d.kind == "copy") { size_t a = d.a % n, c = d.c % n; std::string t = b.substr(a, d.b); for (size_t i = 0; i < t.size() && c + i < n; i++) b[c + i] = t[i]; }
    }
    return b;
}
