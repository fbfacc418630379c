// Helpers shared by the generators.
#pragma once
#include "gen.h"
#include "model.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <functional>
std::string newIdt(World &w);
void addRef(World &w, int at, const GDoc &d, unsigned tu, const std::string &tt, bool fwd, unsigned u, const std::string &idt);
bool hasRefPair(World &w, int at, const std::string &t);
inline void attrib(KV &kv, const std::string &k, const std::string &v) { kv.push_back({k, v}); }
inline bool truthless(const std::string &s) { return s == "false" || s == "0"; }
inline std::string boolT(Rng &r) { bool t = r.chance(50); return r.chance(15) ? t ? "1" : "0" : t ? "true" : "false"; }
struct Gen {
    Plan &p; Rng &r; std::string t; // current task
    Task *task() { for (auto &x : p.tasks) if (x.name == t) return &x; return nullptr; }
    long op(const std::string &k, const std::string &obj, const std::string &arg = "", KV kv = {}) {
        Op o; o.kind = k; o.obj = obj; o.arg = arg; o.kv = kv; task()->ops.push_back(o); return (long)task()->ops.size() - 1;
    }
    void newTask(const std::string &n, bool nested = false) { Task x; x.name = n; x.nested = nested; p.tasks.push_back(x); t = n; }
    void fault(const std::string &kind, long op, long k, long n, const std::string &arg) { Fault f; f.kind = kind; f.task = t; f.op = op; f.k = k; f.n = n; f.arg = arg; p.faults.push_back(f); }
    File &file(const std::string &name, const std::string &doc) { File f; f.name = name; f.doc = doc; p.files.push_back(f); return p.files.back(); }
    size_t size(const std::string &doc) { return render(*p.doc(doc)).bytes.size(); }
    size_t edge() { return (size_t)(r.range(-1, 1) + (r.chance(50) ? 4 : 0)); } // near the end of a buffer, where the first read may take four bytes
    size_t spot(const std::string &doc) { // an interesting byte offset
        Rendered x = render(*p.doc(doc)); size_t n = x.bytes.size();
        switch (r.range(0, 9)) {
        case 0: return r.below(5);
        case 1: return n ? n - 1 - r.below(std::min<size_t>(n, 20)) : 0;
        case 2: case 3: { if (x.parts.empty()) return n / 2; auto &s = x.parts[r.below(x.parts.size())]; return std::min(n, s.end + r.below(3)); }
        case 4: { if (x.parts.empty()) return n / 2; auto &s = x.parts[r.below(x.parts.size())]; return s.start + r.below(s.end - s.start + 1); }
        case 5: { size_t b = 1024 * (1 + r.below(n / 1024 + 1)); return std::min(n, b + edge()); }
        default: return r.below(n + 1);
        }
    }
    void shortReads(long o, const std::string &doc) { int k = r.range(1, 4); while (k--) fault("read", o, (long)spot(doc), 1, "short"); }
    void readErr(long o, const std::string &doc) {
        long at = (long)spot(doc); if (r.chance(12)) at = 100000000; // at the very end
        fault("read", o, at, r.chance(70) ? -1 : 1, "err=" + std::to_string(r.pick(std::vector<int>{EIO, EIO, ESTALE, EISDIR, EBADF, EINTR})));
    }
    void damage(File &f) {
        Damage d; std::string doc = f.doc;
        switch (r.range(0, 7)) {
        case 0: case 1: case 2: d.kind = "trunc"; d.a = spot(doc); break;
        case 3: d.kind = "flip"; d.a = spot(doc); d.b = 1u << r.below(8); break;
        case 4: d.kind = "drop"; d.a = spot(doc); d.b = 1 + r.below(r.chance(50) ? 4 : 600); break;
        case 5: d.kind = "zero"; d.a = spot(doc); d.b = 1 + r.below(r.chance(50) ? 4 : 600); break;
        case 6: d.kind = "ins"; d.a = spot(doc); d.text = r.pick(std::vector<std::string>{"<", ">", "&", "</x>", "<x>", "\"", "]]>", "<!--", "\xFF", "&#0;", "<?", "x"}); break;
        default: d.kind = "dup"; d.a = spot(doc); d.b = 1 + r.below(300); d.c = spot(doc);
        }
        f.damage.push_back(d);
    }
    std::string importable(const std::string &doc) { file("f" + std::to_string(p.files.size()), doc); return p.files.back().name; }
    // late: a service that learns the standard types only after the import
    KV svcKv() { KV kv; if (r.chance(30)) kv.push_back({"svc", r.chance(20) ? "late" : "host"}); if (r.chance(10)) kv.push_back({"log", "none"}); return kv; }
    void finishUp(const std::string &L) {
        if (r.chance(10)) return; // deleted at the end of the program
        op("delete", L);
    }
    // a document of an exact size, made of unimportant content
    void pad(const std::string &doc, size_t to) {
        Doc *d = p.doc(doc); size_t n = render(*d).bytes.size();
        if (d->enc == "utf16le" || d->enc == "latin1") return;
        DocPart x; x.kind = DocPart::RAW; x.b = "1"; d->parts.push_back(x);
        size_t base = render(*d).bytes.size() - 1;
        while (to <= base) to += 1024;
        (void)n;
        d->parts.back().b = std::to_string(to - base);
    }
};
void mutateHostile(Gen &g, World &w, bool valuesOnly = false);
void byteHostility(Gen &g, File &f);
