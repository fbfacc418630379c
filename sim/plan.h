// Plan: everything one simulated run depends on, as text lines. Executing a plan is a pure function of the
// plan and the code under test.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <utility>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); } // inclusive
    bool chance(int percent) { return (int)below(100) < percent; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull);

typedef std::vector<std::pair<std::string, std::string>> KV;

// generic XML element used for values, extensions and unknown elements
struct El {
    std::string name;
    KV attrs;
    std::string text; // directly after the start tag
    std::vector<El> kids;
    std::string tail; // after the end tag (inside the parent)
};

struct Item { // one child of a node element, in document order
    enum Kind { DN, DE, INV, REF, VAL, DEF, FIELD, EXT, UNK, CAT } kind;
    KV kv;            // attributes; REF: ReferenceType, IsForward; DN/DE/INV: Locale
    std::string text; // text / reference target
    El el;            // VAL, EXT, UNK
    std::string exp;  // VAL: canonical text expected in the server ("" = not checked)
};
struct DocNode {
    std::string cls; // UAObject ...
    KV attrs;
    std::vector<Item> items;
};
struct DocPart { // top level content, in document order
    enum Kind { URI, ALIAS, NODE, UNK, RAW } kind;
    std::string a, b; // URI: uri; ALIAS: name, id text; RAW: text (comment, PI, white space)
    DocNode node;
    El el;
};
struct Doc {
    std::string name;
    uint64_t style = 0; // 0: plain
    std::string enc;    // "", "utf8decl", "bom", "latin1", "utf16le"
    std::vector<DocPart> parts;
};
struct Damage { // applied to the rendered bytes, in order
    std::string doc, kind; // flip off xor | trunc n | drop off len | dup off len to | zero off len | ins off text | deep off levels closed tag | swap off len to
    uint64_t a = 0, b = 0, c = 0;
    std::string text;
};
struct File {
    std::string name, doc; // doc "" = missing file
    std::vector<Damage> damage;
    bool missing = false;
    int openErr = 0;
    // read faults, by read call number (of the k-th opening, 0 = any) : kind "short n" "err errno"
};
struct Op {
    std::string kind; // new import sort walk refs delete | server load types close | arena
    std::string obj, arg;
    KV kv;
    std::string get(const std::string &k, const std::string &d = "") const {
        for (auto &p : kv) if (p.first == k) return p.second;
        return d;
    }
    long num(const std::string &k, long d = 0) const { auto s = get(k); return s.empty() ? d : atol(s.c_str()); }
};
struct Task { std::string name; std::vector<Op> ops; bool nested = false; };
struct Fault {
    std::string kind; // alloc | open | read | refuse | refuseref | nest
    std::string task; // task name; op: index of the op in the task's executed sequence (-1: any)
    long op = -1;
    long k = 0;     // k-th event of that kind inside the op (0 based)
    long n = 1;     // how many in a row (-1: all further ones)
    std::string arg; // read: err=EIO / short=N ; refuse: id ; nest: task name, point
};
struct Plan {
    std::string property;
    uint64_t seed = 0, index = 0;
    uint64_t junk = 0;
    std::vector<Doc> docs;
    std::vector<File> files;
    std::vector<Task> tasks;
    std::vector<Fault> faults;
    uint64_t schedSeed = 0; long schedMean = 0;        // random schedule
    std::vector<std::pair<uint64_t, int>> switches;     // explicit schedule
    bool explicitSched = false;
    std::string solo; // run only this task (C03 reference runs)
    KV opts;
    Doc *doc(const std::string &n) { for (auto &d : docs) if (d.name == n) return &d; return nullptr; }
    const Doc *doc(const std::string &n) const { for (auto &d : docs) if (d.name == n) return &d; return nullptr; }
    const File *file(const std::string &n) const { for (auto &f : files) if (f.name == n) return &f; return nullptr; }
    const Task *task(const std::string &n) const { for (auto &f : tasks) if (f.name == n) return &f; return nullptr; }
};
std::string planText(const Plan &p);
Plan planParse(const std::string &text);

// rendering
struct Rendered {
    std::string bytes;
    struct Span { size_t start, end; };
    std::vector<Span> parts; // per DocPart: byte offsets of the element
};
Rendered render(const Doc &d);
std::string applyDamage(std::string bytes, const std::vector<Damage> &dm);
std::string enc(const std::string &s); // percent encoding for plan tokens ("" -> %)
std::string dec(const std::string &s);
