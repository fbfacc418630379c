#include "shrink.h"
#include <algorithm>
#include <set>
namespace {
struct Shrinker {
    Plan &p; const StillFails &fails; size_t steps = 0;
    bool tryPlan(const Plan &q) {
        Plan r = planParse(planText(q));
        if (!fails(r)) return false;
        p = r; steps++; return true;
    }
    // delta debugging over the n elements that count/erase address; remove(q, i, k) drops [i, i + k)
    bool ddmin(const std::function<size_t(const Plan &)> &count, const std::function<void(Plan &, size_t, size_t)> &remove) {
        bool any = false;
        for (size_t chunk = std::max<size_t>(count(p), 1); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < count(p);) {
                Plan q = p; size_t k = std::min(chunk, count(p) - i);
                remove(q, i, k);
                if (tryPlan(q)) any = true; else i += k;
            }
            if (chunk == 1) break;
        }
        return any;
    }
    static void dropOps(Plan &q, size_t t, size_t i, size_t k) {
        q.tasks[t].ops.erase(q.tasks[t].ops.begin() + (long)i, q.tasks[t].ops.begin() + (long)(i + k));
        for (size_t f = 0; f < q.faults.size();) {
            Fault &x = q.faults[f];
            if (x.task == q.tasks[t].name && x.op >= (long)i) {
                if (x.op < (long)(i + k)) { q.faults.erase(q.faults.begin() + (long)f); continue; }
                x.op -= (long)k;
            }
            f++;
        }
    }
    static void dropTask(Plan &q, size_t t) {
        std::string n = q.tasks[t].name;
        q.tasks.erase(q.tasks.begin() + (long)t);
        q.faults.erase(std::remove_if(q.faults.begin(), q.faults.end(), [&](const Fault &f) { return f.task == n || (f.kind == "nest" && f.arg.compare(0, n.size(), n) == 0 && (f.arg.size() == n.size() || !isalnum((unsigned char)f.arg[n.size()]))); }), q.faults.end());
    }
    bool simple(size_t at, Doc *&d, Plan &q) { d = &q.docs[at]; return true; }
    bool els(const std::function<El *(Plan &)> &get, int depth) { // an element: drop children, shorten texts
        bool any = false;
        any |= ddmin([&](const Plan &x) { return get(const_cast<Plan &>(x))->kids.size(); }, [&](Plan &q, size_t i, size_t k) { auto &v = get(q)->kids; v.erase(v.begin() + (long)i, v.begin() + (long)(i + k)); });
        any |= ddmin([&](const Plan &x) { return get(const_cast<Plan &>(x))->attrs.size(); }, [&](Plan &q, size_t i, size_t k) { auto &v = get(q)->attrs; v.erase(v.begin() + (long)i, v.begin() + (long)(i + k)); });
        any |= str([&](Plan &q) { return &get(q)->text; });
        any |= str([&](Plan &q) { return &get(q)->tail; });
        if (depth < 4) for (size_t i = 0; i < get(p)->kids.size() && i < 16; i++) any |= els([&, i](Plan &q) { return &get(q)->kids[i]; }, depth + 1);
        return any;
    }
    bool str(const std::function<std::string *(Plan &)> &get) {
        bool any = false;
        while (get(p)->size() > 1) {
            size_t n = get(p)->size();
            bool ok = false;
            for (size_t to : {size_t(0), size_t(1), n / 16, n / 2, n - n / 8 - 1}) {
                if (to >= n) continue;
                Plan q = p; std::string &s = *get(q);
                while (to > 0 && to < s.size() && ((unsigned char)s[to] & 0xC0) == 0x80) to++;
                if (to >= n) continue;
                s = s.substr(0, to);
                if (tryPlan(q)) { ok = any = true; break; }
            }
            if (!ok) break;
        }
        return any;
    }
    bool pass() {
        size_t before = steps;
        // faults and schedule
        ddmin([](const Plan &x) { return x.faults.size(); }, [](Plan &q, size_t i, size_t k) { q.faults.erase(q.faults.begin() + (long)i, q.faults.begin() + (long)(i + k)); });
        ddmin([](const Plan &x) { return x.switches.size(); }, [](Plan &q, size_t i, size_t k) { q.switches.erase(q.switches.begin() + (long)i, q.switches.begin() + (long)(i + k)); });
        for (size_t i = 0; i < p.faults.size(); i++) if (p.faults[i].n > 1 || p.faults[i].n < 0) { Plan q = p; q.faults[i].n = 1; tryPlan(q); }
        // tasks and operations
        for (size_t t = 0; t < p.tasks.size();) { if (p.tasks.size() < 2) break; Plan q = p; dropTask(q, t); if (!tryPlan(q)) t++; }
        for (size_t t = 0; t < p.tasks.size(); t++)
            ddmin([t](const Plan &x) { return x.tasks[t].ops.size(); }, [t](Plan &q, size_t i, size_t k) { dropOps(q, t, i, k); });
        for (size_t t = 0; t < p.tasks.size(); t++) for (size_t o = 0; o < p.tasks[t].ops.size(); o++)
            while (!p.tasks[t].ops[o].kv.empty()) { size_t n = p.tasks[t].ops[o].kv.size(); bool ok = false; for (size_t i = 0; i < n && !ok; i++) { Plan q = p; q.tasks[t].ops[o].kv.erase(q.tasks[t].ops[o].kv.begin() + (long)i); ok = tryPlan(q); } if (!ok) break; }
        // files
        std::set<std::string> used; for (auto &t : p.tasks) for (auto &o : t.ops) used.insert(o.arg);
        { Plan q = p; q.files.erase(std::remove_if(q.files.begin(), q.files.end(), [&](const File &f) { return !used.count(f.name); }), q.files.end()); if (q.files.size() < p.files.size()) tryPlan(q); }
        for (size_t f = 0; f < p.files.size(); f++)
            ddmin([f](const Plan &x) { return x.files[f].damage.size(); }, [f](Plan &q, size_t i, size_t k) { q.files[f].damage.erase(q.files[f].damage.begin() + (long)i, q.files[f].damage.begin() + (long)(i + k)); });
        { Plan q = p; std::set<std::string> du; for (auto &f : p.files) du.insert(f.doc); q.docs.erase(std::remove_if(q.docs.begin(), q.docs.end(), [&](const Doc &d) { return !du.count(d.name); }), q.docs.end()); if (q.docs.size() < p.docs.size()) tryPlan(q); }
        // documents
        for (size_t d = 0; d < p.docs.size(); d++) {
            if (p.docs[d].style) { Plan q = p; q.docs[d].style = 0; tryPlan(q); }
            if (!p.docs[d].enc.empty()) { Plan q = p; q.docs[d].enc = ""; tryPlan(q); }
            ddmin([d](const Plan &x) { return x.docs[d].parts.size(); }, [d](Plan &q, size_t i, size_t k) { auto &v = q.docs[d].parts; v.erase(v.begin() + (long)i, v.begin() + (long)(i + k)); });
            for (size_t n = 0; n < p.docs[d].parts.size(); n++) {
                if (p.docs[d].parts[n].kind == DocPart::RAW) { str([d, n](Plan &q) { return &q.docs[d].parts[n].a; }); continue; }
                if (p.docs[d].parts[n].kind == DocPart::UNK) { els([d, n](Plan &q) { return &q.docs[d].parts[n].el; }, 0); continue; }
                if (p.docs[d].parts[n].kind != DocPart::NODE) continue;
                ddmin([d, n](const Plan &x) { return x.docs[d].parts[n].node.items.size(); }, [d, n](Plan &q, size_t i, size_t k) { auto &v = q.docs[d].parts[n].node.items; v.erase(v.begin() + (long)i, v.begin() + (long)(i + k)); });
                ddmin([d, n](const Plan &x) { return x.docs[d].parts[n].node.attrs.size(); }, [d, n](Plan &q, size_t i, size_t k) { auto &v = q.docs[d].parts[n].node.attrs; v.erase(v.begin() + (long)i, v.begin() + (long)(i + k)); });
                for (size_t a = 0; a < p.docs[d].parts[n].node.attrs.size(); a++) if (p.docs[d].parts[n].node.attrs[a].second.size() > 24) str([d, n, a](Plan &q) { return &q.docs[d].parts[n].node.attrs[a].second; });
                for (size_t i = 0; i < p.docs[d].parts[n].node.items.size(); i++) {
                    str([d, n, i](Plan &q) { return &q.docs[d].parts[n].node.items[i].text; });
                    auto kind = p.docs[d].parts[n].node.items[i].kind;
                    if (kind == Item::VAL || kind == Item::EXT || kind == Item::UNK) els([d, n, i](Plan &q) { return &q.docs[d].parts[n].node.items[i].el; }, 0);
                }
            }
        }
        return steps > before;
    }
};
}
size_t shrinkPlan(Plan &p, const StillFails &fails) {
    Shrinker s{p, fails};
    try { for (int i = 0; i < 6; i++) if (!s.pass()) break; } catch (OutOfTime &) {}
    return s.steps;
}
