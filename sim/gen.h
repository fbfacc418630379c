// Seeded generation of plans (documents, programs, faults, schedules).
#pragma once
#include "plan.h"
#include "rt.h"
Plan genPlan(const std::string &prop, uint64_t seed, uint64_t index);
// properties whose faults are placed after a probe run of the same plan without them
bool wantsProbe(const std::string &prop);
void placeFaults(Plan &p, const rt::Result &probe);
// internals shared by gen.cpp and gen_srv.cpp
struct GNode { unsigned u = 0; std::string idt; int cls = 0; long rank = 0; int doc = 0; bool dt = false, enumT = false, typeDefT = false; DocNode n; bool open = true; std::vector<Item> tail; }; // u: 0 = base namespace, else uri number
struct GDoc { std::string name; std::vector<unsigned> uris; std::vector<std::pair<std::string, std::pair<unsigned, std::string>>> aliases; std::vector<int> nodes; };
struct GOpt {
    int docs = 1, minNodes = 1, maxNodes = 12, maxUris = 4, uriPool = 4;
    int ext = 10, values = 30, strange = 40, longText = 6, customRefs = 30, dataTypes = 20, overlap = 15, unknown = 12, alias = 60, style = 70, enc = 30;
    int repeatUri = 5; // documents whose table lists a URI twice, or the one of the base namespace
    int bulk = 0; // per mille of the worlds with more nodes of some class than the containers start with
    bool cycle = false, unresolved = false, chain = false, parents = true, sameAliases = false;
};
struct World {
    Rng r; std::vector<std::string> uris; std::vector<GNode> nodes; std::vector<GDoc> docs; GOpt o; unsigned serial = 0;
    World(uint64_t s) : r(s) {}
    std::string str(bool attrText, int maxLen = 0);
    std::string idText(unsigned u, const std::string &idt, const GDoc &d);
    bool sees(const GDoc &d, unsigned u) const;
    void repeatUri(GDoc &d);
    void similarUris();
    unsigned pickU(const GDoc &d);
    void emit(Plan &p);
};
std::string genName(Rng &r);
El genExtEl(Rng &r, World &w, int depth);
El genValueEl(Rng &r, World &w);
void genServerPlan(Plan &p, World &w);
void finishDoc(World &w, Plan &p, GDoc &d);
