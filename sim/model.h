// Reference model: what a nodeset description means, computed from the plan alone.
#pragma once
#include "plan.h"
#include "../stub/sim_server.h"
#include <NodesetLoader/NodesetLoader.h>
#include <map>
#include <set>
#include <string>
#include <vector>

struct ERef {
    Id type; bool fwd = true; Id target;
    bool operator<(const ERef &o) const { return std::tie(type, fwd, target) < std::tie(o.type, o.fwd, o.target); }
    bool operator==(const ERef &o) const { return type == o.type && fwd == o.fwd && target == o.target; }
    std::string text() const { return type.text() + (fwd ? " -> " : " <- ") + target.text(); }
};
struct EField { std::string name; Id dataType; int valueRank = 0, value = 0; bool optional = false; };
struct ExtEv { char kind; std::string name; KV attrs; std::string text; }; // n s e f
struct ENode { // expected node, or the snapshot of a delivered one
    Id id; int cls = 0;
    std::map<std::string, std::string> f; // every string / id attribute in canonical form
    std::vector<ERef> refs;               // without the type definition of objects and variables
    std::vector<ERef> hier, nonhier;      // snapshot only
    std::vector<ERef> td;
    Id parent;
    const DocNode *src = nullptr;
    int part = -1;
    int nExt = 0;
    std::string valueExp;                 // expected canonical value in the server
    bool hasValue = false;
    // data types
    bool hasDef = false, isUnion = false, isOptionSet = false, isEnum = false; std::vector<EField> fields;
    std::string text() const;
};
struct EDoc {
    std::vector<std::string> uris;          // in document order
    std::vector<ENode> nodes;               // in document order, duplicates included
    std::vector<std::vector<ExtEv>> exts;   // per node (same index as nodes): event sequence, several extensions concatenated
    std::vector<size_t> uriEnd, nodeEnd;    // byte offset where they are completely in the stream
    std::map<std::string, Id> aliases;
};
bool parseIdText(const std::string &s, Id &out);
// ns: returned index per position (0 = the base namespace)
EDoc expectDoc(const Doc &d, const std::vector<unsigned> &ns, const Rendered *r);
ENode snapshot(const NL_Node *n);
int classOf(const std::string &el);
extern const char *classEl[8];

struct Graph { // sort expectation
    bool unresolved = false, cycle = false;
    bool cycleSoft = false;     // a cycle only if HasEncoding counts as hierarchical, as the loader has it
    std::set<Id> softTypes;     // HasEncoding and its subtypes
    std::map<Id, std::set<Id>> succ;
    std::set<Id> hierTypes, knownTypes;
    bool ok() const { return !unresolved && !cycle; }
};
// nodes: the distinct accepted ones. base: hierarchical and all known reference types of the service in use
Graph analyse(const std::vector<const ENode *> &nodes, const std::set<Id> &baseHier, const std::set<Id> &baseKnown, bool ns0AllKnown, bool encodingSoft = true);
std::set<Id> internalHier();
bool isSubtypeRefToKnown(const ENode &n);
std::string diffNodes(const ENode &exp, const ENode &got, bool refs);
