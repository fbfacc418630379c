/* Simulated open62541 server: C++ view used by the simulator's oracles. */
#ifndef SIM_SERVER_H
#define SIM_SERVER_H
#include <open62541/server.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>

/* allocation domains: while the depth is > 0 the code running is the simulator's own or the server's, so
 * no allocation fault is injected there and blocks are not counted as the library's */
extern "C" void sim_host_enter(void);
extern "C" void sim_host_leave(void);
struct HostScope { HostScope() { sim_host_enter(); } ~HostScope() { sim_host_leave(); } };

struct Id {
    unsigned ns = 0;
    int type = 0; /* UA_NodeIdType */
    uint32_t num = 0;
    std::string str; /* string, guid (16 bytes) or opaque */
    bool operator<(const Id &o) const { return std::tie(ns, type, num, str) < std::tie(o.ns, o.type, o.num, o.str); }
    bool operator==(const Id &o) const { return ns == o.ns && type == o.type && num == o.num && str == o.str; }
    bool operator!=(const Id &o) const { return !(*this == o); }
    bool isNull() const;
    std::string text() const;
    static Id of(const UA_NodeId &n);
    static Id n0(uint32_t n) { Id i; i.num = n; return i; }
};
struct SrvRef {
    Id type; bool fwd; Id target;
    bool operator<(const SrvRef &o) const { return std::tie(type, fwd, target) < std::tie(o.type, o.fwd, o.target); }
    bool operator==(const SrvRef &o) const { return type == o.type && fwd == o.fwd && target == o.target; }
};
struct SrvNode {
    Id id;
    int cls = 0;
    unsigned bnNs = 0; std::string bnName;
    std::string dnLoc, dnText, deLoc, deText, invLoc, invText;
    bool isAbstract = false, symmetric = false, containsNoLoops = false, executable = false, userExecutable = false, historizing = false;
    int eventNotifier = 0, accessLevel = 0, userAccessLevel = 0, valueRank = 0;
    double minSampling = 0;
    Id dataType;
    std::vector<uint32_t> arrayDims;
    UA_Variant value;
    void *context = nullptr;
    std::set<SrvRef> refs;
    SrvNode() { UA_Variant_init(&value); }
};
struct Offer { Id id; int cls; UA_StatusCode result; bool injected; };
struct SrvCont { Id node, type; int direction = 0; bool subtypes = false; unsigned classMask = 0, resultMask = 0; size_t max = 0, offset = 0; };
struct UA_Server {
    std::map<std::string, SrvCont> continuations; unsigned contSeq = 0;
    std::map<Id, SrvNode> nodes;
    std::vector<std::string> namespaces;
    UA_ServerConfig config;
    UA_Logger logger;
    std::vector<Offer> offers;
    uint32_t freshId = 50000;
    /* fault seams */
    std::function<bool(const Id &, int cls, size_t offerIndex)> refuse;      /* true: refuse this offer for now */
    std::function<bool(const Id &, const Id &, const Id &, bool)> refuseRef; /* true: refuse this reference */
    std::vector<std::pair<std::string, unsigned>> nsCalls; /* every namespace registration */
    struct RefCall { Id src, type, target; bool fwd; bool refused; };
    std::vector<RefCall> refCalls; /* every reference offered */
    std::function<void()> event; /* the host gets control */
    uint64_t apiCalls = 0;
    uint64_t browseCalls = 0;
};
/* canonical text of a stored value (recursive, member by member through its data type) */
std::string sim_value_text(const UA_Variant &v);
std::string sim_node_text(const SrvNode &n, bool withContext);
#endif
