/* helpers of the demonstrations with a server */
#include "demo_common.h"
#include "sim_server.h"
#include <NodesetLoader/backendOpen62541.h>
#include <NodesetLoader/dataTypes.h>
#include <string>
extern "C" void sim_host_enter(void) {}
extern "C" void sim_host_leave(void) {}
struct Srv {
    UA_Server *s = UA_Server_new();
    int files = 0;
    ~Srv() { const UA_DataTypeArray *t = UA_Server_getConfig(s)->customDataTypes; UA_Server_delete(s); NodesetLoader_cleanupCustomDataTypes(t); }
    bool load(const std::string &body, NodesetLoader_ExtensionInterface *ext = nullptr) {
        std::string f = "srv" + std::to_string(files++) + ".xml";
        char *d = demoDoc(body.c_str()); demoWrite(f.c_str(), d); free(d);
        return NodesetLoader_loadFile(s, f.c_str(), ext);
    }
    static Id id(unsigned ns, uint32_t n) { Id i = Id::n0(n); i.ns = ns; return i; }
    bool has(unsigned ns, uint32_t n) { return s->nodes.count(id(ns, n)) > 0; }
    SrvNode &node(unsigned ns, uint32_t n) { return s->nodes[id(ns, n)]; }
    bool ref(unsigned ns, uint32_t n, uint32_t type, bool fwd, unsigned tns, uint32_t t) { return has(ns, n) && node(ns, n).refs.count({Id::n0(type), fwd, id(tns, t)}) > 0; }
    size_t offers(unsigned ns, uint32_t n) { size_t c = 0; for (auto &o : s->offers) if (o.id == id(ns, n)) c++; return c; }
    std::string value(unsigned ns, uint32_t n) { return sim_value_text(node(ns, n).value); }
};
static std::string nsUris(std::initializer_list<const char *> l) { std::string o = "<NamespaceUris>"; for (auto u : l) o += std::string("<Uri>") + u + "</Uri>"; return o + "</NamespaceUris>"; }
static std::string rel(const char *type, const char *target, bool fwd) { return std::string("<Reference ReferenceType=\"") + type + "\"" + (fwd ? "" : " IsForward=\"false\"") + ">" + target + "</Reference>"; }
static std::string el(const char *cls, const char *id, const std::string &attrs, const std::string &refs, const std::string &rest = "") {
    return std::string("<") + cls + " NodeId=\"" + id + "\" BrowseName=\"1:n\" " + attrs + "><DisplayName>d</DisplayName><References>" + refs + "</References>" + rest + "</" + cls + ">\n";
}
