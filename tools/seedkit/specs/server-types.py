id="c03-server-types"; property="C03"; file="backends/open62541/src/customDataType.c"; server=True
old='''    UA_ServerConfig *config = UA_Server_getConfig(server);
    const UA_DataTypeArray *types = config->customDataTypes;
    return findCustomDataType(typeId, types);
'''
new='''    // this is called for every value
    static UA_NodeId lastId;
    static const UA_DataType *lastType = NULL;
    if (lastType && UA_NodeId_equal(&lastId, typeId) &&
        typeId->identifierType == UA_NODEIDTYPE_NUMERIC)
    {
        return lastType;
    }
    UA_ServerConfig *config = UA_Server_getConfig(server);
    const UA_DataTypeArray *types = config->customDataTypes;
    lastType = findCustomDataType(typeId, types);
    lastId = *typeId;
    return lastType;
'''
needs="two servers in one process, alive at the same time or after each other, whose types have the same id but are different"
breaks="a value is decoded with the type of another server, which may be deleted already"
demo=r'''
#include <new>
static std::string type(const char *f) { return el("UADataType", "ns=1;i=7", "", rel("i=45", "i=22", false), std::string("<Definition Name=\"n\"><Field Name=\"") + f + "\" DataType=\"i=6\"/></Definition>"); }
int main() {
    UA_NodeId a = UA_NODEID_NUMERIC(2, 7);
    Srv v, w;
    CHECK(v.load(nsUris({"urn:a"}) + type("f1")));
    CHECK(w.load(nsUris({"urn:a"}) + type("f2")));
    for (Srv *k : {&v, &w}) {
        const UA_DataType *x = NodesetLoader_getCustomDataType(k->s, &a);
        bool mine = false; // only pointers are compared
        for (const UA_DataTypeArray *t = UA_Server_getConfig(k->s)->customDataTypes; t; t = t->next) for (size_t j = 0; j < t->typesSize; j++) if (&t->types[j] == x) mine = true;
        CHECK(mine);
    }
    return demoFail;
}
'''
