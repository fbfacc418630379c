id="c12-types-by-namespace"; property="C12"; file="backends/open62541/src/customDataType.c"; server=True
old='''        if (types->types)
        {
            for (const UA_DataType *type = types->types;
                 type != types->types + types->typesSize; type++)
            {
                if (UA_NodeId_equal(&type->typeId, typeId))
'''
new='''        // the types of a nodeset have the namespace of the nodeset
        if (types->types && types->types->typeId.namespaceIndex ==
                                typeId->namespaceIndex)
        {
            for (const UA_DataType *type = types->types;
                 type != types->types + types->typesSize; type++)
            {
                if (UA_NodeId_equal(&type->typeId, typeId))
'''
needs="one file defines data types of two namespaces"
breaks="the types of the namespace which is not the one of the first type are not found under their ids"
demo=r'''
int main() {
    Srv v;
    CHECK(v.load(nsUris({"urn:a", "urn:b"}) + el("UADataType", "ns=1;i=7", "", rel("i=45", "i=22", false), "<Definition Name=\"n\"><Field Name=\"a\" DataType=\"i=6\"/></Definition>") +
                 el("UADataType", "ns=2;i=8", "", rel("i=45", "i=22", false), "<Definition Name=\"n\"><Field Name=\"a\" DataType=\"i=12\"/></Definition>")));
    UA_NodeId a = UA_NODEID_NUMERIC(2, 7), b = UA_NODEID_NUMERIC(3, 8);
    CHECK(NodesetLoader_getCustomDataType(v.s, &a)); CHECK(NodesetLoader_getCustomDataType(v.s, &b));
    return demoFail;
}
'''
