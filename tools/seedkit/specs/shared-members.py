id="c12-shared-members"; property="C12"; file="backends/open62541/src/DataTypeImporter.c"; server=True
old='''            memcpy(members, parentType->members,
                   parentType->membersSize * sizeof(UA_DataTypeMember));

            for (UA_DataTypeMember *m = members;
                 m != members + parentType->membersSize; m++)
'''
new='''            memcpy(members, parentType->members,
                   parentType->membersSize * sizeof(UA_DataTypeMember));

            // the types of former loads keep their names
            for (UA_DataTypeMember *m = members;
                 m != members + parentType->membersSize &&
                 parentType >= importer->types->types &&
                 parentType < importer->types->types + importer->types->typesSize;
                 m++)
'''
needs="a structure of a second file is derived from a structure of an earlier file"
breaks="two types own the same member names, they are released twice with the types"
demo=r'''
int main() {
    Srv v;
    CHECK(v.load(nsUris({"urn:a"}) + el("UADataType", "ns=1;i=7", "", rel("i=45", "i=22", false), "<Definition Name=\"n\"><Field Name=\"a\" DataType=\"i=6\"/></Definition>")));
    CHECK(v.load(nsUris({"urn:a"}) + el("UADataType", "ns=1;i=8", "", rel("i=45", "ns=1;i=7", false), "<Definition Name=\"n\"><Field Name=\"b\" DataType=\"i=6\"/></Definition>")));
    UA_NodeId a = UA_NODEID_NUMERIC(2, 7), b = UA_NODEID_NUMERIC(2, 8);
    const UA_DataType *x = NodesetLoader_getCustomDataType(v.s, &a), *y = NodesetLoader_getCustomDataType(v.s, &b);
    CHECK(x && y && x->membersSize == 1 && y->membersSize == 2);
    CHECK(x && y && x->membersSize && y->membersSize && x->members[0].memberName != y->members[0].memberName);
    if (demoFail) _Exit(1);
    return demoFail;
}
'''
