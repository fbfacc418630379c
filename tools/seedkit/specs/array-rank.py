id="c12-array-rank"; property="C12"; file="backends/open62541/src/DataTypeImporter.c"; server=True
old='''        member->isArray = node->definition->fields[i].valueRank >= 0;
'''
new='''        // one dimension, otherwise the rank is not an array
        member->isArray = node->definition->fields[i].valueRank == 1;
'''
needs="a structure with a field of more than one dimension, or of one or more dimensions (ValueRank 0)"
breaks="the field is described as a scalar, the type has the wrong layout"
demo=r'''
int main() {
    Srv v;
    CHECK(v.load(nsUris({"urn:a"}) + el("UADataType", "ns=1;i=7", "", rel("i=45", "i=22", false), "<Definition Name=\"n\"><Field Name=\"a\" DataType=\"i=6\" ValueRank=\"1\"/><Field Name=\"b\" DataType=\"i=6\" ValueRank=\"0\"/><Field Name=\"c\" DataType=\"i=6\" ValueRank=\"2\"/><Field Name=\"d\" DataType=\"i=6\"/></Definition>")));
    UA_NodeId a = UA_NODEID_NUMERIC(2, 7);
    const UA_DataType *x = NodesetLoader_getCustomDataType(v.s, &a);
    CHECK(x && x->membersSize == 4);
    if (x && x->membersSize == 4) { CHECK(x->members[0].isArray); CHECK(x->members[1].isArray); CHECK(x->members[2].isArray); CHECK(!x->members[3].isArray); }
    return demoFail;
}
'''
