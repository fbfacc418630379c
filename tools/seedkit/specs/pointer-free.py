id="c12-pointer-free"; property="C12"; file="backends/open62541/src/DataTypeImporter.c"; server=True
old='''        type->pointerFree = type->pointerFree && memberType->pointerFree;
'''
new='''        if (!tm->isOptional)
            type->pointerFree = memberType->pointerFree;
'''
needs="a structure in which a member with a pointer (a String) is followed by one without"
breaks="the type counts as free of pointers, its values are copied without the strings and share them"
demo=r'''
int main() {
    Srv v;
    CHECK(v.load(nsUris({"urn:a"}) + el("UADataType", "ns=1;i=7", "", rel("i=45", "i=22", false), "<Definition Name=\"n\"><Field Name=\"a\" DataType=\"i=6\"/><Field Name=\"b\" DataType=\"i=12\"/></Definition>")
        + el("UADataType", "ns=1;i=8", "", rel("i=45", "i=22", false), "<Definition Name=\"n\"><Field Name=\"a\" DataType=\"i=12\"/><Field Name=\"b\" DataType=\"i=6\"/></Definition>")
        + el("UADataType", "ns=1;i=9", "", rel("i=45", "i=22", false), "<Definition Name=\"n\"><Field Name=\"a\" DataType=\"i=6\"/><Field Name=\"b\" DataType=\"i=6\"/></Definition>")));
    UA_NodeId a = UA_NODEID_NUMERIC(2, 7), b = UA_NODEID_NUMERIC(2, 8), c = UA_NODEID_NUMERIC(2, 9);
    const UA_DataType *x = NodesetLoader_getCustomDataType(v.s, &a), *y = NodesetLoader_getCustomDataType(v.s, &b), *z = NodesetLoader_getCustomDataType(v.s, &c);
    CHECK(x && y && z);
    if (x && y && z) { CHECK(!x->pointerFree); CHECK(!y->pointerFree); CHECK(z->pointerFree); }
    return demoFail;
}
'''
