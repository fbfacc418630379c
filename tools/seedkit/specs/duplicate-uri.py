id="c11-duplicate-uri"; property="C11"; file="backends/open62541/src/ServerContext.c"; server=True
old='''    if (!serverContext)
        return;

    void *newNamespaceIdxMapping =
'''
new='''    if (!serverContext)
        return;

    // the namespace is known already
    for (size_t i = 0; i < serverContext->namespaceCnt; i++)
    {
        if (serverContext->namespaceIdxMapping[i] == serverIdx)
            return;
    }

    void *newNamespaceIdxMapping =
'''
needs="the namespace table of a file lists one URI twice, a further one follows, and a value contains an id or a qualified name with the index of that one"
breaks="ids and qualified names inside values get the wrong namespace index, the other ids of the file are right"
demo=r'''
int main() {
    Srv v;
    CHECK(v.load(nsUris({"urn:a", "urn:a", "urn:b"}) + el("UAVariable", "ns=1;i=7", "DataType=\"i=20\"", rel("i=35", "i=85", false) + rel("i=40", "i=63", true),
        "<Value><QualifiedName xmlns=\"http://opcfoundation.org/UA/2008/02/Types.xsd\"><NamespaceIndex>3</NamespaceIndex><Name>q</Name></QualifiedName></Value>")));
    CHECK(v.has(2, 7)); UA_Variant &val = v.node(2, 7).value;
    CHECK(val.type && val.data && ((UA_QualifiedName *)val.data)->namespaceIndex == 3);
    return demoFail;
}
'''
