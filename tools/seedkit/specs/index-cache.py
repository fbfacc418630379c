id="c11-index-cache"; property="C11"; file="src/Nodeset.c"
old='''    const Namespace *ns =
        NamespaceList_getNamespace(namespaces, id.namespaceIndex);
    if (ns)
    {
        id.namespaceIndex = ns->idx;
    }
    return id;
'''
new='''    // most ids of a file are in the same namespace
    static const NamespaceList *lastList = NULL;
    static UA_UInt16 lastFrom = 0;
    static UA_UInt16 lastTo = 0;
    if (namespaces == lastList && id.namespaceIndex == lastFrom)
    {
        id.namespaceIndex = lastTo;
        return id;
    }
    const Namespace *ns =
        NamespaceList_getNamespace(namespaces, id.namespaceIndex);
    if (ns)
    {
        lastList = namespaces;
        lastFrom = id.namespaceIndex;
        lastTo = (UA_UInt16)ns->idx;
        id.namespaceIndex = ns->idx;
    }
    return id;
'''
needs="two files imported into one loader which list different namespaces at the same position, the first id of the second file using the position the first file used last"
breaks="ids of the second file get the index of a namespace of the first file"
demo=r'''
int main(void) {
    char *a = demoDoc("<NamespaceUris><Uri>k5</Uri></NamespaceUris><UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:x\"><DisplayName>d</DisplayName></UAObject>");
    char *b = demoDoc("<NamespaceUris><Uri>k6</Uri></NamespaceUris><UAObject NodeId=\"ns=1;i=2\" BrowseName=\"1:x\"><DisplayName>d</DisplayName></UAObject>");
    demoWrite("a.xml", a); demoWrite("b.xml", b);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(demoImport(l, "b.xml")); CHECK(NodesetLoader_sort(l));
    static DemoList n; CHECK(demoAll(l, &n) == 2);
    for (size_t i = 0; i < n.cnt; i++) CHECK(n.n[i]->id.namespaceIndex == (n.n[i]->id.identifier.numeric == 1 ? 5 : 6));
    NodesetLoader_delete(l); free(a); free(b);
    return demoFail;
}
'''
