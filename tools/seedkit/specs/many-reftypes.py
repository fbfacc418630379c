id="c04-many-reftypes"; property="C04"; file="src/InternalRefService.c"
old='''    for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
        if (UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i].id))
            return true;
    }
    return false;'''
new='''    for (size_t i = 0; i < service->hierachicalRefsSize && i < MAX_HIERACHICAL_REFS; i++) {
        if (UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i].id))
            return true;
    }
    return false;'''
needs="more than 40 hierarchical reference types in the files of one loader"
breaks="references of further types are not hierarchical, a child can come before its parent and a file cannot be sorted"
demo=r'''
int main(void) {
    char *b = (char *)calloc(1, 60000), *p = b; p += sprintf(p, "<NamespaceUris><Uri>k5</Uri></NamespaceUris>");
    for (int i = 1; i <= 60; i++) p += sprintf(p, "<UAReferenceType NodeId=\"ns=1;i=%d\" BrowseName=\"1:r\"><References><Reference ReferenceType=\"i=45\" IsForward=\"false\">i=35</Reference></References></UAReferenceType>", i);
    p += sprintf(p, "<UAObject NodeId=\"ns=1;i=100\" BrowseName=\"1:c\"><References><Reference ReferenceType=\"ns=1;i=60\" IsForward=\"false\">ns=1;i=101</Reference></References></UAObject>");
    sprintf(p, "<UAObject NodeId=\"ns=1;i=101\" BrowseName=\"1:p\"/>");
    char *d = demoDoc(b); demoWrite("a.xml", d); free(d); free(b);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
    DemoList o; CHECK(demoAll(l, &o) == 62);
    int parent = -1, child = -1;
    for (size_t i = 0; i < o.cnt; i++) { if (o.n[i]->id.identifier.numeric == 100) child = (int)i; if (o.n[i]->id.identifier.numeric == 101) parent = (int)i; }
    CHECK(parent >= 0 && parent < child);
    NodesetLoader_delete(l);
    return demoFail;
}
'''
