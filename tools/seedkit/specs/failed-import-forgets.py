id="c10-failed-import-forgets"; property="C10"; file="src/NodesetLoader.c"
old='''    free(ctx);
    if (f)
    {
        fclose(f);
    }
    return retStatus;
'''
new='''    free(ctx);
    if (!f)
    {
        return retStatus;
    }
    // a file which cannot be read to its end must not leave traces
    if (!retStatus)
    {
        Nodeset_cleanup(loader->nodeset);
        loader->nodeset = NULL;
    }
    fclose(f);
    return retStatus;
'''
needs="an import into a loader fails after an earlier import into the same loader succeeded"
breaks="the nodes of the earlier import are gone"
demo=r'''
int main(void) {
    char *a = demoDoc("<NamespaceUris><Uri>k5</Uri></NamespaceUris><UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:x\"><DisplayName>d</DisplayName></UAObject>");
    char *b = demoDoc("<NamespaceUris><Uri>k6</Uri></NamespaceUris><UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:x\"><DisplayName>d</DisplayName></UAObject>");
    demoWrite("a.xml", a); b[strlen(b) - 20] = 0; demoWrite("b.xml", b);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(!demoImport(l, "b.xml")); CHECK(NodesetLoader_sort(l));
    static DemoList n; demoAll(l, &n); bool found = false;
    for (size_t i = 0; i < n.cnt; i++) if (n.n[i]->id.namespaceIndex == 5) found = true;
    CHECK(found);
    NodesetLoader_delete(l); free(a); free(b);
    return demoFail;
}
'''
