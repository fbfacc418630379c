id="c11-empty-uri"; property="C11"; file="src/NodesetLoader.c"
old='''        Nodeset_newNamespaceFinish(pctx->nodeset, pctx->userContext,
                                   pctx->onCharacters);
        pctx->state = PARSER_STATE_NAMESPACEURIS;
'''
new='''        // nothing to register
        if (pctx->onCharLength > 0)
        {
            Nodeset_newNamespaceFinish(pctx->nodeset, pctx->userContext,
                                       pctx->onCharacters);
        }
        pctx->state = PARSER_STATE_NAMESPACEURIS;
'''
needs="a file with an empty Uri element in front of others"
breaks="the callback is not called for it and the indices of the following ones are shifted"
demo=r'''
int main(void) {
    char *a = demoDoc("<NamespaceUris><Uri></Uri><Uri>k7</Uri></NamespaceUris><UAObject NodeId=\"ns=2;i=1\" BrowseName=\"2:x\"><DisplayName>d</DisplayName></UAObject>");
    demoWrite("a.xml", a);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
    static DemoList n; demoAll(l, &n);
    CHECK(n.cnt == 1 && n.n[0]->id.namespaceIndex == 7 && n.n[0]->browseName.nsIdx == 7);
    NodesetLoader_delete(l); free(a);
    return demoFail;
}
'''
