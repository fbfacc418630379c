id="c10-keeps-partial"; property="C10"; file="src/NodesetLoader.c"
old='''        loader->logger->log(loader->logger->context,
                            NODESETLOADER_LOGLEVEL_ERROR, "xml parsing error");
        retStatus = false;
'''
new='''        loader->logger->log(loader->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                            "xml parsing error");
        // only the end tag of the last node is missing, keep it
        if (ctx->state == PARSER_STATE_NODE && ctx->node && ctx->node->displayName.text)
        {
            Nodeset_newNodeFinish(ctx->nodeset, ctx->node);
            ctx->node = NULL;
        }
        retStatus = false;
'''
needs="an import fails between two children of a node, behind its display name"
breaks="a node which was not completely read is delivered and the complete one of the repeated import is dropped"
demo=r'''
int main(void) {
    char *a = demoDoc("<UAVariable NodeId=\"i=900001\" BrowseName=\"x\"><DisplayName>d</DisplayName>\n<Description>text</Description><References/></UAVariable>");
    demoWrite("a.xml", a);
    *strstr(a, "<Description>") = 0; demoWrite("cut.xml", a);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(!demoImport(l, "cut.xml")); CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
    DemoList n; CHECK(demoAll(l, &n) == 1);
    CHECK(n.n[0]->description.text && !strcmp(n.n[0]->description.text, "text"));
    NodesetLoader_delete(l); free(a);
    return demoFail;
}
'''
