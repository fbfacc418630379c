id="c09-alias-in-node"; property="C09"; file="src/NodesetLoader.c"
old='''        Nodeset_newAliasFinish(pctx->nodeset, pctx->alias, pctx->onCharacters);
        pctx->state = PARSER_STATE_INIT;
        break;
'''
new='''        Nodeset_newAliasFinish(pctx->nodeset, pctx->alias, pctx->onCharacters);
        // back to where the alias was found
        pctx->state = pctx->prev_state;
        break;
'''
needs="an unknown element inside a node or its references, followed later by an alias"
breaks="the parser continues inside a node which does not exist (any more)"
demo=r'''
int main(void) {
    char *a = demoDoc("<UAObject NodeId=\"i=900001\" BrowseName=\"x\"><DisplayName>d</DisplayName><Unknown/></UAObject>"
        "<Aliases><Alias Alias=\"A\">i=5</Alias></Aliases><UAObject NodeId=\"i=900002\" BrowseName=\"x\"><DisplayName>e</DisplayName></UAObject>");
    demoWrite("a.xml", a);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
    DemoList n; CHECK(demoAll(l, &n) == 2);
    NodesetLoader_delete(l); free(a);
    return demoFail;
}
'''
