id="c02-loose-extension"; property="C02"; file="src/NodesetLoader.c"
old='''                 !strcmp(localname, "Extensions"))
        {'''
new='''                 !strcmp(localname, EXTENSIONS) ||
                 !strcmp(localname, EXTENSION))
        {'''
needs="an extension of the whole nodeset (not of a node) which contains elements named like those of a node"
breaks="the contents of a vendor's extension become nodes and aliases"
demo=r'''
int main(void) {
    char *d = demoDoc("<Extensions><Extension><UAObject NodeId=\"i=9\" BrowseName=\"x\"/></Extension></Extensions><UAObject NodeId=\"i=1001\" BrowseName=\"a\"/>");
    demoWrite("a.xml", d); free(d);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
    DemoList n; CHECK(demoAll(l, &n) == 1);
    CHECK(n.cnt && n.n[0]->id.identifier.numeric == 1001);
    NodesetLoader_delete(l);
    return demoFail;
}
'''
