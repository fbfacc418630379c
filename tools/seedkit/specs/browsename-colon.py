id="c02-browsename-colon"; property="C02"; file="src/Nodeset.c"
old='''    char *bnName = strchr(s, ':');
'''
new='''    // the name is what follows the namespace index
    char *bnName = strrchr(s, ':');
'''
needs="a browse name which contains a colon after the one that ends the namespace index"
breaks="the first part of the name is lost"
demo=r'''
int main(void) {
    char *a = demoDoc("<NamespaceUris><Uri>k5</Uri></NamespaceUris><UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:urn:x\"><DisplayName>d</DisplayName></UAObject>");
    demoWrite("a.xml", a);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
    static DemoList n; demoAll(l, &n);
    CHECK(n.cnt == 1 && n.n[0]->browseName.nsIdx == 5 && !strcmp(n.n[0]->browseName.name, "urn:x"));
    NodesetLoader_delete(l); free(a);
    return demoFail;
}
'''
