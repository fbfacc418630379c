id="c11-byte-index"; property="C11"; file="src/Nodeset.c"
old='''        bn.nsIdx = (uint16_t)atoi(&s[0]);'''
new='''        bn.nsIdx = (uint8_t)atoi(&s[0]);'''
needs="a file with more than 255 namespaces"
breaks="the index of a browse name is taken from another position of the table"
demo=r'''
int main(void) {
    char *b = (char *)calloc(1, 40000), *p = b; p += sprintf(p, "<NamespaceUris>");
    for (int i = 1; i <= 300; i++) p += sprintf(p, "<Uri>k%d</Uri>", i + 1000);
    sprintf(p, "</NamespaceUris><UAObject NodeId=\"ns=300;i=1\" BrowseName=\"300:a\"/>");
    char *d = demoDoc(b); demoWrite("a.xml", d); free(d); free(b);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
    DemoList o; CHECK(demoAll(l, &o) == 1);
    CHECK(o.cnt == 1 && o.n[0]->id.namespaceIndex == 1300 && o.n[0]->browseName.nsIdx == 1300);
    NodesetLoader_delete(l);
    return demoFail;
}
'''
