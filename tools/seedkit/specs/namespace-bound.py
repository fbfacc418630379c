id="c09-namespace-bound"; property="C09"; file="src/NamespaceList.c"
old="    if((size_t)relativeIndex >=list->size)\n"; new="    if((size_t)relativeIndex > list->size)\n"
needs="a damaged file with an id or name whose namespace index is exactly one beyond the listed namespaces"
breaks="the translation reads behind the end of the namespace table"
demo=r'''
int main(void) {
    char *a = demoDoc("<NamespaceUris><Uri>k5</Uri></NamespaceUris><UAObject NodeId=\"ns=2;i=1\" BrowseName=\"1:x\"><DisplayName>d</DisplayName></UAObject>");
    demoWrite("a.xml", a); free(a);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml"));
    NodesetLoader_delete(l);
    return demoFail;
}
'''
