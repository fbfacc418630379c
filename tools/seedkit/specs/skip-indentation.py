id="c02-skip-indentation"; property="C02"; file="src/NodesetLoader.c"
old='''    if (pctx->onCharacters == NULL)
    {
        char *newValue ='''
new='''    if (pctx->onCharacters == NULL)
    {
        // nothing but the indentation of the next element
        int blank = 0;
        while (blank < len && (ch[blank] == ' ' || ch[blank] == '\\n' ||
                               ch[blank] == '\\r' || ch[blank] == '\\t'))
        {
            blank++;
        }
        if (blank == len)
        {
            return;
        }
        char *newValue ='''
needs="a text whose first parser event consists of white space only: leading white space followed by an entity, or a text cut after its leading white space"
breaks="the leading white space of the text is lost"
demo=r'''
int main(void) {
    char *a = demoDoc("<NamespaceUris><Uri>k5</Uri></NamespaceUris><UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:x\"><DisplayName>  &amp; more</DisplayName><Description>plain text</Description></UAObject>");
    demoWrite("a.xml", a);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
    DemoList n; CHECK(demoAll(l, &n) == 1);
    CHECK(n.cnt == 1 && n.n[0]->displayName.text && !strcmp(n.n[0]->displayName.text, "  & more"));
    CHECK(n.cnt == 1 && n.n[0]->description.text && !strcmp(n.n[0]->description.text, "plain text"));
    NodesetLoader_delete(l); free(a);
    return demoFail;
}
'''
