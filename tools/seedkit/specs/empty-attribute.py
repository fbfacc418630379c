id="c02-empty-attribute"; property="C02"; file="src/Nodeset.c"
old='''        size_t size = (size_t)(value_end - value_start);
'''
new='''        size_t size = (size_t)(value_end - value_start);
        // there is nothing to copy
        if (size == 0)
            break;
'''
needs="an attribute which is present and empty, e.g. Locale, EventNotifier or the name of a field"
breaks="an empty attribute is delivered as missing, or with the value it has by default"
demo=r'''
int main(void) {
    char *d = demoDoc("<UAObject NodeId=\"i=1001\" BrowseName=\"a\" EventNotifier=\"\"><DisplayName Locale=\"\">x</DisplayName></UAObject>");
    demoWrite("a.xml", d); free(d);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
    DemoList o; CHECK(demoAll(l, &o) == 1);
    if (o.cnt == 1) {
        const char *loc = o.n[0]->displayName.locale, *ev = ((NL_ObjectNode *)o.n[0])->eventNotifier;
        CHECK(loc && !*loc); CHECK(ev && !*ev);
    }
    NodesetLoader_delete(l);
    return demoFail;
}
'''
