id="c11-long-alias"; property="C11"; file="src/AliasList.c"
old='''        if (!strcmp(name, alias->name))'''
new='''        // cheap: the ends are enough to tell names of the same length apart
        size_t len = strlen(name);
        if (len == strlen(alias->name) &&
            !memcmp(name, alias->name, len > 16 ? 16 : len) &&
            (len <= 16 || name[len - 1] == alias->name[len - 1]))'''
needs="two aliases of the same length whose first 16 letters and last letter are equal"
breaks="the second alias is resolved to the node of the first one"
demo=r'''
int main(void) {
    char *d = demoDoc("<Aliases><Alias Alias=\"HasTemperatureSensorA1x\">i=11</Alias><Alias Alias=\"HasTemperatureSensorB2x\">i=12</Alias></Aliases>"
                      "<UAVariable NodeId=\"i=1001\" BrowseName=\"a\" DataType=\"HasTemperatureSensorB2x\"/><UAVariable NodeId=\"i=1002\" BrowseName=\"b\" DataType=\"HasTemperatureSensorA1x\"/>");
    demoWrite("a.xml", d); free(d);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
    DemoList n; CHECK(demoAll(l, &n) == 2);
    for (size_t i = 0; i < n.cnt; i++) CHECK(((NL_VariableNode *)n.n[i])->datatype.identifier.numeric == (n.n[i]->id.identifier.numeric == 1001 ? 12 : 11));
    NodesetLoader_delete(l);
    return demoFail;
}
'''
