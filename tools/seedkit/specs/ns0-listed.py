id="c11-ns0-listed"; property="C11"; file="src/NamespaceList.c"
edits=[(file,'''    list->data[list->size - 1].name = uri;
    list->data[list->size - 1].idx = globalIdx;
    return''','''    list->data[list->size - 1].name = uri;
    list->data[list->size - 1].idx = globalIdx;
    // the base namespace can be part of the table, too
    if (globalIdx == 0)
        list->size--;
    return'''),(file,'''#include "NamespaceList.h"
''','''#include "NamespaceList.h"
''')]
edits=edits[:1]
needs="a file which lists the base namespace explicitly before other namespaces"
breaks="the positions behind the base namespace are shifted by one"
demo=r'''
int main(void) {
    char *d = demoDoc("<NamespaceUris><Uri>k0</Uri><Uri>k5</Uri></NamespaceUris><UAObject NodeId=\"ns=2;i=1\" BrowseName=\"2:a\"/><UAObject NodeId=\"ns=1;i=2\" BrowseName=\"1:b\"/>");
    demoWrite("a.xml", d); free(d);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
    DemoList o; CHECK(demoAll(l, &o) == 2);
    for (size_t i = 0; i < o.cnt; i++)
        CHECK(o.n[i]->id.namespaceIndex == (o.n[i]->id.identifier.numeric == 1 ? 5 : 0) && o.n[i]->browseName.nsIdx == o.n[i]->id.namespaceIndex);
    NodesetLoader_delete(l);
    return demoFail;
}
'''
