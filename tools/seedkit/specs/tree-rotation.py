id="c04-tree-rotation"; property="C04"; file="src/Sort.c"
old='''                            r->left = p->right;
                            p->right = r;
                            s->right = p->left;'''
new='''                            r->left = NULL;
                            p->right = r;
                            s->right = p->left;'''
needs="node ids added in an order which causes a double rotation to the left at a node whose middle subtree is not empty"
breaks="a node drops out of the search tree: it is not delivered, or an identical node is accepted again"
demo=r'''
int main(void) {
    /* all arrival orders of a few random permutations */
    unsigned s = 12345; 
    for (int round = 0; round < 60 && !demoFail; round++) {
        int id[24]; for (int i = 0; i < 24; i++) id[i] = i + 1;
        for (int i = 23; i > 0; i--) { s = s * 1103515245u + 12345u; int j = (int)((s >> 16) % (unsigned)(i + 1)); int t = id[i]; id[i] = id[j]; id[j] = t; }
        char body[8000] = "<NamespaceUris><Uri>k5</Uri></NamespaceUris>";
        for (int i = 0; i < 24; i++) sprintf(body + strlen(body), "<UAObject NodeId=\"ns=1;i=%d\" BrowseName=\"1:x\"><DisplayName>d</DisplayName></UAObject>\n", id[i]);
        char *a = demoDoc(body); demoWrite("a.xml", a); free(a);
        NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
        CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
        DemoList n; CHECK(demoAll(l, &n) == 24 && n.cnt == 24);
        NodesetLoader_delete(l);
    }
    return demoFail;
}
'''
