id="c03-static-read-buffer"; property="C03"; file="src/Parser.c"
old="    char chars[1024];\n"; new="    // keep the stack frame small\n    static char chars[1024];\n"
needs="two threads importing at the same time, one preempted between filling the read buffer and handing it to the parser while the other one reads"
breaks="an import delivers parts of another loader's file or fails"
wrap=["xmlParseChunk"]
demo=r'''
int __real_xmlParseChunk(void *c, const char *d, int n, int t);
static int other; static __thread int inOther; static bool otherOk;
static void *second(void *x) { inOther = 1; NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL); otherOk = demoImport(l, "b.xml"); NodesetLoader_delete(l); return x; }
/* the first thread is stopped right before it hands its first block to the parser */
int __wrap_xmlParseChunk(void *c, const char *d, int n, int t) {
    if (!inOther && !other++) { pthread_t th; pthread_create(&th, NULL, second, NULL); pthread_join(th, NULL); }
    return __real_xmlParseChunk(c, d, n, t);
}
int main(void) {
    char *a = demoDoc("<NamespaceUris><Uri>k5</Uri></NamespaceUris><UAObject NodeId=\"ns=1;s=aaaa\" BrowseName=\"1:aaaa\"><DisplayName>first</DisplayName></UAObject>");
    char *b = demoDoc("<NamespaceUris><Uri>k6</Uri></NamespaceUris><UAObject NodeId=\"ns=1;s=bbbb\" BrowseName=\"1:bbbb\"><DisplayName>other</DisplayName></UAObject>");
    demoWrite("a.xml", a); demoWrite("b.xml", b);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(otherOk); CHECK(NodesetLoader_sort(l));
    DemoList n; CHECK(demoAll(l, &n) == 1);
    CHECK(n.cnt == 1 && n.n[0]->displayName.text && !strcmp(n.n[0]->displayName.text, "first"));
    NodesetLoader_delete(l); free(a); free(b);
    return demoFail;
}
'''
