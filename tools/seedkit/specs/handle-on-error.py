id="c07-handle-on-error"; property="C07"; file="src/NodesetLoader.c"
old='''    if (f)
    {
        fclose(f);
    }
    return retStatus;
'''
new='''    if (f && retStatus)
    {
        fclose(f);
    }
    return retStatus;
'''
needs="an import which fails after the file was opened (truncated or malformed file, read error)"
breaks="the file handle is never closed"
wrap=["fopen","fclose"]
demo=r'''
FILE *__real_fopen(const char *n, const char *m); int __real_fclose(FILE *f);
static int openFiles;
FILE *__wrap_fopen(const char *n, const char *m) { FILE *f = __real_fopen(n, m); if (f) openFiles++; return f; }
int __wrap_fclose(FILE *f) { openFiles--; return __real_fclose(f); }
int main(void) {
    char *a = demoDoc("<NamespaceUris><Uri>k5</Uri></NamespaceUris><UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:x\"><DisplayName>d</DisplayName></UAObject>");
    demoWrite("a.xml", a); a[strlen(a) - 30] = 0; demoWrite("b.xml", a); openFiles = 0;
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(!demoImport(l, "b.xml"));
    NodesetLoader_delete(l); free(a);
    CHECK(openFiles == 0);
    return demoFail;
}
'''
