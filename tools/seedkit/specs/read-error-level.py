id="c01-read-error-level"; property="C01"; file="src/NodesetLoader.c"; wrap=["fopen"]
old='''                            NODESETLOADER_LOGLEVEL_ERROR, "xml parsing error");
'''
new='''                            ferror(f) ? NODESETLOADER_LOGLEVEL_WARNING
                                      : NODESETLOADER_LOGLEVEL_ERROR,
                            "xml parsing error");
'''
needs="reading the file fails with an I/O error after it was opened"
breaks="the failed import does not write an error-level message"
demo=r'''
static int calls, errors;
static ssize_t rd(void *c, char *b, size_t n) {
    if (calls++) { errno = EIO; return -1; }
    const char *t = HEAD; size_t k = strlen(t); memcpy(b, t, k); return (ssize_t)k;
}
FILE *__real_fopen(const char *n, const char *m);
FILE *__wrap_fopen(const char *n, const char *m) {
    if (strcmp(n, "bad.xml")) return __real_fopen(n, m);
    cookie_io_functions_t f; memset(&f, 0, sizeof f); f.read = rd;
    return fopencookie(NULL, m, f);
}
static void lg(void *c, enum NodesetLoader_LogLevel l, const char *m, ...) { if (l == NODESETLOADER_LOGLEVEL_ERROR) errors++; }
int main(void) {
    NodesetLoader_Logger g = {NULL, lg};
    NodesetLoader *l = NodesetLoader_new(&g, NULL);
    CHECK(!demoImport(l, "bad.xml")); CHECK(errors > 0);
    NodesetLoader_delete(l);
    return demoFail;
}
'''
