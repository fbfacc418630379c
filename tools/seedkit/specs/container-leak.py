id="c08-container-leak"; property="C08"; file="src/nodes/NodeContainer.c"
old='''    if(!container->nodes)
    {
        free(container);
        return NULL;
    }'''
new='''    if(!container->nodes)
    {
        return NULL;
    }'''
needs="the allocation of a container's table fails when a loader is used for the first time"
breaks="the container is leaked"
wrap=["calloc"]
demo=r'''
void *__real_calloc(size_t a, size_t b); static long failAt = -1;
void *__wrap_calloc(size_t a, size_t b) { if (failAt >= 0 && failAt-- == 0) return NULL; return __real_calloc(a, b); }
int main(void) {
    char *a = demoDoc("<NamespaceUris><Uri>k5</Uri></NamespaceUris><UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:x\"><DisplayName>d</DisplayName></UAObject>");
    demoWrite("a.xml", a); free(a);
    for (long k = 0; k < 60; k++) { /* leaks are reported at the end of the process */
        failAt = k;
        NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
        if (l) { demoImport(l, "a.xml"); failAt = -1; NodesetLoader_delete(l); }
        failAt = -1;
    }
    return demoFail;
}
'''
