id="c08-arena-keeps-text"; property="C08"; file="src/CharAllocator.c"
old='''            Region_new(getRegionSize(size + arena->current->userSize*2, arena->initialSize));
        if (!newRegion)
        {
            return NULL;
        }
'''
new='''            Region_new(getRegionSize(size + arena->current->userSize*2, arena->initialSize));
        if (!newRegion)
        {
            // no more memory, what was read so far is kept
            return arena->current->userPtr;
        }
'''
wrap=["calloc"]
needs="the allocation of a new region fails while a text which does not fit into the current one is read in several pieces"
breaks="the next piece of the text is written behind the end of the region"
demo=r'''
void *__real_calloc(size_t n, size_t s);
static int arm;
void *__wrap_calloc(size_t n, size_t s) { if (arm && n * s > 500000) return NULL; return __real_calloc(n, s); }
int main(void) {
    size_t len = 1200000; char *t = (char *)malloc(len + 1); memset(t, 'x', len); t[len] = 0;
    char *b = (char *)malloc(len + 1000);
    sprintf(b, "<UAObject NodeId=\"i=900001\" BrowseName=\"x\"><DisplayName>%s</DisplayName></UAObject>", t);
    char *a = demoDoc(b); demoWrite("a.xml", a);
    char *c = demoDoc("<UAObject NodeId=\"i=900002\" BrowseName=\"x\"><DisplayName>d</DisplayName></UAObject>"); demoWrite("c.xml", c);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "c.xml")); // the first region exists
    arm = 1; CHECK(!demoImport(l, "a.xml")); arm = 0;
    CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
    DemoList n; CHECK(demoAll(l, &n) == 2);
    NodesetLoader_delete(l); free(a); free(b); free(c); free(t);
    return demoFail;
}
'''
