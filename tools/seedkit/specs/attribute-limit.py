id="c13-attribute-limit"; property="C13"; file="src/NodesetLoader.c"
old='''            pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);
'''
new='''            // qualified ones belong to other schemas
            pctx->extIf->start(pctx->extensionData, localname, prefix ? nb_attributes - (nb_namespaces > 0) : nb_attributes, attributes);
'''
needs="an element with a prefix inside an Extension which declares a namespace and has attributes"
breaks="the last attribute of the element is not reported"
demo=r'''
static int atts; static char last[40];
static void *nw(void) { return &atts; }
static void st(void *e, const char *n, int c, const char **a) { (void)e; (void)n; atts += c; if (c > 0) { size_t l = (size_t)(a[(c - 1) * 5 + 4] - a[(c - 1) * 5 + 3]); if (l < sizeof last) { memcpy(last, a[(c - 1) * 5 + 3], l); last[l] = 0; } } }
static void en(void *e, const char *n, const char *v) { (void)e; (void)n; (void)v; }
static void fi(void *e) { (void)e; }
int main(void) {
    char *d = demoDoc("<UAObject NodeId=\"i=1001\" BrowseName=\"a\"><Extensions><Extension><x:a xmlns:x=\"urn:x\" p=\"1\" q=\"2\"/><b r=\"3\"/></Extension></Extensions></UAObject>");
    demoWrite("a.xml", d); free(d);
    NodesetLoader_ExtensionInterface x; memset(&x, 0, sizeof x); x.newExtension = nw; x.start = st; x.end = en; x.finish = fi;
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    NL_FileContext c; memset(&c, 0, sizeof c); c.file = "a.xml"; c.addNamespace = demoAddNs; c.extensionHandling = &x;
    CHECK(NodesetLoader_importFile(l, &c)); CHECK(NodesetLoader_sort(l));
    CHECK(atts == 3); CHECK(!strcmp(last, "3"));
    NodesetLoader_delete(l);
    return demoFail;
}
'''
