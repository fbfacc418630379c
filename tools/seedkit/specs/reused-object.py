id="c13-reused-object"; property="C13"; file="src/NodesetLoader.c"
edits=[(file,'''            if (pctx->extIf)
            {
                pctx->extensionData = pctx->extIf->newExtension();
            }''','''            // a node has one object
            if (pctx->extIf && !pctx->extensionData)
            {
                pctx->extensionData = pctx->extIf->newExtension();
            }'''),(file,'''    case PARSER_STATE_EXTENSIONS:
        pctx->state = PARSER_STATE_NODE;
        break;
    case PARSER_STATE_DESCRIPTION:
        Nodeset_DescriptionFinish''','''    case PARSER_STATE_EXTENSIONS:
        pctx->extensionData = NULL;
        pctx->state = PARSER_STATE_NODE;
        break;
    case PARSER_STATE_DESCRIPTION:
        Nodeset_DescriptionFinish''')]
needs="a node with more than one Extension element"
breaks="new is called only for the first Extension of a node, the others are reported with an object which was finished"
demo=r'''
static int news, fins; static char objs[8];
static void *nw(void) { return &objs[news++]; }
static void st(void *e, const char *n, int c, const char **a) { (void)e; (void)n; (void)c; (void)a; }
static void en(void *e, const char *n, const char *v) { (void)e; (void)n; (void)v; }
static void fi(void *e) { CHECK(e == &objs[fins]); fins++; }
int main(void) {
    char *d = demoDoc("<UAObject NodeId=\"i=1001\" BrowseName=\"a\"><Extensions><Extension><a/></Extension><Extension><b/></Extension></Extensions></UAObject>"
                      "<UAObject NodeId=\"i=1002\" BrowseName=\"a\"><Extensions><Extension><a/></Extension></Extensions></UAObject>");
    demoWrite("a.xml", d); free(d);
    NodesetLoader_ExtensionInterface x; memset(&x, 0, sizeof x); x.newExtension = nw; x.start = st; x.end = en; x.finish = fi;
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    NL_FileContext c; memset(&c, 0, sizeof c); c.file = "a.xml"; c.addNamespace = demoAddNs; c.extensionHandling = &x;
    CHECK(NodesetLoader_importFile(l, &c)); CHECK(NodesetLoader_sort(l));
    CHECK(news == 3); CHECK(fins == 3);
    NodesetLoader_delete(l);
    return demoFail;
}
'''
