id="c13-nested-extension"; property="C13"; file="src/NodesetLoader.c"
old='''        if (!strcmp(localname, EXTENSION) && pctx->unknown_depth == 0)
        {
            if (pctx->extIf)
            {
                pctx->extIf->finish(pctx->extensionData);
                pctx->node->extension = pctx->extensionData;
            }
            pctx->state = PARSER_STATE_EXTENSIONS;
        }
'''
new='''        // the element which closes the extension
        if (!strcmp(localname, EXTENSION) && pctx->unknown_depth <= 1)
        {
            if (pctx->extIf)
            {
                pctx->extIf->finish(pctx->extensionData);
                pctx->node->extension = pctx->extensionData;
            }
            pctx->unknown_depth = 0;
            pctx->state = PARSER_STATE_EXTENSIONS;
        }
'''
needs="the content of an Extension element has an element named Extension at its top level"
breaks="the handlers are finished at the inner end tag, the rest of the extension is not reported"
demo=r'''
static char logText[1000];
static void *xnew(void) { strcat(logText, "N"); return logText; }
static void xstart(void *d, const char *n, int c, const char **a) { strcat(logText, "<"); strcat(logText, n); }
static void xend(void *d, const char *n, const char *v) { strcat(logText, ">"); strcat(logText, n); }
static void xfin(void *d) { strcat(logText, "F"); }
int main(void) {
    char *a = demoDoc("<UAObject NodeId=\"i=900001\" BrowseName=\"x\"><DisplayName>d</DisplayName><Extensions><Extension><Extension>t</Extension><a/></Extension></Extensions></UAObject>");
    demoWrite("a.xml", a);
    NodesetLoader_ExtensionInterface x; memset(&x, 0, sizeof x);
    x.newExtension = xnew; x.start = xstart; x.end = xend; x.finish = xfin;
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    NL_FileContext c; memset(&c, 0, sizeof c); c.file = "a.xml"; c.addNamespace = demoAddNs; c.extensionHandling = &x;
    CHECK(NodesetLoader_importFile(l, &c));
    CHECK(!strcmp(logText, "N<Extension>Extension<a>aF"));
    NodesetLoader_delete(l); free(a);
    return demoFail;
}
'''
