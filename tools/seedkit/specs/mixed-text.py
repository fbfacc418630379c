id="c13-mixed-text"; property="C13"; file="src/NodesetLoader.c"
old='''    pctx->onCharacters = NULL;
    pctx->onCharLength = 0;
}

static void OnEndElementNs('''
new='''    // the text of an extension belongs to the handlers
    if (pctx->state != PARSER_STATE_EXTENSION || pctx->unknown_depth == 0)
    {
        pctx->onCharacters = NULL;
        pctx->onCharLength = 0;
    }
}

static void OnEndElementNs('''
needs="text in front of an element inside an Extension"
breaks="the end handler of that element gets the text in front of it, too"
demo=r'''
static char got[1000];
static void *xnew(void) { return got; }
static void xstart(void *d, const char *n, int c, const char **a) {}
static void xend(void *d, const char *n, const char *v) { if (n[0] == 'b') snprintf(got, sizeof got, "[%s]", v ? v : ""); }
static void xfin(void *d) {}
int main(void) {
    char *a = demoDoc("<UAObject NodeId=\"i=900001\" BrowseName=\"x\"><DisplayName>d</DisplayName><Extensions><Extension><a>one<b>two</b></a></Extension></Extensions></UAObject>");
    demoWrite("a.xml", a);
    NodesetLoader_ExtensionInterface x; memset(&x, 0, sizeof x);
    x.newExtension = xnew; x.start = xstart; x.end = xend; x.finish = xfin;
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    NL_FileContext c; memset(&c, 0, sizeof c); c.file = "a.xml"; c.addNamespace = demoAddNs; c.extensionHandling = &x;
    CHECK(NodesetLoader_importFile(l, &c));
    CHECK(!strcmp(got, "[two]"));
    NodesetLoader_delete(l); free(a);
    return demoFail;
}
'''
