id="c01-warning-level"; property="C01"; file="backends/open62541/src/import.c"; server=True
old='''    case NODESETLOADER_LOGLEVEL_ERROR:
        uaLevel = UA_LOGLEVEL_ERROR;
        break;
    case NODESETLOADER_LOGLEVEL_WARNING:
'''
new='''    case NODESETLOADER_LOGLEVEL_ERROR:
        // the server goes on without the nodes
    case NODESETLOADER_LOGLEVEL_WARNING:
'''
needs="a load which fails, in a server whose logger distinguishes the levels"
breaks="a failed load writes warnings only"
demo=r'''
static int errors;
static void lg(void *c, UA_LogLevel l, UA_LogCategory k, const char *m, va_list a) { (void)c; (void)k; (void)m; (void)a; if (l >= UA_LOGLEVEL_ERROR) errors++; }
int main() {
    Srv v; static UA_Logger log; memset(&log, 0, sizeof log); log.log = lg;
    UA_Server_getConfig(v.s)->logging = &log;
    CHECK(v.load(nsUris({"urn:a"}) + el("UAObject", "ns=1;i=7", "", rel("i=35", "i=85", false) + rel("i=40", "i=58", true))));
    CHECK(errors == 0);
    CHECK(!NodesetLoader_loadFile(v.s, "does-not-exist.xml", nullptr));
    CHECK(errors > 0);
    return demoFail;
}
'''
