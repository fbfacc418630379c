id="c03-shared-browse"; property="C03"; file="backends/open62541/src/RefServiceImpl.c"; server=True
old='''    UA_BrowseDescription bd;
    UA_BrowseDescription_init(&bd);
    bd.browseDirection = UA_BROWSEDIRECTION_FORWARD;
'''
new='''    // the type hierachy can be deep, keep the description off the stack
    static UA_BrowseDescription bd;
    UA_BrowseDescription_init(&bd);
    bd.browseDirection = UA_BROWSEDIRECTION_FORWARD;
'''
wrap=["UA_Server_browse"]
needs="two threads loading into different servers, one preempted between describing what to browse and the browse call"
breaks="the reference types of a server are classified wrongly, a good file is not loaded"
demo=r'''
extern "C" UA_BrowseResult __real_UA_Server_browse(UA_Server *s, UA_UInt32 m, const UA_BrowseDescription *bd);
static int other; static __thread int inOther; static bool otherOk;
static std::string body(const char *ns) { return nsUris({ns}) + el("UAObject", "ns=1;i=7", "", rel("i=35", "i=85", false) + rel("i=40", "i=58", true)); }
static void *second(void *x) { inOther = 1; Srv v; otherOk = v.load(body("urn:b")) && v.has(2, 7); return x; }
/* the first thread is stopped right at its first browse call */
extern "C" UA_BrowseResult __wrap_UA_Server_browse(UA_Server *s, UA_UInt32 m, const UA_BrowseDescription *bd) {
    if (!inOther && !other++) { pthread_t th; pthread_create(&th, NULL, second, NULL); pthread_join(th, NULL); }
    return __real_UA_Server_browse(s, m, bd);
}
int main() {
    { Srv v; CHECK(v.load(body("urn:a"))); CHECK(otherOk); CHECK(v.has(2, 7)); CHECK(v.ref(0, 85, 35, true, 2, 7)); }
    return demoFail;
}
'''
