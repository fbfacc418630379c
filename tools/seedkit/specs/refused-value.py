id="c07-refused-value"; property="C07"; file="backends/open62541/src/import.c"; server=True
old='''    UA_Variant_clear(&attr.value);
    UA_free(attr.arrayDimensions);
    return Status;'''
new='''    if (Status == UA_STATUSCODE_GOOD)
    {
        UA_Variant_clear(&attr.value);
    }
    UA_free(attr.arrayDimensions);
    return Status;'''
needs="the server refuses a variable which has a value"
breaks="the value of a refused variable is never released"
wrap=["malloc","calloc","realloc","free"]
demo=r'''
static long live; 
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); live += p != nullptr; return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); live += p != nullptr; return p; }
void *__wrap_realloc(void *o, size_t n) { void *p = __real_realloc(o, n); live += !o && p; return p; }
void __wrap_free(void *p) { live -= p != nullptr; __real_free(p); } }
static long run(bool refuse) {
    long before = live;
    {
        Srv v;
        v.s->refuse = [&](const Id &i, int cls, size_t) { return refuse && i.num == 9; };
        std::string rest = "<Value><String xmlns=\"http://opcfoundation.org/UA/2008/02/Types.xsd\">text</String></Value>";
        v.load(nsUris({"urn:a"}) + el("UAVariable", "ns=1;i=9", "DataType=\"i=12\"", rel("i=47", "i=85", false) + rel("i=40", "i=63", true), rest));
    }
    return live - before;
}
int main() {
    run(false); run(true);
    CHECK(run(true) == run(false));
    return demoFail;
}
'''
