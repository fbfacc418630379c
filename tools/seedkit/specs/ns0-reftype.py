id="c05-ns0-reftype"; property="C05"; file="backends/open62541/src/RefServiceImpl.c"; server=True
old='''    return isInContainer(service->nonHierachicalRefs, ref);
'''
new='''    // all of the reference types of namespace 0 are known
    return ref->refType.namespaceIndex == 0 ||
           isInContainer(service->nonHierachicalRefs, ref);
'''
needs="a reference whose type is an id of namespace 0 which the server does not have"
breaks="a file with a reference type that cannot be resolved is loaded and its nodes are added instead of being rejected as a whole"
demo=r'''
int main() {
    Srv v; size_t before = v.s->nodes.size();
    CHECK(!v.load(nsUris({"urn:a"}) + el("UAObject", "ns=1;i=7", "", rel("i=35", "i=85", false) + rel("i=40", "i=58", true) + rel("i=65001", "i=85", true))));
    CHECK(!v.has(2, 7)); CHECK(v.s->nodes.size() == before);
    return demoFail;
}
'''
