id="c14-forward-refs"; property="C14"; file="backends/open62541/src/import.c"; server=True
old='''    // brute force, maybe not the best way to do this
    ref = node->hierachicalRefs;
    while (ref)
    {
        UA_NodeId src = node->id;
'''
new='''    // brute force, maybe not the best way to do this
    ref = node->hierachicalRefs;
    while (ref)
    {
        // a node of the same nodeset brings its parent reference with it
        if (ref->isForward && !NodesetLoader_isInstanceNode(node) &&
            ref->target.namespaceIndex == node->id.namespaceIndex)
        {
            ref = ref->next;
            continue;
        }
        UA_NodeId src = node->id;
'''
needs="a type node states a hierarchical forward reference to a node of its own namespace which does not repeat it"
breaks="the reference is missing in the server"
demo=r'''
int main() {
    Srv v;
    CHECK(v.load(nsUris({"urn:a"}) + el("UAObject", "ns=1;i=8", "", rel("i=35", "i=85", false) + rel("i=40", "i=58", true)) +
                 el("UAObjectType", "ns=1;i=7", "", rel("i=45", "i=58", false) + rel("i=35", "ns=1;i=8", true))));
    CHECK(v.has(2, 7)); CHECK(v.has(2, 8)); CHECK(v.ref(2, 7, 35, true, 2, 8)); CHECK(v.ref(2, 8, 35, false, 2, 7));
    return demoFail;
}
'''
