id="c14-second-parent"; property="C14"; file="backends/open62541/src/import.c"; server=True
old='''    // brute force, maybe not the best way to do this
    ref = node->hierachicalRefs;
    while (ref)
    {
        UA_NodeId src'''
new='''    ref = node->hierachicalRefs;
    while (ref)
    {
        // the reference to the parent was added together with the node
        if (!ref->isForward && NodesetLoader_isInstanceNode(node))
        {
            ref = ref->next;
            continue;
        }
        UA_NodeId src'''
needs="an instance with two hierarchical parents, the second reference is written only at the child"
breaks="only the reference to one of the parents is present in the server"
demo=r'''
int main() {
    Srv v;
    CHECK(v.load(nsUris({"urn:a"}) + el("UAObject", "ns=1;i=7", "", rel("i=35", "i=85", false) + rel("i=40", "i=58", true)) +
                 el("UAObject", "ns=1;i=8", "", rel("i=35", "i=85", false) + rel("i=35", "ns=1;i=7", false) + rel("i=40", "i=58", true))));
    CHECK(v.has(2, 7)); CHECK(v.has(2, 8));
    CHECK(v.ref(2, 8, 35, false, 0, 85)); CHECK(v.ref(2, 8, 35, false, 2, 7)); CHECK(v.ref(2, 7, 35, true, 2, 8));
    return demoFail;
}
'''
