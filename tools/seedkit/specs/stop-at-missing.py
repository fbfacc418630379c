id="c14-stop-at-missing"; property="C14"; file="backends/open62541/src/import.c"; server=True
edits=[(file,'''    while (ref)
    {

        UA_NodeId src = node->id;
        UA_ExpandedNodeId target = UA_EXPANDEDNODEID_NULL;
        target.nodeId = ref->target;
        UA_NodeId refType = ref->refType;
        UA_Server_addReference(server, src, refType, target, ref->isForward);
        ref = ref->next;''','''    UA_StatusCode status = UA_STATUSCODE_GOOD;
    while (ref && status != UA_STATUSCODE_BADNODEIDUNKNOWN)
    {

        UA_NodeId src = node->id;
        UA_ExpandedNodeId target = UA_EXPANDEDNODEID_NULL;
        target.nodeId = ref->target;
        UA_NodeId refType = ref->refType;
        status = UA_Server_addReference(server, src, refType, target, ref->isForward);
        ref = ref->next;''')]
needs="a node with a nonhierarchical reference to a node which does not exist and another one written before it"
breaks="the references which follow in the list are not added although both ends exist"
demo=r'''
int main() {
    Srv v;
    CHECK(v.load(nsUris({"urn:a"}) + el("UAObject", "ns=1;i=7", "", rel("i=35", "i=85", false) + rel("i=40", "i=58", true)) +
                 el("UAObject", "ns=1;i=8", "", rel("i=35", "i=85", false) + rel("i=40", "i=58", true) + rel("i=41", "i=2041", true) + rel("i=41", "ns=1;i=555", true) + rel("i=41", "ns=1;i=7", true))));
    CHECK(v.has(2, 8)); CHECK(v.ref(2, 8, 41, true, 0, 2041)); CHECK(v.ref(2, 8, 41, true, 2, 7));
    return demoFail;
}
'''
