id="c06-retry-stops"; property="C06"; file="backends/open62541/src/import.c"; server=True
old='''        NodeContainer_delete((*badStatusNodes));
        (*badStatusNodes) = local_badStatusNodes;
        attempt++;
'''
new='''        NodeContainer_delete((*badStatusNodes));
        (*badStatusNodes) = local_badStatusNodes;
        if (counterOfAdddedNodesForOneAttempt == 0)
        {
            // nothing has changed, the next attempt would not either
            break;
        }
        attempt++;
'''
needs="the server refuses the same nodes in two rounds in a row in which no other node is accepted, and would accept them later"
breaks="the nodes are not offered for the remaining rounds and are missing although the server would have taken them"
demo=r'''
int main() {
    Srv v; int left = 3;
    v.s->refuse = [&](const Id &i, int, size_t) { return i == Srv::id(2, 7) && left-- > 0; };
    CHECK(v.load(nsUris({"urn:a"}) + el("UAObject", "ns=1;i=7", "", rel("i=35", "i=85", false) + rel("i=40", "i=58", true))));
    CHECK(v.has(2, 7)); CHECK(v.offers(2, 7) == 4);
    return demoFail;
}
'''
