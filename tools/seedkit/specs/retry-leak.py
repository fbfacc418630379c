id="c07-retry-leak"; property="C07"; file="backends/open62541/src/import.c"; server=True
old='''        NodeContainer_delete((*badStatusNodes));
        (*badStatusNodes) = local_badStatusNodes;
        attempt++;
'''
new='''        attempt++;
        if (counterOfAdddedNodesForOneAttempt == 0)
        {
            // nothing was added, the list of the nodes is still the right one
            continue;
        }
        NodeContainer_delete((*badStatusNodes));
        (*badStatusNodes) = local_badStatusNodes;
'''
needs="the server refuses nodes in a round of the retries in which it accepts none"
breaks="the list of the nodes refused in that round is never released"
demo=r'''
int main() {
    { Srv v; int left = 3;
      v.s->refuse = [&](const Id &i, int, size_t) { return i == Srv::id(2, 7) && left-- > 0; };
      CHECK(v.load(nsUris({"urn:a"}) + el("UAObject", "ns=1;i=7", "", rel("i=35", "i=85", false) + rel("i=40", "i=58", true))));
      CHECK(v.has(2, 7)); }
    return demoFail; /* the leak checker does the rest */
}
'''
