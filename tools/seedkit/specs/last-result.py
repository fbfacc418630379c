id="c05-last-result"; property="C05"; file="src/Nodeset.c"; server=True
edits=[(file,'''    for (size_t i = 0; i < nodeset->nodesWithUnknownRefs->size; i++)
    {
        bool result = lookupUnknownReferences(''','''    bool result = true;
    for (size_t i = 0; i < nodeset->nodesWithUnknownRefs->size; i++)
    {
        // report all of the nodes, not only the first one
        result = lookupUnknownReferences('''),(file,'''            UA_String_clear(&nodeIdStr);
            return false;
        }
    }
''','''            UA_String_clear(&nodeIdStr);
        }
    }
    if (!result)
    {
        return false;
    }
''')]
needs="a node with an unresolvable reference type is followed by one whose reference type is defined later in the file"
breaks="the load of a file with an unresolvable reference type succeeds and changes the server"
demo=r'''
int main() {
    Srv v; size_t before = v.s->nodes.size();
    CHECK(!v.load(nsUris({"urn:a"}) + el("UAObject", "ns=1;i=7", "", rel("i=35", "i=85", false) + rel("i=40", "i=58", true) + rel("ns=1;i=99", "i=85", true)) +
                  el("UAObject", "ns=1;i=8", "", rel("i=35", "i=85", false) + rel("i=40", "i=58", true) + rel("ns=1;i=50", "i=84", true)) +
                  el("UAReferenceType", "ns=1;i=50", "", rel("i=45", "i=32", false))));
    CHECK(v.s->nodes.size() == before);
    return demoFail;
}
'''
