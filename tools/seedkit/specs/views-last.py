id="c06-views-last"; property="C06"; file="backends/open62541/src/import.c"; server=True
edits=[(file,'''        previous_loop_badStatusNodes_size = badStatusNodes->size;
    }

    // second chance algorithm
    if (badStatusNodes->size != 0)
    {
''','''        previous_loop_badStatusNodes_size = badStatusNodes->size;

    // second chance algorithm, a view is the parent of nothing
    if (badStatusNodes->size != 0 && classToImport == NODECLASS_VARIABLE)
    {
'''),(file,'''                    "imported after attempts: %zu", numberOfAllAddedNodes);
    }

''','''                    "imported after attempts: %zu", numberOfAllAddedNodes);
    }
        context.problemNodes = badStatusNodes;
    }

''')]
needs="the server refuses a view once, or an object whose parent is a view"
breaks="a refused view is never offered again, a node below a view is not retried after the view was added"
demo=r'''
int main() {
    Srv v; int refused = 0;
    v.s->refuse = [&](const Id &i, int cls, size_t) { if (i.num == 9 && refused < 2) { refused++; return true; } return false; };
    CHECK(v.load(nsUris({"urn:a"}) + el("UAView", "ns=1;i=9", "", rel("i=35", "i=87", false)) + el("UAObject", "ns=1;i=8", "", rel("i=35", "i=85", false) + rel("i=40", "i=58", true))));
    CHECK(v.has(2, 9)); CHECK(v.has(2, 8)); CHECK(v.offers(2, 9) == 3);
    return demoFail;
}
'''
