id="c04-unresolved-once"; property="C04"; file="src/Nodeset.c"
old='''            UA_String_clear(&nodeIdStr);
            return false;
        }
    }
'''
new='''            UA_String_clear(&nodeIdStr);
            // do not report the nodes again
            nodeset->nodesWithUnknownRefs->size = 0;
            return false;
        }
    }
'''
needs="sort is called again after it failed because of a reference type that is not known"
breaks="the second sort reports success although the type of a reference is still not resolvable"
demo=r'''
int main(void) {
    char *a = demoDoc("<NamespaceUris><Uri>k5</Uri></NamespaceUris><UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:x\"><DisplayName>d</DisplayName><References><Reference ReferenceType=\"ns=1;i=77\">i=85</Reference></References></UAObject>");
    demoWrite("a.xml", a);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(!NodesetLoader_sort(l)); CHECK(!NodesetLoader_sort(l));
    NodesetLoader_delete(l); free(a);
    return demoFail;
}
'''
