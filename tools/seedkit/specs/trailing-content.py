id="c01-trailing-content"; property="C01"; file="src/Parser.c"
old='''        if (xmlParseChunk(ctxt, chars, res, 0))
        {
'''
new='''        if (xmlParseChunk(ctxt, chars, res, 0))
        {
            // the document is complete, there is nothing more to expect
            if (ctxt->instate == XML_PARSER_EPILOG ||
                ctxt->errNo == XML_ERR_DOCUMENT_END)
            {
                xmlFreeParserCtxt(ctxt);
                return 0;
            }
'''
needs="a file with further content behind the end of the root element (a block of the file duplicated, a file appended to itself)"
breaks="the import of a file which is not a well-formed document is reported as successful"
demo=r'''
int main(void) {
    char *a = demoDoc("<NamespaceUris><Uri>k5</Uri></NamespaceUris><UAObject NodeId=\"ns=1;i=1\" BrowseName=\"1:x\"><DisplayName>d</DisplayName></UAObject>");
    demoWrite("a.xml", a);
    char *b = (char *)malloc(2 * strlen(a) + 1); strcpy(b, a); strcat(b, a + strlen(a) - 60); demoWrite("b.xml", b);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(!demoImport(l, "b.xml"));
    NodesetLoader_delete(l); free(a); free(b);
    return demoFail;
}
'''
