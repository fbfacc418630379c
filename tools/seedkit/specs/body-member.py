id="c02-body-member"; property="C02"; file="src/Value.c"
old='''    case PARSERSTATE_DATA:
        if (!val->ctx->currentData)
        {
            setData'''
new='''    case PARSERSTATE_DATA:
        // a further element of the body
        if (!val->ctx->currentData || (val->isExtensionObject && !strcmp(name, "Body")))
        {
            setData'''
needs="a value of a structure which has a member named Body"
breaks="the members read before are dropped, the value consists of the member"
demo=r'''
int main(void) {
    char *d = demoDoc("<UAVariable NodeId=\"i=1001\" BrowseName=\"a\"><Value><ExtensionObject><TypeId><Identifier>i=300</Identifier></TypeId><Body><Mail><To>me</To><Body>text</Body></Mail></Body></ExtensionObject></Value></UAVariable>");
    demoWrite("a.xml", d); free(d);
    NodesetLoader *l = NodesetLoader_new(&demoLogger, NULL);
    CHECK(demoImport(l, "a.xml")); CHECK(NodesetLoader_sort(l));
    DemoList n; CHECK(demoAll(l, &n) == 1);
    const NL_Value *v = n.cnt ? ((NL_VariableNode *)n.n[0])->value : NULL;
    CHECK(v && v->data && !strcmp(v->data->name, "Mail"));
    if (!demoFail) {
        CHECK(v->data->type == DATATYPE_COMPLEX && v->data->val.complexData.membersSize == 2);
        if (!demoFail) CHECK(!strcmp(v->data->val.complexData.members[1]->name, "Body") && !strcmp(v->data->val.complexData.members[1]->val.primitiveData.value, "text"));
    }
    NodesetLoader_delete(l);
    return demoFail;
}
'''
