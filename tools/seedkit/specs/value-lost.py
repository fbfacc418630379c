id="c06-value-lost"; property="C06"; file="backends/open62541/src/import.c"; server=True
old='''    //value is copied by open62541
    UA_StatusCode Status'''
new='''    // the value was converted, release the text early
    ((NL_VariableNode *)(uintptr_t)node)->value = NULL;
    if (node->value != text)
        Value_delete(text);
    UA_StatusCode Status'''
edits=[(file,old,new),(file,'''    if (node->value && node->value->data != NULL)
    {
        const UA_DataType *dataType''','''    NL_Value *text = node->value;
    if (node->value && node->value->data != NULL)
    {
        const UA_DataType *dataType'''),(file,'''static UA_StatusCode getArrayDimensions(''','''void Value_delete(NL_Value *val);

static UA_StatusCode getArrayDimensions(''')]
needs="the server refuses a variable with a value at first and accepts it in a later round"
breaks="a variable which was refused once is added without its value"
demo=r'''
int main() {
    Srv v; int refused = 0;
    v.s->refuse = [&](const Id &i, int cls, size_t) { if (i.num == 9 && refused < 1) { refused++; return true; } return false; };
    std::string rest = "<Value><Int32 xmlns=\"http://opcfoundation.org/UA/2008/02/Types.xsd\">77</Int32></Value>";
    auto var = [&](const char *id) { return el("UAVariable", id, "DataType=\"i=6\"", rel("i=47", "i=85", false) + rel("i=40", "i=63", true), rest); };
    CHECK(v.load(nsUris({"urn:a"}) + var("ns=1;i=8") + var("ns=1;i=9")));
    CHECK(v.has(2, 8)); CHECK(v.has(2, 9));
    CHECK(v.value(2, 9) == v.value(2, 8));
    return demoFail;
}
'''
