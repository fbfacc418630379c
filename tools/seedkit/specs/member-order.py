id="c14-member-order"; property="C14"; file="backends/open62541/src/Value.c"; server=True
old='''        NL_Data *memberData = lookupMember(value, m->memberName);
        if (memberData)
        {
            UA_StatusCode'''
new='''        NL_Data *memberData = lookupMember(value, m->memberName);
        // the members come in the order of the definition
        while (next < getMembersSize(value) &&
               value->val.complexData.members[next] != memberData)
        {
            next++;
        }
        if (memberData && next < getMembersSize(value))
        {
            UA_StatusCode'''
edits=[(file,old,new),(file,'''    // there can be less members specified then the type requires
''','''    size_t next = 0;
    // there can be less members specified then the type requires
''')]
needs="a structure whose members are written in another order than that of the definition, or with one left out before others"
breaks="the members behind are not part of the value in the server"
demo=r'''
int main() {
    Srv v;
    auto var = [&](const char *id, const char *body) {
        return el("UAVariable", id, "DataType=\"i=884\"", rel("i=47", "i=85", false) + rel("i=40", "i=63", true),
                  std::string("<Value><ExtensionObject xmlns=\"http://opcfoundation.org/UA/2008/02/Types.xsd\"><TypeId><Identifier>i=885</Identifier></TypeId><Body><Range>") + body + "</Range></Body></ExtensionObject></Value>");
    };
    CHECK(v.load(nsUris({"urn:a"}) + var("ns=1;i=8", "<Low>1</Low><High>2</High>") + var("ns=1;i=9", "<High>2</High><Low>1</Low>") + var("ns=1;i=10", "<High>2</High>") + var("ns=1;i=11", "<Low>0</Low><High>2</High>")));
    CHECK(v.value(2, 8) == v.value(2, 9)); CHECK(v.value(2, 10) == v.value(2, 11));
    return demoFail;
}
'''
