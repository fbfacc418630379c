id="c09-base64-padding"; property="C09"; file="backends/open62541/src/nodeset_base64.h"; server=True
old='''    if (safeAsciiPtr[len - 1] == '=')
        ++pad;
    if (safeAsciiPtr[len - 2] == '=')
        ++pad;
'''
new='''    while (pad < len && safeAsciiPtr[len - 1 - pad] == '=')
        ++pad;
'''
needs="a ByteString value with at least four padding characters at its end"
breaks="the length of the result is too small, the last block writes behind it"
demo=r'''
int main() {
    Srv v;
    std::string rest = "<Value><ByteString xmlns=\"http://opcfoundation.org/UA/2008/02/Types.xsd\">QUJD====</ByteString></Value>";
    CHECK(v.load(nsUris({"urn:a"}) + el("UAVariable", "ns=1;i=9", "DataType=\"i=15\"", rel("i=47", "i=85", false) + rel("i=40", "i=63", true), rest)));
    CHECK(v.has(2, 9));
    return demoFail;
}
'''
