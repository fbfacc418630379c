/* Simulated open62541 type system (see types.h). Allocation goes through the
 * simulator's allocator like the loader's own (symbols are redirected when
 * this file is built), so allocation faults and leak accounting cover it. */
#include <open62541/types.h>
#include <open62541/types_generated.h>
#include <open62541/server.h>
#include <math.h>

const UA_String UA_STRING_NULL = {0, NULL};
const UA_NodeId UA_NODEID_NULL = {0, UA_NODEIDTYPE_NUMERIC, {0}};
const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL = {{0, UA_NODEIDTYPE_NUMERIC, {0}}, {0, NULL}, 0};

const char *UA_StatusCode_name(UA_StatusCode code) { (void)code; return code == 0 ? "Good" : "Bad"; }

/* ---------------------------------------------------------------- strings */
UA_String UA_STRING(char *chars)
{
    UA_String s;
    s.length = 0;
    s.data = NULL;
    if (!chars) return s;
    s.length = strlen(chars);
    s.data = (UA_Byte *)chars;
    return s;
}
UA_String UA_STRING_ALLOC_(const char *chars)
{
    UA_String t = UA_STRING((char *)(uintptr_t)chars), s;
    UA_String_copy(&t, &s);
    return s;
}
UA_Boolean UA_String_equal(const UA_String *a, const UA_String *b)
{
    if (a->length != b->length) return false;
    if (a->length == 0) return true;
    return memcmp(a->data, b->data, a->length) == 0;
}
void UA_String_init(UA_String *p) { memset(p, 0, sizeof *p); }
static void freeData(void *p)
{
    if ((uintptr_t)p > (uintptr_t)UA_EMPTY_ARRAY_SENTINEL) UA_free(p);
}
void UA_String_clear(UA_String *p)
{
    freeData(p->data);
    UA_String_init(p);
}
UA_StatusCode UA_String_copy(const UA_String *src, UA_String *dst)
{
    UA_String_init(dst);
    if (!src->data) return UA_STATUSCODE_GOOD;
    if (src->length == 0)
    {
        dst->data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL;
        return UA_STATUSCODE_GOOD;
    }
    dst->data = (UA_Byte *)UA_malloc(src->length);
    if (!dst->data) return UA_STATUSCODE_BADOUTOFMEMORY;
    memcpy(dst->data, src->data, src->length);
    dst->length = src->length;
    return UA_STATUSCODE_GOOD;
}
void UA_ByteString_init(UA_ByteString *p) { UA_String_init(p); }
void UA_ByteString_clear(UA_ByteString *p) { UA_String_clear(p); }
UA_ByteString *UA_ByteString_new(void) { return (UA_ByteString *)UA_calloc(1, sizeof(UA_ByteString)); }
UA_StatusCode UA_ByteString_copy(const UA_ByteString *src, UA_ByteString *dst) { return UA_String_copy(src, dst); }

static int hexval(int c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
static int rdhex(const UA_Byte *d, int n, UA_UInt32 *out)
{
    UA_UInt32 v = 0;
    for (int i = 0; i < n; i++)
    {
        int h = hexval(d[i]);
        if (h < 0) return 0;
        v = (v << 4) | (UA_UInt32)h;
    }
    *out = v;
    return 1;
}
UA_StatusCode UA_Guid_parse(UA_Guid *g, const UA_String s)
{
    memset(g, 0, sizeof *g);
    if (s.length != 36 || s.data[8] != '-' || s.data[13] != '-' || s.data[18] != '-' || s.data[23] != '-')
        return UA_STATUSCODE_BADDECODINGERROR;
    UA_Guid r;
    UA_UInt32 v;
    memset(&r, 0, sizeof r);
    if (!rdhex(s.data, 8, &v)) return UA_STATUSCODE_BADDECODINGERROR;
    r.data1 = v;
    if (!rdhex(s.data + 9, 4, &v)) return UA_STATUSCODE_BADDECODINGERROR;
    r.data2 = (UA_UInt16)v;
    if (!rdhex(s.data + 14, 4, &v)) return UA_STATUSCODE_BADDECODINGERROR;
    r.data3 = (UA_UInt16)v;
    for (int i = 0; i < 8; i++)
    {
        int pos = i < 2 ? 19 + 2 * i : 24 + 2 * (i - 2);
        if (!rdhex(s.data + pos, 2, &v)) return UA_STATUSCODE_BADDECODINGERROR;
        r.data4[i] = (UA_Byte)v;
    }
    *g = r;
    return UA_STATUSCODE_GOOD;
}
UA_Guid UA_GUID(const char *chars)
{
    UA_Guid g;
    UA_Guid_parse(&g, UA_STRING((char *)(uintptr_t)chars));
    return g;
}
UA_Boolean UA_Guid_equal(const UA_Guid *a, const UA_Guid *b) { return memcmp(a, b, sizeof *a) == 0; }

UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct ts)
{
    /* days from civil (proleptic Gregorian calendar) */
    long long y = ts.year, m = ts.month, d = ts.day;
    if (m < 1) m = 1;
    if (m > 12) { y += (m - 1) / 12; m = (m - 1) % 12 + 1; }
    y -= m <= 2;
    long long era = (y >= 0 ? y : y - 399) / 400;
    long long yoe = y - era * 400;
    long long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    long long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    long long days = era * 146097 + doe - 719468;
    long long secs = days * 86400 + ts.hour * 3600LL + ts.min * 60LL + ts.sec;
    return (UA_DateTime)(secs * UA_DATETIME_SEC + UA_DATETIME_UNIX_EPOCH + ts.milliSec * UA_DATETIME_MSEC +
                         ts.microSec * UA_DATETIME_USEC + ts.nanoSec / 100);
}

/* --------------------------------------------------------------- node ids */
UA_NodeId UA_NODEID_NUMERIC(UA_UInt16 ns, UA_UInt32 identifier)
{
    UA_NodeId id;
    memset(&id, 0, sizeof id);
    id.namespaceIndex = ns;
    id.identifierType = UA_NODEIDTYPE_NUMERIC;
    id.identifier.numeric = identifier;
    return id;
}
UA_NodeId UA_NODEID_STRING(UA_UInt16 ns, char *chars)
{
    UA_NodeId id;
    memset(&id, 0, sizeof id);
    id.namespaceIndex = ns;
    id.identifierType = UA_NODEIDTYPE_STRING;
    id.identifier.string = UA_STRING(chars);
    return id;
}
UA_NodeId UA_NODEID(const char *chars)
{
    UA_NodeId id;
    UA_NodeId_parse(&id, UA_STRING((char *)(uintptr_t)chars));
    return id;
}
void UA_NodeId_init(UA_NodeId *p) { memset(p, 0, sizeof *p); }
void UA_NodeId_clear(UA_NodeId *p)
{
    if (p->identifierType == UA_NODEIDTYPE_STRING || p->identifierType == UA_NODEIDTYPE_BYTESTRING)
        UA_String_clear(&p->identifier.string);
    UA_NodeId_init(p);
}
UA_NodeId *UA_NodeId_new(void) { return (UA_NodeId *)UA_calloc(1, sizeof(UA_NodeId)); }
void UA_NodeId_delete(UA_NodeId *p)
{
    if (p) UA_NodeId_clear(p);
    UA_free(p);
}
UA_StatusCode UA_NodeId_copy(const UA_NodeId *src, UA_NodeId *dst)
{
    UA_NodeId tmp = *src;
    if (src->identifierType == UA_NODEIDTYPE_STRING || src->identifierType == UA_NODEIDTYPE_BYTESTRING)
    {
        UA_StatusCode r = UA_String_copy(&src->identifier.string, &tmp.identifier.string);
        if (r != UA_STATUSCODE_GOOD)
        {
            UA_NodeId_init(dst);
            return r;
        }
    }
    *dst = tmp;
    return UA_STATUSCODE_GOOD;
}
UA_Boolean UA_NodeId_isNull(const UA_NodeId *p)
{
    if (p->namespaceIndex != 0) return false;
    switch (p->identifierType)
    {
    case UA_NODEIDTYPE_NUMERIC: return p->identifier.numeric == 0;
    case UA_NODEIDTYPE_STRING:
    case UA_NODEIDTYPE_BYTESTRING: return p->identifier.string.length == 0;
    case UA_NODEIDTYPE_GUID: {
        UA_Guid z;
        memset(&z, 0, sizeof z);
        return UA_Guid_equal(&z, &p->identifier.guid);
    }
    }
    return false;
}
UA_Order UA_NodeId_order(const UA_NodeId *a, const UA_NodeId *b)
{
    if (a->namespaceIndex != b->namespaceIndex)
        return a->namespaceIndex < b->namespaceIndex ? UA_ORDER_LESS : UA_ORDER_MORE;
    if (a->identifierType != b->identifierType)
        return a->identifierType < b->identifierType ? UA_ORDER_LESS : UA_ORDER_MORE;
    int c = 0;
    switch (a->identifierType)
    {
    case UA_NODEIDTYPE_NUMERIC:
        if (a->identifier.numeric != b->identifier.numeric)
            c = a->identifier.numeric < b->identifier.numeric ? -1 : 1;
        break;
    case UA_NODEIDTYPE_STRING:
    case UA_NODEIDTYPE_BYTESTRING:
        if (a->identifier.string.length != b->identifier.string.length)
            c = a->identifier.string.length < b->identifier.string.length ? -1 : 1;
        else if (a->identifier.string.length > 0 && a->identifier.string.data != b->identifier.string.data)
            c = memcmp(a->identifier.string.data, b->identifier.string.data, a->identifier.string.length);
        break;
    case UA_NODEIDTYPE_GUID: c = memcmp(&a->identifier.guid, &b->identifier.guid, sizeof(UA_Guid)); break;
    }
    return c < 0 ? UA_ORDER_LESS : c > 0 ? UA_ORDER_MORE : UA_ORDER_EQ;
}
UA_Boolean UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b) { return UA_NodeId_order(a, b) == UA_ORDER_EQ; }

static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static UA_StatusCode b64decode(const UA_Byte *s, size_t n, UA_ByteString *out)
{
    UA_String_init(out);
    while (n > 0 && s[n - 1] == '=') n--;
    size_t olen = n * 3 / 4;
    if (olen == 0)
    {
        out->data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL;
        return UA_STATUSCODE_GOOD;
    }
    UA_Byte *d = (UA_Byte *)UA_malloc(olen);
    if (!d) return UA_STATUSCODE_BADOUTOFMEMORY;
    UA_UInt32 acc = 0;
    int bits = 0;
    size_t o = 0;
    for (size_t i = 0; i < n; i++)
    {
        const char *p = s[i] ? strchr(b64, s[i]) : NULL;
        if (!p)
        {
            UA_free(d);
            return UA_STATUSCODE_BADDECODINGERROR;
        }
        acc = (acc << 6) | (UA_UInt32)(p - b64);
        bits += 6;
        if (bits >= 8)
        {
            bits -= 8;
            if (o < olen) d[o++] = (UA_Byte)(acc >> bits);
        }
    }
    out->length = o;
    out->data = d;
    return UA_STATUSCODE_GOOD;
}

UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str)
{
    UA_NodeId_init(id);
    const UA_Byte *p = str.data, *e = str.data + str.length;
    if (!p) return UA_STATUSCODE_BADDECODINGERROR;
    UA_UInt32 ns = 0;
    if (e - p >= 3 && !memcmp(p, "ns=", 3))
    {
        p += 3;
        int any = 0;
        while (p < e && *p >= '0' && *p <= '9')
        {
            ns = ns * 10 + (UA_UInt32)(*p - '0');
            if (ns > 65535) return UA_STATUSCODE_BADDECODINGERROR;
            p++;
            any = 1;
        }
        if (!any || p >= e || *p != ';') return UA_STATUSCODE_BADDECODINGERROR;
        p++;
    }
    if (e - p < 2 || p[1] != '=') return UA_STATUSCODE_BADDECODINGERROR;
    char t = (char)p[0];
    p += 2;
    UA_NodeId r;
    UA_NodeId_init(&r);
    r.namespaceIndex = (UA_UInt16)ns;
    UA_String body;
    body.data = (UA_Byte *)(uintptr_t)p;
    body.length = (size_t)(e - p);
    switch (t)
    {
    case 'i': {
        UA_UInt64 v = 0;
        if (body.length == 0) return UA_STATUSCODE_BADDECODINGERROR;
        for (; p < e; p++)
        {
            if (*p < '0' || *p > '9') return UA_STATUSCODE_BADDECODINGERROR;
            v = v * 10 + (UA_UInt64)(*p - '0');
            if (v > 0xffffffffu) return UA_STATUSCODE_BADDECODINGERROR;
        }
        r.identifierType = UA_NODEIDTYPE_NUMERIC;
        r.identifier.numeric = (UA_UInt32)v;
        break;
    }
    case 's': {
        r.identifierType = UA_NODEIDTYPE_STRING;
        UA_StatusCode c = UA_String_copy(&body, &r.identifier.string);
        if (c) return c;
        break;
    }
    case 'g': {
        r.identifierType = UA_NODEIDTYPE_GUID;
        UA_StatusCode c = UA_Guid_parse(&r.identifier.guid, body);
        if (c) return c;
        break;
    }
    case 'b': {
        r.identifierType = UA_NODEIDTYPE_BYTESTRING;
        UA_StatusCode c = b64decode(body.data, body.length, &r.identifier.byteString);
        if (c) return c;
        break;
    }
    default: return UA_STATUSCODE_BADDECODINGERROR;
    }
    *id = r;
    return UA_STATUSCODE_GOOD;
}

UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *out)
{
    UA_String_init(out);
    size_t cap = 96;
    if (id->identifierType == UA_NODEIDTYPE_STRING || id->identifierType == UA_NODEIDTYPE_BYTESTRING)
        cap += id->identifier.string.length * 2;
    char *buf = (char *)UA_malloc(cap);
    if (!buf) return UA_STATUSCODE_BADOUTOFMEMORY;
    size_t n = 0;
    if (id->namespaceIndex) n += (size_t)snprintf(buf + n, cap - n, "ns=%u;", id->namespaceIndex);
    switch (id->identifierType)
    {
    case UA_NODEIDTYPE_NUMERIC: n += (size_t)snprintf(buf + n, cap - n, "i=%u", id->identifier.numeric); break;
    case UA_NODEIDTYPE_STRING:
        n += (size_t)snprintf(buf + n, cap - n, "s=");
        if (id->identifier.string.length) memcpy(buf + n, id->identifier.string.data, id->identifier.string.length);
        n += id->identifier.string.length;
        break;
    case UA_NODEIDTYPE_GUID: {
        const UA_Guid *g = &id->identifier.guid;
        n += (size_t)snprintf(buf + n, cap - n, "g=%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x", g->data1, g->data2,
                              g->data3, g->data4[0], g->data4[1], g->data4[2], g->data4[3], g->data4[4], g->data4[5],
                              g->data4[6], g->data4[7]);
        break;
    }
    case UA_NODEIDTYPE_BYTESTRING: {
        n += (size_t)snprintf(buf + n, cap - n, "b=");
        const UA_Byte *d = id->identifier.byteString.data;
        size_t len = id->identifier.byteString.length;
        for (size_t i = 0; i < len; i += 3)
        {
            UA_UInt32 v = (UA_UInt32)d[i] << 16;
            if (i + 1 < len) v |= (UA_UInt32)d[i + 1] << 8;
            if (i + 2 < len) v |= d[i + 2];
            buf[n++] = b64[(v >> 18) & 63];
            buf[n++] = b64[(v >> 12) & 63];
            buf[n++] = i + 1 < len ? b64[(v >> 6) & 63] : '=';
            buf[n++] = i + 2 < len ? b64[v & 63] : '=';
        }
        break;
    }
    }
    out->data = (UA_Byte *)buf;
    out->length = n;
    return UA_STATUSCODE_GOOD;
}

/* --------------------------------------------- qualified names and texts */
UA_QualifiedName UA_QUALIFIEDNAME(UA_UInt16 ns, char *chars)
{
    UA_QualifiedName q;
    memset(&q, 0, sizeof q);
    q.namespaceIndex = ns;
    q.name = UA_STRING(chars);
    return q;
}
void UA_QualifiedName_init(UA_QualifiedName *p) { memset(p, 0, sizeof *p); }
void UA_QualifiedName_clear(UA_QualifiedName *p)
{
    UA_String_clear(&p->name);
    p->namespaceIndex = 0;
}
UA_Boolean UA_QualifiedName_equal(const UA_QualifiedName *a, const UA_QualifiedName *b)
{
    return a->namespaceIndex == b->namespaceIndex && UA_String_equal(&a->name, &b->name);
}
UA_LocalizedText UA_LOCALIZEDTEXT(char *locale, char *text)
{
    UA_LocalizedText t;
    t.locale = UA_STRING(locale);
    t.text = UA_STRING(text);
    return t;
}
void UA_LocalizedText_init(UA_LocalizedText *p) { memset(p, 0, sizeof *p); }
void UA_LocalizedText_clear(UA_LocalizedText *p)
{
    UA_String_clear(&p->locale);
    UA_String_clear(&p->text);
}
UA_UInt32 *UA_UInt32_new(void) { return (UA_UInt32 *)UA_calloc(1, sizeof(UA_UInt32)); }

/* ------------------------------------------------ generic type handling */
static UA_StatusCode copyAny(const void *src, void *dst, const UA_DataType *t);
static void clearAny(void *p, const UA_DataType *t);

UA_StatusCode UA_Array_copy(const void *src, size_t size, void **dst, const UA_DataType *type)
{
    if (size == 0)
    {
        *dst = src ? UA_EMPTY_ARRAY_SENTINEL : NULL;
        return UA_STATUSCODE_GOOD;
    }
    if (!type || !src) return UA_STATUSCODE_BADINTERNALERROR;
    *dst = UA_calloc(size, type->memSize);
    if (!*dst) return UA_STATUSCODE_BADOUTOFMEMORY;
    for (size_t i = 0; i < size; i++)
    {
        UA_StatusCode r = copyAny((const char *)src + i * type->memSize, (char *)*dst + i * type->memSize, type);
        if (r)
        {
            UA_Array_delete(*dst, size, type);
            *dst = NULL;
            return r;
        }
    }
    return UA_STATUSCODE_GOOD;
}
void UA_Array_delete(void *p, size_t size, const UA_DataType *type)
{
    if ((uintptr_t)p <= (uintptr_t)UA_EMPTY_ARRAY_SENTINEL) return;
    if (!type->pointerFree)
        for (size_t i = 0; i < size; i++) clearAny((char *)p + i * type->memSize, type);
    UA_free(p);
}
void *UA_Array_new(size_t size, const UA_DataType *type)
{
    if (size == 0) return UA_EMPTY_ARRAY_SENTINEL;
    return UA_calloc(size, type->memSize);
}

static UA_StatusCode copyStruct(const void *src, void *dst, const UA_DataType *t)
{
    const char *s = (const char *)src;
    char *d = (char *)dst;
    for (size_t i = 0; i < t->membersSize; i++)
    {
        const UA_DataTypeMember *m = &t->members[i];
        const UA_DataType *mt = m->memberType;
        s += m->padding;
        d += m->padding;
        UA_StatusCode r = UA_STATUSCODE_GOOD;
        if (m->isArray)
        {
            size_t n = *(const size_t *)s;
            s += sizeof(size_t);
            d += sizeof(size_t);
            r = UA_Array_copy(*(void *const *)s, n, (void **)d, mt);
            if (!r) *(size_t *)(d - sizeof(size_t)) = n;
            s += sizeof(void *);
            d += sizeof(void *);
        }
        else if (m->isOptional)
        {
            if (*(void *const *)s) r = UA_Array_copy(*(void *const *)s, 1, (void **)d, mt);
            s += sizeof(void *);
            d += sizeof(void *);
        }
        else
        {
            r = copyAny(s, d, mt);
            s += mt->memSize;
            d += mt->memSize;
        }
        if (r) return r;
    }
    return UA_STATUSCODE_GOOD;
}
static void clearStruct(void *p, const UA_DataType *t)
{
    char *d = (char *)p;
    for (size_t i = 0; i < t->membersSize; i++)
    {
        const UA_DataTypeMember *m = &t->members[i];
        const UA_DataType *mt = m->memberType;
        d += m->padding;
        if (m->isArray)
        {
            size_t n = *(size_t *)d;
            *(size_t *)d = 0;
            d += sizeof(size_t);
            UA_Array_delete(*(void **)d, n, mt);
            *(void **)d = NULL;
            d += sizeof(void *);
        }
        else if (m->isOptional)
        {
            if (*(void **)d) UA_Array_delete(*(void **)d, 1, mt);
            *(void **)d = NULL;
            d += sizeof(void *);
        }
        else
        {
            clearAny(d, mt);
            d += mt->memSize;
        }
    }
}
static UA_StatusCode copyUnion(const void *src, void *dst, const UA_DataType *t)
{
    UA_UInt32 sel = *(const UA_UInt32 *)src;
    *(UA_UInt32 *)dst = sel;
    if (sel == 0) return UA_STATUSCODE_GOOD;
    if (sel > t->membersSize) return UA_STATUSCODE_BADINTERNALERROR;
    const UA_DataTypeMember *m = &t->members[sel - 1];
    const char *s = (const char *)src + m->padding;
    char *d = (char *)dst + m->padding;
    if (m->isArray)
    {
        size_t n = *(const size_t *)s;
        UA_StatusCode r =
            UA_Array_copy(*(void *const *)(s + sizeof(size_t)), n, (void **)(d + sizeof(size_t)), m->memberType);
        if (!r) *(size_t *)d = n;
        return r;
    }
    return copyAny(s, d, m->memberType);
}
static void clearUnion(void *p, const UA_DataType *t)
{
    UA_UInt32 sel = *(UA_UInt32 *)p;
    if (sel == 0 || sel > t->membersSize) return;
    const UA_DataTypeMember *m = &t->members[sel - 1];
    char *d = (char *)p + m->padding;
    if (m->isArray)
    {
        UA_Array_delete(*(void **)(d + sizeof(size_t)), *(size_t *)d, m->memberType);
        *(void **)(d + sizeof(size_t)) = NULL;
        *(size_t *)d = 0;
    }
    else
        clearAny(d, m->memberType);
    *(UA_UInt32 *)p = 0;
}
static UA_StatusCode copyAny(const void *src, void *dst, const UA_DataType *t)
{
    memset(dst, 0, t->memSize);
    UA_StatusCode r = UA_STATUSCODE_GOOD;
    switch (t->typeKind)
    {
    case UA_DATATYPEKIND_STRING:
    case UA_DATATYPEKIND_BYTESTRING:
    case UA_DATATYPEKIND_XMLELEMENT: r = UA_String_copy((const UA_String *)src, (UA_String *)dst); break;
    case UA_DATATYPEKIND_NODEID: r = UA_NodeId_copy((const UA_NodeId *)src, (UA_NodeId *)dst); break;
    case UA_DATATYPEKIND_EXPANDEDNODEID: {
        const UA_ExpandedNodeId *s = (const UA_ExpandedNodeId *)src;
        UA_ExpandedNodeId *d = (UA_ExpandedNodeId *)dst;
        r = UA_NodeId_copy(&s->nodeId, &d->nodeId);
        if (!r) r = UA_String_copy(&s->namespaceUri, &d->namespaceUri);
        d->serverIndex = s->serverIndex;
        break;
    }
    case UA_DATATYPEKIND_QUALIFIEDNAME: {
        const UA_QualifiedName *s = (const UA_QualifiedName *)src;
        UA_QualifiedName *d = (UA_QualifiedName *)dst;
        d->namespaceIndex = s->namespaceIndex;
        r = UA_String_copy(&s->name, &d->name);
        break;
    }
    case UA_DATATYPEKIND_LOCALIZEDTEXT: {
        const UA_LocalizedText *s = (const UA_LocalizedText *)src;
        UA_LocalizedText *d = (UA_LocalizedText *)dst;
        r = UA_String_copy(&s->locale, &d->locale);
        if (!r) r = UA_String_copy(&s->text, &d->text);
        break;
    }
    case UA_DATATYPEKIND_VARIANT: r = UA_Variant_copy((const UA_Variant *)src, (UA_Variant *)dst); break;
    case UA_DATATYPEKIND_EXTENSIONOBJECT:
    case UA_DATATYPEKIND_DATAVALUE:
    case UA_DATATYPEKIND_DIAGNOSTICINFO: {
        /* the loader never produces other than all-zero ones */
        for (size_t i = 0; i < t->memSize; i++)
            if (((const char *)src)[i]) return UA_STATUSCODE_BADINTERNALERROR;
        break;
    }
    case UA_DATATYPEKIND_STRUCTURE:
    case UA_DATATYPEKIND_OPTSTRUCT: r = copyStruct(src, dst, t); break;
    case UA_DATATYPEKIND_UNION: r = copyUnion(src, dst, t); break;
    default: memcpy(dst, src, t->memSize); break;
    }
    if (r) clearAny(dst, t);
    return r;
}
static void clearAny(void *p, const UA_DataType *t)
{
    switch (t->typeKind)
    {
    case UA_DATATYPEKIND_STRING:
    case UA_DATATYPEKIND_BYTESTRING:
    case UA_DATATYPEKIND_XMLELEMENT: UA_String_clear((UA_String *)p); break;
    case UA_DATATYPEKIND_NODEID: UA_NodeId_clear((UA_NodeId *)p); break;
    case UA_DATATYPEKIND_EXPANDEDNODEID:
        UA_NodeId_clear(&((UA_ExpandedNodeId *)p)->nodeId);
        UA_String_clear(&((UA_ExpandedNodeId *)p)->namespaceUri);
        break;
    case UA_DATATYPEKIND_QUALIFIEDNAME: UA_QualifiedName_clear((UA_QualifiedName *)p); break;
    case UA_DATATYPEKIND_LOCALIZEDTEXT: UA_LocalizedText_clear((UA_LocalizedText *)p); break;
    case UA_DATATYPEKIND_VARIANT: UA_Variant_clear((UA_Variant *)p); break;
    case UA_DATATYPEKIND_STRUCTURE:
    case UA_DATATYPEKIND_OPTSTRUCT: clearStruct(p, t); break;
    case UA_DATATYPEKIND_UNION: clearUnion(p, t); break;
    default: break;
    }
}
UA_StatusCode UA_copy(const void *src, void *dst, const UA_DataType *type) { return copyAny(src, dst, type); }
void UA_clear(void *p, const UA_DataType *type)
{
    clearAny(p, type);
    memset(p, 0, type->memSize);
}
void UA_init(void *p, const UA_DataType *type) { memset(p, 0, type->memSize); }
void *UA_new(const UA_DataType *type) { return UA_calloc(1, type->memSize); }
void UA_delete(void *p, const UA_DataType *type)
{
    if (p) clearAny(p, type);
    UA_free(p);
}

void UA_Variant_init(UA_Variant *v) { memset(v, 0, sizeof *v); }
void UA_Variant_clear(UA_Variant *v)
{
    if (v->storageType == UA_VARIANT_DATA)
    {
        if (v->type && (uintptr_t)v->data > (uintptr_t)UA_EMPTY_ARRAY_SENTINEL)
        {
            size_t n = v->arrayLength ? v->arrayLength : 1;
            UA_Array_delete(v->data, n, v->type);
        }
        if (v->arrayDimensionsSize) UA_free(v->arrayDimensions);
    }
    UA_Variant_init(v);
}
UA_StatusCode UA_Variant_copy(const UA_Variant *src, UA_Variant *dst)
{
    UA_Variant_init(dst);
    if (!src->type) return UA_STATUSCODE_GOOD;
    if ((uintptr_t)src->data <= (uintptr_t)UA_EMPTY_ARRAY_SENTINEL)
        dst->data = src->data;
    else
    {
        UA_StatusCode r = UA_Array_copy(src->data, src->arrayLength ? src->arrayLength : 1, &dst->data, src->type);
        if (r) return r;
    }
    dst->arrayLength = src->arrayLength;
    dst->type = src->type;
    if (src->arrayDimensions)
    {
        dst->arrayDimensions = (UA_UInt32 *)UA_malloc(src->arrayDimensionsSize * sizeof(UA_UInt32));
        if (!dst->arrayDimensions)
        {
            UA_Variant_clear(dst);
            return UA_STATUSCODE_BADOUTOFMEMORY;
        }
        memcpy(dst->arrayDimensions, src->arrayDimensions, src->arrayDimensionsSize * sizeof(UA_UInt32));
        dst->arrayDimensionsSize = src->arrayDimensionsSize;
    }
    return UA_STATUSCODE_GOOD;
}
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *type)
{
    UA_Variant_init(v);
    v->type = type;
    v->arrayLength = 0;
    v->data = p;
}
void UA_Variant_setArray(UA_Variant *v, void *array, size_t n, const UA_DataType *type)
{
    UA_Variant_init(v);
    v->data = array;
    v->arrayLength = n;
    v->type = type;
}
UA_Boolean UA_Variant_isScalar(const UA_Variant *v) { return v->arrayLength == 0 && v->data > UA_EMPTY_ARRAY_SENTINEL; }
UA_Boolean UA_Variant_hasScalarType(const UA_Variant *v, const UA_DataType *t) { return UA_Variant_isScalar(v) && v->type == t; }
UA_Boolean UA_Variant_hasArrayType(const UA_Variant *v, const UA_DataType *t) { return !UA_Variant_isScalar(v) && v->type == t; }

void UA_BrowseDescription_init(UA_BrowseDescription *p) { memset(p, 0, sizeof *p); }
void UA_BrowseResult_clear(UA_BrowseResult *p)
{
    for (size_t i = 0; i < p->referencesSize; i++)
    {
        UA_ReferenceDescription *r = &p->references[i];
        UA_NodeId_clear(&r->referenceTypeId);
        UA_NodeId_clear(&r->nodeId.nodeId);
        UA_QualifiedName_clear(&r->browseName);
        UA_LocalizedText_clear(&r->displayName);
        UA_NodeId_clear(&r->typeDefinition.nodeId);
    }
    freeData(p->references);
    UA_String_clear(&p->continuationPoint);
    memset(p, 0, sizeof *p);
}

/* ------------------------------------------------------------- the types */
#define ID(n) {0, UA_NODEIDTYPE_NUMERIC, {n}}
#define B(NAME, TID, CT, KIND, PF) {NAME, ID(TID), ID(0), sizeof(CT), UA_DATATYPEKIND_##KIND, PF, PF, 0, NULL}
#define M(NAME, T, PAD, ARR) {NAME, &UA_TYPES[UA_TYPES_##T], PAD, ARR, 0}
#define PAD2(S, M2, M1, T1) (offsetof(S, M2) - offsetof(S, M1) - sizeof(T1))
#define PADARR(S, M2, M1) (offsetof(S, M2) - offsetof(S, M1) - sizeof(void *))

static UA_DataTypeMember Argument_members[5] = {
    M("Name", STRING, 0, 0),
    M("DataType", NODEID, PAD2(UA_Argument, dataType, name, UA_String), 0),
    M("ValueRank", INT32, PAD2(UA_Argument, valueRank, dataType, UA_NodeId), 0),
    M("ArrayDimensions", UINT32, PAD2(UA_Argument, arrayDimensionsSize, valueRank, UA_Int32), 1),
    M("Description", LOCALIZEDTEXT, PADARR(UA_Argument, description, arrayDimensions), 0)};
static UA_DataTypeMember EnumValueType_members[3] = {
    M("Value", INT64, 0, 0), M("DisplayName", LOCALIZEDTEXT, 0, 0), M("Description", LOCALIZEDTEXT, 0, 0)};
static UA_DataTypeMember Range_members[2] = {M("Low", DOUBLE, 0, 0), M("High", DOUBLE, 0, 0)};
static UA_DataTypeMember EUInformation_members[4] = {
    M("NamespaceUri", STRING, 0, 0), M("UnitId", INT32, 0, 0),
    M("DisplayName", LOCALIZEDTEXT, PAD2(UA_EUInformation, displayName, unitId, UA_Int32), 0),
    M("Description", LOCALIZEDTEXT, 0, 0)};
static UA_DataTypeMember TimeZone_members[2] = {M("Offset", INT16, 0, 0), M("DaylightSavingInOffset", BOOLEAN, 0, 0)};
static UA_DataTypeMember BuildInfo_members[6] = {
    M("ProductUri", STRING, 0, 0),   M("ManufacturerName", STRING, 0, 0), M("ProductName", STRING, 0, 0),
    M("SoftwareVersion", STRING, 0, 0), M("BuildNumber", STRING, 0, 0),   M("BuildDate", DATETIME, 0, 0)};
static UA_DataTypeMember ServerStatus_members[6] = {
    M("StartTime", DATETIME, 0, 0),
    M("CurrentTime", DATETIME, 0, 0),
    M("State", SERVERSTATE, 0, 0),
    M("BuildInfo", BUILDINFO, PAD2(UA_ServerStatusDataType, buildInfo, state, UA_ServerState), 0),
    M("SecondsTillShutdown", UINT32, 0, 0),
    M("ShutdownReason", LOCALIZEDTEXT, PAD2(UA_ServerStatusDataType, shutdownReason, secondsTillShutdown, UA_UInt32), 0)};

#define S(NAME, TID, EID, CT, MEM, N, PF) {NAME, ID(TID), ID(EID), sizeof(CT), UA_DATATYPEKIND_STRUCTURE, PF, 0, N, MEM}
UA_DataType UA_TYPES[UA_TYPES_COUNT] = {
    B("Boolean", 1, UA_Boolean, BOOLEAN, 1),
    B("SByte", 2, UA_SByte, SBYTE, 1),
    B("Byte", 3, UA_Byte, BYTE, 1),
    B("Int16", 4, UA_Int16, INT16, 1),
    B("UInt16", 5, UA_UInt16, UINT16, 1),
    B("Int32", 6, UA_Int32, INT32, 1),
    B("UInt32", 7, UA_UInt32, UINT32, 1),
    B("Int64", 8, UA_Int64, INT64, 1),
    B("UInt64", 9, UA_UInt64, UINT64, 1),
    B("Float", 10, UA_Float, FLOAT, 1),
    B("Double", 11, UA_Double, DOUBLE, 1),
    B("String", 12, UA_String, STRING, 0),
    B("DateTime", 13, UA_DateTime, DATETIME, 1),
    B("Guid", 14, UA_Guid, GUID, 1),
    B("ByteString", 15, UA_ByteString, BYTESTRING, 0),
    B("XmlElement", 16, UA_XmlElement, XMLELEMENT, 0),
    B("NodeId", 17, UA_NodeId, NODEID, 0),
    B("ExpandedNodeId", 18, UA_ExpandedNodeId, EXPANDEDNODEID, 0),
    B("StatusCode", 19, UA_StatusCode, STATUSCODE, 1),
    B("QualifiedName", 20, UA_QualifiedName, QUALIFIEDNAME, 0),
    B("LocalizedText", 21, UA_LocalizedText, LOCALIZEDTEXT, 0),
    B("ExtensionObject", 22, UA_ExtensionObject, EXTENSIONOBJECT, 0),
    B("DataValue", 23, UA_DataValue, DATAVALUE, 0),
    B("Variant", 24, UA_Variant, VARIANT, 0),
    B("DiagnosticInfo", 25, UA_DiagnosticInfo, DIAGNOSTICINFO, 0),
    B("Duration", 290, UA_Double, DOUBLE, 1),
    B("UtcTime", 294, UA_DateTime, DATETIME, 1),
    B("LocaleId", 295, UA_String, STRING, 0),
    S("Argument", 296, 298, UA_Argument, Argument_members, 5, 0),
    S("EnumValueType", 7594, 8251, UA_EnumValueType, EnumValueType_members, 3, 0),
    S("Range", 884, 886, UA_Range, Range_members, 2, 1),
    S("EUInformation", 887, 889, UA_EUInformation, EUInformation_members, 4, 0),
    S("TimeZoneDataType", 8912, 8917, UA_TimeZoneDataType, TimeZone_members, 2, 1),
    {"ServerState", ID(852), ID(0), sizeof(UA_ServerState), UA_DATATYPEKIND_ENUM, 1, 1, 0, NULL},
    S("BuildInfo", 338, 340, UA_BuildInfo, BuildInfo_members, 6, 0),
    S("ServerStatusDataType", 862, 864, UA_ServerStatusDataType, ServerStatus_members, 6, 0),
    {"NodeClass", ID(257), ID(0), sizeof(UA_NodeClass), UA_DATATYPEKIND_ENUM, 1, 1, 0, NULL},
    /* only used as tags; the simulated server knows their C layout */
    S("ObjectAttributes", 352, 354, UA_ObjectAttributes, NULL, 0, 0),
    S("VariableAttributes", 355, 357, UA_VariableAttributes, NULL, 0, 0),
    S("MethodAttributes", 358, 360, UA_MethodAttributes, NULL, 0, 0),
    S("ObjectTypeAttributes", 361, 363, UA_ObjectTypeAttributes, NULL, 0, 0),
    S("VariableTypeAttributes", 364, 366, UA_VariableTypeAttributes, NULL, 0, 0),
    S("ReferenceTypeAttributes", 367, 369, UA_ReferenceTypeAttributes, NULL, 0, 0),
    S("DataTypeAttributes", 370, 372, UA_DataTypeAttributes, NULL, 0, 0),
    S("ViewAttributes", 373, 375, UA_ViewAttributes, NULL, 0, 0),
};
const UA_DataType *UA_findDataType(const UA_NodeId *typeId)
{
    if (typeId->identifierType != UA_NODEIDTYPE_NUMERIC || typeId->namespaceIndex != 0) return NULL;
    for (size_t i = 0; i < UA_TYPES_COUNT; i++)
        if (UA_TYPES[i].typeId.identifier.numeric == typeId->identifier.numeric) return &UA_TYPES[i];
    return NULL;
}
#define ATTR0 0, {{0, NULL}, {0, NULL}}, {{0, NULL}, {0, NULL}}, 0, 0
const UA_ObjectAttributes UA_ObjectAttributes_default = {ATTR0, 0};
const UA_VariableAttributes UA_VariableAttributes_default = {
    ATTR0, {NULL, UA_VARIANT_DATA, 0, NULL, 0, NULL}, ID(24), -2, 0, NULL, 1, 0, 0.0, false};
const UA_MethodAttributes UA_MethodAttributes_default = {ATTR0, true, true};
const UA_ObjectTypeAttributes UA_ObjectTypeAttributes_default = {ATTR0, false};
const UA_VariableTypeAttributes UA_VariableTypeAttributes_default = {
    ATTR0, {NULL, UA_VARIANT_DATA, 0, NULL, 0, NULL}, ID(24), -2, 0, NULL, false};
const UA_ReferenceTypeAttributes UA_ReferenceTypeAttributes_default = {ATTR0, false, false, {{0, NULL}, {0, NULL}}};
const UA_DataTypeAttributes UA_DataTypeAttributes_default = {ATTR0, false};
const UA_ViewAttributes UA_ViewAttributes_default = {ATTR0, false, 0};
