/* Simulated open62541: the part of the 1.4 type system the loader uses.
 * Written for the simulator; layouts and semantics follow open62541 1.4. */
#ifndef SIM_OPEN62541_TYPES_H
#define SIM_OPEN62541_TYPES_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <inttypes.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif

#define UA_EXPORT
#define UA_malloc malloc
#define UA_calloc calloc
#define UA_realloc realloc
#define UA_free free
#define UA_BINARY_OVERLAYABLE_INTEGER 1
#define UA_BINARY_OVERLAYABLE_FLOAT 1
#define UA_EMPTY_ARRAY_SENTINEL ((void *)0x01)

typedef bool UA_Boolean;
#define UA_TRUE true
#define UA_FALSE false
typedef int8_t UA_SByte;
typedef uint8_t UA_Byte;
typedef int16_t UA_Int16;
typedef uint16_t UA_UInt16;
typedef int32_t UA_Int32;
typedef uint32_t UA_UInt32;
typedef int64_t UA_Int64;
typedef uint64_t UA_UInt64;
typedef float UA_Float;
typedef double UA_Double;
typedef uint32_t UA_StatusCode;
typedef int64_t UA_DateTime;
typedef double UA_Duration;
#define UA_SBYTE_MIN (-128)
#define UA_SBYTE_MAX 127
#define UA_BYTE_MIN 0
#define UA_BYTE_MAX 255
#define UA_INT16_MIN (-32768)
#define UA_INT16_MAX 32767
#define UA_UINT16_MIN 0
#define UA_UINT16_MAX 65535
#define UA_INT32_MAX 2147483647
#define UA_UINT32_MAX 4294967295UL
#define UA_INT64_MAX ((int64_t)9223372036854775807LL)
#define UA_UINT64_MAX ((uint64_t)18446744073709551615ULL)

#define UA_STATUSCODE_GOOD ((UA_StatusCode)0x00000000)
#define UA_STATUSCODE_BADINTERNALERROR ((UA_StatusCode)0x80020000)
#define UA_STATUSCODE_BADOUTOFMEMORY ((UA_StatusCode)0x80030000)
#define UA_STATUSCODE_BADRESOURCEUNAVAILABLE ((UA_StatusCode)0x80040000)
#define UA_STATUSCODE_BADUNEXPECTEDERROR ((UA_StatusCode)0x80010000)
#define UA_STATUSCODE_BADENCODINGERROR ((UA_StatusCode)0x80060000)
#define UA_STATUSCODE_BADENCODINGLIMITSEXCEEDED ((UA_StatusCode)0x80080000)
#define UA_STATUSCODE_BADNOTHINGTODO ((UA_StatusCode)0x800F0000)
#define UA_STATUSCODE_BADTOOMANYOPERATIONS ((UA_StatusCode)0x80100000)
#define UA_STATUSCODE_BADDATATYPEIDUNKNOWN ((UA_StatusCode)0x80110000)
#define UA_STATUSCODE_BADOUTOFRANGE ((UA_StatusCode)0x803C0000)
#define UA_STATUSCODE_BADNOTSUPPORTED ((UA_StatusCode)0x803D0000)
#define UA_STATUSCODE_BADNOTFOUND ((UA_StatusCode)0x803E0000)
#define UA_STATUSCODE_BADNOTIMPLEMENTED ((UA_StatusCode)0x80400000)
#define UA_STATUSCODE_BADSOURCENODEIDINVALID ((UA_StatusCode)0x80640000)
#define UA_STATUSCODE_BADTARGETNODEIDINVALID ((UA_StatusCode)0x80650000)
#define UA_STATUSCODE_BADINVALIDARGUMENT ((UA_StatusCode)0x80AB0000)
#define UA_STATUSCODE_BADINVALIDSTATE ((UA_StatusCode)0x80AF0000)
#define UA_STATUSCODE_BADDECODINGERROR ((UA_StatusCode)0x80070000)
#define UA_STATUSCODE_BADNODEIDINVALID ((UA_StatusCode)0x80330000)
#define UA_STATUSCODE_BADNODEIDUNKNOWN ((UA_StatusCode)0x80340000)
#define UA_STATUSCODE_BADATTRIBUTEIDINVALID ((UA_StatusCode)0x80350000)
#define UA_STATUSCODE_BADREFERENCETYPEIDINVALID ((UA_StatusCode)0x804C0000)
#define UA_STATUSCODE_BADPARENTNODEIDINVALID ((UA_StatusCode)0x805B0000)
#define UA_STATUSCODE_BADREFERENCENOTALLOWED ((UA_StatusCode)0x805C0000)
#define UA_STATUSCODE_BADNODEIDEXISTS ((UA_StatusCode)0x805E0000)
#define UA_STATUSCODE_BADNODECLASSINVALID ((UA_StatusCode)0x805F0000)
#define UA_STATUSCODE_BADBROWSENAMEINVALID ((UA_StatusCode)0x80600000)
#define UA_STATUSCODE_BADTYPEDEFINITIONINVALID ((UA_StatusCode)0x80630000)
#define UA_STATUSCODE_BADDUPLICATEREFERENCENOTALLOWED ((UA_StatusCode)0x80660000)
#define UA_STATUSCODE_BADTYPEMISMATCH ((UA_StatusCode)0x80740000)
#define UA_STATUSCODE_BADNOTCONNECTED ((UA_StatusCode)0x808A0000)
static inline UA_Boolean UA_StatusCode_isBad(UA_StatusCode c) { return (c >> 30) >= 2; }
const char *UA_StatusCode_name(UA_StatusCode code);

typedef enum { UA_ORDER_LESS = -1, UA_ORDER_EQ = 0, UA_ORDER_MORE = 1 } UA_Order;

typedef struct { size_t length; UA_Byte *data; } UA_String;
typedef UA_String UA_ByteString;
typedef UA_String UA_XmlElement;
typedef UA_String UA_LocaleId;
typedef struct { UA_UInt32 data1; UA_UInt16 data2; UA_UInt16 data3; UA_Byte data4[8]; } UA_Guid;

enum UA_NodeIdType {
    UA_NODEIDTYPE_NUMERIC = 0,
    UA_NODEIDTYPE_STRING = 3,
    UA_NODEIDTYPE_GUID = 4,
    UA_NODEIDTYPE_BYTESTRING = 5
};
typedef struct {
    UA_UInt16 namespaceIndex;
    enum UA_NodeIdType identifierType;
    union {
        UA_UInt32 numeric;
        UA_String string;
        UA_Guid guid;
        UA_ByteString byteString;
    } identifier;
} UA_NodeId;
typedef struct { UA_NodeId nodeId; UA_String namespaceUri; UA_UInt32 serverIndex; } UA_ExpandedNodeId;
typedef struct { UA_UInt16 namespaceIndex; UA_String name; } UA_QualifiedName;
typedef struct { UA_String locale; UA_String text; } UA_LocalizedText;

struct UA_DataType;
typedef struct UA_DataType UA_DataType;
typedef struct { UA_UInt32 min, max; } UA_NumericRangeDimension;
typedef enum { UA_VARIANT_DATA, UA_VARIANT_DATA_NODELETE } UA_VariantStorageType;
typedef struct {
    const UA_DataType *type;
    UA_VariantStorageType storageType;
    size_t arrayLength;
    void *data;
    size_t arrayDimensionsSize;
    UA_UInt32 *arrayDimensions;
} UA_Variant;
typedef enum {
    UA_EXTENSIONOBJECT_ENCODED_NOBODY = 0,
    UA_EXTENSIONOBJECT_ENCODED_BYTESTRING = 1,
    UA_EXTENSIONOBJECT_ENCODED_XML = 2,
    UA_EXTENSIONOBJECT_DECODED = 3,
    UA_EXTENSIONOBJECT_DECODED_NODELETE = 4
} UA_ExtensionObjectEncoding;
typedef struct {
    UA_ExtensionObjectEncoding encoding;
    union {
        struct { UA_NodeId typeId; UA_ByteString body; } encoded;
        struct { const UA_DataType *type; void *data; } decoded;
    } content;
} UA_ExtensionObject;
typedef struct {
    UA_Variant value;
    UA_DateTime sourceTimestamp, serverTimestamp;
    UA_UInt16 sourcePicoseconds, serverPicoseconds;
    UA_StatusCode status;
    UA_Boolean hasValue : 1, hasStatus : 1, hasSourceTimestamp : 1, hasServerTimestamp : 1,
        hasSourcePicoseconds : 1, hasServerPicoseconds : 1;
} UA_DataValue;
typedef struct UA_DiagnosticInfo {
    UA_Boolean hasSymbolicId : 1, hasNamespaceUri : 1, hasLocalizedText : 1, hasLocale : 1,
        hasAdditionalInfo : 1, hasInnerStatusCode : 1, hasInnerDiagnosticInfo : 1;
    UA_Int32 symbolicId, namespaceUri, localizedText, locale;
    UA_String additionalInfo;
    UA_StatusCode innerStatusCode;
    struct UA_DiagnosticInfo *innerDiagnosticInfo;
} UA_DiagnosticInfo;

typedef struct {
    const char *memberName;
    const UA_DataType *memberType;
    UA_Byte padding : 6;
    UA_Byte isArray : 1;
    UA_Byte isOptional : 1;
} UA_DataTypeMember;
#define UA_DATATYPEKINDS 31
typedef enum {
    UA_DATATYPEKIND_BOOLEAN = 0, UA_DATATYPEKIND_SBYTE = 1, UA_DATATYPEKIND_BYTE = 2,
    UA_DATATYPEKIND_INT16 = 3, UA_DATATYPEKIND_UINT16 = 4, UA_DATATYPEKIND_INT32 = 5,
    UA_DATATYPEKIND_UINT32 = 6, UA_DATATYPEKIND_INT64 = 7, UA_DATATYPEKIND_UINT64 = 8,
    UA_DATATYPEKIND_FLOAT = 9, UA_DATATYPEKIND_DOUBLE = 10, UA_DATATYPEKIND_STRING = 11,
    UA_DATATYPEKIND_DATETIME = 12, UA_DATATYPEKIND_GUID = 13, UA_DATATYPEKIND_BYTESTRING = 14,
    UA_DATATYPEKIND_XMLELEMENT = 15, UA_DATATYPEKIND_NODEID = 16, UA_DATATYPEKIND_EXPANDEDNODEID = 17,
    UA_DATATYPEKIND_STATUSCODE = 18, UA_DATATYPEKIND_QUALIFIEDNAME = 19, UA_DATATYPEKIND_LOCALIZEDTEXT = 20,
    UA_DATATYPEKIND_EXTENSIONOBJECT = 21, UA_DATATYPEKIND_DATAVALUE = 22, UA_DATATYPEKIND_VARIANT = 23,
    UA_DATATYPEKIND_DIAGNOSTICINFO = 24, UA_DATATYPEKIND_DECIMAL = 25, UA_DATATYPEKIND_ENUM = 26,
    UA_DATATYPEKIND_STRUCTURE = 27, UA_DATATYPEKIND_OPTSTRUCT = 28, UA_DATATYPEKIND_UNION = 29,
    UA_DATATYPEKIND_BITFIELDCLUSTER = 30
} UA_DataTypeKind;
struct UA_DataType {
    const char *typeName;
    UA_NodeId typeId;
    UA_NodeId binaryEncodingId;
    UA_UInt32 memSize : 16;
    UA_UInt32 typeKind : 6;
    UA_UInt32 pointerFree : 1;
    UA_UInt32 overlayable : 1;
    UA_UInt32 membersSize : 8;
    UA_DataTypeMember *members;
};
typedef struct UA_DataTypeArray {
    const struct UA_DataTypeArray *next;
    const size_t typesSize;
    const UA_DataType *types;
    UA_Boolean cleanup;
} UA_DataTypeArray;

/* strings, guids, times */
UA_String UA_STRING(char *chars);
UA_String UA_STRING_ALLOC_(const char *chars);
#define UA_STRING_ALLOC(c) UA_STRING_ALLOC_(c)
#define UA_STRING_STATIC(c) {sizeof(c) - 1, (UA_Byte *)(c)}
extern const UA_String UA_STRING_NULL;
#define UA_BYTESTRING_NULL UA_STRING_NULL
UA_Boolean UA_String_equal(const UA_String *a, const UA_String *b);
void UA_String_init(UA_String *p);
void UA_String_clear(UA_String *p);
UA_StatusCode UA_String_copy(const UA_String *src, UA_String *dst);
void UA_ByteString_init(UA_ByteString *p);
void UA_ByteString_clear(UA_ByteString *p);
UA_ByteString *UA_ByteString_new(void);
UA_StatusCode UA_ByteString_copy(const UA_ByteString *src, UA_ByteString *dst);
UA_Guid UA_GUID(const char *chars);
UA_StatusCode UA_Guid_parse(UA_Guid *guid, const UA_String str);
UA_Boolean UA_Guid_equal(const UA_Guid *a, const UA_Guid *b);

#define UA_DATETIME_USEC 10LL
#define UA_DATETIME_MSEC (UA_DATETIME_USEC * 1000LL)
#define UA_DATETIME_SEC (UA_DATETIME_MSEC * 1000LL)
#define UA_DATETIME_UNIX_EPOCH (11644473600LL * UA_DATETIME_SEC)
typedef struct UA_DateTimeStruct {
    UA_UInt16 nanoSec, microSec, milliSec, sec, min, hour, day, month;
    UA_Int16 year;
} UA_DateTimeStruct;
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct ts);
static inline UA_DateTime UA_DateTime_fromUnixTime(UA_Int64 t) { return (t * UA_DATETIME_SEC) + UA_DATETIME_UNIX_EPOCH; }

/* node ids */
extern const UA_NodeId UA_NODEID_NULL;
extern const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL;
UA_NodeId UA_NODEID_NUMERIC(UA_UInt16 nsIndex, UA_UInt32 identifier);
UA_NodeId UA_NODEID_STRING(UA_UInt16 nsIndex, char *chars);
UA_NodeId UA_NODEID(const char *chars);
void UA_NodeId_init(UA_NodeId *p);
void UA_NodeId_clear(UA_NodeId *p);
UA_NodeId *UA_NodeId_new(void);
void UA_NodeId_delete(UA_NodeId *p);
UA_StatusCode UA_NodeId_copy(const UA_NodeId *src, UA_NodeId *dst);
UA_Boolean UA_NodeId_isNull(const UA_NodeId *p);
UA_Boolean UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b);
UA_Order UA_NodeId_order(const UA_NodeId *a, const UA_NodeId *b);
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str);
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *output);

UA_QualifiedName UA_QUALIFIEDNAME(UA_UInt16 nsIndex, char *chars);
void UA_QualifiedName_init(UA_QualifiedName *p);
void UA_QualifiedName_clear(UA_QualifiedName *p);
UA_Boolean UA_QualifiedName_equal(const UA_QualifiedName *a, const UA_QualifiedName *b);
UA_LocalizedText UA_LOCALIZEDTEXT(char *locale, char *text);
void UA_LocalizedText_init(UA_LocalizedText *p);
void UA_LocalizedText_clear(UA_LocalizedText *p);
UA_UInt32 *UA_UInt32_new(void);

/* variants and generic type handling */
void UA_Variant_init(UA_Variant *v);
void UA_Variant_clear(UA_Variant *v);
UA_StatusCode UA_Variant_copy(const UA_Variant *src, UA_Variant *dst);
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *type);
void UA_Variant_setArray(UA_Variant *v, void *array, size_t arraySize, const UA_DataType *type);
UA_Boolean UA_Variant_hasScalarType(const UA_Variant *v, const UA_DataType *type);
UA_Boolean UA_Variant_hasArrayType(const UA_Variant *v, const UA_DataType *type);
UA_Boolean UA_Variant_isScalar(const UA_Variant *v);
UA_StatusCode UA_copy(const void *src, void *dst, const UA_DataType *type);
void UA_clear(void *p, const UA_DataType *type);
void UA_init(void *p, const UA_DataType *type);
void *UA_new(const UA_DataType *type);
void UA_delete(void *p, const UA_DataType *type);
void *UA_Array_new(size_t size, const UA_DataType *type);
void UA_Array_delete(void *p, size_t size, const UA_DataType *type);
UA_StatusCode UA_Array_copy(const void *src, size_t size, void **dst, const UA_DataType *type);
const UA_DataType *UA_findDataType(const UA_NodeId *typeId);

/* more of the API: what a change to the library may reasonably use */
static inline UA_Boolean UA_StatusCode_isGood(UA_StatusCode c) { return (c >> 30) == 0; }
static inline UA_Boolean UA_StatusCode_isUncertain(UA_StatusCode c) { return (c >> 30) == 1; }
#define SIM_NEWDEL(T) \
    static inline UA_##T *UA_##T##_new(void) { return (UA_##T *)UA_calloc(1, sizeof(UA_##T)); } \
    static inline void UA_##T##_delete(UA_##T *p) { if (p) { UA_##T##_clear(p); UA_free(p); } }
SIM_NEWDEL(String)
SIM_NEWDEL(QualifiedName)
SIM_NEWDEL(LocalizedText)
SIM_NEWDEL(Variant)
static inline void UA_ByteString_delete(UA_ByteString *p) { if (p) { UA_ByteString_clear(p); UA_free(p); } }
static inline UA_Boolean UA_ByteString_equal(const UA_ByteString *a, const UA_ByteString *b) { return UA_String_equal(a, b); }
static inline UA_String UA_String_fromChars(const char *c) { return UA_STRING_ALLOC_(c); }
static inline UA_Boolean UA_String_isEmpty(const UA_String *s) { return s->length == 0 || !s->data; }
static inline UA_ByteString UA_BYTESTRING(char *c) { return UA_STRING(c); }
static inline UA_ByteString UA_BYTESTRING_ALLOC(const char *c) { return UA_STRING_ALLOC_(c); }
static inline UA_StatusCode UA_QualifiedName_copy(const UA_QualifiedName *s, UA_QualifiedName *d) { d->namespaceIndex = s->namespaceIndex; return UA_String_copy(&s->name, &d->name); }
static inline UA_QualifiedName UA_QUALIFIEDNAME_ALLOC(UA_UInt16 ns, const char *c) { UA_QualifiedName q; q.namespaceIndex = ns; q.name = UA_STRING_ALLOC_(c); return q; }
static inline UA_Boolean UA_QualifiedName_isNull(const UA_QualifiedName *q) { return q->namespaceIndex == 0 && q->name.length == 0; }
static inline UA_StatusCode UA_LocalizedText_copy(const UA_LocalizedText *s, UA_LocalizedText *d) { UA_StatusCode r = UA_String_copy(&s->locale, &d->locale); r |= UA_String_copy(&s->text, &d->text); if (r) UA_LocalizedText_clear(d); return r; }
static inline UA_LocalizedText UA_LOCALIZEDTEXT_ALLOC(const char *l, const char *t) { UA_LocalizedText x; x.locale = UA_STRING_ALLOC_(l); x.text = UA_STRING_ALLOC_(t); return x; }
static inline UA_NodeId UA_NODEID_STRING_ALLOC(UA_UInt16 ns, const char *c) { UA_NodeId n; memset(&n, 0, sizeof n); n.namespaceIndex = ns; n.identifierType = UA_NODEIDTYPE_STRING; n.identifier.string = UA_STRING_ALLOC_(c); return n; }
static inline UA_NodeId UA_NODEID_GUID(UA_UInt16 ns, UA_Guid g) { UA_NodeId n; memset(&n, 0, sizeof n); n.namespaceIndex = ns; n.identifierType = UA_NODEIDTYPE_GUID; n.identifier.guid = g; return n; }
static inline void UA_ExpandedNodeId_init(UA_ExpandedNodeId *p) { memset(p, 0, sizeof *p); }
static inline void UA_ExpandedNodeId_clear(UA_ExpandedNodeId *p) { UA_NodeId_clear(&p->nodeId); UA_String_clear(&p->namespaceUri); memset(p, 0, sizeof *p); }
static inline UA_StatusCode UA_ExpandedNodeId_copy(const UA_ExpandedNodeId *s, UA_ExpandedNodeId *d) { d->serverIndex = s->serverIndex; UA_StatusCode r = UA_NodeId_copy(&s->nodeId, &d->nodeId); r |= UA_String_copy(&s->namespaceUri, &d->namespaceUri); if (r) UA_ExpandedNodeId_clear(d); return r; }
static inline UA_ExpandedNodeId UA_EXPANDEDNODEID_NUMERIC(UA_UInt16 ns, UA_UInt32 id) { UA_ExpandedNodeId e; memset(&e, 0, sizeof e); e.nodeId = UA_NODEID_NUMERIC(ns, id); return e; }
static inline UA_ExpandedNodeId UA_EXPANDEDNODEID_NODEID(UA_NodeId n) { UA_ExpandedNodeId e; memset(&e, 0, sizeof e); e.nodeId = n; return e; }
static inline UA_Boolean UA_ExpandedNodeId_isLocal(const UA_ExpandedNodeId *e) { return e->namespaceUri.length == 0 && e->serverIndex == 0; }
static inline UA_Boolean UA_Variant_isEmpty(const UA_Variant *v) { return v->type == NULL; }
static inline UA_UInt32 UA_NodeId_hash(const UA_NodeId *n) {
    UA_UInt32 h = 2166136261u ^ n->namespaceIndex;
    if (n->identifierType == UA_NODEIDTYPE_NUMERIC) return (h ^ n->identifier.numeric) * 2654435761u;
    const UA_Byte *d = n->identifierType == UA_NODEIDTYPE_GUID ? (const UA_Byte *)&n->identifier.guid : n->identifier.string.data;
    size_t l = n->identifierType == UA_NODEIDTYPE_GUID ? sizeof(UA_Guid) : n->identifier.string.length;
    for (size_t i = 0; i < l; i++) h = (h ^ d[i]) * 16777619u;
    return h;
}
static inline UA_StatusCode UA_Variant_setScalarCopy(UA_Variant *v, const void *p, const UA_DataType *t) {
    void *n = UA_new(t); if (!n) return UA_STATUSCODE_BADOUTOFMEMORY;
    UA_StatusCode r = UA_copy(p, n, t); if (r) { UA_free(n); return r; }
    UA_Variant_setScalar(v, n, t); return r;
}
static inline UA_StatusCode UA_Variant_setArrayCopy(UA_Variant *v, const void *a, size_t n, const UA_DataType *t) {
    void *c = NULL; UA_StatusCode r = UA_Array_copy(a, n, &c, t); if (r) return r;
    UA_Variant_setArray(v, c, n, t); return r;
}
#ifdef __cplusplus
}
#endif
#endif
