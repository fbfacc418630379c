#ifndef SIM_OPEN62541_TYPES_GENERATED_H
#define SIM_OPEN62541_TYPES_GENERATED_H
#include <open62541/types.h>
#include <open62541/nodeids.h>
#ifdef __cplusplus
extern "C" {
#endif
enum {
    UA_TYPES_BOOLEAN, UA_TYPES_SBYTE, UA_TYPES_BYTE, UA_TYPES_INT16, UA_TYPES_UINT16, UA_TYPES_INT32,
    UA_TYPES_UINT32, UA_TYPES_INT64, UA_TYPES_UINT64, UA_TYPES_FLOAT, UA_TYPES_DOUBLE, UA_TYPES_STRING,
    UA_TYPES_DATETIME, UA_TYPES_GUID, UA_TYPES_BYTESTRING, UA_TYPES_XMLELEMENT, UA_TYPES_NODEID,
    UA_TYPES_EXPANDEDNODEID, UA_TYPES_STATUSCODE, UA_TYPES_QUALIFIEDNAME, UA_TYPES_LOCALIZEDTEXT,
    UA_TYPES_EXTENSIONOBJECT, UA_TYPES_DATAVALUE, UA_TYPES_VARIANT, UA_TYPES_DIAGNOSTICINFO,
    /* not built in */
    UA_TYPES_DURATION, UA_TYPES_UTCTIME, UA_TYPES_LOCALEID,
    UA_TYPES_ARGUMENT, UA_TYPES_ENUMVALUETYPE, UA_TYPES_RANGE, UA_TYPES_EUINFORMATION, UA_TYPES_TIMEZONEDATATYPE,
    UA_TYPES_SERVERSTATE, UA_TYPES_BUILDINFO, UA_TYPES_SERVERSTATUSDATATYPE, UA_TYPES_NODECLASS,
    UA_TYPES_OBJECTATTRIBUTES, UA_TYPES_VARIABLEATTRIBUTES, UA_TYPES_METHODATTRIBUTES,
    UA_TYPES_OBJECTTYPEATTRIBUTES, UA_TYPES_VARIABLETYPEATTRIBUTES, UA_TYPES_REFERENCETYPEATTRIBUTES,
    UA_TYPES_DATATYPEATTRIBUTES, UA_TYPES_VIEWATTRIBUTES,
    UA_TYPES_COUNT
};
extern UA_DataType UA_TYPES[UA_TYPES_COUNT];

typedef enum {
    UA_NODECLASS_UNSPECIFIED = 0, UA_NODECLASS_OBJECT = 1, UA_NODECLASS_VARIABLE = 2, UA_NODECLASS_METHOD = 4,
    UA_NODECLASS_OBJECTTYPE = 8, UA_NODECLASS_VARIABLETYPE = 16, UA_NODECLASS_REFERENCETYPE = 32,
    UA_NODECLASS_DATATYPE = 64, UA_NODECLASS_VIEW = 128
} UA_NodeClass;
static inline void UA_NodeClass_init(UA_NodeClass *p) { *p = UA_NODECLASS_UNSPECIFIED; }
static inline void UA_NodeClass_clear(UA_NodeClass *p) { *p = UA_NODECLASS_UNSPECIFIED; }

typedef struct {
    UA_String name; UA_NodeId dataType; UA_Int32 valueRank; size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions;
    UA_LocalizedText description;
} UA_Argument;
typedef struct { UA_Int64 value; UA_LocalizedText displayName; UA_LocalizedText description; } UA_EnumValueType;
typedef struct { UA_Double low; UA_Double high; } UA_Range;
typedef struct { UA_String namespaceUri; UA_Int32 unitId; UA_LocalizedText displayName; UA_LocalizedText description; } UA_EUInformation;
typedef struct { UA_Int16 offset; UA_Boolean daylightSavingInOffset; } UA_TimeZoneDataType;
typedef enum { UA_SERVERSTATE_RUNNING = 0, __UA_SERVERSTATE_FORCE32BIT = 0x7fffffff } UA_ServerState;
typedef struct {
    UA_String productUri, manufacturerName, productName, softwareVersion, buildNumber; UA_DateTime buildDate;
} UA_BuildInfo;
typedef struct {
    UA_DateTime startTime, currentTime; UA_ServerState state; UA_BuildInfo buildInfo; UA_UInt32 secondsTillShutdown;
    UA_LocalizedText shutdownReason;
} UA_ServerStatusDataType;

#define UA_COMMON_ATTRS UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description; \
    UA_UInt32 writeMask; UA_UInt32 userWriteMask;
typedef struct { UA_COMMON_ATTRS UA_Byte eventNotifier; } UA_ObjectAttributes;
typedef struct {
    UA_COMMON_ATTRS UA_Variant value; UA_NodeId dataType; UA_Int32 valueRank; size_t arrayDimensionsSize;
    UA_UInt32 *arrayDimensions; UA_Byte accessLevel; UA_Byte userAccessLevel; UA_Double minimumSamplingInterval;
    UA_Boolean historizing;
} UA_VariableAttributes;
typedef struct { UA_COMMON_ATTRS UA_Boolean executable; UA_Boolean userExecutable; } UA_MethodAttributes;
typedef struct { UA_COMMON_ATTRS UA_Boolean isAbstract; } UA_ObjectTypeAttributes;
typedef struct {
    UA_COMMON_ATTRS UA_Variant value; UA_NodeId dataType; UA_Int32 valueRank; size_t arrayDimensionsSize;
    UA_UInt32 *arrayDimensions; UA_Boolean isAbstract;
} UA_VariableTypeAttributes;
typedef struct { UA_COMMON_ATTRS UA_Boolean isAbstract; UA_Boolean symmetric; UA_LocalizedText inverseName; } UA_ReferenceTypeAttributes;
typedef struct { UA_COMMON_ATTRS UA_Boolean isAbstract; } UA_DataTypeAttributes;
typedef struct { UA_COMMON_ATTRS UA_Boolean containsNoLoops; UA_Byte eventNotifier; } UA_ViewAttributes;
extern const UA_ObjectAttributes UA_ObjectAttributes_default;
extern const UA_VariableAttributes UA_VariableAttributes_default;
extern const UA_MethodAttributes UA_MethodAttributes_default;
extern const UA_ObjectTypeAttributes UA_ObjectTypeAttributes_default;
extern const UA_VariableTypeAttributes UA_VariableTypeAttributes_default;
extern const UA_ReferenceTypeAttributes UA_ReferenceTypeAttributes_default;
extern const UA_DataTypeAttributes UA_DataTypeAttributes_default;
extern const UA_ViewAttributes UA_ViewAttributes_default;

typedef enum { UA_BROWSEDIRECTION_FORWARD = 0, UA_BROWSEDIRECTION_INVERSE = 1, UA_BROWSEDIRECTION_BOTH = 2 } UA_BrowseDirection;
typedef enum { UA_BROWSERESULTMASK_NONE = 0, UA_BROWSERESULTMASK_REFERENCETYPEID = 1, UA_BROWSERESULTMASK_ISFORWARD = 2,
    UA_BROWSERESULTMASK_NODECLASS = 4, UA_BROWSERESULTMASK_BROWSENAME = 8, UA_BROWSERESULTMASK_DISPLAYNAME = 16,
    UA_BROWSERESULTMASK_TYPEDEFINITION = 32, UA_BROWSERESULTMASK_ALL = 63 } UA_BrowseResultMask;
typedef struct {
    UA_NodeId nodeId; UA_BrowseDirection browseDirection; UA_NodeId referenceTypeId; UA_Boolean includeSubtypes;
    UA_UInt32 nodeClassMask; UA_UInt32 resultMask;
} UA_BrowseDescription;
typedef struct {
    UA_NodeId referenceTypeId; UA_Boolean isForward; UA_ExpandedNodeId nodeId; UA_QualifiedName browseName;
    UA_LocalizedText displayName; UA_NodeClass nodeClass; UA_ExpandedNodeId typeDefinition;
} UA_ReferenceDescription;
typedef struct {
    UA_StatusCode statusCode; UA_ByteString continuationPoint; size_t referencesSize; UA_ReferenceDescription *references;
} UA_BrowseResult;
static inline void UA_BrowseDescription_clear(UA_BrowseDescription *p) { UA_NodeId_clear(&p->nodeId); UA_NodeId_clear(&p->referenceTypeId); memset(p, 0, sizeof *p); }
static inline void UA_BrowseResult_init(UA_BrowseResult *p) { memset(p, 0, sizeof *p); }
void UA_BrowseDescription_init(UA_BrowseDescription *p);
void UA_BrowseResult_clear(UA_BrowseResult *p);
#ifdef __cplusplus
}
#endif
#endif
