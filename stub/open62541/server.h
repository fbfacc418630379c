#ifndef SIM_OPEN62541_SERVER_H
#define SIM_OPEN62541_SERVER_H
#include <open62541/types.h>
#include <open62541/types_generated.h>
#include <open62541/nodeids.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { UA_LOGLEVEL_TRACE = 100, UA_LOGLEVEL_DEBUG = 200, UA_LOGLEVEL_INFO = 300, UA_LOGLEVEL_WARNING = 400,
    UA_LOGLEVEL_ERROR = 500, UA_LOGLEVEL_FATAL = 600 } UA_LogLevel;
typedef enum { UA_LOGCATEGORY_NETWORK = 0, UA_LOGCATEGORY_SERVER = 4, UA_LOGCATEGORY_USERLAND = 6 } UA_LogCategory;
typedef struct UA_Logger {
    void (*log)(void *logContext, UA_LogLevel level, UA_LogCategory category, const char *msg, va_list args);
    void *context;
    void (*clear)(struct UA_Logger *logger);
} UA_Logger;
struct UA_Server;
typedef struct UA_Server UA_Server;
typedef struct UA_ServerConfig {
    void *context;
    UA_Logger *logging;
    const UA_DataTypeArray *customDataTypes;
} UA_ServerConfig;
typedef UA_StatusCode (*UA_MethodCallback)(UA_Server *server, const UA_NodeId *sessionId, void *sessionHandle,
    const UA_NodeId *methodId, void *methodContext, const UA_NodeId *objectId, void *objectContext, size_t inputSize,
    const UA_Variant *input, size_t outputSize, UA_Variant *output);

UA_Server *UA_Server_new(void);
void UA_Server_delete(UA_Server *server);
UA_StatusCode UA_Server_run_shutdown(UA_Server *server);
UA_ServerConfig *UA_Server_getConfig(UA_Server *server);
UA_UInt16 UA_Server_addNamespace(UA_Server *server, const char *name);
UA_BrowseResult UA_Server_browse(UA_Server *server, UA_UInt32 maxReferences, const UA_BrowseDescription *bd);
UA_StatusCode UA_Server_addNode_begin(UA_Server *server, const UA_NodeClass nodeClass, const UA_NodeId requestedNewNodeId,
    const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName,
    const UA_NodeId typeDefinition, const void *attr, const UA_DataType *attributeType, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addNode_finish(UA_Server *server, const UA_NodeId nodeId);
UA_StatusCode UA_Server_addMethodNode(UA_Server *server, const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId,
    const UA_NodeId referenceTypeId, const UA_QualifiedName browseName, const UA_MethodAttributes attr,
    UA_MethodCallback method, size_t inputArgumentsSize, const UA_Argument *inputArguments, size_t outputArgumentsSize,
    const UA_Argument *outputArguments, void *nodeContext, UA_NodeId *outNewNodeId);
#define SIM_ADDNODE(NAME, ATTR) \
    UA_StatusCode UA_Server_add##NAME##Node(UA_Server *server, const UA_NodeId requestedNewNodeId, \
        const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName, \
        const ATTR attr, void *nodeContext, UA_NodeId *outNewNodeId);
SIM_ADDNODE(View, UA_ViewAttributes)
SIM_ADDNODE(ObjectType, UA_ObjectTypeAttributes)
SIM_ADDNODE(ReferenceType, UA_ReferenceTypeAttributes)
SIM_ADDNODE(DataType, UA_DataTypeAttributes)
UA_StatusCode UA_Server_addObjectNode(UA_Server *server, const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId,
    const UA_NodeId referenceTypeId, const UA_QualifiedName browseName, const UA_NodeId typeDefinition,
    const UA_ObjectAttributes attr, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addVariableNode(UA_Server *server, const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId,
    const UA_NodeId referenceTypeId, const UA_QualifiedName browseName, const UA_NodeId typeDefinition,
    const UA_VariableAttributes attr, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addVariableTypeNode(UA_Server *server, const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId,
    const UA_NodeId referenceTypeId, const UA_QualifiedName browseName, const UA_NodeId typeDefinition,
    const UA_VariableTypeAttributes attr, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addReference(UA_Server *server, const UA_NodeId sourceId, const UA_NodeId refTypeId,
    const UA_ExpandedNodeId targetId, UA_Boolean isForward);
UA_StatusCode UA_Server_deleteNode(UA_Server *server, const UA_NodeId nodeId, UA_Boolean deleteReferences);
UA_StatusCode UA_Server_deleteReference(UA_Server *server, const UA_NodeId sourceNodeId, const UA_NodeId referenceTypeId,
    UA_Boolean isForward, const UA_ExpandedNodeId targetNodeId, UA_Boolean deleteBidirectional);
UA_StatusCode UA_Server_getNamespaceByName(UA_Server *server, const UA_String namespaceUri, size_t *foundIndex);
UA_StatusCode UA_Server_writeValue(UA_Server *server, const UA_NodeId nodeId, const UA_Variant value);
UA_StatusCode UA_Server_readNodeId(UA_Server *s, const UA_NodeId id, UA_NodeId *out);
UA_BrowseResult UA_Server_browseNext(UA_Server *server, UA_Boolean releaseContinuationPoint, const UA_ByteString *continuationPoint);
/* reading, as far as the repository's own tests need it */
UA_StatusCode UA_Server_readNodeClass(UA_Server *s, const UA_NodeId id, UA_NodeClass *out);
UA_StatusCode UA_Server_readValue(UA_Server *s, const UA_NodeId id, UA_Variant *out);
UA_StatusCode UA_Server_readBrowseName(UA_Server *s, const UA_NodeId id, UA_QualifiedName *out);
UA_StatusCode UA_Server_readDisplayName(UA_Server *s, const UA_NodeId id, UA_LocalizedText *out);
UA_StatusCode UA_Server_readDescription(UA_Server *s, const UA_NodeId id, UA_LocalizedText *out);
UA_StatusCode UA_Server_readInverseName(UA_Server *s, const UA_NodeId id, UA_LocalizedText *out);
UA_StatusCode UA_Server_readValueRank(UA_Server *s, const UA_NodeId id, UA_Int32 *out);
UA_StatusCode UA_Server_readArrayDimensions(UA_Server *s, const UA_NodeId id, UA_Variant *out);
UA_StatusCode UA_Server_readDataType(UA_Server *s, const UA_NodeId id, UA_NodeId *out);
UA_StatusCode UA_Server_readEventNotifier(UA_Server *s, const UA_NodeId id, UA_Byte *out);
UA_StatusCode UA_Server_readIsAbstract(UA_Server *s, const UA_NodeId id, UA_Boolean *out);
UA_StatusCode UA_Server_readSymmetric(UA_Server *s, const UA_NodeId id, UA_Boolean *out);
UA_StatusCode UA_Server_readHistorizing(UA_Server *s, const UA_NodeId id, UA_Boolean *out);
UA_StatusCode UA_Server_getNodeContext(UA_Server *s, UA_NodeId id, void **out);
#ifdef __cplusplus
}
#endif
#endif
