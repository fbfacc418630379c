#ifndef SIM_OPEN62541_CFG_H
#define SIM_OPEN62541_CFG_H
#include <open62541/server.h>
#ifdef __cplusplus
extern "C" {
#endif
UA_StatusCode UA_ServerConfig_setDefault(UA_ServerConfig *config);
UA_StatusCode UA_ServerConfig_setMinimal(UA_ServerConfig *config, UA_UInt16 port, const UA_ByteString *cert);
#ifdef __cplusplus
}
#endif
#endif
