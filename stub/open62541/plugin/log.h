#ifndef SIM_OPEN62541_LOG_H
#define SIM_OPEN62541_LOG_H
#include <open62541/server.h>
#ifdef __cplusplus
extern "C" {
#endif
extern const UA_Logger *UA_Log_Stdout;
#ifdef __cplusplus
}
#endif
#define UA_LOG_ERROR(...) ((void)0)
#define UA_LOG_INFO(...) ((void)0)
#define UA_LOG_WARNING(...) ((void)0)
#define UA_LOG_DEBUG(...) ((void)0)
#define UA_LOG_TRACE(...) ((void)0)
#define UA_LOG_FATAL(...) ((void)0)
#endif
