#ifndef SIM_OPEN62541_NODEIDS_H
#define SIM_OPEN62541_NODEIDS_H
#define UA_NS0ID_STRUCTURE 22
#define UA_NS0ID_ENUMERATION 29
#define UA_NS0ID_UINTEGER 28
#define UA_NS0ID_REFERENCES 31
#define UA_NS0ID_NONHIERARCHICALREFERENCES 32
#define UA_NS0ID_HIERARCHICALREFERENCES 33
#define UA_NS0ID_HASCHILD 34
#define UA_NS0ID_ORGANIZES 35
#define UA_NS0ID_HASEVENTSOURCE 36
#define UA_NS0ID_HASMODELLINGRULE 37
#define UA_NS0ID_HASENCODING 38
#define UA_NS0ID_HASDESCRIPTION 39
#define UA_NS0ID_HASTYPEDEFINITION 40
#define UA_NS0ID_GENERATESEVENT 41
#define UA_NS0ID_AGGREGATES 44
#define UA_NS0ID_HASSUBTYPE 45
#define UA_NS0ID_HASPROPERTY 46
#define UA_NS0ID_HASCOMPONENT 47
#define UA_NS0ID_HASNOTIFIER 48
#define UA_NS0ID_HASORDEREDCOMPONENT 49
#define UA_NS0ID_BASEOBJECTTYPE 58
#define UA_NS0ID_FOLDERTYPE 61
#define UA_NS0ID_BASEVARIABLETYPE 62
#define UA_NS0ID_BASEDATAVARIABLETYPE 63
#define UA_NS0ID_PROPERTYTYPE 68
#define UA_NS0ID_ROOTFOLDER 84
#define UA_NS0ID_OBJECTSFOLDER 85
#define UA_NS0ID_TYPESFOLDER 86
#define UA_NS0ID_VIEWSFOLDER 87
#define UA_NS0ID_OPTIONSET 12755
#define UA_NS0ID_OPTIONSETVALUES 12745
#define UA_NS0ID_UNION 12756
#endif
