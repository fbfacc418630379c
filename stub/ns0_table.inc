{78,1,"Mandatory","Mandatory",0,0,77,0,0,""},
{80,1,"Optional","Optional",0,0,77,0,0,""},
{84,1,"Root","Root",0,0,61,0,0,""},
{85,1,"Objects","Objects",84,35,61,0,0,""},
{86,1,"Types","Types",84,35,61,0,0,""},
{87,1,"Views","Views",84,35,61,0,0,""},
{88,1,"ObjectTypes","ObjectTypes",86,35,61,0,0,""},
{89,1,"VariableTypes","VariableTypes",86,35,61,0,0,""},
{90,1,"DataTypes","DataTypes",86,35,61,0,0,""},
{91,1,"ReferenceTypes","ReferenceTypes",86,35,61,0,0,""},
{92,1,"XML Schema","XML Schema",90,35,75,0,0,""},
{93,1,"OPC Binary","OPC Binary",90,35,75,0,0,""},
{3048,1,"EventTypes","EventTypes",86,35,61,0,0,""},
{2253,1,"Server","Server",85,35,2004,0,0,""},
{11715,1,"Namespaces","Namespaces",2253,47,11645,0,0,""},
{24,64,"BaseDataType","BaseDataType",90,35,0,1,0,""},
{26,64,"Number","Number",24,45,0,1,0,""},
{27,64,"Integer","Integer",26,45,0,1,0,""},
{28,64,"UInteger","UInteger",26,45,0,1,0,""},
{29,64,"Enumeration","Enumeration",24,45,0,1,0,""},
{1,64,"Boolean","Boolean",24,45,0,0,0,""},
{2,64,"SByte","SByte",27,45,0,0,0,""},
{3,64,"Byte","Byte",28,45,0,0,0,""},
{4,64,"Int16","Int16",27,45,0,0,0,""},
{5,64,"UInt16","UInt16",28,45,0,0,0,""},
{6,64,"Int32","Int32",27,45,0,0,0,""},
{7,64,"UInt32","UInt32",28,45,0,0,0,""},
{8,64,"Int64","Int64",27,45,0,0,0,""},
{9,64,"UInt64","UInt64",28,45,0,0,0,""},
{10,64,"Float","Float",26,45,0,0,0,""},
{11,64,"Double","Double",26,45,0,0,0,""},
{12,64,"String","String",24,45,0,0,0,""},
{13,64,"DateTime","DateTime",24,45,0,0,0,""},
{14,64,"Guid","Guid",24,45,0,0,0,""},
{15,64,"ByteString","ByteString",24,45,0,0,0,""},
{16,64,"XmlElement","XmlElement",24,45,0,0,0,""},
{17,64,"NodeId","NodeId",24,45,0,0,0,""},
{18,64,"ExpandedNodeId","ExpandedNodeId",24,45,0,0,0,""},
{19,64,"StatusCode","StatusCode",24,45,0,0,0,""},
{20,64,"QualifiedName","QualifiedName",24,45,0,0,0,""},
{21,64,"LocalizedText","LocalizedText",24,45,0,0,0,""},
{22,64,"Structure","Structure",24,45,0,1,0,""},
{23,64,"DataValue","DataValue",24,45,0,0,0,""},
{25,64,"DiagnosticInfo","DiagnosticInfo",24,45,0,0,0,""},
{30,64,"Image","Image",15,45,0,1,0,""},
{31,32,"References","References",91,35,0,1,1,""},
{32,32,"NonHierarchicalReferences","NonHierarchicalReferences",31,45,0,1,1,""},
{33,32,"HierarchicalReferences","HierarchicalReferences",31,45,0,1,0,"HierarchicalReferences"},
{34,32,"HasChild","HasChild",33,45,0,1,0,"ChildOf"},
{35,32,"Organizes","Organizes",33,45,0,0,0,"OrganizedBy"},
{36,32,"HasEventSource","HasEventSource",33,45,0,0,0,"EventSourceOf"},
{37,32,"HasModellingRule","HasModellingRule",32,45,0,0,0,"ModellingRuleOf"},
{38,32,"HasEncoding","HasEncoding",32,45,0,0,0,"EncodingOf"},
{39,32,"HasDescription","HasDescription",32,45,0,0,0,"DescriptionOf"},
{40,32,"HasTypeDefinition","HasTypeDefinition",32,45,0,0,0,"TypeDefinitionOf"},
{41,32,"GeneratesEvent","GeneratesEvent",32,45,0,0,0,"GeneratedBy"},
{3065,32,"AlwaysGeneratesEvent","AlwaysGeneratesEvent",41,45,0,0,0,"AlwaysGeneratedBy"},
{44,32,"Aggregates","Aggregates",34,45,0,1,0,"AggregatedBy"},
{45,32,"HasSubtype","HasSubtype",34,45,0,0,0,"SubtypeOf"},
{46,32,"HasProperty","HasProperty",44,45,0,0,0,"PropertyOf"},
{47,32,"HasComponent","HasComponent",44,45,0,0,0,"ComponentOf"},
{48,32,"HasNotifier","HasNotifier",36,45,0,0,0,"NotifierOf"},
{49,32,"HasOrderedComponent","HasOrderedComponent",47,45,0,0,0,"OrderedComponentOf"},
{51,32,"FromState","FromState",32,45,0,0,0,"ToTransition"},
{52,32,"ToState","ToState",32,45,0,0,0,"FromTransition"},
{53,32,"HasCause","HasCause",32,45,0,0,0,"MayBeCausedBy"},
{54,32,"HasEffect","HasEffect",32,45,0,0,0,"MayBeEffectedBy"},
{117,32,"HasSubStateMachine","HasSubStateMachine",32,45,0,0,0,"SubStateMachineOf"},
{56,32,"HasHistoricalConfiguration","HasHistoricalConfiguration",44,45,0,0,0,"HistoricalConfigurationOf"},
{58,8,"BaseObjectType","BaseObjectType",88,35,0,0,0,""},
{61,8,"FolderType","FolderType",58,45,0,0,0,""},
{62,16,"BaseVariableType","BaseVariableType",89,35,0,1,0,""},
{63,16,"BaseDataVariableType","BaseDataVariableType",62,45,0,0,0,""},
{68,16,"PropertyType","PropertyType",62,45,0,0,0,""},
{69,16,"DataTypeDescriptionType","DataTypeDescriptionType",63,45,0,0,0,""},
{72,16,"DataTypeDictionaryType","DataTypeDictionaryType",63,45,0,0,0,""},
{75,8,"DataTypeSystemType","DataTypeSystemType",58,45,0,0,0,""},
{76,8,"DataTypeEncodingType","DataTypeEncodingType",58,45,0,0,0,""},
{77,8,"ModellingRuleType","ModellingRuleType",58,45,0,0,0,""},
{129,32,"HasArgumentDescription","HasArgumentDescription",47,45,0,0,0,"ArgumentDescriptionOf"},
{131,32,"HasOptionalInputArgumentDescription","HasOptionalInputArgumentDescription",129,45,0,0,0,"OptionalInputArgumentDescriptionOf"},
{2004,8,"ServerType","ServerType",58,45,0,0,0,""},
{11616,8,"NamespaceMetadataType","NamespaceMetadataType",58,45,0,0,0,""},
{11645,8,"NamespacesType","NamespacesType",58,45,0,0,0,""},
{2041,8,"BaseEventType","BaseEventType",58,45,0,1,0,""},
{15112,32,"HasGuard","HasGuard",47,45,0,0,0,"GuardOf"},
{17597,32,"HasDictionaryEntry","HasDictionaryEntry",32,45,0,0,0,"DictionaryEntryOf"},
{17602,8,"BaseInterfaceType","BaseInterfaceType",58,45,0,1,0,""},
{17603,32,"HasInterface","HasInterface",32,45,0,0,0,"InterfaceOf"},
{17604,32,"HasAddIn","HasAddIn",32,45,0,0,0,"AddInOf"},
{2365,16,"DataItemType","DataItemType",63,45,0,0,0,""},
{9004,32,"HasTrueSubState","HasTrueSubState",32,45,0,0,0,"IsTrueSubStateOf"},
{9005,32,"HasFalseSubState","HasFalseSubState",32,45,0,0,0,"IsFalseSubStateOf"},
{16361,32,"HasAlarmSuppressionGroup","HasAlarmSuppressionGroup",47,45,0,0,0,"IsAlarmSuppressionGroupOf"},
{16362,32,"AlarmGroupMember","AlarmGroupMember",35,45,0,0,0,"MemberOfAlarmGroup"},
{9006,32,"HasCondition","HasCondition",32,45,0,0,0,"IsConditionOf"},
{17276,32,"HasEffectDisable","HasEffectDisable",54,45,0,0,0,"MayBeDisabledBy"},
{17983,32,"HasEffectEnable","HasEffectEnable",54,45,0,0,0,"MayBeEnabledBy"},
{17984,32,"HasEffectSuppressed","HasEffectSuppressed",54,45,0,0,0,"MayBeSuppressedBy"},
{17985,32,"HasEffectUnsuppressed","HasEffectUnsuppressed",54,45,0,0,0,"MayBeUnsuppressedBy"},
{2318,8,"HistoricalDataConfigurationType","HistoricalDataConfigurationType",58,45,0,0,0,""},
{12552,64,"TrustListMasks","TrustListMasks",29,45,0,0,0,""},
{14476,32,"HasPubSubConnection","HasPubSubConnection",47,45,0,0,0,"PubSubConnectionOf"},
{14936,32,"DataSetToWriter","DataSetToWriter",33,45,0,0,0,"WriterToDataSet"},
{15296,32,"HasDataSetWriter","HasDataSetWriter",47,45,0,0,0,"IsWriterInGroup"},
{15297,32,"HasDataSetReader","HasDataSetReader",47,45,0,0,0,"IsReaderInGroup"},
{256,64,"IdType","IdType",29,45,0,0,0,""},
{257,64,"NodeClass","NodeClass",29,45,0,0,0,""},
{96,64,"RolePermissionType","RolePermissionType",22,45,0,0,0,""},
{97,64,"DataTypeDefinition","DataTypeDefinition",22,45,0,1,0,""},
{98,64,"StructureType","StructureType",29,45,0,0,0,""},
{101,64,"StructureField","StructureField",22,45,0,0,0,""},
{99,64,"StructureDefinition","StructureDefinition",97,45,0,0,0,""},
{100,64,"EnumDefinition","EnumDefinition",97,45,0,0,0,""},
{296,64,"Argument","Argument",22,45,0,0,0,""},
{7594,64,"EnumValueType","EnumValueType",22,45,0,0,0,""},
{12755,64,"OptionSet","OptionSet",22,45,0,0,0,""},
{12756,64,"Union","Union",22,45,0,1,0,""},
{290,64,"Duration","Duration",11,45,0,0,0,""},
{294,64,"UtcTime","UtcTime",13,45,0,0,0,""},
{295,64,"LocaleId","LocaleId",12,45,0,0,0,""},
{8912,64,"TimeZoneDataType","TimeZoneDataType",22,45,0,0,0,""},
{307,64,"ApplicationType","ApplicationType",29,45,0,0,0,""},
{338,64,"BuildInfo","BuildInfo",22,45,0,0,0,""},
{852,64,"ServerState","ServerState",29,45,0,0,0,""},
{862,64,"ServerStatusDataType","ServerStatusDataType",22,45,0,0,0,""},
{884,64,"Range","Range",22,45,0,0,0,""},
{887,64,"EUInformation","EUInformation",22,45,0,0,0,""},
