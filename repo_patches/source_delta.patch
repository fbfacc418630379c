From a413fa3f5c430800923f05bec59ec2951dd17192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 01/35] fix: report truncated, malformed and unreadable files
 from Parser_run

The result of the terminating xmlParseChunk and the error indicator of the
stream were ignored, so a file which ends too early or which cannot be read
to its end was reported as a success. The parser context was leaked on error.
xmlCleanupParser tore down libxml2 below every other parser of the process.
---
 src/Parser.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Parser.c b/src/Parser.c
index aa5bf27..abaa8d4 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -51,12 +51,18 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
         if (xmlParseChunk(ctxt, chars, res, 0))
         {
             xmlParserError(ctxt, "xmlParseChunk");
+            xmlFreeParserCtxt(ctxt);
             return 1;
         }
     }
-    xmlParseChunk(ctxt, chars, 0, 1);
+    // an I/O error must not be taken for the end of the file and a document
+    // which ends too early is only detected when the parser is terminated
+    int failed = ferror(file);
+    if (xmlParseChunk(ctxt, chars, 0, 1))
+    {
+        failed = 1;
+    }
     xmlFreeParserCtxt(ctxt);
-    xmlCleanupParser();
-    return 0;
+    return failed ? 1 : 0;
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0


From 23dfa9b731da3301802a1e28cd0ed245f5048a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 02/35] fix: deliver an ampersand in an attribute as written in
 the file

Without entity replacement libxml2 passes &amp; in an attribute value as the
text &#38;. A failed creation of the parser context is reported, too.
---
 src/Parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Parser.c b/src/Parser.c
index abaa8d4..d8e7ff0 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -46,6 +46,12 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     xmlInitParser(); // Fix memory leak: https://gitlab.gnome.org/GNOME/libxml2/-/issues/9
     xmlParserCtxtPtr ctxt =
         xmlCreatePushParserCtxt(&hdl, parser->context, chars, res, NULL);
+    if (!ctxt)
+    {
+        return 1;
+    }
+    // deliver "&amp;" in attributes as "&" and not as "&#38;"
+    ctxt->replaceEntities = 1;
     while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
     {
         if (xmlParseChunk(ctxt, chars, res, 0))
-- 
2.43.0


From e1f5828a96881494df8638291c649b8f7399491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 03/35] fix: fail cleanly when a loader cannot allocate its
 parts

NodesetLoader_new and the first import dereferenced parts which could not be
allocated. A loader which has not imported anything yet has no nodeset:
deleting, sorting and iterating it crashed as well.
---
 src/AliasList.c           |  4 ++++
 src/CharAllocator.c       |  9 +++++++++
 src/InternalRefService.c  |  6 ++++++
 src/NamespaceList.c       |  4 ++++
 src/Nodeset.c             | 12 +++++++++++
 src/NodesetLoader.c       | 42 +++++++++++++++++++++++++++++++++++++--
 src/Parser.c              |  6 ++++--
 src/PrintfLogger.c        |  4 ++++
 src/Sort.c                | 13 ++++++++++++
 src/nodes/NodeContainer.c |  4 ++++
 10 files changed, 100 insertions(+), 4 deletions(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index f187ad6..0270b2d 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -59,6 +59,10 @@ const UA_NodeId *
 
 void AliasList_delete(AliasList *list)
 {
+    if (!list)
+    {
+        return;
+    }
     free(list->data);
     free(list);
 }
diff --git a/src/CharAllocator.c b/src/CharAllocator.c
index a378ca4..1ea1e8b 100644
--- a/src/CharAllocator.c
+++ b/src/CharAllocator.c
@@ -55,6 +55,11 @@ CharArenaAllocator *CharArenaAllocator_new(size_t initialSize)
     }
     arena->initialSize = initialSize;
     arena->current = Region_new(arena->initialSize);
+    if(!arena->current)
+    {
+        free(arena);
+        return NULL;
+    }
     return arena;
 }
 
@@ -111,6 +116,10 @@ char *CharArenaAllocator_realloc(CharArenaAllocator *arena, size_t size)
 
 void CharArenaAllocator_delete(CharArenaAllocator *arena)
 {
+    if (!arena)
+    {
+        return;
+    }
     struct Region *r = arena->current;
     while (r)
     {
diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index 45e2f2c..deecce6 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -197,10 +197,16 @@ NL_ReferenceService *InternalRefService_new(void)
     service->hierachicalRefs = hierachicalRefs;
     service->hierachicalRefsSize = 9;
     service->nonHierachicalRefs = NodeContainer_new(100, false);
+    if(!service->nonHierachicalRefs)
+    {
+        free(service);
+        return NULL;
+    }
 
     NL_ReferenceService *refService = (NL_ReferenceService *)calloc(1, sizeof(NL_ReferenceService));
     if(!refService)
     {
+        NodeContainer_delete(service->nonHierachicalRefs);
         free(service);
         return NULL;
     }
diff --git a/src/NamespaceList.c b/src/NamespaceList.c
index 6c96665..f6275dc 100644
--- a/src/NamespaceList.c
+++ b/src/NamespaceList.c
@@ -37,6 +37,10 @@ NamespaceList *NamespaceList_new(NL_addNamespaceCallback cb)
 
 void NamespaceList_delete(NamespaceList *list)
 {
+    if (!list)
+    {
+        return;
+    }
     free(list->data);
     free(list);
 }
diff --git a/src/Nodeset.c b/src/Nodeset.c
index a3b3c88..8ef8e90 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -178,6 +178,18 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     nodeset->refService = refService;
     nodeset->sortCtx = Sort_init();
     nodeset->logger = logger;
+    bool allocated = nodeset->aliasList && nodeset->namespaces &&
+                     nodeset->charArena && nodeset->nodesWithUnknownRefs &&
+                     nodeset->refTypesWithUnknownRefs && nodeset->sortCtx;
+    for (size_t cnt = 0; cnt < NL_NODECLASS_COUNT; cnt++)
+    {
+        allocated = allocated && nodeset->nodes[cnt];
+    }
+    if (!allocated)
+    {
+        Nodeset_cleanup(nodeset);
+        return NULL;
+    }
     return nodeset;
 }
 
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 4e80577..d6f7afe 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -465,6 +465,13 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
     {
         loader->nodeset = Nodeset_new(fileHandler->addNamespace, loader->logger,
                                       loader->refService);
+        if (!loader->nodeset)
+        {
+            loader->logger->log(loader->logger->context,
+                                NODESETLOADER_LOGLEVEL_ERROR,
+                                "NodesetLoader: out of memory");
+            return false;
+        }
     }
 
     TParserCtx *ctx = NULL;
@@ -482,6 +489,9 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
     ctx = (TParserCtx *)calloc(1, sizeof(TParserCtx));
     if (!ctx)
     {
+        loader->logger->log(loader->logger->context,
+                            NODESETLOADER_LOGLEVEL_ERROR,
+                            "NodesetLoader: out of memory");
         retStatus = false;
         goto cleanup;
     }
@@ -495,6 +505,14 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
     ctx->extIf = fileHandler->extensionHandling;
 
     Parser *parser = Parser_new(ctx);
+    if (!parser)
+    {
+        loader->logger->log(loader->logger->context,
+                            NODESETLOADER_LOGLEVEL_ERROR,
+                            "NodesetLoader: out of memory");
+        retStatus = false;
+        goto cleanup;
+    }
     if (Parser_run(parser, f, OnStartElementNs, OnEndElementNs, OnCharacters))
     {
         loader->logger->log(loader->logger->context,
@@ -514,6 +532,10 @@ cleanup:
 
 bool NodesetLoader_sort(NodesetLoader *loader)
 {
+    if (!loader->nodeset)
+    {
+        return true;
+    }
     return Nodeset_sort(loader->nodeset);
 }
 
@@ -543,17 +565,25 @@ NodesetLoader *NodesetLoader_new(NodesetLoader_Logger *logger,
     {
         loader->refService = refService;
     }
+    if (!loader->logger || !loader->refService)
+    {
+        NodesetLoader_delete(loader);
+        return NULL;
+    }
     return loader;
 }
 
 void NodesetLoader_delete(NodesetLoader *loader)
 {
-    Nodeset_cleanup(loader->nodeset);
+    if (loader->nodeset)
+    {
+        Nodeset_cleanup(loader->nodeset);
+    }
     if (loader->internalLogger)
     {
         free(loader->logger);
     }
-    if (loader->internalRefService)
+    if (loader->internalRefService && loader->refService)
     {
         InternalRefService_delete(loader->refService);
     }
@@ -563,6 +593,10 @@ void NodesetLoader_delete(NodesetLoader *loader)
 const NL_BiDirectionalReference *
 NodesetLoader_getBidirectionalRefs(const NodesetLoader *loader)
 {
+    if (!loader->nodeset)
+    {
+        return NULL;
+    }
     return Nodeset_getBiDirectionalRefs(loader->nodeset);
 }
 
@@ -570,5 +604,9 @@ size_t NodesetLoader_forEachNode(NodesetLoader *loader, NL_NodeClass nodeClass,
                                void *context,
                                NodesetLoader_forEachNode_Func fn)
 {
+    if (!loader->nodeset)
+    {
+        return 0;
+    }
     return Nodeset_forEachNode(loader->nodeset, nodeClass, context, fn);
 }
diff --git a/src/Parser.c b/src/Parser.c
index d8e7ff0..de82414 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -6,7 +6,6 @@
  */
 
 #include "Parser.h"
-#include <assert.h>
 #include <libxml/SAX.h>
 #include <stdlib.h>
 #include <string.h>
@@ -19,7 +18,10 @@ struct Parser
 Parser *Parser_new(void *context)
 {
     Parser *parser = (Parser *)calloc(1, sizeof(Parser));
-    assert(parser);
+    if(!parser)
+    {
+        return NULL;
+    }
     parser->context = context;
     return parser;
 }
diff --git a/src/PrintfLogger.c b/src/PrintfLogger.c
index 6acf9c3..14b4920 100644
--- a/src/PrintfLogger.c
+++ b/src/PrintfLogger.c
@@ -25,6 +25,10 @@ NodesetLoader_Logger *InternalLogger_new(void)
 {
     NodesetLoader_Logger *logger =
         (NodesetLoader_Logger *)calloc(1, sizeof(NodesetLoader_Logger));
+    if(!logger)
+    {
+        return NULL;
+    }
     logger->log = &logStdOut;
     return logger;
 }
diff --git a/src/Sort.c b/src/Sort.c
index 9ee81c3..2a25967 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -243,7 +243,16 @@ static void walk_tree(SortContext *ctx, S_Node *rootNode,
 SortContext *Sort_init(void)
 {
     SortContext *ctx = (SortContext *)calloc(1, sizeof(SortContext));
+    if(!ctx)
+    {
+        return NULL;
+    }
     ctx->root1 = new_node(NULL);
+    if(!ctx->root1)
+    {
+        free(ctx);
+        return NULL;
+    }
     return ctx;
 }
 
@@ -272,6 +281,10 @@ static void cleanupSubtree(S_Node *n)
 
 void Sort_cleanup(SortContext *ctx)
 {
+    if (!ctx)
+    {
+        return;
+    }
     if (ctx->root1)
     {
         cleanupSubtree(ctx->root1);
diff --git a/src/nodes/NodeContainer.c b/src/nodes/NodeContainer.c
index 8f65170..7417a92 100644
--- a/src/nodes/NodeContainer.c
+++ b/src/nodes/NodeContainer.c
@@ -50,6 +50,10 @@ void NodeContainer_add(NodeContainer *container, NL_Node *node)
 
 void NodeContainer_delete(NodeContainer *container)
 {
+    if (!container)
+    {
+        return;
+    }
     if (container->owner)
     {
         for (size_t i = 0; i < container->size; i++)
-- 
2.43.0


From c55009483c81455a15a2707a81063c8eb860b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 04/35] fix: give every loader its own table of hierarchical
 reference types

All loaders shared one global array, so a loader saw the reference types of
another one, pointing into memory which was freed together with that loader.
The array had room for 50 types only and a type with several super types was
added more than once.
---
 src/InternalRefService.c | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index deecce6..65e6474 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -13,6 +13,7 @@
 struct InternalRefService
 {
     size_t hierachicalRefsSize;
+    size_t hierachicalRefsCapacity;
     NL_ReferenceTypeNode *hierachicalRefs;
     struct NodeContainer *nonHierachicalRefs;
 };
@@ -20,7 +21,9 @@ struct InternalRefService
 typedef struct InternalRefService InternalRefService;
 
 #define MAX_HIERACHICAL_REFS 50
-NL_ReferenceTypeNode hierachicalRefs[MAX_HIERACHICAL_REFS] = {
+#define INITIAL_HIERACHICAL_REFS                                               \
+    (sizeof(hierachicalRefs) / sizeof(hierachicalRefs[0]))
+static const NL_ReferenceTypeNode hierachicalRefs[] = {
     {NODECLASS_REFERENCETYPE,
      {0, UA_NODEIDTYPE_NUMERIC, {35}},
      {0, "Organizes"},
@@ -164,6 +167,21 @@ isRefTypeDef(const InternalRefService* service, const NL_Reference* ref) {
     return UA_NodeId_equal(&ref->refType, &hasTypeDefId);
 }
 
+static bool
+addHierachicalRef(InternalRefService *service, const NL_ReferenceTypeNode *node) {
+    if (service->hierachicalRefsSize == service->hierachicalRefsCapacity) {
+        size_t newCapacity = service->hierachicalRefsCapacity + MAX_HIERACHICAL_REFS;
+        NL_ReferenceTypeNode *newRefs = (NL_ReferenceTypeNode *)realloc(
+            service->hierachicalRefs, newCapacity * sizeof(NL_ReferenceTypeNode));
+        if (!newRefs)
+            return false;
+        service->hierachicalRefs = newRefs;
+        service->hierachicalRefsCapacity = newCapacity;
+    }
+    service->hierachicalRefs[service->hierachicalRefsSize++] = *node;
+    return true;
+}
+
 static void
 addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
     NL_Reference *ref = node->hierachicalRefs;
@@ -172,13 +190,15 @@ addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
         if (!ref->isForward) {
             for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
                 if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {
-                    service->hierachicalRefs[service->hierachicalRefsSize++] =
-                        *(NL_ReferenceTypeNode *)node;
+                    addHierachicalRef(service, node);
                     isHierachical = true;
                     break;
                 }
             }
         }
+        // one hierachical super type is enough, do not add the type again
+        if (isHierachical)
+            break;
         ref = ref->next;
     }
     if (!isHierachical) {
@@ -194,19 +214,26 @@ NL_ReferenceService *InternalRefService_new(void)
     {
         return NULL;
     }
-    service->hierachicalRefs = hierachicalRefs;
-    service->hierachicalRefsSize = 9;
+    // every loader has its own table, it is extended by the imported types
+    service->hierachicalRefs = (NL_ReferenceTypeNode *)malloc(
+        MAX_HIERACHICAL_REFS * sizeof(NL_ReferenceTypeNode));
     service->nonHierachicalRefs = NodeContainer_new(100, false);
-    if(!service->nonHierachicalRefs)
+    if(!service->hierachicalRefs || !service->nonHierachicalRefs)
     {
+        NodeContainer_delete(service->nonHierachicalRefs);
+        free(service->hierachicalRefs);
         free(service);
         return NULL;
     }
+    memcpy(service->hierachicalRefs, hierachicalRefs, sizeof(hierachicalRefs));
+    service->hierachicalRefsSize = INITIAL_HIERACHICAL_REFS;
+    service->hierachicalRefsCapacity = MAX_HIERACHICAL_REFS;
 
     NL_ReferenceService *refService = (NL_ReferenceService *)calloc(1, sizeof(NL_ReferenceService));
     if(!refService)
     {
         NodeContainer_delete(service->nonHierachicalRefs);
+        free(service->hierachicalRefs);
         free(service);
         return NULL;
     }
@@ -226,6 +253,7 @@ void InternalRefService_delete(NL_ReferenceService *refService)
     InternalRefService *internalService =
         (InternalRefService *)refService->context;
     NodeContainer_delete(internalService->nonHierachicalRefs);
+    free(internalService->hierachicalRefs);
     free(internalService);
     free(refService);
 }
-- 
2.43.0


From 7ee52295a1262d9f02b97351b259f8f3472eebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 05/35] fix: treat HasChild, HasOrderedComponent and
 HasHistoricalConfiguration as hierarchical

These standard reference types are subtypes of HierarchicalReferences, nodes
connected by them were not brought into the order of the hierarchy.
---
 src/InternalRefService.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index 65e6474..3cfb444 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -133,6 +133,42 @@ static const NL_ReferenceTypeNode hierachicalRefs[] = {
      NULL,
      {NULL, NULL},
      NULL},
+    {NODECLASS_REFERENCETYPE,
+     {0, UA_NODEIDTYPE_NUMERIC, {34}},
+     {0, "HasChild"},
+     {NULL, NULL},
+     {NULL, NULL},
+     NULL,
+     NULL,
+     NULL,
+     NULL,
+     NULL,
+     {NULL, NULL},
+     NULL},
+    {NODECLASS_REFERENCETYPE,
+     {0, UA_NODEIDTYPE_NUMERIC, {49}},
+     {0, "HasOrderedComponent"},
+     {NULL, NULL},
+     {NULL, NULL},
+     NULL,
+     NULL,
+     NULL,
+     NULL,
+     NULL,
+     {NULL, NULL},
+     NULL},
+    {NODECLASS_REFERENCETYPE,
+     {0, UA_NODEIDTYPE_NUMERIC, {56}},
+     {0, "HasHistoricalConfiguration"},
+     {NULL, NULL},
+     {NULL, NULL},
+     NULL,
+     NULL,
+     NULL,
+     NULL,
+     NULL,
+     {NULL, NULL},
+     NULL},
 };
 
 static bool
-- 
2.43.0


From 14ef9b4f7f64fb0b98373fe3767356d9acb7b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 06/35] fix: accept any number of aliases and let the last
 definition win

The 301st alias of a loader crashed the import and an alias of an earlier file
shadowed the definition of the file which is imported. The ids were leaked.
---
 src/AliasList.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index 0270b2d..6044abf 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -9,12 +9,13 @@
 #include <stdlib.h>
 #include <string.h>
 
-#define MAX_ALIAS 300
+#define ALIAS_INCREMENT 300
 
 struct AliasList
 {
     Alias *data;
     size_t size;
+    size_t capacity;
 };
 
 AliasList *AliasList_new(void)
@@ -24,20 +25,29 @@ AliasList *AliasList_new(void)
     {
         return NULL;
     }
-    list->data = (Alias *)calloc(MAX_ALIAS, sizeof(Alias));
+    list->data = (Alias *)calloc(ALIAS_INCREMENT, sizeof(Alias));
     if(!list->data)
     {
         free(list);
         return NULL;
     }
+    list->capacity = ALIAS_INCREMENT;
     return list;
 }
 
 Alias *AliasList_newAlias(AliasList *list, char *name)
 {
-    if(list->size >= MAX_ALIAS)
+    if(list->size >= list->capacity)
     {
-        return NULL;
+        size_t newCapacity = list->capacity + ALIAS_INCREMENT;
+        Alias *newData =
+            (Alias *)realloc(list->data, newCapacity * sizeof(Alias));
+        if(!newData)
+        {
+            return NULL;
+        }
+        list->data = newData;
+        list->capacity = newCapacity;
     }
     list->data[list->size].name = name;
     UA_NodeId_init(&list->data[list->size].id);
@@ -50,7 +60,10 @@ const UA_NodeId *
     if(!name)
         return NULL;
 
-    for(Alias* alias = list->data; alias != list->data + list->size; alias++) {
+    // the definition which was added last is valid, a file must not be affected
+    // by the aliases of the files imported before
+    for(size_t i = list->size; i > 0; i--) {
+        const Alias *alias = &list->data[i - 1];
         if (!strcmp(name, alias->name))
             return &alias->id;
     }
@@ -63,6 +76,10 @@ void AliasList_delete(AliasList *list)
     {
         return;
     }
+    for(size_t i = 0; i < list->size; i++)
+    {
+        UA_NodeId_clear(&list->data[i].id);
+    }
     free(list->data);
     free(list);
 }
-- 
2.43.0


From e3457a5cc6759f69a02ef04e42b06cda754a6913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 07/35] fix: give every node its own node ids and release all
 of them

The ids of aliases were copied without their content, so they were shared by
several owners, and the ids of data types, type definitions, method and view
parents, definition fields and unresolved references were never released. New
definition fields were not initialised and an alias without a name crashed.
---
 src/Nodeset.c            | 20 ++++++++++++++++----
 src/nodes/DataTypeNode.c | 19 ++++++++++++++-----
 src/nodes/Node.c         | 14 ++++++++++++--
 3 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 8ef8e90..6ed1708 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -150,7 +150,10 @@ static UA_NodeId alias2Id(const Nodeset *nodeset, char *name)
     {
         return extractNodedId(nodeset->namespaces, name);
     }
-    return *alias;
+    // the caller is the owner of the returned id, the list keeps its own
+    UA_NodeId id = UA_NODEID_NULL;
+    UA_NodeId_copy(alias, &id);
+    return id;
 }
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
@@ -488,13 +491,22 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
 Alias *Nodeset_newAlias(Nodeset *nodeset, int attributeSize,
                         const char **attributes)
 {
-    return AliasList_newAlias(
-        nodeset->aliasList,
-        getAttributeValue(nodeset, &attrAlias, attributes, attributeSize));
+    char *name =
+        getAttributeValue(nodeset, &attrAlias, attributes, attributeSize);
+    // there is nothing which could refer to an alias without a name
+    if (!name)
+    {
+        return NULL;
+    }
+    return AliasList_newAlias(nodeset->aliasList, name);
 }
 
 void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
 {
+    if (!alias)
+    {
+        return;
+    }
     alias->id = extractNodedId(nodeset->namespaces, idString);
 }
 
diff --git a/src/nodes/DataTypeNode.c b/src/nodes/DataTypeNode.c
index c2343e7..91ebea5 100644
--- a/src/nodes/DataTypeNode.c
+++ b/src/nodes/DataTypeNode.c
@@ -7,17 +7,22 @@
 
 #include "DataTypeNode.h"
 #include <stdlib.h>
+#include <string.h>
 
 static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition)
 {
-    definition->fieldCnt++;
-    definition->fields = (NL_DataTypeDefinitionField *)realloc(
-        definition->fields,
-        definition->fieldCnt * sizeof(NL_DataTypeDefinitionField));
-    if(!definition->fields)
+    NL_DataTypeDefinitionField *newFields =
+        (NL_DataTypeDefinitionField *)realloc(
+            definition->fields,
+            (definition->fieldCnt + 1) * sizeof(NL_DataTypeDefinitionField));
+    if(!newFields)
     {
         return NULL;
     }
+    definition->fields = newFields;
+    definition->fieldCnt++;
+    memset(&definition->fields[definition->fieldCnt - 1], 0,
+           sizeof(NL_DataTypeDefinitionField));
     return &definition->fields[definition->fieldCnt - 1];
 }
 
@@ -41,6 +46,10 @@ void DataTypeNode_clear(NL_DataTypeNode *node)
 {
     if (node->definition)
     {
+        for (size_t i = 0; i < node->definition->fieldCnt; i++)
+        {
+            UA_NodeId_clear(&node->definition->fields[i].dataType);
+        }
         free(node->definition->fields);
     }
     free(node->definition);
diff --git a/src/nodes/Node.c b/src/nodes/Node.c
index f494a80..b8f523f 100644
--- a/src/nodes/Node.c
+++ b/src/nodes/Node.c
@@ -64,6 +64,7 @@ void Node_delete(NL_Node *node)
     UA_NodeId_clear(&node->id);
     deleteRef(node->hierachicalRefs);
     deleteRef(node->nonHierachicalRefs);
+    deleteRef(node->unknownRefs);
     if (node->nodeClass == NODECLASS_DATATYPE)
     {
         DataTypeNode_clear((NL_DataTypeNode *)node);
@@ -71,8 +72,9 @@ void Node_delete(NL_Node *node)
     if(node->nodeClass == NODECLASS_VARIABLE)
     {
         NL_VariableNode* varNode = (NL_VariableNode*)node;
-        free(varNode->refToTypeDef);
+        deleteRef(varNode->refToTypeDef);
         UA_NodeId_clear(&varNode->parentNodeId);
+        UA_NodeId_clear(&varNode->datatype);
         if(varNode->value)
         {
             Value_delete(varNode->value);
@@ -82,7 +84,15 @@ void Node_delete(NL_Node *node)
     {
         NL_ObjectNode *objNode = (NL_ObjectNode *)node;
         UA_NodeId_clear(&objNode->parentNodeId);
-        free(objNode->refToTypeDef);
+        deleteRef(objNode->refToTypeDef);
+    }
+    if(node->nodeClass==NODECLASS_VARIABLETYPE)
+    {
+        UA_NodeId_clear(&((NL_VariableTypeNode *)node)->datatype);
+    }
+    if(node->nodeClass==NODECLASS_METHOD || node->nodeClass==NODECLASS_VIEW)
+    {
+        UA_NodeId_clear(&((NL_InstanceNode *)node)->parentNodeId);
     }
     free(node);
 }
-- 
2.43.0


From 2b8c7393931485599717013473ca3137bf53bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 08/35] fix: use the namespace table and the callback of the
 imported file

The namespaces of a second file were appended to those of the first one, so
its indices were translated with the wrong table, and the callback of the
first file was asked for all of them. An empty uri was passed as NULL.
---
 src/NamespaceList.c | 19 +++++++++++++------
 src/NamespaceList.h |  2 ++
 src/Nodeset.c       |  8 +++++++-
 src/Nodeset.h       |  1 +
 src/NodesetLoader.c |  2 ++
 5 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/NamespaceList.c b/src/NamespaceList.c
index f6275dc..1ec175c 100644
--- a/src/NamespaceList.c
+++ b/src/NamespaceList.c
@@ -45,18 +45,25 @@ void NamespaceList_delete(NamespaceList *list)
     free(list);
 }
 
+void NamespaceList_reset(NamespaceList *list, NL_addNamespaceCallback cb)
+{
+    list->cb = cb;
+    list->size = 1;
+}
+
 Namespace *NamespaceList_newNamespace(NamespaceList *list, void *userContext,
                                       const char *uri)
 {
-    // ask backend to create/get overall namespaceIndex
-    short unsigned globalIdx = list->cb(userContext, uri);
-    list->size++;
-    list->data =
-        (Namespace *)realloc(list->data, sizeof(Namespace) * list->size);
-    if(!list->data)
+    Namespace *newData =
+        (Namespace *)realloc(list->data, sizeof(Namespace) * (list->size + 1));
+    if(!newData)
     {
         return NULL;
     }
+    list->data = newData;
+    // ask backend to create/get overall namespaceIndex
+    short unsigned globalIdx = list->cb(userContext, uri);
+    list->size++;
     list->data[list->size - 1].name = uri;
     list->data[list->size - 1].idx = globalIdx;
     return &list->data[list->size - 1];
diff --git a/src/NamespaceList.h b/src/NamespaceList.h
index b2e1aed..efb1d51 100644
--- a/src/NamespaceList.h
+++ b/src/NamespaceList.h
@@ -22,6 +22,8 @@ struct Namespace
 };
 
 NamespaceList *NamespaceList_new(NL_addNamespaceCallback cb);
+/* namespace indices are relative to the table of the file they are used in */
+void NamespaceList_reset(NamespaceList *list, NL_addNamespaceCallback cb);
 Namespace *NamespaceList_newNamespace(NamespaceList *list, void *userContext,
                                       const char *uri);
 void NamespaceList_setUri(NamespaceList *list, Namespace *ns);
diff --git a/src/Nodeset.c b/src/Nodeset.c
index 6ed1708..b2ab080 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -196,6 +196,11 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     return nodeset;
 }
 
+void Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback)
+{
+    NamespaceList_reset(nodeset->namespaces, nsCallback);
+}
+
 static void Nodeset_addNode(Nodeset *nodeset, NL_Node *node)
 {
     NodeContainer_add(nodeset->nodes[node->nodeClass], node);
@@ -513,7 +518,8 @@ void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
 void Nodeset_newNamespaceFinish(Nodeset *nodeset, void *userContext,
                                 char *namespaceUri)
 {
-    NamespaceList_newNamespace(nodeset->namespaces, userContext, namespaceUri);
+    NamespaceList_newNamespace(nodeset->namespaces, userContext,
+                               namespaceUri ? namespaceUri : "");
 }
 
 void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
diff --git a/src/Nodeset.h b/src/Nodeset.h
index bc67733..c0f613f 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -41,6 +41,7 @@ struct Nodeset
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback, NodesetLoader_Logger* logger, NL_ReferenceService* refService);
 void Nodeset_cleanup(Nodeset *nodeset);
+void Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback);
 bool Nodeset_sort(Nodeset *nodeset);
 NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
                        int attributeSize, const char **attributes);
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index d6f7afe..3985e09 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -474,6 +474,8 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
         }
     }
 
+    Nodeset_startFile(loader->nodeset, fileHandler->addNamespace);
+
     TParserCtx *ctx = NULL;
     FILE *f = fopen(fileHandler->file, "r");
 
-- 
2.43.0


From 2b914a786edb4d0970004f85508f25564f60ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 09/35] fix: build the graph of the hierarchy when the nodes
 are sorted

The reference generated by ParentNodeId depended on the order of the nodes in
the file and was missing for a node which has only forward hierarchical
references. Sorting destroyed the graph, so a loader could not be sorted again
after a further import, and an edge was dropped silently if there was no memory
for it.
---
 src/Sort.c                | 156 ++++++++++++++++++++++++++++++--------
 src/Sort.h                |   1 +
 src/nodes/NodeContainer.c |  10 ++-
 src/nodes/NodeContainer.h |   2 +-
 4 files changed, 133 insertions(+), 36 deletions(-)

diff --git a/src/Sort.c b/src/Sort.c
index 2a25967..4beafa2 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -33,6 +33,8 @@ struct S_Node
     struct S_Edge *edges;
     size_t edgeCount;
     NL_Node *data;
+    // nodes with data in the order they were added
+    struct S_Node *nextAdded;
 };
 
 typedef struct S_Node S_Node;
@@ -43,6 +45,8 @@ struct SortContext
     S_Node *zeros;
     S_Node *root1;
     size_t keyCnt;
+    S_Node *firstAdded;
+    S_Node *lastAdded;
 };
 
 static S_Node *new_node(const UA_NodeId *id)
@@ -87,6 +91,8 @@ search_node(S_Node *rootNode, const UA_NodeId *nodeId) {
 
         if (q == NULL) {
             q = new_node(nodeId);
+            if (q == NULL)
+                return NULL;
             if (a == UA_ORDER_LESS)
                 p->left = q;
             else
@@ -177,19 +183,20 @@ search_node(S_Node *rootNode, const UA_NodeId *nodeId) {
     }
 }
 
-static void
+static bool
 record_relation(S_Node *from, S_Node *to) {
     if(UA_NodeId_equal(from->id, to->id))
-        return;
+        return true;
 
     struct S_Edge *e = (S_Edge *)calloc(1, sizeof(S_Edge));
     if(!e)
-        return;
+        return false;
 
     to->edgeCount++;
     e->dest = to;
     e->next = from->edges;
     from->edges = e;
+    return true;
 }
 
 static bool count_items(SortContext *ctx, S_Node *unused)
@@ -296,28 +303,47 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
     S_Node *j = NULL;
     // add node, no matter if there are references on it
     j = search_node(ctx->root1, &data->id);
+    if(j==NULL)
+    {
+        return false;
+    }
     // entry already exists
     if(j->data!=NULL)
     {
         return false;
     }
     j->data = data;
-    NL_Reference *hierachicalRef = data->hierachicalRefs;
-    bool hierachicalRefRecorded = false;
-    if (hierachicalRef) {
-        while (hierachicalRef) {
-            S_Node *k = search_node(ctx->root1, &hierachicalRef->target);
-            if (!hierachicalRef->isForward) {
-                record_relation(k, j);
-            } else {
-                record_relation(j, k);
-            }
-            hierachicalRef = hierachicalRef->next;
-            hierachicalRefRecorded = true;
-        }
+    if(ctx->lastAdded)
+        ctx->lastAdded->nextAdded = j;
+    else
+        ctx->firstAdded = j;
+    ctx->lastAdded = j;
+    return true;
+}
+
+bool Sort_hasNode(SortContext *ctx, const UA_NodeId *id) {
+    S_Node *j = ctx->root1->right;
+    while(j) {
+        UA_Order a = UA_NodeId_order(id, j->id);
+        if(a == UA_ORDER_EQ)
+            return j->data != NULL;
+        j = (a == UA_ORDER_LESS) ? j->left : j->right;
+    }
+    return false;
+}
+
+// add reference generated by ParentNodeId, if the node is not connected to a
+// parent by one of its own references. All nodes have to be added already, the
+// type of the reference is taken from the parent.
+static bool
+addParentRef(SortContext *ctx, S_Node *j) {
+    NL_Node *data = j->data;
+    bool hasParent = false;
+    for(NL_Reference *r = data->hierachicalRefs; r; r = r->next) {
+        if(!r->isForward)
+            hasParent = true;
     }
-    // add reference generated by ParentNodeId, if dont have already a hierachical ref
-    if (!hierachicalRefRecorded && NodesetLoader_isInstanceNode(data)) {
+    if (!hasParent && NodesetLoader_isInstanceNode(data)) {
         NL_InstanceNode *instanceNode = (NL_InstanceNode *)data;
         if(UA_NodeId_equal(&instanceNode->parentNodeId, &UA_NODEID_NULL))
         {
@@ -325,21 +351,24 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
         }
 
         S_Node *k = search_node(ctx->root1, &instanceNode->parentNodeId);
-        
+        if(!k)
+            return false;
+        NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
+        if(!newRef)
+            return false;
+
         //to we already have a reference for the node parentNode?
         //parent references
         bool refTypeFound = false;
+        UA_StatusCode res = UA_STATUSCODE_GOOD;
         if (k->data) {
             NL_Reference *r = k->data->hierachicalRefs;
             while (r) {
-                if (UA_NodeId_equal(&r->target, &data->id)) 
+                if (r->isForward && UA_NodeId_equal(&r->target, &data->id)) 
                 {
-                    NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
                     newRef->isForward = !r->isForward;
-                    UA_NodeId_copy(&k->data->id, &newRef->target);
-                    UA_NodeId_copy(&r->refType, &newRef->refType);
-                    newRef->next = data->hierachicalRefs;
-                    data->hierachicalRefs = newRef;
+                    res |= UA_NodeId_copy(&k->data->id, &newRef->target);
+                    res |= UA_NodeId_copy(&r->refType, &newRef->refType);
                     refTypeFound = true;
                     break;
                 }
@@ -348,14 +377,70 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
         }
         if(!refTypeFound)
         {
-            NL_Reference *newRef =
-            (NL_Reference *)calloc(1, sizeof(NL_Reference));
             newRef->isForward = false;
-            UA_NodeId_copy(&instanceNode->parentNodeId, &newRef->target);
+            res |= UA_NodeId_copy(&instanceNode->parentNodeId, &newRef->target);
             newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
-            newRef->next = data->hierachicalRefs;
-            data->hierachicalRefs = newRef;
         }
+        if(res != UA_STATUSCODE_GOOD)
+        {
+            UA_NodeId_clear(&newRef->target);
+            UA_NodeId_clear(&newRef->refType);
+            free(newRef);
+            return false;
+        }
+        newRef->next = data->hierachicalRefs;
+        data->hierachicalRefs = newRef;
+    }
+    return true;
+}
+
+static bool
+addRelations(SortContext *ctx, S_Node *j) {
+    NL_Reference *hierachicalRef = j->data->hierachicalRefs;
+    if (hierachicalRef) {
+        while (hierachicalRef) {
+            S_Node *k = search_node(ctx->root1, &hierachicalRef->target);
+            bool recorded = false;
+            if (!k)
+                return false;
+            if (!hierachicalRef->isForward) {
+                recorded = record_relation(k, j);
+            } else {
+                recorded = record_relation(j, k);
+            }
+            if (!recorded)
+                return false;
+            hierachicalRef = hierachicalRef->next;
+        }
+    }
+    return true;
+}
+
+static bool reset_node(SortContext *ctx, S_Node *k)
+{
+    cleanupEdges(k->edges);
+    k->edges = NULL;
+    k->edgeCount = 0;
+    k->qlink = NULL;
+    return false;
+}
+
+static bool buildGraph(SortContext *ctx)
+{
+    // the nodes may have been sorted before
+    walk_tree(ctx, ctx->root1, reset_node);
+    ctx->head = NULL;
+    ctx->zeros = NULL;
+    ctx->keyCnt = 0;
+    for (S_Node *j = ctx->firstAdded; j; j = j->nextAdded)
+    {
+        if (!addParentRef(ctx, j))
+            return false;
+    }
+    for (S_Node *j = ctx->firstAdded; j; j = j->nextAdded)
+    {
+        if (!addRelations(ctx, j))
+            return false;
     }
     return true;
 }
@@ -363,6 +448,16 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
 bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 Sort_SortedNodeCallback callback, NodesetLoader_Logger *logger)
 {
+    if (!buildGraph(ctx))
+    {
+        if (logger)
+        {
+            logger->log(logger->context, NODESETLOADER_LOGLEVEL_ERROR,
+                        "out of memory, nodes cannot be sorted");
+        }
+        return false;
+    }
+
     walk_tree(ctx, ctx->root1, count_items);
 
     while (ctx->keyCnt > 0)
@@ -378,7 +473,6 @@ bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 callback(nodeset, ctx->head->data);
             }
 
-            ctx->head->id = NULL;
             ctx->keyCnt--;
 
             while (e)
diff --git a/src/Sort.h b/src/Sort.h
index 047172f..f278cfe 100644
--- a/src/Sort.h
+++ b/src/Sort.h
@@ -23,6 +23,7 @@ typedef struct SortContext SortContext;
 SortContext* Sort_init(void);
 void Sort_cleanup(SortContext * ctx);
 bool Sort_addNode(SortContext* ctx, struct NL_Node *node);
+bool Sort_hasNode(SortContext* ctx, const UA_NodeId *id);
 typedef void (*Sort_SortedNodeCallback)(struct Nodeset *nodeset, struct NL_Node *node);
 bool Sort_start(SortContext* ctx, struct Nodeset *nodeset, Sort_SortedNodeCallback callback, struct NodesetLoader_Logger* logger);
 
diff --git a/src/nodes/NodeContainer.c b/src/nodes/NodeContainer.c
index 7417a92..3fe4080 100644
--- a/src/nodes/NodeContainer.c
+++ b/src/nodes/NodeContainer.c
@@ -31,21 +31,23 @@ NodeContainer *NodeContainer_new(size_t initialSize, bool owner)
     return container;
 }
 
-void NodeContainer_add(NodeContainer *container, NL_Node *node)
+bool NodeContainer_add(NodeContainer *container, NL_Node *node)
 {
     if (container->size == container->capacity)
     {
-        container->nodes = (NL_Node **)realloc(
+        NL_Node **newNodes = (NL_Node **)realloc(
             container->nodes,
             (container->size + container->incrementSize) * sizeof(void *));
-        if(!container->nodes)
+        if(!newNodes)
         {
-            return;
+            return false;
         }
+        container->nodes = newNodes;
         container->capacity += container->incrementSize;
     }
     container->nodes[container->size] = node;
     container->size++;
+    return true;
 }
 
 void NodeContainer_delete(NodeContainer *container)
diff --git a/src/nodes/NodeContainer.h b/src/nodes/NodeContainer.h
index f0143d5..ec6b786 100644
--- a/src/nodes/NodeContainer.h
+++ b/src/nodes/NodeContainer.h
@@ -21,6 +21,6 @@ typedef struct NodeContainer NodeContainer;
 
 NodeContainer *NodeContainer_new(size_t initialSize, bool owner);
 void NodeContainer_delete(NodeContainer *container);
-void NodeContainer_add(NodeContainer *container, NL_Node *node);
+bool NodeContainer_add(NodeContainer *container, NL_Node *node);
 
 #endif
-- 
2.43.0


From f2403c13ad3f861f7fad3e46ca41b488e60ca262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 10/35] fix: own nodes from their end on and classify reference
 types by their super type

Nodes which were not sorted, could not be sorted or had unresolved references
at a failed sort were leaked. A reference type was classified before its super
type was known, and an unresolved reference of a reference type made the sort
run forever. Nodes with unresolved references did not take part in the check
for duplicates.
---
 src/Nodeset.c | 170 +++++++++++++++++++++++++++++++++++++-------------
 src/Nodeset.h |   4 +-
 2 files changed, 128 insertions(+), 46 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index b2ab080..f387d6f 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -168,22 +168,24 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     nodeset->aliasList = AliasList_new();
     nodeset->namespaces = NamespaceList_new(nsCallback);
     nodeset->charArena = CharArenaAllocator_new(1024 * 1024);
-    nodeset->nodes[NODECLASS_OBJECT] = NodeContainer_new(10000, true);
-    nodeset->nodes[NODECLASS_VARIABLE] = NodeContainer_new(10000, true);
-    nodeset->nodes[NODECLASS_METHOD] = NodeContainer_new(1000, true);
-    nodeset->nodes[NODECLASS_OBJECTTYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_DATATYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, true);
+    nodeset->allNodes = NodeContainer_new(10000, true);
+    nodeset->nodes[NODECLASS_OBJECT] = NodeContainer_new(10000, false);
+    nodeset->nodes[NODECLASS_VARIABLE] = NodeContainer_new(10000, false);
+    nodeset->nodes[NODECLASS_METHOD] = NodeContainer_new(1000, false);
+    nodeset->nodes[NODECLASS_OBJECTTYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_DATATYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, false);
     nodeset->nodesWithUnknownRefs = NodeContainer_new(100, false);
-    nodeset->refTypesWithUnknownRefs = NodeContainer_new(100, false);
+    nodeset->pendingRefTypes = NodeContainer_new(100, false);
     nodeset->refService = refService;
     nodeset->sortCtx = Sort_init();
     nodeset->logger = logger;
     bool allocated = nodeset->aliasList && nodeset->namespaces &&
-                     nodeset->charArena && nodeset->nodesWithUnknownRefs &&
-                     nodeset->refTypesWithUnknownRefs && nodeset->sortCtx;
+                     nodeset->charArena && nodeset->allNodes &&
+                     nodeset->nodesWithUnknownRefs &&
+                     nodeset->pendingRefTypes && nodeset->sortCtx;
     for (size_t cnt = 0; cnt < NL_NODECLASS_COUNT; cnt++)
     {
         allocated = allocated && nodeset->nodes[cnt];
@@ -203,7 +205,10 @@ void Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback)
 
 static void Nodeset_addNode(Nodeset *nodeset, NL_Node *node)
 {
-    NodeContainer_add(nodeset->nodes[node->nodeClass], node);
+    if (!NodeContainer_add(nodeset->nodes[node->nodeClass], node))
+    {
+        nodeset->outOfMemory = true;
+    }
 }
 
 static void insertElementAtFront(NL_Reference **toList, NL_Reference *elem)
@@ -236,28 +241,82 @@ static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
     return true;
 }
 
+static bool isReferenceTypeKnown(Nodeset *nodeset, const UA_NodeId *id)
+{
+    NL_Reference ref = {0};
+    ref.refType = *id;
+    return nodeset->refService->isHierachicalRef(nodeset->refService->context,
+                                                 &ref) ||
+           nodeset->refService->isNonHierachicalRef(
+               nodeset->refService->context, &ref);
+}
+
+// a reference type can only be classified if its super type is known
+static bool isSuperTypeKnown(Nodeset *nodeset, const NL_Node *node)
+{
+    UA_NodeId hasSubtypeId = UA_NODEID_NUMERIC(0, 45);
+    for (NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next)
+    {
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtypeId) &&
+            !isReferenceTypeKnown(nodeset, &ref->target))
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
+static bool addReferenceType(Nodeset *nodeset, NL_Node *node)
+{
+    nodeset->refService->addNewReferenceType(nodeset->refService->context,
+                                             (NL_ReferenceTypeNode *)node);
+    return isReferenceTypeKnown(nodeset, &node->id);
+}
+
 static void lookupReferenceTypes(Nodeset *nodeset)
 {
+    NodeContainer *pending = nodeset->pendingRefTypes;
     bool allRefTypesKnown = false;
     while (!allRefTypesKnown)
     {
         allRefTypesKnown = true;
-        for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
+        size_t stillPending = 0;
+        for (size_t i = 0; i < pending->size; i++)
         {
-            allRefTypesKnown = lookupUnknownReferences(
-                nodeset, nodeset->refTypesWithUnknownRefs->nodes[i]);
+            NL_Node *node = pending->nodes[i];
+            if (isSuperTypeKnown(nodeset, node) &&
+                addReferenceType(nodeset, node))
+            {
+                // there may be subtypes which are waiting for this one
+                allRefTypesKnown = false;
+                continue;
+            }
+            pending->nodes[stillPending++] = node;
         }
+        pending->size = stillPending;
     }
 
-    for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
+    // there is no further information on the remaining types
+    size_t stillPending = 0;
+    for (size_t i = 0; i < pending->size; i++)
     {
-        Sort_addNode(nodeset->sortCtx,
-                     nodeset->refTypesWithUnknownRefs->nodes[i]);
+        NL_Node *node = pending->nodes[i];
+        if (!addReferenceType(nodeset, node))
+        {
+            pending->nodes[stillPending++] = node;
+        }
     }
+    pending->size = stillPending;
 }
 
 bool Nodeset_sort(Nodeset *nodeset)
 {
+    nodeset->outOfMemory = false;
+    // the nodes may have been sorted before
+    for (size_t cnt = 0; cnt < NL_NODECLASS_COUNT; cnt++)
+    {
+        nodeset->nodes[cnt]->size = 0;
+    }
     // first we have to figure out, if there are reference types, for which we
     // cannot state if they are hierachical or nonhierachical
     lookupReferenceTypes(nodeset);
@@ -279,11 +338,12 @@ bool Nodeset_sort(Nodeset *nodeset)
             UA_String_clear(&nodeIdStr);
             return false;
         }
-        Sort_addNode(nodeset->sortCtx, nodeset->nodesWithUnknownRefs->nodes[i]);
     }
+    nodeset->nodesWithUnknownRefs->size = 0;
 
-    return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
-                      nodeset->logger);
+    bool sorted = Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
+                             nodeset->logger);
+    return sorted && !nodeset->outOfMemory;
 }
 
 void Nodeset_cleanup(Nodeset *nodeset)
@@ -294,8 +354,9 @@ void Nodeset_cleanup(Nodeset *nodeset)
     {
         NodeContainer_delete(nodeset->nodes[cnt]);
     }
+    NodeContainer_delete(nodeset->allNodes);
     NodeContainer_delete(nodeset->nodesWithUnknownRefs);
-    NodeContainer_delete(nodeset->refTypesWithUnknownRefs);
+    NodeContainer_delete(nodeset->pendingRefTypes);
     NamespaceList_delete(nodeset->namespaces);
     Sort_cleanup(nodeset->sortCtx);
     NL_BiDirectionalReference *ref = nodeset->hasEncodingRefs;
@@ -522,38 +583,57 @@ void Nodeset_newNamespaceFinish(Nodeset *nodeset, void *userContext,
                                namespaceUri ? namespaceUri : "");
 }
 
+// add the node to all lists or to none of them
+static bool addToLists(Nodeset *nodeset, NL_Node *node)
+{
+    bool hasUnknownRefs = node->unknownRefs != NULL;
+    bool isRefType = node->nodeClass == NODECLASS_REFERENCETYPE;
+    if (!NodeContainer_add(nodeset->allNodes, node))
+    {
+        return false;
+    }
+    if (hasUnknownRefs &&
+        !NodeContainer_add(nodeset->nodesWithUnknownRefs, node))
+    {
+        nodeset->allNodes->size--;
+        return false;
+    }
+    if (isRefType && !NodeContainer_add(nodeset->pendingRefTypes, node))
+    {
+        nodeset->nodesWithUnknownRefs->size -= hasUnknownRefs;
+        nodeset->allNodes->size--;
+        return false;
+    }
+    if (!Sort_addNode(nodeset->sortCtx, node))
+    {
+        nodeset->pendingRefTypes->size -= isRefType;
+        nodeset->nodesWithUnknownRefs->size -= hasUnknownRefs;
+        nodeset->allNodes->size--;
+        return false;
+    }
+    return true;
+}
+
 void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
 {
-    if (!node->unknownRefs)
+    if (!addToLists(nodeset, node))
     {
-        if(!Sort_addNode(nodeset->sortCtx, node))
+        if (!Sort_hasNode(nodeset->sortCtx, &node->id))
         {
-            if (nodeset->logger)
-            {
-                nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
-                            "node was not added to sorting algorithm, already exists");
-            }
-            Node_delete(node);
+            nodeset->outOfMemory = true;
         }
-        else
+        else if (nodeset->logger)
         {
-            if (node->nodeClass == NODECLASS_REFERENCETYPE)
-            {
-                nodeset->refService->addNewReferenceType(
-                    nodeset->refService->context, (NL_ReferenceTypeNode *)node);
-            }
+            nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
+                        "node was not added to sorting algorithm, already exists");
         }
+        Node_delete(node);
+        return;
     }
-    else
+    if (node->nodeClass == NODECLASS_REFERENCETYPE &&
+        isSuperTypeKnown(nodeset, node) && addReferenceType(nodeset, node))
     {
-        if (node->nodeClass == NODECLASS_REFERENCETYPE)
-        {
-            NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);
-        }
-        else
-        {
-            NodeContainer_add(nodeset->nodesWithUnknownRefs, node);
-        }
+        nodeset->pendingRefTypes->size--;
     }
 }
 
diff --git a/src/Nodeset.h b/src/Nodeset.h
index c0f613f..b30ef18 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -29,14 +29,16 @@ struct Nodeset
 {
     CharArenaAllocator *charArena;
     struct AliasList *aliasList;
+    struct NodeContainer *allNodes; // owner of the nodes
     struct NodeContainer *nodes[NL_NODECLASS_COUNT];
     struct NamespaceList *namespaces;
     struct SortContext *sortCtx;
     NL_BiDirectionalReference *hasEncodingRefs;
     NodesetLoader_Logger* logger;
     struct NodeContainer *nodesWithUnknownRefs;
-    struct NodeContainer *refTypesWithUnknownRefs;
+    struct NodeContainer *pendingRefTypes;
     NL_ReferenceService* refService;
+    bool outOfMemory;
 };
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback, NodesetLoader_Logger* logger, NL_ReferenceService* refService);
-- 
2.43.0


From b5056d7c5d89741bc0bc21350842e826841f9165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 11/35] fix: keep the value parser safe for every sequence of
 elements

A value with more than one top level element leaked the previous ones or
dereferenced NULL, failed allocations were not handled.
---
 src/Value.c | 87 +++++++++++++++++++++++++++++++++++++++++------------
 src/Value.h |  1 +
 2 files changed, 68 insertions(+), 20 deletions(-)

diff --git a/src/Value.c b/src/Value.c
index c14153b..b146d52 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -12,7 +12,16 @@
 NL_Value *Value_new(const NL_Node *node)
 {
     NL_Value *newValue = (NL_Value *)calloc(1, sizeof(NL_Value));
+    if (!newValue)
+    {
+        return NULL;
+    }
     newValue->ctx = (NL_ParserCtx *)calloc(1, sizeof(NL_ParserCtx));
+    if (!newValue->ctx)
+    {
+        free(newValue);
+        return NULL;
+    }
     newValue->ctx->state = PARSERSTATE_INIT;
     return newValue;
 }
@@ -20,6 +29,10 @@ NL_Value *Value_new(const NL_Node *node)
 static NL_Data *newData(const char *name, NL_DataType type)
 {
     NL_Data *newData = (NL_Data *)calloc(1, sizeof(NL_Data));
+    if (!newData)
+    {
+        return NULL;
+    }
     newData->type = type;
     newData->name = name;
     return newData;
@@ -27,12 +40,21 @@ static NL_Data *newData(const char *name, NL_DataType type)
 
 static NL_Data *addNewMember(NL_Data *parent, const char *name)
 {
-    parent->type = DATATYPE_COMPLEX;
-    parent->val.complexData.members = (NL_Data **)realloc(
+    NL_Data *newData = (NL_Data *)calloc(1, sizeof(NL_Data));
+    if (!newData)
+    {
+        return NULL;
+    }
+    NL_Data **newMembers = (NL_Data **)realloc(
         parent->val.complexData.members,
         (parent->val.complexData.membersSize + 1) * sizeof(NL_Data *));
-
-    NL_Data *newData = (NL_Data *)calloc(1, sizeof(NL_Data));
+    if (!newMembers)
+    {
+        free(newData);
+        return NULL;
+    }
+    parent->type = DATATYPE_COMPLEX;
+    parent->val.complexData.members = newMembers;
     parent->val.complexData.members[parent->val.complexData.membersSize] =
         newData;
 
@@ -43,8 +65,32 @@ static NL_Data *addNewMember(NL_Data *parent, const char *name)
     return newData;
 }
 
+static void Data_clear(NL_Data *data);
+
+// the value consists of the element which was started last
+static void setData(NL_Value *val, NL_Data *data)
+{
+    Data_clear(val->data);
+    val->data = data;
+    val->ctx->currentData = data;
+    val->ctx->outOfMemory = !data;
+}
+
+static void setMember(NL_Value *val, NL_Data *data)
+{
+    if (data)
+    {
+        val->ctx->currentData = data;
+    }
+    val->ctx->outOfMemory = !data;
+}
+
 void Value_start(NL_Value *val, const char *name)
 {
+    if (val->ctx->outOfMemory)
+    {
+        return;
+    }
     switch (val->ctx->state)
     {
     case PARSERSTATE_INIT:
@@ -52,8 +98,7 @@ void Value_start(NL_Value *val, const char *name)
         {
             val->ctx->state = PARSERSTATE_LISTOF;
             val->isArray = true;
-            val->data = newData(name, DATATYPE_COMPLEX);
-            val->ctx->currentData = val->data;
+            setData(val, newData(name, DATATYPE_COMPLEX));
         }
         else if (!strcmp(name, "ExtensionObject"))
         {
@@ -63,8 +108,7 @@ void Value_start(NL_Value *val, const char *name)
         else
         {
             val->type = name;
-            val->data = newData(name, DATATYPE_PRIMITIVE);
-            val->ctx->currentData = val->data;
+            setData(val, newData(name, DATATYPE_PRIMITIVE));
             val->ctx->state = PARSERSTATE_DATA;
         }
         break;
@@ -79,8 +123,7 @@ void Value_start(NL_Value *val, const char *name)
         val->ctx->state = PARSERSTATE_DATA;
         {
             val->type = name;
-            NL_Data *newData = addNewMember(val->ctx->currentData, name);
-            val->ctx->currentData = newData;
+            setMember(val, addNewMember(val->ctx->currentData, name));
         }
 
         break;
@@ -100,13 +143,11 @@ void Value_start(NL_Value *val, const char *name)
         val->ctx->state = PARSERSTATE_DATA;
         if (!val->ctx->currentData)
         {
-            val->data = newData(name, DATATYPE_COMPLEX);
-            val->ctx->currentData = val->data;
+            setData(val, newData(name, DATATYPE_COMPLEX));
         }
         else
         {
-            NL_Data *newData = addNewMember(val->ctx->currentData, name);
-            val->ctx->currentData = newData;
+            setMember(val, addNewMember(val->ctx->currentData, name));
         }
         break;
 
@@ -116,13 +157,11 @@ void Value_start(NL_Value *val, const char *name)
     case PARSERSTATE_DATA:
         if (!val->ctx->currentData)
         {
-            val->data = newData(name, DATATYPE_PRIMITIVE);
-            val->ctx->currentData = val->data;
+            setData(val, newData(name, DATATYPE_PRIMITIVE));
         }
         else
         {
-            NL_Data *newData = addNewMember(val->ctx->currentData, name);
-            val->ctx->currentData = newData;
+            setMember(val, addNewMember(val->ctx->currentData, name));
         }
 
         break;
@@ -150,6 +189,10 @@ static const char* isOnlyWhitespace(const char* value)
 
 void Value_end(NL_Value *val, const char *name, const char *value)
 {
+    if (val->ctx->outOfMemory)
+    {
+        return;
+    }
     switch (val->ctx->state)
     {
     case PARSERSTATE_INIT:
@@ -175,7 +218,8 @@ void Value_end(NL_Value *val, const char *name, const char *value)
         break;
 
     case PARSERSTATE_DATA:
-        if (strcmp(name, val->ctx->currentData->name))
+        if (!val->ctx->currentData ||
+            strcmp(name, val->ctx->currentData->name))
         {
             break;
         }
@@ -195,6 +239,10 @@ void Value_end(NL_Value *val, const char *name, const char *value)
         {
             val->ctx->state = PARSERSTATE_EXTENSIONOBJECT_BODY;
         }
+        if (val->ctx->currentData == NULL)
+        {
+            break;
+        }
         // listOfExtensionObject
         if (val->isExtensionObject && val->isArray &&
             val->ctx->currentData->parent == NULL)
@@ -211,7 +259,6 @@ void Value_end(NL_Value *val, const char *name, const char *value)
         break;
     }
 }
-static void Data_clear(NL_Data *data);
 
 static void PrimitiveData_clear(NL_Data *data)
 {
diff --git a/src/Value.h b/src/Value.h
index 79249db..2e1f060 100644
--- a/src/Value.h
+++ b/src/Value.h
@@ -25,6 +25,7 @@ struct NL_ParserCtx
 {
     ParserState state;
     NL_Data *currentData;
+    bool outOfMemory;
 };
 typedef struct NL_ParserCtx NL_ParserCtx;
 
-- 
2.43.0


From 0f5d096633abf3fec69a6b85153ae27477fb1a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 12/35] fix: let the import fail if there is no memory for a
 part of the file

Failed allocations crashed the import or dropped parts of the content silently.
The import now stops and reports the failure, the node in progress is released.
Definitions of nodes which are no data types, references with an empty browse
name, repeated values, definitions and type definitions and extensions with a
nested Extension element are handled, too.
---
 src/Nodeset.c       | 128 ++++++++++++++++++++++++++++++++------------
 src/NodesetLoader.c |  65 +++++++++++++++++++++-
 2 files changed, 156 insertions(+), 37 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index f387d6f..48b5935 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -16,8 +16,8 @@
 #include <stdlib.h>
 #include <string.h>
 
-static UA_NodeId extractNodedId(const NamespaceList *namespaces, char *s);
-static UA_NodeId alias2Id(const Nodeset *nodeset, char *name);
+static UA_NodeId extractNodedId(Nodeset *nodeset, char *s);
+static UA_NodeId alias2Id(Nodeset *nodeset, char *name);
 static UA_NodeId translateNodeId(const NamespaceList *namespaces, UA_NodeId id);
 static NL_BrowseName translateBrowseName(const NamespaceList *namespaces,
                                          NL_BrowseName id);
@@ -110,17 +110,19 @@ NL_BrowseName translateBrowseName(const NamespaceList *namespaces,
     return bn;
 }
 
-UA_NodeId extractNodedId(const NamespaceList *namespaces, char *s)
+UA_NodeId extractNodedId(Nodeset *nodeset, char *s)
 {
     UA_NodeId id = UA_NODEID_NULL;
     if (s == NULL)
         return id;
 
     UA_StatusCode res = UA_NodeId_parse(&id, UA_STRING(s));
+    if (res == UA_STATUSCODE_BADOUTOFMEMORY)
+        nodeset->outOfMemory = true;
     if (res != UA_STATUSCODE_GOOD)
         return id;
 
-    return translateNodeId(namespaces, id);
+    return translateNodeId(nodeset->namespaces, id);
 }
 
 NL_BrowseName extractBrowseName(const NamespaceList *namespaces, char *s)
@@ -143,16 +145,19 @@ NL_BrowseName extractBrowseName(const NamespaceList *namespaces, char *s)
     return translateBrowseName(namespaces, bn);
 }
 
-static UA_NodeId alias2Id(const Nodeset *nodeset, char *name)
+static UA_NodeId alias2Id(Nodeset *nodeset, char *name)
 {
     const UA_NodeId *alias = AliasList_getNodeId(nodeset->aliasList, name);
     if (!alias)
     {
-        return extractNodedId(nodeset->namespaces, name);
+        return extractNodedId(nodeset, name);
     }
     // the caller is the owner of the returned id, the list keeps its own
     UA_NodeId id = UA_NODEID_NULL;
-    UA_NodeId_copy(alias, &id);
+    if (UA_NodeId_copy(alias, &id) != UA_STATUSCODE_GOOD)
+    {
+        nodeset->outOfMemory = true;
+    }
     return id;
 }
 
@@ -201,6 +206,7 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
 void Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback)
 {
     NamespaceList_reset(nodeset->namespaces, nsCallback);
+    nodeset->outOfMemory = false;
 }
 
 static void Nodeset_addNode(Nodeset *nodeset, NL_Node *node)
@@ -385,6 +391,11 @@ static char *getAttributeValue(Nodeset *nodeset, const NodeAttribute *attr,
         const char *value_end = attributes[i * fields + 4];
         size_t size = (size_t)(value_end - value_start);
         char *value = CharArenaAllocator_malloc(nodeset->charArena, size + 1);
+        if (!value)
+        {
+            nodeset->outOfMemory = true;
+            return NULL;
+        }
         memcpy(value, value_start, size);
         return value;
     }
@@ -393,12 +404,17 @@ static char *getAttributeValue(Nodeset *nodeset, const NodeAttribute *attr,
     return attr->defaultValue;
 }
 
-static void extractAttributes(Nodeset *nodeset, const NamespaceList *namespaces,
-                              NL_Node *node, int attributeSize,
+static bool isTrue(const char *value)
+{
+    return value && !strcmp("true", value);
+}
+
+static void extractAttributes(Nodeset *nodeset, NL_Node *node, int attributeSize,
                               const char **attributes)
 {
+    const NamespaceList *namespaces = nodeset->namespaces;
     node->id = extractNodedId(
-        namespaces,
+        nodeset,
         getAttributeValue(nodeset, &attrNodeId, attributes, attributeSize));
     node->browseName = extractBrowseName(
         namespaces,
@@ -412,7 +428,7 @@ static void extractAttributes(Nodeset *nodeset, const NamespaceList *namespaces,
     }
     case NODECLASS_OBJECT: {
         ((NL_ObjectNode *)node)->parentNodeId = extractNodedId(
-            namespaces, getAttributeValue(nodeset, &attrParentNodeId,
+            nodeset, getAttributeValue(nodeset, &attrParentNodeId,
                                           attributes, attributeSize));
         ((NL_ObjectNode *)node)->eventNotifier = getAttributeValue(
             nodeset, &attrEventNotifier, attributes, attributeSize);
@@ -421,7 +437,7 @@ static void extractAttributes(Nodeset *nodeset, const NamespaceList *namespaces,
     case NODECLASS_VARIABLE: {
 
         ((NL_VariableNode *)node)->parentNodeId = extractNodedId(
-            namespaces, getAttributeValue(nodeset, &attrParentNodeId,
+            nodeset, getAttributeValue(nodeset, &attrParentNodeId,
                                           attributes, attributeSize));
         char *datatype = getAttributeValue(nodeset, &attrDataType, attributes,
                                            attributeSize);
@@ -459,7 +475,7 @@ static void extractAttributes(Nodeset *nodeset, const NamespaceList *namespaces,
         break;
     case NODECLASS_METHOD:
         ((NL_MethodNode *)node)->parentNodeId = extractNodedId(
-            namespaces, getAttributeValue(nodeset, &attrParentNodeId,
+            nodeset, getAttributeValue(nodeset, &attrParentNodeId,
                                           attributes, attributeSize));
         ((NL_MethodNode *)node)->executable = getAttributeValue(
             nodeset, &attrExecutable, attributes, attributeSize);
@@ -472,7 +488,7 @@ static void extractAttributes(Nodeset *nodeset, const NamespaceList *namespaces,
         break;
     case NODECLASS_VIEW:
         ((NL_ViewNode *)node)->parentNodeId = extractNodedId(
-            namespaces, getAttributeValue(nodeset, &attrParentNodeId,
+            nodeset, getAttributeValue(nodeset, &attrParentNodeId,
                                           attributes, attributeSize));
         ((NL_ViewNode *)node)->containsNoLoops = getAttributeValue(
             nodeset, &attrContainsNoLoops, attributes, attributeSize);
@@ -483,19 +499,23 @@ static void extractAttributes(Nodeset *nodeset, const NamespaceList *namespaces,
     }
 }
 
-static void initNode(Nodeset *nodeset, const NamespaceList *namespaces,
-                     NL_NodeClass nodeClass, NL_Node *node, int nb_attributes,
+static void initNode(Nodeset *nodeset, NL_NodeClass nodeClass, NL_Node *node, int nb_attributes,
                      const char **attributes)
 {
     node->nodeClass = nodeClass;
-    extractAttributes(nodeset, namespaces, node, nb_attributes, attributes);
+    extractAttributes(nodeset, node, nb_attributes, attributes);
 }
 
 NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
                          int nb_attributes, const char **attributes)
 {
     NL_Node *node = Node_new(nodeClass);
-    initNode(nodeset, nodeset->namespaces, nodeClass, node, nb_attributes,
+    if (!node)
+    {
+        nodeset->outOfMemory = true;
+        return NULL;
+    }
+    initNode(nodeset, nodeClass, node, nb_attributes,
              attributes);
     return node;
 }
@@ -504,8 +524,13 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
                                    int attributeSize, const char **attributes)
 {
     NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-    if (!strcmp("true", getAttributeValue(nodeset, &attrIsForward, attributes,
-                                          attributeSize)))
+    if (!newRef)
+    {
+        nodeset->outOfMemory = true;
+        return NULL;
+    }
+    if (isTrue(getAttributeValue(nodeset, &attrIsForward, attributes,
+                                 attributeSize)))
     {
         newRef->isForward = true;
     }
@@ -522,6 +547,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        newRef->next = ((NL_VariableNode *)node)->refToTypeDef;
         ((NL_VariableNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
@@ -530,6 +556,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        newRef->next = ((NL_ObjectNode *)node)->refToTypeDef;
         ((NL_ObjectNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
@@ -564,7 +591,12 @@ Alias *Nodeset_newAlias(Nodeset *nodeset, int attributeSize,
     {
         return NULL;
     }
-    return AliasList_newAlias(nodeset->aliasList, name);
+    Alias *alias = AliasList_newAlias(nodeset->aliasList, name);
+    if (!alias)
+    {
+        nodeset->outOfMemory = true;
+    }
+    return alias;
 }
 
 void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
@@ -573,14 +605,17 @@ void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
     {
         return;
     }
-    alias->id = extractNodedId(nodeset->namespaces, idString);
+    alias->id = extractNodedId(nodeset, idString);
 }
 
 void Nodeset_newNamespaceFinish(Nodeset *nodeset, void *userContext,
                                 char *namespaceUri)
 {
-    NamespaceList_newNamespace(nodeset->namespaces, userContext,
-                               namespaceUri ? namespaceUri : "");
+    if (!NamespaceList_newNamespace(nodeset->namespaces, userContext,
+                                    namespaceUri ? namespaceUri : ""))
+    {
+        nodeset->outOfMemory = true;
+    }
 }
 
 // add the node to all lists or to none of them
@@ -646,13 +681,23 @@ void Nodeset_newReferenceFinish(Nodeset *nodeset, NL_Reference *ref,
     // handle hasEncoding in a special way
     UA_NodeId hasEncodingRef = UA_NODEID("i=38");
     if (UA_NodeId_equal(&ref->refType, &hasEncodingRef) &&
+        node->browseName.name &&
         !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)
     {
         NL_BiDirectionalReference *newRef = (NL_BiDirectionalReference *)calloc(
             1, sizeof(NL_BiDirectionalReference));
-        UA_NodeId_copy(&ref->target, &newRef->source);
-        UA_NodeId_copy(&node->id, &newRef->target);
-        UA_NodeId_copy(&ref->refType, &newRef->refType);
+        if (!newRef)
+        {
+            nodeset->outOfMemory = true;
+            return;
+        }
+        UA_StatusCode res = UA_NodeId_copy(&ref->target, &newRef->source);
+        res |= UA_NodeId_copy(&node->id, &newRef->target);
+        res |= UA_NodeId_copy(&ref->refType, &newRef->refType);
+        if (res != UA_STATUSCODE_GOOD)
+        {
+            nodeset->outOfMemory = true;
+        }
 
         NL_BiDirectionalReference *lastRef = nodeset->hasEncodingRefs;
         nodeset->hasEncodingRefs = newRef;
@@ -664,13 +709,20 @@ void Nodeset_addDataTypeDefinition(Nodeset *nodeset, NL_Node *node,
                                    int attributeSize, const char **attributes)
 {
     NL_DataTypeNode *dataTypeNode = (NL_DataTypeNode *)node;
+    // a further definition replaces the one read before
+    DataTypeNode_clear(dataTypeNode);
     NL_DataTypeDefinition *def = DataTypeDefinition_new(dataTypeNode);
+    if (!def)
+    {
+        nodeset->outOfMemory = true;
+        return;
+    }
     def->isUnion =
-        !strcmp("true", getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
-                                          attributes, attributeSize));
-    def->isOptionSet = !strcmp(
-        "true", getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
-                                  attributes, attributeSize));
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
+                                 attributes, attributeSize));
+    def->isOptionSet =
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
+                                 attributes, attributeSize));
 }
 
 void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
@@ -684,6 +736,11 @@ void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
 
     NL_DataTypeDefinitionField *newField =
         DataTypeNode_addDefinitionField(dataTypeNode->definition);
+    if (!newField)
+    {
+        nodeset->outOfMemory = true;
+        return;
+    }
     newField->name = getAttributeValue(nodeset, &dataTypeField_Name, attributes,
                                        attributeSize);
 
@@ -700,11 +757,12 @@ void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
         newField->dataType = alias2Id(
             nodeset, getAttributeValue(nodeset, &dataTypeField_DataType,
                                        attributes, attributeSize));
-        newField->valueRank = atoi(getAttributeValue(
-            nodeset, &attrValueRank, attributes, attributeSize));
+        char *valueRank = getAttributeValue(nodeset, &attrValueRank,
+                                            attributes, attributeSize);
+        newField->valueRank = valueRank ? atoi(valueRank) : -1;
         char *isOptional = getAttributeValue(nodeset, &dataTypeField_IsOptional,
                                              attributes, attributeSize);
-        newField->isOptional = !strcmp("true", isOptional);
+        newField->isOptional = isTrue(isOptional);
     }
 }
 
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 3985e09..cd7647a 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -10,6 +10,7 @@
 #include "Nodeset.h"
 #include "Parser.h"
 #include "Value.h"
+#include "nodes/Node.h"
 #include <assert.h>
 #include <stdlib.h>
 #include <string.h>
@@ -99,6 +100,10 @@ static void OnStartElementNs(void *ctx, const char *localname,
                              const char **attributes)
 {
     TParserCtx *pctx = (TParserCtx *)ctx;
+    if (pctx->nodeset->outOfMemory)
+    {
+        return;
+    }
     switch (pctx->state)
     {
     case PARSER_STATE_INIT:
@@ -214,13 +219,19 @@ static void OnStartElementNs(void *ctx, const char *localname,
         else if (!strcmp(localname, VALUE))
         {
             pctx->val = Value_new(pctx->node);
+            if (!pctx->val)
+            {
+                pctx->nodeset->outOfMemory = true;
+                return;
+            }
             pctx->state = PARSER_STATE_VALUE;
         }
         else if (!strcmp(localname, EXTENSIONS))
         {
             pctx->state = PARSER_STATE_EXTENSIONS;
         }
-        else if (!strcmp(localname, "Definition"))
+        else if (!strcmp(localname, "Definition") &&
+                 pctx->node->nodeClass == NODECLASS_DATATYPE)
         {
             Nodeset_addDataTypeDefinition(pctx->nodeset, pctx->node, nb_attributes,
                                      attributes);
@@ -259,8 +270,14 @@ static void OnStartElementNs(void *ctx, const char *localname,
             size_t len = strlen(localname);
             char *localNameCopy =
                 CharArenaAllocator_malloc(pctx->nodeset->charArena, len + 1);
+            if (!localNameCopy)
+            {
+                pctx->nodeset->outOfMemory = true;
+                return;
+            }
             memcpy(localNameCopy, localname, len);
             Value_start(pctx->val, localNameCopy);
+            pctx->nodeset->outOfMemory = pctx->val->ctx->outOfMemory;
             pctx->unknown_depth++;
         }
         break;
@@ -284,6 +301,7 @@ static void OnStartElementNs(void *ctx, const char *localname,
         {
             pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);
         }
+        pctx->unknown_depth++;
         break;
 
     case PARSER_STATE_REFERENCES:
@@ -325,6 +343,10 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
                            const char *URI)
 {
     TParserCtx *pctx = (TParserCtx *)ctx;
+    if (pctx->nodeset->outOfMemory)
+    {
+        return;
+    }
     switch (pctx->state)
     {
     case PARSER_STATE_INIT:
@@ -345,6 +367,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         break;
     case PARSER_STATE_NODE:
         Nodeset_newNodeFinish(pctx->nodeset, pctx->node);
+        pctx->node = NULL;
         pctx->state = PARSER_STATE_INIT;
         break;
     case PARSER_STATE_DISPLAYNAME:
@@ -367,7 +390,16 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         {
             /* TODO: Enable VariableType to hold a valeu */
             if(pctx->node->nodeClass == NODECLASS_VARIABLE)
+            {
+                NL_Value *oldValue = ((NL_VariableNode *)pctx->node)->value;
                 ((NL_VariableNode *)pctx->node)->value = pctx->val;
+                pctx->val = oldValue;
+            }
+            if (pctx->val)
+            {
+                Value_delete(pctx->val);
+                pctx->val = NULL;
+            }
             pctx->state = PARSER_STATE_NODE;
         }
         else
@@ -377,7 +409,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         }
         break;
     case PARSER_STATE_EXTENSION:
-        if (!strcmp(localname, EXTENSION))
+        if (!strcmp(localname, EXTENSION) && pctx->unknown_depth == 0)
         {
             if (pctx->extIf)
             {
@@ -393,6 +425,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
                 pctx->extIf->end(pctx->extensionData, localname,
                                  pctx->onCharacters);
             }
+            pctx->unknown_depth--;
         }
         break;
     case PARSER_STATE_EXTENSIONS:
@@ -428,6 +461,10 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
 static void OnCharacters(void *ctx, const char *ch, int len)
 {
     TParserCtx *pctx = (TParserCtx *)ctx;
+    if (pctx->nodeset->outOfMemory)
+    {
+        return;
+    }
     if (pctx->onCharacters == NULL)
     {
         char *newValue = CharArenaAllocator_malloc(pctx->nodeset->charArena,
@@ -439,6 +476,11 @@ static void OnCharacters(void *ctx, const char *ch, int len)
         pctx->onCharacters = CharArenaAllocator_realloc(
             pctx->nodeset->charArena, (size_t)len + 1);
     }
+    if (pctx->onCharacters == NULL)
+    {
+        pctx->nodeset->outOfMemory = true;
+        return;
+    }
     memcpy(pctx->onCharacters + pctx->onCharLength, ch, (size_t)len);
     pctx->onCharLength += (size_t)len;
 }
@@ -522,8 +564,27 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
         retStatus = false;
     }
     Parser_delete(parser);
+    if (loader->nodeset->outOfMemory)
+    {
+        loader->logger->log(loader->logger->context,
+                            NODESETLOADER_LOGLEVEL_ERROR,
+                            "NodesetLoader: out of memory");
+        retStatus = false;
+    }
 
 cleanup:
+    if (ctx)
+    {
+        // the node, which was not completed because of an error
+        if (ctx->node)
+        {
+            Node_delete(ctx->node);
+        }
+        if (ctx->val)
+        {
+            Value_delete(ctx->val);
+        }
+    }
     free(ctx);
     if (f)
     {
-- 
2.43.0


From ab4978ac51045da94dde81685a641dc647d56885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 13/35] fix: keep the text of an extension object's body that
 has no members

---
 src/Value.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Value.c b/src/Value.c
index b146d52..ca44c2a 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -223,6 +223,13 @@ void Value_end(NL_Value *val, const char *name, const char *value)
         {
             break;
         }
+        // the body of an extension object can consist of text only
+        if (val->ctx->currentData->type == DATATYPE_COMPLEX &&
+            val->ctx->currentData->val.complexData.membersSize == 0 &&
+            isOnlyWhitespace(value))
+        {
+            val->ctx->currentData->type = DATATYPE_PRIMITIVE;
+        }
         if (val->ctx->currentData->type == DATATYPE_PRIMITIVE)
         {
             val->ctx->currentData->val.primitiveData.value = isOnlyWhitespace(value);
-- 
2.43.0


From 62b21dd3244053a911fe463181422207eb945756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 14/35] fix: do not deliver the fragment of a start tag a
 document ends in

---
 src/Parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Parser.c b/src/Parser.c
index de82414..50cfbac 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -66,6 +66,8 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     // an I/O error must not be taken for the end of the file and a document
     // which ends too early is only detected when the parser is terminated
     int failed = ferror(file);
+    // do not deliver the fragment of a tag the document ends in
+    ctxt->sax->startElementNs = NULL;
     if (xmlParseChunk(ctxt, chars, 0, 1))
     {
         failed = 1;
-- 
2.43.0


From f1961a226ddb14c4d230c0b995cc07843609cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:22 +0000
Subject: [PATCH 15/35] fix: classify a reference type as soon as one super
 type is hierarchical

---
 src/Nodeset.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 48b5935..05edea0 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -257,19 +257,28 @@ static bool isReferenceTypeKnown(Nodeset *nodeset, const UA_NodeId *id)
                nodeset->refService->context, &ref);
 }
 
-// a reference type can only be classified if its super type is known
+// a reference type can only be classified if one of its super types is
+// hierachical or all of them are known
 static bool isSuperTypeKnown(Nodeset *nodeset, const NL_Node *node)
 {
     UA_NodeId hasSubtypeId = UA_NODEID_NUMERIC(0, 45);
+    bool allKnown = true;
     for (NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next)
     {
-        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtypeId) &&
-            !isReferenceTypeKnown(nodeset, &ref->target))
+        if (ref->isForward || !UA_NodeId_equal(&ref->refType, &hasSubtypeId))
         {
-            return false;
+            continue;
+        }
+        NL_Reference super = {0};
+        super.refType = ref->target;
+        if (nodeset->refService->isHierachicalRef(nodeset->refService->context,
+                                                  &super))
+        {
+            return true;
         }
+        allKnown = allKnown && isReferenceTypeKnown(nodeset, &ref->target);
     }
-    return true;
+    return allKnown;
 }
 
 static bool addReferenceType(Nodeset *nodeset, NL_Node *node)
-- 
2.43.0


From 902ab00e1c214be2b08ea78c283328657c9e0bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:22 +0000
Subject: [PATCH 16/35] fix: keep no encoding reference which could not be
 built

---
 src/Nodeset.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 05edea0..042949a 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -689,7 +689,8 @@ void Nodeset_newReferenceFinish(Nodeset *nodeset, NL_Reference *ref,
 
     // handle hasEncoding in a special way
     UA_NodeId hasEncodingRef = UA_NODEID("i=38");
-    if (UA_NodeId_equal(&ref->refType, &hasEncodingRef) &&
+    if (!nodeset->outOfMemory &&
+        UA_NodeId_equal(&ref->refType, &hasEncodingRef) &&
         node->browseName.name &&
         !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)
     {
@@ -706,6 +707,11 @@ void Nodeset_newReferenceFinish(Nodeset *nodeset, NL_Reference *ref,
         if (res != UA_STATUSCODE_GOOD)
         {
             nodeset->outOfMemory = true;
+            UA_NodeId_clear(&newRef->source);
+            UA_NodeId_clear(&newRef->target);
+            UA_NodeId_clear(&newRef->refType);
+            free(newRef);
+            return;
         }
 
         NL_BiDirectionalReference *lastRef = nodeset->hasEncodingRefs;
-- 
2.43.0


From 0a5889a421fed5aeecaf733c251e23de3ee0954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:02 +0000
Subject: [PATCH 17/35] fix: report a load which had not enough memory for a
 part of the nodeset

Failed allocations crashed the load or dropped nodes and namespaces silently.
---
 backends/open62541/src/ServerContext.c | 18 +++++++++
 backends/open62541/src/ServerContext.h |  6 +++
 backends/open62541/src/import.c        | 55 +++++++++++++++++++++-----
 3 files changed, 69 insertions(+), 10 deletions(-)

diff --git a/backends/open62541/src/ServerContext.c b/backends/open62541/src/ServerContext.c
index d94f69f..495743e 100644
--- a/backends/open62541/src/ServerContext.c
+++ b/backends/open62541/src/ServerContext.c
@@ -13,6 +13,7 @@ struct ServerContext
     UA_Server *server;
     size_t namespaceCnt;
     UA_UInt16 *namespaceIdxMapping;
+    bool outOfMemory;
 };
 
 ServerContext *ServerContext_new(UA_Server *server)
@@ -30,10 +31,23 @@ ServerContext *ServerContext_new(UA_Server *server)
 
 void ServerContext_delete(ServerContext *serverContext)
 {
+    if (!serverContext)
+        return;
+
     free(serverContext->namespaceIdxMapping);
     free(serverContext);
 }
 
+void ServerContext_setOutOfMemory(ServerContext *serverContext)
+{
+    serverContext->outOfMemory = true;
+}
+
+bool ServerContext_isOutOfMemory(const ServerContext *serverContext)
+{
+    return serverContext->outOfMemory;
+}
+
 UA_Server *ServerContext_getServerObject(const ServerContext *serverContext)
 {
     if (!serverContext)
@@ -64,6 +78,10 @@ void ServerContext_addNamespaceIdx(ServerContext *serverContext, UA_UInt16 serve
         serverContext->namespaceCnt++;
         serverContext->namespaceIdxMapping[serverContext->namespaceCnt - 1] = serverIdx;
     }
+    else
+    {
+        ServerContext_setOutOfMemory(serverContext);
+    }
 }
 
 // See the comment above ServerContext_addNamespaceIdx
diff --git a/backends/open62541/src/ServerContext.h b/backends/open62541/src/ServerContext.h
index 6b460c3..e2e2d46 100644
--- a/backends/open62541/src/ServerContext.h
+++ b/backends/open62541/src/ServerContext.h
@@ -10,6 +10,8 @@
 
 #include <open62541/server.h>
 
+#include <stdbool.h>
+
 // ServerContext struct bundles the open62541's UA_Server object
 // and a table that maps indices used in the nodeset file to indices used in the server.
 struct ServerContext;
@@ -21,6 +23,10 @@ ServerContext *ServerContext_new(struct UA_Server *server);
 // Releases memory allocated by ServerContext_new
 void ServerContext_delete(ServerContext *serverContext);
 
+// Remember that there was not enough memory for a part of the nodeset, the load has to report it
+void ServerContext_setOutOfMemory(ServerContext *serverContext);
+bool ServerContext_isOutOfMemory(const ServerContext *serverContext);
+
 // Gets pointer to the UA_Server object
 struct UA_Server *ServerContext_getServerObject(const ServerContext *serverContext);
 
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 34cfbdc..5303491 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -443,9 +443,10 @@ static void addNodeImpl(AddNodeContext *context, NL_Node *node)
     }
     // If a node was not added to the server due to an error, we add such a node
     // to a special node container. We can then try to add such nodes later.
-    if(context->problemNodes != NULL && UA_StatusCode_isBad(addedNodeStatus))
+    if(context->problemNodes != NULL && UA_StatusCode_isBad(addedNodeStatus) &&
+       !NodeContainer_add(context->problemNodes, node))
     {
-        NodeContainer_add(context->problemNodes, node);
+        ServerContext_setOutOfMemory(context->serverContext);
     }
 }
 
@@ -465,6 +466,10 @@ static void logToOpen(void *context, enum NodesetLoader_LogLevel level,
                       const char *message, ...)
 {
     UA_Logger *logger = (UA_Logger *)context;
+    if (!logger)
+    {
+        return;
+    }
     va_list vl;
     va_start(vl, message);
     UA_LogLevel uaLevel = UA_LOGLEVEL_DEBUG;
@@ -576,6 +581,11 @@ static size_t secondChanceAddNodes(ServerContext *serverContext,
     {
         NodeContainer *local_badStatusNodes =
             NodeContainer_new((*badStatusNodes)->size, false);
+        if (!local_badStatusNodes)
+        {
+            ServerContext_setOutOfMemory(serverContext);
+            break;
+        }
         AddNodeContext context;
         context.problemNodes = local_badStatusNodes;
         context.serverContext = serverContext;
@@ -609,6 +619,11 @@ static void addNodes(NodesetLoader *loader, ServerContext *serverContext,
     // If we have a problem adding nodes to the server, let's add references
     // to these nodes to the container.
     NodeContainer* badStatusNodes = NodeContainer_new(containerInitialSize, false);
+    if (!badStatusNodes)
+    {
+        ServerContext_setOutOfMemory(serverContext);
+        return;
+    }
     // Since every cycle we add one node class we need to save
     // counter of previous badStatusNodes because badStatusNodes
     // will always be adding new bad nodes to one list, and we have to calculate
@@ -673,7 +688,16 @@ bool NodesetLoader_loadFile(struct UA_Server *server, const char *path,
         return false;
     }
 
+    bool retStatus = false;
     ServerContext *serverContext = ServerContext_new(server);
+    NodesetLoader_Logger *logger =
+        (NodesetLoader_Logger *)calloc(1, sizeof(NodesetLoader_Logger));
+    NL_ReferenceService *refService = RefServiceImpl_new(server);
+    NodesetLoader *loader = NULL;
+    if (!serverContext || !logger || !refService)
+    {
+        goto cleanup;
+    }
 
     NL_FileContext handler;
     handler.addNamespace = NodesetLoader_BackendOpen62541_addNamespace;
@@ -682,29 +706,40 @@ bool NodesetLoader_loadFile(struct UA_Server *server, const char *path,
     handler.extensionHandling = extensionHandling;
 
     UA_ServerConfig *config = UA_Server_getConfig(server);
-    NodesetLoader_Logger *logger =
-        (NodesetLoader_Logger *)calloc(1, sizeof(NodesetLoader_Logger));
     logger->context = (void*)(uintptr_t)config->logging;
     logger->log = &logToOpen;
-    NL_ReferenceService *refService = RefServiceImpl_new(server);
 
-    NodesetLoader *loader = NodesetLoader_new(logger, refService);
+    loader = NodesetLoader_new(logger, refService);
+    if (!loader)
+    {
+        goto cleanup;
+    }
     logger->log(logger->context, NODESETLOADER_LOGLEVEL_DEBUG,
                 "Start import nodeset: %s", path);
     bool importStatus = NodesetLoader_importFile(loader, &handler);
     bool sortStatus = NodesetLoader_sort(loader);
-    bool retStatus = importStatus && sortStatus;
-    if (retStatus && sortStatus)
+    retStatus = importStatus && sortStatus &&
+                !ServerContext_isOutOfMemory(serverContext);
+    if (retStatus)
     {
         addNodes(loader, serverContext, logger);
+        retStatus = !ServerContext_isOutOfMemory(serverContext);
     }
     else
     {
         logger->log(logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                     "importing the nodeset failed, nodes were not added");
     }
-    RefServiceImpl_delete(refService);
-    NodesetLoader_delete(loader);
+
+cleanup:
+    if (refService)
+    {
+        RefServiceImpl_delete(refService);
+    }
+    if (loader)
+    {
+        NodesetLoader_delete(loader);
+    }
     ServerContext_delete(serverContext);
     free(logger);
     return retStatus;
-- 
2.43.0


From 371cbdfa0e6c2c98327a16b4baff053091216496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 18/35] fix: collect the reference types of the server
 completely and only once

More than 100 subtypes of a type were cut off, a cycle in the type hierachy of
the server never ended and a failed allocation crashed. Types already known are
skipped and the load fails if there is no memory for the table.
---
 backends/open62541/src/RefServiceImpl.c | 116 +++++++++++++++---------
 1 file changed, 72 insertions(+), 44 deletions(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index f018c00..56c8d64 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -11,6 +11,7 @@
 #include "NodesetLoader/NodesetLoader.h"
 
 #include <assert.h>
+#include <stdbool.h>
 #include <stdlib.h>
 
 struct RefContainer
@@ -25,6 +26,7 @@ struct RefServiceImpl
     RefContainer hierachicalRefs;
     RefContainer nonHierachicalRefs;
     RefContainer hasTypeDefRefs;
+    bool outOfMemory;
 };
 
 static void
@@ -37,7 +39,8 @@ RefContainer_clear(RefContainer *c) {
 
 typedef struct RefServiceImpl RefServiceImpl;
 
-typedef void (*browseFnc)(RefServiceImpl *impl, const UA_NodeId id);
+// returns true if the type was not known before
+typedef bool (*browseFnc)(RefServiceImpl *impl, const UA_NodeId id);
 
 static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
                     RefServiceImpl *impl)
@@ -50,42 +53,69 @@ static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
     bd.resultMask = UA_BROWSERESULTMASK_BROWSENAME;
     bd.nodeId = *startId;
     bd.nodeClassMask = UA_NODECLASS_REFERENCETYPE;
-    UA_BrowseResult br = UA_Server_browse(server, 100, &bd);
+    UA_BrowseResult br = UA_Server_browse(server, 0, &bd);
     if (br.statusCode == UA_STATUSCODE_GOOD)
     {
         for (UA_ReferenceDescription *rd = br.references;
              rd != br.references + br.referencesSize; rd++)
         {
-            fnc(impl, rd->nodeId.nodeId);
-
-            iterate(server, &rd->nodeId.nodeId, fnc, impl);
+            // the type hierachy of the server may contain a cycle
+            if (fnc(impl, rd->nodeId.nodeId))
+            {
+                iterate(server, &rd->nodeId.nodeId, fnc, impl);
+            }
         }
     }
     UA_BrowseResult_clear(&br);
 }
 
-static void
-addToRefs(RefContainer *refs, const UA_NodeId id)
+static bool
+isIdInContainer(const RefContainer *c, const UA_NodeId *refTypeId)
 {
-    refs->ids = (UA_NodeId *)realloc(refs->ids, sizeof(UA_NodeId) * (refs->size + 1));
-    UA_NodeId *newId = refs->ids + refs->size;
-    UA_NodeId_copy(&id, newId);
+    for (const UA_NodeId *id = c->ids; id != c->ids + c->size; id++)
+    {
+        if (UA_NodeId_equal(refTypeId, id))
+            return true;
+    }
+    return false;
+}
+
+static bool
+addToRefs(RefServiceImpl *impl, RefContainer *refs, const UA_NodeId id)
+{
+    if (isIdInContainer(refs, &id))
+    {
+        return false;
+    }
+    UA_NodeId *ids = (UA_NodeId *)realloc(refs->ids, sizeof(UA_NodeId) * (refs->size + 1));
+    if (!ids)
+    {
+        impl->outOfMemory = true;
+        return false;
+    }
+    refs->ids = ids;
+    if (UA_NodeId_copy(&id, refs->ids + refs->size) != UA_STATUSCODE_GOOD)
+    {
+        impl->outOfMemory = true;
+        return false;
+    }
     refs->size++;
+    return true;
 }
 
-static void addToHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
+static bool addToHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
-    addToRefs(&impl->hierachicalRefs, id);
+    return addToRefs(impl, &impl->hierachicalRefs, id);
 }
 
-static void addToNonHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
+static bool addToNonHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
-    addToRefs(&impl->nonHierachicalRefs, id);
+    return addToRefs(impl, &impl->nonHierachicalRefs, id);
 }
 
-static void addToHasTypeDefRefs(RefServiceImpl *impl, const UA_NodeId id)
+static bool addToHasTypeDefRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
-    addToRefs(&impl->hasTypeDefRefs, id);
+    return addToRefs(impl, &impl->hasTypeDefRefs, id);
 }
 
 static void getRefs(UA_Server *server, RefServiceImpl *impl,
@@ -96,12 +126,7 @@ static void getRefs(UA_Server *server, RefServiceImpl *impl,
 
 static bool
 isInContainer(const RefContainer c, const NL_Reference *ref) {
-    for (const UA_NodeId *id = c.ids; id != c.ids + c.size; id++)
-    {
-        if (UA_NodeId_equal(&ref->refType, id))
-            return true;
-    }
-    return false;
+    return isIdInContainer(&c, &ref->refType);
 }
 
 static bool isNonHierachicalRef(const RefServiceImpl *service,
@@ -127,21 +152,25 @@ static void addnewRefType(RefServiceImpl *service, NL_ReferenceTypeNode *node)
     bool isHierachical = false;
     while (ref) {
         if (!ref->isForward) {
-            for (size_t i = 0; i < service->hierachicalRefs.size; i++) {
-                if (UA_NodeId_equal(&service->hierachicalRefs.ids[i], &ref->target)) {
-                    addToRefs(&service->hierachicalRefs, node->id);
-                    isHierachical = true;
-                }
-            }
-            for (size_t i = 0; i < service->hasTypeDefRefs.size; i++) {
-                if (UA_NodeId_equal(&service->hasTypeDefRefs.ids[i], &ref->target))
-                    addToRefs(&service->hasTypeDefRefs, node->id);
+            if (isIdInContainer(&service->hierachicalRefs, &ref->target)) {
+                addToRefs(service, &service->hierachicalRefs, node->id);
+                isHierachical = true;
             }
+            if (isIdInContainer(&service->hasTypeDefRefs, &ref->target))
+                addToRefs(service, &service->hasTypeDefRefs, node->id);
         }
         ref = ref->next;
     }
     if (!isHierachical)
-        addToRefs(&service->nonHierachicalRefs, node->id);
+        addToRefs(service, &service->nonHierachicalRefs, node->id);
+}
+
+static void RefServiceImpl_clear(RefServiceImpl *impl)
+{
+    RefContainer_clear(&impl->hierachicalRefs);
+    RefContainer_clear(&impl->nonHierachicalRefs);
+    RefContainer_clear(&impl->hasTypeDefRefs);
+    free(impl);
 }
 
 NL_ReferenceService *RefServiceImpl_new(struct UA_Server *server)
@@ -156,20 +185,23 @@ NL_ReferenceService *RefServiceImpl_new(struct UA_Server *server)
     UA_NodeId nonHierachicalRoot =
         UA_NODEID_NUMERIC(0, UA_NS0ID_NONHIERARCHICALREFERENCES);
     UA_NodeId hasTypeDefRoot = UA_NODEID_NUMERIC(0, UA_NS0ID_HASTYPEDEFINITION);
-    addToRefs(&impl->hierachicalRefs, hierachicalRoot);
-    addToRefs(&impl->nonHierachicalRefs, nonHierachicalRoot);
-    addToRefs(&impl->hasTypeDefRefs, hasTypeDefRoot);
+    addToRefs(impl, &impl->hierachicalRefs, hierachicalRoot);
+    addToRefs(impl, &impl->nonHierachicalRefs, nonHierachicalRoot);
+    addToRefs(impl, &impl->hasTypeDefRefs, hasTypeDefRoot);
     getRefs(server, impl, hierachicalRoot, addToHierachicalRefs);
     getRefs(server, impl, nonHierachicalRoot, addToNonHierachicalRefs);
     getRefs(server, impl, hasTypeDefRoot, addToHasTypeDefRefs);
 
+    if (impl->outOfMemory)
+    {
+        RefServiceImpl_clear(impl);
+        return NULL;
+    }
+
     NL_ReferenceService *refService = (NL_ReferenceService *)calloc(1, sizeof(NL_ReferenceService));
     if (!refService)
     {
-        RefContainer_clear(&impl->hierachicalRefs);
-        RefContainer_clear(&impl->nonHierachicalRefs);
-        RefContainer_clear(&impl->hasTypeDefRefs);
-        free(impl);
+        RefServiceImpl_clear(impl);
         return NULL;
     }
     refService->context = impl;
@@ -185,10 +217,6 @@ NL_ReferenceService *RefServiceImpl_new(struct UA_Server *server)
 
 void RefServiceImpl_delete(NL_ReferenceService *service)
 {
-    RefServiceImpl *impl = (RefServiceImpl *)service->context;
-    RefContainer_clear(&impl->hierachicalRefs);
-    RefContainer_clear(&impl->nonHierachicalRefs);
-    RefContainer_clear(&impl->hasTypeDefRefs);
-    free(impl);
+    RefServiceImpl_clear((RefServiceImpl *)service->context);
     free(service);
 }
-- 
2.43.0


From 9610e3b2f05ea855180c6d8a055a186a14057223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 19/35] fix: add a node below its parent with the type of the
 reference to the parent

The id of the parent was combined with the type of any inverse reference, a
reference which is not part of the file was created.
---
 backends/open62541/src/import.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 5303491..e96caca 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -84,19 +84,28 @@ static UA_NodeId getReferenceTarget(const NL_Reference *ref)
     return ref->target;
 }
 
-static NL_Reference *getHierachicalInverseReference(const NL_Node *node)
+// the reference to the preferred parent is returned if there is one
+static NL_Reference *getHierachicalInverseReference(const NL_Node *node,
+                                                    const UA_NodeId *preferred)
 {
-
+    NL_Reference *first = NULL;
     NL_Reference *hierachicalRef = node->hierachicalRefs;
     while (hierachicalRef)
     {
         if (!hierachicalRef->isForward)
         {
-            return hierachicalRef;
+            if (UA_NodeId_equal(&hierachicalRef->target, preferred))
+            {
+                return hierachicalRef;
+            }
+            if (!first)
+            {
+                first = hierachicalRef;
+            }
         }
         hierachicalRef = hierachicalRef->next;
     }
-    return NULL;
+    return first;
 }
 
 static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
@@ -107,13 +116,11 @@ static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
     {
         parentId = ((const NL_InstanceNode*)node)->parentNodeId;
     }
-    NL_Reference *ref = getHierachicalInverseReference((const NL_Node *)node);
+    // the type of the reference has to be the one of the reference to the parent
+    NL_Reference *ref =
+        getHierachicalInverseReference((const NL_Node *)node, &parentId);
     *parentRefId = getReferenceTypeId(ref);
-    if (UA_NodeId_equal(&parentId, &UA_NODEID_NULL))
-    {
-        parentId = getReferenceTarget(ref);
-    }
-    return parentId;
+    return getReferenceTarget(ref);
 }
 
 static UA_StatusCode
-- 
2.43.0


From 768e1ff643aeb2e12c45ee770b6e1ab3bada68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 20/35] fix: add a type below its super type, not below any
 referencing node

---
 backends/open62541/src/import.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index e96caca..308bfac 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -84,17 +84,22 @@ static UA_NodeId getReferenceTarget(const NL_Reference *ref)
     return ref->target;
 }
 
-// the reference to the preferred parent is returned if there is one
+// the reference to the preferred parent is returned if there is one, the parent
+// of a type is its super type
 static NL_Reference *getHierachicalInverseReference(const NL_Node *node,
                                                     const UA_NodeId *preferred)
 {
+    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
+    const bool isInstance = NodesetLoader_isInstanceNode(node);
     NL_Reference *first = NULL;
     NL_Reference *hierachicalRef = node->hierachicalRefs;
     while (hierachicalRef)
     {
         if (!hierachicalRef->isForward)
         {
-            if (UA_NodeId_equal(&hierachicalRef->target, preferred))
+            if (isInstance
+                    ? UA_NodeId_equal(&hierachicalRef->target, preferred)
+                    : UA_NodeId_equal(&hierachicalRef->refType, &hasSubtype))
             {
                 return hierachicalRef;
             }
-- 
2.43.0


From 465e6df4f3cd4cb173a3c600e0b94f821786e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 21/35] fix: find the known super type of a data type reliably

The id of the super type was used after it was released, data types with
several inverse references had no super type and a cycle in the server was never
left. A data type which the server does not accept (yet) takes its super types
from the nodeset.
---
 backends/open62541/src/DataTypeImporter.c | 13 ++++
 backends/open62541/src/DataTypeImporter.h |  3 +
 backends/open62541/src/import.c           | 94 ++++++++++++++++++-----
 3 files changed, 92 insertions(+), 18 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 85e73eb..1bb10c0 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -668,6 +668,19 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     (*(size_t *)(uintptr_t)&importer->types->typesSize)++;
 }
 
+const NL_DataTypeNode *DataTypeImporter_getNode(const DataTypeImporter *importer,
+                                                const UA_NodeId *id)
+{
+    for (size_t i = 0; i < importer->nodesSize; i++)
+    {
+        if (UA_NodeId_equal(&importer->nodes[i]->id, id))
+        {
+            return importer->nodes[i];
+        }
+    }
+    return NULL;
+}
+
 DataTypeImporter *DataTypeImporter_new(struct UA_Server *server)
 {
     DataTypeImporter *importer =
diff --git a/backends/open62541/src/DataTypeImporter.h b/backends/open62541/src/DataTypeImporter.h
index 40665b7..ee71c5a 100644
--- a/backends/open62541/src/DataTypeImporter.h
+++ b/backends/open62541/src/DataTypeImporter.h
@@ -18,6 +18,9 @@ typedef struct DataTypeImporter DataTypeImporter;
 DataTypeImporter *DataTypeImporter_new(struct UA_Server *server);
 void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
                                         const NL_DataTypeNode *node, const UA_NodeId parentId);
+// get a node which was added to the importer, NULL if there is none
+const NL_DataTypeNode *DataTypeImporter_getNode(const DataTypeImporter *importer,
+                                                const UA_NodeId *id);
 // has to be called after all dependent types where added
 void DataTypeImporter_initMembers(DataTypeImporter *importer);
 void DataTypeImporter_delete(DataTypeImporter *importer);
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 308bfac..7010204 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -22,22 +22,26 @@
 
 unsigned short NodesetLoader_BackendOpen62541_addNamespace(void *userContext, const char *namespaceUri);
 
-static UA_NodeId getParentDataType(UA_Server *server, const UA_NodeId id)
+// the caller has to clear the id which is returned
+static UA_StatusCode getParentDataType(UA_Server *server, const UA_NodeId *id,
+                                       UA_NodeId *parentId)
 {
     UA_BrowseDescription bd;
     UA_BrowseDescription_init(&bd);
-    bd.nodeId = id;
+    bd.nodeId = *id;
     bd.browseDirection = UA_BROWSEDIRECTION_INVERSE;
+    bd.referenceTypeId = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     bd.nodeClassMask = UA_NODECLASS_DATATYPE;
 
-    UA_BrowseResult br = UA_Server_browse(server, 10, &bd);
-    if (br.statusCode != UA_STATUSCODE_GOOD || br.referencesSize != 1)
+    UA_StatusCode status = UA_STATUSCODE_GOOD;
+    UA_NodeId_init(parentId);
+    UA_BrowseResult br = UA_Server_browse(server, 0, &bd);
+    if (br.statusCode == UA_STATUSCODE_GOOD && br.referencesSize > 0)
     {
-        return UA_NODEID_NULL;
+        status = UA_NodeId_copy(&br.references[0].nodeId.nodeId, parentId);
     }
-    UA_NodeId parentId = br.references[0].nodeId.nodeId;
     UA_BrowseResult_clear(&br);
-    return parentId;
+    return status;
 }
 
 static bool isKnownParent(const UA_NodeId typeId)
@@ -56,14 +60,52 @@ static bool isKnownParent(const UA_NodeId typeId)
     return false;
 }
 
-static UA_NodeId getParentType(UA_Server *server, const UA_NodeId dataTypeId)
+// Super type of a data type of the nodeset. The data types are sorted, so that
+// the super types were passed to the importer before.
+static const UA_NodeId *getParentOfNode(const NL_DataTypeNode *node)
 {
-    UA_NodeId current = dataTypeId;
-    while (!isKnownParent(current))
+    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
+    for (const NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next)
     {
-        current = getParentDataType(server, current);
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtype))
+        {
+            return &ref->target;
+        }
     }
-    return current;
+    return NULL;
+}
+
+// Get the first known type in the chain of super types. The null id is returned
+// if there is none. The importer is used for types which are not in the server
+// (yet), it can be NULL.
+static UA_StatusCode getParentType(UA_Server *server,
+                                   const DataTypeImporter *importer,
+                                   const NL_DataTypeNode *node,
+                                   const UA_NodeId *dataTypeId, UA_NodeId *parent)
+{
+    // the type hierachy in the server may contain a cycle
+    const size_t maxDepth = 1000;
+
+    UA_StatusCode status = UA_NodeId_copy(dataTypeId, parent);
+    for (size_t i = 0; status == UA_STATUSCODE_GOOD && !isKnownParent(*parent);
+         i++)
+    {
+        UA_NodeId current = *parent;
+        UA_NodeId_init(parent);
+        if (i < maxDepth)
+        {
+            if (!node && importer)
+            {
+                node = DataTypeImporter_getNode(importer, &current);
+            }
+            const UA_NodeId *parentOfNode = node ? getParentOfNode(node) : NULL;
+            status = parentOfNode ? UA_NodeId_copy(parentOfNode, parent)
+                                  : getParentDataType(server, &current, parent);
+            node = NULL;
+        }
+        UA_NodeId_clear(&current);
+    }
+    return status;
 }
 
 static UA_NodeId getReferenceTypeId(const NL_Reference *ref)
@@ -217,7 +259,7 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
                                const UA_LocalizedText *lt,
                                const UA_QualifiedName *qn,
                                const UA_LocalizedText *description,
-                               const ServerContext *serverContext)
+                               ServerContext *serverContext)
 {
     UA_VariableAttributes attr = UA_VariableAttributes_default;
     attr.displayName = *lt;
@@ -260,8 +302,15 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
             // try it with parent
             if (!dataType)
             {
-                const UA_NodeId parent = getParentType(ServerContext_getServerObject(serverContext), attr.dataType);
+                UA_NodeId parent;
+                if (getParentType(ServerContext_getServerObject(serverContext),
+                                  NULL, NULL, &attr.dataType,
+                                  &parent) != UA_STATUSCODE_GOOD)
+                {
+                    ServerContext_setOutOfMemory(serverContext);
+                }
                 dataType = UA_findDataType(&parent);
+                UA_NodeId_clear(&parent);
             }
         }
 
@@ -506,6 +555,7 @@ struct DataTypeImportCtx
     DataTypeImporter *importer;
     const NL_BiDirectionalReference *hasEncodingRef;
     UA_Server *server;
+    ServerContext *serverContext;
 };
 
 static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
@@ -527,14 +577,21 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
         }
         r = r->next;
     }
-    const UA_NodeId parent =
-        getParentType(ctx->server, node->id);
+    UA_NodeId parent;
+    if (getParentType(ctx->server, ctx->importer, (NL_DataTypeNode *)node,
+                      &node->id, &parent) != UA_STATUSCODE_GOOD)
+    {
+        ServerContext_setOutOfMemory(ctx->serverContext);
+        return;
+    }
     DataTypeImporter_addCustomDataType(ctx->importer, (NL_DataTypeNode *)node,
                                        parent);
+    UA_NodeId_clear(&parent);
 }
 
-static void importDataTypes(NodesetLoader *loader, UA_Server *server)
+static void importDataTypes(NodesetLoader *loader, ServerContext *serverContext)
 {
+    UA_Server *server = ServerContext_getServerObject(serverContext);
     // add datatypes
     const NL_BiDirectionalReference *hasEncodingRef =
         NodesetLoader_getBidirectionalRefs(loader);
@@ -542,6 +599,7 @@ static void importDataTypes(NodesetLoader *loader, UA_Server *server)
     struct DataTypeImportCtx ctx;
     ctx.hasEncodingRef = hasEncodingRef;
     ctx.server = server;
+    ctx.serverContext = serverContext;
     ctx.importer = importer;
     NodesetLoader_forEachNode(loader, NODECLASS_DATATYPE, &ctx,
                               (NodesetLoader_forEachNode_Func)addDataType);
@@ -653,7 +711,7 @@ static void addNodes(NodesetLoader *loader, ServerContext *serverContext,
                                       (NodesetLoader_forEachNode_Func)addNodeImpl);
         if (classToImport == NODECLASS_DATATYPE)
         {
-            importDataTypes(loader, ServerContext_getServerObject(serverContext));
+            importDataTypes(loader, serverContext);
         }
 
         // Now we can see the nodes that could not be added and can calculate
-- 
2.43.0


From cb73c1d48ce3643eec19470939eba4e47036e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 22/35] fix: copy the ids of the encoding reference of a data
 type

They were shared with the list of the loader, string ids were released twice.
---
 backends/open62541/src/import.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 7010204..0f66e75 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -566,9 +566,20 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
     {
         if (UA_NodeId_equal(&r->source, &node->id))
         {
+            // the node owns the ids of its references
             NL_Reference *ref = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-            ref->refType = r->refType;
-            ref->target = r->target;
+            if (!ref ||
+                UA_NodeId_copy(&r->refType, &ref->refType) != UA_STATUSCODE_GOOD ||
+                UA_NodeId_copy(&r->target, &ref->target) != UA_STATUSCODE_GOOD)
+            {
+                if (ref)
+                {
+                    UA_NodeId_clear(&ref->refType);
+                }
+                free(ref);
+                ServerContext_setOutOfMemory(ctx->serverContext);
+                return;
+            }
 
             NL_Reference *lastRef = node->nonHierachicalRefs;
             node->nonHierachicalRefs = ref;
-- 
2.43.0


From 3a4d279935dea54fcee78566de0cee3a166c1a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 23/35] fix: the encoding reference of a data type is a forward
 reference

An inverse HasEncoding reference from the data type to its encoding, which is
not part of the nodeset, was added to the server.
---
 backends/open62541/src/import.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 0f66e75..d397fc4 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -580,6 +580,7 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
                 ServerContext_setOutOfMemory(ctx->serverContext);
                 return;
             }
+            ref->isForward = true;
 
             NL_Reference *lastRef = node->nonHierachicalRefs;
             node->nonHierachicalRefs = ref;
-- 
2.43.0


From 7aa6c505f057331a3e25319505023c71fb99caa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 24/35] fix: reject incomplete base64 strings

Bytes which were not decoded became part of the value.
---
 backends/open62541/src/nodeset_base64.h | 26 ++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/backends/open62541/src/nodeset_base64.h b/backends/open62541/src/nodeset_base64.h
index 8af13a6..1de01ba 100644
--- a/backends/open62541/src/nodeset_base64.h
+++ b/backends/open62541/src/nodeset_base64.h
@@ -115,6 +115,8 @@ char *base64(const void *binaryData, int len, int *flen)
     res[rc] = 0; // NULL TERMINATOR! ;)
     return res;
 }
+// Returns NULL if the string is empty or invalid (flen is 0) and if there is not
+// enough memory (flen is -1).
 unsigned char *unbase64(const char *ascii, int len, int *flen);
 
 unsigned char *unbase64(const char *ascii, int len, int *flen)
@@ -125,11 +127,15 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     int charNo = 0;
     int pad = 0;
 
+    *flen = 0;
+    if (len == 0)
+    {
+        return 0;
+    }
     safeAsciiPtr = (unsigned char *)malloc((size_t)len);
     if (!safeAsciiPtr)
     {
-        puts("ERROR: unbase64 could not allocate enough memory.");
-        puts("I must stop because I could not get enough");
+        *flen = -1;
         return 0;
     }
 
@@ -162,12 +168,15 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     }
 
     len = cb;
-    if (len < 2)
-    { // 2 accesses below would be OOB.
-        // catch empty string, return NULL as result.
-        puts("ERROR: You passed an invalid base64 string (too short). You get "
+    if (len == 0)
+    {
+        free(safeAsciiPtr);
+        return 0;
+    }
+    if (len % 4 != 0)
+    {
+        puts("ERROR: You passed an invalid base64 string (incomplete). You get "
              "NULL back.");
-        *flen = 0;
         free(safeAsciiPtr);
         return 0;
     }
@@ -180,9 +189,8 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     bin = (unsigned char *)malloc((size_t)*flen);
     if (!bin)
     {
-        puts("ERROR: unbase64 could not allocate enough memory.");
-        puts("I must stop because I could not get enough");
         free(safeAsciiPtr);
+        *flen = -1;
         return 0;
     }
 
-- 
2.43.0


From e0130e91867bb3313f39d07e22d9501355754c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 25/35] fix: do not crash on values which do not match their
 data type

Missing members, elements without content, values of data types which are not
supported and failed allocations ended in an assertion or in invalid memory
accesses, a missing member shifted the ones after it, partial values leaked. A
variable has no value if it cannot be converted, and the load is reported to have
failed if there was not enough memory. Dimensions of variable types were a dangling
pointer.
---
 backends/open62541/src/Value.c  | 543 ++++++++++++++++++--------------
 backends/open62541/src/Value.h  |  18 +-
 backends/open62541/src/import.c | 136 ++++----
 3 files changed, 379 insertions(+), 318 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 59bd496..fdd3431 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -13,15 +13,8 @@
 #include "nodeset_base64.h"
 #include "ServerContext.h"
 
-#include <assert.h>
-
-typedef struct TypeList TypeList;
-struct TypeList
-{
-    const UA_DataType *type;
-    size_t memberIndex;
-    TypeList *next;
-};
+#include <stdbool.h>
+#include <string.h>
 
 typedef void (*ConversionFn)(uintptr_t adr, const char *value);
 
@@ -80,73 +73,79 @@ static void setDouble(uintptr_t adr, const char *value)
     *(UA_Double *)adr = atof(value);
 }
 
-static void setString(uintptr_t adr, const char *value)
+static UA_StatusCode setString(uintptr_t adr, const char *value)
 {
     UA_String *s = (UA_String *)adr;
+    size_t length = strlen(value);
 
-    
-    s->length = strlen(value);
-    s->data = (UA_Byte*)calloc(s->length, 1);
-    memcpy(s->data, value, s->length);
-    //s->data = (UA_Byte *)(uintptr_t)value;
+    if (length == 0)
+    {
+        s->data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL;
+        return UA_STATUSCODE_GOOD;
+    }
+    s->data = (UA_Byte *)UA_malloc(length);
+    if (!s->data)
+    {
+        return UA_STATUSCODE_BADOUTOFMEMORY;
+    }
+    memcpy(s->data, value, length);
+    s->length = length;
+    return UA_STATUSCODE_GOOD;
 }
 
-#define CONVERSION_TABLE_SIZE 12
+#define CONVERSION_TABLE_SIZE 11
 static const ConversionFn conversionTable[CONVERSION_TABLE_SIZE] =
     {setBoolean, setSByte, setByte,   setInt16, setUInt16, setInt32,
-     setUInt32,  setInt64, setUInt64, setFloat, setDouble, setString};
+     setUInt32,  setInt64, setUInt64, setFloat, setDouble};
 
-static void
+static UA_StatusCode
 setScalarValueWithAddress(uintptr_t adr, UA_UInt32 kind, const char *value)
 {
-    if (value)
+    if (!value)
     {
-        conversionTable[kind](adr, value);
+        return UA_STATUSCODE_GOOD;
     }
+    if (kind == UA_DATATYPEKIND_STRING)
+    {
+        return setString(adr, value);
+    }
+    conversionTable[kind](adr, value);
+    return UA_STATUSCODE_GOOD;
 }
 
-RawData *RawData_new(RawData *old)
+// position in the memory of a value
+struct RawData
 {
-    RawData *data = (RawData *)calloc(1, sizeof(RawData));
-    if (!data)
-    {
-        return NULL;
-    }
-    if(old)
-    {
-        while (old->next)
-        {
-            old = old->next;
-        }
-        old->next = data;
-    }
+    void *mem;
+    size_t offset;
+};
+typedef struct RawData RawData;
 
-    return data;
+static const char *getText(const NL_Data *value)
+{
+    return value->type == DATATYPE_PRIMITIVE ? value->val.primitiveData.value
+                                             : NULL;
 }
 
-void RawData_delete(RawData *data)
+static size_t getMembersSize(const NL_Data *value)
 {
-    while(data)
-    {
-        RawData* tmp = data;
-        data=data->next;
-        //free(tmp->mem);
-        free(tmp);
-    }
+    // an element without content is a primitive
+    return value->type == DATATYPE_COMPLEX ? value->val.complexData.membersSize
+                                           : 0;
 }
 
-static void setPrimitiveValue(RawData *data, const char *value,
-                              UA_DataTypeKind kind, size_t memSize)
+static UA_StatusCode setPrimitiveValue(RawData *data, const char *value,
+                                       UA_DataTypeKind kind, size_t memSize)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    setScalarValueWithAddress(adr, kind, value);
     data->offset = data->offset + memSize;
+    return setScalarValueWithAddress(adr, kind, value);
 }
 
 static NL_Data *lookupMember(const NL_Data *value, const char *name)
 {
     // is there a better way?
-    for (size_t cnt = 0; cnt < value->val.complexData.membersSize; cnt++)
+    for (size_t cnt = 0; cnt < getMembersSize(value); cnt++)
     {
         if (!strcmp(value->val.complexData.members[cnt]->name, name))
         {
@@ -156,103 +155,131 @@ static NL_Data *lookupMember(const NL_Data *value, const char *name)
     return NULL;
 }
 
-static void setDateTime(const NL_Data *value, RawData *data)
+static const char *lookupText(const NL_Data *value, const char *name)
+{
+    const NL_Data *member = lookupMember(value, name);
+    return member ? getText(member) : NULL;
+}
+
+static UA_StatusCode setDateTime(const NL_Data *value, RawData *data)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    UA_DateTime time = UA_DateTime_fromString(value->val.primitiveData.value);
-    *(UA_DateTime*)adr = time;
+    const char *text = getText(value);
+    if (text)
+    {
+        *(UA_DateTime *)adr = UA_DateTime_fromString(text);
+    }
     data->offset = data->offset + sizeof(UA_DateTime);
+    return UA_STATUSCODE_GOOD;
 }
 
-static void setQualifiedName(const NL_Data *value, RawData *data, const ServerContext *serverContext)
+static UA_StatusCode setQualifiedName(const NL_Data *value, RawData *data,
+                                      const ServerContext *serverContext)
 {
-    uintptr_t adr = (uintptr_t)data->mem + data->offset;
+    UA_QualifiedName *qn =
+        (UA_QualifiedName *)((uintptr_t)data->mem + data->offset);
 
-    setScalarValueWithAddress(
-        (uintptr_t)&((UA_QualifiedName*)adr)->namespaceIndex,
-        UA_DATATYPEKIND_UINT16,
-        value->val.complexData.members[0]->val.primitiveData.value);
-    
-    // Translate namespace index
-    ((UA_QualifiedName*)adr)->namespaceIndex = 
-        ServerContext_translateToServerIdx(serverContext, ((UA_QualifiedName*)adr)->namespaceIndex);        
+    setScalarValueWithAddress((uintptr_t)&qn->namespaceIndex,
+                              UA_DATATYPEKIND_UINT16,
+                              lookupText(value, "NamespaceIndex"));
 
-    setScalarValueWithAddress(
-        (uintptr_t)&((UA_QualifiedName*)adr)->name,
-        UA_DATATYPEKIND_STRING,
-        value->val.complexData.members[1]->val.primitiveData.value);
+    // Translate namespace index
+    qn->namespaceIndex = ServerContext_translateToServerIdx(
+        serverContext, qn->namespaceIndex);
 
     data->offset += sizeof(UA_QualifiedName);
+    return setScalarValueWithAddress((uintptr_t)&qn->name,
+                                     UA_DATATYPEKIND_STRING,
+                                     lookupText(value, "Name"));
 }
 
-static void setLocalizedText(const NL_Data *value, RawData *data)
+static UA_StatusCode setLocalizedText(const NL_Data *value, RawData *data)
 {
-    NL_Data *localeData = lookupMember(value, "Locale");
+    UA_LocalizedText *lt =
+        (UA_LocalizedText *)((uintptr_t)data->mem + data->offset);
+    data->offset += sizeof(UA_LocalizedText);
 
-    if (localeData)
+    UA_StatusCode status = setScalarValueWithAddress(
+        (uintptr_t)&lt->locale, UA_DATATYPEKIND_STRING,
+        lookupText(value, "Locale"));
+    if (status != UA_STATUSCODE_GOOD)
     {
-        setScalarValueWithAddress(data->offset + (uintptr_t) &
-                                      ((UA_LocalizedText *)data->mem)->locale,
-                                  UA_DATATYPEKIND_STRING,
-                                  localeData->val.primitiveData.value);
+        return status;
     }
+    return setScalarValueWithAddress((uintptr_t)&lt->text,
+                                     UA_DATATYPEKIND_STRING,
+                                     lookupText(value, "Text"));
+}
 
-    NL_Data *textData = lookupMember(value, "Text");
+static UA_StatusCode setNodeId(const NL_Data *value, RawData *data,
+                               const ServerContext *serverContext)
+{
+    UA_NodeId *id = (UA_NodeId *)((uintptr_t)data->mem + data->offset);
+    data->offset += sizeof(UA_NodeId);
 
-    if (textData)
+    const char *text = lookupText(value, "Identifier");
+    if (!text)
     {
-        setScalarValueWithAddress(
-            data->offset + (uintptr_t) & ((UA_LocalizedText *)data->mem)->text,
-            UA_DATATYPEKIND_STRING, textData->val.primitiveData.value);
+        return UA_STATUSCODE_GOOD;
+    }
+    UA_String idString;
+    idString.length = strlen(text);
+    idString.data = (UA_Byte *)(uintptr_t)text;
+    UA_StatusCode status = UA_NodeId_parse(id, idString);
+    if (status != UA_STATUSCODE_GOOD)
+    {
+        return status;
     }
-    data->offset += sizeof(UA_LocalizedText);
-}
-
-static void setNodeId(const NL_Data *value, RawData *data, const ServerContext *serverContext)
-{
-    assert(value->val.complexData.membersSize == 1);
-    *(UA_NodeId *)((uintptr_t)data->mem + data->offset) =
-        extractNodeId((char *)(uintptr_t)value->val.complexData.members[0]
-                          ->val.primitiveData.value);
 
     // Translate namespace index
-    (*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).namespaceIndex =
-        ServerContext_translateToServerIdx(serverContext, (*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).namespaceIndex);
-
-    data->offset += sizeof(UA_NodeId);
+    id->namespaceIndex =
+        ServerContext_translateToServerIdx(serverContext, id->namespaceIndex);
+    return UA_STATUSCODE_GOOD;
 }
 
-static void setByteString(const NL_Data* value, RawData*data)
+static UA_StatusCode setByteString(const NL_Data *value, RawData *data)
 {
-    UA_ByteString *s = (UA_ByteString *)((uintptr_t)data->mem+data->offset);
-    int len = 0;
-    unsigned char *val = NULL;
+    UA_ByteString *s = (UA_ByteString *)((uintptr_t)data->mem + data->offset);
+    data->offset += sizeof(UA_ByteString);
 
-    if (value->val.primitiveData.value)
+    const char *text = getText(value);
+    if (!text)
     {
-        val = unbase64(value->val.primitiveData.value, (int)strlen(value->val.primitiveData.value), &len);
+        return UA_STATUSCODE_GOOD;
+    }
+    int len = 0;
+    s->data = unbase64(text, (int)strlen(text), &len);
+    if (len < 0)
+    {
+        return UA_STATUSCODE_BADOUTOFMEMORY;
     }
-
     s->length = (size_t)len;
-    s->data = val;
+    return UA_STATUSCODE_GOOD;
 }
 
-static void setGuid(const NL_Data* value, RawData*data)
+static UA_StatusCode setGuid(const NL_Data *value, RawData *data)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    *(UA_Guid*)adr = UA_GUID((const char *)(value->val.complexData.members[0]->val.primitiveData.value));
+    const char *text = lookupText(value, "String");
+    if (text)
+    {
+        *(UA_Guid *)adr = UA_GUID(text);
+    }
     data->offset = data->offset + sizeof(UA_Guid);
+    return UA_STATUSCODE_GOOD;
 }
 
-static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *data,
-                      const UA_DataType *customTypes, const ServerContext *serverContext);
-static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,
-                     const UA_DataType *customTypes, const ServerContext *serverContext);
+static UA_StatusCode setScalar(const NL_Data *value, const UA_DataType *type,
+                               RawData *data,
+                               const ServerContext *serverContext);
+static UA_StatusCode setArray(const NL_Data *value, const UA_DataType *type,
+                              RawData *data,
+                              const ServerContext *serverContext);
 
-static const char* getEnumValuePos(const char *string)
+static const char *getEnumValuePos(const char *string)
 {
     // Enum value is either on <symbol>_<value> or <value> format
-    char *enumSepPos = strchr(string, '_');
+    const char *enumSepPos = string ? strchr(string, '_') : NULL;
     if (enumSepPos)
     {
         return ++enumSepPos;
@@ -260,48 +287,65 @@ static const char* getEnumValuePos(const char *string)
     return string;
 }
 
-static void setStructure(const NL_Data *value, const UA_DataType *type,
-                         RawData *data, const UA_DataType *customTypes,
-                         const ServerContext *serverContext)
+// Set the field of a structure or union. All of the memory is reachable from
+// the value at any time, so that it can be cleared if this fails.
+static UA_StatusCode setField(const NL_Data *value, const UA_DataTypeMember *m,
+                              RawData *data, const ServerContext *serverContext)
+{
+    if (!m->isArray)
+    {
+        return setScalar(value, m->memberType, data, serverContext);
+    }
+
+    size_t length = getMembersSize(value);
+    size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
+    data->offset += sizeof(size_t);
+    void **d = (void **)((uintptr_t)data->mem + data->offset);
+    data->offset += sizeof(void *);
+    if (length == 0)
+    {
+        *d = UA_EMPTY_ARRAY_SENTINEL;
+        return UA_STATUSCODE_GOOD;
+    }
+    RawData rawdata = {UA_calloc(length, m->memberType->memSize), 0};
+    if (!rawdata.mem)
+    {
+        return UA_STATUSCODE_BADOUTOFMEMORY;
+    }
+    *size = length;
+    *d = rawdata.mem;
+    return setArray(value, m->memberType, &rawdata, serverContext);
+}
+
+static UA_StatusCode setStructure(const NL_Data *value, const UA_DataType *type,
+                                  RawData *data,
+                                  const ServerContext *serverContext)
 {
-    assert(value->type == DATATYPE_COMPLEX);
     // there can be less members specified then the type requires
     for (const UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
     {
-        const UA_DataType* memberType = m->memberType;
-
         data->offset += m->padding;
+        const size_t memberSize = m->isArray ? sizeof(size_t) + sizeof(void *)
+                                             : m->memberType->memSize;
+        const size_t structOffset = data->offset + memberSize;
         NL_Data *memberData = lookupMember(value, m->memberName);
-        if (!memberData)
+        if (memberData)
         {
-            data->offset += memberType->memSize;
-            return;
-        }
-        if (m->isArray)
-        {
-            RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                  memberType->memSize);
-            setArray(memberData, memberType, rawdata, customTypes, serverContext);
-            size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
-            data->offset += sizeof(size_t);
-            void **d = (void **)((uintptr_t)data->mem + data->offset);
-            *d = rawdata->mem;
-            data->offset += sizeof(void *);
-        }
-        else
-        {
-            size_t structOffset = data->offset + memberType->memSize;
-            setScalar(memberData, memberType, data, customTypes, serverContext);
-            data->offset = structOffset;
+            UA_StatusCode status = setField(memberData, m, data, serverContext);
+            if (status != UA_STATUSCODE_GOOD)
+            {
+                return status;
+            }
         }
+        data->offset = structOffset;
     }
+    return UA_STATUSCODE_GOOD;
 }
 
-static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *data,
-                        const UA_DataType *customTypes, const ServerContext *serverContext)
+static UA_StatusCode setUnion(const NL_Data *value, const UA_DataType *type,
+                              RawData *data,
+                              const ServerContext *serverContext)
 {
     // For a reference, decoded union has the following layout in code:
     //
@@ -317,149 +361,160 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
     //                               <-- end padding
     // }
 
-    // Remember the initial offset of the complete union
-    const size_t unionOffset = data->offset;
-    // Extract the switchField value
-    const UA_UInt32 switchField = (UA_UInt32)atoi(value->val.complexData.members[0]->val.primitiveData.value);
-    // Write out the switchField value
-    *(UA_UInt32 *)((uintptr_t)data->mem + data->offset) = switchField;
-    // Insert the field padding
-
     // If the switch field is 0 then no field is present.
     // A Union with no fields present has the same meaning as a NULL value.
     // See: https://reference.opcfoundation.org/v104/Core/docs/Part6/5.2.8/
-    if (switchField != 0) {
-        data->offset += type->members[switchField - 1].padding;
-        // For convenience setup direct pointers to data and type
-        NL_Data *memberData = value->val.complexData.members[1];
-        const UA_DataType* memberType = type->members[switchField - 1].memberType;
-
-        // Write out the field value
-        if (type->members[switchField - 1].isArray)
-        {
-            RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                    memberType->memSize);
-            setArray(memberData, memberType, rawdata, customTypes, serverContext);
-            size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
-            data->offset += sizeof(size_t);
-            void **d = (void **)((uintptr_t)data->mem + data->offset);
-            *d = rawdata->mem;
-            data->offset += sizeof(void *);
-        }
-        else
-        {
-            setScalar(memberData, memberType, data, customTypes, serverContext);
-        }
-        // Overwrite the offset using the size of the complete union, which includes also "end padding" of a C structure.
-        data->offset = unionOffset + type->memSize;
+    const char *text =
+        getMembersSize(value) > 0 ? getText(value->val.complexData.members[0]) : NULL;
+    const UA_UInt32 switchField = text ? (UA_UInt32)atoi(text) : 0;
+    if (switchField > type->membersSize)
+    {
+        return UA_STATUSCODE_BADDECODINGERROR;
     }
+    // Write out the switchField value
+    *(UA_UInt32 *)((uintptr_t)data->mem + data->offset) = switchField;
+    if (switchField == 0 || getMembersSize(value) < 2)
+    {
+        return UA_STATUSCODE_GOOD;
+    }
+    // Insert the field padding
+    data->offset += type->members[switchField - 1].padding;
+    // Write out the field value
+    return setField(value->val.complexData.members[1],
+                    &type->members[switchField - 1], data, serverContext);
 }
 
-static void setStatusCode(const NL_Data *value, RawData *data)
+static UA_StatusCode setStatusCode(const NL_Data *value, RawData *data)
 {
     // StatusCode is a complex type with a primitive
-    assert(value->type == DATATYPE_COMPLEX);
-    if (value->val.complexData.membersSize == 1)
-    {
-        NL_Data *code = value->val.complexData.members[0];
-        setPrimitiveValue(
-            data, code->val.primitiveData.value, UA_DATATYPEKIND_UINT32,
-            UA_TYPES[UA_TYPES_UINT32].memSize);
-    }
+    return setPrimitiveValue(data, lookupText(value, "Code"),
+                             UA_DATATYPEKIND_UINT32,
+                             UA_TYPES[UA_TYPES_UINT32].memSize);
 }
 
-static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *data,
-                      const UA_DataType *customTypes, const ServerContext *serverContext)
+// The type determines whether the value has to be a primitive. An element
+// without content is a primitive, too.
+static bool isMatching(const NL_Data *value, const UA_DataType *type)
 {
-    if (type->typeKind < CONVERSION_TABLE_SIZE)
-    {
-        setPrimitiveValue(data, value->val.primitiveData.value,
-                          (UA_DataTypeKind)type->typeKind, type->memSize);
-    }
-    else if(type->typeKind == UA_DATATYPEKIND_BYTESTRING)
-    {
-        setByteString(value, data);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_NODEID)
-    {
-        setNodeId(value, data, serverContext);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_QUALIFIEDNAME)
-    {
-        setQualifiedName(value, data, serverContext);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_LOCALIZEDTEXT)
-    {
-        setLocalizedText(value, data);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_DATETIME)
+    bool isPrimitiveType = type->typeKind <= UA_DATATYPEKIND_DATETIME ||
+                           type->typeKind == UA_DATATYPEKIND_BYTESTRING ||
+                           type->typeKind == UA_DATATYPEKIND_ENUM;
+    if (value->type == DATATYPE_COMPLEX)
     {
-        setDateTime(value, data);
+        return !isPrimitiveType;
     }
-    else if (type->typeKind == UA_DATATYPEKIND_ENUM)
-    {
-        setPrimitiveValue(data, getEnumValuePos(value->val.primitiveData.value),
-                          UA_DATATYPEKIND_INT32,
-                          UA_TYPES[UA_TYPES_INT32].memSize);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_STRUCTURE)
-    {
-        setStructure(value, type, data, customTypes, serverContext);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_GUID)
-    {
-        setGuid(value, data);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_UNION)
-    {
-        setUnion(value, type, data, customTypes, serverContext);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_STATUSCODE)
+    return isPrimitiveType || value->val.primitiveData.value == NULL;
+}
+
+static UA_StatusCode setScalar(const NL_Data *value, const UA_DataType *type,
+                               RawData *data,
+                               const ServerContext *serverContext)
+{
+    if (!isMatching(value, type))
     {
-        setStatusCode(value, data);
+        return UA_STATUSCODE_BADDECODINGERROR;
     }
-    else
+    switch (type->typeKind)
     {
-        assert(false && "conversion not implemented");
+    case UA_DATATYPEKIND_BOOLEAN:
+    case UA_DATATYPEKIND_SBYTE:
+    case UA_DATATYPEKIND_BYTE:
+    case UA_DATATYPEKIND_INT16:
+    case UA_DATATYPEKIND_UINT16:
+    case UA_DATATYPEKIND_INT32:
+    case UA_DATATYPEKIND_UINT32:
+    case UA_DATATYPEKIND_INT64:
+    case UA_DATATYPEKIND_UINT64:
+    case UA_DATATYPEKIND_FLOAT:
+    case UA_DATATYPEKIND_DOUBLE:
+    case UA_DATATYPEKIND_STRING:
+        return setPrimitiveValue(data, getText(value),
+                                 (UA_DataTypeKind)type->typeKind, type->memSize);
+    case UA_DATATYPEKIND_BYTESTRING:
+        return setByteString(value, data);
+    case UA_DATATYPEKIND_NODEID:
+        return setNodeId(value, data, serverContext);
+    case UA_DATATYPEKIND_QUALIFIEDNAME:
+        return setQualifiedName(value, data, serverContext);
+    case UA_DATATYPEKIND_LOCALIZEDTEXT:
+        return setLocalizedText(value, data);
+    case UA_DATATYPEKIND_DATETIME:
+        return setDateTime(value, data);
+    case UA_DATATYPEKIND_ENUM:
+        return setPrimitiveValue(data, getEnumValuePos(getText(value)),
+                                 UA_DATATYPEKIND_INT32,
+                                 UA_TYPES[UA_TYPES_INT32].memSize);
+    case UA_DATATYPEKIND_STRUCTURE:
+        return setStructure(value, type, data, serverContext);
+    case UA_DATATYPEKIND_GUID:
+        return setGuid(value, data);
+    case UA_DATATYPEKIND_UNION:
+        return setUnion(value, type, data, serverContext);
+    case UA_DATATYPEKIND_STATUSCODE:
+        return setStatusCode(value, data);
+    default:
+        // conversion not implemented
+        return UA_STATUSCODE_BADNOTSUPPORTED;
     }
 }
 
-static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,
-                     const UA_DataType *customTypes, const ServerContext *serverContext)
+static UA_StatusCode setArray(const NL_Data *value, const UA_DataType *type,
+                              RawData *data, const ServerContext *serverContext)
 {
-    for (size_t i = 0; i < value->val.complexData.membersSize; i++)
+    for (size_t i = 0; i < getMembersSize(value); i++)
     {
         data->offset = i * type->memSize;
-        setScalar(value->val.complexData.members[i], type, data, customTypes, serverContext);
+        UA_StatusCode status = setScalar(value->val.complexData.members[i],
+                                         type, data, serverContext);
+        if (status != UA_STATUSCODE_GOOD)
+        {
+            return status;
+        }
     }
+    return UA_STATUSCODE_GOOD;
 }
 
-void Value_getData(RawData *outData, const NL_Value *value, const UA_DataType *type,
-                   const UA_DataType *customTypes, const ServerContext *serverContext)
+size_t Value_getArrayLength(const NL_Value *value)
+{
+    return value->data ? getMembersSize(value->data) : 0;
+}
+
+UA_StatusCode Value_getVariant(UA_Variant *variant, const NL_Value *value,
+                               const UA_DataType *type,
+                               const ServerContext *serverContext)
 {
     if (!type)
     {
-        return;
+        return UA_STATUSCODE_BADNOTFOUND;
     }
 
+    const size_t length = value->isArray ? Value_getArrayLength(value) : 1;
+    if (length == 0)
+    {
+        UA_Variant_setArray(variant, NULL, 0, type);
+        return UA_STATUSCODE_GOOD;
+    }
+
+    RawData data = {UA_calloc(length, type->memSize), 0};
+    if (!data.mem)
+    {
+        return UA_STATUSCODE_BADOUTOFMEMORY;
+    }
+    UA_StatusCode status;
     if (value->isArray)
     {
-        if (value->data->val.complexData.membersSize == 0)
-        {
-            outData = NULL;
-        }
-        else
-        {
-            outData->mem =
-                calloc(value->data->val.complexData.membersSize, type->memSize);
-            setArray(value->data, type, outData, customTypes, serverContext);
-        }
+        UA_Variant_setArray(variant, data.mem, length, type);
+        status = setArray(value->data, type, &data, serverContext);
     }
     else
     {
-        outData->mem = calloc(1, type->memSize);
-        setScalar(value->data, type, outData, customTypes, serverContext);
+        UA_Variant_setScalar(variant, data.mem, type);
+        status = setScalar(value->data, type, &data, serverContext);
+    }
+    if (status != UA_STATUSCODE_GOOD)
+    {
+        // there is no value rather than a part of it
+        UA_Variant_clear(variant);
     }
+    return status;
 }
diff --git a/backends/open62541/src/Value.h b/backends/open62541/src/Value.h
index fe97559..348b525 100644
--- a/backends/open62541/src/Value.h
+++ b/backends/open62541/src/Value.h
@@ -14,17 +14,13 @@
 
 struct ServerContext;
 
-struct RawData;
-struct RawData
-{
-    void *mem;
-    size_t offset;
-    struct RawData* next;
-};
-typedef struct RawData RawData;
-RawData *RawData_new(RawData *old);
-void RawData_delete(RawData *data);
+// number of elements of an array
+size_t Value_getArrayLength(const NL_Value *value);
 
-void Value_getData(RawData *outData, const NL_Value *value, const UA_DataType* type, const UA_DataType* customTypes, const struct ServerContext *serverContext);
+// Creates the value of a variable. The variant is empty if this fails: either
+// there is not enough memory or the value cannot be converted to the type.
+UA_StatusCode Value_getVariant(UA_Variant *variant, const NL_Value *value,
+                               const UA_DataType *type,
+                               const struct ServerContext *serverContext);
 
 #endif
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index d397fc4..15aa6c7 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -227,30 +227,46 @@ handleMethodNode(const NL_MethodNode *node, UA_NodeId *id,
                             NULL);
 }
 
-static size_t getArrayDimensions(const char *s, UA_UInt32 **dims)
+static UA_StatusCode getArrayDimensions(const char *s, size_t *dimsSize,
+                                        UA_UInt32 **dims)
 {
-    size_t length = strlen(s);
-    size_t arrSize = 0;
-    if (0 == length)
-    {
-        return 0;
-    }
-    // add the first one
-    int val = atoi(s);
-    arrSize++;
-    *dims = (UA_UInt32 *)malloc(sizeof(UA_UInt32));
-    (*dims)[0] = (UA_UInt32)val;
+    *dimsSize = 0;
+    *dims = NULL;
+    // the first one is not preceded by a comma
+    const char *dimension = s[0] ? s : NULL;
+    while (dimension != NULL)
+    {
+        UA_UInt32 *newDims = (UA_UInt32 *)UA_realloc(
+            *dims, (*dimsSize + 1) * sizeof(UA_UInt32));
+        if (!newDims)
+        {
+            UA_free(*dims);
+            *dims = NULL;
+            *dimsSize = 0;
+            return UA_STATUSCODE_BADOUTOFMEMORY;
+        }
+        *dims = newDims;
+        (*dims)[*dimsSize] = (UA_UInt32)atoi(dimension);
+        (*dimsSize)++;
 
-    const char *subString = strchr(s, ',');
+        const char *separator = strchr(dimension, ',');
+        dimension = separator ? separator + 1 : NULL;
+    }
+    return UA_STATUSCODE_GOOD;
+}
 
-    while (subString != NULL)
+// one dimension, if the nodeset does not state any
+static UA_StatusCode setDefaultArrayDimension(UA_UInt32 length, size_t *dimsSize,
+                                              UA_UInt32 **dims)
+{
+    *dims = UA_UInt32_new();
+    if (!*dims)
     {
-        arrSize++;
-        *dims = (UA_UInt32 *)realloc(*dims, arrSize * sizeof(UA_UInt32));
-        (*dims)[arrSize - 1] = (UA_UInt32)atoi(subString + 1);
-        subString = strchr(subString + 1, ',');
+        return UA_STATUSCODE_BADOUTOFMEMORY;
     }
-    return arrSize;
+    **dims = length;
+    *dimsSize = 1;
+    return UA_STATUSCODE_GOOD;
 }
 
 static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *id,
@@ -265,10 +281,9 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
     attr.displayName = *lt;
     attr.dataType = node->datatype;
     attr.valueRank = atoi(node->valueRank);
-    UA_UInt32 *arrDims = NULL;
-    attr.arrayDimensionsSize =
-        getArrayDimensions(node->arrayDimensions, &arrDims);
-    attr.arrayDimensions = arrDims;
+    UA_StatusCode dimsStatus =
+        getArrayDimensions(node->arrayDimensions, &attr.arrayDimensionsSize,
+                           &attr.arrayDimensions);
     attr.accessLevel = (UA_Byte)atoi(node->accessLevel);
     attr.userAccessLevel = (UA_Byte)atoi(node->userAccessLevel);
     attr.description = *description;
@@ -277,21 +292,24 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
 
     // this case is only needed for the euromap83 comparison, think the nodeset
     // is not valid
-    if (attr.arrayDimensions == NULL && attr.valueRank == 1)
+    if (dimsStatus == UA_STATUSCODE_GOOD && attr.arrayDimensions == NULL &&
+        attr.valueRank == 1)
     {
-        attr.arrayDimensionsSize = 1;
-        attr.arrayDimensions = UA_UInt32_new();
-        *attr.arrayDimensions = 0;
+        dimsStatus = setDefaultArrayDimension(0, &attr.arrayDimensionsSize,
+                                              &attr.arrayDimensions);
     }
 
-    if (attr.arrayDimensionsSize == 0 && node->value && node->value->isArray)
+    if (dimsStatus == UA_STATUSCODE_GOOD && attr.arrayDimensionsSize == 0 &&
+        node->value && node->value->data && node->value->isArray)
     {
-        attr.arrayDimensions = UA_UInt32_new();
-        *attr.arrayDimensions =
-            (UA_UInt32)node->value->data->val.complexData.membersSize;
-        attr.arrayDimensionsSize = 1;
+        dimsStatus = setDefaultArrayDimension(
+            (UA_UInt32)Value_getArrayLength(node->value),
+            &attr.arrayDimensionsSize, &attr.arrayDimensions);
+    }
+    if (dimsStatus != UA_STATUSCODE_GOOD)
+    {
+        ServerContext_setOutOfMemory(serverContext);
     }
-    RawData *data = NULL;
     if (node->value && node->value->data != NULL)
     {
         const UA_DataType *dataType = UA_findDataType(&attr.dataType);
@@ -314,24 +332,12 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
             }
         }
 
-        UA_ServerConfig *config = UA_Server_getConfig(ServerContext_getServerObject(serverContext));
-        const UA_DataTypeArray *types = config->customDataTypes;
-
-        data = RawData_new(data);
-        Value_getData(data, node->value, dataType, types->types, serverContext);
-
-        if (data)
+        // a variable has no value, if the nodeset has none of its data type or
+        // the data type is not supported
+        if (Value_getVariant(&attr.value, node->value, dataType,
+                             serverContext) == UA_STATUSCODE_BADOUTOFMEMORY)
         {
-            if (node->value->isArray)
-            {
-                UA_Variant_setArray(
-                    &attr.value, data->mem,
-                    node->value->data->val.complexData.membersSize, dataType);
-            }
-            else
-            {
-                UA_Variant_setScalar(&attr.value, data->mem, dataType);
-            }
+            ServerContext_setOutOfMemory(serverContext);
         }
     }
     UA_NodeId typeDefId = UA_NODEID_NULL;
@@ -348,8 +354,6 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
     //cannot call addNode finish, otherwise the nodes for e.g. range will be instantiated twice
     //UA_Server_addNode_finish(server, *id);
     UA_Variant_clear(&attr.value);
-
-    RawData_delete(data);
     UA_free(attr.arrayDimensions);
     return Status;
 }
@@ -396,7 +400,7 @@ static UA_StatusCode handleVariableTypeNode(const NL_VariableTypeNode *node, UA_
                                    const UA_LocalizedText *lt,
                                    const UA_QualifiedName *qn,
                                    const UA_LocalizedText *description,
-                                   UA_Server *server)
+                                   ServerContext *serverContext)
 {
     UA_VariableTypeAttributes attr = UA_VariableTypeAttributes_default;
     attr.displayName = *lt;
@@ -404,21 +408,27 @@ static UA_StatusCode handleVariableTypeNode(const NL_VariableTypeNode *node, UA_
     attr.description = *description;
     attr.valueRank = atoi(node->valueRank);
     attr.isAbstract = isValTrue(node->isAbstract);
-    if (attr.valueRank >= 0)
+    UA_StatusCode status =
+        getArrayDimensions(node->arrayDimensions, &attr.arrayDimensionsSize,
+                           &attr.arrayDimensions);
+    if (status == UA_STATUSCODE_GOOD && attr.valueRank >= 0 &&
+        attr.arrayDimensionsSize == 0)
     {
-        if (!strcmp(node->arrayDimensions, ""))
-        {
-            attr.arrayDimensionsSize = 1;
-            UA_UInt32 arrayDimensions[1];
-            arrayDimensions[0] = 0;
-            attr.arrayDimensions = &arrayDimensions[0];
-        }
+        status = setDefaultArrayDimension(0, &attr.arrayDimensionsSize,
+                                          &attr.arrayDimensions);
+    }
+    if (status != UA_STATUSCODE_GOOD)
+    {
+        ServerContext_setOutOfMemory(serverContext);
+        return status;
     }
 
-   return UA_Server_addNode_begin(server, UA_NODECLASS_VARIABLETYPE, *id, *parentId,
+    status = UA_Server_addNode_begin(ServerContext_getServerObject(serverContext), UA_NODECLASS_VARIABLETYPE, *id, *parentId,
                             *parentReferenceId, *qn, UA_NODEID_NULL, &attr,
                             &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES],
                             node->extension, NULL);
+    UA_free(attr.arrayDimensions);
+    return status;
 }
 
 static UA_StatusCode handleDataTypeNode(const NL_DataTypeNode *node, UA_NodeId *id,
@@ -486,7 +496,7 @@ static void addNodeImpl(AddNodeContext *context, NL_Node *node)
     case NODECLASS_VARIABLETYPE:
         addedNodeStatus = handleVariableTypeNode((const NL_VariableTypeNode *)node, &id, &parentId,
                                                  &parentReferenceId, &lt, &qn, &description,
-                                                 ServerContext_getServerObject(context->serverContext));
+                                                 context->serverContext);
         break;
 
     case NODECLASS_VARIABLE:
-- 
2.43.0


From 634b73c284c2f1bca06285d15642b477a3f86840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 26/35] fix: keep all digits of 32 and 64 bit integer values

---
 backends/open62541/src/Value.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index fdd3431..5802130 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -14,6 +14,7 @@
 #include "ServerContext.h"
 
 #include <stdbool.h>
+#include <stdlib.h>
 #include <string.h>
 
 typedef void (*ConversionFn)(uintptr_t adr, const char *value);
@@ -50,17 +51,17 @@ static void setInt32(uintptr_t adr, const char *value)
 
 static void setUInt32(uintptr_t adr, const char *value)
 {
-    *(UA_UInt32 *)adr = (UA_UInt32)atoi(value);
+    *(UA_UInt32 *)adr = (UA_UInt32)strtoul(value, NULL, 10);
 }
 
 static void setInt64(uintptr_t adr, const char *value)
 {
-    *(UA_Int64 *)adr = atoi(value);
+    *(UA_Int64 *)adr = (UA_Int64)strtoll(value, NULL, 10);
 }
 
 static void setUInt64(uintptr_t adr, const char *value)
 {
-    *(UA_UInt64 *)adr = (UA_UInt64)atoi(value);
+    *(UA_UInt64 *)adr = (UA_UInt64)strtoull(value, NULL, 10);
 }
 
 static void setFloat(uintptr_t adr, const char *value)
-- 
2.43.0


From c97cf8939b988162e4889a32143bad5069c74cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 27/35] fix: accept underscores in the symbol of an enum value

---
 backends/open62541/src/Value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 5802130..78e71fa 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -280,7 +280,7 @@ static UA_StatusCode setArray(const NL_Data *value, const UA_DataType *type,
 static const char *getEnumValuePos(const char *string)
 {
     // Enum value is either on <symbol>_<value> or <value> format
-    const char *enumSepPos = string ? strchr(string, '_') : NULL;
+    const char *enumSepPos = string ? strrchr(string, '_') : NULL;
     if (enumSepPos)
     {
         return ++enumSepPos;
-- 
2.43.0


From 8c209f80a66ee10bb2d1074de4acad9f9e68492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 28/35] fix: keep the custom data types of a server valid

Types shared the ids of the nodes they were created from, which are released
after the load, and were written behind the end of an array provided by the host
or after 1000 types. Every load prepends an array of its own with copies, which is
only handed over if all of it is complete. Types which contain themselves, members
of an unknown type, subtypes of abstract types and too many members were not
handled.
---
 backends/open62541/src/DataTypeImporter.c | 314 ++++++++++++++--------
 backends/open62541/src/DataTypeImporter.h |   9 +-
 backends/open62541/src/customDataType.c   |  41 +--
 backends/open62541/src/customDataType.h   |   2 +
 backends/open62541/src/import.c           |  19 +-
 5 files changed, 256 insertions(+), 129 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 1bb10c0..3d4806b 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -17,13 +17,18 @@
 
 struct DataTypeImporter
 {
+    UA_Server *server;
+    // The types of this load. Pointers to types have to stay valid, so that
+    // there is enough memory for all of the types from the beginning. The array
+    // belongs to the server as soon as all of the types are complete.
     UA_DataTypeArray *types;
     const NL_DataTypeNode **nodes;
     size_t nodesSize;
-    size_t firstNewDataType;
+    size_t maxNodesSize;
+    bool outOfMemory;
 };
 
-static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
+static const UA_NodeId *getBinaryEncodingId(const NL_DataTypeNode *node)
 {
     UA_NodeId encodingRefType = UA_NODEID_NUMERIC(0, 38);
     NL_Reference *ref = node->nonHierachicalRefs;
@@ -31,12 +36,11 @@ static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
     {
         if (UA_NodeId_equal(&encodingRefType, &ref->refType))
         {
-            UA_NodeId id = ref->target;
-            return id;
+            return &ref->target;
         }
         ref = ref->next;
     }
-    return UA_NODEID_NULL;
+    return &UA_NODEID_NULL;
 }
 
 static const UA_DataType *getDataType(const UA_NodeId *id,
@@ -382,16 +386,57 @@ static void setPaddingMemsize(UA_DataType *type,
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
 {
+    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     NL_Reference *ref = node->hierachicalRefs;
     while (ref)
     {
-        if (!ref->isForward)
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtype))
             return ref->target;
         ref = ref->next;
     }
     return UA_NODEID_NULL;
 }
 
+// the caller has to free the copy
+static char *copyName(DataTypeImporter *importer, const char *name)
+{
+    size_t len = name ? strlen(name) : 0;
+    char *copy = (char *)UA_calloc(len + 1, sizeof(char));
+    if (!copy)
+    {
+        importer->outOfMemory = true;
+        return NULL;
+    }
+    if (len > 0)
+    {
+        memcpy(copy, name, len);
+    }
+    return copy;
+}
+
+static void copyId(DataTypeImporter *importer, const UA_NodeId *id,
+                   UA_NodeId *copy)
+{
+    if (UA_NodeId_copy(id, copy) != UA_STATUSCODE_GOOD)
+    {
+        importer->outOfMemory = true;
+    }
+}
+
+// there is no way to describe the members
+static void removeMembers(UA_DataType *type)
+{
+    for (UA_DataTypeMember *m = type->members;
+         m != type->members + type->membersSize; m++)
+    {
+        UA_free((void *)(uintptr_t)m->memberName);
+    }
+    free(type->members);
+    type->members = NULL;
+    type->membersSize = 0;
+    type->memSize = sizeof(void *);
+}
+
 static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
                                         UA_DataType *type,
                                         const NL_DataTypeNode *node)
@@ -408,33 +453,44 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
         // done
         // First need to check if parentType exists at all. NodesetCompiler in
         // open62541 would not generate a type if it had no members.
-        if (parentType && parentType->members)
+        if (parentType && parentType->members && parentType->membersSize > 0)
         {
+            const size_t membersSize =
+                (size_t)(parentType->membersSize + type->membersSize);
+            if (membersSize > UA_BYTE_MAX)
+            {
+                removeMembers(type);
+                return;
+            }
             UA_DataTypeMember *members = (UA_DataTypeMember *)calloc(
-                (size_t)(parentType->membersSize + type->membersSize),
-                sizeof(UA_DataTypeMember));
+                membersSize, sizeof(UA_DataTypeMember));
+            if (!members)
+            {
+                importer->outOfMemory = true;
+                return;
+            }
             memcpy(members, parentType->members,
                    parentType->membersSize * sizeof(UA_DataTypeMember));
 
-            size_t cnt = 0;
             for (UA_DataTypeMember *m = members;
                  m != members + parentType->membersSize; m++)
             {
-                char *memberNameCopy =
-                    (char *)UA_calloc(strlen(m->memberName) + 1, sizeof(char));
-                memcpy(memberNameCopy, m->memberName, strlen(m->memberName));
-                members[cnt].memberName = memberNameCopy;
-                cnt++;
+                m->memberName = copyName(importer, m->memberName);
             }
 
-            memcpy(members + parentType->membersSize, type->members,
-                   type->membersSize * sizeof(UA_DataTypeMember));
-            free(type->members);
+            if (type->members)
+            {
+                memcpy(members + parentType->membersSize, type->members,
+                       type->membersSize * sizeof(UA_DataTypeMember));
+                free(type->members);
+            }
             type->members = members;
-            type->membersSize =
-                (uint8_t)(parentType->membersSize + type->membersSize);
-            type->memSize = parentType->memSize;
+            type->membersSize = (uint8_t)membersSize;
             memberOffset = parentType->membersSize;
+            if (parentType->typeKind == UA_DATATYPEKIND_OPTSTRUCT)
+            {
+                type->typeKind = UA_DATATYPEKIND_OPTSTRUCT;
+            }
         }
     }
 
@@ -445,15 +501,22 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
         UA_NodeId memberTypeId = node->definition->fields[i].dataType;
         member->memberType =
             getDataType(&memberTypeId, importer->types, importer);
+        // there is no information on the type
+        if (!member->memberType)
+        {
+            member->memberType = &UA_TYPES[UA_TYPES_VARIANT];
+        }
         i++;
     }
 }
 
-static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
-                               UA_DataType *type, const NL_DataTypeNode *node)
+static void addDataTypeMembers(DataTypeImporter *importer, UA_DataType *type,
+                               const NL_DataTypeNode *node)
 {
 
-    if (!node->definition)
+    // the number of members is limited
+    if (!node->definition || node->definition->fieldCnt == 0 ||
+        node->definition->fieldCnt > UA_BYTE_MAX)
     {
         type->membersSize = 0;
         type->members = NULL;
@@ -461,22 +524,21 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
         return;
     }
 
-    type->membersSize = (unsigned char)node->definition->fieldCnt;
     type->members = (UA_DataTypeMember *)calloc(node->definition->fieldCnt,
                                                 sizeof(UA_DataTypeMember));
+    if (!type->members)
+    {
+        importer->outOfMemory = true;
+        return;
+    }
+    type->membersSize = (unsigned char)node->definition->fieldCnt;
 
     for (size_t i = 0; i < node->definition->fieldCnt; i++)
     {
         UA_DataTypeMember *member = type->members + i;
         member->isArray = node->definition->fields[i].valueRank >= 0;
-        UA_NodeId typeId = node->definition->fields[i].dataType;
-        member->memberType = getDataType(&typeId, customTypes, NULL);
-
-        char *memberNameCopy = (char *)UA_calloc(
-            strlen(node->definition->fields[i].name) + 1, sizeof(char));
-        memcpy(memberNameCopy, node->definition->fields[i].name,
-               strlen(node->definition->fields[i].name));
-        member->memberName = memberNameCopy;
+        member->memberName =
+            copyName(importer, node->definition->fields[i].name);
         member->isOptional = node->definition->fields[i].isOptional;
         if (member->isOptional)
         {
@@ -486,7 +548,7 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
     }
 }
 
-static void StructureDataType_init(const DataTypeImporter *importer,
+static void StructureDataType_init(DataTypeImporter *importer,
                                    UA_DataType *type,
                                    const NL_DataTypeNode *node,
                                    bool isOptionSet)
@@ -499,12 +561,11 @@ static void StructureDataType_init(const DataTypeImporter *importer,
     {
         type->typeKind = UA_DATATYPEKIND_STRUCTURE;
     }
-    type->typeId = node->id;
-    type->binaryEncodingId = getBinaryEncodingId(node);
+    copyId(importer, getBinaryEncodingId(node), &type->binaryEncodingId);
     type->pointerFree = true;
     if (!isOptionSet)
     {
-        addDataTypeMembers(importer->types, type, node);
+        addDataTypeMembers(importer, type, node);
     }
     type->overlayable = false;
 }
@@ -513,7 +574,6 @@ static void EnumDataType_init(const DataTypeImporter *importer,
                               UA_DataType *enumType,
                               const NL_DataTypeNode *node)
 {
-    enumType->typeId = node->id;
     enumType->typeKind = UA_DATATYPEKIND_ENUM;
     enumType->binaryEncodingId = UA_NODEID_NULL;
     enumType->pointerFree = true;
@@ -523,16 +583,18 @@ static void EnumDataType_init(const DataTypeImporter *importer,
     enumType->memSize = sizeof(UA_Int32);
 }
 
-static void SubtypeOfBase_init(const DataTypeImporter *importer,
+static void SubtypeOfBase_init(DataTypeImporter *importer,
                                UA_DataType *type, const NL_DataTypeNode *node,
                                const UA_NodeId parent)
 {
     const UA_DataType *parentType = UA_findDataType(&parent);
+    // there is no type for abstract data types like Number
+    if (!parentType)
+    {
+        parentType = &UA_TYPES[UA_TYPES_VARIANT];
+    }
 
-    assert(parentType);
-
-    type->typeId = node->id;
-    type->binaryEncodingId = parentType->binaryEncodingId;
+    copyId(importer, &parentType->binaryEncodingId, &type->binaryEncodingId);
     type->members = NULL;
     type->membersSize = 0;
     type->memSize = parentType->memSize;
@@ -541,101 +603,139 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
     type->typeKind = parentType->typeKind;
 }
 
-static bool readyForMemsizeCalc(const UA_DataType *type,
-                                const UA_DataType *customTypes)
+static bool hasMembers(const UA_DataType *type)
 {
-    if (type->typeKind != UA_DATATYPEKIND_STRUCTURE &&
-        type->typeKind != UA_DATATYPEKIND_OPTSTRUCT)
-    {
-        return true;
-    }
-    if (type->membersSize == 0)
+    return type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
+           type->typeKind == UA_DATATYPEKIND_OPTSTRUCT ||
+           type->typeKind == UA_DATATYPEKIND_UNION;
+}
+
+static bool readyForMemsizeCalc(const DataTypeImporter *importer,
+                                const UA_DataType *type, const bool *finished)
+{
+    if (!hasMembers(type))
     {
         return true;
     }
-    bool ready = true;
     for (UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
     {
-        if (m->memberType && m->memberType->memSize > 0)
+        // only a pointer is needed for these
+        if (m->isArray || m->isOptional)
         {
             continue;
         }
-        ready = false;
-        break;
+        const UA_DataType *types = importer->types->types;
+        if (m->memberType >= types &&
+            m->memberType < types + importer->types->typesSize &&
+            !finished[m->memberType - types])
+        {
+            return false;
+        }
     }
-    return ready;
+    return true;
 }
 
 static void calcMemSize(DataTypeImporter *importer)
 {
+    bool *finished =
+        (bool *)calloc(importer->types->typesSize + 1, sizeof(bool));
+    if (!finished)
+    {
+        importer->outOfMemory = true;
+        return;
+    }
+    UA_DataType *types = (UA_DataType *)(uintptr_t)importer->types->types;
     bool allTypesFinished = false;
     // datatype nodes could be sorted upfront to detect cyclic dependencies
     while (!allTypesFinished)
     {
-        allTypesFinished = true;
-        for (UA_DataType *type =
-                 (UA_DataType *)(uintptr_t)importer->types->types +
-                 importer->firstNewDataType;
-             type != importer->types->types + importer->types->typesSize;
-             type++)
+        UA_DataType *firstUnfinished = NULL;
+        bool progress = false;
+        for (size_t i = 0; i < importer->types->typesSize; i++)
         {
             // we can calculate the memsize if the memsize of all membertypes is
             // known
-            if (readyForMemsizeCalc(type, importer->types->types))
+            if (finished[i])
             {
-                setPaddingMemsize(type, importer->types);
+                continue;
             }
-            else
+            if (readyForMemsizeCalc(importer, &types[i], finished))
             {
-                allTypesFinished = false;
+                setPaddingMemsize(&types[i], importer->types);
+                finished[i] = true;
+                progress = true;
             }
+            else if (!firstUnfinished)
+            {
+                firstUnfinished = &types[i];
+            }
+        }
+        allTypesFinished = !firstUnfinished;
+        // the type contains itself
+        if (firstUnfinished && !progress)
+        {
+            removeMembers(firstUnfinished);
         }
     }
+    free(finished);
 }
 
-void DataTypeImporter_initMembers(DataTypeImporter *importer)
+bool DataTypeImporter_initMembers(DataTypeImporter *importer)
 {
 
     size_t cnt = 0;
-    for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types +
-                             importer->firstNewDataType;
+    for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types;
          type != importer->types->types + importer->types->typesSize; type++)
     {
-        if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
-            type->typeKind == UA_DATATYPEKIND_OPTSTRUCT ||
-            type->typeKind == UA_DATATYPEKIND_UNION)
+        if (hasMembers(type))
         {
             setDataTypeMembersTypeIndex(importer, type, importer->nodes[cnt]);
         }
         cnt++;
     }
-    calcMemSize(importer);
+    if (!importer->outOfMemory)
+    {
+        calcMemSize(importer);
+    }
+    if (importer->outOfMemory)
+    {
+        return false;
+    }
+    if (importer->types->typesSize > 0)
+    {
+        // the types belong to the server from now on
+        UA_Server_getConfig(importer->server)->customDataTypes = importer->types;
+        importer->types = NULL;
+    }
+    return true;
 }
 
 void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
                                         const NL_DataTypeNode *node,
                                         const UA_NodeId parent)
 {
+    // the type was added by a former load
+    if (findCustomDataType(&node->id, importer->types))
+    {
+        return;
+    }
     // there is an open issue for that
     // the user of the library should provide the memory for the custom
     // dataTypes, then it is clear that he has to clean it up
-    if (!importer->types->types)
-    {
-        importer->types->types =
-            (UA_DataType *)calloc(1000, sizeof(UA_DataType));
-    }
-    assert(importer->types->typesSize < 1000);
+    assert(importer->nodesSize < importer->maxNodesSize);
 
     UA_DataType *type = (UA_DataType *)(uintptr_t)&importer->types
                             ->types[importer->types->typesSize];
     memset(type, 0, sizeof(UA_DataType));
-    type->typeId = node->id;
+    importer->nodes[importer->nodesSize] = node;
+    importer->nodesSize++;
+    (*(size_t *)(uintptr_t)&importer->types->typesSize)++;
+
+    copyId(importer, &node->id, &type->typeId);
     if (node->browseName.name)
     {
-        size_t len = strlen(node->browseName.name);
-        type->typeName = (char *)calloc(len + 1, sizeof(char));
-        memcpy((void *)(uintptr_t)type->typeName, node->browseName.name, len);
+        type->typeName = copyName(importer, node->browseName.name);
     }
 
     UA_NodeId enumeration = UA_NODEID_NUMERIC(0, UA_NS0ID_ENUMERATION);
@@ -659,13 +759,6 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     {
         SubtypeOfBase_init(importer, type, node, parent);
     }
-
-    importer->nodes = (const NL_DataTypeNode **)realloc(
-        (void *)importer->nodes, (importer->nodesSize + 1) * sizeof(void *));
-    importer->nodes[importer->nodesSize] = node;
-    importer->nodesSize++;
-
-    (*(size_t *)(uintptr_t)&importer->types->typesSize)++;
 }
 
 const NL_DataTypeNode *DataTypeImporter_getNode(const DataTypeImporter *importer,
@@ -681,7 +774,8 @@ const NL_DataTypeNode *DataTypeImporter_getNode(const DataTypeImporter *importer
     return NULL;
 }
 
-DataTypeImporter *DataTypeImporter_new(struct UA_Server *server)
+DataTypeImporter *DataTypeImporter_new(struct UA_Server *server,
+                                       size_t maxNodesSize)
 {
     DataTypeImporter *importer =
         (DataTypeImporter *)calloc(1, sizeof(DataTypeImporter));
@@ -689,30 +783,36 @@ DataTypeImporter *DataTypeImporter_new(struct UA_Server *server)
     {
         return NULL;
     }
-
-    UA_ServerConfig *config = UA_Server_getConfig(server);
-    if (!config->customDataTypes)
+    importer->server = server;
+    importer->maxNodesSize = maxNodesSize;
+    importer->nodes = (const NL_DataTypeNode **)calloc(
+        maxNodesSize + 1, sizeof(NL_DataTypeNode *));
+    // we prepend an array with all types of the nodeset
+    importer->types =
+        (UA_DataTypeArray *)UA_calloc(1, sizeof(UA_DataTypeArray));
+    if (importer->types)
     {
-        // we append all types to customTypes array
-        UA_DataTypeArray *newCustomTypes =
-            (UA_DataTypeArray *)UA_calloc(1, sizeof(UA_DataTypeArray));
-        if (!newCustomTypes)
-        {
-            return importer;
-        }
+        importer->types->types =
+            (UA_DataType *)UA_calloc(maxNodesSize + 1, sizeof(UA_DataType));
+    }
+    if (!importer->nodes || !importer->types || !importer->types->types)
+    {
+        DataTypeImporter_delete(importer);
+        return NULL;
+    }
 #ifndef USE_CLEANUP_CUSTOM_DATATYPES
-        newCustomTypes->cleanup = UA_TRUE;
+    importer->types->cleanup = UA_TRUE;
 #endif
-        newCustomTypes->next = config->customDataTypes;
-        config->customDataTypes = newCustomTypes;
-    }
-    importer->types = (UA_DataTypeArray *)(uintptr_t)config->customDataTypes;
-    importer->firstNewDataType = importer->types->typesSize;
+    importer->types->next = UA_Server_getConfig(server)->customDataTypes;
     return importer;
 }
 
 void DataTypeImporter_delete(DataTypeImporter *importer)
 {
+    if (importer->types)
+    {
+        deleteCustomDataTypes(importer->types);
+    }
     free((void *)importer->nodes);
     free(importer);
 }
diff --git a/backends/open62541/src/DataTypeImporter.h b/backends/open62541/src/DataTypeImporter.h
index ee71c5a..dfbe2c5 100644
--- a/backends/open62541/src/DataTypeImporter.h
+++ b/backends/open62541/src/DataTypeImporter.h
@@ -15,14 +15,17 @@
 struct DataTypeImporter;
 typedef struct DataTypeImporter DataTypeImporter;
 
-DataTypeImporter *DataTypeImporter_new(struct UA_Server *server);
+// maxNodesSize is the number of nodes which can be added
+DataTypeImporter *DataTypeImporter_new(struct UA_Server *server,
+                                       size_t maxNodesSize);
 void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
                                         const NL_DataTypeNode *node, const UA_NodeId parentId);
 // get a node which was added to the importer, NULL if there is none
 const NL_DataTypeNode *DataTypeImporter_getNode(const DataTypeImporter *importer,
                                                 const UA_NodeId *id);
-// has to be called after all dependent types where added
-void DataTypeImporter_initMembers(DataTypeImporter *importer);
+// has to be called after all dependent types where added, false is returned and
+// the server is not changed if there was not enough memory for the types
+bool DataTypeImporter_initMembers(DataTypeImporter *importer);
 void DataTypeImporter_delete(DataTypeImporter *importer);
 
 #endif
diff --git a/backends/open62541/src/customDataType.c b/backends/open62541/src/customDataType.c
index f499d98..b83119e 100644
--- a/backends/open62541/src/customDataType.c
+++ b/backends/open62541/src/customDataType.c
@@ -32,29 +32,36 @@ const struct UA_DataType *findCustomDataType(const UA_NodeId *typeId,
     return NULL;
 }
 
-#ifdef USE_CLEANUP_CUSTOM_DATATYPES
-static void cleanupCustomTypes(const UA_DataTypeArray *types)
+void deleteCustomDataTypes(const UA_DataTypeArray *types)
 {
-    while (types)
+    if (types->types)
     {
-        const UA_DataTypeArray *next = types->next;
-        if (types->types)
+        for (const UA_DataType *type = types->types;
+             type != types->types + types->typesSize; type++)
         {
-            for (const UA_DataType *type = types->types;
-                 type != types->types + types->typesSize; type++)
+            free((void*)(uintptr_t)type->typeName);
+            UA_NodeId_clear((UA_NodeId *)(uintptr_t)&type->typeId);
+            UA_NodeId_clear((UA_NodeId *)(uintptr_t)&type->binaryEncodingId);
+            for (UA_DataTypeMember *m = type->members;
+                 m != type->members + type->membersSize; m++)
             {
-                free((void*)(uintptr_t)type->typeName);
-                for (UA_DataTypeMember *m = type->members;
-                     m != type->members + type->membersSize; m++)
-                {
-                    free((void*)(uintptr_t)m->memberName);
-                    m->memberName = NULL;
-                }
-                free((void*)type->members);
+                free((void*)(uintptr_t)m->memberName);
+                m->memberName = NULL;
             }
+            free((void*)type->members);
         }
-        free((void*)(uintptr_t)types->types);
-        free((void*)(uintptr_t)types);
+    }
+    free((void*)(uintptr_t)types->types);
+    free((void*)(uintptr_t)types);
+}
+
+#ifdef USE_CLEANUP_CUSTOM_DATATYPES
+static void cleanupCustomTypes(const UA_DataTypeArray *types)
+{
+    while (types)
+    {
+        const UA_DataTypeArray *next = types->next;
+        deleteCustomDataTypes(types);
         types = next;
     }
 }
diff --git a/backends/open62541/src/customDataType.h b/backends/open62541/src/customDataType.h
index 2823cd2..cf4eb36 100644
--- a/backends/open62541/src/customDataType.h
+++ b/backends/open62541/src/customDataType.h
@@ -2,5 +2,7 @@
 #define CUSTOMDATATYPE_H
 const struct UA_DataType *findCustomDataType(const UA_NodeId *typeId,
                                        const UA_DataTypeArray *types);
+// Delete a single array with all of its types, the following ones are not touched.
+void deleteCustomDataTypes(const UA_DataTypeArray *types);
 
 #endif
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 15aa6c7..49a8368 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -611,13 +611,25 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
     UA_NodeId_clear(&parent);
 }
 
+// used to count nodes
+static void ignoreNode(void *context, NL_Node *node)
+{
+}
+
 static void importDataTypes(NodesetLoader *loader, ServerContext *serverContext)
 {
     UA_Server *server = ServerContext_getServerObject(serverContext);
     // add datatypes
     const NL_BiDirectionalReference *hasEncodingRef =
         NodesetLoader_getBidirectionalRefs(loader);
-    DataTypeImporter *importer = DataTypeImporter_new(server);
+    const size_t cnt =
+        NodesetLoader_forEachNode(loader, NODECLASS_DATATYPE, NULL, ignoreNode);
+    DataTypeImporter *importer = DataTypeImporter_new(server, cnt);
+    if (!importer)
+    {
+        ServerContext_setOutOfMemory(serverContext);
+        return;
+    }
     struct DataTypeImportCtx ctx;
     ctx.hasEncodingRef = hasEncodingRef;
     ctx.server = server;
@@ -626,7 +638,10 @@ static void importDataTypes(NodesetLoader *loader, ServerContext *serverContext)
     NodesetLoader_forEachNode(loader, NODECLASS_DATATYPE, &ctx,
                               (NodesetLoader_forEachNode_Func)addDataType);
 
-    DataTypeImporter_initMembers(importer);
+    if (!DataTypeImporter_initMembers(importer))
+    {
+        ServerContext_setOutOfMemory(serverContext);
+    }
     DataTypeImporter_delete(importer);
 }
 
-- 
2.43.0


From 5270a5d28eb3df1e2b30288cb37d4b0bd8db8996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 29/35] fix: lay out custom structures and unions like the
 compiler does

Fields of unions overlapped the switch field or were misaligned, the padding
at the end of structures and the alignment of unions, empty structures, arrays and
optional members were wrong.
---
 backends/open62541/src/DataTypeImporter.c | 196 +++++++++++-----------
 1 file changed, 100 insertions(+), 96 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 3d4806b..6af363a 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -196,6 +196,20 @@ typedef struct
     UA_Guid member;
 } TempGuid;
 
+typedef struct
+{
+    char c;
+    size_t member;
+} TempSizeT;
+typedef struct
+{
+    char c;
+    void *member;
+} TempVoidPtr;
+
+static int getMembersAlignment(const UA_DataType *type,
+                               const UA_DataTypeArray *customTypes);
+
 static int getAlignment(const UA_DataType *type,
                         const UA_DataTypeArray *customTypes)
 {
@@ -249,55 +263,88 @@ static int getAlignment(const UA_DataType *type,
         return offsetof(TempInt32, member);
     case UA_DATATYPEKIND_EXTENSIONOBJECT:
         return offsetof(TempExtensionObject, member);
-    case UA_DATATYPEKIND_UNION:
-        return 0;
     case UA_DATATYPEKIND_GUID:
         return offsetof(TempGuid, member);
     case UA_DATATYPEKIND_STRUCTURE:
     case UA_DATATYPEKIND_OPTSTRUCT:
-        // here we have to take a look on the first member
-        assert(type->members);
-        int retAlignment = 0;
-        for (UA_UInt32 i = 0; i < type->membersSize; i++)
-        {
-            const UA_DataType *memberType = type->members[i].memberType;
-            int tmp = getAlignment(memberType, customTypes);
-            if (tmp > retAlignment)
-            {
-                retAlignment = tmp;
-            }
-        }
-        return retAlignment;
+    case UA_DATATYPEKIND_UNION:
+    {
+        // the biggest alignment of all members and the switch field of an union
+        int retAlignment = type->typeKind == UA_DATATYPEKIND_UNION
+                               ? (int)offsetof(TempUInt32, member)
+                               : 1;
+        int tmp = getMembersAlignment(type, customTypes);
+        return tmp > retAlignment ? tmp : retAlignment;
     }
+    default:
+        // DataValue and the like
+        return offsetof(TempVoidPtr, member);
+    }
+}
 
-    assert(false && "typeKind not handled");
-    return 0;
+static int getMemberAlignment(const UA_DataTypeMember *member,
+                              const UA_DataTypeArray *customTypes)
+{
+    if (member->isArray)
+    {
+        return offsetof(TempSizeT, member);
+    }
+    if (member->isOptional)
+    {
+        return offsetof(TempVoidPtr, member);
+    }
+    return getAlignment(member->memberType, customTypes);
 }
 
-typedef struct
+static int getMembersAlignment(const UA_DataType *type,
+                               const UA_DataTypeArray *customTypes)
 {
-    char c;
-    size_t member;
-} TempSizeT;
-typedef struct
+    int alignment = 1;
+    for (UA_UInt32 i = 0; i < type->membersSize; i++)
+    {
+        int tmp = getMemberAlignment(&type->members[i], customTypes);
+        if (tmp > alignment)
+        {
+            alignment = tmp;
+        }
+    }
+    return alignment;
+}
+
+// there is no way to describe the members
+static void removeMembers(UA_DataType *type)
 {
-    char c;
-    void *member;
-} TempVoidPtr;
+    for (UA_DataTypeMember *m = type->members;
+         m != type->members + type->membersSize; m++)
+    {
+        UA_free((void *)(uintptr_t)m->memberName);
+    }
+    free(type->members);
+    type->members = NULL;
+    type->membersSize = 0;
+    type->memSize = sizeof(void *);
+}
 
+// The layout is the one of the corresponding type in C
 static void setPaddingMemsize(UA_DataType *type,
                               const UA_DataTypeArray *customTypes)
 {
     if (!type->members)
     {
+        if (type->memSize == 0)
+        {
+            type->memSize = sizeof(void *);
+        }
         return;
     }
     int offset = 0;
-    int endPadding = 0;
+    int memSize = 0;
 
-    UA_UInt16 biggestMemberSize = 0;
-
-    UA_Boolean hasArrayMember = false;
+    // the members of an union share the memory behind the switch field
+    const UA_Boolean isUnion = type->typeKind == UA_DATATYPEKIND_UNION;
+    const int fieldsPadding =
+        (int)sizeof(UA_UInt32) + getPadding(getMembersAlignment(type, customTypes),
+                                            (int)sizeof(UA_UInt32));
 
     for (UA_DataTypeMember *tm = type->members;
          tm < type->members + type->membersSize; tm++)
@@ -305,83 +352,54 @@ static void setPaddingMemsize(UA_DataType *type,
         const UA_DataType *memberType = tm->memberType;
         type->pointerFree = type->pointerFree && memberType->pointerFree;
 
+        if (isUnion)
+        {
+            offset = 0;
+            tm->padding = (UA_Byte)(0x3F & fieldsPadding);
+        }
+        else
+        {
+            tm->padding = (UA_Byte)(
+                0x3F & getPadding(getMemberAlignment(tm, customTypes), offset));
+        }
+        offset = offset + tm->padding;
+
         if (tm->isArray)
         {
             // for arrays we have to take the size_t for the arraySize into
             // account if the open changes the implementation of array
             // serialization, we have a serious problem
             // we rely here that its an size_t
-            int align = offsetof(TempSizeT, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(size_t);
+            offset = offset + (UA_Byte)sizeof(size_t);
             // the void* for data
-            align = offsetof(TempVoidPtr, member);
+            int align = offsetof(TempVoidPtr, member);
             int padding2 = getPadding(align, offset);
             offset = offset + padding2 + (UA_Byte)sizeof(void *);
             // datatype is not pointerfree
             type->pointerFree = false;
-
-            if (sizeof(void *) > biggestMemberSize)
-            {
-                biggestMemberSize = sizeof(void *);
-            }
-
-            hasArrayMember = true;
         }
         else if (tm->isOptional)
         {
-            int align = offsetof(TempVoidPtr, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(void *);
+            offset = offset + (UA_Byte)sizeof(void *);
             type->pointerFree = false;
-            if (sizeof(void *) > biggestMemberSize)
-            {
-                biggestMemberSize = sizeof(void *);
-            }
         }
         else
         {
-            // add the switchfield to the padding of the first datatype member
-            if (type->typeKind == UA_DATATYPEKIND_UNION)
-            {
-                tm->padding = (UA_Byte)sizeof(UA_UInt32);
-            }
-            else if (memberType->typeKind != UA_DATATYPEKIND_UNION)
-            {
-                int align = getAlignment(memberType, customTypes);
-                tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            }
-
-            offset = offset + tm->padding + memberType->memSize;
-            // padding after struct at end is needed
-            if (memberType->memSize > sizeof(size_t))
-            {
-                endPadding = memberType->memSize % sizeof(size_t);
-            }
-            if (memberType->memSize > biggestMemberSize)
-            {
-                biggestMemberSize = memberType->memSize;
-            }
+            offset = offset + memberType->memSize;
         }
-    }
-    if (type->typeKind == UA_DATATYPEKIND_UNION)
-    {
-        // add the switch field
-        type->memSize = sizeof(UA_Int32);
-        int padding = getPadding(offsetof(TempUInt32, member), 0);
-        type->memSize = (UA_UInt16)(type->memSize + padding);
-        type->memSize = (UA_UInt16)(type->memSize + biggestMemberSize);
-        if (hasArrayMember)
+        if (offset > memSize)
         {
-            type->memSize = (UA_UInt16)(type->memSize + sizeof(size_t));
+            memSize = offset;
         }
-        endPadding = getPadding(offsetof(TempSizeT, member), type->memSize);
-        type->memSize = (UA_UInt16)(type->memSize + endPadding);
     }
-    else
+    // padding at the end is needed
+    memSize = memSize + getPadding(getAlignment(type, customTypes), memSize);
+    if (memSize > UA_UINT16_MAX)
     {
-        type->memSize = (UA_UInt16)(offset + endPadding);
+        removeMembers(type);
+        return;
     }
+    type->memSize = (UA_UInt16)memSize;
 }
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
@@ -423,20 +441,6 @@ static void copyId(DataTypeImporter *importer, const UA_NodeId *id,
     }
 }
 
-// there is no way to describe the members
-static void removeMembers(UA_DataType *type)
-{
-    for (UA_DataTypeMember *m = type->members;
-         m != type->members + type->membersSize; m++)
-    {
-        UA_free((void *)(uintptr_t)m->memberName);
-    }
-    free(type->members);
-    type->members = NULL;
-    type->membersSize = 0;
-    type->memSize = sizeof(void *);
-}
-
 static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
                                         UA_DataType *type,
                                         const NL_DataTypeNode *node)
-- 
2.43.0


From f10de0983ed764ebc100518c675a79622a7e4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 30/35] fix: classify reference types by their super type only

Any inverse hierachical reference to a hierachical reference type, such as
HasComponent, made a reference type hierachical.
---
 backends/open62541/src/RefServiceImpl.c | 4 +++-
 src/InternalRefService.c                | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index 56c8d64..24e5989 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -150,8 +150,10 @@ static void addnewRefType(RefServiceImpl *service, NL_ReferenceTypeNode *node)
 {
     NL_Reference *ref = node->hierachicalRefs;
     bool isHierachical = false;
+    // only the super type counts, not e.g. a component of a hierachical type
+    UA_NodeId hasSubtypeId = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     while (ref) {
-        if (!ref->isForward) {
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtypeId)) {
             if (isIdInContainer(&service->hierachicalRefs, &ref->target)) {
                 addToRefs(service, &service->hierachicalRefs, node->id);
                 isHierachical = true;
diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index 3cfb444..a90e5fb 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -222,8 +222,10 @@ static void
 addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
     NL_Reference *ref = node->hierachicalRefs;
     bool isHierachical = false;
+    // only the super type counts, not e.g. a component of a hierachical type
+    UA_NodeId hasSubtypeId = UA_NODEID_NUMERIC(0, 45);
     while (ref) {
-        if (!ref->isForward) {
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtypeId)) {
             for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
                 if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {
                     addHierachicalRef(service, node);
-- 
2.43.0


From 35bf471de9fb6ff7b5285d10b26b8706a0349d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:14 +0000
Subject: [PATCH 31/35] fix: report an encoding reference once and only for
 nodes which were read completely

Nodeset_newReferenceFinish registered the bidirectional HasEncoding reference
while its node was still being read. The reference was reported although the
import failed within the node and the node is never delivered, and it was
reported again when the node was read a second time and dropped as a duplicate.
---
 src/Nodeset.c | 108 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 64 insertions(+), 44 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 042949a..e52f660 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -361,6 +361,19 @@ bool Nodeset_sort(Nodeset *nodeset)
     return sorted && !nodeset->outOfMemory;
 }
 
+static void deleteBiDirectionalRefs(NL_BiDirectionalReference *ref)
+{
+    while (ref)
+    {
+        NL_BiDirectionalReference *tmp = ref->next;
+        UA_NodeId_clear(&ref->source);
+        UA_NodeId_clear(&ref->target);
+        UA_NodeId_clear(&ref->refType);
+        free(ref);
+        ref = tmp;
+    }
+}
+
 void Nodeset_cleanup(Nodeset *nodeset)
 {
     CharArenaAllocator_delete(nodeset->charArena);
@@ -374,16 +387,7 @@ void Nodeset_cleanup(Nodeset *nodeset)
     NodeContainer_delete(nodeset->pendingRefTypes);
     NamespaceList_delete(nodeset->namespaces);
     Sort_cleanup(nodeset->sortCtx);
-    NL_BiDirectionalReference *ref = nodeset->hasEncodingRefs;
-    while (ref)
-    {
-        NL_BiDirectionalReference *tmp = ref->next;
-        UA_NodeId_clear(&ref->source);
-        UA_NodeId_clear(&ref->target);
-        UA_NodeId_clear(&ref->refType);
-        free(ref);
-        ref = tmp;
-    }
+    deleteBiDirectionalRefs(nodeset->hasEncodingRefs);
     free(nodeset);
 }
 
@@ -658,11 +662,51 @@ static bool addToLists(Nodeset *nodeset, NL_Node *node)
     return true;
 }
 
+// handle hasEncoding in a special way
+static bool getEncodingRefs(const NL_Node *node, const NL_Reference *ref,
+                            NL_BiDirectionalReference **encodingRefs)
+{
+    UA_NodeId hasEncodingRef = UA_NODEID_NUMERIC(0, 38);
+    for (; ref; ref = ref->next)
+    {
+        if (ref->isForward || !UA_NodeId_equal(&ref->refType, &hasEncodingRef))
+        {
+            continue;
+        }
+        NL_BiDirectionalReference *newRef = (NL_BiDirectionalReference *)calloc(
+            1, sizeof(NL_BiDirectionalReference));
+        if (!newRef)
+        {
+            return false;
+        }
+        newRef->next = *encodingRefs;
+        *encodingRefs = newRef;
+        UA_StatusCode res = UA_NodeId_copy(&ref->target, &newRef->source);
+        res |= UA_NodeId_copy(&node->id, &newRef->target);
+        res |= UA_NodeId_copy(&ref->refType, &newRef->refType);
+        if (res != UA_STATUSCODE_GOOD)
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
 void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
 {
-    if (!addToLists(nodeset, node))
+    // only of nodes which are delivered, not of the one an import failed in
+    NL_BiDirectionalReference *encodingRefs = NULL;
+    bool hasEncodingRefs = true;
+    if (node->browseName.name && !strcmp(node->browseName.name, "Default Binary"))
+    {
+        hasEncodingRefs =
+            getEncodingRefs(node, node->hierachicalRefs, &encodingRefs) &&
+            getEncodingRefs(node, node->nonHierachicalRefs, &encodingRefs) &&
+            getEncodingRefs(node, node->unknownRefs, &encodingRefs);
+    }
+    if (!hasEncodingRefs || !addToLists(nodeset, node))
     {
-        if (!Sort_hasNode(nodeset->sortCtx, &node->id))
+        if (!hasEncodingRefs || !Sort_hasNode(nodeset->sortCtx, &node->id))
         {
             nodeset->outOfMemory = true;
         }
@@ -671,9 +715,17 @@ void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
             nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                         "node was not added to sorting algorithm, already exists");
         }
+        deleteBiDirectionalRefs(encodingRefs);
         Node_delete(node);
         return;
     }
+    while (encodingRefs)
+    {
+        NL_BiDirectionalReference *next = encodingRefs->next;
+        encodingRefs->next = nodeset->hasEncodingRefs;
+        nodeset->hasEncodingRefs = encodingRefs;
+        encodingRefs = next;
+    }
     if (node->nodeClass == NODECLASS_REFERENCETYPE &&
         isSuperTypeKnown(nodeset, node) && addReferenceType(nodeset, node))
     {
@@ -686,38 +738,6 @@ void Nodeset_newReferenceFinish(Nodeset *nodeset, NL_Reference *ref,
 {
     UA_NodeId_clear(&ref->target);
     ref->target = alias2Id(nodeset, targetId);
-
-    // handle hasEncoding in a special way
-    UA_NodeId hasEncodingRef = UA_NODEID("i=38");
-    if (!nodeset->outOfMemory &&
-        UA_NodeId_equal(&ref->refType, &hasEncodingRef) &&
-        node->browseName.name &&
-        !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)
-    {
-        NL_BiDirectionalReference *newRef = (NL_BiDirectionalReference *)calloc(
-            1, sizeof(NL_BiDirectionalReference));
-        if (!newRef)
-        {
-            nodeset->outOfMemory = true;
-            return;
-        }
-        UA_StatusCode res = UA_NodeId_copy(&ref->target, &newRef->source);
-        res |= UA_NodeId_copy(&node->id, &newRef->target);
-        res |= UA_NodeId_copy(&ref->refType, &newRef->refType);
-        if (res != UA_STATUSCODE_GOOD)
-        {
-            nodeset->outOfMemory = true;
-            UA_NodeId_clear(&newRef->source);
-            UA_NodeId_clear(&newRef->target);
-            UA_NodeId_clear(&newRef->refType);
-            free(newRef);
-            return;
-        }
-
-        NL_BiDirectionalReference *lastRef = nodeset->hasEncodingRefs;
-        nodeset->hasEncodingRefs = newRef;
-        newRef->next = lastRef;
-    }
 }
 
 void Nodeset_addDataTypeDefinition(Nodeset *nodeset, NL_Node *node,
-- 
2.43.0


From 7bad42fa85846134841fb4e8e909b806fd02dfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:41 +0000
Subject: [PATCH 32/35] fix: delete a deeply nested value without recursion

---
 src/Value.c | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/Value.c b/src/Value.c
index ca44c2a..e69dfa3 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -267,35 +267,27 @@ void Value_end(NL_Value *val, const char *name, const char *value)
     }
 }
 
-static void PrimitiveData_clear(NL_Data *data)
-{
-    // free(data);
-}
-
-static void ComplexData_clear(NL_Data *data)
-{
-    for (size_t cnt = 0; cnt < data->val.complexData.membersSize; cnt++)
-    {
-        Data_clear(data->val.complexData.members[cnt]);
-    }
-    free(data->val.complexData.members);
-}
-
+// without recursion, the nesting is as deep as in the nodeset
 static void Data_clear(NL_Data *data)
 {
-    if(!data)
+    NL_Data *const root = data;
+    while (data)
     {
-        return;
-    }
-    if (data->type == DATATYPE_PRIMITIVE)
-    {
-        PrimitiveData_clear(data);
-    }
-    else
-    {
-        ComplexData_clear(data);
+        if (data->type == DATATYPE_COMPLEX)
+        {
+            if (data->val.complexData.membersSize > 0)
+            {
+                data->val.complexData.membersSize--;
+                data = data->val.complexData
+                           .members[data->val.complexData.membersSize];
+                continue;
+            }
+            free(data->val.complexData.members);
+        }
+        NL_Data *parent = data == root ? NULL : data->parent;
+        free(data);
+        data = parent;
     }
-    free(data);
 }
 
 void Value_delete(NL_Value *val)
-- 
2.43.0


From cc43eceb29abc4f4754c18e566c557ac34194d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 33/35] fix: refuse values which are nested deeper than the
 server can encode

---
 backends/open62541/src/Value.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 78e71fa..d642ebf 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -119,6 +119,7 @@ struct RawData
 {
     void *mem;
     size_t offset;
+    size_t nesting;
 };
 typedef struct RawData RawData;
 
@@ -288,14 +289,25 @@ static const char *getEnumValuePos(const char *string)
     return string;
 }
 
+// the server does not encode or decode values which are nested deeper
+#define MAX_NESTING 100
+
 // Set the field of a structure or union. All of the memory is reachable from
 // the value at any time, so that it can be cleared if this fails.
 static UA_StatusCode setField(const NL_Data *value, const UA_DataTypeMember *m,
                               RawData *data, const ServerContext *serverContext)
 {
+    if (data->nesting >= MAX_NESTING)
+    {
+        return UA_STATUSCODE_BADDECODINGERROR;
+    }
     if (!m->isArray)
     {
-        return setScalar(value, m->memberType, data, serverContext);
+        data->nesting++;
+        UA_StatusCode status =
+            setScalar(value, m->memberType, data, serverContext);
+        data->nesting--;
+        return status;
     }
 
     size_t length = getMembersSize(value);
@@ -308,7 +320,8 @@ static UA_StatusCode setField(const NL_Data *value, const UA_DataTypeMember *m,
         *d = UA_EMPTY_ARRAY_SENTINEL;
         return UA_STATUSCODE_GOOD;
     }
-    RawData rawdata = {UA_calloc(length, m->memberType->memSize), 0};
+    RawData rawdata = {UA_calloc(length, m->memberType->memSize), 0,
+                       data->nesting + 1};
     if (!rawdata.mem)
     {
         return UA_STATUSCODE_BADOUTOFMEMORY;
@@ -496,7 +509,7 @@ UA_StatusCode Value_getVariant(UA_Variant *variant, const NL_Value *value,
         return UA_STATUSCODE_GOOD;
     }
 
-    RawData data = {UA_calloc(length, type->memSize), 0};
+    RawData data = {UA_calloc(length, type->memSize), 0, 0};
     if (!data.mem)
     {
         return UA_STATUSCODE_BADOUTOFMEMORY;
-- 
2.43.0


From 45739c84747a1019d685e91abebd8fb3ccb6cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 34/35] fix: determine the alignment of a nested data type only
 once

---
 backends/open62541/src/DataTypeImporter.c | 85 +++++++++++++++++------
 1 file changed, 65 insertions(+), 20 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 6af363a..324c574 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -15,6 +15,13 @@
 
 #include <assert.h>
 
+struct TypeAlignment
+{
+    const UA_DataType *type;
+    int alignment;
+};
+typedef struct TypeAlignment TypeAlignment;
+
 struct DataTypeImporter
 {
     UA_Server *server;
@@ -25,6 +32,9 @@ struct DataTypeImporter
     const NL_DataTypeNode **nodes;
     size_t nodesSize;
     size_t maxNodesSize;
+    // structures and unions which are members of others
+    TypeAlignment *alignments;
+    size_t alignmentsSize;
     bool outOfMemory;
 };
 
@@ -208,10 +218,51 @@ typedef struct
 } TempVoidPtr;
 
 static int getMembersAlignment(const UA_DataType *type,
-                               const UA_DataTypeArray *customTypes);
+                               DataTypeImporter *importer);
+
+// the biggest alignment of all members and the switch field of an union
+static int getStructureAlignment(const UA_DataType *type,
+                                 DataTypeImporter *importer)
+{
+    int alignment = type->typeKind == UA_DATATYPEKIND_UNION
+                        ? (int)offsetof(TempUInt32, member)
+                        : 1;
+    int tmp = getMembersAlignment(type, importer);
+    return tmp > alignment ? tmp : alignment;
+}
+
+// A type can be a member many times, directly and within other types
+static int lookupStructureAlignment(const UA_DataType *type,
+                                    DataTypeImporter *importer)
+{
+    if (importer->outOfMemory)
+    {
+        return 1;
+    }
+    for (size_t i = 0; i < importer->alignmentsSize; i++)
+    {
+        if (importer->alignments[i].type == type)
+        {
+            return importer->alignments[i].alignment;
+        }
+    }
+    int alignment = getStructureAlignment(type, importer);
+    TypeAlignment *alignments = (TypeAlignment *)realloc(
+        importer->alignments,
+        (importer->alignmentsSize + 1) * sizeof(TypeAlignment));
+    if (!alignments)
+    {
+        importer->outOfMemory = true;
+        return alignment;
+    }
+    importer->alignments = alignments;
+    alignments[importer->alignmentsSize].type = type;
+    alignments[importer->alignmentsSize].alignment = alignment;
+    importer->alignmentsSize++;
+    return alignment;
+}
 
-static int getAlignment(const UA_DataType *type,
-                        const UA_DataTypeArray *customTypes)
+static int getAlignment(const UA_DataType *type, DataTypeImporter *importer)
 {
     switch (type->typeKind)
     {
@@ -268,14 +319,7 @@ static int getAlignment(const UA_DataType *type,
     case UA_DATATYPEKIND_STRUCTURE:
     case UA_DATATYPEKIND_OPTSTRUCT:
     case UA_DATATYPEKIND_UNION:
-    {
-        // the biggest alignment of all members and the switch field of an union
-        int retAlignment = type->typeKind == UA_DATATYPEKIND_UNION
-                               ? (int)offsetof(TempUInt32, member)
-                               : 1;
-        int tmp = getMembersAlignment(type, customTypes);
-        return tmp > retAlignment ? tmp : retAlignment;
-    }
+        return lookupStructureAlignment(type, importer);
     default:
         // DataValue and the like
         return offsetof(TempVoidPtr, member);
@@ -283,7 +327,7 @@ static int getAlignment(const UA_DataType *type,
 }
 
 static int getMemberAlignment(const UA_DataTypeMember *member,
-                              const UA_DataTypeArray *customTypes)
+                              DataTypeImporter *importer)
 {
     if (member->isArray)
     {
@@ -293,16 +337,16 @@ static int getMemberAlignment(const UA_DataTypeMember *member,
     {
         return offsetof(TempVoidPtr, member);
     }
-    return getAlignment(member->memberType, customTypes);
+    return getAlignment(member->memberType, importer);
 }
 
 static int getMembersAlignment(const UA_DataType *type,
-                               const UA_DataTypeArray *customTypes)
+                               DataTypeImporter *importer)
 {
     int alignment = 1;
     for (UA_UInt32 i = 0; i < type->membersSize; i++)
     {
-        int tmp = getMemberAlignment(&type->members[i], customTypes);
+        int tmp = getMemberAlignment(&type->members[i], importer);
         if (tmp > alignment)
         {
             alignment = tmp;
@@ -327,7 +371,7 @@ static void removeMembers(UA_DataType *type)
 
 // The layout is the one of the corresponding type in C
 static void setPaddingMemsize(UA_DataType *type,
-                              const UA_DataTypeArray *customTypes)
+                              DataTypeImporter *importer)
 {
     if (!type->members)
     {
@@ -343,7 +387,7 @@ static void setPaddingMemsize(UA_DataType *type,
     // the members of an union share the memory behind the switch field
     const UA_Boolean isUnion = type->typeKind == UA_DATATYPEKIND_UNION;
     const int fieldsPadding =
-        (int)sizeof(UA_UInt32) + getPadding(getMembersAlignment(type, customTypes),
+        (int)sizeof(UA_UInt32) + getPadding(getMembersAlignment(type, importer),
                                             (int)sizeof(UA_UInt32));
 
     for (UA_DataTypeMember *tm = type->members;
@@ -360,7 +404,7 @@ static void setPaddingMemsize(UA_DataType *type,
         else
         {
             tm->padding = (UA_Byte)(
-                0x3F & getPadding(getMemberAlignment(tm, customTypes), offset));
+                0x3F & getPadding(getMemberAlignment(tm, importer), offset));
         }
         offset = offset + tm->padding;
 
@@ -393,7 +437,7 @@ static void setPaddingMemsize(UA_DataType *type,
         }
     }
     // padding at the end is needed
-    memSize = memSize + getPadding(getAlignment(type, customTypes), memSize);
+    memSize = memSize + getPadding(getStructureAlignment(type, importer), memSize);
     if (memSize > UA_UINT16_MAX)
     {
         removeMembers(type);
@@ -666,7 +710,7 @@ static void calcMemSize(DataTypeImporter *importer)
             }
             if (readyForMemsizeCalc(importer, &types[i], finished))
             {
-                setPaddingMemsize(&types[i], importer->types);
+                setPaddingMemsize(&types[i], importer);
                 finished[i] = true;
                 progress = true;
             }
@@ -818,5 +862,6 @@ void DataTypeImporter_delete(DataTypeImporter *importer)
         deleteCustomDataTypes(importer->types);
     }
     free((void *)importer->nodes);
+    free(importer->alignments);
     free(importer);
 }
-- 
2.43.0


From 791a2e08b72112bde8b5b97c16c541b599b30740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:15 +0000
Subject: [PATCH 35/35] fix: accept 1 as a true attribute

---
 backends/open62541/src/DataTypeImporter.c | 2 +-
 backends/open62541/src/conversion.h       | 2 +-
 src/Nodeset.c                             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 324c574..f1d8ff0 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -74,7 +74,7 @@ static const UA_DataType *getDataType(const UA_NodeId *id,
         {
             if (UA_NodeId_equal(&importer->nodes[i]->id, &type->typeId))
             {
-                if (strcmp(importer->nodes[i]->isAbstract, "true") == 0)
+                if (isValTrue(importer->nodes[i]->isAbstract))
                 {
                     return &UA_TYPES[UA_TYPES_VARIANT];
                 }
diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index 4bc697d..a9eafa5 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -33,7 +33,7 @@ static inline UA_Boolean isValTrue(const char *s)
     {
         return UA_FALSE;
     }
-    if (strcmp(s, "true"))
+    if (strcmp(s, "true") && strcmp(s, "1"))
     {
         return UA_FALSE;
     }
diff --git a/src/Nodeset.c b/src/Nodeset.c
index e52f660..50b014d 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -419,7 +419,7 @@ static char *getAttributeValue(Nodeset *nodeset, const NodeAttribute *attr,
 
 static bool isTrue(const char *value)
 {
-    return value && !strcmp("true", value);
+    return value && (!strcmp("true", value) || !strcmp("1", value));
 }
 
 static void extractAttributes(Nodeset *nodeset, NL_Node *node, int attributeSize,
-- 
2.43.0

