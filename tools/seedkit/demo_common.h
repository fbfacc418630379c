/* helpers of the demonstrations */
#include <NodesetLoader/NodesetLoader.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static unsigned short demoNext = 2;
static unsigned short demoAddNs(void *c, const char *uri) { (void)c; return uri[0] == 'k' ? (unsigned short)atoi(uri + 1) : demoNext++; }
static void demoLog(void *c, enum NodesetLoader_LogLevel l, const char *m, ...) { (void)c; (void)l; (void)m; }
static NodesetLoader_Logger demoLogger = {NULL, demoLog};
static void demoWrite(const char *name, const char *text) { FILE *f = fopen(name, "wb"); if (!f || fwrite(text, 1, strlen(text), f) != strlen(text)) exit(3); fclose(f); }
#define HEAD "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<UANodeSet xmlns=\"http://opcfoundation.org/UA/2011/03/UANodeSet.xsd\">\n"
static char *demoDoc(const char *body) { char *d = (char *)malloc(strlen(body) + 400); sprintf(d, HEAD "%s</UANodeSet>\n", body); return d; }
static bool demoImport(NodesetLoader *l, const char *name) { NL_FileContext c; memset(&c, 0, sizeof c); c.file = name; c.addNamespace = demoAddNs; return NodesetLoader_importFile(l, &c); }
static int demoFail;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "broken: %s (line %d)\n", #c, __LINE__); demoFail = 1; } } while (0)
typedef struct { NL_Node *n[4096]; size_t cnt; } DemoList;
static void demoCollect(void *c, NL_Node *n) { DemoList *l = (DemoList *)c; if (l->cnt < 4096) l->n[l->cnt++] = n; }
static inline size_t demoAll(NodesetLoader *l, DemoList *o) { o->cnt = 0; size_t s = 0; for (int i = 0; i < NL_NODECLASS_COUNT; i++) s += NodesetLoader_forEachNode(l, (NL_NodeClass)i, o, demoCollect); return s; }
