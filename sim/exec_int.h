// internals shared by exec.cpp (loader) and exec_srv.cpp (server backend)
#pragma once
#include "exec.h"
#include <NodesetLoader/backendOpen62541.h>
#include <NodesetLoader/dataTypes.h>
#include <memory>
#include <deque>
using rt::cur;
using rt::violation;
struct Exec;

struct ExtObj { int serial; bool finished = false; };
struct ExtRec { ExtEv ev; int serial; };

struct FileInfo { // a plan file with everything derived from it
    const File *f = nullptr; const Doc *d = nullptr; Rendered r; std::string bytes;
    bool exact = false;   // the bytes are the document's, unchanged
    bool prefix = false;  // ... cut at the end
    enum Want { TRUE_, FALSE_, ANY } want = ANY; // import result on a fault free disk
};
struct Group { // the nodes one import may have contributed
    const FileInfo *fi; EDoc doc; size_t kmin, kmax; bool failed = false;
    std::vector<const ExtObj *> exts; // objects handed to the import, in order
    bool extOn = false;
    const ExtObj *extOf(size_t node) const;
};
struct LoaderObj {
    NodesetLoader *l = nullptr; bool host = false, late = false, sorting = false, everImported = false, dirty = false, sorted = false, lastSort = false, failedBefore = false, oomBefore = false;
    bool murkyNext = false, murky = false; int nSorts = 0, nImports = 0; // sorted while the super type of a reference type was still missing: its classification is settled without it
    NodesetLoader_Logger logger; NL_ReferenceService svc;
    std::set<Id> hier, known; // host service state
    std::vector<Group> groups;
    struct Snap { const NL_Node *p; std::string text, refs; int epoch; };
    std::map<const NL_Node *, Snap> snaps; int epoch = 0;
    Exec *ex = nullptr;
};
struct SrvObj;
struct CallCtx { // what one import / load call saw
    std::vector<std::string> uris; std::vector<unsigned> idx; bool nullUri = false;
    int cb = 0, serial = 0; // which callback and context it was given
};
struct ImpCtx { Exec *e; int serial; };
struct Exec {
    const Task *task; rt::Frame frame; int depth = 0;
    std::deque<ImpCtx> impCtx;
    std::map<std::string, LoaderObj *> loaders;
    std::map<std::string, SrvObj *> servers;
    std::vector<ExtObj *> extObjs;
    std::vector<ExtRec> extLog; size_t extOpStart = 0; std::vector<std::string> extErr;
    std::map<std::string, unsigned> nsReg{{"http://opcfoundation.org/UA/", 0}}; unsigned nsNext = 100, nsStep = 1;
    unsigned errors = 0, warnings = 0; std::string lastError;
    CallCtx call;
    void run();
    void step(const Op &op);
    void opNew(const Op &), opImport(const Op &), opSort(const Op &), opWalk(const Op &), opRefs(const Op &), opDelete(const Op &), opBad(const Op &), opArena(const Op &);
    void verifySnaps();
    std::string ctxTags(const LoaderObj *L) const;
    void del(LoaderObj *L);
    // server part
    void srvOp(const Op &op);
    void srvVerify();
    void srvEnd();
    void checkExt(const std::vector<ExtEv> &full, bool prefixOk, bool on);
};
extern const Plan *gPlan;
FileInfo *fileInfo(const std::string &name);
void fireEvent();            // a point where the host gets control
extern NodesetLoader_ExtensionInterface gExt;
void logCb(void *ctx, NodesetLoader_LogLevel lvl, const char *msg, ...);
std::string join(const std::string &a, const std::string &b);
void record(const std::string &s); // transcript + state hash
