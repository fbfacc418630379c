// Runtime of the simulator: everything nondeterministic the loader touches ends here.
// Allocation, files, stdout, the step clock, thread scheduling, libxml's allocator.
#pragma once
#include "plan.h"
#include <functional>
#include <pthread.h>
#include <set>
#include <string>
#include <vector>

namespace rt {

enum Stat { ST_ALLOC_FAIL, ST_OPEN_FAIL, ST_READ_ERR, ST_READ_EINTR, ST_SHORT_READ, ST_MISSING, ST_DAMAGE, ST_REFUSE, ST_REFUSE_REF,
            ST_NEST, ST_SWITCH, ST_XMLCTX, ST_ALLOCS, ST_READS, ST_OPENS, ST_OPS, ST_IMPORT_OK, ST_IMPORT_FAIL, ST_SORT_OK, ST_SORT_FAIL,
            ST_LOAD_OK, ST_LOAD_FAIL, ST_NODES, ST_OFFERS, ST_CALLBACKS, ST_EXT_EVENTS, ST_ROUNDS, ST_LATE_ACCEPT, ST_FAIL_THEN_OK, ST_RESORT, ST_CUSTOM_TYPES,
            ST_OOM_CONTAINED, ST_TRUNC, ST_N };
extern const char *statName[ST_N];

struct Violation { char props[48]; char kind[48]; char detail[2000]; };
enum { MAXV = 8, MAXSW = 4096, MAXSITE = 4096 };
struct Result { // shared memory, survives the run's process
    volatile int done;          // 1: plan executed to its end
    volatile int crashTask, crashOp; char where[160];
    int nviol; Violation viol[MAXV];
    uint64_t ticks, stateHash, schedHash, transcriptHash;
    uint64_t stats[ST_N];
    unsigned nsw; struct { uint64_t tick; int task; } sw[MAXSW];
    int hang;
    unsigned nAllocs; struct { char task[16]; int op; uint32_t allocs; uint32_t reads; uint32_t events; } opAllocs[256];
    struct Site { uint64_t key; uint32_t count, pick; int op; char task[16]; } sites[MAXSITE]; // where each op allocates
    char tail[4096];            // last transcript lines (debug)
    char transcripts[4 << 20];   // all transcripts (name\n #digest\n text \n\0; the text is left out when it is too long)
    size_t transcriptLen;
    unsigned char edges[65536];
};
extern Result *R;

struct Frame { // one program (task or nested) being executed on a thread
    std::string name; int taskIndex = -1; long op = -1;
    uint64_t allocs = 0, reads = 0, events = 0;
    bool faulted = false;       // an allocation fault fired in the current op
    bool ioErr = false;         // an I/O error was delivered in the current op
    bool eintr = false;
    uint64_t delivered = 0;     // bytes of the file handed out in the current op
    bool opened = false;        // the current op opened a file
    std::string transcript;
    void *exec = nullptr;       // executor's own data
    Frame *up = nullptr;
};
struct TaskState {
    int index; pthread_t th; pthread_cond_t cv; bool finished = false, started = false;
    int hostDepth = 1; Frame *frame = nullptr; std::function<void()> fn;
};
extern thread_local TaskState *cur;

void zygote();                                  // once per process
void begin(const Plan &p, Result *r);           // start of a run (in the run's process)
void runTasks(std::vector<std::function<void()>> fns); // simulated threads
void finish();                                  // final leak checks
void violation(const std::string &props, const std::string &kind, const std::string &detail);
void note(const std::string &line);             // transcript of the current frame
void setBudget(uint64_t ticks);
std::string leakReport(size_t &n);              // live library blocks of the run
size_t openFiles();
size_t liveBlocks();
bool anyAllocFault();

struct Lib { int save; Lib() { save = cur->hostDepth; cur->hostDepth = 0; } ~Lib() { cur->hostDepth = save; } }; // library code runs
struct Host { int save; Host() { save = cur->hostDepth; cur->hostDepth = 1; } ~Host() { cur->hostDepth = save; } }; // host callback

struct VFile { std::string bytes; bool missing = false; int openErr = 0; };
void setFile(const std::string &name, const VFile &f);
const VFile *getFile(const std::string &name);
} // namespace rt
