// Simulation runtime: everything nondeterministic that the code under test can
// see goes through here (heap contents and layout, allocation failures, thread
// interleaving, synchronisation, process death).
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
#include <string>

namespace rt {

constexpr int kMaxThreads = 6;          // 0 = main, 1.. = callers

struct Rng {                             // splitmix64: one seed, one stream
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---- violations reported by the runtime itself -------------------------------
enum Cls {
    V_NONE = 0, V_WRONG = 1 /* functional oracle, set by the executor */, V_ASSERT, V_SIGNAL, V_EXC,
    V_HANG, V_DEADLOCK, V_OOB, V_BADFREE, V_RACE, V_LEAK, V_MISMATCH, V_IMAGE, V_EXIT
};
const char* clsName(int c);
// Implemented by the executor. fatal = the process incarnation cannot go on.
void onViolation(int cls, const std::string& detail, bool fatal);

// ---- incarnation -------------------------------------------------------------
struct HeapCfg {
    uint64_t seed = 1;                   // contents of fresh memory, placement
    int reuse = 0;                       // 0 never reuse freed memory, 1 LIFO per size
};
void templateInit();                     // once per process, before any fork
void incarnationBegin(const HeapCfg&);   // in the forked child
void incarnationEnd();

// ---- domain ------------------------------------------------------------------
struct InSut { InSut(); ~InSut(); };     // code under test is running
struct CallerMem { CallerMem(); ~CallerMem(); };  // caller's own objects: no injected failures

// ---- per-call control --------------------------------------------------------
void opBegin(int uid, uint64_t budget, long oomAt /*-1 none, else 0-based*/, bool oomPersist);
struct OpStats { uint64_t events; uint64_t allocs; bool oomFired; };
OpStats opEnd();

uint64_t liveBytes();
uint64_t liveBlocks();
std::string liveSummary();
struct Meter { uint64_t from; Meter(); ~Meter(); };   // work of the code under test in one call, by this caller alone
uint64_t lastWork();                     // memory accesses plus 16-byte pieces of block moves
uint64_t events();                       // instrumented memory accesses so far
void setCrashAt(uint64_t ev);            // kill this process at that event (0 = never)
extern void (*onCrash)();                // called right before the process dies

void fillStack(void* p, size_t n, uint64_t seed);   // contents that uninitialised locals will see

// caller memory helpers (arena, shadow-checked)
void* callerAlloc(size_t n);
void callerFree(void* p);

// ---- concurrent phases -------------------------------------------------------
struct Switch { int uid; long ev; int to; };   // at event ev of op uid (ev -1: op's end) run thread `to`
struct SchedCfg {
    int mode = 0;                        // 0 random, 1 op boundaries, 2 at shared writes, 3 PCT, 4 one caller stalls, 9 explicit list
    unsigned period = 64;                // mean distance of switches (mode 0)
    uint64_t seed = 1;
    std::vector<Switch> list;            // mode 9
};
// Runs body(tid) for tid = 1..n as simulated threads; returns when all are done.
void runThreads(int n, const SchedCfg&, void (*body)(int tid));
int currentTid();
const std::vector<Switch>& recorded();
struct SchedStats { uint64_t switches, preemptions, stalls, racesChecked, dropped; uint64_t hash; };
SchedStats schedStats();
bool inParallel();
uint64_t traceHash();                    // allocator + scheduler history

// ---- whole programs: input files and threads of their own --------------------
struct InFile { std::string path, data; };
struct FileCfg {
    std::vector<InFile> files;
    uint64_t seed = 1;
    int mode = 0;                        // bit 0 short reads, bit 1 interrupted reads
    long eioAt = -1;                     // a read at or beyond this byte of a file fails
};
struct FileStats { uint64_t opened, missing, shortReads, interrupted, errors; };
void filesBegin(const FileCfg&);         // from here on the code under test sees these files and no others
FileStats filesEnd();
void emitReset(); void emit(const char* s, size_t n); std::string emitted();   // what the program prints
struct ThreadExit {};                    // pthread_exit in the code under test
// Threads the code under test creates run when it first joins one: start(i) for i = 1..n under this schedule.
void threadsBegin(const SchedCfg&, void (*body)(int tid), bool lazy, int failAt);   // lazy: none runs before it is waited for; the failAt-th cannot be created
int badJoins();                          // waits for threads that do not exist
int threadsEnd();                        // number of threads that ran
void threadRun(int tid);                 // calls the thread's function; to be used by body
extern const void* uncheckedLo; extern const void* uncheckedHi;   // the standard stream: free of data races by its specification

// coverage of the code under test (edges)
void coverInit(unsigned char* shared, unsigned n);
unsigned coverCount();

}  // namespace rt
