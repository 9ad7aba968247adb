#pragma once
#include "model.h"
#include "plan.h"

constexpr int kMaxViol = 12;
struct Viol {
    int cls, uid, kind;
    uint32_t mask;                 // properties it breaks, bit i = P(i+1)
    int ckind;                     // concrete operation that failed (for bulk operations), -1 none
    int c_less, c_inc, c_inc2;
    char cs[120], ct[120];         // its arguments, hex ("" if too long)
    char detail[420];
};
enum Counter {
    C_SPACE, C_INTS, C_BENCHF, C_TRIES, C_TRIELAB, C_PARTS, C_PARTASK, C_PROGS, C_PROGTHR, C_KEYFILES, C_SHORTREAD, C_INTRREAD, C_EIOREAD, C_MISSING, C_NOTHREAD, C_METERED, C_OPS, C_LOOKUP, C_RANGE, C_SEEK, C_STEP, C_SHOW, C_COUNT, C_BUILD, C_RESTORE, C_IMAGE, C_PROBE, C_DESTROY,
    C_EVENTS, C_ALLOCS, C_OOM_FIRED, C_OOM_SURVIVED, C_CRASH, C_CRASH_IN_SAVE, C_DISK_EIO, C_DISK_ENOSPC, C_DISK_SHORT,
    C_TORN, C_LOST, C_REORDER_FLUSH, C_RECOVERED, C_RECOVERED_OLD, C_UNALIGNED, C_SCRIBBLED, C_FREEDBUF, C_HEAPGARBAGE, C_HEAPREUSE,
    C_PARALLEL, C_SWITCH, C_PREEMPT, C_STALL, C_RACECHK, C_RACEDROP, C_POSITIVE_ABSENT, C_FLAGGED, C_WRAP, C_INCS, C_ABORTED, C_REASSIGN,
    C_N
};
extern const char* kCounterNames[C_N];

struct ImgEntry { int ks, cfg; uint64_t hash; uint64_t size; };
struct DiskFile { char name[8]; uint32_t cap; uint32_t size; uint32_t durable; };

constexpr uint32_t kDiskCap = 8u << 20;
constexpr int kDiskFiles = 5;
struct Shared {
    // --- results
    volatile int done;                       // incarnation finished by itself
    volatile int curUid[rt::kMaxThreads], curKind[rt::kMaxThreads], curOom[rt::kMaxThreads];
    volatile int parallelNow;
    volatile int curTid;
    int nviol;
    Viol viol[kMaxViol];
    uint64_t cnt[C_N];
    uint64_t result;                         // hash of everything observed
    uint64_t schedHash;
    int nrec;
    struct { int inc, phase; rt::Switch sw; } rec[60000];
    ImgEntry img[64];
    int nimg;
    uint64_t incEvents[8];
    double workMax[8];                       // largest share of the allowed work used: point, range, seek, step, count, build, save/restore, memory
    uint64_t distinctOps;                    // bitmap of op kinds executed
    // --- simulated disk (survives process death)
    uint32_t size[kDiskFiles], durableSize[kDiskFiles];
    int exists[kDiskFiles], durableExists[kDiskFiles];
    int pendingRename;                       // 1 + destination, 0 none
    uint64_t renameDurable;
    int diskStep;
    int saving;
    unsigned char cur[kDiskFiles][kDiskCap];     // what the running process sees
    unsigned char dur[kDiskFiles][kDiskCap];     // what survives
};

struct Outcome {
    std::vector<Viol> viols;
    uint64_t hash = 0;
    uint64_t schedHash = 0;
    uint64_t cnt[C_N] = {0};
    double workMax[8] = {0};
    bool oomFired = false;
    std::vector<PhaseSched> recorded;        // explicit schedules of this execution
    bool recTruncated = false;
};
void execInit();
Outcome execute(const Plan& p);
uint32_t propBit(const std::string& id);
std::string maskNames(uint32_t m);
