#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <new>
#include <unordered_map>

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_gettimeofday(struct timeval*, void*);
time_t __real_time(time_t*);
int __real_rand();
long __real_random();
pid_t __real_getpid();
int __real_sched_yield();
int __real_usleep(unsigned);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __real_memcmp(const void*, const void*, size_t);
int __real_bcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
void* __real_memchr(const void*, int, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}

template <class F> static F nextSym(F, const char* name) {
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) { fprintf(stderr, "rt: no %s\n", name); _exit(2); }
    return (F)p;
}
#define REAL(f) nextSym(&f, #f)

namespace rt {

uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x1234567));
    return r.next();
}

const char* clsName(int c) {
    static const char* n[] = {"none", "wrong-result", "assertion", "signal", "exception", "hang", "deadlock",
                              "bad-access", "bad-free", "data-race", "leak", "concurrent-mismatch", "image",
                              "exit"};
    return (c >= 0 && c <= V_EXIT) ? n[c] : "?";
}

// ============================ arena + shadow ==================================
static const uintptr_t kBase = 0x500000000000ull;
static const size_t kSize = 3ull << 30;
static const uintptr_t kShadowBase = 0x600000000000ull;  // 1 byte per byte
static unsigned char* const shadow = (unsigned char*)kShadowBase;

struct Block { uintptr_t addr; size_t size; uint8_t kind; uint8_t live; };  // kind 1 new 2 new[] 3 malloc 4 caller
static Block* g_blocks;          // indexed by order of allocation
static size_t g_nblocks, g_capblocks;
static uint32_t* g_blockAt;      // granule (16 bytes) -> block index + 1
static const size_t kGran = kSize / 16;

static uintptr_t g_bump;
static HeapCfg g_heap;
static Rng g_hrng, g_erng;
static long g_back;                       // seconds the time of day was set back
static uint64_t g_clock0, g_slept;
static uint64_t g_live, g_liveBlocks;
static uint64_t g_trace = 1469598103934665603ull;
static bool g_active;
static bool g_parallel;

struct FreeNode { uintptr_t a; };
static std::vector<uintptr_t>* g_freelist;   // [size class 16..1024]

static inline void trace(uint64_t v) { g_trace = (g_trace ^ v) * 1099511628211ull; }
uint64_t traceHash() { return g_trace; }
uint64_t liveBytes() { return g_live; }
uint64_t liveBlocks() { return g_liveBlocks; }

struct Tls {
    int tid = 0;
    int insut = 0;
    int caller = 0;
    int uid = -1;
    uint64_t ev = 0;             // events of the current op
    uint64_t extra = 0, lastWork = 0;   // 16-byte pieces moved by block operations; work of the last metered call
    uint64_t edges = 0;
    uint64_t budget = ~0ull;
    long oomAt = -1;
    bool oomPersist = false;
    bool oomFired = false;
    uint64_t allocs = 0;
    uintptr_t stackLo = 0, stackHi = 0;
};
static __thread Tls* t_tls;
static Tls g_tls[kMaxThreads];
static inline Tls& tls() { return t_tls ? *t_tls : g_tls[0]; }
int currentTid() { return tls().tid; }
bool inParallel() { return g_parallel; }

InSut::InSut() { tls().insut++; }
InSut::~InSut() { tls().insut--; }
CallerMem::CallerMem() { tls().caller++; }
CallerMem::~CallerMem() { tls().caller--; }

static uint64_t g_events, g_crashAt = ~0ull;
void (*onCrash)();
uint64_t events() { return g_events; }
Meter::Meter() { Tls& t = tls(); from = t.ev + t.extra; }
Meter::~Meter() { Tls& t = tls(); t.lastWork = t.ev + t.extra - from; }
uint64_t lastWork() { return tls().lastWork; }
void setCrashAt(uint64_t e) { g_crashAt = e ? e : ~0ull; }

struct Out {                     // leave the code under test while the runtime works
    int saved; Tls& t;
    Out() : t(tls()) { saved = t.insut; t.insut = 0; }
    ~Out() { t.insut = saved; }
};

static std::string fmt(const char* f, ...) {
    char b[400];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}

void templateInit() {
    void* p = mmap((void*)kBase, kSize, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* q = mmap((void*)kShadowBase, kSize, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    g_blockAt = (uint32_t*)mmap(nullptr, kGran * 4, PROT_READ | PROT_WRITE,
                                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p != (void*)kBase || q != (void*)kShadowBase || g_blockAt == MAP_FAILED) {
        fprintf(stderr, "rt: cannot map the simulated heap\n");
        _exit(2);
    }
    g_capblocks = 1 << 23;
    g_blocks = (Block*)mmap(nullptr, g_capblocks * sizeof(Block), PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < kMaxThreads; i++) g_tls[i].tid = i;
}

void incarnationBegin(const HeapCfg& c) {
    g_heap = c;
    g_hrng = Rng(c.seed * 77 + 5);
    g_erng = Rng(c.seed * 91 + 3);
    g_clock0 = 1500000000000000000ull + g_erng.below(1ull << 58);
    g_slept = 0; g_back = 0;
    g_bump = kBase + 4096 + 16 * (c.seed % 61);
    g_freelist = new std::vector<uintptr_t>[65];
    g_active = true;
    g_events = 0;
    t_tls = &g_tls[0];
}
void incarnationEnd() { g_active = false; }

static void fillGarbage(uintptr_t a, size_t n, uint64_t key) {
    // 0: zeros never (real heaps are not zeroed), so pattern depends on the heap seed
    Rng r(key ^ 0xABCDEF);
    size_t i = 0;
    switch (g_heap.seed & 3) {
    case 0: __real_memset((void*)a, 0xFF, n); break;
    case 1: __real_memset((void*)a, 0xA5, n); break;
    default:
        for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); __real_memcpy((void*)(a + i), &v, 8); }
        for (; i < n; i++) *(unsigned char*)(a + i) = (unsigned char)r.next();
    }
}

void fillStack(void* p, size_t n, uint64_t seed) {
    Rng r(seed ^ 0x57AC);
    int style = (int)r.below(4);
    for (size_t i = 0; i + 8 <= n; i += 8) {
        uint64_t v = style == 0 ? 0 : style == 1 ? ~0ull : style == 2 ? 0x0101010101010101ull : r.next();
        __real_memcpy((char*)p + i, &v, 8);
    }
}

static void yieldPoint(bool sharedWrite);
static void slowEvent();

static void* arenaAlloc(size_t n, uint8_t kind, size_t align = 16) {
    size_t cls = (n + 15) / 16;
    uintptr_t a = 0;
    if (g_heap.reuse && cls <= 64 && align == 16 && !g_freelist[cls].empty()) {
        a = g_freelist[cls].back();
        g_freelist[cls].pop_back();
    } else {
        uintptr_t gap = 32 + 16 * (g_hrng.next() & 3);
        a = (g_bump + gap + 15) & ~(uintptr_t)15;
        if (align > 16) a = (a + align - 1) & ~(uintptr_t)(align - 1);
        g_bump = a + cls * 16;
        if (g_bump + 4096 > kBase + kSize || g_nblocks + 1 >= g_capblocks) {
            onViolation(V_EXIT, "simulated heap exhausted (3 GB live or leaked in one process)", true);
        }
    }
    trace(a); trace(n);
    Block& b = g_blocks[g_nblocks++];
    b.addr = a; b.size = n; b.kind = kind; b.live = 1;
    g_blockAt[(a - kBase) / 16] = (uint32_t)g_nblocks;
    __real_memset(shadow + (a - kBase), g_parallel ? 2 : 1, n);
    fillGarbage(a, n, mix(g_heap.seed, g_nblocks));
    if (kind != 4) { g_live += n; g_liveBlocks++; }
    return (void*)a;
}

static const char* kindName(int k) {
    return k == 1 ? "new" : k == 2 ? "new[]" : k == 3 ? "malloc" : k == 4 ? "the caller" : "?";
}

static void arenaFree(void* p, uint8_t kind) {
    uintptr_t a = (uintptr_t)p;
    uint32_t bi = (a & 15) ? 0 : g_blockAt[(a - kBase) / 16];
    if (!bi || g_blocks[bi - 1].addr != a) {
        onViolation(V_BADFREE, "free of a pointer that is not the start of an allocation", false);
        return;
    }
    Block& b = g_blocks[bi - 1];
    if (!b.live) { onViolation(V_BADFREE, fmt("double free of a %zu-byte block", b.size), false); return; }
    if (b.kind != kind)
        onViolation(V_BADFREE, fmt("%zu-byte block allocated with %s, freed with %s", b.size, kindName(b.kind),
                                   kind == 1 ? "delete" : kind == 2 ? "delete[]" : kind == 3 ? "free" : "the caller"), false);
    trace(a);
    b.live = 0;
    if (b.kind != 4) { g_live -= b.size; g_liveBlocks--; }
    __real_memset(shadow + (a - kBase), 0, b.size);
    __real_memset(p, 0xDD, b.size);
    size_t cls = (b.size + 15) / 16;
    if (g_heap.reuse && cls <= 64 && cls > 0) g_freelist[cls].push_back(a);
}

void* callerAlloc(size_t n) { Out o; return arenaAlloc(n, 4); }
void callerFree(void* p) { Out o; if (p) arenaFree(p, 4); }

std::string liveSummary() {
    std::string s;
    int shown = 0;
    for (size_t i = 0; i < g_nblocks && shown < 6; i++)
        if (g_blocks[i].live && g_blocks[i].kind != 4) {
            s += fmt("%s%zu bytes (%s)", shown ? ", " : "", g_blocks[i].size, kindName(g_blocks[i].kind));
            shown++;
        }
    return s;
}

static inline bool inArena(uintptr_t a) { return a - kBase < kSize; }

// true if this allocation must fail
static bool failNow(Tls& t) {
    if (t.caller) return false;
    uint64_t n = t.allocs++;
    if (t.oomAt < 0) return false;
    if ((long)n == t.oomAt || (t.oomPersist && (long)n > t.oomAt)) {
        t.oomFired = true;
        trace(0x00117777);
        return true;
    }
    return false;
}

static void* simNew(size_t n, uint8_t kind, bool nothrow, size_t align = 16) {
    Tls& t = tls();
    if (!g_active || !t.insut) {
        void* p = align > 16 ? __real_aligned_alloc(align, (n + align - 1) / align * align) : __real_malloc(n ? n : 1);
        if (!p && !nothrow) throw std::bad_alloc();
        return p;
    }
    bool fail;
    void* p = nullptr;
    {
        Out o;
        fail = failNow(t);
        if (!fail) p = arenaAlloc(n, kind, align);
    }
    if (fail) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    return p;
}

static void simDelete(void* p, uint8_t kind) {
    if (!p) return;
    if (!inArena((uintptr_t)p)) { __real_free(p); return; }
    Out o;
    arenaFree(p, kind);
}

// ============================ checks on accesses ==============================
// ---- data race detection: per 8-byte granule, per thread last read/write ----
struct Rec {
    uintptr_t g;
    uint32_t w[kMaxThreads], r[kMaxThreads];
    uint8_t wm[kMaxThreads], rm[kMaxThreads];
};
static Rec* g_recs;
static const size_t kRecs = 1 << 18;
static size_t g_nrecs;
static uint32_t g_vc[kMaxThreads][kMaxThreads];
static SchedStats g_ss;

}  // namespace rt
extern "C" char __data_start, _end;
namespace rt {
static void raceAccess(uintptr_t a, size_t n, bool wr) {
    int me = tls().tid;
    if (me == 0) return;
    while (n) {
        uintptr_t g = a >> 3;
        unsigned off = a & 7, len = 8 - off;
        if (len > n) len = n;
        uint8_t m = (uint8_t)(((1u << len) - 1) << off);
        size_t h = (g * 0x9E3779B97F4A7C15ull) >> 46;
        Rec* r = nullptr;
        for (size_t i = 0; i < 64; i++) {
            Rec& c = g_recs[(h + i) & (kRecs - 1)];
            if (c.g == g) { r = &c; break; }
            if (c.g == 0) {
                if (g_nrecs > kRecs / 2) break;
                c.g = g; g_nrecs++; r = &c; break;
            }
        }
        g_ss.racesChecked++;
        if (!r) { g_ss.dropped++; }
        else {
            for (int t = 1; t < kMaxThreads; t++) {
                if (t == me) continue;
                bool ww = (r->wm[t] & m) && r->w[t] > g_vc[me][t];
                bool rw = wr && (r->rm[t] & m) && r->r[t] > g_vc[me][t];
                if (ww || rw) {
                    std::string where = inArena(a) ? "heap memory of an existing object" : "static memory";
                    if (inArena(a)) {
                        uintptr_t q = (a - kBase) / 16;
                        for (int k = 0; k < 1 << 16 && q; k++, q--)
                            if (g_blockAt[q]) {
                                Block& b = g_blocks[g_blockAt[q] - 1];
                                where = fmt("offset %zu of a %zu-byte heap block that both threads can reach", (size_t)(a - b.addr), b.size);
                                break;
                            }
                    }
                    onViolation(V_RACE, fmt("%s by thread %d races with a %s by thread %d on %s", wr ? "write" : "read", me,
                                            ww ? "write" : "read", t, where.c_str()), false);
                    r->wm[t] = r->rm[t] = 0;
                }
            }
            uint32_t now = g_vc[me][me];
            if (wr) { if (r->w[me] != now) r->wm[me] = 0; r->w[me] = now; r->wm[me] |= m; }
            else { if (r->r[me] != now) r->rm[me] = 0; r->r[me] = now; r->rm[me] |= m; }
        }
        a += len; n -= len;
    }
}

static uint64_t g_nextStop = ~0ull;      // first event at which something may have to happen

static unsigned g_nbad;
static void badAccess(uintptr_t a, size_t n, bool wr) {
    if (++g_nbad > 64) return;                            // a runaway loop: the step budget ends it
    Out o;
    uintptr_t q = (a - kBase) / 16;
    std::string what = "memory that was never allocated";
    for (int k = 0; k < 1 << 16; k++) {
        if (g_blockAt[q]) {
            Block& b = g_blocks[g_blockAt[q] - 1];
            long off = (long)(a - b.addr);
            if (!b.live && off < (long)b.size) what = fmt("offset %ld of a freed %zu-byte block", off, b.size);
            else what = fmt("offset %ld of a %zu-byte block of %s", off, b.size, kindName(b.kind));
            break;
        }
        if (!q) break;
        q--;
    }
    onViolation(V_OOB, fmt("%zu-byte %s at %s", n, wr ? "write" : "read", what.c_str()), false);
}

static inline bool shadowOk(uintptr_t a, size_t n) {
    const unsigned char* s = shadow + (a - kBase);
    switch (n) {
    case 1: return s[0];
    case 2: return s[0] && s[1];
    case 4: return s[0] && s[1] && s[2] && s[3];
    case 8: return s[0] && s[1] && s[2] && s[3] && s[4] && s[5] && s[6] && s[7];
    default: return !__real_memchr(s, 0, n);
    }
}

static inline void access(uintptr_t a, size_t n, bool wr) {
    Tls& t = tls();
    if (!t.insut || !n) return;
    if (inArena(a)) {
        if (__builtin_expect(!shadowOk(a, n), 0)) badAccess(a, n, wr);
    }
    g_events++;
    t.ev++;
    if (__builtin_expect(g_parallel, 0)) {
        bool shared = inArena(a) ? shadow[a - kBase] == 1 : a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end;   // the driver's own heap is not the library's
        if (shared && t.tid) {
            Out o;
            if (a < (uintptr_t)uncheckedLo || a >= (uintptr_t)uncheckedHi) raceAccess(a, n, wr);
            if (wr) yieldPoint(true);
        }
    }
    if (__builtin_expect(g_events >= g_nextStop || t.ev >= t.budget || g_events >= g_crashAt, 0)) slowEvent();
}

const void *uncheckedLo, *uncheckedHi;
struct SyncVar { const void* p; uint32_t vc[kMaxThreads]; int owner; int readers; bool init; };
static std::vector<SyncVar>* g_sync;

// ============================ scheduler =======================================
struct Thr { int state; /*0 free 1 runnable 2 blocked 3 done*/ const void* waiting; bool waitsForInit; bool stalled; volatile int go; pthread_t th; };
static Thr g_thr[kMaxThreads];
static int g_n;
static SchedCfg g_sc;
static Rng g_srng;
static std::vector<Switch> g_rec;
static int g_prio[kMaxThreads];
static void (*g_body)(int);
static size_t kRecCap = 20000;

const std::vector<Switch>& recorded() { return g_rec; }
SchedStats schedStats() { return g_ss; }

static void futexWait(volatile int* p, int v) { syscall(SYS_futex, (int*)p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futexWake(volatile int* p) { syscall(SYS_futex, (int*)p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void waitGo(int id) {
    while (!__atomic_load_n(&g_thr[id].go, __ATOMIC_ACQUIRE)) futexWait(&g_thr[id].go, 0);
    g_thr[id].go = 0;
}
static void handTo(int id) {
    __atomic_store_n(&g_thr[id].go, 1, __ATOMIC_RELEASE);
    futexWake(&g_thr[id].go);
}
static void switchTo(int to) {
    int me = tls().tid;
    if (to == me) return;
    g_ss.switches++;
    trace(0x5317c400 + to); trace(g_events);
    g_ss.hash = mix(g_ss.hash, mix((uint64_t)tls().uid * 64 + to, tls().ev));
    handTo(to);
    waitGo(me);
}
static int pickRunnable(int exclude) {
    int c[kMaxThreads], k = 0;
    for (int i = 1; i <= g_n; i++) if (g_thr[i].state == 1 && !g_thr[i].stalled && i != exclude) c[k++] = i;
    if (!k) {                                            // only the stalled caller is left: it carries on
        for (int i = 1; i <= g_n; i++) if (g_thr[i].state == 1 && g_thr[i].stalled && i != exclude) {
            g_thr[i].stalled = false;
            // others may wait for it only while something is set up for the first time
            for (int j = 1; j <= g_n; j++)
                if (g_thr[j].state == 2 && !g_thr[j].waitsForInit)
                    onViolation(V_DEADLOCK, "a caller cannot go on while another one, stopped inside its call, is not scheduled", true);
            return i;
        }
        return -1;
    }
    return c[g_sc.mode == 9 ? 0 : g_srng.below(k)];
}
static void armNext() {
    if (!g_parallel) { g_nextStop = ~0ull; return; }
    if (g_sc.mode == 0) g_nextStop = g_events + 1 + g_srng.below(2 * g_sc.period);
    else if (g_sc.mode == 9) g_nextStop = g_events + 1;
    else if (g_sc.mode == 4) g_nextStop = g_events + 1 + g_srng.below(2 * g_sc.period);
    else if (g_sc.mode == 3) g_nextStop = g_events + 1 + g_srng.below(2 * g_sc.period);
    else g_nextStop = ~0ull;
}
static std::unordered_map<uint64_t, Switch>* g_listed;
static uint64_t swKey(int uid, long ev) { return ((uint64_t)(uint32_t)uid << 32) ^ (uint64_t)(uint32_t)ev; }
static const Switch* listed(int uid, long ev) {
    if (!g_listed) return nullptr;
    auto it = g_listed->find(swKey(uid, ev));
    return it == g_listed->end() ? nullptr : &it->second;
}
static void record(int uid, long ev, int to) {
    if (g_rec.size() < kRecCap) g_rec.push_back({uid, ev, to});
}
static int pickOther(int me) {            // like pickRunnable, but a stalled caller stays stalled
    for (int i = 1; i <= g_n; i++) if (g_thr[i].state == 1 && !g_thr[i].stalled && i != me) return pickRunnable(me);
    return -1;
}
static const int kStall = 64;            // Switch::to + kStall: the running caller is not scheduled again while others can run
static uint64_t g_stallAt = ~0ull;
static void preemptTo(int to, bool stall = false) {
    Tls& t = tls();
    if (to <= 0 || to == t.tid || g_thr[to].state != 1 || g_thr[to].stalled) return;
    record(t.uid, (long)t.ev, to + (stall ? kStall : 0));
    if (stall) { g_thr[t.tid].stalled = true; g_ss.stalls++; }
    g_ss.preemptions++;
    switchTo(to);
}
static void yieldPoint(bool sharedWrite) {
    if (!g_parallel || g_sc.mode != 2 || !sharedWrite || tls().tid == 0) return;
    if (g_srng.below(2)) preemptTo(pickOther(tls().tid));
}
static void slowEvent() {
    Out o;
    Tls& t = tls();
    if (g_events >= g_crashAt) {
        if (onCrash) onCrash();
        _exit(77);
    }
    if (t.ev >= t.budget) {
        t.budget = ~0ull;
        onViolation(V_HANG, "no result within the step budget", true);
    }
    if (!g_parallel) { g_nextStop = ~0ull; return; }
    if (t.tid == 0) return;
    if (g_sc.mode == 0) { armNext(); preemptTo(pickOther(t.tid)); }
    else if (g_sc.mode == 4) {
        bool stall = g_events >= g_stallAt;
        if (stall) g_stallAt = ~0ull;
        armNext();
        preemptTo(pickOther(t.tid), stall);
    }
    else if (g_sc.mode == 3) {
        armNext();
        g_prio[t.tid] = -(int)(g_ss.preemptions + 1);     // lowest from now on
        int best = -1;
        for (int i = 1; i <= g_n; i++)
            if (g_thr[i].state == 1 && (best < 0 || g_prio[i] > g_prio[best])) best = i;
        preemptTo(best);
    } else if (g_sc.mode == 9) {
        g_nextStop = g_events + 1;
        const Switch* s = listed(t.uid, (long)t.ev);
        if (s) preemptTo(s->to % kStall, s->to >= kStall);
    }
}

static void blockedOn(const void* what, bool init = false);
static void endThread() {
    Tls& t = tls();
    g_thr[t.tid].state = 3;
    int to = -1;
    const Switch* s = g_sc.mode == 9 ? listed(t.uid, -2) : nullptr;
    if (s && g_thr[s->to].state == 1 && !g_thr[s->to].stalled) to = s->to;
    else to = pickRunnable(t.tid);
    if (to < 0) {
        for (int i = 1; i <= g_n; i++)
            if (g_thr[i].state == 2) onViolation(V_DEADLOCK, "a caller stays blocked after all others finished", true);
        to = 0;
    } else record(t.uid, -2, to);
    trace(0xE0D00000 + to);
    handTo(to);
}
static void* threadMain(void* arg) {
    int id = (int)(intptr_t)arg;
    g_tls[id] = Tls();
    g_tls[id].tid = id;
    t_tls = &g_tls[id];
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void* lo; size_t sz;
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    g_tls[id].stackLo = (uintptr_t)lo;
    g_tls[id].stackHi = (uintptr_t)lo + sz;
    handTo(0);
    waitGo(id);
    g_body(id);
    endThread();
    return nullptr;
}

// entry of an operation in a parallel phase: always a possible switch point
static void opYield() {
    Tls& t = tls();
    if (!g_parallel || t.tid == 0) return;
    if (g_sc.mode == 9) {
        const Switch* s = listed(t.uid, -1);
        if (s && g_thr[s->to].state == 1 && !g_thr[s->to].stalled) { record(t.uid, -1, s->to); switchTo(s->to); }
        return;
    }
    unsigned p = g_sc.mode == 1 ? 2 : 4;
    if (g_srng.below(p) == 0) {
        int to = pickOther(t.tid);
        if (to > 0) { record(t.uid, -1, to); g_ss.preemptions++; switchTo(to); }
    }
}

void runThreads(int n, const SchedCfg& sc, void (*body)(int)) {
    g_sc = sc;
    g_srng = Rng(sc.seed);
    g_n = n;
    g_body = body;
    delete g_listed;
    g_listed = nullptr;
    if (sc.mode == 9) {
        g_listed = new std::unordered_map<uint64_t, Switch>();
        for (auto& w : sc.list) (*g_listed)[swKey(w.uid, w.ev)] = w;
    }
    if (g_sync) for (auto& v : *g_sync) memset(v.vc, 0, sizeof v.vc);
    if (!g_recs) g_recs = (Rec*)mmap(nullptr, kRecs * sizeof(Rec), PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    else { madvise(g_recs, kRecs * sizeof(Rec), MADV_DONTNEED); }
    g_nrecs = 0;
    memset(g_vc, 0, sizeof g_vc);
    for (int i = 0; i < kMaxThreads; i++) { g_vc[i][i] = 1; g_thr[i].state = 0; g_thr[i].stalled = false; g_prio[i] = 100 + (int)g_srng.below(100); }
    // blocks allocated by an earlier parallel phase are shared from now on
    for (size_t i = 0; i < g_nblocks; i++)
        if (g_blocks[i].live && shadow[g_blocks[i].addr - kBase] == 2)
            __real_memset(shadow + (g_blocks[i].addr - kBase), 1, g_blocks[i].size);
    for (int i = 1; i <= n; i++) {
        g_thr[i].state = 1;
        g_thr[i].go = 0;
        pthread_attr_t at;
        pthread_attr_init(&at);
        const size_t ss = 512 * 1024;
        void* st = mmap((void*)(0x6E0000000000ull + (uintptr_t)i * (1 << 24)), ss, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (st == MAP_FAILED) {                        // left from an earlier phase of this process: use it again
            if (errno != EEXIST) { fprintf(stderr, "rt: no stack\n"); _exit(2); }
            st = (void*)(0x6E0000000000ull + (uintptr_t)i * (1 << 24));
        }
        fillStack((char*)st + ss - 65536, 65536, g_heap.seed + i);
        pthread_attr_setstack(&at, st, ss);
        if (REAL(pthread_create)(&g_thr[i].th, &at, threadMain, (void*)(intptr_t)i)) {
            fprintf(stderr, "rt: pthread_create failed\n");
            _exit(2);
        }
        pthread_attr_destroy(&at);
        waitGo(0);
    }
    g_parallel = true;
    g_stallAt = sc.mode == 4 ? g_events + 1 + g_srng.below(sc.period * 40ull) : ~0ull;
    armNext();
    int first = -1;
    const Switch* s = sc.mode == 9 ? listed(-1, -3) : nullptr;
    if (s && s->to <= n) first = s->to;
    else first = 1 + (int)(sc.mode == 9 ? 0 : g_srng.below(n));
    record(-1, -3, first);
    handTo(first);
    waitGo(0);
    g_parallel = false;
    armNext();
    for (int i = 1; i <= n; i++) REAL(pthread_join)(g_thr[i].th, nullptr);
}

void opBegin(int uid, uint64_t budget, long oomAt, bool persist) {
    Tls& t = tls();
    t.uid = uid;
    t.ev = 0;
    t.edges = 0;
    t.budget = budget;
    t.allocs = 0;
    t.oomAt = oomAt;
    t.oomPersist = persist;
    t.oomFired = false;
    opYield();
}
OpStats opEnd() {
    Tls& t = tls();
    OpStats s{t.ev, t.allocs, t.oomFired};
    t.oomAt = -1;
    t.budget = ~0ull;
    return s;
}

// ============================ synchronisation =================================
static SyncVar& sync(const void* p) {
    if (!g_sync) g_sync = new std::vector<SyncVar>();
    for (auto& s : *g_sync) if (s.p == p) return s;
    SyncVar s; memset(&s, 0, sizeof s); s.p = p;
    g_sync->push_back(s);
    return g_sync->back();
}
static void acquire(const void* p) {
    int me = tls().tid;
    SyncVar& s = sync(p);
    for (int i = 0; i < kMaxThreads; i++) if (s.vc[i] > g_vc[me][i]) g_vc[me][i] = s.vc[i];
}
static void release(const void* p) {
    int me = tls().tid;
    SyncVar& s = sync(p);
    for (int i = 0; i < kMaxThreads; i++) if (g_vc[me][i] > s.vc[i]) s.vc[i] = g_vc[me][i];
    g_vc[me][me]++;
}
static void wakeAll(const void* p) {
    for (int i = 1; i <= g_n; i++) if (g_thr[i].state == 2 && g_thr[i].waiting == p) g_thr[i].state = 1;
}
static void blockedOn(const void* p, bool init) {
    Tls& t = tls();
    if (!g_parallel || t.tid == 0) { onViolation(V_DEADLOCK, "a call waits for something nobody can provide", true); }
    g_thr[t.tid].state = 2;
    g_thr[t.tid].waiting = p;
    g_thr[t.tid].waitsForInit = init;
    const Switch* s = g_sc.mode == 9 ? listed(t.uid, -10 - (long)t.ev) : nullptr;
    int to = (s && g_thr[s->to].state == 1 && !g_thr[s->to].stalled) ? s->to : pickRunnable(t.tid);
    if (to < 0) onViolation(V_DEADLOCK, "every caller is blocked", true);
    record(t.uid, -10 - (long)t.ev, to);
    switchTo(to);
}
static bool simulated() { return g_active && tls().insut; }

// ============================ programs ========================================
static FileCfg* g_files;
static FileStats g_fst;
static Rng g_frng;
struct OpenFile { int file; size_t pos; };
static std::unordered_map<int, OpenFile>* g_open;
void filesBegin(const FileCfg& c) {
    g_files = new FileCfg(c);
    g_open = new std::unordered_map<int, OpenFile>();
    g_frng = Rng(c.seed);
    memset(&g_fst, 0, sizeof g_fst);
}
FileStats filesEnd() {
    delete g_files; delete g_open;
    g_files = nullptr; g_open = nullptr;
    return g_fst;
}
static int simOpen(const char* path, bool writes) {       // -1 with errno set
    size_t k = 0;
    while (k < g_files->files.size() && g_files->files[k].path != path) k++;
    if (k == g_files->files.size()) { g_fst.missing++; errno = ENOENT; return -1; }
    if (writes) { errno = EROFS; return -1; }
    int fd = memfd_create("surfsim", MFD_CLOEXEC);
    const std::string& d = g_files->files[k].data;
    if (fd < 0 || pwrite(fd, d.data(), d.size(), 0) != (ssize_t)d.size()) { fprintf(stderr, "rt: memfd\n"); _exit(2); }
    (*g_open)[fd] = {(int)k, 0};
    g_fst.opened++;
    return fd;
}
static bool simRead(int fd, void* b, size_t n, ssize_t* ret) {
    auto i = g_open->find(fd);
    if (i == g_open->end()) return false;
    const std::string& d = g_files->files[i->second.file].data;
    size_t& pos = i->second.pos;
    if ((g_files->mode & 2) && g_frng.chance(1, 4)) { g_fst.interrupted++; errno = EINTR; *ret = -1; return true; }
    if (g_files->eioAt >= 0 && (long)pos >= g_files->eioAt) { g_fst.errors++; errno = EIO; *ret = -1; return true; }
    size_t m = d.size() - pos;
    if (m > n) m = n;
    if (g_files->eioAt >= 0 && pos + m > (size_t)g_files->eioAt) m = g_files->eioAt - pos;
    if ((g_files->mode & 1) && m > 1 && g_frng.chance(3, 4)) { m = 1 + g_frng.below(g_frng.chance(1, 2) ? (m < 12 ? m : 12) : m); g_fst.shortReads++; }
    __real_memcpy(b, d.data() + pos, m);
    pos += m;
    *ret = (ssize_t)m;
    return true;
}

static std::string* g_printed;
void emitReset() { Out o; delete g_printed; g_printed = new std::string(); }
void emit(const char* s, size_t n) { Out o; if (g_printed && g_printed->size() < 1 << 20) g_printed->append(s, n); }
std::string emitted() { Out o; return g_printed ? *g_printed : std::string(); }

struct Pending { void* (*f)(void*); void* arg; void* ret; bool joined; };
static std::vector<Pending>* g_pend;
static SchedCfg* g_progSched;
static void (*g_progBody)(int);
static size_t g_progRan;
static bool g_lazy;
static size_t g_failAt;
static int g_badJoins;
int badJoins() { int n = g_badJoins; g_badJoins = 0; return n; }
static const uint64_t kHandle = 0x7D00000000ull;
void threadsBegin(const SchedCfg& c, void (*body)(int), bool lazy, int failAt) { g_failAt = failAt < 0 ? ~(size_t)0 : (size_t)failAt; g_lazy = lazy; g_progSched = new SchedCfg(c); g_pend = new std::vector<Pending>(); g_progBody = body; g_progRan = 0; }
int threadsEnd() { int n = (int)g_progRan; delete g_progSched; delete g_pend; g_progSched = nullptr; g_pend = nullptr; return n; }
static __thread void* t_exitValue;
void threadRun(int tid) {
    Pending& p = (*g_pend)[g_progRan + tid - 1];
    t_exitValue = nullptr;
    try { InSut in; p.ret = p.f(p.arg); }
    catch (const ThreadExit&) { p.ret = t_exitValue; }
}

// ============================ coverage ========================================
static unsigned char* g_cov;
static unsigned g_covN, g_covNext;
void coverInit(unsigned char* s, unsigned n) { g_cov = s; g_covN = n; }
unsigned coverCount() { return g_covNext; }

}  // namespace rt

using namespace rt;

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* b, uint32_t* e) {
    for (; b < e; b++) if (!*b) *b = ++g_covNext;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (g_cov && *g < g_covN) g_cov[*g] = 1;
    Tls& t = tls();
    if (t.insut && ++t.edges >= t.budget) {            // a loop that touches no memory
        t.budget = ~0ull;
        Out o;
        onViolation(V_HANG, "no result within the step budget", true);
    }
}

// ---- memory access callbacks inserted by the compiler ----
#define ACC(n) \
    void __tsan_read##n(void* p) { access((uintptr_t)p, n, false); } \
    void __tsan_write##n(void* p) { access((uintptr_t)p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true); } \
    void __tsan_read_write##n(void* p) { access((uintptr_t)p, n, true); } \
    void __tsan_unaligned_read_write##n(void* p) { access((uintptr_t)p, n, true); } \
    void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false); } \
    void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { access((uintptr_t)p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access((uintptr_t)p, n, true); }
static inline void range(const void* p, size_t n, bool wr) {
    { Tls& t = tls(); if (t.insut) t.extra += n >> 4; }
    access((uintptr_t)p, n, wr);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) { range(s, n, false); range(d, n, true); return __real_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { range(s, n, false); range(d, n, true); return __real_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { range(d, n, true); return __real_memset(d, c, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (simulated()) { range(s, n, false); range(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (simulated()) { range(s, n, false); range(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (simulated()) range(d, n, true); return __real_memset(d, c, n); }
static int cmpImpl(const void* a, const void* b, size_t n) {
    // only the bytes up to the first difference count as read
    size_t k = 0;
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    while (k < n && x[k] == y[k]) k++;
    size_t m = k < n ? k + 1 : n;
    if (m) { range(a, m, false); range(b, m, false); }
    return k < n ? (int)x[k] - (int)y[k] : 0;
}
int __wrap_memcmp(const void* a, const void* b, size_t n) { return simulated() ? cmpImpl(a, b, n) : __real_memcmp(a, b, n); }
int __wrap_bcmp(const void* a, const void* b, size_t n) { return simulated() ? cmpImpl(a, b, n) : __real_bcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); if (simulated()) range(s, n + 1, false); return n; }
void* __wrap_memchr(const void* s, int c, size_t n) {
    void* r = __real_memchr(s, c, n);
    if (simulated()) range(s, r ? (char*)r - (char*)s + 1 : n, false);
    return r;
}

// ---- atomics (all treated as acquire+release) ----
static inline void atomicBefore(const volatile void* p, size_t n, bool wr) {
    Tls& t = tls();
    if (!simulated()) return;
    uintptr_t a = (uintptr_t)p;
    if (inArena(a) && !shadowOk(a, n)) badAccess(a, n, wr);
    g_events++; t.ev++;
    if (g_parallel && t.tid) {
        Out o;
        acquire((const void*)p);
        release((const void*)p);
        if (wr) yieldPoint(true);
    }
    if (g_events >= g_nextStop || t.ev >= t.budget || g_events >= g_crashAt) slowEvent();
}
#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { atomicBefore(a, sizeof(T), false); return *a; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { atomicBefore(a, sizeof(T), true); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { atomicBefore(a, sizeof(T), true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { atomicBefore(a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { atomicBefore(a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { atomicBefore(a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { atomicBefore(a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { atomicBefore(a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { atomicBefore(a, sizeof(T), true); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { \
        atomicBefore(a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { \
        atomicBefore(a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { \
        atomicBefore(a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- locks ----
static int lockImpl(void* m, bool tryOnly) {
    Out o;
    if (tls().tid == 0 || !g_parallel) {
        SyncVar& s = sync(m);
        if (s.owner) { if (tryOnly) return EBUSY; blockedOn(m); }
        sync(m).owner = 1 + tls().tid;
        return 0;
    }
    for (;;) {
        SyncVar& s = sync(m);
        if (!s.owner && !s.readers) { s.owner = 1 + tls().tid; acquire(m); return 0; }
        if (tryOnly) return EBUSY;
        blockedOn(m);
    }
}
static int unlockImpl(void* m) {
    Out o;
    SyncVar& s = sync(m);
    if (s.owner) s.owner = 0; else if (s.readers) s.readers--;
    if (g_parallel && tls().tid) { release(m); wakeAll(m); yieldPoint(true); }
    return 0;
}
static int rdlockImpl(void* m, bool tryOnly) {
    Out o;
    for (;;) {
        SyncVar& s = sync(m);
        if (!s.owner) { s.readers++; if (g_parallel && tls().tid) acquire(m); return 0; }
        if (tryOnly) return EBUSY;
        blockedOn(m);
    }
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return simulated() ? lockImpl(m, false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return simulated() ? lockImpl(m, true) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return simulated() ? unlockImpl(m) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return simulated() ? rdlockImpl(m, false) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return simulated() ? lockImpl(m, false) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return simulated() ? rdlockImpl(m, true) : __real_pthread_rwlock_tryrdlock(m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return simulated() ? lockImpl(m, true) : __real_pthread_rwlock_trywrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return simulated() ? unlockImpl(m) : __real_pthread_rwlock_unlock(m); }

static bool onceBegin(void* p) {      // true: the caller must initialise
    Out o;
    for (;;) {
        SyncVar& s = sync(p);
        if (s.init) { if (g_parallel && tls().tid) acquire(p); return false; }
        if (!s.owner) { s.owner = 1 + tls().tid; return true; }
        blockedOn(p, true);
    }
}
static void onceEnd(void* p, bool done) {
    Out o;
    SyncVar& s = sync(p);
    s.owner = 0;
    s.init = done;
    if (g_parallel && tls().tid) { release(p); wakeAll(p); yieldPoint(true); }
}
int __wrap_pthread_once(pthread_once_t* c, void (*f)(void)) {
    if (!simulated()) return __real_pthread_once(c, f);
    if (onceBegin(c)) {
        try { f(); } catch (...) { onceEnd(c, false); throw; }
        onceEnd(c, true);
    }
    return 0;
}
int __wrap___cxa_guard_acquire(uint64_t* g) {
    if (!simulated()) return __real___cxa_guard_acquire(g);
    if (*(volatile char*)g) { Out o; if (g_parallel && tls().tid) acquire(g); return 0; }
    return onceBegin(g) ? 1 : 0;
}
void __wrap___cxa_guard_release(uint64_t* g) {
    if (!simulated()) return __real___cxa_guard_release(g);
    *(volatile char*)g = 1;
    onceEnd(g, true);
}
void __wrap___cxa_guard_abort(uint64_t* g) {
    if (!simulated()) return __real___cxa_guard_abort(g);
    onceEnd(g, false);
}

// ---- clocks, randomness, scheduling calls: the library uses none; a change that does gets simulated ones ----
static uint64_t envRandom() { Out o; return g_erng.next(); }
static void simClock(struct timespec* ts) {
    Out o;
    uint64_t ns = g_clock0 + g_events * 3 + g_slept;
    if (g_erng.below(8) == 0) g_slept += g_erng.below(4) ? g_erng.below(1000000) : g_erng.below(1ull << 40);   // delays and jumps
    ts->tv_sec = ns / 1000000000; ts->tv_nsec = ns % 1000000000;
}
int clock_gettime(clockid_t c, struct timespec* ts) noexcept { if (!simulated()) return (int)syscall(SYS_clock_gettime, c, ts); simClock(ts); return 0; }
int __wrap_gettimeofday(struct timeval* tv, void* z) {
    if (!simulated()) return __real_gettimeofday(tv, z);
    struct timespec ts; simClock(&ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    { Out o; if (g_erng.below(8) == 0) g_back += (long)g_erng.below(g_erng.below(4) ? 3 : 100000); tv->tv_sec = tv->tv_sec > g_back ? tv->tv_sec - g_back : 0; }   // somebody sets it back
    return 0;
}
time_t __wrap_time(time_t* t) {
    if (!simulated()) return __real_time(t);
    struct timespec ts; simClock(&ts); if (t) *t = ts.tv_sec; return ts.tv_sec;
}
int __wrap_rand() { return simulated() ? (int)(envRandom() & 0x7fffffff) : __real_rand(); }
long __wrap_random() { return simulated() ? (long)(envRandom() & 0x7fffffff) : __real_random(); }
pid_t __wrap_getpid() { return simulated() ? (pid_t)(1000 + g_clock0 % 30000) : __real_getpid(); }
static void simYield() {
    Out o;
    if (g_parallel && tls().tid && g_sc.mode != 9) preemptTo(pickOther(tls().tid));
}
static void countEvent() {
    Tls& t = tls();
    g_events++; t.ev++;
    if (g_events >= g_nextStop || t.ev >= t.budget || g_events >= g_crashAt) slowEvent();
}
static int simSleep(uint64_t ns) { countEvent(); { Out o; g_slept += ns; } simYield(); return 0; }
int __wrap_sched_yield() { return simulated() ? simSleep(0) : __real_sched_yield(); }
int __wrap_usleep(unsigned u) { return simulated() ? simSleep(u * 1000ull) : __real_usleep(u); }
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { return simulated() ? simSleep(a->tv_sec * 1000000000ull + a->tv_nsec) : __real_nanosleep(a, b); }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { return simulated() ? simSleep(a->tv_nsec) : __real_clock_nanosleep(c, f, a, b); }

// ---- threads and files of whole programs ----
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) noexcept {
    bool sim = simulated() && g_pend && !g_parallel;
    Out o;
    if (!sim) return REAL(pthread_create)(t, a, f, arg);
    if (g_pend->size() == g_failAt) return EAGAIN;
    g_pend->push_back({f, arg, nullptr, false});
    *t = (pthread_t)(kHandle + g_pend->size());
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    bool sim = simulated() && g_pend;
    Out o;
    if (!sim) return REAL(pthread_join)(t, ret);
    size_t k = (size_t)((uint64_t)t - kHandle);
    if (k < 1 || k > g_pend->size() || (*g_pend)[k - 1].joined) { g_badJoins++; return ESRCH; }
    bool lazy = g_lazy;              // a thread may not get to run before it is waited for
    while (g_progRan < (lazy ? k : g_pend->size())) {
        size_t n = (lazy ? k : g_pend->size()) - g_progRan;
        if (n > (size_t)kMaxThreads - 1) n = kMaxThreads - 1;   // no more at a time than there are simulated threads
        runThreads((int)n, *g_progSched, g_progBody);
        g_progRan += n;
    }
    (*g_pend)[k - 1].joined = true;
    if (ret) *ret = (*g_pend)[k - 1].ret;
    return 0;
}
int pthread_detach(pthread_t t) noexcept { bool sim = simulated() && g_pend; Out o; return sim ? 0 : REAL(pthread_detach)(t); }
void pthread_exit(void* v) {
    if (!g_pend || !simulated()) REAL(pthread_exit)(v);
    t_exitValue = v;
    throw ThreadExit();
}
static bool simFiles() { return g_files && simulated(); }
FILE* fopen(const char* path, const char* mode) {
    bool sim = simFiles() && path[0] != '/';
    Out o;
    if (!sim) return REAL(fopen)(path, mode);
    int fd = simOpen(path, strpbrk(mode, "wa+"));
    return fd < 0 ? nullptr : fdopen(fd, "r");
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
int open(const char* path, int flags, ...) {
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
    if (!simFiles() || path[0] == '/') return (int)syscall(SYS_openat, AT_FDCWD, path, flags, m);
    Out o;
    return simOpen(path, (flags & O_ACCMODE) != O_RDONLY);
}
int open64(const char* path, int flags, ...) {
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
    return open(path, flags, m);
}
ssize_t read(int fd, void* b, size_t n) {
    if (simFiles()) { Out o; ssize_t r; if (simRead(fd, b, n, &r)) return r; }
    ssize_t r = syscall(SYS_read, fd, b, n);
    return r;
}

// ---- C allocation ----
void* __wrap_malloc(size_t n) {
    if (!simulated()) return __real_malloc(n);
    Out o;
    return failNow(o.t) ? nullptr : arenaAlloc(n, 3);
}
void* __wrap_calloc(size_t a, size_t b) {
    if (!simulated()) return __real_calloc(a, b);
    Out o;
    if (failNow(o.t)) return nullptr;
    void* p = arenaAlloc(a * b, 3);
    __real_memset(p, 0, a * b);
    return p;
}
void* __wrap_realloc(void* p, size_t n) {
    if (p ? !inArena((uintptr_t)p) : !simulated()) return __real_realloc(p, n);
    Out o;
    if (failNow(o.t)) return nullptr;
    void* q = arenaAlloc(n, 3);
    if (p) {
        uint32_t bi = g_blockAt[((uintptr_t)p - kBase) / 16];
        size_t old = bi ? g_blocks[bi - 1].size : 0;
        __real_memcpy(q, p, old < n ? old : n);
        arenaFree(p, 3);
    }
    return q;
}
void __wrap_free(void* p) {
    if (!p) return;
    if (!inArena((uintptr_t)p)) { __real_free(p); return; }
    Out o;
    arenaFree(p, 3);
}
int __wrap_posix_memalign(void** r, size_t al, size_t n) {
    if (!simulated()) return __real_posix_memalign(r, al, n);
    Out o;
    if (failNow(o.t)) return ENOMEM;
    *r = arenaAlloc(n, 3, al);
    return 0;
}
void* __wrap_aligned_alloc(size_t al, size_t n) {
    if (!simulated()) return __real_aligned_alloc(al, n);
    Out o;
    return failNow(o.t) ? nullptr : arenaAlloc(n, 3, al);
}

void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
    Out o;
    const char* b = strrchr(f, '/');
    (void)l; (void)fn;
    onViolation(V_ASSERT, std::string("assertion failed in ") + (b ? b + 1 : f) + ": " + e, true);
    _exit(3);
}
}

void* operator new(size_t n) { return simNew(n, 1, false); }
void* operator new[](size_t n) { return simNew(n, 2, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simNew(n, 1, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simNew(n, 2, true); }
void* operator new(size_t n, std::align_val_t a) { return simNew(n, 1, false, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return simNew(n, 2, false, (size_t)a); }
void operator delete(void* p) noexcept { simDelete(p, 1); }
void operator delete[](void* p) noexcept { simDelete(p, 2); }
void operator delete(void* p, size_t) noexcept { simDelete(p, 1); }
void operator delete[](void* p, size_t) noexcept { simDelete(p, 2); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simDelete(p, 1); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simDelete(p, 2); }
void operator delete(void* p, std::align_val_t) noexcept { simDelete(p, 1); }
void operator delete[](void* p, std::align_val_t) noexcept { simDelete(p, 2); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { simDelete(p, 1); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { simDelete(p, 2); }
