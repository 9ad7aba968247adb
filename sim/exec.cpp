#include "exec.h"

#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <set>
#include <map>
#include <math.h>

const char* kCounterNames[C_N] = {
    "space_checks", "integer_conversions", "benchmark_filters", "builders_checked", "builder_labels", "vectors_built", "vector_questions", "programs_run", "program_threads", "key_files_read", "short_reads", "interrupted_reads", "read_errors", "missing_files", "threads_not_created", "metered_calls", "ops", "lookups", "range_queries", "seeks", "steps", "position_reports", "counts", "builds", "restores", "images",
    "absent_key_probes", "destroys", "events", "allocations", "alloc_failures_injected", "calls_correct_despite_alloc_failure",
    "process_crashes", "crashes_during_save", "disk_io_errors", "disk_full", "disk_short_writes", "torn_sector_writes",
    "lost_unsynced_writes", "unsynced_writes_persisted", "images_recovered_after_restart", "old_image_recovered",
    "unaligned_placements", "scribbled_buffers", "freed_buffers", "heap_contents_randomised", "heap_reuse_runs",
    "parallel_phases", "context_switches", "preemptions", "stalled_callers", "race_checked_accesses", "race_checks_dropped",
    "positive_for_absent", "flagged_positions", "stepped_past_end", "process_incarnations", "aborted_incarnations", "positions_reassigned"};

static Shared* S;
static const Plan* P;
static int g_inc;

enum : uint32_t {
    P01 = 1u << 0, P02 = 1u << 1, P03 = 1u << 2, P04 = 1u << 3, P05 = 1u << 4, P06 = 1u << 5, P07 = 1u << 6, P08 = 1u << 7,
    P09 = 1u << 8, P10 = 1u << 9, P11 = 1u << 10, P12 = 1u << 11, P13 = 1u << 12, P14 = 1u << 13, P15 = 1u << 14, P16 = 1u << 15, P17 = 1u << 16, P18 = 1u << 17, P19 = 1u << 18, PALL = (1u << 13) - 1
};
uint32_t propBit(const std::string& id) { return 1u << (atoi(id.c_str() + 1) - 1); }
std::string maskNames(uint32_t m) {
    std::string s;
    for (int i = 0; i < 19; i++) if (m >> i & 1) { char b[8]; snprintf(b, 8, "%sP%02d", s.empty() ? "" : "+", i + 1); s += b; }
    return s;
}

void execInit() {
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); _exit(2); }
}

static inline void fold(uint64_t v) { S->result = (S->result ^ v) * 1099511628211ull + 0x9E37; }
static uint64_t hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h ^ (s.size() << 1);
}

// ---------------------------------------------------------------- violations --
struct Concrete { int kind = -1, less = 0, inc = 0, inc2 = 0; const std::string* s = nullptr; const std::string* t = nullptr; };
struct ThreadCtx { Concrete c; const Op* op = nullptr; uint64_t resHash = 0; bool oomNow = false; };
static ThreadCtx g_ctx[rt::kMaxThreads];
static ThreadCtx& ctx() { return g_ctx[rt::currentTid()]; }

static uint32_t kindMask(int kind) {
    switch (kind) {
    case K_LOOKUP: case K_PROBE: return P01 | P03;
    case K_RANGE: return P02 | P03;
    case K_SEEK: return P04;
    case K_END: case K_STEP: case K_WALK: return P05;
    case K_SHOW: return P12;
    case K_COUNT: case K_COUNTIT: return P06;
    case K_COPYIT: case K_ASSIGN: case K_DROPIT: case K_CLEARIT: return P05 | P11;
    case K_BUILD: return PALL & ~(P09 | P10);
    case K_IMG: case K_SER: return P07 | P08;
    case K_DESER: case K_LOAD: case K_SAVE: return P07;
    case K_SIZES: return P07;
    case K_DIFF: return P07;
    case K_DESTROY: case K_CYCLE: return P11;
    case K_SPACE: return P13;
    case K_INTS: return P14;
    case K_BENCH: return P16;
    case K_PARTS: return P17;
    case K_TRIE: return P19;
    case K_KEYS: case K_PROG: return P18;
    default: return 0;
    }
}

static void addViol(int cls, uint32_t mask, const char* f, ...) {
    char b[420];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    ThreadCtx& t = ctx();
    int uid = t.op ? t.op->uid : -1;
    fold(cls * 1000003ull + mask);
    for (int i = 0; i < S->nviol; i++)
        if (S->viol[i].cls == cls && S->viol[i].uid == uid && S->viol[i].mask == mask) return;
    if (S->nviol >= kMaxViol) return;
    Viol& v = S->viol[S->nviol];
    memset(&v, 0, sizeof v);
    v.cls = cls; v.uid = uid; v.kind = t.op ? t.op->kind : -1; v.mask = mask;
    v.ckind = t.c.kind; v.c_less = t.c.less; v.c_inc = t.c.inc; v.c_inc2 = t.c.inc2;
    if (t.c.s && hex(*t.c.s).size() < sizeof v.cs) strcpy(v.cs, hex(*t.c.s).c_str());
    if (t.c.t && hex(*t.c.t).size() < sizeof v.ct) strcpy(v.ct, hex(*t.c.t).c_str());
    strcpy(v.detail, b);
    S->nviol++;
}

// abnormal end of the current operation: what it means for the properties
static uint32_t abnormalMask(int kind, int ckind, bool parallel, bool oom) {
    if (oom) return P10;
    uint32_t m = kindMask(ckind >= 0 ? ckind : kind);
    if (ckind >= 0 && kind == K_DIFF) m |= P07;
    if (!m) m = P11;
    if (parallel) m |= P09;
    return m;
}

namespace rt {
void onViolation(int cls, const std::string& d, bool fatal) {
    ThreadCtx& t = ctx();
    int kind = t.op ? t.op->kind : -1;
    bool par = S->parallelNow;
    uint32_t m = 0;
    switch (cls) {
    case V_RACE: m = P09 | (kind == K_PROG ? P18 : kind == K_TRIE ? P19 : 0); break;
    case V_DEADLOCK: m = P09 | P15 | (par ? 0 : abnormalMask(kind, t.c.kind, false, t.oomNow)); break;
    case V_HANG: m = abnormalMask(kind, t.c.kind, par, t.oomNow) | P15; break;
    case V_OOB: case V_BADFREE: m = P11 | (t.oomNow ? P10 : 0); break;
    default: m = abnormalMask(kind, t.c.kind, par, t.oomNow); break;
    }
    addViol(cls, m, "%s%s", d.c_str(), t.oomNow ? " (call with an injected allocation failure)" : "");
    if (fatal) { S->done = 2; _exit(0); }
}
}

// -------------------------------------------------------------------- tables --
struct Filter { void* f = nullptr; std::shared_ptr<Model> m; int ks = -1, cfg = -1; bool restored = false; void* keep = nullptr; uint64_t held = 0; uint64_t sizes[4] = {0, 0, 0, 0}; };
struct Pos { void* it = nullptr; int filter = -1; int at = -1; bool valid = false; };
struct Img { std::string bytes; int ks, cfg; };
static std::map<int, Filter> g_f;
static std::map<int, Pos> g_it;
static std::map<int, Img> g_img;
static std::map<std::pair<int, int>, std::shared_ptr<Model>> g_models;
static std::vector<int> g_canon;               // key set -> first key set with the same distinct keys
static std::vector<int> g_canonCfg;

static std::shared_ptr<Model> modelOf(int ks, int cfg) {
    auto& m = g_models[{ks, cfg}];
    if (!m) m = std::make_shared<Model>(P->ks[ks].keys, P->cfg[cfg]);
    return m;
}
static Filter* filt(long id) { auto i = g_f.find((int)id); return i == g_f.end() || !i->second.f ? nullptr : &i->second; }
static Pos* pos(long id) { auto i = g_it.find((int)id); return i == g_it.end() || !i->second.it || !filt(i->second.filter) ? nullptr : &i->second; }

static std::string sh(const std::string& s) {
    std::string h = hex(s);
    if (h.size() > 80) h = h.substr(0, 76) + "...";
    return h;
}
static void obs(uint64_t v) { ctx().resHash = (ctx().resHash ^ v) * 1099511628211ull + 1; }

// Result of a call that may have failed to allocate. Returns true if the result counts.
static bool okay(int rc, int kindForExc) {
    ThreadCtx& t = ctx();
    if (rc == S_OK) return true;
    if (rc == S_OOM && t.oomNow) { obs(0x0031); return false; }
    addViol(rt::V_EXC, abnormalMask(t.op ? t.op->kind : -1, kindForExc, S->parallelNow, t.oomNow),
            rc == S_OOM ? "allocation error reported although no allocation failed" : "unexpected exception out of %s", kindName(kindForExc));
    return false;
}
static uint32_t oomBit() { return ctx().oomNow ? P10 : 0; }

static void setC(int kind, const std::string* s = nullptr, const std::string* t = nullptr, int less = 0, int inc = 0, int inc2 = 0) {
    Concrete& c = ctx().c;
    c.kind = kind; c.s = s; c.t = t; c.less = less; c.inc = inc; c.inc2 = inc2;
}

// ------------------------------------------------------------ simulated time --
// The work of a call (memory accesses of this caller plus 16-byte pieces of block moves) is bounded
// by the levels it may pass and the size of nodes there, never by the number of keys.
enum { W_POINT, W_RANGE, W_SEEK, W_STEP, W_COUNT, W_BUILD, W_SAVE, W_MEM };
static void work(Filter& F, int what, uint64_t levels) {
    uint64_t w = rt::lastWork();
    S->cnt[C_METERED]++;
    uint64_t in65, in1, H = F.sizes[0] + 2;
    F.m->spread((unsigned)F.sizes[1], &in65, &in1);
    // one level: ranks over a block, a select over at most 64 nodes, a label search in one node
    double level = 90 + 4.0 * (in65 / 64 + 2) + in1, allowed = 0;
    double bytes = 3.0 * levels;                         // a hash reads the whole key; keys are copied
    levels = std::min<uint64_t>(levels, H) + 2;
    switch (what) {
    case W_POINT: allowed = 300 + levels * level + bytes; break;
    case W_STEP: allowed = 300 + H * (level + 10); break;
    case W_SEEK: case W_RANGE: allowed = 800 + H * ((what == W_SEEK ? 3 : 2) * level + 40) + bytes; break;
    case W_COUNT: allowed = 1200 + H * (5 * level + 100) + bytes; break;
    }
    double share = w / allowed;
    if (share > S->workMax[what]) S->workMax[what] = share;
    if (share > 1) addViol(rt::V_WRONG, P15 | oomBit(), "the call took %llu memory accesses, allowed are %.0f for a filter of %llu levels (%d keys)", (unsigned long long)w, allowed,
                           (unsigned long long)F.sizes[0], F.m->n());
}

// -------------------------------------------------------------- single calls --
struct ProbeStat { uint64_t m = 0, pos = 0; };

static int doLookup(Filter& F, const std::string& q, uint32_t extra, ProbeStat* ps = nullptr) {
    setC(K_LOOKUP, &q);
    S->cnt[C_LOOKUP]++;
    int r = -1;
    if (!okay(sut_lookup(F.f, q, &r), K_LOOKUP)) return -1;
    work(F, W_POINT, q.size());
    obs(r);
    Model& M = *F.m;
    int lo = M.lower(q);
    bool stored = lo < M.n() && M.K[lo] == q;
    if (stored) {
        if (!r) addViol(rt::V_WRONG, P01 | extra | oomBit(), "point query for stored key %s returned false%s", sh(q).c_str(), F.restored ? " (restored filter)" : "");
    } else {
        int c = M.coveredBy(q);
        if (r) {
            S->cnt[C_POSITIVE_ABSENT]++;
            if (c < 0) addViol(rt::V_WRONG, P03 | extra | oomBit(), "point query for %s returned true although no stored key's kept information agrees with it", sh(q).c_str());
        }
        if (ps && c >= 0 && M.hl) { ps->m++; ps->pos += r ? 1 : 0; }
    }
    return r;
}
static int doRange(Filter& F, const std::string& l, bool li, const std::string& r, bool ri, uint32_t extra) {
    setC(K_RANGE, &l, &r, 0, li, ri);
    S->cnt[C_RANGE]++;
    int out = -1;
    if (!okay(sut_range(F.f, l, li, r, ri, &out), K_RANGE)) return -1;
    work(F, W_RANGE, l.size() + r.size());
    obs(out);
    Model& M = *F.m;
    int a = li ? M.lower(l) : M.upper(l), b = ri ? M.upper(r) : M.lower(r);
    if (a < b) {
        if (!out) addViol(rt::V_WRONG, P02 | extra | oomBit(), "range query %c%s, %s%c returned false although %s is stored%s", li ? '[' : '(', sh(l).c_str(), sh(r).c_str(),
                          ri ? ']' : ')', sh(M.K[a]).c_str(), F.restored ? " (restored filter)" : "");
    } else if (out) {
        S->cnt[C_POSITIVE_ABSENT]++;
        bool expl = false;
        int x = M.lower(l);
        for (int i = std::max(0, x - 2); i < M.n() && i <= x + 2; i++)
            if (M.canBeGE(i, l) && M.canBeLE(i, r)) expl = true;
        if (!expl) addViol(rt::V_WRONG, P03 | extra | oomBit(), "range query %c%s, %s%c returned true although no stored key's kept information fits", li ? '[' : '(',
                           sh(l).c_str(), sh(r).c_str(), ri ? ']' : ')');
    }
    return out;
}
static long doCount(Filter& F, const std::string& l, const std::string& r, uint32_t extra) {
    setC(K_COUNT, &l, &r);
    S->cnt[C_COUNT]++;
    uint64_t n = 0;
    if (!okay(sut_count(F.f, l, r, &n), K_COUNT)) return -1;
    work(F, W_COUNT, l.size() + r.size());
    obs(n);
    Model& M = *F.m;
    long t = M.upper(r) - M.lower(l);
    if (t < 0) t = 0;
    if ((long)n > t || (long)n < t - 2)
        addViol(rt::V_WRONG, P06 | extra | oomBit(), "count of [%s, %s] is %llu, %ld keys are stored there", sh(l).c_str(), sh(r).c_str(), (unsigned long long)n, t);
    return n;
}
// Reads the position and finds the stored key it stands for. at = -1: not a stored key.
static bool readPos(void* it, Model& M, ItInfo* info, int* at, int kindForExc) {
    if (!okay(sut_info(it, info), kindForExc)) return false;
    obs(info->valid);
    *at = -1;
    if (info->valid) {
        obs(hashStr(info->key));
        auto i = M.byT.find(info->key);
        if (i != M.byT.end()) *at = i->second;
    }
    return true;
}
static void checkShow(void* it, Filter& F, int at, const std::string* q, uint32_t extra) {
    Model& M = *F.m;
    setC(K_SHOW, q);
    S->cnt[C_SHOW]++;
    int len = -1; uint64_t bits = 0; std::string kws; unsigned bl = 99;
    if (!okay(sut_suffix(it, &len, &bits, &kws, &bl), K_SHOW)) return;
    obs(len); obs(bits); obs(hashStr(kws)); obs(bl);
    const std::string& K = M.K[at];
    uint64_t rb = M.realBits(at);
    uint32_t m = P12 | extra | oomBit();
    if (bits != rb) addViol(rt::V_WRONG, m, "suffix of the position at %s is reported as %llx, stored bits are %llx", sh(K).c_str(), (unsigned long long)bits, (unsigned long long)rb);
    else if (rb && len != (int)M.rl) addViol(rt::V_WRONG, m, "suffix length of the position at %s is reported as %d, it is %u", sh(K).c_str(), len, M.rl);
    std::string want = M.T(at);
    unsigned wantBl = 0;
    if (rb) {
        unsigned nb = (M.bits[at] + 7) / 8;
        want = K.substr(0, nb);
        wantBl = M.rl % 8;
        if (wantBl) want[nb - 1] = (char)((unsigned char)want[nb - 1] & (0xFF << (8 - wantBl)));
    }
    if (kws != want || bl != wantBl)
        addViol(rt::V_WRONG, m, "key with suffix at %s is %s with %u bits in the last byte, kept is %s with %u", sh(K).c_str(), sh(kws).c_str(), bl, sh(want).c_str(), wantBl);
    if (q) {
        int c = 0;
        if (!okay(sut_compare(it, *q, &c), K_SHOW)) return;
        obs(c == 2018 ? 7 : c < 0 ? 1 : c > 0 ? 2 : 3);
        if (c != 2018 && c < 0 && !(K < *q)) addViol(rt::V_WRONG, m, "position at %s compares less than %s", sh(K).c_str(), sh(*q).c_str());
        if (c != 2018 && c > 0 && !(K > *q)) addViol(rt::V_WRONG, m, "position at %s compares greater than %s", sh(K).c_str(), sh(*q).c_str());
        if ((c == 2018 || c == 0) && M.decided(at, *q) != 0)
            addViol(rt::V_WRONG, m, "position at %s leaves open how it compares with %s, although what is kept of its key decides it", sh(K).c_str(), sh(*q).c_str());
    }
}
// A seek; returns the position (caller drops it) and where it is.
static bool doSeek(Filter& F, bool less, const std::string& q, bool inc, uint32_t extra, Pos* out, int how = 0) {
    setC(K_SEEK, &q, nullptr, less, inc);
    S->cnt[C_SEEK]++;
    if (!how) out->it = nullptr;
    if (!okay(sut_seek(F.f, less, q, inc, &out->it, how), K_SEEK)) return false;
    work(F, W_SEEK, q.size());
    Model& M = *F.m;
    ItInfo in; int at;
    if (!readPos(out->it, M, &in, &at, K_SEEK)) return false;
    obs(in.flag);
    if (in.flag) S->cnt[C_FLAGGED]++;
    uint32_t m = P04 | extra | oomBit();
    int want = !less ? (inc ? M.lower(q) : M.upper(q)) : (inc ? M.upper(q) : M.lower(q)) - 1;
    const char* nm = less ? (inc ? "last <= " : "last < ") : (inc ? "first >= " : "first > ");
    std::string w = want >= 0 && want < M.n() ? sh(M.K[want]) : std::string("nothing");
    out->valid = in.valid;
    out->at = at;
    if (!in.valid) {
        if (want >= 0 && want < M.n()) addViol(rt::V_WRONG, m, "seek %s%s finds nothing, expected %s", nm, sh(q).c_str(), w.c_str());
        return true;
    }
    if (at < 0) {
        addViol(rt::V_WRONG, m | P12, "seek %s%s stops at %s, which is not a stored prefix", nm, sh(q).c_str(), sh(in.key).c_str());
        out->valid = false;
        return true;
    }
    int near = less ? want + 1 : want - 1;
    if (at == want) {
        if (in.flag && !M.consistent(at, q))
            addViol(rt::V_WRONG, m, "seek %s%s is flagged as a possible false positive at %s, whose kept information excludes it", nm, sh(q).c_str(), sh(M.K[at]).c_str());
    } else if (at == near && M.consistent(at, q)) {
        if (!in.flag) addViol(rt::V_WRONG, m, "seek %s%s stops at %s instead of %s without the false-positive flag", nm, sh(q).c_str(), sh(M.K[at]).c_str(), w.c_str());
    } else
        addViol(rt::V_WRONG, m, "seek %s%s stops at %s, expected %s", nm, sh(q).c_str(), sh(M.K[at]).c_str(), w.c_str());
    return true;
}
static void dropPos(Pos& p) { if (p.it) { okay(sut_drop(p.it), K_DROPIT); p.it = nullptr; } }

// One step; p.at is updated. Returns false if the position cannot be used any more.
static bool doStep(Pos& p, Filter& F, bool fwd, uint32_t extra) {
    setC(K_STEP, nullptr, nullptr, !fwd);
    S->cnt[C_STEP]++;
    Model& M = *F.m;
    int ret = -1;
    if (!okay(sut_step(p.it, fwd, &ret), K_STEP)) return false;
    work(F, W_STEP, 0);
    ItInfo in; int at;
    if (!readPos(p.it, M, &in, &at, K_STEP)) return false;
    uint32_t m = P05 | extra | oomBit();
    int from = p.at;
    if (!p.valid) {
        S->cnt[C_WRAP]++;
        if (in.valid) { addViol(rt::V_WRONG, m, "a step %s past the end made the position valid again", fwd ? "forward" : "backward"); return false; }
        return true;
    }
    int want = from + (fwd ? 1 : -1);
    bool wantValid = want >= 0 && want < M.n();
    if ((ret != 0) != (in.valid != 0)) { addViol(rt::V_WRONG, m, "a step returned %d but the position is %s", ret, in.valid ? "valid" : "invalid"); return false; }
    if (wantValid != (in.valid != 0)) {
        addViol(rt::V_WRONG, m, "a step %s from %s makes the position %s, expected %s", fwd ? "forward" : "backward", sh(M.K[from]).c_str(), in.valid ? "valid" : "invalid",
                wantValid ? sh(M.K[want]).c_str() : "the end");
        return false;
    }
    if (in.valid && at != want) {
        addViol(rt::V_WRONG, m | (at < 0 ? P12 : 0), "a step %s from %s leads to %s, expected %s", fwd ? "forward" : "backward", sh(M.K[from]).c_str(), sh(in.key).c_str(), sh(M.T(want)).c_str());
        return false;
    }
    p.valid = in.valid;
    p.at = want;
    return true;
}
static bool doEnd(Filter& F, bool last, uint32_t extra, Pos* p, int how = 0) {
    setC(K_END, nullptr, nullptr, last);
    if (!how) p->it = nullptr;
    if (!okay(sut_end(F.f, last, &p->it, how), K_END)) return false;
    work(F, W_SEEK, 0);
    ItInfo in; int at;
    Model& M = *F.m;
    if (!readPos(p->it, M, &in, &at, K_END)) return false;
    int want = last ? M.n() - 1 : 0;
    p->valid = in.valid; p->at = at;
    if (!in.valid || at != want) {
        addViol(rt::V_WRONG, P05 | (in.valid && at < 0 ? P12 : 0) | extra | oomBit(), "%s position is %s, expected %s", last ? "last" : "first", in.valid ? sh(in.key).c_str() : "invalid", sh(M.K[want]).c_str());
        p->valid = false;
    }
    return p->valid;
}
static void doImage(Filter& F, bool record) {
    setC(K_IMG);
    S->cnt[C_IMAGE]++;
    std::string a, b; uint64_t n = 0, n2 = 0;
    if (!okay(sut_serialize(F.f, &a, &n), K_IMG)) return;
    if (!okay(sut_serialize(F.f, &b, &n2), K_IMG)) return;
    obs(hashStr(a)); obs(n);
    uint32_t m = P08 | oomBit();
    if (n != n2 || a != b) {
        size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
        addViol(rt::V_IMAGE, m, "saving the same filter twice gives images that differ at byte %zu of %llu", i, (unsigned long long)n);
        return;
    }
    uint64_t h = hashStr(a);
    for (int i = 0; i < S->nimg; i++)
        if (S->img[i].ks == F.ks && S->img[i].cfg == F.cfg) {
            if (S->img[i].hash != h || S->img[i].size != n)
                addViol(rt::V_IMAGE, m | (F.restored ? P07 : 0), "image of %s filter differs from an earlier image of the same keys and configuration (%llu bytes, earlier %llu)",
                        F.restored ? "a restored" : "a freshly built", (unsigned long long)n, (unsigned long long)S->img[i].size);
            return;
        }
    if (record && S->nimg < 64) S->img[S->nimg++] = {F.ks, F.cfg, h, n};
}

// --------------------------------------------------------------- bulk calls --
static void bulkQuery(Filter& F, uint64_t seed, long from, long count) {
    Model& M = *F.m;
    for (long i = from; i < from + count; i++) {
        rt::Rng r(rt::mix(seed, i));
        std::string q = queryKey(r, M.K);
        static const int kindOf[8] = {-1, -1, -1, -1, 0, 2, 5, 4};
        int kind = kindOf[seed & 7];
        if (kind < 0 || r.chance(1, 20)) kind = (int)r.below(8);
        switch (kind) {
        case 0: case 1: doLookup(F, q, 0); break;
        case 2: case 3: {
            std::string t = q;
            switch (r.below(5)) {
            case 0: t = queryKey(r, M.K); break;
            case 1: case 2: t = mutateKey(r, q); break;
            default: {                     // the other bound next to a stored neighbour
                int i = M.lower(q) - 2 + (int)r.below(5);
                t = mutateKey(r, M.K[i < 0 ? 0 : i >= M.n() ? M.n() - 1 : i]);
            }
            }
            if (t < q) std::swap(q, t);
            bool li = r.chance(1, 2), ri = r.chance(1, 2);
            doRange(F, q, li, t, ri, 0);
            break;
        }
        case 4: {
            std::string t = queryKey(r, M.K);
            if (t < q) std::swap(q, t);
            doCount(F, q, t, 0);
            break;
        }
        default: {
            Pos p;
            bool less = r.chance(1, 2), inc = r.chance(1, 2);
            if (doSeek(F, less, q, inc, 0, &p) && p.valid) {
                if (r.chance(1, 2)) { std::string c = queryKey(r, M.K); checkShow(p.it, F, p.at, &c, 0); }
                int k = (int)r.below(5);
                bool f = r.chance(1, 2);
                for (int s = 0; s < k; s++) { if (r.chance(1, 3)) f = !f; if (!doStep(p, F, f, 0)) break; }
            }
            dropPos(p);
        }
        }
        ctx().c = Concrete();
    }
}
static double logTail(uint64_t m, uint64_t k, double p) {   // log P(X >= k), X ~ Bin(m,p), upper bound (Chernoff)
    double x = (double)k / m;
    if (x <= p) return 0;
    if (x >= 1) return m * log(p);
    return -(double)m * (x * log(x / p) + (1 - x) * log((1 - x) / (1 - p)));
}
static void probeAbsent(Filter& F, uint64_t seed, long from, long count) {
    Model& M = *F.m;
    ProbeStat ps;
    for (long i = from; i < from + count; i++) {
        rt::Rng r(rt::mix(seed, i));
        int k = (int)r.below(M.n());
        std::string q = M.T(k);
        if (M.term[k]) q += (char)r.below(256);
        unsigned extra = (unsigned)r.below(12);
        for (unsigned j = 0; j < extra; j++) q += (char)r.below(256);
        if (r.chance(1, 4) && q.size() < M.K[k].size()) {           // the stored key with one later bit flipped
            q = M.K[k];
            size_t at = M.tlen[k] + r.below(q.size() - M.tlen[k]);
            q[at] = (char)(q[at] ^ (1 << r.below(8)));
        }
        S->cnt[C_PROBE]++;
        doLookup(F, q, 0, &ps);
        if (r.chance(1, 4)) doRange(F, q, true, q, true, 0);
        ctx().c = Concrete();
    }
    if (ps.m >= 8 && M.hl >= 1) {
        double p = pow(0.5, std::min(M.hl, 25u));
        if (logTail(ps.m, ps.pos, p) < -34)
            addViol(rt::V_WRONG, P03, "%llu of %llu absent keys pass a hash suffix of %u bits", (unsigned long long)ps.pos, (unsigned long long)ps.m, M.hl);
    }
}
static void sweep(Filter& F) {
    Model& M = *F.m;
    Pos p;
    if (doEnd(F, false, 0, &p)) {
        while (p.valid) {
            if (p.at % 7 == 0) checkShow(p.it, F, p.at, &M.K[p.at], 0);
            if (!doStep(p, F, true, 0)) break;
        }
    }
    dropPos(p);
    if (doEnd(F, true, 0, &p)) while (p.valid) if (!doStep(p, F, false, 0)) break;
    dropPos(p);
    for (int i = 0; i < M.n(); i++) doLookup(F, M.K[i], 0);
    ctx().c = Concrete();
}
static void diff(Filter& A, Filter& B, uint64_t seed, long count) {   // A restored, B fresh (or the other way round)
    if (A.ks != B.ks || A.cfg != B.cfg) return;
    Model& M = *A.m;
    uint64_t sa[4], sb[4];
    setC(K_SIZES);
    if (!okay(sut_sizes(A.f, sa), K_SIZES) || !okay(sut_sizes(B.f, sb), K_SIZES)) return;
    for (int i = 0; i < 4; i++) obs(sa[i]);
    static const char* nm[4] = {"height", "sparse start level", "serialized size", "memory use"};
    for (int i = 0; i < 4; i++)
        if (sa[i] != sb[i]) addViol(rt::V_WRONG, P07, "restored filter reports %s %llu, the fresh one %llu", nm[i], (unsigned long long)sa[i], (unsigned long long)sb[i]);
    for (long i = 0; i < count; i++) {
        rt::Rng r(rt::mix(seed, i));
        std::string q = queryKey(r, M.K), t = queryKey(r, M.K);
        int la = -1, lb = -1;
        setC(K_LOOKUP, &q);
        S->cnt[C_LOOKUP] += 2;
        if (!okay(sut_lookup(A.f, q, &la), K_LOOKUP) || !okay(sut_lookup(B.f, q, &lb), K_LOOKUP)) return;
        obs(la);
        if (la != lb) addViol(rt::V_WRONG, P07, "point query for %s: restored filter says %d, fresh filter %d", sh(q).c_str(), la, lb);
        bool less = r.chance(1, 2), inc = r.chance(1, 2);
        setC(K_SEEK, &q, nullptr, less, inc);
        void *ia = nullptr, *ib = nullptr;
        S->cnt[C_SEEK] += 2;
        if (!okay(sut_seek(A.f, less, q, inc, &ia), K_SEEK)) return;
        if (!okay(sut_seek(B.f, less, q, inc, &ib), K_SEEK)) return;
        for (int s = 0; s < 3; s++) {
            ItInfo a, b;
            if (!okay(sut_info(ia, &a), K_SEEK) || !okay(sut_info(ib, &b), K_SEEK)) return;
            obs(a.valid); obs(hashStr(a.key));
            if (a.valid != b.valid || a.key != b.key || (s == 0 && a.flag != b.flag)) {
                addViol(rt::V_WRONG, P07, "seek %s%s%s then %d steps: restored filter at %s flag %d, fresh filter at %s flag %d", less ? "<" : ">", inc ? "=" : "", sh(q).c_str(), s,
                        a.valid ? sh(a.key).c_str() : "end", a.flag, b.valid ? sh(b.key).c_str() : "end", b.flag);
                break;
            }
            if (!a.valid) break;
            int l1 = 0, l2 = 0; uint64_t b1 = 0, b2 = 0; std::string k1, k2; unsigned x1 = 0, x2 = 0;
            if (!okay(sut_suffix(ia, &l1, &b1, &k1, &x1), K_SHOW) || !okay(sut_suffix(ib, &l2, &b2, &k2, &x2), K_SHOW)) return;
            if (l1 != l2 || b1 != b2 || k1 != k2 || x1 != x2) {
                addViol(rt::V_WRONG, P07, "position at %s: restored filter reports suffix %llx, fresh filter %llx", sh(a.key).c_str(), (unsigned long long)b1, (unsigned long long)b2);
                break;
            }
            int c1 = 0, c2 = 0;
            if (!okay(sut_compare(ia, t, &c1), K_SHOW) || !okay(sut_compare(ib, t, &c2), K_SHOW)) return;
            if (c1 != c2) { addViol(rt::V_WRONG, P07, "position at %s compared with %s: restored %d, fresh %d", sh(a.key).c_str(), sh(t).c_str(), c1, c2); break; }
            bool f = r.chance(1, 2);
            int r1, r2;
            if (!okay(sut_step(ia, f, &r1), K_STEP) || !okay(sut_step(ib, f, &r2), K_STEP)) return;
        }
        okay(sut_drop(ia), K_DROPIT); okay(sut_drop(ib), K_DROPIT);
        if (t < q) std::swap(q, t);
        bool li = r.chance(1, 2), ri = r.chance(1, 2);
        setC(K_RANGE, &q, &t, 0, li, ri);
        S->cnt[C_RANGE] += 2;
        if (!okay(sut_range(A.f, q, li, t, ri, &la), K_RANGE) || !okay(sut_range(B.f, q, li, t, ri, &lb), K_RANGE)) return;
        if (la != lb) addViol(rt::V_WRONG, P07, "range query %s..%s: restored filter says %d, fresh filter %d", sh(q).c_str(), sh(t).c_str(), la, lb);
        setC(K_COUNT, &q, &t);
        uint64_t ca = 0, cb = 0;
        S->cnt[C_COUNT] += 2;
        if (!okay(sut_count(A.f, q, t, &ca), K_COUNT) || !okay(sut_count(B.f, q, t, &cb), K_COUNT)) return;
        if (ca != cb) addViol(rt::V_WRONG, P07, "count %s..%s: restored filter says %llu, fresh filter %llu", sh(q).c_str(), sh(t).c_str(), (unsigned long long)ca, (unsigned long long)cb);
        ctx().c = Concrete();
    }
}

// ------------------------------------------------------------ simulated disk --
// Storage stub around the library: files 0..2 hold images, file 4 is the temporary.
// A crash keeps any subset of the unsynced sectors, some of them torn.
static const uint32_t kSector = 64;
static void doCrash() {
    S->cnt[C_CRASH]++;
    if (S->saving) S->cnt[C_CRASH_IN_SAVE]++;
    S->done = 3;
}
static int diskCall() {                       // returns the fault injected at this call
    int step = S->diskStep++;
    for (auto& f : P->dfaults)
        if (f.inc == g_inc && f.step == step) {
            if (f.what == 4) { doCrash(); _exit(77); }
            return f.what;
        }
    return 0;
}
static bool diskWriteAll(int f, const std::string& data) {
    uint32_t off = 0;
    S->exists[f] = 1; S->size[f] = 0;
    while (off < data.size()) {
        uint32_t n = std::min<uint32_t>((uint32_t)data.size() - off, 512);
        int fault = diskCall();
        if (fault == 1) { S->cnt[C_DISK_EIO]++; return false; }
        if (fault == 2) { S->cnt[C_DISK_ENOSPC]++; return false; }
        if (fault == 3) { S->cnt[C_DISK_SHORT]++; n = 1 + n / 3; }
        if (off + n > kDiskCap) return false;
        memcpy(S->cur[f] + off, data.data() + off, n);
        off += n;
        S->size[f] = off;
    }
    return true;
}
static bool diskSync(int f) {
    int fault = diskCall();
    if (fault == 1) { S->cnt[C_DISK_EIO]++; return false; }
    memcpy(S->dur[f], S->cur[f], S->size[f]);
    S->durableSize[f] = S->size[f];
    S->durableExists[f] = 1;
    return true;
}
static uint64_t sumOf(const std::string& s) { return hashStr(s); }
struct Header { uint64_t magic, len, sum; int32_t ks, cfg; };

static bool diskSave(int dst, const std::string& img, int ks, int cfg) {
    S->saving = 1;
    Header h = {0x53555246, img.size(), sumOf(img), ks, cfg};
    std::string data((char*)&h, sizeof h);
    data += img;
    bool ok = diskWriteAll(4, data) && diskSync(4);
    if (ok) {
        diskCall();                                      // rename
        memcpy(S->cur[dst], S->cur[4], S->size[4]);
        S->size[dst] = S->size[4];
        S->exists[dst] = 1; S->exists[4] = 0;
        S->pendingRename = 1 + dst;
        diskCall();                                      // directory sync
        memcpy(S->dur[dst], S->cur[dst], S->size[dst]);
        S->durableSize[dst] = S->size[dst];
        S->durableExists[dst] = 1;
        S->pendingRename = 0;
    }
    S->saving = 0;
    return ok;
}
static void diskCrashRecover(uint64_t seed) {            // in the parent, after the process died
    rt::Rng r(seed);
    if (S->pendingRename) {
        int d = S->pendingRename - 1;
        if (r.chance(1, 2)) { memcpy(S->dur[d], S->cur[d], S->size[d]); S->durableSize[d] = S->size[d]; S->durableExists[d] = 1; S->cnt[C_RECOVERED]++; }
        else S->cnt[C_RECOVERED_OLD]++;
        S->pendingRename = 0;
    } else if (S->exists[4] && S->saving) {              // the temporary was being written
        uint32_t n = S->size[4];
        for (uint32_t o = 0; o < n; o += kSector) {
            uint32_t k = std::min(kSector, n - o);
            switch (r.below(3)) {
            case 0: memcpy(S->dur[4] + o, S->cur[4] + o, k); S->cnt[C_REORDER_FLUSH]++; break;
            case 1: S->cnt[C_LOST]++; break;
            default: memcpy(S->dur[4] + o, S->cur[4] + o, r.below(k)); S->cnt[C_TORN]++;
            }
        }
        S->durableSize[4] = n; S->durableExists[4] = 1;
    }
    for (int f = 0; f < kDiskFiles; f++) {
        S->exists[f] = S->durableExists[f];
        S->size[f] = S->durableSize[f];
        if (S->size[f]) memcpy(S->cur[f], S->dur[f], S->size[f]);
    }
    S->saving = 0;
}
static bool diskLoad(int f, std::string* img, int* ks, int* cfg) {
    if (!S->exists[f] || S->size[f] < sizeof(Header)) return false;
    Header h;
    memcpy(&h, S->cur[f], sizeof h);
    if (h.magic != 0x53555246 || h.len + sizeof h != S->size[f]) return false;
    img->clear();
    uint32_t off = sizeof h;
    while (off < S->size[f]) {                           // short reads
        uint32_t n = std::min<uint32_t>(S->size[f] - off, diskCall() == 3 ? 97 : 4096);
        img->append((char*)S->cur[f] + off, n);
        off += n;
    }
    if (sumOf(*img) != h.sum) return false;              // torn image: never handed to the library
    *ks = h.ks; *cfg = h.cfg;
    return true;
}

// ------------------------------------------------------------------ execution --
static uint64_t budgetFor(const Op& op) {
    size_t bytes = 0;
    size_t longest = 0;
    for (auto& k : P->ks) for (auto& s : k.keys) { bytes += s.size() + 8; longest = std::max(longest, s.size()); }
    if (op.kind == K_KEYS || op.kind == K_PROG) { bytes = op.c * 100; longest = 300; }
    uint64_t b = 3000000 + 400ull * bytes + 64ull * longest * longest;
    switch (op.kind) {
    case K_QRY: case K_PROBE: case K_DIFF: case K_SWEEP: case K_CYCLE: case K_WALK: case K_BENCH: case K_INTS: case K_PARTS: case K_TRIE: case K_KEYS: case K_PROG: b *= 40; break;
    default: break;
    }
    return b;
}
static void workLinear(int what, uint64_t w, double allowed, const char* nm) {
    S->cnt[C_METERED]++;
    double share = w / allowed;
    if (share > S->workMax[what]) S->workMax[what] = share;
    if (share > 1) addViol(rt::V_WRONG, P15 | oomBit(), "%s took %llu memory accesses, allowed are %.0f", nm, (unsigned long long)w, allowed);
}
static double buildAllowance(int ks) {
    double b = 3000, longest = 0;
    for (auto& k : P->ks[ks].keys) { b += 600 + 160.0 * k.size(); longest = std::max<double>(longest, k.size()); }
    return b + 60 * longest * longest + 1000 * longest;
}
static void putFilter(int id, void* f, int ks, int cfg, bool restored, void* keep, uint64_t held) {
    Filter& F = g_f[id];
    F.held = held;
    sut_sizes(f, F.sizes);
    ks = g_canon[ks]; cfg = g_canonCfg[cfg];
    F.f = f; F.m = modelOf(ks, cfg); F.ks = ks; F.cfg = cfg; F.restored = restored; F.keep = keep;
}
static void destroyFilter(int id) {
    Filter* F = filt(id);
    if (!F) return;
    for (auto& i : g_it) if (i.second.filter == id) dropPos(i.second);
    S->cnt[C_DESTROY]++;
    setC(K_DESTROY);
    okay(sut_destroy(F->f), K_DESTROY);
    if (F->keep) sut_free_buffer(F->keep);
    g_f.erase(id);
}
static bool restoreInto(int id, const std::string& bytes, int ks, int cfg, long off, long mode) {
    void *f = nullptr, *keep = nullptr;
    bool altered = false;
    setC(K_DESER);
    uint64_t live0 = rt::liveBytes();          // the caller's buffer does not count
    int rc = sut_deserialize(&f, bytes, (unsigned)off, (int)mode, &keep, &altered);
    if (altered) addViol(rt::V_WRONG, P07 | oomBit(), "restoring changed the image it was given");
    if (off % 8) S->cnt[C_UNALIGNED]++;
    if (mode == 1) S->cnt[C_SCRIBBLED]++;
    if (mode == 2) S->cnt[C_FREEDBUF]++;
    if (!okay(rc, K_DESER) || !f) { if (keep) sut_free_buffer(keep); return false; }
    workLinear(W_SAVE, rt::lastWork(), 4000 + 3.0 * bytes.size(), "restoring");
    S->cnt[C_RESTORE]++;
    putFilter(id, f, ks, cfg, true, keep, S->parallelNow ? 0 : rt::liveBytes() - live0);
    return true;
}
static void cycle(const Op& op) {
    if (op.b < 0 || op.b >= (long)P->ks.size()) return;
    std::vector<const std::string*> kp;
    for (auto& k : P->ks[op.b].keys) kp.push_back(&k);
    uint64_t live[5], blocks[5];
    for (int round = 0; round < 5; round++) {
        Filter F;
        setC(K_BUILD);
        S->cnt[C_BUILD]++;
        if (!okay(sut_build(&F.f, kp, P->cfg[op.c]), K_BUILD)) return;
        F.m = modelOf((int)op.b, (int)op.c); F.ks = (int)op.b; F.cfg = (int)op.c;
        sut_sizes(F.f, F.sizes);
        bulkQuery(F, op.d, 0, 12);
        std::string img; uint64_t n;
        setC(K_SER);
        if (!okay(sut_serialize(F.f, &img, &n), K_SER)) return;
        Filter G = F; G.restored = true;
        void* keep;
        bool altered;
        setC(K_DESER);
        if (!okay(sut_deserialize(&G.f, img, 0, 2, &keep, &altered), K_DESER)) return;
        S->cnt[C_RESTORE]++;
        bulkQuery(G, op.d, 12, 12);
        // destroying one filter must not touch the other
        bool first = (round + op.d) & 1;
        setC(K_DESTROY);
        S->cnt[C_DESTROY] += 2;
        if (!okay(sut_destroy(first ? F.f : G.f), K_DESTROY)) return;
        bulkQuery(first ? G : F, op.d, 24, 6);
        setC(K_DESTROY);
        if (!okay(sut_destroy(first ? G.f : F.f), K_DESTROY)) return;
        blocks[round] = rt::liveBlocks(); live[round] = rt::liveBytes() + 16 * blocks[round];   // an empty block takes memory too
    }
    ctx().c = Concrete();
    if (live[1] < live[2] && live[2] < live[3] && live[3] < live[4])
        addViol(rt::V_LEAK, P11, "each build/use/save/restore/destroy cycle leaves %llu bytes (16 a block included) in %llu blocks behind", (unsigned long long)(live[4] - live[3]),
                (unsigned long long)(blocks[4] - blocks[3]));
}

// Encoding: a byte and two bits per label of the sparse levels, 512 bits and one per node of the dense ones, the suffixes,
// and the lookup tables on top.
static void space(Filter& F) {
    setC(K_SPACE);
    uint64_t s[4];
    if (!okay(sut_sizes(F.f, s), K_SPACE)) return;
    for (int i = 0; i < 4; i++) obs(s[i]);
    S->cnt[C_SPACE]++;
    Model& M = *F.m;
    auto& lv = M.levels();
    uint32_t m = P13 | oomBit();
    if (s[0] != lv.size() && s[0] != lv.size() + 1) addViol(rt::V_WRONG, m, "the filter reports %llu levels, the kept prefixes have %zu", (unsigned long long)s[0], lv.size());
    const SutCfg& c = M.cfg;
    bool form12 = c.form == 1 || c.form == 2;
    if (!form12 && !c.dense && s[1] != 0) addViol(rt::V_WRONG, m, "the filter was built without dense levels and has %llu", (unsigned long long)s[1]);
    unsigned sl = M.hl + M.rl;
    double dense = 0, sparse = 0;
    for (size_t l = 0; l < lv.size(); l++) {
        double suf = lv[l].suffixes * sl / 8.0;
        if (l < s[1]) dense += lv[l].nodes * (2 * (32 + 4 / 2.0) + (1 + 32 / 512.0) / 8) + suf;
        else sparse += lv[l].labels * (1 + 2 / 8.0 + 4 / 512.0) + lv[l].nodes * (4 / 64.0) + suf;
    }
    double want = dense + sparse, slack = 1000 + 16.0 * lv.size() + 0.002 * want;
    if (getenv("SURFSIM_SPACE")) fprintf(stderr, "space n=%d H=%zu S=%d want=%.0f rep=%llu held=%llu img=%llu\n", M.n(), lv.size(), (int)s[1], want, (unsigned long long)s[3], (unsigned long long)F.held, (unsigned long long)s[2]);
    if (s[3] > want + slack) addViol(rt::V_WRONG, m, "the filter reports %llu bytes, its encoding takes %.0f", (unsigned long long)s[3], want);
    if (s[2] > want + slack) addViol(rt::V_WRONG, m, "the image takes %llu bytes, the encoding %.0f", (unsigned long long)s[2], want);
    if (F.held) {
        double d = (double)F.held - (double)s[3];
        if (d > slack || -d > slack) addViol(rt::V_WRONG, m, "the filter holds %llu bytes of heap and reports %llu", (unsigned long long)F.held, (unsigned long long)s[3]);
    }
    // the dense levels, the lowest one left out, are small against the sparse encoding of the rest
    if (s[1] >= 2 && s[1] <= lv.size()) {
        uint32_t ratio = form12 ? 16 : c.ratio;
        double d = 0, sp = 0;
        for (size_t l = 0; l < lv.size(); l++) {
            double suf = lv[l].suffixes * sl / 8.0;
            if (l + 1 < s[1]) d += lv[l].nodes * 64.0 + suf;
            else sp += lv[l].labels * 1.25 + suf + 1;
        }
        if (d * ratio > sp * 1.02 + 1000)
            addViol(rt::V_WRONG, m, "%llu dense levels take %.0f bytes without the lowest, the sparse encoding of the rest takes %.0f: more than 1/%u", (unsigned long long)s[1], d, sp, ratio);
    }
}
static uint64_t oddInt(rt::Rng& r) {
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return ~0ull;
    case 2: return (1ull << r.below(64)) - 1;
    case 3: return 1ull << r.below(64);
    case 4: return ~(1ull << r.below(64));
    case 5: return r.next() >> r.below(64);
    case 6: { static const unsigned char b[] = {0, 1, 0x7f, 0x80, 0xff}; uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | b[r.below(5)]; return v; }
    default: return r.next();
    }
}
static void integers(uint64_t seed, long count) {
    setC(K_INTS);
    for (long i = 0; i < count; i++) {
        rt::Rng r(rt::mix(seed, i));
        uint64_t v = oddInt(r), w = r.chance(1, 2) ? oddInt(r) : r.chance(1, 2) ? v + (1ull << r.below(64)) : v - 1 - r.below(300);
        bool bench = r.chance(1, 3);
        std::string kv, kw; uint64_t bv = 0, bw = 0;
        if (!okay(sut_int_key(v, bench, &kv, &bv), K_INTS) || !okay(sut_int_key(w, bench, &kw, &bw), K_INTS)) return;
        S->cnt[C_INTS] += 2;
        obs(hashStr(kv)); obs(hashStr(kw)); obs(bv); obs(bw);
        uint32_t m = P14 | oomBit();
        if (kv.size() != 8 || kw.size() != 8) addViol(rt::V_WRONG, m, "integer %llx becomes a key of %zu bytes", (unsigned long long)v, kv.size());
        if (bv != v || bw != w) addViol(rt::V_WRONG, m, "integer %llx comes back as %llx, %llx as %llx", (unsigned long long)v, (unsigned long long)bv, (unsigned long long)w, (unsigned long long)bw);
        if ((v < w) != (kv < kw) || (v == w) != (kv == kw)) addViol(rt::V_WRONG, m, "integers %llx and %llx are ordered differently as keys %s and %s", (unsigned long long)v, (unsigned long long)w, sh(kv).c_str(), sh(kw).c_str());
    }
}
static void benchFilter(const Op& op) {
    if (!kHaveBench || op.b < 0 || op.b >= (long)P->ks.size() || op.a < 0 || op.a >= BENCH_TYPES || P->ks[op.b].keys.empty()) return;
    std::vector<const std::string*> kp;
    for (auto& k : P->ks[op.b].keys) kp.push_back(&k);
    unsigned sl = (unsigned)std::min<long>(std::max<long>(op.c, 0), op.a == 3 ? 32 : 64);
    int type = (int)op.a;
    setC(K_BENCH);
    void* f = nullptr;
    if (!okay(sut_bench_build(&f, type, sl, kp), K_BENCH)) return;
    S->cnt[C_BENCHF]++;
    SutCfg c;
    c.st = type == 5 ? 2 : type == 4 ? 0 : type;
    if (c.st & 1) c.hl = sl;
    if (c.st & 2) c.rl = sl;
    Model M(P->ks[op.b].keys, c);
    uint32_t m = P16 | oomBit();
    // the SuRF the name stands for
    void* ref = nullptr;
    if (type != 4 && !okay(sut_build(&ref, kp, c), K_BENCH)) ref = nullptr;
    auto same = [&](const char* what, uint64_t mine, uint64_t its) {
        if (mine != its) addViol(rt::V_WRONG, m, "benchmark filter %d and the SuRF it stands for differ in %s: %llu, %llu", type, what, (unsigned long long)mine, (unsigned long long)its);
    };
    auto ask = [&](int what, const std::string& l, const std::string& r, uint64_t* o) { bool ok = okay(sut_bench_ask(f, what, l, r, o), K_BENCH); if (ok) obs(*o); return ok; };
    uint64_t mem0 = 0, mem1 = 0, absent = 0, positive = 0;
    bool ok = ask(3, "", "", &mem0);
    int n = M.n(), many = (n > 400 ? 60 : 30) * (type == 4 ? 2 : 1);
    std::set<std::string> asked;
    rt::Rng r(op.d);
    for (int i = 0; i < many && ok; i++) {
        const std::string& k = n <= many ? M.K[i % n] : M.K[r.below(n)];
        uint64_t o = 0;
        if (!(ok = ask(0, k, "", &o))) break;
        if (!o) addViol(rt::V_WRONG, m, "benchmark filter %d misses the stored key %s", type, sh(k).c_str());
        std::string q = type == 4 && r.chance(1, 2) ? std::string() : queryKey(r, M.K);
        if (q.empty()) for (int b = 0; b < 12; b++) q += (char)r.below(256);
        if (!(ok = ask(0, q, "", &o))) break;
        int ri = 0;
        if (ref && okay(sut_lookup(ref, q, &ri), K_BENCH)) same("a point query", o, ri);
        int lo = M.lower(q);
        bool stored = lo < n && M.K[lo] == q;
        if (stored && !o) addViol(rt::V_WRONG, m, "benchmark filter %d misses the stored key %s", type, sh(q).c_str());
        if (type == 4) { if (!stored && asked.insert(q).second) { absent++; positive += o; } continue; }
        if (!stored && o && M.coveredBy(q) < 0) addViol(rt::V_WRONG, m, "benchmark filter %d has %s, which no stored key explains", type, sh(q).c_str());
        std::string t = r.chance(1, 2) ? mutateKey(r, q) : queryKey(r, M.K);
        if (t < q) std::swap(q, t);
        if (!(ok = ask(1, q, t, &o))) break;
        if (ref && okay(sut_range(ref, q, true, t, true, &ri), K_BENCH)) same("a range query", o, ri);
        long tr = M.upper(t) - M.lower(q);
        if (tr > 0 && !o) addViol(rt::V_WRONG, m, "benchmark filter %d misses a stored key in [%s, %s]", type, sh(q).c_str(), sh(t).c_str());
        if (!(ok = ask(2, q, t, &o))) break;
        uint64_t rc = 0;
        if (ref && okay(sut_count(ref, q, t, &rc), K_BENCH)) same("a count", o, rc);
        if ((long)o > std::max(tr, 0l) || (long)o < tr - 2) addViol(rt::V_WRONG, m, "benchmark filter %d counts %llu in [%s, %s], %ld keys are stored there", type, (unsigned long long)o, sh(q).c_str(), sh(t).c_str(), tr);
    }
    if (ok && ask(3, "", "", &mem1) && mem0 != mem1) addViol(rt::V_WRONG, m, "memory use of benchmark filter %d changed from %llu to %llu while it was asked", type, (unsigned long long)mem0, (unsigned long long)mem1);
    if (type == 4 && n >= 40 && absent >= 8 && logTail(absent, positive, 0.05) < -34)
        addViol(rt::V_WRONG, m, "%llu of %llu absent keys pass the Bloom filter", (unsigned long long)positive, (unsigned long long)absent);
    uint64_t sz[4];
    if (ref && ok && okay(sut_sizes(ref, sz), K_BENCH)) same("memory use", mem0, sz[3]);
    okay(sut_bench_destroy(f, type), K_BENCH);
    if (ref) okay(sut_destroy(ref), K_BENCH);
}

// ---------------------------------------------------------------- the vectors --
// Bit, label and suffix vectors against the plain sequences they were made from.
static void parts(int kind, long scale, uint64_t seed) {
    if (kind < 0 || kind >= PART_KINDS || !kHaveParts) return;
    setC(K_PARTS);
    rt::Rng r(rt::mix(seed, 77));
    PartIn in;
    in.kind = kind;
    int L = 1 + (int)r.below(r.chance(1, 3) ? 9 : 4);
    auto len = [&]() -> uint32_t {
        static const uint32_t edge[] = {0, 1, 2, 63, 64, 65, 127, 128, 129, 511, 512, 513, 1023, 1024, 1025};
        return r.chance(1, 3) ? edge[r.below(15)] : (uint32_t)r.below(1 + (r.chance(1, 2) ? 100 : scale));
    };
    std::vector<bool> flat;                                 // the bits of the chosen levels
    std::vector<uint8_t> lab;
    std::vector<std::pair<uint32_t, uint32_t>> nodes;       // position, length
    std::vector<uint64_t> suf;
    int lo = r.chance(1, 2) ? 0 : (int)r.below(L), hi = r.chance(1, 2) ? L : lo + 1 + (int)r.below(L - lo);
    unsigned sl = 0;
    if (kind == PART_RANK) in.a = 64u << r.below(5);
    if (kind == PART_SELECT) in.a = r.chance(1, 2) ? 64 : 1 + (uint32_t)r.below(200);
    if (kind == PART_SUFFIX) {
        static const unsigned lens[] = {1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 24, 31, 32, 33, 40, 47, 56, 63, 64};
        in.st = 1 + (int)r.below(3);
        sl = lens[r.below(20)];
        if (in.st == 3 && sl < 2) sl = 2;
        in.hl = in.st == 1 ? sl : in.st == 3 ? 1 + (unsigned)r.below(sl - 1) : 0;
        in.rl = sl - in.hl;
    }
    std::vector<std::string> sk;                            // the keys the suffixes come from
    std::vector<unsigned> slev;
    for (int l = 0; l < L; l++) {
        bool inside = l >= lo && l < hi;
        uint32_t n = len();
        if (kind == PART_LABEL) {
            in.labels.push_back(std::vector<uint8_t>());
            auto& v = in.labels.back();
            while (v.size() < n) {
                static const int fans[] = {1, 2, 3, 4, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 48, 49, 255, 256};
                int fan = r.chance(1, 2) ? 1 + (int)r.below(6) : fans[r.below(19)];
                std::set<int> s;
                if (r.chance(1, 3)) s.insert(255);
                if (r.chance(1, 3)) s.insert(0);
                int base = (int)r.below(256), span = r.chance(1, 2) ? 256 : fan + (int)r.below(20);
                while ((int)s.size() < fan) s.insert(fan > 100 || r.chance(1, 10) ? (int)r.below(256) : (base + (int)r.below(span)) & 255);
                uint32_t at = (uint32_t)v.size();
                if (r.chance(1, 4)) v.push_back(255);       // the key that ends here
                for (int c : s) v.push_back((uint8_t)c);
                if (inside) nodes.push_back({(uint32_t)lab.size() + at, (uint32_t)v.size() - at});
            }
            if (inside) lab.insert(lab.end(), v.begin(), v.end());
            continue;
        }
        std::vector<bool> b;
        if (kind == PART_SUFFIX) {
            n = std::min<uint32_t>(n, 300);
            for (uint32_t i = 0; i < n; i++) {
                std::string k;
                int kl = (int)r.below(14);
                for (int j = 0; j < kl; j++) k += (char)(r.chance(1, 4) ? (r.chance(1, 2) ? 0 : 255) : r.below(256));
                unsigned lev = (unsigned)r.below(5);
                // big-endian bits of the key from that byte on; a key too short for them has none
                uint64_t real = 0, hash = r.next() & (in.hl >= 64 ? ~0ull : (1ull << in.hl) - 1);
                if (in.rl && k.size() >= lev && (k.size() - lev) * 8 >= in.rl) for (unsigned j = 0; j < in.rl; j++) real = real << 1 | ((unsigned char)k[lev + j / 8] >> (7 - j % 8) & 1);
                uint64_t v = in.rl >= 64 ? real : hash << in.rl | real;
                for (int j = (int)sl - 1; j >= 0; j--) b.push_back(v >> j & 1);
                if (inside) { suf.push_back(v); sk.push_back(k); slev.push_back(lev); }
            }
        } else {
            int dens = (int)r.below(5);                     // from almost none to almost all
            for (uint32_t i = 0; i < n; i++) {
                if (dens == 4 && r.chance(1, 100)) dens = (int)r.below(4);
                b.push_back(dens == 0 ? r.chance(1, 200) : dens == 1 ? r.chance(1, 10) : dens == 2 ? r.chance(1, 2) : r.chance(19, 20));
            }
            if (kind == PART_SELECT && inside && flat.empty() && n) b[0] = true;
        }
        in.bits.push_back((uint32_t)b.size());
        std::vector<uint64_t> w((b.size() + 63) / 64 + (r.chance(1, 4) ? r.below(3) : 0));
        for (size_t i = 0; i < b.size(); i++) if (b[i]) w[i / 64] |= 1ull << (63 - i % 64);
        in.words.push_back(w);
        if (inside) flat.insert(flat.end(), b.begin(), b.end());
    }
    in.start = lo; in.end = hi == L && r.chance(1, 2) ? 0 : hi;
    uint32_t N = (uint32_t)flat.size();
    std::vector<uint32_t> ones, prefix(N + 1, 0);
    for (uint32_t i = 0; i < N; i++) { prefix[i + 1] = prefix[i] + flat[i]; if (flat[i]) ones.push_back(i); }
    if (kind == PART_SELECT && N == 0) return;

    uint32_t m = P17 | oomBit();
    void* o = nullptr;
    if (!okay(sut_part_build(&o, in), K_PARTS)) return;
    S->cnt[C_PARTS]++;
    std::string what, img, img2;
    PartAns a;
    static const std::string none;
    auto ask = [&](int q, uint32_t x, uint32_t y = 0, uint32_t z = 0, const std::string& key = std::string()) {
        a = PartAns();
        S->cnt[C_PARTASK]++;
        if (!okay(sut_part_ask(o, kind, q, x, y, z, key, &a), K_PARTS)) return false;
        obs((uint64_t)a.r); 
        return true;
    };
    static const char* kinds[] = {"rank bit vector", "select bit vector", "label vector", "suffix vector"};
    const char* kn = kinds[kind];
    for (int round = 0; round < 2; round++) {
        bool ok = ask(ASK_SIZE, 0);
        if (ok && kind == PART_LABEL && a.r < (int64_t)lab.size()) addViol(rt::V_WRONG, m, "%s of %zu labels says it has %lld", kn, lab.size(), (long long)a.r);
        if (ok && kind != PART_LABEL && a.r != N) addViol(rt::V_WRONG, m, "%s of %u bits says it has %lld", kn, N, (long long)a.r);
        if (ok && kind == PART_SELECT && (ok = ask(ASK_ONES, 0)) && a.r != (int64_t)ones.size()) addViol(rt::V_WRONG, m, "%s with %zu ones says it has %lld", kn, ones.size(), (long long)a.r);
        int many = 40 + (int)r.below(60);
        for (int i = 0; ok && i < many && kind != PART_LABEL && N; i++) {
            uint32_t x = i == 0 ? 0 : i == 1 ? N - 1 : r.chance(1, 4) && N > 64 ? std::min<uint32_t>(N - 1, 64 * (uint32_t)r.below(N / 64) + (uint32_t)r.below(3) * 63 / 2) : (uint32_t)r.below(N);
            if (!(ok = ask(ASK_BIT, x))) break;
            if (a.r != (int64_t)flat[x]) addViol(rt::V_WRONG, m, "%s: bit %u of %u reads %lld", kn, x, N, (long long)a.r);
            if (kind == PART_RANK) {
                if (!(ok = ask(ASK_RANK, x))) break;
                if (a.r != prefix[x + 1]) addViol(rt::V_WRONG, m, "%s: rank(%u) of %u bits is %lld, there are %u ones", kn, x, N, (long long)a.r, prefix[x + 1]);
            }
            if (kind == PART_SELECT && !ones.empty()) {
                uint32_t k = i == 0 ? 1 : i == 1 ? (uint32_t)ones.size() : r.chance(1, 4) ? std::min<uint32_t>((uint32_t)ones.size(), in.a * (1 + (uint32_t)r.below(ones.size() / in.a + 1)) + (uint32_t)r.below(3) - (in.a > 1)) : 1 + (uint32_t)r.below(ones.size());
                if (k < 1) k = 1;
                if (!(ok = ask(ASK_SELECT, k))) break;
                if (a.r != ones[k - 1]) addViol(rt::V_WRONG, m, "%s: select(%u) of %zu is %lld, that one is at %u", kn, k, ones.size(), (long long)a.r, ones[k - 1]);
            }
            if (kind == PART_SUFFIX) continue;
            if (!(ok = ask(ASK_NEXT, x))) break;
            uint32_t nx = (uint32_t)(std::upper_bound(ones.begin(), ones.end(), x) - ones.begin());
            uint32_t want = (nx < ones.size() ? ones[nx] : N) - x;
            if (a.r != want) addViol(rt::V_WRONG, m, "%s: the next one after %u of %u is %u away, not %lld", kn, x, N, want, (long long)a.r);
            uint32_t pv = (uint32_t)(std::lower_bound(ones.begin(), ones.end(), x) - ones.begin());
            if (pv > 0) {
                if (!(ok = ask(ASK_PREV, x))) break;
                if (a.r != x - ones[pv - 1]) addViol(rt::V_WRONG, m, "%s: the one before %u of %u is %u away, not %lld", kn, x, N, x - ones[pv - 1], (long long)a.r);
            }
        }
        for (int i = 0; ok && i < many && !nodes.empty(); i++) {
            auto nd = i == 0 ? nodes[0] : i == 1 ? nodes.back() : nodes[r.below(nodes.size())];
            uint32_t at = nd.first + (uint32_t)r.below(nd.second);
            if (!(ok = ask(ASK_LABEL, at))) break;
            if (a.r != lab[at] || a.pos != lab[at]) addViol(rt::V_WRONG, m, "%s: label %u reads %lld", kn, at, (long long)a.r);
            uint32_t t = r.chance(1, 2) ? lab[at] : r.chance(1, 3) ? (lab[at] + (r.chance(1, 2) ? 1 : 255)) & 255 : (uint32_t)r.below(256);
            uint32_t f = nd.first, e = nd.first + nd.second;
            if (nd.second > 1 && lab[f] == 255) f++;        // the key that ends here is no label
            auto it = std::lower_bound(lab.begin() + f, lab.begin() + e, (uint8_t)t);
            bool have = it != lab.begin() + e && *it == t;
            if (!(ok = ask(ASK_SEARCH, t, nd.first, nd.second))) break;
            if ((a.r != 0) != have || (have && a.pos != it - lab.begin()))
                addViol(rt::V_WRONG, m, "%s: search for %u in %u labels at %u says %lld at %lld, it is %s%ld", kn, t, nd.second, nd.first, (long long)a.r, (long long)a.pos, have ? "at " : "not there ", (long)(it - lab.begin()));
            auto gt = std::upper_bound(lab.begin() + f, lab.begin() + e, (uint8_t)t);
            have = gt != lab.begin() + e;
            if (!(ok = ask(ASK_GREATER, t, nd.first, nd.second))) break;
            if ((a.r != 0) != have || (have && a.pos != gt - lab.begin()))
                addViol(rt::V_WRONG, m, "%s: search for more than %u in %u labels at %u says %lld at %lld, it is %s%ld", kn, t, nd.second, nd.first, (long long)a.r, (long long)a.pos, have ? "at " : "not there ", (long)(gt - lab.begin()));
        }
        for (int i = 0; ok && i < many && !suf.empty(); i++) {
            uint32_t x = i == 0 ? 0 : i == 1 ? (uint32_t)suf.size() - 1 : (uint32_t)r.below(suf.size());
            if (!(ok = ask(ASK_SUFFIX, x))) break;
            if ((uint64_t)a.r != suf[x]) addViol(rt::V_WRONG, m, "%s: suffix %u of %zu (%u bits) reads %llx, it is %llx", kn, x, suf.size(), sl, (unsigned long long)a.r, (unsigned long long)suf[x]);
            uint64_t real = in.rl >= 64 ? suf[x] : suf[x] & ((1ull << in.rl) - 1);
            if (!(ok = ask(ASK_REAL, x))) break;
            if ((uint64_t)a.r != real) addViol(rt::V_WRONG, m, "%s: real part of suffix %u reads %llx, it is %llx", kn, x, (unsigned long long)a.r, (unsigned long long)real);
            if (in.st == 1) continue;
            std::string q = r.chance(1, 3) ? sk[x] : mutateKey(r, sk[x]);
            unsigned lev = slev[x];
            if (q.size() < lev) q.resize(lev, 'x');
            bool complete = (q.size() - lev) * 8 >= in.rl;
            uint64_t qr = 0; unsigned qb = std::min<unsigned>(in.rl, (unsigned)(q.size() - lev) * 8);
            for (unsigned j = 0; j < qb; j++) qr = qr << 1 | ((unsigned char)q[lev + j / 8] >> (7 - j % 8) & 1);
            if (in.st == 2) {
                if (!(ok = ask(ASK_EQUAL, x, lev, 0, q))) break;
                bool eq = real == 0 || (complete && qr == real);
                if ((a.r != 0) != eq) addViol(rt::V_WRONG, m, "%s: suffix %llx (%u bits) and %s from byte %u on are taken for %s", kn, (unsigned long long)real, in.rl, sh(q).c_str(), lev, a.r ? "equal" : "different");
            }
            if (!(ok = ask(ASK_COMPARE, x, lev, 0, q))) break;
            uint64_t top = qb ? real >> (in.rl - qb) : 0;   // as many bits as the query has
            int c = real == 0 ? 0 : qb == 0 ? 1 : top < qr ? -1 : top > qr || !complete ? 1 : 0;
            int got = a.r == 2018 ? 0 : a.r < 0 ? -1 : a.r > 0 ? 1 : 0;
            if (got != c) addViol(rt::V_WRONG, m, "%s: suffix %llx (%u bits) compares as %lld with %s from byte %u on", kn, (unsigned long long)real, in.rl, (long long)a.r, sh(q).c_str(), lev);
        }
        if (!ok || round == 1) break;
        // and again after a round trip through its image
        uint64_t ann = 0, adv = 0, adv2 = 0;
        void* o2 = nullptr;
        if (!okay(sut_part_save(o, kind, (unsigned)r.below(8), &img, &ann, &adv), K_PARTS)) break;
        if (adv != ann) addViol(rt::V_WRONG, m, "%s: %llu bytes announced, %llu written", kn, (unsigned long long)ann, (unsigned long long)adv);
        if (!okay(sut_part_restore(&o2, kind, img, (unsigned)r.below(16), &adv2), K_PARTS)) break;
        if (adv2 != ann) addViol(rt::V_WRONG, m, "%s: %llu bytes written, %llu read back", kn, (unsigned long long)ann, (unsigned long long)adv2);
        if (r.chance(1, 2)) std::swap(o, o2);
        if (okay(sut_part_save(o2, kind, (unsigned)r.below(8), &img2, &ann, &adv), K_PARTS) && img2 != img) addViol(rt::V_WRONG, m, "%s: saved again after a round trip it is different", kn);
        okay(sut_part_destroy(o2, kind), K_PARTS);
    }
    okay(sut_part_destroy(o, kind), K_PARTS);
}

// ------------------------------------------------------- the builder, the halves --
// What the builder's vectors should hold: the trie of the kept prefixes, level by level.
static void trieOf(const Model& M, std::vector<TrieLevel>* lv, std::vector<std::vector<int>>* who) {
    std::vector<std::vector<int>> node;                     // of each label
    for (int i = 0; i < M.n(); i++) {
        size_t at = 0, end = M.tlen[i] + M.term[i];
        if (i) while (at < M.K[i - 1].size() && at < M.K[i].size() && M.K[i - 1][at] == M.K[i][at]) at++;
        if (lv->size() < end) { lv->resize(end); who->resize(end); }
        for (size_t l = at; l < end; l++) {
            TrieLevel& t = (*lv)[l];
            bool ends = l == M.tlen[i], first = !i || l > at;
            if (first) {
                t.nodes++; t.bitmap.resize(4 * t.nodes); t.bitmapChild.resize(4 * t.nodes); t.prefixKey.push_back(false);
            }
            unsigned c = ends ? 255 : (unsigned char)M.K[i][l];
            t.labels.push_back((uint8_t)c); t.child.push_back(l + 1 < end); t.first.push_back(first);
            if (ends) t.prefixKey.back() = true;
            else {
                uint64_t bit = 1ull << (63 - c % 64); size_t w = 4 * (t.nodes - 1) + c / 64;
                t.bitmap[w] |= bit;
                if (l + 1 < end) t.bitmapChild[w] |= bit;
            }
        }
        (*lv)[end - 1].ends++;
        (*who)[end - 1].push_back(i);
    }
}
static void trie(const Op& op) {
    if (!kHaveTrie || op.b < 0 || op.b >= (long)P->ks.size() || op.c < 0 || op.c >= (long)P->cfg.size() || P->ks[op.b].keys.empty()) return;
    SutCfg c = P->cfg[op.c];
    c.form = 0;
    Model M(P->ks[op.b].keys, c);
    std::vector<const std::string*> kp;
    for (auto& k : P->ks[op.b].keys) kp.push_back(&k);
    setC(K_TRIE);
    uint32_t m = P19 | oomBit();
    void *b = nullptr, *half[2] = {nullptr, nullptr};
    if (!okay(sut_trie_build(&b, kp, c), K_TRIE)) { if (b) okay(sut_trie_gone(b), K_TRIE); return; }
    S->cnt[C_TRIES]++;
    unsigned sb = M.hl + M.rl;
    std::vector<TrieLevel> want;
    std::vector<std::vector<int>> who;
    trieOf(M, &want, &who);
    auto check = [&](void* x, const char* when) {
        TrieView v;
        sut_trie_view(x, sb, &v);
        obs(v.height); obs(v.start);
        while (v.lv.size() > want.size() && v.lv.back().labels.empty() && !v.lv.back().ends && !v.lv.back().torn) v.lv.pop_back();   // an empty level may follow
        if (v.lv.size() != want.size() || v.height > want.size() + 1) { addViol(rt::V_WRONG, m, "%s the builder has %llu levels, the trie %zu", when, (unsigned long long)v.height, want.size()); return; }
        if (v.start > v.height || (!c.dense && v.start)) { addViol(rt::V_WRONG, m, "%s the sparse levels start at %llu of %llu%s", when, (unsigned long long)v.start, (unsigned long long)v.height, c.dense ? "" : " though no dense ones were asked for"); return; }
        for (size_t l = 0; l < want.size(); l++) {
            TrieLevel &t = v.lv[l], &w = want[l];
            S->cnt[C_TRIELAB] += w.labels.size();
            auto bad = [&](const char* what) { addViol(rt::V_WRONG, m, "%s level %zu of the builder (%zu labels, %llu nodes, %llu keys end there) holds other %s than the trie (%zu, %llu, %llu)", when, l, t.labels.size(), (unsigned long long)t.nodes, (unsigned long long)t.ends, what, w.labels.size(), (unsigned long long)w.nodes, (unsigned long long)w.ends); };
            if (t.torn) { bad("numbers of words"); return; }
            if (t.labels != w.labels) { bad("labels"); return; }
            if (t.child != w.child) { bad("children"); return; }
            if (t.first != w.first || t.nodes != w.nodes) { bad("nodes"); return; }
            if (t.ends != w.ends) { bad("ends"); return; }
            if (l < v.start && (t.bitmap != w.bitmap || t.bitmapChild != w.bitmapChild || t.prefixKey != w.prefixKey)) { bad("dense bits"); return; }
            for (size_t i = 0; sb && i < t.suffixes.size(); i++) {
                int k = who[l][i];
                uint64_t real = M.rl >= 64 ? t.suffixes[i] : t.suffixes[i] & ((1ull << M.rl) - 1);
                if (M.rl && real != M.realBits(k)) { addViol(rt::V_WRONG, m, "%s the builder keeps %llx as suffix of %s after byte %u, it is %llx", when, (unsigned long long)real, sh(M.K[k]).c_str(), M.tlen[k], (unsigned long long)M.realBits(k)); return; }
                obs(t.suffixes[i]);
            }
        }
    };
    check(b, "once built,");
    rt::Rng r(rt::mix(op.d, 91));
    int n = M.n();
    // A key's hash bits depend on the key alone.
    if (M.hl) for (int i = 0; i < 3; i++) {
        size_t l = r.below(want.size());
        if (who[l].empty()) continue;
        size_t at = r.below(who[l].size());
        SutCfg one; one.dense = false; one.st = 1; one.hl = M.hl;
        std::vector<const std::string*> only(1, &M.K[who[l][at]]);
        void* x = nullptr;
        bool ok = okay(sut_trie_build(&x, only, one), K_TRIE);
        if (ok) {
            TrieView v, y;
            sut_trie_view(b, sb, &v); sut_trie_view(x, M.hl, &y);
            if (l < v.lv.size() && at < v.lv[l].suffixes.size() && !y.lv.empty() && !y.lv[0].suffixes.empty()) {
                uint64_t h = M.rl >= 64 ? 0 : v.lv[l].suffixes[at] >> M.rl;
                if (h != y.lv[0].suffixes[0]) addViol(rt::V_WRONG, m, "the builder keeps %llx as hash bits of %s, on its own that key has %llx", (unsigned long long)h, sh(*only[0]).c_str(), (unsigned long long)y.lv[0].suffixes[0]);
            }
        }
        if (x) okay(sut_trie_gone(x), K_TRIE);
        if (!ok) break;
    }
    bool ok = okay(sut_trie_halves(b, &half[0], &half[1]), K_TRIE);
    if (ok && n < 20000) check(b, "after the halves were made,");
    uint64_t sz[4], start = 0, height = 0;
    if (ok) { TrieView v; sut_trie_view(b, 0, &v); start = v.start; height = v.height; }
    okay(sut_trie_gone(b), K_TRIE);                         // the halves live on without it
    SutCfg rc = c;
    void* ref = nullptr;
    if (ok && !(ok = okay(sut_build(&ref, kp, rc), K_TRIE))) ref = nullptr;
    for (int round = 0; ok && round < 2; round++) {
        if (!(ok = okay(sut_half_sizes(half[0], half[1], sz), K_TRIE))) break;
        for (int i = 0; i < 4; i++) obs(sz[i]);
        if (sz[0] != start || sz[1] != start || sz[2] != height)
            addViol(rt::V_WRONG, m, "%s the dense half has %llu levels, the sparse half %llu to %llu; they were built with %llu and %llu", round ? "restored," : "", (unsigned long long)sz[0], (unsigned long long)sz[1], (unsigned long long)sz[2], (unsigned long long)start, (unsigned long long)height);
        int many = n > 400 ? 40 : 25;
        for (int i = 0; i < many && ok; i++) {
            const std::string& k = n <= many ? M.K[i % n] : M.K[r.below(n)];
            std::string q = i % 2 ? k : queryKey(r, M.K);
            int a = 0, f = 0;
            if (!(ok = okay(sut_half_lookup(half[0], half[1], q, &a), K_TRIE)) || !(ok = okay(sut_lookup(ref, q, &f), K_TRIE))) break;
            obs(a);
            int lo = M.lower(q);
            bool stored = lo < n && M.K[lo] == q;
            if (stored && !a) addViol(rt::V_WRONG, m, "%sthe halves of the trie miss the stored key %s", round ? "restored, " : "", sh(q).c_str());
            if (!stored && a && M.coveredBy(q) < 0) addViol(rt::V_WRONG, m, "%sthe halves of the trie have %s, which no stored key explains", round ? "restored, " : "", sh(q).c_str());
            if (!a != !f) addViol(rt::V_WRONG, m, "%sthe halves of the trie and the filter made of them answer %d and %d for %s", round ? "restored, " : "", a, f, sh(q).c_str());
        }
        if (!ok || round) break;
        for (int d = 0; d < 2 && ok; d++) {                 // each through its image, with the other as it is
            bool dense = d == 0;
            std::string img, img2;
            uint64_t ann = 0, adv = 0;
            void* h2 = nullptr;
            const char* hn = dense ? "dense" : "sparse";
            if (!(ok = okay(sut_half_save(half[d], dense, (unsigned)r.below(8), &img, &ann, &adv), K_TRIE))) break;
            if (adv != ann) addViol(rt::V_WRONG, m, "the %s half announces %llu bytes and writes %llu", hn, (unsigned long long)ann, (unsigned long long)adv);
            ok = okay(sut_half_restore(&h2, dense, img, (unsigned)r.below(16), &adv), K_TRIE);
            if (ok && adv != ann) addViol(rt::V_WRONG, m, "the %s half is %llu bytes, %llu are read back", hn, (unsigned long long)ann, (unsigned long long)adv);
            if (ok && r.chance(3, 4)) std::swap(half[d], h2);
            if (ok && (ok = okay(sut_half_save(h2, dense, (unsigned)r.below(8), &img2, &ann, &adv), K_TRIE)) && img2 != img) addViol(rt::V_WRONG, m, "the %s half saved again after a round trip is different", hn);
            if (h2) okay(sut_half_destroy(h2, dense), K_TRIE);
            obs(hashStr(img));
        }
    }
    if (half[0]) okay(sut_half_destroy(half[0], true), K_TRIE);
    if (half[1]) okay(sut_half_destroy(half[1], false), K_TRIE);
    if (ref) okay(sut_destroy(ref), K_TRIE);
}

// The same five times: what is destroyed must not leave memory behind.
static void again(Op op, uint32_t prop) {
    op.a -= 8;
    uint64_t live[5], blocks[5];
    for (int i = 0; i < 5; i++) {
        if (op.kind == K_BENCH) benchFilter(op); else if (op.kind == K_TRIE) trie(op); else parts((int)op.a, op.c, op.d);
        blocks[i] = rt::liveBlocks(); live[i] = rt::liveBytes() + 16 * blocks[i];
    }
    if (!oomBit() && !S->parallelNow && live[1] < live[2] && live[2] < live[3] && live[3] < live[4])
        addViol(rt::V_LEAK, prop, "each time it is built, used and destroyed it leaves %llu bytes (16 a block included) in %llu blocks behind", (unsigned long long)(live[4] - live[3]), (unsigned long long)(blocks[4] - blocks[3]));
}

// ------------------------------------------------------------- whole programs --
// Keys as the benchmark's files hold them: words without blanks, or numbers; a file has one a line.
static std::string word(rt::Rng& r, const std::vector<std::string>& some) {
    std::string w;
    if (!some.empty() && r.chance(2, 3)) {
        w = some[r.below(some.size())];
        switch (r.below(4)) {
        case 0: w.resize(r.below(w.size() + 1)); break;
        case 1: if (!w.empty()) w[r.below(w.size())] = (char)(33 + r.below(94)); break;
        case 2: w.resize(w.size() - std::min<size_t>(w.size(), r.below(3))); break;
        }
    } else if (r.chance(1, 2)) w = r.chance(1, 2) ? "com.gmail@" : "org.a@";
    int n = r.chance(1, 30) ? 60 + (int)r.below(200) : (int)r.below(6);
    static const char few[] = "ab.@z~!";
    bool narrow = r.chance(1, 2);
    for (int i = 0; i < n || w.empty(); i++) w += narrow ? few[r.below(7)] : (char)(33 + r.below(94));
    return w;
}
static std::string number8(uint64_t v) { std::string b; for (int i = 56; i >= 0; i -= 8) b += (char)(v >> i); return b; }
static uint64_t ofKey(const std::string& k) { uint64_t v = 0; for (unsigned char c : k) v = v << 8 | c; return v; }
static const uint64_t kIntReach = 92233697311ull;        // bench::kIntRangeSize, part of what the program does
static std::string numberKey(rt::Rng& r, const std::vector<std::string>& some) {
    uint64_t v = r.next() >> r.below(64);
    if (!some.empty() && r.chance(2, 3)) {
        v = ofKey(some[r.below(some.size())]);
        switch (r.below(5)) {
        case 0: break;
        case 1: v -= r.below(2 * kIntReach); break;
        case 2: v += r.below(2 * kIntReach); break;
        case 3: v -= kIntReach + r.below(3) - 1; break;
        case 4: v ^= 1ull << r.below(40); break;
        }
    }
    return number8(v >> 1);                              // the reach of a query stays below 2^64
}
static std::string fileText(rt::Rng& r, const std::vector<std::string>& keys, bool ints) {
    std::string t;
    for (auto& k : keys) { if (!t.empty()) t += '\n'; t += ints ? std::to_string(ofKey(k)) : k; }
    if (!keys.empty() && r.chance(2, 3)) t += '\n';
    return t;
}
static void countFiles(const rt::FileStats& f) {
    S->cnt[C_KEYFILES] += f.opened; S->cnt[C_SHORTREAD] += f.shortReads; S->cnt[C_INTRREAD] += f.interrupted; S->cnt[C_EIOREAD] += f.errors; S->cnt[C_MISSING] += f.missing;
}
static void keyFiles(const Op& op) {
    if (!kHaveBench) return;
    rt::Rng r(op.d);
    int form = (int)op.a;
    setC(K_KEYS);
    std::vector<std::string> keys;
    long n = std::max<long>(0, op.c);
    for (long i = 0; i < n; i++) keys.push_back(form == LOAD_STRINGS ? word(r, keys) : numberKey(r, keys));
    if (form != LOAD_STRINGS && n && r.chance(1, 3)) keys[r.below(n)] = number8(r.chance(1, 2) ? ~0ull : 0);
    rt::FileCfg fc;
    fc.seed = r.next(); fc.mode = (int)r.below(4);
    std::string text = fileText(r, keys, form != LOAD_STRINGS);
    bool missing = r.chance(1, 12);
    if (!missing) fc.files.push_back({"workloads/keys", text});
    if (!missing && r.chance(1, 4)) fc.eioAt = (long)r.below(text.size() + 1);
    uint64_t limit = r.chance(1, 2) ? n + r.below(3) : r.below(n + 1);
    std::vector<std::string> got, none;
    rt::filesBegin(fc);
    bool ok = okay(sut_load_keys(form, "workloads/keys", limit, none, &got), K_KEYS);
    rt::FileStats fs = rt::filesEnd();
    countFiles(fs);
    if (!ok) return;
    for (auto& k : got) obs(hashStr(k));
    size_t want = missing ? 0 : form == LOAD_NUMBERS ? std::min<size_t>(limit, keys.size()) : keys.size();
    if (got.size() > want) addViol(rt::V_WRONG, P18, "%zu keys come out of a file of %zu where %zu were to be read", got.size(), missing ? 0 : keys.size(), want);
    else if (got.size() < want && !fs.errors) addViol(rt::V_WRONG, P18, "only %zu of %zu keys come out of a file that was read without an error", got.size(), want);
    for (size_t i = 0; i < got.size() && i < want; i++)
        if (got[i] != keys[i]) { addViol(rt::V_WRONG, P18, "key %zu of a file of %zu comes out as %s instead of %s", i, keys.size(), sh(got[i]).c_str(), sh(keys[i]).c_str()); break; }
    if (keys.empty()) return;
    unsigned percent = r.chance(1, 3) ? 100 : 1 + (unsigned)r.below(100);
    std::vector<std::string> sel;
    if (!okay(sut_select_keys(percent, form == LOAD_NUMBERS, keys, &sel), K_KEYS)) return;
    if (sel.size() != keys.size() * percent / 100) addViol(rt::V_WRONG, P18, "%u percent of %zu keys are %zu", percent, keys.size(), sel.size());
    if (!std::is_sorted(sel.begin(), sel.end())) addViol(rt::V_WRONG, P18, "the selected keys are not in order");
    std::sort(keys.begin(), keys.end());
    std::sort(sel.begin(), sel.end());
    if (!std::includes(keys.begin(), keys.end(), sel.begin(), sel.end())) addViol(rt::V_WRONG, P18, "keys are selected that were not there, or more often than they were there");
}

static const Op* g_progOp;
static void progBody(int tid) {
    ThreadCtx& t = g_ctx[tid];
    t = ThreadCtx();
    t.op = g_progOp;
    S->curTid = tid; S->curUid[tid] = g_progOp->uid; S->curKind[tid] = K_PROG; S->curOom[tid] = 0;
    rt::opBegin(1000000 + g_progOp->uid * 8 + tid, budgetFor(*g_progOp), -1, false);
    S->curTid = tid;
    try { rt::threadRun(tid); }
    catch (...) { addViol(rt::V_EXC, P18, "a thread of the program ends with an exception"); }
    rt::opEnd();
    S->curKind[tid] = -1;
    t.op = nullptr;
}
static std::string plain(const std::string& s) {         // without the colours
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == 27) { while (i < s.size() && s[i] != 'm') i++; continue; }
        o += s[i];
    }
    return "\n" + o;
}
static bool g_ranThreads;
static void program(const Op& op) {
    bool mt = op.a == 1;
    if (!kHaveBench || !haveProgram(mt) || (mt && g_ranThreads)) return;   // its list of transactions belongs to the process
    setC(K_PROG);
    rt::Rng r(op.d);
    static const char* fname[] = {"SuRF", "SuRFHash", "SuRFReal", "SuRFMixed", "Bloom"};
    static const char* ktype[] = {"email", "randint", "timestamp"};
    static const char* dname[] = {"uniform", "zipfian", "latest"};
    static const char* qname[] = {"point", "range", "mix", "count-long", "count-short"};
    int query = (int)r.below(mt ? 2 : 5);
    int type = (int)r.below(4);
    if (mt && type == 3) type = 2;
    if (query == 0 && r.chance(1, 4)) type = 4;
    unsigned sl = 1 + (unsigned)(r.chance(1, 3) ? r.below(8) : r.below(64));
    if (type == 3) sl = 1 + (sl - 1) % 32;
    int kt = r.chance(1, 2) ? 0 : 1 + (int)r.below(2);
    bool ints = kt > 0, alter = !ints && r.chance(1, 3);
    unsigned pos = (unsigned)r.below(12);
    unsigned percent = r.chance(2, 3) ? 100 : 1 + (unsigned)r.below(100);
    int dist = (int)r.below(3), threads = std::min(5l, std::max(1l, op.b & 7));
    long n = std::max<long>(1, op.c);
    std::vector<std::string> load, txn, other;
    long nload = std::max<long>(1 + r.below(n), (99 + percent) / percent);
    bool far = !ints && r.chance(1, 3);                  // stored keys that only the far half of a range reaches
    for (long i = 0; i < nload; i++) {
        load.push_back(ints ? numberKey(r, load) : word(r, load));
        if (far && r.chance(1, 2)) { char& l = load.back()[load.back().size() - 1]; l = (char)(l | 128); }
    }
    long ntxn = r.chance(1, 20) ? 0 : r.below(n + 1);
    for (long i = 0; i < ntxn; i++) {
        std::vector<std::string>& from = !txn.empty() && r.chance(1, 8) ? txn : load;
        txn.push_back(r.chance(1, 3) ? from[r.below(from.size())] : ints ? numberKey(r, from) : word(r, from));
        if (far) { char& l = txn.back()[txn.back().size() - 1]; l = (char)(l & 127); }   // else its range would end before it
    }
    rt::FileCfg fc;
    fc.seed = r.next(); fc.mode = (int)r.below(4);
    fc.files.push_back({std::string("workloads/load_") + ktype[kt], fileText(r, load, ints)});
    fc.files.push_back({std::string("workloads/txn_") + ktype[kt] + "_" + dname[dist], fileText(r, txn, ints)});
    for (int i = 0; i < 3; i++) if (i != dist) fc.files.push_back({std::string("workloads/txn_") + ktype[kt] + "_" + dname[i], ints ? "7\n7\n9\n" : "decoy\ndecoy\nplum\n"});
    for (int i = 0; i < 3; i++) if (i != kt) fc.files.push_back({std::string("workloads/load_") + ktype[i], i ? "7\n8\n" : "decoy\nplum\n"});
    std::vector<std::string> args = {"workload", fname[type], std::to_string(sl), alter ? "alterByte" : "mixed", std::to_string(percent), std::to_string(pos), ktype[kt], qname[query], dname[dist]};
    if (mt) args.push_back(std::to_string(threads));
    int wrong = r.chance(1, 10) ? 1 + (int)r.below(8) : 0;
    switch (wrong) {
    case 1: args[1] = "Surf"; break;
    case 2: args[2] = r.chance(1, 2) ? "0" : "65"; break;
    case 3: args[3] = "mixes"; break;
    case 4: args[4] = "101"; break;
    case 5: args[6] = "int"; break;
    case 6: args[7] = mt ? "mix" : "count"; break;
    case 7: args[8] = "normal"; break;
    case 8: if (r.chance(1, 2)) args.pop_back(); else args.push_back("1"); break;
    }
    rt::SchedCfg sc;
    for (auto& s : P->sched) if (s.inc == g_inc && s.phase == op.phase) sc = s.sc;
    g_progOp = &op;
    if (mt && !wrong) g_ranThreads = true;
    int status = -1;
    std::string text;
    size_t r0 = rt::recorded().size();
    rt::filesBegin(fc);
    int failAt = mt && !wrong && (op.b & 16) ? (int)(op.b >> 5) % threads : -1;
    rt::threadsBegin(sc, progBody, op.b & 8, failAt);
    bool ok = okay(sut_program(mt, args, &status, &text, failAt >= 0), K_PROG);
    int ran = rt::threadsEnd();
    if (rt::badJoins()) addViol(rt::V_WRONG, P18, "the program waits for a thread that does not exist");
    rt::FileStats fs = rt::filesEnd();
    S->curTid = 0;
    countFiles(fs);
    S->cnt[C_PROGS]++; S->cnt[C_PROGTHR] += ran;
    if (ran) S->cnt[C_PARALLEL]++;
    auto& rec = rt::recorded();
    for (size_t k = r0; k < rec.size(); k++)
        if (S->nrec < 60000) { S->rec[S->nrec].inc = g_inc; S->rec[S->nrec].phase = op.phase; S->rec[S->nrec].sw = rec[k]; S->nrec++; }
    if (!ok) return;
    std::string line;
    for (auto& a : args) line += (line.empty() ? "" : " ") + a;
    const char* L = line.c_str();
    if (wrong) {
        if (!status || fs.opened) addViol(rt::V_WRONG, P18, "\"%s\" is accepted (status %d, %llu files read)", L, status, (unsigned long long)fs.opened);
        return;
    }
    if (failAt >= 0) {
        S->cnt[C_NOTHREAD]++;
        if (!status) addViol(rt::V_WRONG, P18, "\"%s\" could not create thread %d, yet ends with status 0", L, failAt);
        return;
    }
    if (status) { addViol(rt::V_WRONG, P18, "\"%s\" ends with status %d", L, status); return; }
    text = plain(text);
    auto value = [&](const char* label, double* v) {
        std::string s = std::string("\n") + label + " = ";
        size_t at = text.find(s);
        char* end = nullptr;
        if (at != std::string::npos) *v = strtod(text.c_str() + at + s.size(), &end);
        if (!end || end == text.c_str() + at + s.size()) { addViol(rt::V_WRONG, P18, "\"%s\" does not report \"%s\"", L, label); return false; }
        return true;
    };
    double vp, vt, vf, vn, vc = 0, vr, vm;
    if (!value("positives", &vp) || !value("true positives", &vt) || !value("false positives", &vf) || !value("true negatives", &vn)
        || (!mt && !value("count", &vc)) || !value("False Positive Rate", &vr) || !value("Memory", &vm)) return;
    obs((uint64_t)vp); obs((uint64_t)vc); obs((uint64_t)vm);
    if (alter) for (auto& k : txn) { if (k.size() > pos) k[k.size() - 1 - pos] = '+'; else k[0] = '+'; }
    auto upTo = [&](const std::string& k) {
        if (ints) return number8(ofKey(k) + kIntReach);
        std::string t = k;
        t[t.size() - 1] = (char)(t[t.size() - 1] + 128);
        return t;
    };
    std::vector<std::string> sorted = load;
    std::sort(sorted.begin(), sorted.end());
    SutCfg c;
    c.st = type == 4 ? 0 : type;
    if (c.st & 1) c.hl = sl;
    if (c.st & 2) c.rl = sl;
    Model M(sorted, c);
    std::vector<const std::string*> kp;
    for (auto& k : sorted) kp.push_back(&k);
    void* ref = nullptr;
    if (!okay(type == 4 ? sut_bench_build(&ref, 4, sl, kp) : sut_build(&ref, kp, c), K_PROG)) return;
    double ep = 0, lo = 0, hi = 0, ec = 0, em = 0;
    for (size_t i = 0; i < txn.size() && ok; i++) {
        const std::string& k = txn[i];
        int x = 0; uint64_t y = 0;
        bool range = query == 1 || (query == 2 && i % 2);
        if (query >= 3) {
            if (query == 3 && i + 1 >= txn.size()) break;
            std::string a = k, b = query == 3 ? txn[i + 1] : upTo(k);
            if (b < a) std::swap(a, b);
            ok = okay(sut_count(ref, a, b, &y), K_PROG);
            ec += y;
        } else if (range) {
            std::string t = upTo(k);
            ok = okay(sut_range(ref, k, true, t, true, &x), K_PROG);
            ep += x != 0;
            lo += M.lower(t) > M.lower(k); hi += M.upper(t) > M.lower(k);
        } else {
            if (type == 4) { ok = okay(sut_bench_ask(ref, 0, k, "", &y), K_PROG); x = y != 0; } else ok = okay(sut_lookup(ref, k, &x), K_PROG);
            ep += x != 0;
            int l = M.lower(k);
            bool in = l < M.n() && M.K[l] == k;
            lo += in; hi += in;
        }
    }
    uint64_t sz[4] = {0, 0, 0, 0};
    if (ok) ok = okay(type == 4 ? sut_bench_ask(ref, 3, "", "", &sz[3]) : sut_sizes(ref, sz), K_PROG);
    em = sz[3];
    if (type == 4) okay(sut_bench_destroy(ref, 4), K_PROG); else okay(sut_destroy(ref), K_PROG);
    if (!ok) return;
    double nt = txn.size();
    if (percent == 100) {
        if (vp != ep) addViol(rt::V_WRONG, P18, "\"%s\" reports %.0f positives, its filter gives %.0f (%zu keys, %zu transactions)", L, vp, ep, load.size(), txn.size());
        if (vt < lo || vt > hi) addViol(rt::V_WRONG, P18, "\"%s\" reports %.0f true positives, there are %.0f", L, vt, lo);
        if (!mt && vc != ec) addViol(rt::V_WRONG, P18, "\"%s\" reports a count of %.0f, its filter gives %.0f", L, vc, ec);
        if (vm != em) addViol(rt::V_WRONG, P18, "\"%s\" reports %.0f bytes, its filter takes %.0f", L, vm, em);
    } else if (vt > hi || vp > nt) addViol(rt::V_WRONG, P18, "\"%s\" reports %.0f positives and %.0f true ones of %.0f possible", L, vp, vt, hi);
    if (vf != vp - vt || vf < 0) addViol(rt::V_WRONG, P18, "\"%s\" reports %.0f positives, %.0f true ones and %.0f false ones", L, vp, vt, vf);
    if (vn != nt - vp) addViol(rt::V_WRONG, P18, "\"%s\" reports %.0f positives of %.0f transactions and %.0f true negatives", L, vp, nt, vn);
    double er = vf > 0 ? vf / (vn + vf) : 0;
    if (vr < er * 0.9999 - 1e-9 || vr > er * 1.0001 + 1e-9) addViol(rt::V_WRONG, P18, "\"%s\" reports a false positive rate of %g, it is %g", L, vr, er);
}

static void runOp(const Op& op) {
    int tid = rt::currentTid();
    ThreadCtx& t = g_ctx[tid];
    t.op = &op;
    t.c = Concrete();
    t.resHash = 14695981039346656037ull;
    t.oomNow = op.oom >= 0;
    S->curUid[tid] = op.uid; S->curKind[tid] = op.kind; S->curOom[tid] = op.oom >= 0; S->curTid = tid;
    S->cnt[C_OPS]++;
    S->distinctOps |= 1ull << op.kind;
    rt::opBegin(op.uid, budgetFor(op), op.oom, op.oomPersist);
    S->curTid = tid;
    switch (op.kind) {
    case K_BUILD: {
        if (filt(op.a) || op.b < 0 || op.b >= (long)P->ks.size() || op.c >= (long)P->cfg.size() || P->ks[op.b].keys.empty()) break;
        std::vector<const std::string*> kp;
        for (auto& k : P->ks[op.b].keys) kp.push_back(&k);
        void* f = nullptr;
        S->cnt[C_BUILD]++;
        setC(K_BUILD);
        uint64_t live0 = rt::liveBytes();
        if (okay(sut_build(&f, kp, P->cfg[op.c]), K_BUILD)) {
            workLinear(W_BUILD, rt::lastWork(), buildAllowance((int)op.b) * (P->cfg[op.c].form == 4 ? 2 : 1), "building");
            putFilter((int)op.a, f, (int)op.b, (int)op.c, false, nullptr, S->parallelNow ? 0 : rt::liveBytes() - live0);
        }
        break;
    }
    case K_DESTROY: destroyFilter((int)op.a); break;
    case K_LOOKUP: if (Filter* F = filt(op.a)) doLookup(*F, op.s, 0); break;
    case K_RANGE: if (Filter* F = filt(op.a)) if (op.s <= op.t) doRange(*F, op.s, op.b, op.t, op.c, 0); break;
    case K_COUNT: if (Filter* F = filt(op.a)) if (op.s <= op.t) doCount(*F, op.s, op.t, 0); break;
    case K_COUNTIT: {
        Pos *x = pos(op.b), *y = pos(op.c);
        if (!x || !y || x->filter != y->filter) break;
        bool both = x->valid && y->valid;
        if (both && x->at > y->at) std::swap(x, y);
        uint64_t n = 0;
        setC(K_COUNTIT);
        S->cnt[C_COUNT]++;
        if (!okay(sut_count_it(filt(x->filter)->f, x->it, y->it, &n), K_COUNTIT)) break;
        work(*filt(x->filter), W_COUNT, 0);
        obs(n);
        if (!both) {
            if (n) addViol(rt::V_WRONG, P06 | oomBit(), "count between two positions of which one is not valid is %llu", (unsigned long long)n);
            break;
        }
        long tr = y->at - x->at + 1;
        Model& M = *filt(x->filter)->m;
        if ((long)n > tr || (long)n < tr - 2)
            addViol(rt::V_WRONG, P06 | oomBit(), "count between the positions at %s and %s is %llu, %ld keys lie there", sh(M.K[x->at]).c_str(), sh(M.K[y->at]).c_str(), (unsigned long long)n, tr);
        break;
    }
    case K_SEEK: case K_END: {
        Filter* F = filt(op.a);
        if (!F) break;
        int how = op.c & 2 ? 1 : 0;
        Pos p;
        if (Pos* old = pos(op.b)) {
            if (how) { p.it = old->it; g_it.erase((int)op.b); S->cnt[C_REASSIGN]++; }
            else dropPos(*old);
        }
        p.filter = (int)op.a;
        bool ok = op.kind == K_SEEK ? doSeek(*F, op.c & 1, op.s, op.d, 0, &p, how) : doEnd(*F, op.c & 1, 0, &p, how);
        if (p.it && ok && (!p.valid || p.at >= 0)) g_it[(int)op.b] = p;
        else dropPos(p);
        break;
    }
    case K_STEP: case K_WALK: {
        Pos* p = pos(op.b);
        if (!p) break;
        rt::Rng r(op.d);
        long n = labs(op.c);
        bool ok = true;
        Filter& F = *filt(p->filter);
        bool f = op.kind == K_WALK ? r.chance(1, 2) : op.c > 0;
        for (long i = 0; i < n && ok; i++) {
            if (op.kind == K_WALK) { if (r.chance(1, 4)) f = !f; if (!p->valid && i > 2) break; }
            ok = doStep(*p, F, f, 0);
        }
        if (!ok) { dropPos(*p); g_it.erase((int)op.b); }
        break;
    }
    case K_SHOW: {
        Pos* p = pos(op.b);
        if (p && p->valid) {
            ItInfo in; int at;
            Filter& F = *filt(p->filter);
            setC(K_SHOW, &op.s);
            if (!readPos(p->it, *F.m, &in, &at, K_SHOW)) break;
            if (!in.valid || at != p->at)      // moved although nobody stepped it
                addViol(rt::V_WRONG, P05 | oomBit(), "a position left at %s is now at %s", sh(F.m->K[p->at]).c_str(), in.valid ? sh(in.key).c_str() : "the end");
            else checkShow(p->it, F, p->at, &op.s, 0);
        }
        break;
    }
    case K_COPYIT: {
        Pos* p = pos(op.b);
        if (!p || pos(op.c)) break;
        Pos q = *p;
        q.it = nullptr;
        setC(K_COPYIT);
        if (okay(sut_copy(p->it, &q.it), K_COPYIT)) g_it[(int)op.c] = q;
        break;
    }
    case K_ASSIGN: {
        Pos *p = pos(op.b), *q = pos(op.c);
        if (!p || !q || p == q) break;
        setC(K_ASSIGN);
        void* it = q->it;
        if (okay(sut_assign(q->it, p->it), K_ASSIGN)) { *q = *p; q->it = it; }
        else if (t.oomNow) { dropPos(*q); g_it.erase((int)op.c); }   // only basic guarantee for the target of a failed copy
        break;
    }
    case K_CLEARIT: if (Pos* p = pos(op.b)) {
        setC(K_CLEARIT);
        ItInfo in;
        if (!okay(sut_clear(p->it), K_CLEARIT) || !okay(sut_info(p->it, &in), K_CLEARIT)) break;
        if (in.valid) addViol(rt::V_WRONG, P05 | oomBit(), "a cleared position is still valid at %s", sh(in.key).c_str());
        p->valid = false;
        break;
    }
    case K_DROPIT: if (Pos* p = pos(op.b)) { dropPos(*p); g_it.erase((int)op.b); } break;
    case K_SWEEP: if (Filter* F = filt(op.a)) sweep(*F); break;
    case K_QRY: if (Filter* F = filt(op.a)) bulkQuery(*F, op.d, op.b, op.c); break;
    case K_PROBE: if (Filter* F = filt(op.a)) probeAbsent(*F, op.d, op.b, op.c); break;
    case K_DIFF: { Filter *A = filt(op.a), *B = filt(op.b); if (A && B) diff(*A, *B, op.d, op.c); break; }
    case K_IMG: if (Filter* F = filt(op.a)) doImage(*F, true); break;
    case K_SER: if (Filter* F = filt(op.a)) {
        std::string b; uint64_t n;
        setC(K_SER);
        S->cnt[C_IMAGE]++;
        if (okay(sut_serialize(F->f, &b, &n), K_SER)) { workLinear(W_SAVE, rt::lastWork(), 4000 + 3.0 * n, "saving"); obs(hashStr(b)); g_img[(int)op.b] = Img{b, F->ks, F->cfg}; }
        }
        break;
    case K_DESER: { auto i = g_img.find((int)op.a); if (i != g_img.end() && !filt(op.b)) restoreInto((int)op.b, i->second.bytes, i->second.ks, i->second.cfg, op.c, op.d); break; }
    case K_SAVE: if (Filter* F = filt(op.a)) {
        std::string b; uint64_t n;
        setC(K_SER);
        S->cnt[C_IMAGE]++;
        S->saving = 2;
        if (okay(sut_serialize(F->f, &b, &n), K_SER)) { obs(diskSave((int)op.b, b, F->ks, F->cfg)); }
        S->saving = 0;
        }
        break;
    case K_LOAD: if (!filt(op.b)) {
        std::string b; int ks, cfg;
        bool ok = diskLoad((int)op.a, &b, &ks, &cfg);
        obs(ok);
        if (ok && restoreInto((int)op.b, b, ks, cfg, op.c, op.d)) S->cnt[C_RECOVERED]++;
        }
        break;
    case K_CYCLE: cycle(op); break;
    case K_SIZES: if (Filter* F = filt(op.a)) {
        uint64_t s[4];
        setC(K_SIZES);
        if (okay(sut_sizes(F->f, s), K_SIZES)) for (int i = 0; i < 4; i++) obs(s[i]);
        }
        break;
    case K_SPACE: if (Filter* F = filt(op.a)) space(*F); break;
    case K_INTS: integers(op.d, op.c); break;
    case K_BENCH: if (op.a >= 8) again(op, P16); else benchFilter(op); break;
    case K_KEYS: keyFiles(op); break;
    case K_PROG: program(op); break;
    case K_TRIE: if (op.a >= 8) again(op, P19); else trie(op); break;
    case K_PARTS: if (op.a >= 8) again(op, P17); else parts((int)op.a, op.c, op.d); break;
    }
    rt::OpStats st = rt::opEnd();
    S->cnt[C_ALLOCS] += st.allocs;
    if (st.oomFired) { S->cnt[C_OOM_FIRED]++; }
    else if (op.oom >= 0) { /* the call made fewer allocations: not a fault */ }
    t.oomNow = false;
    t.c = Concrete();
    fold(t.resHash); fold(op.uid); fold(st.events);
    S->curKind[tid] = -1;
}

// parallel phases
static std::vector<std::vector<const Op*>> g_thrOps;
static std::map<int, uint64_t> g_ref;          // op uid -> result hash when run alone
static void body(int tid) {
    for (const Op* op : g_thrOps[tid]) {
        S->curTid = tid;
        runOp(*op);
        S->curTid = rt::currentTid();
        uint64_t h = g_ctx[tid].resHash;
        auto i = g_ref.find(op->uid);
        if (i != g_ref.end() && i->second != h)
            addViol(rt::V_MISMATCH, P09 | (op->kind == K_TRIE ? P19 : 0), "%s (op %d) by thread %d gives another result than when it runs alone", kindName(op->kind), op->uid, tid);
    }
}
static void dropPrivate() {                    // handles >= 1000 belong to one thread of the phase
    static Op none; none.uid = -7; none.kind = K_DESTROY;
    g_ctx[0].op = &none;
    std::vector<int> v;
    for (auto& i : g_it) if (i.first >= 1000) v.push_back(i.first);
    for (int i : v) { dropPos(g_it[i]); g_it.erase(i); }
    v.clear();
    for (auto& f : g_f) if (f.first >= 1000) v.push_back(f.first);
    for (int f : v) destroyFilter(f);
    g_ctx[0].op = nullptr;
}

static void runIncarnation() {
    std::vector<const Op*> ops;
    for (auto& o : P->ops) if (o.inc == g_inc) ops.push_back(&o);
    rt::HeapCfg hc = P->heap;
    hc.seed = rt::mix(hc.seed, g_inc);
    rt::incarnationBegin(hc);
    rt::onCrash = doCrash;
    for (auto& c : P->crashes) if (c.inc == g_inc) rt::setCrashAt(c.ev);
    S->cnt[C_HEAPGARBAGE]++;
    if (hc.reuse) S->cnt[C_HEAPREUSE]++;
    size_t i = 0;
    while (i < ops.size()) {
        size_t j = i;
        int nthr = 0;
        while (j < ops.size() && ops[j]->phase == ops[i]->phase) { nthr = std::max(nthr, ops[j]->thr); j++; }
        if (nthr == 0) for (size_t k = i; k < j; k++) runOp(*ops[k]);
        else {
            if (nthr >= rt::kMaxThreads) nthr = rt::kMaxThreads - 1;
            g_thrOps.assign(nthr + 1, {});
            for (size_t k = i; k < j; k++) if (ops[k]->thr >= 1 && ops[k]->thr <= nthr) g_thrOps[ops[k]->thr].push_back(ops[k]);
            g_ref.clear();
            // reference: every thread's calls, alone
            for (int t = 1; t <= nthr; t++)
                for (const Op* o : g_thrOps[t]) { runOp(*o); g_ref[o->uid] = g_ctx[0].resHash; }
            dropPrivate();
            rt::SchedCfg sc;
            for (auto& s : P->sched) if (s.inc == g_inc && s.phase == ops[i]->phase) sc = s.sc;
            // the tables must not be restructured while threads hold pointers into them: std::map is stable
            S->cnt[C_PARALLEL]++;
            S->parallelNow = 1;
            size_t r0 = rt::recorded().size();
            rt::runThreads(nthr, sc, body);
            S->parallelNow = 0;
            S->curTid = 0;
            auto& rec = rt::recorded();
            for (size_t k = r0; k < rec.size(); k++)
                if (S->nrec < 60000) { S->rec[S->nrec].inc = g_inc; S->rec[S->nrec].phase = ops[i]->phase; S->rec[S->nrec].sw = rec[k]; S->nrec++; }
            dropPrivate();
        }
        i = j;
    }
    // orderly end: everything is destroyed
    static Op fin; fin.uid = -8; fin.kind = K_DESTROY;
    g_ctx[0].op = &fin;
    S->curKind[0] = K_DESTROY;
    std::vector<int> v;
    for (auto& f : g_f) v.push_back(f.first);
    for (auto& p : g_it) dropPos(p.second);
    g_it.clear();
    for (int f : v) destroyFilter(f);
    rt::SchedStats ss = rt::schedStats();
    S->cnt[C_SWITCH] += ss.switches; S->cnt[C_PREEMPT] += ss.preemptions; S->cnt[C_STALL] += ss.stalls;
    S->cnt[C_RACECHK] += ss.racesChecked; S->cnt[C_RACEDROP] += ss.dropped;
    S->schedHash = rt::mix(S->schedHash, ss.hash);
    fold(rt::traceHash());
    S->cnt[C_EVENTS] += rt::events();
    S->incEvents[g_inc & 7] = rt::events();
    S->done = 1;
    _exit(0);
}

static const char* sigName(int s) {
    return s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGBUS ? "SIGBUS" : s == SIGKILL || s == SIGXCPU ? "no progress (CPU limit)" : "signal";
}

// Runs fn on a stack at a fixed address whose contents are chosen by the simulator,
// so that what an uninitialised local reads is part of the seed.
static void onOwnStack(uint64_t seed, void (*fn)()) {
    const size_t n = 4u << 20;
    void* base = mmap((void*)0x6F0000000000ull, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (base == MAP_FAILED) { fn(); return; }
    rt::fillStack((char*)base + n - 131072, 131072, seed);
    static ucontext_t c, back;
    getcontext(&c);
    c.uc_stack.ss_sp = base;
    c.uc_stack.ss_size = n;
    c.uc_link = &back;
    makecontext(&c, fn, 0);
    swapcontext(&back, &c);
}

static uint64_t cpuOf(pid_t pid) {
    char f[64], b[1024];
    snprintf(f, sizeof f, "/proc/%d/stat", (int)pid);
    FILE* h = fopen(f, "r");
    if (!h) return 0;
    size_t n = fread(b, 1, sizeof b - 1, h);
    fclose(h);
    b[n] = 0;
    char* p = strrchr(b, ')');
    unsigned long ut = 0, st = 0;
    if (p) sscanf(p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
    return ut + st;
}
Outcome execute(const Plan& p) {
    P = &p;
    g_canon.clear(); g_canonCfg.clear();
    std::vector<std::vector<std::string>> dist;
    for (auto& k : p.ks) {
        dist.push_back(k.keys);
        dist.back().erase(std::unique(dist.back().begin(), dist.back().end()), dist.back().end());
        int c = 0;
        while (dist[c] != dist.back()) c++;
        g_canon.push_back(c);
    }
    auto eff = [](SutCfg c) {
        if (c.form == 1 || c.form == 2) { c.dense = true; c.ratio = 16; }
        if (c.form == 1) { c.st = 0; c.hl = c.rl = 0; }
        return c;
    };
    for (size_t i = 0; i < p.cfg.size(); i++) {
        SutCfg a = eff(p.cfg[i]);
        size_t c = 0;
        for (; c < i; c++) { SutCfg b = eff(p.cfg[c]); if (a.dense == b.dense && a.ratio == b.ratio && a.st == b.st && a.hl == b.hl && a.rl == b.rl) break; }
        g_canonCfg.push_back((int)c);
    }
    // reset everything but the (large) disk areas, whose validity is tracked by sizes
    S->nviol = 0; S->nrec = 0; S->nimg = 0; S->result = 1; S->schedHash = 1; S->distinctOps = 0;
    memset(S->cnt, 0, sizeof S->cnt); memset(S->workMax, 0, sizeof S->workMax);
    memset(S->incEvents, 0, sizeof S->incEvents);
    memset(S->size, 0, sizeof S->size); memset(S->durableSize, 0, sizeof S->durableSize);
    memset(S->exists, 0, sizeof S->exists); memset(S->durableExists, 0, sizeof S->durableExists);
    S->pendingRename = 0; S->diskStep = 0; S->saving = 0;
    Outcome out;
    for (int inc = 0; inc < p.incs; inc++) {
        g_inc = inc;
        S->done = 0; S->parallelNow = 0; S->curTid = 0; S->diskStep = 0;
        for (int i = 0; i < rt::kMaxThreads; i++) { S->curUid[i] = -1; S->curKind[i] = -1; S->curOom[i] = 0; }
        S->cnt[C_INCS]++;
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(2); }
        if (pid == 0) {
            struct rlimit rl = {150, 160};
            setrlimit(RLIMIT_CPU, &rl);                  // last resort; the step budget comes first
            onOwnStack(p.heap.seed, runIncarnation);
            _exit(0);
        }
        int st = 0;
        struct timespec ts = {0, 200000};
        double waited = 0;
        bool killed = false;
        uint64_t lastCpu = ~0ull; int idle = 0;
        for (;;) {
            pid_t w = waitpid(pid, &st, WNOHANG);
            if (w == pid) break;
            nanosleep(&ts, nullptr);
            waited += ts.tv_nsec * 1e-9;
            if (waited > 0.02) ts.tv_nsec = 2000000;
            if (waited > 5 && !killed) {                 // asleep for good (waits for something outside the simulation)?
                double w = waited / 5;
                if ((long)w != (long)((waited - ts.tv_nsec * 1e-9) / 5)) {
                    uint64_t c = cpuOf(pid);
                    idle = c == lastCpu ? idle + 1 : 0;
                    lastCpu = c;
                }
                if (idle >= 6 || waited > 400) { kill(pid, SIGKILL); killed = true; }
            }
        }
        fold(S->done);
        if (S->done == 1 || S->done == 2) { /* finished, or stopped at a fatal violation */ }
        else if (S->done == 3) { diskCrashRecover(rt::mix(p.diskSeed, inc)); }
        if (S->done == 2) { S->cnt[C_ABORTED]++; break; }
        if (S->done == 0) {                          // died by itself
            S->cnt[C_ABORTED]++;
            int t = S->curTid;
            Viol v;
            memset(&v, 0, sizeof v);
            v.uid = S->curUid[t]; v.kind = S->curKind[t]; v.ckind = -1;
            bool oom = S->curOom[t];
            if (WIFSIGNALED(st)) {
                v.cls = killed || WTERMSIG(st) == SIGXCPU ? rt::V_HANG : rt::V_SIGNAL;
                snprintf(v.detail, sizeof v.detail, "process dies with %s in %s (op %d)%s", sigName(WTERMSIG(st)), kindName(v.kind), v.uid,
                         oom ? " with an injected allocation failure" : "");
                fold(WTERMSIG(st));
            } else {
                v.cls = rt::V_EXIT;
                snprintf(v.detail, sizeof v.detail, "process exits with status %d in %s (op %d)", WEXITSTATUS(st), kindName(v.kind), v.uid);
            }
            uint32_t m = oom ? P10 : kindMask(v.kind);
            if (v.kind == K_QRY) m = P01 | P02 | P03 | P04 | P05 | P06 | P12;
            if (v.kind == K_SWEEP) m = P01 | P05 | P12;
            if (v.kind == K_CYCLE) m |= P07;
            if (S->parallelNow && !oom) m |= P09;
            if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS)) m |= P11;
            if (v.cls == rt::V_HANG) m |= P15;
            if (!m) m = P11;
            v.mask = m;
            if (S->nviol < kMaxViol) S->viol[S->nviol++] = v;
            break;
        }
    }
    for (int i = 0; i < S->nviol; i++) out.viols.push_back(S->viol[i]);
    out.hash = S->result;
    out.schedHash = S->schedHash;
    memcpy(out.cnt, S->cnt, sizeof out.cnt); memcpy(out.workMax, S->workMax, sizeof out.workMax);
    out.oomFired = S->cnt[C_OOM_FIRED] > 0;
    out.recTruncated = S->nrec >= 60000;
    for (int i = 0; i < S->nrec; i++) {
        if (out.recorded.empty() || out.recorded.back().inc != S->rec[i].inc || out.recorded.back().phase != S->rec[i].phase) {
            PhaseSched ps; ps.inc = S->rec[i].inc; ps.phase = S->rec[i].phase; ps.sc.mode = 9;
            out.recorded.push_back(ps);
        }
        out.recorded.back().sc.list.push_back(S->rec[i].sw);
    }
    return out;
}
