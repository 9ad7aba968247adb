// A plan is one simulated execution, completely: keys, configurations, the
// operations of every process incarnation and thread, the faults and the
// schedule. It can be generated from a seed or read from a replay file.
#pragma once
#include <string>
#include <vector>
#include "rt.h"
#include "sut_api.h"

enum Kind {
    K_BUILD = 0,  // a=filter b=keyset c=cfg
    K_DESTROY,    // a=filter
    K_LOOKUP,     // a=filter s=q
    K_RANGE,      // a=filter s=l t=r b=li c=ri
    K_COUNT,      // a=filter s=l t=r
    K_COUNTIT,    // a=filter b=it c=it
    K_SEEK,       // a=filter b=it c=less (+2: assigned to the position b, to an empty one if there is none) d=inclusive s=q
    K_END,        // a=filter b=it c=last (+2 as above)
    K_STEP,       // b=it c=number of steps (negative: backwards)
    K_WALK,       // b=it c=number of steps d=seed (random directions)
    K_SHOW,       // b=it s=q  (suffix, key with suffix, compare with q)
    K_COPYIT,     // b=it c=new it
    K_ASSIGN,     // b=it c=existing it, overwritten
    K_DROPIT,     // b=it
    K_SWEEP,      // a=filter  full iteration both ways, every stored key looked up
    K_QRY,        // a=filter b=from c=count d=seed : random queries; d%8 = 4 only point queries, 5 ranges, 6 seeks, 7 counts
    K_PROBE,      // a=filter b=from c=count d=seed : absent keys under stored prefixes
    K_DIFF,       // a=filter b=other filter c=count d=seed
    K_IMG,        // a=filter : image size, repeatability, equality with every image of these keys
    K_SER,        // a=filter b=image
    K_DESER,      // a=image b=filter c=offset d=buffer mode
    K_SAVE,       // a=filter b=file
    K_LOAD,       // a=file b=filter c=offset d=buffer mode
    K_CYCLE,      // b=keyset c=cfg d=seed : repeated build/use/save/restore/destroy, memory must not grow
    K_SIZES,      // a=filter
    K_SPACE,      // a=filter : what it holds, what it reports, what its encoding should take
    K_INTS,       // c=count d=seed : integers to keys and back
    K_BENCH,      // a=type b=keyset c=suffix length d=seed : a filter of the benchmark, built, asked, destroyed; a+8: five times, memory must not grow
    K_CLEARIT,    // b=it
    K_PARTS,      // a=kind c=size d=seed : a bit, label or suffix vector on its own, built, asked, saved, restored, asked, destroyed; a+8: five times, memory must not grow
    K_KEYS,       // a=form c=keys d=seed : a key file, loaded under read faults; a share of the keys selected
    K_PROG,       // a=0 workload, 1 workload_multi_thread b=threads (+8: none runs before it is waited for) c=size d=seed : the program, run on files of its own
    K_TRIE,       // a=0 b=keyset c=cfg d=seed : the builder's vectors against the trie of the keys, the two halves asked, saved, restored; a+8: five times, memory must not grow
    K_NUM
};
const char* kindName(int k);

struct Op {
    int uid = 0, inc = 0, phase = 0, thr = 0, kind = 0;
    long a = 0, b = 0, c = 0, d = 0;
    std::string s, t;
    long oom = -1;
    bool oomPersist = false;
};
struct PhaseSched { int inc, phase; rt::SchedCfg sc; };
struct Crash { int inc; uint64_t ev; };                  // process dies at this event of the incarnation
struct DiskFault { int inc; int step; int what; };       // at the n-th disk call: 1 EIO 2 ENOSPC 3 short 4 crash
struct KeySet { std::vector<std::string> keys; };        // sorted, duplicates allowed, non-empty

struct Plan {
    uint64_t seed = 0;
    std::string prop = "P01";
    rt::HeapCfg heap;
    uint64_t diskSeed = 1;
    int incs = 1;
    std::vector<KeySet> ks;
    std::vector<SutCfg> cfg;
    std::vector<Op> ops;
    std::vector<PhaseSched> sched;
    std::vector<Crash> crashes;
    std::vector<DiskFault> dfaults;
    std::string family;
};

Plan generate(uint64_t seed, const std::string& prop, int profile /*0 quick 1 thorough*/);
std::string print(const Plan&);
bool parse(const std::string& text, Plan*, std::string* err);
std::string hex(const std::string&);
bool unhex(const std::string&, std::string*);
// A query key derived from the stored keys (also used by the bulk operations).
std::string queryKey(rt::Rng& r, const std::vector<std::string>& keys);
std::string mutateKey(rt::Rng& r, const std::string& k);
