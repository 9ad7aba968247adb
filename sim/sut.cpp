// The only translation unit that contains the library (it is header-only and
// its headers define non-inline functions). Compiled with the compiler's
// memory-access instrumentation; everything below runs real library code.
#include <string>
#include <vector>
#include <exception>
#include <new>
#include <stdio.h>
#include <stdlib.h>
#include <iostream>

#include "surf.hpp"
#ifndef SURFSIM_NO_BENCH
#include "bench.hpp"
#include "filter_factory.hpp"
#endif

#include <setjmp.h>
#include <pthread.h>
#include <stdio.h>
#include <sys/mman.h>
#include <unistd.h>
#include "rt.h"
#include "sut_api.h"

using surf::SuRF;

#define GUARDED(...) \
    rt::InSut in_; rt::Meter me_; \
    try { __VA_ARGS__ } \
    catch (const std::bad_alloc&) { return S_OOM; } \
    catch (...) { return S_EXC; } \
    return S_OK;

namespace {
// A caller's std::string living in checked memory, built without injected failures.
struct Q {
    std::string* s;
    explicit Q(const std::string& v) {
        rt::InSut i; rt::CallerMem c;
        s = new (rt::callerAlloc(sizeof(std::string))) std::string(v.data(), v.size());
    }
    ~Q() {
        rt::InSut i; rt::CallerMem c;
        s->~basic_string();
        rt::callerFree(s);
    }
};
void out(std::string* dst, const std::string& src) {   // copy to the driver's own memory
    struct Leave { int dummy; } l; (void)l;
    dst->assign(src.data(), src.size());
}
}

namespace {
// What the program prints: kept outside the simulated memory.
struct Captured : std::streambuf {
    int overflow(int c) { char x = (char)c; if (c != -1) rt::emit(&x, 1); return 0; }
    std::streamsize xsputn(const char* s, std::streamsize k) { rt::emit(s, (size_t)k); return k; }
};
}

int sut_build(void** f, const std::vector<const std::string*>& keys, const SutCfg& c) {
    typedef std::vector<std::string> V;
    V* v;
    {
        rt::InSut i; rt::CallerMem cm;
        v = new (rt::callerAlloc(sizeof(V))) V();
        v->reserve(keys.size());
        for (size_t k = 0; k < keys.size(); k++) v->push_back(std::string(keys[k]->data(), keys[k]->size()));
    }
    struct Free {
        V* v;
        ~Free() { rt::InSut i; rt::CallerMem cm; v->~V(); rt::callerFree(v); }
    } fr = {v};
    *f = nullptr;
    SuRF* s = nullptr;
    GUARDED(
        surf::SuffixType st = (surf::SuffixType)c.st;
        if (c.form == 1) s = new SuRF(*v);
        else if (c.form == 2) s = new SuRF(*v, st, c.hl, c.rl);
        else if (c.form == 4) {                             // an object used before
            s = new SuRF(*v, !c.dense, c.ratio, surf::kMixed, 5, 3);
            s->destroy();
            s->create(*v, c.dense, c.ratio, st, c.hl, c.rl);
        }
        else if (c.form == 3) { s = new SuRF(); s->create(*v, c.dense, c.ratio, st, c.hl, c.rl); }
        else s = new SuRF(*v, c.dense, c.ratio, st, c.hl, c.rl);
        *f = s;
    )
}
int sut_destroy(void* f) { GUARDED( ((SuRF*)f)->destroy(); delete (SuRF*)f; ) }
int sut_lookup(void* f, const std::string& q, int* r) { Q k(q); GUARDED( *r = ((SuRF*)f)->lookupKey(*k.s); ) }
int sut_range(void* f, const std::string& l, bool li, const std::string& r, bool ri, int* o) {
    Q a(l), b(r);
    GUARDED( *o = ((SuRF*)f)->lookupRange(*a.s, li, *b.s, ri); )
}
int sut_count(void* f, const std::string& l, const std::string& r, uint64_t* o) {
    Q a(l), b(r);
    GUARDED( *o = ((SuRF*)f)->approxCount(*a.s, *b.s); )
}
int sut_count_it(void* f, void* a, void* b, uint64_t* o) {
    GUARDED( *o = ((SuRF*)f)->approxCount((SuRF::Iter*)a, (SuRF::Iter*)b); )
}
int sut_seek(void* f, bool less, const std::string& q, bool inc, void** it, int how) {
    Q k(q);
    if (!how) *it = nullptr;
    GUARDED(
        if (how) {
            if (!*it) *it = new SuRF::Iter();
            *(SuRF::Iter*)*it = less ? ((SuRF*)f)->moveToKeyLessThan(*k.s, inc) : ((SuRF*)f)->moveToKeyGreaterThan(*k.s, inc);
            return S_OK;
        }
        *it = less ? new SuRF::Iter(((SuRF*)f)->moveToKeyLessThan(*k.s, inc))
                   : new SuRF::Iter(((SuRF*)f)->moveToKeyGreaterThan(*k.s, inc));
    )
}
int sut_end(void* f, bool last, void** it, int how) {
    if (!how) *it = nullptr;
    GUARDED(
        if (how) {
            if (!*it) *it = new SuRF::Iter();
            *(SuRF::Iter*)*it = last ? ((SuRF*)f)->moveToLast() : ((SuRF*)f)->moveToFirst();
            return S_OK;
        }
        *it = last ? new SuRF::Iter(((SuRF*)f)->moveToLast()) : new SuRF::Iter(((SuRF*)f)->moveToFirst()); )
}
int sut_step(void* it, bool fwd, int* ret) {
    GUARDED( *ret = fwd ? (*(SuRF::Iter*)it)++ : (*(SuRF::Iter*)it)--; )
}
int sut_copy(void* it, void** o) { *o = nullptr; GUARDED( *o = new SuRF::Iter(*(SuRF::Iter*)it); ) }
int sut_assign(void* d, void* s) { GUARDED( *(SuRF::Iter*)d = *(SuRF::Iter*)s; ) }
int sut_clear(void* it) { GUARDED( ((SuRF::Iter*)it)->clear(); ) }
int sut_drop(void* it) { GUARDED( delete (SuRF::Iter*)it; ) }
int sut_info(void* it, ItInfo* o) {
    std::string* r = nullptr;
    int rc;
    auto go = [&]() -> int {
        GUARDED(
            SuRF::Iter* i = (SuRF::Iter*)it;
            o->valid = i->isValid();
            o->flag = o->valid ? i->getFpFlag() : 0;
            if (o->valid) r = new std::string(i->getKey());
        )
    };
    rc = go();
    o->key.clear();
    if (r) { out(&o->key, *r); rt::InSut i; delete r; }
    return rc;
}
int sut_suffix(void* it, int* len, uint64_t* bits, std::string* kws, unsigned* bitlen) {
    std::string* r = nullptr;
    auto go = [&]() -> int {
        GUARDED(
            SuRF::Iter* i = (SuRF::Iter*)it;
            surf::word_t w = 0x5a5a5a5a5a5a5a5aull;
            *len = i->getSuffix(&w);
            *bits = w;
            r = new std::string(i->getKeyWithSuffix(bitlen));
        )
    };
    int rc = go();
    kws->clear();
    if (r) { out(kws, *r); rt::InSut i; delete r; }
    return rc;
}
int sut_compare(void* it, const std::string& q, int* o) { Q k(q); GUARDED( *o = ((SuRF::Iter*)it)->compare(*k.s); ) }
int sut_serialize(void* f, std::string* image, uint64_t* announced) {
    char* d = nullptr;
    uint64_t n = 0;
    auto go = [&]() -> int { GUARDED( n = ((SuRF*)f)->serializedSize(); d = ((SuRF*)f)->serialize(); ) };
    int rc = go();
    *announced = n;
    image->clear();
    if (d) { image->assign(d, n); rt::InSut i; delete[] d; }
    return rc;
}
int sut_deserialize(void** f, const std::string& image, unsigned off, int bufmode, void** keep, bool* altered) {
    // bufmode 0: buffer stays as it is until freed; 1: overwritten after the call; 2: freed after the call
    char* b;
    { rt::InSut i; rt::CallerMem c; b = (char*)rt::callerAlloc(image.size() + off); }
    for (size_t i = 0; i < image.size(); i++) b[off + i] = image[i];
    *f = nullptr;
    *keep = nullptr;
    auto go = [&]() -> int { GUARDED( *f = SuRF::deSerialize(b + off); ) };
    int rc = go();
    *altered = false;
    for (size_t i = 0; i < image.size(); i++) if (b[off + i] != image[i]) { *altered = true; break; }
    if (bufmode == 2) { rt::InSut i; rt::callerFree(b); }
    else {
        if (bufmode == 1) for (size_t i = 0; i < image.size() + off; i++) b[i] = (char)(0x5A ^ i);
        *keep = b;
    }
    return rc;
}
void sut_free_buffer(void* k) { rt::InSut i; rt::callerFree(k); }
int sut_sizes(void* f, uint64_t o[4]) {
    GUARDED(
        SuRF* s = (SuRF*)f;
        o[0] = s->getHeight(); o[1] = s->getSparseStartLevel(); o[2] = s->serializedSize(); o[3] = s->getMemoryUsage();
    )
}
int sut_int_key(uint64_t v, bool bench, std::string* key, uint64_t* back) {
    std::string* r = nullptr;
    auto go = [&]() -> int {
        GUARDED(
#ifndef SURFSIM_NO_BENCH
            if (bench) { r = new std::string(bench::uint64ToString(v)); *back = bench::stringToUint64(*r); } else
#endif
            { r = new std::string(surf::uint64ToString(v)); *back = surf::stringToUint64(*r); }
        )
    };
    int rc = go();
    key->clear();
    if (r) { out(key, *r); rt::InSut i; delete r; }
    return rc;
}
// ------------------------------------------------------------------ programs --
__attribute__((weak)) int surf_workload_main(int, char**);
__attribute__((weak)) int surf_workload_mt_main(int, char**);
bool haveProgram(bool threads) { return threads ? (bool)surf_workload_mt_main : (bool)surf_workload_main; }
namespace {
typedef std::vector<std::string> Strings;
Strings* strings(const std::vector<std::string>& v) {    // with a caller's memory, seen by the code under test
    rt::InSut i; rt::CallerMem cm;
    Strings* r = new (rt::callerAlloc(sizeof(Strings))) Strings();
    for (size_t k = 0; k < v.size(); k++) r->push_back(std::string(v[k].data(), v[k].size()));
    return r;
}
void stringsBack(Strings* s, std::vector<std::string>* to) {
    if (to) { to->resize(s->size()); for (size_t k = 0; k < s->size(); k++) (*to)[k].assign((*s)[k].data(), (*s)[k].size()); }
    rt::InSut i; rt::CallerMem cm;
    s->~Strings(); rt::callerFree(s);
}
}
static jmp_buf g_exitTo;
static pthread_t g_exitBy;
static int g_exitStatus;
static bool g_exits;
extern "C" __attribute__((noreturn)) void surf_prog_exit(int status) {   // exit in a program
    if (!g_exits || !pthread_equal(pthread_self(), g_exitBy)) { fprintf(stderr, "exit by a thread of the program\n"); _exit(3); }
    g_exitStatus = status;
    _longjmp(g_exitTo, 1);
}
int sut_program(bool threads, const std::vector<std::string>& args, int* status, std::string* printed, bool mayDie) {
    std::vector<char*> argv;
    for (size_t i = 0; i < args.size(); i++) {
        rt::InSut in; rt::CallerMem cm;
        argv.push_back((char*)rt::callerAlloc(args[i].size() + 1));
        for (size_t k = 0; k <= args[i].size(); k++) argv.back()[k] = args[i].c_str()[k];
    }
    argv.push_back(nullptr);
    Captured cap;
    rt::emitReset();
    rt::uncheckedLo = &std::cout; rt::uncheckedHi = &std::cout + 1;
    std::streambuf* old = std::cout.rdbuf(&cap);
    std::cout.clear();
    auto go = [&]() -> int {
        rt::InSut in;
        if (_setjmp(g_exitTo)) { *status = g_exitStatus & 255; return S_OK; }
        try { *status = threads ? surf_workload_mt_main((int)args.size(), argv.data()) : surf_workload_main((int)args.size(), argv.data()); }
        catch (const rt::ThreadExit&) { *status = 0; }
        catch (const std::bad_alloc&) { return S_OOM; }
        catch (...) { if (!mayDie) return S_EXC; *status = 134; }
        return S_OK;
    };
    fflush(stdout);                                      // it may also print with printf
    int out = dup(1), text = memfd_create("printed", 0);
    dup2(text, 1);
    g_exitBy = pthread_self(); g_exits = true;
    std::terminate_handler before = std::get_terminate();
    if (mayDie) std::set_terminate([] { surf_prog_exit(134); });   // that a thread cannot be had may end it this way
    int rc = go();
    std::set_terminate(before);
    g_exits = false;
    fflush(stdout);
    dup2(out, 1);
    close(out);
    std::cout.rdbuf(old);
    rt::uncheckedLo = rt::uncheckedHi = nullptr;
    *printed = rt::emitted() + "\n";
    char piece[4096];
    ssize_t k;
    for (off_t at = 0; (k = pread(text, piece, sizeof piece, at)) > 0; at += k) printed->append(piece, (size_t)k);
    close(text);
    for (size_t i = 0; i + 1 < argv.size(); i++) { rt::InSut in; rt::callerFree(argv[i]); }
    return rc;
}
#ifdef SURFSIM_NO_BENCH
extern const bool kHaveBench = false;
int sut_load_keys(int, const std::string&, uint64_t, const std::vector<std::string>&, std::vector<std::string>*) { return S_EXC; }
int sut_select_keys(unsigned, bool, const std::vector<std::string>&, std::vector<std::string>*) { return S_EXC; }
int sut_bench_build(void**, int, unsigned, const std::vector<const std::string*>&) { return S_EXC; }
int sut_bench_ask(void*, int, const std::string&, const std::string&, uint64_t*) { return S_EXC; }
int sut_bench_destroy(void*, int) { return S_EXC; }
#else
extern const bool kHaveBench = true;
namespace {
typedef std::vector<uint64_t> Numbers;
uint64_t number(const std::string& k) { uint64_t v = 0; for (size_t i = 0; i < 8; i++) v = v << 8 | (unsigned char)k[i]; return v; }
Numbers* numbers(const std::vector<std::string>& v) {
    rt::InSut i; rt::CallerMem cm;
    Numbers* r = new (rt::callerAlloc(sizeof(Numbers))) Numbers();
    for (size_t k = 0; k < v.size(); k++) r->push_back(number(v[k]));
    return r;
}
void numbersBack(Numbers* s, std::vector<std::string>* to) {
    if (to) {
        to->clear();
        for (size_t k = 0; k < s->size(); k++) { std::string b; for (int i = 56; i >= 0; i -= 8) b += (char)((*s)[k] >> i); to->push_back(b); }
    }
    rt::InSut i; rt::CallerMem cm;
    s->~Numbers(); rt::callerFree(s);
}
}
int sut_load_keys(int form, const std::string& path, uint64_t limit, const std::vector<std::string>& before, std::vector<std::string>* got) {
    Q p(path);
    Strings* s = form == LOAD_NUMBERS ? nullptr : strings(before);
    Numbers* n = form == LOAD_NUMBERS ? numbers(before) : nullptr;
    auto go = [&]() -> int { GUARDED( if (n) bench::loadKeysFromFile(*p.s, limit, *n); else bench::loadKeysFromFile(*p.s, form == LOAD_INTS, *s); ) };
    int rc = go();
    if (n) numbersBack(n, got); else stringsBack(s, got);
    return rc;
}
int sut_select_keys(unsigned percent, bool ints, const std::vector<std::string>& keys, std::vector<std::string>* got) {
    std::vector<std::string> none;
    if (ints) {
        Numbers *a = numbers(keys), *b = numbers(none);
        auto go = [&]() -> int { GUARDED( bench::selectIntKeysToInsert(percent, *b, *a); ) };
        int rc = go();
        numbersBack(a, nullptr); numbersBack(b, got);
        return rc;
    }
    Strings *a = strings(keys), *b = strings(none);
    auto go = [&]() -> int { GUARDED( bench::selectKeysToInsert(percent, *b, *a); ) };
    int rc = go();
    stringsBack(a, nullptr); stringsBack(b, got);
    return rc;
}
int sut_bench_build(void** f, int type, unsigned suffix, const std::vector<const std::string*>& keys) {
    static const char* names[BENCH_TYPES] = {"SuRF", "SuRFHash", "SuRFReal", "SuRFMixed", "Bloom", "another"};
    typedef std::vector<std::string> V;
    V* v;
    std::string* n;
    {
        rt::InSut i; rt::CallerMem cm;
        v = new (rt::callerAlloc(sizeof(V))) V();
        v->reserve(keys.size());
        for (size_t k = 0; k < keys.size(); k++) v->push_back(std::string(keys[k]->data(), keys[k]->size()));
        n = new (rt::callerAlloc(sizeof(std::string))) std::string(names[type]);
    }
    struct Free {
        V* v; std::string* n;
        ~Free() { rt::InSut i; rt::CallerMem cm; v->~V(); rt::callerFree(v); n->~basic_string(); rt::callerFree(n); }
    } fr = {v, n};
    *f = nullptr;
    GUARDED( *f = bench::FilterFactory::createFilter(*n, suffix, *v); )
}
int sut_bench_ask(void* f, int what, const std::string& l, const std::string& r, uint64_t* o) {
    Q a(l), b(r);
    bench::Filter* F = (bench::Filter*)f;
    GUARDED( *o = what == 0 ? F->lookup(*a.s) : what == 1 ? F->lookupRange(*a.s, *b.s) : what == 2 ? F->approxCount(*a.s, *b.s) : F->getMemoryUsage(); )
}
int sut_bench_destroy(void* f, int type) {
    bench::Filter* F = (bench::Filter*)f;              // the interface has no virtual destructor
    GUARDED( if (type == 4) delete static_cast<bench::FilterBloom*>(F); else delete static_cast<bench::FilterSuRF*>(F); )
}
#endif

// ------------------------------------------------------------------ the vectors --
#ifdef SURFSIM_NO_PARTS
extern const bool kHaveParts = false;
int sut_part_build(void**, const PartIn&) { return S_EXC; }
int sut_part_ask(void*, int, int, uint32_t, uint32_t, uint32_t, const std::string&, PartAns*) { return S_EXC; }
int sut_part_save(void*, int, unsigned, std::string*, uint64_t*, uint64_t*) { return S_EXC; }
int sut_part_restore(void**, int, const std::string&, unsigned, uint64_t*) { return S_EXC; }
int sut_part_destroy(void*, int) { return S_EXC; }
#else
extern const bool kHaveParts = true;
namespace {
typedef std::vector<std::vector<surf::word_t>> Words;
typedef std::vector<surf::position_t> Counts;
typedef std::vector<std::vector<surf::label_t>> Labels;
template <class T> T* made() { return new (rt::callerAlloc(sizeof(T))) T(); }
template <class T> void gone(T* t) { t->~T(); rt::callerFree(t); }
struct PartArgs {
    Words* w; Counts* n; Labels* l;
    explicit PartArgs(const PartIn& p) {
        rt::InSut i; rt::CallerMem cm;
        w = made<Words>(); n = made<Counts>(); l = made<Labels>();
        for (size_t k = 0; k < p.words.size(); k++) { w->push_back(std::vector<surf::word_t>()); for (size_t j = 0; j < p.words[k].size(); j++) w->back().push_back(p.words[k][j]); }
        for (size_t k = 0; k < p.bits.size(); k++) n->push_back(p.bits[k]);
        for (size_t k = 0; k < p.labels.size(); k++) { l->push_back(std::vector<surf::label_t>()); for (size_t j = 0; j < p.labels[k].size(); j++) l->back().push_back(p.labels[k][j]); }
    }
    ~PartArgs() { rt::InSut i; rt::CallerMem cm; gone(w); gone(n); gone(l); }
};
}
int sut_part_build(void** o, const PartIn& p) {
    PartArgs x(p);
    *o = nullptr;
    GUARDED(
        switch (p.kind) {
        case PART_RANK: *o = new surf::BitvectorRank(p.a, *x.w, *x.n, p.start, p.end); break;
        case PART_SELECT: *o = new surf::BitvectorSelect(p.a, *x.w, *x.n, p.start, p.end); break;
        case PART_LABEL: *o = new surf::LabelVector(*x.l, p.start, p.end); break;
        default: *o = new surf::BitvectorSuffix((surf::SuffixType)p.st, p.hl, p.rl, *x.w, *x.n, p.start, p.end);
        }
    )
}
int sut_part_ask(void* o, int kind, int what, uint32_t x, uint32_t y, uint32_t z, const std::string& key, PartAns* out) {
    Q k(key);
    const surf::Bitvector* b = kind == PART_RANK ? (surf::Bitvector*)(surf::BitvectorRank*)o : kind == PART_SELECT ? (surf::Bitvector*)(surf::BitvectorSelect*)o
        : kind == PART_SUFFIX ? (surf::Bitvector*)(surf::BitvectorSuffix*)o : nullptr;
    surf::position_t pos = y;
    GUARDED(
        switch (what) {
        case ASK_RANK: out->r = ((surf::BitvectorRank*)o)->rank(x); break;
        case ASK_SELECT: out->r = ((surf::BitvectorSelect*)o)->select(x); break;
        case ASK_ONES: out->r = ((surf::BitvectorSelect*)o)->numOnes(); break;
        case ASK_BIT: out->r = b->readBit(x); break;
        case ASK_NEXT: out->r = b->distanceToNextSetBit(x); break;
        case ASK_PREV: out->r = b->distanceToPrevSetBit(x); break;
        case ASK_SIZE: out->r = kind == PART_LABEL ? ((surf::LabelVector*)o)->getNumBytes() : b->numBits(); break;
        case ASK_LABEL: out->r = ((surf::LabelVector*)o)->read(x); out->pos = (*(surf::LabelVector*)o)[x]; break;
        case ASK_SEARCH: out->r = ((surf::LabelVector*)o)->search((surf::label_t)x, pos, z); out->pos = pos; break;
        case ASK_GREATER: out->r = ((surf::LabelVector*)o)->searchGreaterThan((surf::label_t)x, pos, z); out->pos = pos; break;
        case ASK_SUFFIX: out->r = (int64_t)((surf::BitvectorSuffix*)o)->read(x); break;
        case ASK_REAL: out->r = (int64_t)((surf::BitvectorSuffix*)o)->readReal(x); break;
        case ASK_EQUAL: out->r = ((surf::BitvectorSuffix*)o)->checkEquality(x, *k.s, y); break;
        case ASK_COMPARE: out->r = ((surf::BitvectorSuffix*)o)->compare(x, *k.s, y); break;
        }
    )
}
int sut_part_save(void* o, int kind, unsigned off, std::string* image, uint64_t* announced, uint64_t* advanced) {
    uint64_t n = 0;
    auto size = [&]() -> int {
        GUARDED( n = kind == PART_RANK ? ((surf::BitvectorRank*)o)->serializedSize() : kind == PART_SELECT ? ((surf::BitvectorSelect*)o)->serializedSize()
                   : kind == PART_LABEL ? ((surf::LabelVector*)o)->serializedSize() : ((surf::BitvectorSuffix*)o)->serializedSize(); )
    };
    int rc = size();
    *announced = n; *advanced = 0;
    image->clear();
    if (rc != S_OK || n > (1u << 30)) return rc;
    char* d;
    { rt::InSut i; rt::CallerMem c; d = (char*)rt::callerAlloc(n + off); }
    for (uint64_t i = 0; i < n + off; i++) d[i] = 0;
    char* p = d + off;
    auto go = [&]() -> int {
        GUARDED(
            switch (kind) {
            case PART_RANK: ((surf::BitvectorRank*)o)->serialize(p); break;
            case PART_SELECT: ((surf::BitvectorSelect*)o)->serialize(p); break;
            case PART_LABEL: ((surf::LabelVector*)o)->serialize(p); break;
            default: ((surf::BitvectorSuffix*)o)->serialize(p);
            }
        )
    };
    rc = go();
    *advanced = (uint64_t)(p - d) - off;
    image->assign(d + off, n);
    { rt::InSut i; rt::callerFree(d); }
    return rc;
}
int sut_part_restore(void** o, int kind, const std::string& image, unsigned off, uint64_t* advanced) {
    char* b;
    { rt::InSut i; rt::CallerMem c; b = (char*)rt::callerAlloc(image.size() + off); }
    for (size_t i = 0; i < image.size(); i++) b[off + i] = image[i];
    char* p = b + off;
    *o = nullptr;
    auto go = [&]() -> int {
        GUARDED(
            switch (kind) {
            case PART_RANK: *o = surf::BitvectorRank::deSerialize(p); break;
            case PART_SELECT: *o = surf::BitvectorSelect::deSerialize(p); break;
            case PART_LABEL: *o = surf::LabelVector::deSerialize(p); break;
            default: *o = surf::BitvectorSuffix::deSerialize(p);
            }
        )
    };
    int rc = go();
    *advanced = (uint64_t)(p - b) - off;
    { rt::InSut i; rt::callerFree(b); }
    return rc;
}
int sut_part_destroy(void* o, int kind) {
    GUARDED(
        switch (kind) {
        case PART_RANK: ((surf::BitvectorRank*)o)->destroy(); delete (surf::BitvectorRank*)o; break;
        case PART_SELECT: ((surf::BitvectorSelect*)o)->destroy(); delete (surf::BitvectorSelect*)o; break;
        case PART_LABEL: ((surf::LabelVector*)o)->destroy(); delete (surf::LabelVector*)o; break;
        default: ((surf::BitvectorSuffix*)o)->destroy(); delete (surf::BitvectorSuffix*)o;
        }
    )
}
#endif

// ------------------------------------------------------- the builder, the halves --
#ifdef SURFSIM_NO_TRIE
extern const bool kHaveTrie = false;
int sut_trie_build(void**, const std::vector<const std::string*>&, const SutCfg&) { return S_EXC; }
void sut_trie_view(void*, unsigned, TrieView*) {}
int sut_trie_halves(void*, void**, void**) { return S_EXC; }
int sut_trie_gone(void*) { return S_EXC; }
int sut_half_lookup(void*, void*, const std::string&, int*) { return S_EXC; }
int sut_half_sizes(void*, void*, uint64_t[4]) { return S_EXC; }
int sut_half_save(void*, bool, unsigned, std::string*, uint64_t*, uint64_t*) { return S_EXC; }
int sut_half_restore(void**, bool, const std::string&, unsigned, uint64_t*) { return S_EXC; }
int sut_half_destroy(void*, bool) { return S_EXC; }
#else
extern const bool kHaveTrie = true;
namespace {
typedef surf::LoudsDense Dense;
typedef surf::LoudsSparse Sparse;
// Bits of the i-th row, most significant first.
template <class T> struct Bits {
    const T& rows; size_t l; bool* torn;
    uint64_t at, word;
    Bits(const T& rows_, size_t l_, bool* torn_) : rows(rows_), l(l_), torn(torn_), at(~0ull), word(0) {}
    bool operator()(uint64_t i) {
        if (i / 64 != at) {
            at = i / 64; word = 0;
            if (l >= rows.size() || at >= rows[l].size()) *torn = true;
            else word = rows[l][at];
        }
        return word >> (63 - i % 64) & 1;
    }
};
template <class T> Bits<T> bitsOf(const T& rows, size_t l, bool* torn) { return Bits<T>(rows, l, torn); }
}
int sut_trie_build(void** b, const std::vector<const std::string*>& keys, const SutCfg& c) {
    typedef std::vector<std::string> V;
    V* v;
    {
        rt::InSut i; rt::CallerMem cm;
        v = new (rt::callerAlloc(sizeof(V))) V();
        for (size_t k = 0; k < keys.size(); k++) v->push_back(std::string(keys[k]->data(), keys[k]->size()));
    }
    struct Free {
        V* v;
        ~Free() { rt::InSut i; rt::CallerMem cm; v->~V(); rt::callerFree(v); }
    } fr = {v};
    *b = nullptr;
    GUARDED(
        surf::SuRFBuilder* x = new surf::SuRFBuilder(c.dense, c.ratio, (surf::SuffixType)c.st, c.hl, c.rl);
        *b = x;
        x->build(*v);
    )
}
void sut_trie_view(void* bp, unsigned sb, TrieView* out) {
    const surf::SuRFBuilder* b = (const surf::SuRFBuilder*)bp;
    out->height = b->getTreeHeight();
    out->start = b->getSparseStartLevel();
    out->lv.assign(out->height, TrieLevel());
    for (size_t l = 0; l < out->height; l++) {
        TrieLevel& t = out->lv[l];
        if (l >= b->getLabels().size() || l >= b->getNodeCounts().size() || l >= b->getSuffixCounts().size()) { t.torn = true; continue; }
        size_t n = b->getLabels()[l].size();
        t.nodes = b->getNodeCounts()[l]; t.ends = b->getSuffixCounts()[l];
        if (t.nodes > n || t.ends > n) { t.torn = true; continue; }
        auto child = bitsOf(b->getChildIndicatorBits(), l, &t.torn); auto louds = bitsOf(b->getLoudsBits(), l, &t.torn);
        auto suf = bitsOf(b->getSuffixes(), l, &t.torn);
        auto bm = bitsOf(b->getBitmapLabels(), l, &t.torn); auto bmc = bitsOf(b->getBitmapChildIndicatorBits(), l, &t.torn);
        auto pk = bitsOf(b->getPrefixkeyIndicatorBits(), l, &t.torn);
        for (size_t i = 0; i < n; i++) {
            t.labels.push_back((uint8_t)b->getLabels()[l][i]);
            t.child.push_back(child(i));
            t.first.push_back(louds(i));
        }
        for (uint64_t i = 0; sb && i < t.ends; i++) {
            uint64_t v = 0;
            for (unsigned j = 0; j < sb; j++) v = v << 1 | suf(i * sb + j);
            t.suffixes.push_back(v);
        }
        if (l < out->start)
            for (uint64_t i = 0; i < t.nodes; i++) {
                for (unsigned c = 0; c < 256; c += 64) {
                    bm(i * 256 + c); t.bitmap.push_back(bm.word);
                    bmc(i * 256 + c); t.bitmapChild.push_back(bmc.word);
                }
                t.prefixKey.push_back(pk(i));
            }
    }
}
int sut_trie_halves(void* b, void** dense, void** sparse) {
    *dense = *sparse = nullptr;
    GUARDED( *dense = new Dense((surf::SuRFBuilder*)b); *sparse = new Sparse((surf::SuRFBuilder*)b); )
}
int sut_trie_gone(void* b) { GUARDED( delete (surf::SuRFBuilder*)b; ) }
int sut_half_lookup(void* dense, void* sparse, const std::string& q, int* r) {
    Q k(q);
    surf::position_t node = 0;
    GUARDED(
        *r = ((Dense*)dense)->lookupKey(*k.s, node);
        if (*r && (node != 0 || ((Dense*)dense)->getHeight() == 0)) *r = ((Sparse*)sparse)->lookupKey(*k.s, node);
    )
}
int sut_half_sizes(void* dense, void* sparse, uint64_t o[4]) {
    GUARDED( o[0] = ((Dense*)dense)->getHeight(); o[1] = ((Sparse*)sparse)->getStartLevel(); o[2] = ((Sparse*)sparse)->getHeight(); o[3] = ((Dense*)dense)->getMemoryUsage() + ((Sparse*)sparse)->getMemoryUsage(); )
}
int sut_half_save(void* h, bool dense, unsigned off, std::string* image, uint64_t* announced, uint64_t* advanced) {
    uint64_t n = 0;
    auto size = [&]() -> int { GUARDED( n = dense ? ((Dense*)h)->serializedSize() : ((Sparse*)h)->serializedSize(); ) };
    int rc = size();
    *announced = n; *advanced = 0;
    image->clear();
    if (rc != S_OK || n > (1u << 30)) return rc;
    char* d;
    { rt::InSut i; rt::CallerMem c; d = (char*)rt::callerAlloc(n + off); }
    for (uint64_t i = 0; i < n + off; i++) d[i] = 0;
    char* p = d + off;
    auto go = [&]() -> int { GUARDED( if (dense) ((Dense*)h)->serialize(p); else ((Sparse*)h)->serialize(p); ) };
    rc = go();
    *advanced = (uint64_t)(p - d) - off;
    image->assign(d + off, n);
    { rt::InSut i; rt::callerFree(d); }
    return rc;
}
int sut_half_restore(void** h, bool dense, const std::string& image, unsigned off, uint64_t* advanced) {
    char* b;
    { rt::InSut i; rt::CallerMem c; b = (char*)rt::callerAlloc(image.size() + off); }
    for (size_t i = 0; i < image.size(); i++) b[off + i] = image[i];
    char* p = b + off;
    *h = nullptr;
    auto go = [&]() -> int { GUARDED( if (dense) *h = Dense::deSerialize(p); else *h = Sparse::deSerialize(p); ) };
    int rc = go();
    *advanced = (uint64_t)(p - b) - off;
    { rt::InSut i; rt::callerFree(b); }
    return rc;
}
int sut_half_destroy(void* h, bool dense) { GUARDED( if (dense) { ((Dense*)h)->destroy(); delete (Dense*)h; } else { ((Sparse*)h)->destroy(); delete (Sparse*)h; } ) }
#endif
