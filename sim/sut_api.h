// The public API of the library, callable from code that is not instrumented.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

enum { S_OK = 0, S_OOM = 1, S_EXC = 2 };
struct SutCfg { int form = 0; bool dense = true; uint32_t ratio = 16; int st = 0; unsigned hl = 0, rl = 0; };

int sut_build(void** f, const std::vector<const std::string*>& keys, const SutCfg&);
int sut_destroy(void* f);
int sut_lookup(void* f, const std::string& q, int* r);
int sut_range(void* f, const std::string& l, bool li, const std::string& r, bool ri, int* out);
int sut_count(void* f, const std::string& l, const std::string& r, uint64_t* out);
int sut_count_it(void* f, void* a, void* b, uint64_t* out);
int sut_seek(void* f, bool less, const std::string& q, bool inc, void** it, int how = 0);   // how 1: assign the result to *it, or to a new empty position
int sut_end(void* f, bool last, void** it, int how = 0);            // moveToFirst / moveToLast
int sut_step(void* it, bool fwd, int* ret);
int sut_copy(void* it, void** out);
int sut_assign(void* dst, void* src);
int sut_drop(void* it);
int sut_clear(void* it);
struct ItInfo { int valid, flag; std::string key; };
int sut_info(void* it, ItInfo* out);
int sut_suffix(void* it, int* len, uint64_t* bits, std::string* kws, unsigned* bitlen);
int sut_compare(void* it, const std::string& q, int* out);
int sut_serialize(void* f, std::string* image, uint64_t* announced);
int sut_deserialize(void** f, const std::string& image, unsigned offset, int bufmode, void** keep, bool* altered);
void sut_free_buffer(void* keep);
int sut_int_key(uint64_t v, bool bench, std::string* key, uint64_t* back);
enum { BENCH_TYPES = 6 };                                // of bench::FilterFactory; 4 is the Bloom filter
int sut_bench_build(void** f, int type, unsigned suffix, const std::vector<const std::string*>& keys);
int sut_bench_ask(void* f, int what, const std::string& l, const std::string& r, uint64_t* out);   // 0 lookup 1 range 2 count 3 memory
int sut_bench_destroy(void* f, int type);
// Whole programs of the benchmark and their loader.
enum { LOAD_STRINGS, LOAD_INTS, LOAD_NUMBERS };
int sut_load_keys(int form, const std::string& path, uint64_t limit, const std::vector<std::string>& before, std::vector<std::string>* out);
int sut_select_keys(unsigned percent, bool ints, const std::vector<std::string>& keys, std::vector<std::string>* out);
int sut_program(bool threads, const std::vector<std::string>& args, int* status, std::string* printed, bool mayDie);
int sut_sizes(void* f, uint64_t out[4]);               // height, sparse start, serialized size, memory usage
// The vectors the trie is made of, on their own.
enum { PART_RANK, PART_SELECT, PART_LABEL, PART_SUFFIX, PART_KINDS };
struct PartIn {
    int kind = 0;
    uint32_t a = 0;                                      // rank: block size, select: sample interval
    int st = 2; unsigned hl = 0, rl = 0;                 // suffix
    unsigned start = 0, end = 0;                         // levels; end 0: all
    std::vector<std::vector<uint64_t>> words;            // per level
    std::vector<uint32_t> bits;
    std::vector<std::vector<uint8_t>> labels;
};
struct PartAns { int64_t r = 0, pos = 0; };
enum { ASK_RANK, ASK_SELECT, ASK_BIT, ASK_NEXT, ASK_PREV, ASK_SIZE, ASK_ONES, ASK_LABEL, ASK_SEARCH, ASK_GREATER, ASK_SUFFIX, ASK_REAL, ASK_EQUAL, ASK_COMPARE };
int sut_part_build(void** o, const PartIn&);
int sut_part_ask(void* o, int kind, int what, uint32_t x, uint32_t y, uint32_t z, const std::string& key, PartAns* out);
int sut_part_save(void* o, int kind, unsigned offset, std::string* image, uint64_t* announced, uint64_t* advanced);
int sut_part_restore(void** o, int kind, const std::string& image, unsigned offset, uint64_t* advanced);
int sut_part_destroy(void* o, int kind);
// The builder's vectors, and the two halves of the trie made from them.
struct TrieLevel {
    std::vector<uint8_t> labels;
    std::vector<bool> child, first;                      // of each label
    std::vector<uint64_t> suffixes;
    uint64_t nodes = 0, ends = 0;
    std::vector<uint64_t> bitmap, bitmapChild;           // four words a node; only of dense levels
    std::vector<bool> prefixKey;                         // one bit a node; only of dense levels
    bool torn = false;                                   // a vector is too short for what it should hold
};
struct TrieView { uint64_t height = 0, start = 0; std::vector<TrieLevel> lv; };
int sut_trie_build(void** b, const std::vector<const std::string*>& keys, const SutCfg&);
void sut_trie_view(void* b, unsigned suffixBits, TrieView* out);
int sut_trie_halves(void* b, void** dense, void** sparse);
int sut_trie_gone(void* b);
int sut_half_lookup(void* dense, void* sparse, const std::string& q, int* r);
int sut_half_sizes(void* dense, void* sparse, uint64_t out[4]);   // levels of the dense half, first level, height and memory of the sparse
int sut_half_save(void* h, bool dense, unsigned offset, std::string* image, uint64_t* announced, uint64_t* advanced);
int sut_half_restore(void** h, bool dense, const std::string& image, unsigned offset, uint64_t* advanced);
int sut_half_destroy(void* h, bool dense);
extern const bool kHaveTrie, kHaveParts, kHaveBench; bool haveProgram(bool threads);              // false if those interfaces are not what they were
