// Reference model: what the documentation promises about a filter over a key set.
#pragma once
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include "sut_api.h"

struct Model {
    struct Level { uint32_t nodes = 0, labels = 0, suffixes = 0; };
    SutCfg cfg;
    std::vector<std::string> K;      // distinct keys, sorted
    std::vector<uint32_t> tlen;      // length of the kept prefix
    std::vector<bool> term;          // kept whole because it is a prefix of another key
    std::vector<uint32_t> bits;      // number of leading bits of K[i] that the filter keeps
    std::unordered_map<std::string, int> byT;
    std::vector<Level> lv;
    std::vector<std::vector<uint16_t>> fan;   // labels of each node, level by level
    long spreadOf = -1; uint64_t spread65 = 0, spread1 = 0;
    unsigned rl = 0, hl = 0;         // effective real / hash suffix lengths

    Model(const std::vector<std::string>& keys, const SutCfg& c);
    int n() const { return (int)K.size(); }
    std::string T(int i) const { return K[i].substr(0, tlen[i]); }
    int lower(const std::string& q) const;   // first index with K >= q
    int upper(const std::string& q) const;   // first index with K > q
    int cmp(int i, const std::string& q) const;      // kept bits of i against q, on their common length
    int decided(int i, const std::string& q) const;  // <0, >0: what is kept of K[i] tells that it is smaller, greater than q
    bool consistent(int i, const std::string& q) const;  // q cannot be told from K[i]
    bool canBeLE(int i, const std::string& r) const;
    bool canBeGE(int i, const std::string& l) const;
    int coveredBy(const std::string& q) const;        // index of the stored key whose kept info covers q, or -1
    bool prefixCovers(int i, const std::string& q) const;  // the same without suffix bits
    const std::vector<Level>& levels();               // of the trie of kept prefixes (terminators count as labels)
    // Largest number of labels in 65 consecutive nodes, and in one node, from level `start` on.
    void spread(unsigned start, uint64_t* in65, uint64_t* in1);
    uint64_t realBits(int i) const;                    // suffix value as reported; 0 if none
};
