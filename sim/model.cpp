#include "model.h"
#include <algorithm>
#include <string.h>

static size_t lcp(const std::string& a, const std::string& b) {
    size_t i = 0, n = std::min(a.size(), b.size());
    while (i < n && a[i] == b[i]) i++;
    return i;
}
Model::Model(const std::vector<std::string>& keys, const SutCfg& c) : cfg(c) {
    for (auto& k : keys) if (K.empty() || K.back() != k) K.push_back(k);
    int st = c.form == 1 ? 0 : c.st;
    rl = (st == 2 || st == 3) ? c.rl : 0;
    hl = (st == 1 || st == 3) ? c.hl : 0;
    int N = n();
    tlen.resize(N); term.resize(N); bits.resize(N);
    size_t prev = 0;
    byT.reserve(N * 2);
    for (int i = 0; i < N; i++) {
        size_t next = i + 1 < N ? lcp(K[i], K[i + 1]) : 0;
        size_t l = std::max(prev, next);
        prev = next;
        if (l < K[i].size()) { tlen[i] = l + 1; term[i] = false; }
        else { tlen[i] = K[i].size(); term[i] = true; }
        byT[T(i)] = i;
        bits[i] = 8 * tlen[i];
        if (realBits(i)) bits[i] += rl;
    }
}
uint64_t Model::realBits(int i) const {
    if (!rl || term[i] || (K[i].size() - tlen[i]) * 8 < rl) return 0;
    uint64_t v = 0;
    for (unsigned b = 0; b < rl; b++) {
        unsigned char ch = K[i][tlen[i] + b / 8];
        v = (v << 1) | ((ch >> (7 - b % 8)) & 1);
    }
    return v;
}
int Model::lower(const std::string& q) const { return std::lower_bound(K.begin(), K.end(), q) - K.begin(); }
int Model::upper(const std::string& q) const { return std::upper_bound(K.begin(), K.end(), q) - K.begin(); }
int Model::cmp(int i, const std::string& q) const {
    size_t L = std::min<size_t>(bits[i], q.size() * 8);
    size_t bytes = L / 8;
    int c = memcmp(K[i].data(), q.data(), bytes);
    if (c) return c < 0 ? -1 : 1;
    unsigned rem = L % 8;
    if (rem) {
        int a = (unsigned char)K[i][bytes] >> (8 - rem), b = (unsigned char)q[bytes] >> (8 - rem);
        if (a != b) return a < b ? -1 : 1;
    }
    return 0;
}
int Model::decided(int i, const std::string& q) const {
    if (term[i]) return K[i].compare(q);
    int c = cmp(i, q);
    return c ? c : q.size() * 8 < bits[i] ? 1 : 0;
}
bool Model::consistent(int i, const std::string& q) const {
    if (term[i]) return q == K[i];
    return q.size() * 8 >= bits[i] && cmp(i, q) == 0;
}
bool Model::prefixCovers(int i, const std::string& q) const {
    if (term[i]) return q == K[i];
    return q.size() >= tlen[i] && q.compare(0, tlen[i], K[i], 0, tlen[i]) == 0;
}
bool Model::canBeLE(int i, const std::string& r) const {
    if (term[i]) return K[i] <= r;
    int c = cmp(i, r);
    if (c) return c < 0;
    return r.size() * 8 >= bits[i];
}
bool Model::canBeGE(int i, const std::string& l) const {
    if (term[i]) return K[i] >= l;
    return cmp(i, l) >= 0;
}
int Model::coveredBy(const std::string& q) const {
    int u = upper(q);
    // a covering key shares its kept prefix with q: it is a neighbour of q in key order
    for (int i = u - 1; i <= u && i < n(); i++)
        if (i >= 0 && consistent(i, q)) return i;
    return -1;
}
const std::vector<Model::Level>& Model::levels() {
    if (!lv.empty()) return lv;
    size_t h = 0;
    for (int i = 0; i < n(); i++) h = std::max<size_t>(h, tlen[i] + term[i]);
    lv.resize(h); fan.resize(h);
    for (int i = 0; i < n(); i++) {
        size_t at = i ? lcp(K[i - 1], K[i]) : 0, end = tlen[i] + term[i];
        for (size_t l = at; l < end; l++) {
            if (!i || l > at) { lv[l].nodes++; fan[l].push_back(0); }
            lv[l].labels++;
            fan[l].back()++;
        }
        lv[end - 1].suffixes++;
    }
    return lv;
}
void Model::spread(unsigned start, uint64_t* in65, uint64_t* in1) {
    if (spreadOf != (long)start) {
        levels();
        spreadOf = start; spread65 = spread1 = 0;
        std::vector<uint16_t> f;
        for (size_t l = start; l < fan.size(); l++) f.insert(f.end(), fan[l].begin(), fan[l].end());
        uint64_t sum = 0;
        for (size_t i = 0; i < f.size(); i++) {
            sum += f[i];
            if (i >= 65) sum -= f[i - 65];
            spread65 = std::max(spread65, sum);
            spread1 = std::max<uint64_t>(spread1, f[i]);
        }
    }
    *in65 = spread65; *in1 = spread1;
}
