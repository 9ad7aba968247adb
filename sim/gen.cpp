// From one seed: key sets, configurations, call histories, faults, schedules.
#include "plan.h"

#include <algorithm>
#include <set>
#include <stdlib.h>
#include <string.h>

using rt::Rng;
typedef std::vector<std::string> Keys;

static long logUniform(Rng& r, int maxBits) { int b = (int)r.below(maxBits + 1); return (long)((1ull << b) - 1 + r.below(1ull << b)); }
template <class T, size_t N> static T pick(Rng& r, const T (&a)[N]) { return a[r.below(N)]; }
static unsigned char oddByte(Rng& r) {
    static const unsigned char b[] = {0x00, 0x01, 0x02, 0x3f, 0x40, 0x41, 0x61, 0x62, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xfd, 0xfe, 0xff};
    return r.chance(2, 3) ? pick(r, b) : (unsigned char)r.below(256);
}

std::string mutateKey(Rng& r, const std::string& k0) {
    std::string k = k0;
    switch (r.below(13)) {
    case 0: case 1: return k;
    case 2: if (!k.empty()) k.back() = (char)((unsigned char)k.back() + 1); return k;
    case 3: if (!k.empty()) k.back() = (char)((unsigned char)k.back() - 1); return k;
    case 4: if (!k.empty()) k.resize(r.below(k.size() + 1)); return k;
    case 5: k += (char)0; if (r.chance(1, 3)) k += (char)oddByte(r); return k;
    case 6: k += (char)0xff; if (r.chance(1, 3)) k += (char)oddByte(r); return k;
    case 7: { int n = 1 + (int)r.below(r.chance(1, 8) ? 20 : 3); while (n--) k += (char)r.below(256); return k; }
    case 8: if (!k.empty()) k[r.below(k.size())] = (char)oddByte(r); return k;
    case 9: if (!k.empty()) { size_t i = r.below(k.size()); k[i] = (char)((unsigned char)k[i] + (r.chance(1, 2) ? 1 : -1)); if (r.chance(1, 2)) k.resize(i + 1); } return k;
    case 10: if (!k.empty()) { size_t i = r.below(k.size()); k[i] = (char)(k[i] ^ (1 << r.below(8))); } return k;
    case 11: if (!k.empty()) { k.resize(1 + r.below(k.size())); k += (char)oddByte(r); } return k;
    default: if (k.size() > 1) { k.pop_back(); k.back() = (char)((unsigned char)k.back() + 1); } return k;
    }
}
std::string queryKey(Rng& r, const Keys& keys) {
    if (r.chance(1, 30)) {
        switch (r.below(5)) {
        case 0: case 4: return "";
        case 1: return std::string(1 + r.below(10), (char)0xff);
        case 2: return std::string(1 + r.below(10), (char)0);
        default: { std::string s; int n = (int)r.below(9); while (n--) s += (char)r.below(256); return s; }
        }
    }
    std::string k = mutateKey(r, keys[r.below(keys.size())]);
    if (r.chance(1, 8)) k = mutateKey(r, k);
    return k;
}

// ------------------------------------------------------------------- key sets --
static void fanTree(Rng& r, Keys& out, const std::string& pre, int depth, size_t cap) {
    static const int fans[] = {1, 2, 3, 4, 11, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 255, 256};
    if (out.size() >= cap) return;
    int fan = r.chance(1, 2) ? 1 + (int)r.below(4) : pick(r, fans);
    if (!pre.empty() && r.chance(1, 3)) out.push_back(pre);
    std::vector<int> b;
    if (fan == 256) for (int i = 0; i < 256; i++) b.push_back(i);
    else {
        std::set<int> s;
        if (r.chance(1, 3)) s.insert(0xff);
        if (r.chance(1, 3)) s.insert(0);
        while ((int)s.size() < fan) s.insert((int)r.below(256));
        b.assign(s.begin(), s.end());
    }
    for (int c : b) {
        std::string k = pre + (char)c;
        if (depth > 1 && (b.size() < 8 ? r.chance(4, 5) : r.chance(1, 6))) fanTree(r, out, k, depth - 1, cap);
        else {
            int tail = r.chance(1, 2) ? 0 : (int)r.below(7);
            while (tail--) k += (char)oddByte(r);
            out.push_back(k);
        }
        if (out.size() >= cap) return;
    }
}
static std::string syllables(Rng& r, int n) {
    static const char* s[] = {"ba", "con", "de", "ed", "er", "f", "ing", "in", "ly", "ment", "ness", "pre", "re", "s", "ter", "tion", "un", "a", "e", "o"};
    std::string k;
    while (n--) k += pick(r, s);
    return k;
}
// Many keys that end high in the trie beside one heavy subtree: few levels hold most of the suffixes.
static void lopsided(Rng& r, Keys& out, size_t n) {
    std::string pre; int d = 1 + (int)r.below(3);
    while (d--) pre += (char)oddByte(r);
    size_t heads = 1 + r.below(300), heavy = n + (r.chance(1, 2) ? 0 : r.below(2200));
    bool top = r.chance(1, 2), grid = r.chance(1, 2);
    for (size_t i = 0; i < heads; i++) {
        std::string k = pre.substr(0, top ? 0 : r.below(pre.size() + 1)) + (char)r.below(256);
        for (int t = (int)r.below(9); t > 0; t--) k += (char)r.below(256);
        out.push_back(k);
    }
    for (size_t i = 0; i < heavy; i++) {
        std::string k = pre;
        if (grid) { k += (char)(i >> 8); k += (char)i; } else for (int t = 2; t > 0; t--) k += (char)r.below(256);
        for (int t = (int)r.below(9); t > 0; t--) k += (char)r.below(256);
        out.push_back(k);
    }
}
static void addKeys(Rng& r, Keys& out, size_t n, std::string* fam) {
    int f = (int)r.below(14);
    static const char* names[] = {"alphabet", "ints", "clustered-ints", "fan-tree", "prefix-chain", "words", "long", "email", "bytes", "byte-grid", "neighbours", "url", "lopsided", "boundary-count"};
    *fam += (fam->empty() ? "" : "+") + std::string(names[f]);
    size_t start = out.size();
    switch (f) {
    case 0: {
        Keys a; int na = 1 + (int)r.below(5);
        unsigned char ab[8];
        for (int i = 0; i < na; i++) ab[i] = oddByte(r);
        int ml = 1 + (int)r.below(r.chance(1, 4) ? 24 : 8);
        for (size_t i = 0; i < n; i++) {
            std::string k; int l = 1 + (int)r.below(ml);
            while (l--) k += (char)ab[r.below(na)];
            out.push_back(k);
        }
        break;
    }
    case 1: case 2: {
        uint64_t base = r.next() >> r.below(64), step = 1 + (r.chance(1, 2) ? 0 : logUniform(r, 20));
        int w = r.chance(3, 4) ? 8 : r.chance(1, 2) ? 4 : 2;
        bool seq = r.chance(1, 3);
        uint64_t clusters[6];
        for (auto& c : clusters) c = r.next();
        for (size_t i = 0; i < n; i++) {
            uint64_t v = f == 1 ? (seq ? base + i * step : r.next()) : clusters[r.below(6)] + r.below(n * step * 2 + 1);
            std::string k;
            for (int b = w - 1; b >= 0; b--) k += (char)(v >> (8 * b));
            out.push_back(k);
        }
        break;
    }
    case 3: fanTree(r, out, "", 1 + (int)r.below(5), start + n); break;
    case 4: {
        while (out.size() < start + n) {
            std::string k; int l = 1 + (int)r.below(r.chance(1, 5) ? 40 : 10);
            int style = (int)r.below(3);
            for (int i = 0; i < l && out.size() < start + n; i++) {
                k += style == 0 ? (char)oddByte(r) : style == 1 ? 'a' : (char)0;
                if (r.chance(2, 3)) out.push_back(k);
                if (r.chance(1, 4)) { std::string s = k; s.back() = (char)oddByte(r); out.push_back(s); }
            }
            if (style != 0 && r.chance(1, 2)) out.push_back(k + (char)oddByte(r));
        }
        break;
    }
    case 5: for (size_t i = 0; i < n; i++) out.push_back(syllables(r, 1 + (int)r.below(5))); break;
    case 6: {
        std::string pre; int l = 50 + (int)r.below(250);
        while (l--) pre += (char)r.below(256);
        size_t m = std::min<size_t>(n, 40);
        for (size_t i = 0; i < m; i++) {
            std::string k = pre.substr(0, r.chance(1, 2) ? pre.size() : 1 + r.below(pre.size()));
            int t = (int)r.below(6);
            while (t--) k += (char)oddByte(r);
            out.push_back(k);
        }
        break;
    }
    case 7: for (size_t i = 0; i < n; i++) {
        static const char* dom[] = {"com.gmail@", "com.yahoo@", "org.acm@", "edu.cmu@", "com.g"};
        std::string k = pick(r, dom) + syllables(r, 1 + (int)r.below(3));
        if (r.chance(1, 2)) k += std::to_string(r.below(1000));
        out.push_back(k);
    } break;
    case 8: for (size_t i = 0; i < n; i++) {
        std::string k; int l = 1 + (int)r.below(10);
        while (l--) k += (char)r.below(256);
        out.push_back(k);
    } break;
    case 9: {
        int a = 1 + (int)r.below(256), b = r.chance(1, 2) ? 0 : 1 + (int)r.below(256), c0 = (int)r.below(256), tail = (int)r.below(4);
        for (int i = 0; i < a && out.size() < start + n; i++) {
            std::string k(1, (char)(c0 + i));
            if (!b || r.chance(1, 10)) { out.push_back(k); if (!b) continue; }
            for (int j = 0; j < b && out.size() < start + n; j++) {
                std::string q = k + (char)j;
                for (int t = (int)r.below(tail + 1); t > 0; t--) q += (char)oddByte(r);
                out.push_back(q);
            }
        }
        break;
    }
    case 10: {
        Keys base;
        for (size_t i = 0; i < 1 + n / 6; i++) {
            std::string k; int l = 1 + (int)r.below(6);
            while (l--) k += (char)oddByte(r);
            base.push_back(k);
        }
        out.insert(out.end(), base.begin(), base.end());
        while (out.size() < start + n) {
            std::string k = mutateKey(r, base[r.below(base.size())]);
            out.push_back(k.empty() ? "z" : k);
        }
        break;
    }
    case 11: for (size_t i = 0; i < n; i++) {
        std::string k = "http://" + std::string(r.chance(1, 2) ? "www." : "") + syllables(r, 1 + (int)r.below(2)) + ".com/";
        int d = (int)r.below(3);
        while (d--) k += syllables(r, 1) + "/";
        out.push_back(k);
    } break;
    case 12: lopsided(r, out, n); break;
    default: {
        // key counts and node sizes around the block sizes of the bit vectors
        static const int edge[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 319, 320, 511, 512, 513, 575, 576, 1023, 1024, 1025, 2048};
        int m = pick(r, edge);
        for (int i = 0; i < m; i++) {
            std::string k(1, (char)(i >> 8)); k += (char)i;
            if (r.chance(1, 2)) k = std::string(1, (char)i) + (char)(i >> 8);
            out.push_back(k);
        }
    }
    }
}
static void toBoundary(Rng& r, Keys& k, std::string* fam);
static Keys makeKeys(Rng& r, int profile, bool small, std::string* fam, bool veryDeep = false, bool big = false) {
    size_t n;
    if (!big && r.chance(1, 16)) {                                  // every shape a filter of one to four short keys can have
        static const unsigned char b[] = {0x00, 0x01, 0x61, 0xfe, 0xff};
        *fam += "tiny";
        std::set<std::string> s;
        n = 1 + r.below(4);
        int ml = 1 + (int)r.below(3);
        while (n--) { std::string k; int l = 1 + (int)r.below(ml); while (l--) k += (char)pick(r, b); s.insert(k); }
        return Keys(s.begin(), s.end());
    }
    if (!small && !big && r.chance(1, 60)) {                        // very deep tries
        *fam += "deep";
        std::string pre; size_t l = veryDeep && r.chance(1, profile ? 20 : 60) ? 65400 + r.below(300) : 250 + r.below(1800);
        int style = (int)r.below(3);
        while (l--) pre += style == 0 ? (char)r.below(256) : style == 1 ? 'a' : (char)oddByte(r);
        std::set<std::string> s;
        n = 2 + r.below(pre.size() > 3000 ? 2 : 12);
        while (n--) { std::string k = pre; if (r.chance(1, 3)) k.resize(1 + r.below(k.size())); int t = (int)r.below(4); while (t--) k += (char)oddByte(r); s.insert(k); }
        return Keys(s.begin(), s.end());
    }
    if (small) n = 1 + r.below(40);
    else if (big) n = 3000 + r.below(r.chance(1, 10) ? 150000 : profile ? 90000 : 30000);
    else switch (r.below(20)) {
    case 0: n = 1; break;
    case 1: case 2: case 3: n = 1 + r.below(5); break;
    case 4: case 5: case 6: case 7: case 8: case 9: case 10: n = 2 + r.below(60); break;
    case 11: case 12: case 13: case 14: case 15: case 16: n = 40 + r.below(560); break;
    case 17: case 18: n = 500 + r.below(2500); break;
    default:
        n = 100 + r.below(1000);
        if (r.chance(1, profile ? 2 : 5)) n = 2000 + r.below(profile ? 40000 : 14000);
        if (profile && r.chance(1, 25)) n = 70000 + r.below(40000);
    }
    Keys k;
    addKeys(r, k, n, fam);
    if (r.chance(1, 5)) addKeys(r, k, 1 + n / 3, fam);
    Keys o;
    for (auto& x : k) if (!x.empty()) o.push_back(x);
    if (o.empty()) o.push_back("a");
    std::sort(o.begin(), o.end());
    o.erase(std::unique(o.begin(), o.end()), o.end());
    if (o.size() < 3000 && r.chance(1, 12)) toBoundary(r, o, fam);
    return o;
}
// Labels in the trie of a sorted set of different keys.
static size_t labelCount(const Keys& k) {
    size_t n = 0, prev = 0;                                 // prev: bytes shared with the key before
    for (size_t i = 0; i < k.size(); i++) {
        size_t next = 0;
        if (i + 1 < k.size()) while (next < k[i].size() && next < k[i + 1].size() && k[i][next] == k[i + 1][next]) next++;
        n += std::max(prev, next) + 1 - prev;               // a terminator counts like a byte
        prev = next;
    }
    return n;
}
// Bit vectors that end exactly at, just before or just after a word or block.
static void toBoundary(Rng& r, Keys& k, std::string* fam) {
    size_t mod = r.chance(2, 3) ? 64 : 512, want = (mod + r.below(3) - 1) % mod;
    std::set<std::string> s(k.begin(), k.end());
    std::string pre(1, (char)(r.chance(1, 2) ? 0xff : 0xfe));
    if (r.chance(1, 2)) s.insert(r.chance(1, 2) ? std::string("\xff") : std::string("\xff\xff"));
    for (int i = 0; i < 600; i++) {
        k.assign(s.begin(), s.end());
        if (labelCount(k) % mod == want) { *fam += "!"; break; }
        std::string x = pre;
        if (i > 255) x += (char)(i >> 8);
        s.insert(x + (char)(i & 255));
    }
}
static Keys withDuplicates(Rng& r, const Keys& k) {
    Keys o;
    unsigned den = 1 + (unsigned)r.below(8);
    for (auto& x : k) { o.push_back(x); if (r.chance(1, den)) { int n = 1 + (int)r.below(3); while (n--) o.push_back(x); } }
    return o;
}
static SutCfg makeCfg(Rng& r) {
    static const uint32_t ratios[] = {0, 1, 2, 2, 4, 4, 8, 8, 16, 16, 16, 32, 32, 64, 64, 256, 1000, 100000, 1u << 23, 0x80000000u, 0xffffffffu};
    static const unsigned lens[] = {1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 55, 56, 57, 63, 64};
    SutCfg c;
    c.form = r.chance(1, 2) ? 0 : (int)r.below(5);
    c.dense = r.chance(4, 5);
    c.ratio = pick(r, ratios);
    c.st = (int)r.below(4);
    unsigned a = r.chance(1, 12) ? 0 : pick(r, lens), b = r.chance(1, 12) ? 0 : pick(r, lens);
    if (c.st && r.chance(1, 4)) { a = 1 + (unsigned)r.below(8); b = 1 + (unsigned)r.below(8); }
    if (c.st == 1) c.hl = a;
    if (c.st == 2) c.rl = b;
    if (c.st == 3) {
        while (a + b > 64) { if (a > b) a = pick(r, lens) / 2; else b = pick(r, lens) / 2; }
        c.hl = a; c.rl = b;
    }
    if (c.form == 1) { c.st = 0; c.hl = c.rl = 0; }
    if (c.form == 1 || c.form == 2) { c.dense = true; c.ratio = 16; }
    return c;
}

// ------------------------------------------------------------------ histories --
namespace {
enum Act { A_LOOK, A_RANGE, A_SEEK, A_COUNT, A_QRY, A_PROBE, A_SWEEP, A_ITER, A_COUNTIT, A_IMG, A_RESTORE, A_DIFF, A_CYCLE, A_OOM, A_PAR, A_BUILD, A_DESTROY, A_SAVE, A_SPACE, A_INTS, A_BENCH, A_PARTS, A_TRIE, A_N };
const int kWeights[19][A_N] = {
    //        LOOK RNG SEEK CNT QRY PRB SWP ITR CIT IMG RST DIF CYC OOM PAR BLD DST SAV SPC INT BEN PRT TRI
    /*P01*/ { 8,   1,  1,   0,  2,  1,  8,  1,  0,  1,  4,  1,  0,  3,  2,  4,  2,  2},
    /*P02*/ { 1,  12,  1,   0,  2,  0,  1,  1,  0,  1,  3,  1,  0,  2,  2,  4,  2,  2},
    /*P03*/ { 3,   6,  0,   0,  1, 12,  0,  0,  0,  1,  3,  1,  0,  1,  1,  4,  2,  1},
    /*P04*/ { 0,   1, 14,   0,  2,  0,  1,  2,  0,  0,  3,  1,  0,  1,  2,  4,  2,  1},
    /*P05*/ { 0,   1,  2,   0,  1,  0,  5, 14,  0,  0,  3,  1,  0,  1,  1,  4,  2,  1},
    /*P06*/ { 0,   1,  1,  12,  1,  0,  0,  2,  8,  0,  3,  1,  0,  1,  2,  4,  2,  1},
    /*P07*/ { 1,   1,  1,   1,  3,  1,  1,  2,  1,  3,  8,  8,  0,  1,  0,  4,  2,  6},
    /*P08*/ { 1,   1,  0,   1,  1,  0,  0,  1,  0, 12,  8,  0,  1,  1,  2,  5,  3,  4},
    /*P09*/ { 1,   0,  0,   0,  1,  0,  0,  1,  0,  1,  1,  0,  0,  0, 12,  2,  1,  0},
    /*P10*/ { 1,   1,  1,   0,  1,  0,  0,  2,  0,  0,  1,  0,  0, 14,  1,  2,  1,  1},
    /*P11*/ { 2,   3,  3,   1,  4,  2,  2,  2,  1,  1,  4,  1,  5,  1,  0,  4,  4,  1},
    /*P12*/ { 0,   0,  6,   0,  2,  0,  2, 14,  0,  0,  4,  1,  0,  1,  1,  4,  2,  1},
    /*P13*/ { 0,   0,  0,   0,  1,  0,  0,  1,  0,  0,  4,  0,  0,  1,  0,  5,  2,  1, 12},
    /*P14*/ { 0,   0,  0,   0,  0,  0,  0,  0,  0,  0,  1,  0,  0,  3,  4,  1,  0,  0,  0, 12},
    /*P15*/ { 3,   3,  3,   3,  3,  0,  1,  4,  2,  1,  3,  0,  0,  1,  3,  4,  1,  1},
    /*P16*/ { 0,   0,  0,   0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  3,  4,  1,  0,  0,  0,  0, 12},
    /*P17*/ { 0,   0,  0,   0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  3,  3,  1,  0,  0,  0,  0,  0, 14},
    /*P18*/ { 1 },                                          // its histories come from programStory
    /*P19*/ { 0,   0,  0,   0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  3,  3,  1,  0,  0,  0,  0,  0,  0, 12},
};

struct LiveF { int id, ks, cfg; };
struct LiveP { int id, f; };
struct Gen {
    Plan p;
    Rng r;
    int prop, profile;
    int uid = 0, inc = 0, phase = 0, thr = 0;
    int nextF = 0, nextP = 0, nextImg = 0;
    std::vector<LiveF> fs;
    std::vector<LiveP> ps;
    bool big = false;

    Gen(uint64_t seed, int prop_, int prof) : r(rt::mix(seed, 4242)), prop(prop_), profile(prof) {}
    Op& add(int kind, long a = 0, long b = 0, long c = 0, long d = 0) {
        Op o;
        o.uid = uid++; o.inc = inc; o.phase = phase; o.thr = thr; o.kind = kind;
        o.a = a; o.b = b; o.c = c; o.d = d;
        p.ops.push_back(o);
        return p.ops.back();
    }
    uint64_t seedf(int focus) { return (r.next() & 0x3fffffffffff) << 3 | focus; }
    const Keys& keysOf(const LiveF& f) { return p.ks[f.ks].keys; }
    LiveF& anyF() { return fs[r.below(fs.size())]; }

    void build(int ks, int cfg) { LiveF f = {nextF++, ks, cfg}; add(K_BUILD, f.id, ks, cfg); fs.push_back(f); }
    void buildRandom() { build((int)r.below(p.ks.size()), (int)r.below(p.cfg.size())); }
    void destroy(size_t i) {
        add(K_DESTROY, fs[i].id);
        for (size_t k = 0; k < ps.size();) if (ps[k].f == fs[i].id) ps.erase(ps.begin() + k); else k++;
        fs.erase(fs.begin() + i);
    }
    void rangeArgs(const Keys& K, std::string* s, std::string* t) {
        *s = queryKey(r, K);
        *t = r.chance(1, 2) ? mutateKey(r, *s) : queryKey(r, K);
        if (*t < *s) std::swap(*s, *t);
    }
    void seekOp(LiveF f, int it) {
        Op& o = add(K_SEEK, f.id, it, r.below(2) + (r.chance(1, 4) ? 2 : 0), r.below(2));
        o.s = queryKey(r, keysOf(f));
    }
    void endOp(LiveF f, int it) { add(K_END, f.id, it, r.below(2) + (r.chance(1, 4) ? 2 : 0)); }
    void iterStory() {
        LiveF f = anyF();
        int it;
        if (!ps.empty() && r.chance(1, 4)) { it = ps[r.below(ps.size())].id; for (auto& x : ps) if (x.id == it) { for (auto& y : fs) if (y.id == x.f) f = y; } }
        else { it = nextP++; ps.push_back({it, f.id}); if (r.chance(2, 3)) seekOp(f, it); else endOp(f, it); }
        int n = 1 + (int)r.below(6);
        while (n--) {
            switch (r.below(10)) {
            case 7:                                      // the position moves elsewhere, perhaps to another filter
                if (r.chance(1, 3)) { add(K_CLEARIT, 0, it); if (r.chance(1, 2)) add(K_STEP, 0, it, r.chance(1, 2) ? 1 : -1); }
                if (r.chance(1, 3)) f = anyF();
                for (auto& x : ps) if (x.id == it) x.f = f.id;
                if (r.chance(2, 3)) { seekOp(f, it); p.ops.back().c |= 2; } else add(K_END, f.id, it, 2 + r.below(2));
                break;
            case 0: case 1: add(K_STEP, 0, it, (long)(1 + r.below(r.chance(1, 6) ? 80 : 5)) * (r.chance(1, 2) ? 1 : -1)); break;
            case 2: case 3: add(K_WALK, 0, it, 2 + r.below(r.chance(1, 6) ? 200 : 20), r.next() >> 4); break;
            case 4: case 5: { Op& o = add(K_SHOW, 0, it); o.s = queryKey(r, keysOf(f)); break; }
            case 6: {
                int c = nextP++;
                add(K_COPYIT, 0, it, c);
                ps.push_back({c, f.id});
                if (r.chance(1, 2)) add(K_STEP, 0, it, r.chance(1, 2) ? 2 : -2);
                Op& o = add(K_SHOW, 0, c); o.s = queryKey(r, keysOf(f));
                break;
            }
            default:
                if (ps.size() > 1) {
                    LiveP& q = ps[r.below(ps.size())];
                    if (q.id != it) {
                        add(K_ASSIGN, 0, it, q.id);
                        q.f = f.id;
                        if (r.chance(1, 2)) add(K_STEP, 0, q.id, 1);
                        Op& o = add(K_SHOW, 0, it); o.s = queryKey(r, keysOf(f));
                        if (r.chance(1, 3)) { add(K_DROPIT, 0, q.id); Op& o2 = add(K_SHOW, 0, it); o2.s = queryKey(r, keysOf(f)); }
                    }
                }
            }
        }
        if (ps.size() > 5) { add(K_DROPIT, 0, ps[0].id); ps.erase(ps.begin()); }
    }
    void restore() {
        LiveF f = anyF();
        int img = nextImg++;
        add(K_SER, f.id, img);
        if (r.chance(1, 4)) { for (size_t i = 0; i < fs.size(); i++) if (fs[i].id == f.id) { destroy(i); break; } }
        LiveF g = {nextF++, f.ks, f.cfg};
        add(K_DESER, img, g.id, r.chance(1, 2) ? 0 : r.below(16), r.below(3));
        fs.push_back(g);
    }
    void intsOp() { add(K_INTS, 0, 0, 1 + logUniform(r, 7), seedf(0)); }
    static bool short_(const Keys& k, size_t bytes) {                  // quick to build step by step
        size_t n = 0;
        for (auto& x : k) n += x.size() + 4;
        return k.size() <= 300 && n < bytes;
    }
    void benchOp(long ks = -1) {
        static const int lens[] = {0, 1, 2, 4, 7, 8, 8, 9, 13, 16, 17, 24, 31, 32, 33, 48, 63, 64};
        add(K_BENCH, r.chance(1, 5) ? 4 : (long)r.below(BENCH_TYPES), ks >= 0 ? ks : (long)r.below(p.ks.size()), pick(r, lens), seedf(0));
    }
    void partsOp(int n = 0) {
        if (!n) n = 1 + (int)r.below(6);
        while (n--) add(K_PARTS, r.below(PART_KINDS), 0, r.chance(1, 8) ? 20000 : r.chance(1, 3) ? 4000 : 600, seedf(0));
    }
    void trieOp(long ks = -1) {
        add(K_TRIE, 0, ks >= 0 ? ks : (long)r.below(p.ks.size()), r.below(p.cfg.size()), seedf(0));
    }
    void trim() { while (fs.size() > 5) destroy(r.below(fs.size())); }

    void oomStory() {
        LiveF f = anyF();
        bool persist = r.chance(1, 2);
        long at;
        size_t first = p.ops.size();
        int own = prop == 13 ? K_INTS : prop == 15 ? K_BENCH : prop == 16 ? K_PARTS : prop == 18 ? K_TRIE : -1;
        if (own >= 0 && r.chance(3, 4)) {
            if (own == K_INTS) intsOp(); else if (own == K_PARTS) partsOp(1); else if (own == K_TRIE) trieOp(); else benchOp();
            at = r.chance(1, 2) ? logUniform(r, 8) : r.below(4);
        } else switch (r.below(9)) {
        case 0: case 1: {
            LiveF g = {nextF++, (int)r.below(p.ks.size()), (int)r.below(p.cfg.size())};
            at = logUniform(r, 8);
            add(K_BUILD, g.id, g.ks, g.cfg);
            fs.push_back(g);
            break;
        }
        case 2: {
            int img = nextImg++;
            add(K_SER, f.id, img);
            first = p.ops.size();
            LiveF g = {nextF++, f.ks, f.cfg};
            at = r.below(14);
            add(K_DESER, img, g.id, r.below(9), r.below(3));
            fs.push_back(g);
            break;
        }
        case 3: { at = r.below(2); add(K_SER, f.id, nextImg++); break; }
        case 4: case 5: { at = r.below(16); int it = nextP++; ps.push_back({it, f.id}); if (!ps.empty() && r.chance(1, 3)) { it = ps[r.below(ps.size())].id; for (auto& x : ps) if (x.id == it) x.f = f.id; } if (r.chance(3, 4)) seekOp(f, it); else endOp(f, it); break; }
        case 6: { at = r.below(16); Op& o = add(r.chance(1, 2) ? K_RANGE : K_COUNT, f.id, r.below(2), r.below(2)); rangeArgs(keysOf(f), &o.s, &o.t); break; }
        case 7: {
            at = r.below(8);
            if (ps.empty()) { int it = nextP++; ps.push_back({it, f.id}); add(K_END, f.id, it, 0); first = p.ops.size(); }
            LiveP q = ps[r.below(ps.size())];
            switch (r.below(4)) {
            case 0: add(K_STEP, 0, q.id, r.chance(1, 2) ? 1 : -1); break;
            case 1: { Op& o = add(K_SHOW, 0, q.id); for (auto& y : fs) if (y.id == q.f) o.s = queryKey(r, keysOf(y)); break; }
            case 2: { int c = nextP++; add(K_COPYIT, 0, q.id, c); ps.push_back({c, q.f}); break; }
            default: { LiveP z = ps[r.below(ps.size())]; add(K_ASSIGN, 0, q.id, z.id); for (auto& x : ps) if (x.id == z.id) x.f = q.f; }
            }
            break;
        }
        default: { at = r.below(6); Op& o = add(K_LOOKUP, f.id); o.s = queryKey(r, keysOf(f)); }
        }
        Op failing = p.ops[first];
        p.ops[first].oom = at;
        p.ops[first].oomPersist = persist;
        // everything else is still intact ...
        if (r.chance(1, 2)) add(K_QRY, f.id, 0, 3 + r.below(6), seedf((int)r.below(8)));
        if (!ps.empty() && r.chance(1, 2)) { LiveP q = ps[r.below(ps.size())]; Op& o = add(K_SHOW, 0, q.id); for (auto& y : fs) if (y.id == q.f) o.s = queryKey(r, keysOf(y)); add(K_STEP, 0, q.id, 1); }
        // ... and the same call succeeds now
        Op& again = add(failing.kind, failing.a, failing.b, failing.c, failing.d);
        again.s = failing.s; again.t = failing.t;
        if (failing.kind == K_BUILD) add(K_QRY, failing.a, 0, 6, seedf(0));
        if (failing.kind == K_DESER) add(K_QRY, failing.b, 0, 6, seedf(0));
    }

    void parallelStory() {
        int savedPhase = phase++;
        (void)savedPhase;
        int n = 2 + (int)r.below(3);
        if (r.chance(1, 2)) n = 2;
        LiveF main = anyF();
        Keys pool;
        for (int i = 0; i < 4; i++) pool.push_back(queryKey(r, keysOf(main)));
        bool mono = r.chance(1, 3);             // every thread uses the same kind of call
        int kind = (int)r.below(9);
        for (thr = 1; thr <= n; thr++) {
            int it = thr * 1000, pf = thr * 1000 + 500, img = thr * 1000 + 500;
            bool havePos = false;
            int ops = 1 + (int)r.below(prop == 8 ? 7 : 4);
            for (int i = 0; i < ops; i++) {
                LiveF f = r.chance(4, 5) ? main : anyF();
                auto q = [&] { return f.id == main.id && r.chance(2, 3) ? pool[r.below(pool.size())] : queryKey(r, keysOf(f)); };
                int k = mono && r.chance(4, 5) ? kind : (int)r.below(12);
                if (prop == 13 && r.chance(2, 3)) { intsOp(); continue; }
                if (prop == 16 && r.chance(2, 3)) { add(K_PARTS, r.below(PART_KINDS), 0, 300, seedf(0)); continue; }
                if (prop == 15 && r.chance(2, 3)) { if (short_(p.ks[0].keys, 1200)) benchOp(0); continue; }
                if (prop == 18 && r.chance(2, 3)) { if (short_(p.ks[0].keys, 1200)) trieOp(0); continue; }
                switch (k) {
                case 0: case 1: { Op& o = add(K_LOOKUP, f.id); o.s = q(); break; }
                case 2: case 3: { Op& o = add(K_RANGE, f.id, r.below(2), r.below(2)); o.s = q(); o.t = q(); if (o.t < o.s) std::swap(o.s, o.t); break; }
                case 4: { Op& o = add(K_COUNT, f.id); o.s = q(); o.t = q(); if (o.t < o.s) std::swap(o.s, o.t); break; }
                case 5: case 6: { Op& o = add(K_SEEK, f.id, it, r.below(2), r.below(2)); o.s = q(); havePos = true; break; }
                case 7:
                    if (!havePos) { add(K_END, f.id, it, r.below(2)); havePos = true; }
                    if (r.chance(1, 2)) add(K_STEP, 0, it, (long)(1 + r.below(4)) * (r.chance(1, 2) ? 1 : -1));
                    else { Op& o = add(K_SHOW, 0, it); o.s = q(); }
                    break;
                case 8: if (r.chance(1, 2)) add(K_SER, f.id, img++); else add(K_IMG, f.id); break;
                case 9: {
                    int ks = (int)r.below(p.ks.size());
                    if (!short_(p.ks[ks].keys, 5000)) break;
                    add(K_BUILD, pf, ks, r.below(p.cfg.size()));
                    add(K_QRY, pf, 0, 1 + r.below(4), seedf(0));
                    if (r.chance(1, 2)) add(K_DESTROY, pf);
                    pf++;
                    break;
                }
                case 10: {
                    add(K_SER, f.id, img);
                    add(K_DESER, img++, pf, r.below(9), r.below(3));
                    add(K_QRY, pf, 0, 1 + r.below(4), seedf(0));
                    if (r.chance(1, 2)) add(K_DESTROY, pf);
                    pf++;
                    break;
                }
                default: add(K_QRY, f.id, 0, 1 + r.below(6), seedf(0));
                }
                if (havePos && r.chance(1, 4)) { Op& o = add(K_SHOW, 0, it); o.s = q(); }
            }
        }
        thr = 0;
        PhaseSched s;
        s.inc = inc; s.phase = phase;
        s.sc.mode = (int)r.below(5);
        s.sc.period = 1 + (unsigned)logUniform(r, 11);
        s.sc.seed = r.next() >> 1;
        p.sched.push_back(s);
        phase++;
    }
    void act(int a) {
        if (fs.empty()) buildRandom();
        LiveF f = anyF();
        long scale = keysOf(f).size() > 3000 ? 2 : 1;
        switch (a) {
        case A_LOOK: add(K_QRY, f.id, 0, 20 + r.below(100), seedf(4)); break;
        case A_RANGE: add(K_QRY, f.id, 0, 20 + r.below(100), seedf(5)); break;
        case A_SEEK: add(K_QRY, f.id, 0, 20 + r.below(80), seedf(6)); break;
        case A_COUNT: add(K_QRY, f.id, 0, 20 + r.below(80), seedf(7)); break;
        case A_QRY: add(K_QRY, f.id, 0, 20 + r.below(80), seedf(0)); break;
        case A_PROBE: add(K_PROBE, f.id, 0, (40 + r.below(160)) * scale, seedf(0)); break;
        case A_SWEEP: add(K_SWEEP, f.id); break;
        case A_ITER: iterStory(); break;
        case A_COUNTIT: {
            int x = nextP++, y = nextP++;
            seekOp(f, x); seekOp(f, y);
            ps.push_back({x, f.id}); ps.push_back({y, f.id});
            add(K_COUNTIT, 0, x, y);
            if (r.chance(1, 2)) { add(K_STEP, 0, x, r.chance(1, 2) ? 1 : -1); add(K_COUNTIT, 0, x, y); }
            if (r.chance(1, 3)) { add(K_END, f.id, x, r.below(2)); add(K_COUNTIT, 0, x, y); }
            while (ps.size() > 5) { add(K_DROPIT, 0, ps[0].id); ps.erase(ps.begin()); }
            break;
        }
        case A_IMG: add(K_IMG, f.id); break;
        case A_RESTORE: restore(); if (prop == 7 && r.chance(1, 2)) add(K_IMG, fs.back().id); break;
        case A_DIFF: {
            for (auto& x : fs) for (auto& y : fs)
                if (x.id < y.id && x.ks == y.ks && x.cfg == y.cfg && r.chance(1, 2)) { add(K_DIFF, y.id, x.id, 5 + r.below(30), seedf(0)); return; }
            LiveF g = anyF();
            restore();
            build(g.ks, g.cfg);
            LiveF a1 = fs[fs.size() - 2], b1 = fs[fs.size() - 1];
            if (a1.ks == b1.ks && a1.cfg == b1.cfg) add(K_DIFF, a1.id, b1.id, 5 + r.below(30), seedf(0));
            break;
        }
        case A_CYCLE: add(K_CYCLE, 0, r.below(p.ks.size()), r.below(p.cfg.size()), seedf(0)); break;
        case A_SPACE: for (auto& x : fs) add(K_SPACE, x.id); break;
        case A_INTS: intsOp(); break;
        case A_BENCH: benchOp(); if (short_(p.ks[p.ops.back().b].keys, 3000) && r.chance(1, 4)) p.ops.back().a += 8; break;
        case A_PARTS: partsOp(); if (p.ops.back().c <= 600 && r.chance(1, 8)) p.ops.back().a += 8; break;
        case A_TRIE: trieOp(); if (short_(p.ks[p.ops.back().b].keys, 3000) && r.chance(1, 4)) p.ops.back().a += 8; break;
        case A_OOM: oomStory(); break;
        case A_PAR: parallelStory(); break;
        case A_BUILD: buildRandom(); break;
        case A_DESTROY: destroy(r.below(fs.size())); break;
        case A_SAVE: {
            int file = (int)r.below(3);
            add(K_SAVE, f.id, file);
            if (r.chance(1, 2)) { LiveF g = {nextF++, f.ks, f.cfg}; add(K_LOAD, file, g.id, r.below(16), r.below(3)); fs.push_back(g); }
            break;
        }
        }
        trim();
    }
    void story(int n) {
        int total = 0;
        for (int w : kWeights[prop]) total += w;
        while (n-- > 0) {
            int x = (int)r.below(total), a = 0;
            while (x >= kWeights[prop][a]) x -= kWeights[prop][a++];
            act(a);
        }
    }
    // The benchmark's programs and their loader, each program in a phase of its own.
    void programStory(bool deep) {
        p.incs = 1 + (int)r.below(2);
        for (inc = 0; inc < p.incs; inc++) {
            phase = 0;
            bool threads = false;
            int n = 1 + (int)r.below(4);
            while (n--) {
                long size = 1 + logUniform(r, r.chance(1, 8) ? (deep ? 12 : 10) : 7);
                if (r.chance(1, 4)) { add(K_KEYS, r.below(3), 0, r.chance(1, 10) ? 0 : size, seedf(0)); continue; }
                bool mt = !threads && r.chance(1, 2);
                threads |= mt;
                phase++;
                add(K_PROG, mt, 1 + r.below(5) + (r.chance(1, 4) ? 8 : 0) + (mt && r.chance(1, 12) ? 16 + 32 * r.below(5) : 0), mt ? std::min(size, 300l) : size, seedf(0));
                if (mt) {
                    PhaseSched s;
                    s.inc = inc; s.phase = phase;
                    s.sc.mode = (int)r.below(5);
                    s.sc.period = 1 + (unsigned)logUniform(r, 11);
                    s.sc.seed = r.next() >> 1;
                    p.sched.push_back(s);
                }
                phase++;
            }
        }
        inc = 0;
    }
    // Filters come and go at the same addresses: nothing may be remembered about one that is gone.
    void churnStory() {
        int rounds = 4 + (int)r.below(20);
        Keys pool;
        for (int i = 0; i < 3; i++) pool.push_back(queryKey(r, p.ks[r.below(p.ks.size())].keys));
        int img = -1; LiveF imgOf = {0, 0, 0};
        std::string lastQ;
        while (rounds--) {
            LiveF f = {nextF++, (int)r.below(p.ks.size()), (int)r.below(p.cfg.size())};
            if (img >= 0 && r.chance(1, 4)) { f.ks = imgOf.ks; f.cfg = imgOf.cfg; add(K_DESER, img, f.id, 0, r.below(3)); }
            else add(K_BUILD, f.id, f.ks, f.cfg);
            int n = 1 + (int)r.below(3);
            bool again = r.chance(1, 2);                     // starts with the key the last one ended with
            while (n--) {
                const Keys& K = p.ks[f.ks].keys;
                auto q = [&] {
                    if (again) again = false;
                    else lastQ = r.chance(1, 2) ? pool[r.below(pool.size())] : r.chance(1, 2) ? K[r.below(K.size())] : queryKey(r, K);
                    return lastQ;
                };
                int what = prop == 0 ? (int)r.below(4) : prop == 1 || prop == 2 ? (int)r.below(6) : prop == 3 || prop == 4 || prop == 11 ? 6 + (int)r.below(3) : prop == 5 ? 9 : (int)r.below(10);
                if (r.chance(1, 5)) what = (int)r.below(10);
                switch (what) {
                case 0: case 1: case 2: { Op& o = add(K_LOOKUP, f.id); o.s = q(); break; }
                case 3: case 4: case 5: { Op& o = add(K_RANGE, f.id, r.below(2), r.below(2)); o.s = q(); o.t = q(); if (o.t < o.s) std::swap(o.s, o.t); break; }
                case 6: case 7: case 8: {
                    int it = 3000 + nextP++;
                    if (r.chance(2, 3)) { Op& o = add(K_SEEK, f.id, it, r.below(2), r.below(2)); o.s = q(); } else add(K_END, f.id, it, r.below(2));
                    if (r.chance(1, 2)) add(K_STEP, 0, it, r.chance(1, 2) ? 1 : -1);
                    if (r.chance(1, 3) || prop == 11) { Op& o = add(K_SHOW, 0, it); o.s = q(); }
                    add(K_DROPIT, 0, it);
                    break;
                }
                default: { Op& o = add(K_COUNT, f.id); o.s = q(); o.t = q(); if (o.t < o.s) std::swap(o.s, o.t); }
                }
            }
            if (img < 0 && r.chance(1, 3)) { img = nextImg++; imgOf = f; add(K_SER, f.id, img); }
            add(K_DESTROY, f.id);
        }
    }
    // Restarts: what a previous process saved is loaded, compared, used and saved again.
    void generations() {
        p.incs = 2 + (int)r.below(3);
        for (inc = 0; inc < p.incs; inc++) {
            phase = 0;
            fs.clear(); ps.clear();
            nextF = 0; nextP = 0;
            if (inc) {
                for (int file = 0; file < 3; file++)
                    if (r.chance(2, 3)) {
                        // the loaded filter's keys are only known when it runs: compare with all fresh candidates
                        int id = 900 + file;
                        add(K_LOAD, file, id, r.chance(1, 3) ? 0 : r.below(16), r.below(3));
                        add(K_QRY, id, 0, 10 + r.below(40), seedf((int)r.below(8)));
                        if (r.chance(1, 2)) add(K_SWEEP, id);
                        if (r.chance(1, 2)) add(K_IMG, id);
                        for (int i = 0; i < (int)(p.ks.size() * p.cfg.size()) && i < 6; i++) {
                            int ks = i % (int)p.ks.size(), c = i / (int)p.ks.size();
                            bool have = false; LiveF g = {0, 0, 0};
                            for (auto& x : fs) if (x.ks == ks && x.cfg == c) { have = true; g = x; }
                            if (!have) { build(ks, c); g = fs.back(); }
                            add(K_DIFF, id, g.id, 5 + r.below(25), seedf(0));
                        }
                        if (r.chance(2, 3)) add(K_SAVE, id, r.below(3));    // next generation
                        if (r.chance(1, 3)) add(K_DESTROY, id);
                    }
            }
            if (inc + 1 < p.incs || fs.empty()) {
                if (fs.empty()) buildRandom();
                int n = 1 + (int)r.below(3);
                while (n--) {
                    if (r.chance(1, 3)) buildRandom();
                    LiveF f = anyF();
                    add(K_SAVE, f.id, r.below(3));
                    if (r.chance(1, 2)) add(K_QRY, f.id, 0, 10, seedf(0));
                }
                if (r.chance(1, 2)) story(1 + (int)r.below(3));
            } else if (r.chance(1, 2)) story(1 + (int)r.below(4));
            if (inc + 1 < p.incs) {
                if (r.chance(1, 3)) p.crashes.push_back({inc, 1 + (uint64_t)logUniform(r, 22)});
                int nf = (int)r.below(3);
                while (nf--) {
                    static const int what[] = {1, 2, 3, 3, 4, 4};
                    p.dfaults.push_back({inc, (int)logUniform(r, 5), pick(r, what)});
                }
            } else if (r.chance(1, 3)) p.dfaults.push_back({inc, (int)logUniform(r, 4), 3});
        }
    }
    // One filter of some hundred thousand labels: numbers beyond 16 bits everywhere.
    void vastStory(bool deep) {
        build(0, 0);
        for (int i = 0; i < 2; i++) {
            LiveF f = fs.back();
            int q = deep ? 6 + (int)r.below(20) : 150 + (int)r.below(200);
            switch (prop) {
            case 0: add(K_QRY, f.id, 0, 2 * q, seedf(4)); break;
            case 1: add(K_QRY, f.id, 0, q, seedf(5)); break;
            case 2: add(K_PROBE, f.id, 0, 2 * q, seedf(0)); add(K_QRY, f.id, 0, q / 2, seedf(5)); break;
            case 3: add(K_QRY, f.id, 0, q, seedf(6)); break;
            case 5: add(K_QRY, f.id, 0, q, seedf(7)); break;
            case 7: add(K_IMG, f.id); break;
            case 18: if (!i) trieOp(); break;
            default: add(K_QRY, f.id, 0, q, seedf(0));
            }
            if (prop == 4 || prop == 11) for (int j = 0; j < 5; j++) iterStory();
            if (i == 0 && (prop == 0 || prop == 4 || prop == 11) && r.chance(1, 4)) add(K_SWEEP, f.id);
            if (i == 0) {
                if (prop == 6 || prop == 7 || prop == 10 || r.chance(1, 2)) restore(); else break;
                if (prop == 6) add(K_DIFF, fs[1 % fs.size()].id, fs[0].id, deep ? 10 : 100, seedf(0));
            }
        }
        while (!fs.empty()) destroy(0);
    }
    // The same keys and configuration again and again, in processes with different heaps.
    void imageStory() {
        p.incs = 1 + (int)r.below(3);
        for (inc = 0; inc < p.incs; inc++) {
            phase = 0;
            fs.clear(); ps.clear();
            nextF = 0; nextP = 0;
            int n = 1 + (int)r.below(3);
            while (n--) {
                buildRandom();
                if (r.chance(1, 2)) add(K_QRY, fs.back().id, 0, 10, seedf(0));
                add(K_IMG, fs.back().id);
                if (r.chance(1, 2)) { restore(); add(K_IMG, fs.back().id); if (r.chance(1, 2)) { restore(); add(K_IMG, fs.back().id); } }
                if (r.chance(1, 3)) story(1 + (int)r.below(3));
                if (!fs.empty()) add(K_IMG, anyF().id);
                trim();
            }
        }
    }
};
}  // namespace

Plan generate(uint64_t seed, const std::string& prop, int profile) {
    int pi = atoi(prop.c_str() + 1) - 1;
    Gen g(rt::mix(seed, pi), pi, profile);
    Rng& r = g.r;
    g.p.seed = seed;
    g.p.prop = prop;
    g.p.heap.seed = r.next() >> 8;
    g.p.heap.reuse = (int)r.below(2);
    g.p.diskSeed = r.next() >> 8;
    bool small = pi == 8 || pi == 9 || pi == 13 || pi == 16 ? r.chance(2, 3) : pi == 15 || pi == 18 ? r.chance(1, 3) : pi == 10 ? r.chance(1, 3) : pi == 12 || pi == 14 ? r.chance(1, 8) : r.chance(1, 5);
    bool lop = false;
    int nks = 1 + (int)r.below(2), ncfg = 1 + (int)r.below(2);
    for (int i = 0; i < nks; i++) {
        KeySet k;
        if (pi == 12 || pi == 14) g.big = !small && i == 0 && r.chance(1, pi == 12 ? 4 : 3);
        k.keys = makeKeys(r, profile, small || i > 0, &g.p.family, pi != 8 && pi != 9 && pi != 15, g.big);
        if (pi == 12 && i == 0 && !g.big && r.chance(1, 4)) {
            k.keys.clear();
            lopsided(r, k.keys, 200 + r.below(1200));
            std::sort(k.keys.begin(), k.keys.end());
            k.keys.erase(std::unique(k.keys.begin(), k.keys.end()), k.keys.end());
            g.p.family += "/lopsided"; lop = true;
        }
        if (r.chance(1, 10)) k.keys = withDuplicates(r, k.keys);
        g.p.ks.push_back(k);
    }
    if (r.chance(1, pi == 7 ? 2 : 12)) {                     // the same set, spelled with duplicates
        KeySet k;
        Keys d = g.p.ks[0].keys;
        d.erase(std::unique(d.begin(), d.end()), d.end());
        k.keys = withDuplicates(r, d);
        g.p.ks.push_back(k);
    }
    bool vast = (pi <= 7 || pi == 10 || pi == 11) ? r.chance(1, profile ? 40 : 120) : pi == 18 && r.chance(1, profile ? 60 : 240);
    if (vast) {
        Keys k, o;
        g.p.ks.resize(1); g.p.family.clear();
        for (int i = 0; i < 4 && k.size() < 20000; i++) { k.clear(); g.p.family.clear(); addKeys(r, k, 40000 + r.below(profile ? 260000 : 160000), &g.p.family); }
        size_t bytes = 0;
        for (auto& x : k) if (!x.empty() && bytes < (pi == 18 ? 1000000u : profile ? 4000000u : 2500000u)) { o.push_back(x); bytes += x.size(); }
        if (o.empty()) o.push_back("a");
        std::sort(o.begin(), o.end());
        o.erase(std::unique(o.begin(), o.end()), o.end());
        g.p.ks[0].keys = o; g.p.family += "/vast";
        ncfg = 1;
    }
    if (pi == 17) {
        g.p.ks.resize(1); g.p.ks[0].keys.assign(1, "a"); g.p.family = "programs";
        g.p.cfg.push_back(SutCfg());
        g.programStory(profile);
        return g.p;
    }
    size_t longest = 0;
    for (auto& k : g.p.ks) for (auto& s : k.keys) longest = std::max(longest, s.size());
    for (int i = 0; i < ncfg; i++) {
        SutCfg c = makeCfg(r);
        while (longest > 3000 && (c.dense || c.form == 4) && c.ratio < 16) c = makeCfg(r);   // choosing the cutoff takes time quadratic in the dense height
        if (lop && r.chance(1, 2)) {                         // long suffixes weigh most
            c.st = 1 + (int)r.below(3); c.hl = c.rl = 0;
            unsigned len = 48 + (unsigned)r.below(17);
            if (c.st == 1) c.hl = len; else if (c.st == 2) c.rl = len; else { c.hl = 1 + (unsigned)r.below(len - 1); c.rl = len - c.hl; }
            c.form = 0; c.dense = true; c.ratio = 4u << r.below(6);
        }
        g.p.cfg.push_back(c);
    }
    size_t bytes = 0;
    for (auto& k : g.p.ks) for (auto& s : k.keys) bytes += s.size() + 4;
    int n = bytes > 100000 ? 3 : bytes > 20000 ? 5 : 8;
    if (vast || (pi == 6 && longest > 30000)) g.vastStory(!vast);
    else if (!g.big && r.chance(1, 14)) {                          // small sets that differ a little
        g.p.ks.resize(1);
        Keys a = makeKeys(r, 0, true, &g.p.family);
        if (a.size() > 12) { std::vector<std::string> b; for (size_t i = 0; i < a.size(); i += 1 + a.size() / 12) b.push_back(a[i]); a = b; }
        g.p.ks[0].keys = a;
        int m = 1 + (int)r.below(3);
        while (m--) {
            std::set<std::string> s;
            for (auto& k : a) { std::string x = r.chance(1, 2) ? k : mutateKey(r, k); if (!x.empty() && r.chance(7, 8)) s.insert(x); }
            if (s.empty()) s.insert("q");
            KeySet k; k.keys.assign(s.begin(), s.end());
            g.p.ks.push_back(k);
        }
        if (r.chance(1, 2)) g.p.cfg.resize(1);
        g.p.heap.reuse = r.chance(4, 5);
        g.churnStory();
        if (r.chance(1, 3)) g.story(1 + (int)r.below(3));
        g.p.family = "churn";
    }
    else if (pi == 6 && r.chance(4, 5)) g.generations();
    else if (pi == 7 && r.chance(3, 4)) g.imageStory();
    else if (pi == 8) { g.buildRandom(); int k = 1 + (int)r.below(3); while (k--) { g.story(1); g.act(A_PAR); } }
    else {
        g.buildRandom();
        g.story(1 + (int)r.below(n));
        if (pi != 6 && r.chance(1, 15)) {                     // carry on in a later process
            g.act(A_SAVE);
            g.p.incs = 2;
            g.inc = 1; g.phase = 0; g.fs.clear(); g.ps.clear(); g.nextF = 0; g.nextP = 0;
            for (int f = 0; f < 3; f++) { g.add(K_LOAD, f, 900 + f, r.below(16), r.below(3)); g.add(K_QRY, 900 + f, 0, 40, g.seedf(0)); g.add(K_SWEEP, 900 + f); }
            g.story(1);
        }
    }
    return g.p;
}
