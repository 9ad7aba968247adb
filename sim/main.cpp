// Command line of the simulator: search, replay, minimise, self-check.
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

#include "exec.h"

#include <signal.h>
static volatile sig_atomic_t g_stop;
static void onTerm(int) { g_stop = 1; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string jsonStr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
static uint64_t total(const Plan& p) { uint64_t n = 0; for (auto& k : p.ks) n += k.keys.size(); return n; }

// The violation of the target property, if this execution shows one.
static const Viol* hit(const Outcome& o, uint32_t bit, int cls = -1) {
    for (auto& v : o.viols) if ((v.mask & bit) && (cls < 0 || v.cls == cls)) return &v;
    return nullptr;
}
static Plan withoutOom(const Plan& p) { Plan q = p; for (auto& o : q.ops) o.oom = -1; return q; }
// P10: something is wrong in a run with allocation failures and nothing is wrong without them.
static bool blameOom(const Plan& p, const Outcome& o) {
    if (o.viols.empty() || !o.oomFired) return false;
    return execute(withoutOom(p)).viols.empty();
}
static const Viol* judge(const Plan& p, const Outcome& o, uint32_t bit, int cls = -1) {
    const Viol* v = hit(o, bit, cls);
    if (!v && bit == propBit("P10") && blameOom(p, o)) { v = &o.viols[0]; if (cls >= 0 && v->cls != cls) v = nullptr; }
    return v;
}

static bool nontrivial(int prop, const uint64_t* c) {
    switch (prop) {
    case 0: return c[C_LOOKUP] > 0;
    case 1: return c[C_RANGE] > 0;
    case 2: return c[C_POSITIVE_ABSENT] > 0 || c[C_PROBE] > 0;
    case 3: return c[C_SEEK] > 0;
    case 4: return c[C_STEP] > 0;
    case 5: return c[C_COUNT] > 0;
    case 6: return c[C_RESTORE] > 0;
    case 7: return c[C_IMAGE] > 1;
    case 8: return c[C_PREEMPT] > 0;
    case 9: return c[C_OOM_FIRED] > 0;
    case 10: return c[C_DESTROY] > 0 && c[C_EVENTS] > 0;
    case 11: return c[C_SHOW] > 0;
    case 12: return c[C_SPACE] > 0;
    case 13: return c[C_INTS] > 0;
    case 14: return c[C_METERED] > 0;
    case 15: return c[C_BENCHF] > 0;
    case 16: return c[C_PARTS] > 0;
    case 18: return c[C_TRIES] > 0;
    default: return c[C_KEYFILES] > 0;
    }
}

// ------------------------------------------------------------------- minimise --
struct Minimiser {
    Plan best;
    uint32_t bit;
    int cls;
    double deadline;
    int execs = 0;
    const std::string prop;
    bool test(const Plan& p) {
        if (now() > deadline) return false;
        execs++;
        Outcome o = execute(p);
        if (!judge(p, o, bit, cls)) return false;
        best = p;
        return true;
    }
    template <class T> void ddmin(std::vector<T> Plan::*list) {
        for (size_t chunk = std::max<size_t>(1, (best.*list).size() / 2);; chunk /= 2) {
            for (size_t i = 0; i < (best.*list).size() && now() < deadline;) {
                Plan c = best;
                auto& l = c.*list;
                l.erase(l.begin() + i, l.begin() + std::min(l.size(), i + chunk));
                if (!test(c)) i += chunk;
            }
            if (chunk <= 1) break;
        }
    }
    void keys() {
        for (size_t k = 0; k < best.ks.size(); k++)
            for (size_t chunk = std::max<size_t>(1, best.ks[k].keys.size() / 2);; chunk /= 2) {
                for (size_t i = 0; i < best.ks[k].keys.size() && now() < deadline;) {
                    Plan c = best;
                    auto& l = c.ks[k].keys;
                    l.erase(l.begin() + i, l.begin() + std::min(l.size(), i + chunk));
                    if (l.empty() || !test(c)) i += chunk;
                }
                if (chunk <= 1) break;
            }
    }
    void bulk() {
        // a bulk operation is replaced by the single call that failed, or shortened
        for (size_t i = 0; i < best.ops.size(); i++) {
            Op o = best.ops[i];
            if (o.kind != K_QRY && o.kind != K_PROBE && o.kind != K_SWEEP && o.kind != K_DIFF && o.kind != K_INTS && o.kind != K_KEYS && o.kind != K_PROG) continue;
            Outcome out = execute(best);
            const Viol* v = judge(best, out, bit, cls);
            if (v && v->uid == o.uid && v->ckind >= 0 && v->cs[0]) {
                Plan c = best;
                Op& n = c.ops[i];
                std::string s, t;
                unhex(v->cs, &s); if (v->ct[0]) unhex(v->ct, &t);
                bool ok = true;
                n.s = s; n.t = t;
                switch (v->ckind) {
                case K_LOOKUP: n.kind = K_LOOKUP; break;
                case K_RANGE: n.kind = K_RANGE; n.b = v->c_inc; n.c = v->c_inc2; break;
                case K_COUNT: n.kind = K_COUNT; break;
                case K_SEEK: n.kind = K_SEEK; n.b = 990; n.c = v->c_less; n.d = v->c_inc; break;
                default: ok = false;
                }
                if (ok && test(c)) continue;
            }
            if (o.kind == K_SWEEP) continue;
            if (o.kind == K_DIFF || o.kind == K_KEYS || o.kind == K_PROG) { for (long n = o.c / 2; n > 0; n /= 2) { Plan c = best; c.ops[i].c = best.ops[i].c - n; if (c.ops[i].c > 0) test(c); } continue; }
            for (int guard = 0; guard < 40 && best.ops[i].c > 1 && now() < deadline; guard++) {
                long n = best.ops[i].c, h = n / 2;
                Plan c = best;
                c.ops[i].c = h;
                if (test(c)) continue;
                c = best;
                c.ops[i].b += h; c.ops[i].c = n - h;
                if (test(c)) continue;
                break;
            }
        }
    }
    void simplify() {
        auto attempt = [&](auto f) { Plan c = best; f(c); if (print(c) != print(best)) test(c); };
        for (size_t i = 0; i < best.cfg.size(); i++) {
            attempt([&](Plan& c) { c.cfg[i].form = 0; });
            attempt([&](Plan& c) { c.cfg[i].st = 0; c.cfg[i].hl = c.cfg[i].rl = 0; });
            attempt([&](Plan& c) { c.cfg[i].dense = false; });
        }
        attempt([&](Plan& c) { c.heap.reuse = 0; });
        for (size_t i = 0; i < best.ops.size(); i++) {
            attempt([&](Plan& c) { c.ops[i].oomPersist = false; });
            attempt([&](Plan& c) { c.ops[i].oom = -1; });
            if (best.ops[i].kind == K_DESER || best.ops[i].kind == K_LOAD) { attempt([&](Plan& c) { c.ops[i].c = 0; }); attempt([&](Plan& c) { c.ops[i].d = 0; }); }
            if (best.ops[i].kind == K_STEP || best.ops[i].kind == K_WALK)
                for (int g = 0; g < 12; g++) { long before = best.ops[i].c; attempt([&](Plan& c) { c.ops[i].c = before / 2; }); if (best.ops[i].c == before) { attempt([&](Plan& c) { c.ops[i].c = before - (before > 0 ? 1 : -1); }); if (best.ops[i].c == before) break; } }
        }
    }
    void shorten() {
        for (size_t k = 0; k < best.ks.size(); k++) {
            if (best.ks[k].keys.size() > 60) continue;
            for (size_t i = 0; i < best.ks[k].keys.size() && now() < deadline; i++)
                for (size_t cut = best.ks[k].keys[i].size() / 2; cut >= 1 && now() < deadline; cut /= 2) {
                    while (best.ks[k].keys[i].size() > cut) {
                        Plan c = best;
                        std::string& s = c.ks[k].keys[i];
                        s.resize(s.size() - cut);
                        bool sorted = true;
                        for (size_t j = 1; j < c.ks[k].keys.size(); j++) if (!(c.ks[k].keys[j - 1] < c.ks[k].keys[j])) sorted = false;
                        if (!sorted || !test(c)) break;
                    }
                }
        }
        for (size_t i = 0; i < best.ops.size(); i++)
            while (now() < deadline) { Plan c = best; if (c.ops[i].s.empty()) break; c.ops[i].s.pop_back(); if (!test(c)) break; }
    }
    void switches() {
        for (size_t s = 0; s < best.sched.size(); s++) {
            if (best.sched[s].sc.mode != 9) continue;
            for (size_t chunk = std::max<size_t>(1, best.sched[s].sc.list.size() / 2);; chunk /= 2) {
                for (size_t i = 0; i < best.sched[s].sc.list.size() && now() < deadline;) {
                    Plan c = best;
                    auto& l = c.sched[s].sc.list;
                    l.erase(l.begin() + i, l.begin() + std::min(l.size(), i + chunk));
                    if (!test(c)) i += chunk;
                }
                if (chunk <= 1) break;
            }
        }
    }
    void trimUnused() {
        std::set<int> phases;
        Plan c = best;
        c.sched.erase(std::remove_if(c.sched.begin(), c.sched.end(), [&](const PhaseSched& s) {
            for (auto& o : c.ops) if (o.inc == s.inc && o.phase == s.phase) return false;
            return true; }), c.sched.end());
        test(c);
        while (best.incs > 1) { Plan d = best; d.incs--; d.ops.erase(std::remove_if(d.ops.begin(), d.ops.end(), [&](const Op& o) { return o.inc >= d.incs; }), d.ops.end()); if (!test(d)) break; }
    }
    void run() {
        Outcome o = execute(best);
        const Viol* v = judge(best, o, bit);
        if (!v) return;
        cls = v->cls;
        // schedules become explicit lists of switches
        if (!o.recorded.empty() && !o.recTruncated) {
            Plan c = best;
            c.sched = o.recorded;
            for (auto& p : c.sched) p.sc.mode = 9;
            test(c);
        }
        ddmin(&Plan::ops);
        trimUnused();
        ddmin(&Plan::crashes);
        ddmin(&Plan::dfaults);
        bulk();
        keys();
        switches();
        ddmin(&Plan::ops);
        simplify();
        keys();
        shorten();
        switches();
        trimUnused();
        for (size_t k = 0; k < best.ks.size(); k++) {             // key sets nothing uses shrink to one key
            bool used = false;
            for (auto& op : best.ops) if ((op.kind == K_BUILD || op.kind == K_CYCLE || op.kind == K_BENCH || op.kind == K_TRIE) && op.b == (long)k) used = true;
            if (!used && best.ks[k].keys.size() > 1) { Plan c = best; c.ks[k].keys = {"a"}; test(c); }
        }
    }
};

static bool load(const char* f, Plan* p) {
    std::ifstream in(f, std::ios::binary);
    if (!in) { fprintf(stderr, "cannot read %s\n", f); return false; }
    std::stringstream ss; ss << in.rdbuf();
    std::string err;
    if (!parse(ss.str(), p, &err)) { fprintf(stderr, "bad replay file %s: %s\n", f, err.c_str()); return false; }
    return true;
}
static bool save(const std::string& f, const std::string& text) {
    std::ofstream o(f, std::ios::binary);
    o << text;
    return (bool)o;
}
static std::string describe(const Plan& p, const Outcome& o, const char* variant) {
    std::string s = "# violation observed in this execution\n";
    for (auto& v : o.viols) s += "# " + maskNames(v.mask) + " [" + rt::clsName(v.cls) + "] op " + std::to_string(v.uid) + " (" + kindName(v.kind) + "): " + v.detail + "\n";
    char b[100];
    snprintf(b, sizeof b, "# result-hash %016llx\n# variant %s\n", (unsigned long long)o.hash, variant);
    return s + b + print(p);
}

int main(int argc, char** argv) {
    if (!getenv("SURFSIM_NOASLR")) {
        setenv("SURFSIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> a;
    std::string mode = argc > 1 ? argv[1] : "";
    std::vector<std::string> pos;
    for (int i = 2; i < argc; i++) {
        if (!strncmp(argv[i], "--", 2) && i + 1 < argc) { a[argv[i] + 2] = argv[i + 1]; i++; }
        else pos.push_back(argv[i]);
    }
    auto num = [&](const char* k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
    const char* variant = a.count("variant") ? a["variant"].c_str() : "A";
    rt::templateInit();
    execInit();
    unsigned nedges = rt::coverCount();
    unsigned char* cov = (unsigned char*)mmap(nullptr, nedges + 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    rt::coverInit(cov, nedges + 1);
    if (a.count("cpu")) {                                  // baton passing between simulated threads is fastest on one core
        cpu_set_t all, one;
        if (!sched_getaffinity(0, sizeof all, &all)) {
            int n = CPU_COUNT(&all), want = n ? atoi(a["cpu"].c_str()) % n : 0, k = 0;
            CPU_ZERO(&one);
            for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all) && k++ == want) { CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; }
        }
    }
    std::string prop = a.count("prop") ? a["prop"] : "P01";
    int profile = (int)num("profile", 0);

    if (mode == "gen") { printf("%s", print(generate((uint64_t)num("seed", 1), prop, profile)).c_str()); return 0; }
    if (mode == "hashes") {                               // determinism self-check
        long from = (long)num("from", 1), count = (long)num("count", 50);
        for (long s = from; s < from + count; s++) {
            Outcome o = execute(generate(s, prop, profile));
            printf("%ld %016llx %016llx %zu\n", s, (unsigned long long)o.hash, (unsigned long long)o.schedHash, o.viols.size());
        }
        return 0;
    }
    if (mode == "replay") {
        if (pos.empty()) return 2;
        Plan p;
        if (!load(pos[0].c_str(), &p)) return 2;
        if (a.count("prop")) p.prop = prop;
        Outcome o = execute(p);
        for (auto& v : o.viols) printf("%s [%s] op %d (%s): %s\n", maskNames(v.mask).c_str(), rt::clsName(v.cls), v.uid, kindName(v.kind), v.detail);
        const Viol* v = judge(p, o, propBit(p.prop));
        printf("result-hash %016llx\n", (unsigned long long)o.hash);
        if (v) { printf("REPRODUCED property=%s class=%s\n", p.prop.c_str(), rt::clsName(v->cls)); return 1; }
        printf("NOT-REPRODUCED property=%s\n", p.prop.c_str());
        return 0;
    }
    if (mode == "minimise") {
        if (pos.size() < 2) return 2;
        Plan p;
        if (!load(pos[0].c_str(), &p)) return 2;
        Minimiser m;
        m.best = p; m.bit = propBit(p.prop); m.cls = -1;
        m.deadline = now() + num("time", 60);
        m.run();
        Outcome o = execute(m.best), o2 = execute(m.best);
        const Viol* v = judge(m.best, o, m.bit);
        if (!v || o.hash != o2.hash) { fprintf(stderr, "minimised plan does not reproduce\n"); return 2; }
        save(pos[1], describe(m.best, o, variant));
        printf("MINIMISED %d executions, %zu ops, %llu keys, %zu schedules\n", m.execs, m.best.ops.size(), (unsigned long long)total(m.best), m.best.sched.size());
        printf("DETAIL [%s] %s\n", rt::clsName(v->cls), v->detail);
        return 0;
    }
    if (mode == "run") {
        uint64_t from = strtoull(a.count("from") ? a["from"].c_str() : "1", 0, 10), step = (uint64_t)num("step", 1);
        long count = (long)num("count", 1e9);
        double tlim = num("time", 10), t0 = now();
        signal(SIGTERM, onTerm);
        uint32_t bit = propBit(prop);
        int pi = atoi(prop.c_str() + 1) - 1;
        uint64_t cnt[C_N] = {0};
        double workMax[8] = {0};
        std::set<uint64_t> results, scheds;
        long runs = 0, nontriv = 0, others = 0, nondet = 0;
        std::map<std::string, long> fams;
        std::string found, sample, otherText;
        uint64_t maxKeys = 0, keysTotal = 0;
        for (uint64_t seed = from; runs < count && now() - t0 < tlim && !g_stop; seed += step) {
            Plan p = generate(seed, prop, profile);
            double s0 = now();
            Outcome o = execute(p);
            if (now() - s0 > 5) fprintf(stderr, "SLOW seed %llu: %.1f s\n", (unsigned long long)seed, now() - s0);
            runs++;
            for (int i = 0; i < C_N; i++) cnt[i] += o.cnt[i];
            for (int i = 0; i < 8; i++) workMax[i] = std::max(workMax[i], o.workMax[i]);
            bool nt = nontrivial(pi, o.cnt);
            if (nt) { nontriv++; results.insert(o.hash); }
            if (o.cnt[C_PARALLEL]) scheds.insert(o.schedHash);
            fams[p.family.substr(0, p.family.find('+'))]++;
            keysTotal += total(p);
            maxKeys = std::max(maxKeys, total(p));
            if (sample.empty() && nt && total(p) < 12 && p.ops.size() < 14) sample = print(p);
            if (runs % 64 == 1) {                          // every 64th run is executed twice
                Outcome o2 = execute(p);
                if (o2.hash != o.hash || o2.schedHash != o.schedHash) { nondet++; fprintf(stderr, "NONDETERMINISTIC seed %llu\n", (unsigned long long)seed); }
            }
            if (!o.viols.empty()) {
                const Viol* v = judge(p, o, bit);
                if (v) {
                    found = a["out"];
                    save(found, describe(p, o, variant));
                    printf("FOUND seed=%llu class=%s detail=%s\n", (unsigned long long)seed, rt::clsName(v->cls), v->detail);
                    break;
                }
                others++;
                if (others < 5) fprintf(stderr, "OTHER seed %llu: %s: %s\n", (unsigned long long)seed, maskNames(o.viols[0].mask).c_str(), o.viols[0].detail);
                if (otherText.empty()) otherText = maskNames(o.viols[0].mask) + ": " + o.viols[0].detail;
            }
        }
        unsigned e = 0;
        for (unsigned i = 1; i <= nedges; i++) e += cov[i];
        std::string covhex;
        for (unsigned i = 1; i <= nedges; i++) covhex += cov[i] ? '1' : '0';
        printf("STATS {\"runs\":%ld,\"nontrivial\":%ld,\"wall\":%.3f,\"other_violations\":%ld,\"other_text\":%s,\"nondeterministic\":%ld,\"edges\":%u,\"edges_total\":%u,\"keys\":%llu,\"max_keys\":%llu,\"cov\":\"%s\",\"counters\":{",
               runs, nontriv, now() - t0, others, jsonStr(otherText).c_str(), nondet, e, nedges, (unsigned long long)keysTotal, (unsigned long long)maxKeys, covhex.c_str());
        for (int i = 0; i < C_N; i++) printf("%s\"%s\":%llu", i ? "," : "", kCounterNames[i], (unsigned long long)cnt[i]);
        printf("},\"work\":[");
        for (int i = 0; i < 8; i++) printf("%s%.4f", i ? "," : "", workMax[i]);
        printf("],\"families\":{");
        bool first = true;
        for (auto& f : fams) { printf("%s%s:%ld", first ? "" : ",", jsonStr(f.first).c_str(), f.second); first = false; }
        printf("},\"sample\":%s}\n", jsonStr(sample).c_str());
        if (a.count("hashes")) {
            std::ofstream h(a["hashes"], std::ios::binary);
            for (uint64_t x : results) { h.write("R", 1); h.write((char*)&x, 8); }
            for (uint64_t x : scheds) { h.write("S", 1); h.write((char*)&x, 8); }
        }
        return found.empty() ? 0 : 1;
    }
    fprintf(stderr, "usage: surfsim run|replay|minimise|hashes|gen ...\n");
    return 2;
}
