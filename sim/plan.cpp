#include "plan.h"
#include <sstream>
#include <string.h>
#include <stdio.h>

static const char* kNames[K_NUM] = {"build", "destroy", "lookup", "range", "count", "countit", "seek", "end", "step",
                                    "walk", "show", "copyit", "assign", "dropit", "sweep", "qry", "probe", "diff",
                                    "img", "ser", "deser", "save", "load", "cycle", "sizes", "space", "ints", "bench", "clear", "parts", "keys", "prog", "trie"};
const char* kindName(int k) { return k >= 0 && k < K_NUM ? kNames[k] : "?"; }

std::string hex(const std::string& s) {
    if (s.empty()) return "-";
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
bool unhex(const std::string& h, std::string* o) {
    o->clear();
    if (h == "-") return true;
    if (h.size() % 2) return false;
    for (size_t i = 0; i < h.size(); i += 2) {
        auto v = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
        int a = v(h[i]), b = v(h[i + 1]);
        if (a < 0 || b < 0) return false;
        *o += (char)(a * 16 + b);
    }
    return true;
}
std::string print(const Plan& p) {
    std::ostringstream o;
    o << "surfsim 1\nprop " << p.prop << "\nseed " << p.seed << "\nfamily " << p.family << "\nheap " << p.heap.seed << " " << p.heap.reuse
      << "\ndisk " << p.diskSeed << "\nincs " << p.incs << "\n";
    for (auto& c : p.cfg)
        o << "cfg form=" << c.form << " dense=" << c.dense << " ratio=" << c.ratio << " suffix=" << c.st << " hash=" << c.hl
          << " real=" << c.rl << "\n";
    for (size_t i = 0; i < p.ks.size(); i++) {
        o << "keyset " << i << " " << p.ks[i].keys.size() << "\n";
        for (auto& k : p.ks[i].keys) o << "k " << hex(k) << "\n";
    }
    for (auto& f : p.dfaults) o << "diskfault " << f.inc << " " << f.step << " " << f.what << "\n";
    for (auto& c : p.crashes) o << "crash " << c.inc << " " << c.ev << "\n";
    for (auto& x : p.ops) {
        o << "op " << x.uid << " " << x.inc << " " << x.phase << " " << x.thr << " " << kindName(x.kind) << " " << x.a << " "
          << x.b << " " << x.c << " " << x.d << " " << hex(x.s) << " " << hex(x.t);
        if (x.oom >= 0) o << " oom " << x.oom << " " << x.oomPersist;
        o << "\n";
    }
    for (auto& s : p.sched) {
        o << "sched " << s.inc << " " << s.phase << " " << s.sc.mode << " " << s.sc.period << " " << s.sc.seed << "\n";
        for (auto& w : s.sc.list) o << "sw " << w.uid << " " << w.ev << " " << w.to << "\n";
    }
    o << "end\n";
    return o.str();
}
bool parse(const std::string& text, Plan* p, std::string* err) {
    std::istringstream in(text);
    std::string line;
    bool ended = false;
    *p = Plan();
    p->incs = 1;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string w;
        l >> w;
        if (w == "surfsim") continue;
        else if (w == "prop") l >> p->prop;
        else if (w == "seed") l >> p->seed;
        else if (w == "family") l >> p->family;
        else if (w == "heap") l >> p->heap.seed >> p->heap.reuse;
        else if (w == "disk") l >> p->diskSeed;
        else if (w == "incs") l >> p->incs;
        else if (w == "cfg") {
            SutCfg c; int dense = 1;
            std::string rest; std::getline(l, rest);
            if (sscanf(rest.c_str(), " form=%d dense=%d ratio=%u suffix=%d hash=%u real=%u", &c.form, &dense, &c.ratio, &c.st, &c.hl, &c.rl) != 6) { *err = line; return false; }
            c.dense = dense;
            p->cfg.push_back(c);
        } else if (w == "keyset") p->ks.push_back(KeySet());
        else if (w == "k") {
            std::string h, k; l >> h;
            if (p->ks.empty() || !unhex(h, &k)) { *err = line; return false; }
            p->ks.back().keys.push_back(k);
        } else if (w == "diskfault") { DiskFault f; l >> f.inc >> f.step >> f.what; p->dfaults.push_back(f); }
        else if (w == "crash") { Crash c; l >> c.inc >> c.ev; p->crashes.push_back(c); }
        else if (w == "op") {
            Op x; std::string k, s, t, o;
            l >> x.uid >> x.inc >> x.phase >> x.thr >> k >> x.a >> x.b >> x.c >> x.d >> s >> t;
            x.kind = -1;
            for (int i = 0; i < K_NUM; i++) if (k == kNames[i]) x.kind = i;
            if (x.kind < 0 || !unhex(s, &x.s) || !unhex(t, &x.t)) { *err = line; return false; }
            if (l >> o) { int pe; l >> x.oom >> pe; x.oomPersist = pe; }
            p->ops.push_back(x);
        } else if (w == "sched") { PhaseSched s; l >> s.inc >> s.phase >> s.sc.mode >> s.sc.period >> s.sc.seed; p->sched.push_back(s); }
        else if (w == "sw") {
            rt::Switch s; l >> s.uid >> s.ev >> s.to;
            if (p->sched.empty()) { *err = line; return false; }
            p->sched.back().sc.list.push_back(s);
        } else if (w == "end") ended = true;
        else { *err = line; return false; }
    }
    if (!ended) { *err = "no end line"; return false; }
    return true;
}
