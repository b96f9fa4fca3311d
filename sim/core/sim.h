// Core of the deterministic simulator: PRNG, plans, run context, scenario registry, batch driver.
// A plan is a list of text lines; executing a plan is a pure function of its text and the code
// under test. Removing lines from a plan gives another valid plan, which is what minimisation does.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>

namespace sim {

inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    int pickw(std::initializer_list<int> w) { int t = 0; for (int x : w) t += x; int r = (int)below(t), i = 0; for (int x : w) { if (r < x) return i; r -= x; i++; } return 0; }
};
inline std::vector<uint8_t> bytes_from(uint64_t seed, size_t n) {
    Rng r(seed); std::vector<uint8_t> v(n); uint64_t x = 0;
    for (size_t i = 0; i < n; i++) { if (i % 8 == 0) x = r.next(); v[i] = (uint8_t)(x >> (8 * (i % 8))); }
    return v;
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
    const uint8_t *b = (const uint8_t *)p; 
    while (n >= 8) { uint64_t w; memcpy(&w, b, 8); h = (h ^ w) * 0x9fb21c651e98df25ULL; h ^= h >> 29; b += 8; n -= 8; }
    for (; n; n--, b++) h = (h ^ *b) * 0x100000001b3ULL;
    h ^= h >> 32; return h;
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 0xcbf29ce484222325ULL) { return hash_bytes(s.data(), s.size(), h); }
inline std::string hex(const uint8_t *p, size_t n) { static const char *d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
inline std::string hex(const std::vector<uint8_t> &v) { return hex(v.data(), v.size()); }

struct Line {
    std::vector<std::string> w;
    const std::string &s(size_t i) const { static const std::string e; return i < w.size() ? w[i] : e; }
    uint64_t u(size_t i, uint64_t d = 0) const { return i < w.size() && !w[i].empty() ? strtoull(w[i].c_str(), nullptr, 0) : d; }
    int64_t i(size_t k, int64_t d = 0) const { return k < w.size() && !w[k].empty() ? strtoll(w[k].c_str(), nullptr, 0) : d; }
};
struct Plan {
    std::string prop, scenario, tier = "quick";
    uint64_t seed = 0;
    std::map<std::string, std::string> cfg;
    std::vector<Line> ops;  // everything but header and cfg, in order
    uint64_t cu(const std::string &k, uint64_t d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : strtoull(it->second.c_str(), nullptr, 0); }
    std::string cs(const std::string &k, const std::string &d = "") const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
    void set(const std::string &k, const std::string &v) { cfg[k] = v; }
    void set(const std::string &k, uint64_t v) { cfg[k] = std::to_string(v); }
    template <class... A> void op(A... a) { Line l; (l.w.push_back(tostr(a)), ...); ops.push_back(l); }
    static std::string tostr(const std::string &s) { return s; }
    static std::string tostr(const char *s) { return s; }
    template <class T> static std::string tostr(T v) { return std::to_string(v); }
    std::string text() const {
        std::string o = "plan 1\nprop " + prop + "\nscenario " + scenario + "\ntier " + tier + "\nseed " + std::to_string(seed) + "\n";
        for (auto &c : cfg) o += "cfg " + c.first + " " + c.second + "\n";
        for (auto &l : ops) { for (size_t i = 0; i < l.w.size(); i++) { if (i) o += ' '; o += l.w[i]; } o += '\n'; }
        return o;
    }
    bool parse(const std::string &t) {
        std::istringstream is(t); std::string line; bool any = false;
        while (std::getline(is, line)) {
            if (line.empty() || line[0] == '#') continue;
            std::istringstream ls(line); Line l; std::string w; while (ls >> w) l.w.push_back(w);
            if (l.w.empty()) continue;
            any = true;
            if (l.w[0] == "plan") continue;
            else if (l.w[0] == "prop") prop = l.s(1);
            else if (l.w[0] == "scenario") scenario = l.s(1);
            else if (l.w[0] == "tier") tier = l.s(1);
            else if (l.w[0] == "seed") seed = l.u(1);
            else if (l.w[0] == "cfg") cfg[l.s(1)] = l.s(2);
            else ops.push_back(l);
        }
        return any;
    }
};

struct Violation { std::string prop, cls, msg; };
struct Ctx {
    uint64_t h = 0x1234;       // event-log hash: every observable event of the run
    uint64_t shape = 0x77;     // coarse hash used to count distinct interleavings / histories
    uint64_t nevents = 0;
    uint64_t simtime_ns = 0;
    bool verbose = false, nontrivial = false;
    std::string prop;
    std::vector<Violation> viol;
    std::map<std::string, uint64_t> cnt;  // faults injected, probes hit, operations done
    std::set<uint64_t> states;
    std::vector<std::string> log;
    void ev(const std::string &s) { h = hash_str(s, h) + 1; nevents++; if (verbose) printf("ev %llu %s\n", (unsigned long long)nevents, s.c_str()); }
    void evb(const char *tag, const std::vector<uint8_t> &v) { if (verbose) ev(std::string(tag) + " " + hex(v).substr(0, 64) + " n=" + std::to_string(v.size()) + " h=" + std::to_string(hash_bytes(v.data(), v.size()))); else { h = hash_bytes(v.data(), v.size(), h ^ v.size()) + 1; nevents++; } }
    void sh(const std::string &s) { shape = hash_str(s, shape) + 1; }
    void shu(uint64_t v) { shape = (shape ^ v) * 0x9fb21c651e98df25ULL; shape ^= shape >> 31; }
    void count(const std::string &k, uint64_t n = 1) { cnt[k] += n; }
    void state(uint64_t v) { if (states.size() < 4096) states.insert(v); }
    void fail(const std::string &p, const std::string &cls, const std::string &msg) {
        if (verbose) printf("VIOL %s %s %s\n", p.c_str(), cls.c_str(), msg.c_str());
        if (viol.size() < 16) viol.push_back({p, cls, msg});
        ev("VIOL " + p + " " + cls);
    }
    bool bad() const { return !viol.empty(); }
};
struct Scenario {
    std::string name;
    std::function<void(Rng &, Plan &)> gen;      // fills cfg and ops
    std::function<void(const Plan &, Ctx &)> exec;
};
struct Use { std::string prop, scenario; int weight; };
inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
inline std::vector<Use> &uses() { static std::vector<Use> v; return v; }
struct Reg { Reg(Scenario s, std::vector<Use> u) { for (auto &x : u) { x.scenario = s.name; uses().push_back(x); } scenarios().push_back(std::move(s)); } };

bool gen_plan(const std::string &prop, const std::string &tier, uint64_t seed, Plan &p);
void exec_plan(const Plan &p, Ctx &c);
int sim_main(int argc, char **argv);
// Set by executables that record scheduling decisions: returns the full plan (with decisions) of the last run.
extern std::function<std::string(const Plan &)> full_plan_text;
extern std::function<void()> on_batch_start;
extern bool isolate;             // every run of a batch in a process of its own
extern char *cur_map;            // shared file where the running plan is kept, so that a crash can be attributed
extern size_t cur_map_size;
}  // namespace sim
