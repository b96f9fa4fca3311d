#include "sim.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <dlfcn.h>

namespace sim {
std::function<std::string(const Plan &)> full_plan_text;
std::function<void()> on_batch_start;
bool isolate = false;
char *cur_map = nullptr;
size_t cur_map_size = 8 << 20;

static Scenario *find_scenario(const std::string &n) { for (auto &s : scenarios()) if (s.name == n) return &s; return nullptr; }
bool gen_plan(const std::string &prop, const std::string &tier, uint64_t seed, Plan &p) {
    Rng r(seed);
    int tot = 0; for (auto &u : uses()) if (u.prop == prop) tot += u.weight;
    if (!tot) return false;
    int x = (int)r.below(tot); std::string sc;
    for (auto &u : uses()) if (u.prop == prop) { if (x < u.weight) { sc = u.scenario; break; } x -= u.weight; }
    p.prop = prop; p.tier = tier; p.seed = seed; p.scenario = sc;
    find_scenario(sc)->gen(r, p);
    return true;
}
void exec_plan(const Plan &p, Ctx &c) {
    c.prop = p.prop;
    Scenario *s = find_scenario(p.scenario);
    if (!s) { fprintf(stderr, "unknown scenario %s\n", p.scenario.c_str()); exit(2); }
    s->exec(p, c);
}
static double real_now() {
    // the only real clock in the simulator: it bounds batches and never influences a run
    typedef int (*cg)(clockid_t, struct timespec *);
    static cg f = (cg)dlsym(RTLD_NEXT, "clock_gettime");
    struct timespec t; f ? f(CLOCK_MONOTONIC, &t) : clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; }
    return o + "\"";
}
static std::string slurp(const char *f) { std::string o; FILE *fp = strcmp(f, "-") ? fopen(f, "rb") : stdin; if (!fp) return o; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) o.append(b, n); if (fp != stdin) fclose(fp); return o; }
static void set_cur(const std::string &t) { if (!cur_map) return; size_t n = std::min(t.size(), cur_map_size - 17); memcpy(cur_map + 8, t.data(), n); cur_map[8 + n] = 0; uint64_t L = n; memcpy(cur_map, &L, 8); static uint64_t ticks = 0; ticks++; memcpy(cur_map + cur_map_size - 8, &ticks, 8); }

static void say(std::string &o, const std::string &x) { uint64_t n = x.size(); o.append((char *)&n, 8); o += x; }
static std::string hear(const char *&q) { uint64_t n; memcpy(&n, q, 8); std::string x(q + 8, n); q += 8 + n; return x; }
// One run in a process of its own, forked from the initialised simulator: whatever the code keeps in
// globals, statics or thread-locals starts fresh, so a run depends on its plan and on nothing else.
static void exec_isolated(const Plan &p, Ctx &c, std::string &text, int want_text) {
    static char *map = nullptr; static const size_t N = 64 << 20;
    if (!map) map = (char *)mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "cannot fork\n"); _exit(3); }
    if (pid == 0) {
        exec_plan(p, c);
        std::string o; for (uint64_t v : {c.h, c.shape, c.nevents, c.simtime_ns, (uint64_t)c.nontrivial, (uint64_t)c.viol.size(), (uint64_t)c.cnt.size(), (uint64_t)c.states.size()}) o.append((char *)&v, 8);
        bool own = false; for (auto &v : c.viol) { say(o, v.prop); say(o, v.cls); say(o, v.msg); own |= v.prop == p.prop || v.prop == "*"; }
        for (auto &k : c.cnt) { say(o, k.first); o.append((char *)&k.second, 8); }
        for (uint64_t v : c.states) o.append((char *)&v, 8);
        say(o, (own || (want_text && c.nontrivial)) ? (full_plan_text ? full_plan_text(p) : p.text()) : "");
        if (o.size() > N) { fprintf(stderr, "the record of a run is too long\n"); _exit(3); }
        memcpy(map, o.data(), o.size()); _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0) {}
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(3); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    const char *q = map; uint64_t v[8]; memcpy(v, q, 64); q += 64; c.h = v[0]; c.shape = v[1]; c.nevents = v[2]; c.simtime_ns = v[3]; c.nontrivial = v[4];
    for (uint64_t i = 0; i < v[5]; i++) { Violation x; x.prop = hear(q); x.cls = hear(q); x.msg = hear(q); c.viol.push_back(x); }
    for (uint64_t i = 0; i < v[6]; i++) { std::string k = hear(q); uint64_t n; memcpy(&n, q, 8); q += 8; c.cnt[k] = n; }
    for (uint64_t i = 0; i < v[7]; i++) { uint64_t n; memcpy(&n, q, 8); q += 8; c.states.insert(n); }
    text = hear(q);
}
static bool counts(const Violation &v, const std::string &prop) { return v.prop == prop || v.prop == "*"; }

int sim_main(int argc, char **argv) {
    std::map<std::string, std::string> o; std::string cmd = argc > 1 ? argv[1] : "";
    std::vector<std::string> pos;
    for (int i = 2; i < argc; i++) { std::string a = argv[i]; if (a.rfind("--", 0) == 0) { std::string k = a.substr(2); if (i + 1 < argc && strncmp(argv[i + 1], "--", 2)) o[k] = argv[++i]; else o[k] = "1"; } else pos.push_back(a); }
    if (cmd == "gen") {  // gen PROP TIER SEED
        Plan p; if (!gen_plan(pos[0], pos[1], strtoull(pos[2].c_str(), 0, 0), p)) return 2; fputs(p.text().c_str(), stdout); return 0;
    }
    if (cmd == "list") { for (auto &u : uses()) printf("%s %s %d\n", u.prop.c_str(), u.scenario.c_str(), u.weight); return 0; }
    if (cmd == "genrange") {  // genrange PROP TIER SEED0 FIRST COUNT: the plans of a batch
        for (uint64_t i = 0; i < strtoull(pos[4].c_str(), 0, 0); i++) { Plan p; if (!gen_plan(pos[0], pos[1], mix64(strtoull(pos[2].c_str(), 0, 0) * 1000003ULL + strtoull(pos[3].c_str(), 0, 0) + i) >> 1, p)) return 2; printf("%s====\n", p.text().c_str()); }
        return 0;
    }
    if (cmd == "exec") {  // exec PLAN : one run (or several, one after another in one process); prints hash and violations
        if (on_batch_start) on_batch_start();
        std::string all = slurp(pos[0].c_str()); size_t sep;
        while ((sep = all.find("====\n")) != std::string::npos) {
            Plan p; std::string one = all.substr(0, sep); all.erase(0, sep + 5); if (!p.parse(one)) continue;
            if (all.find("plan") == std::string::npos) { all = one; break; }
            Ctx c; exec_plan(p, c); printf("EARLIER %016llx\n", (unsigned long long)c.h);
        }
        Plan p; if (!p.parse(all)) return 2;
        Ctx c; c.verbose = o.count("verbose"); 
        exec_plan(p, c);
        if (o.count("dump")) { FILE *f = fopen(o["dump"].c_str(), "w"); std::string t = full_plan_text ? full_plan_text(p) : p.text(); fputs(t.c_str(), f); fclose(f); }
        printf("HASH %016llx events=%llu shape=%016llx\n", (unsigned long long)c.h, (unsigned long long)c.nevents, (unsigned long long)c.shape);
        for (auto &kv : c.cnt) if (o.count("verbose")) printf("CNT %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
        int rc = 0;
        for (auto &v : c.viol) { if (counts(v, p.prop)) rc = 1; printf("VIOL %s %s %s\n", v.prop.c_str(), v.cls.c_str(), v.msg.c_str()); }
        fflush(stdout); _exit(rc);
    }
    if (cmd != "batch") { fprintf(stderr, "usage: gen|exec|batch|list\n"); return 2; }
    std::string prop = o["prop"], tier = o["tier"], out = o["out"];
    uint64_t seed0 = strtoull(o["seed0"].c_str(), 0, 0), count = strtoull(o["count"].c_str(), 0, 0), first = strtoull(o["first"].c_str(), 0, 0);
    double wall = atof(o["wall"].c_str());
    std::string shapes_file = o["shapes"];
    if (o.count("cur")) {
        int fd = open(o["cur"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (ftruncate(fd, cur_map_size)) return 2;
        cur_map = (char *)mmap(nullptr, cur_map_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    }
    if (on_batch_start) on_batch_start();
    double t0 = real_now();
    uint64_t runs = 0, nontrivial = 0, events = 0, simtime = 0, doublechecks = 0, others = 0;
    std::map<std::string, uint64_t> cnt, scn; std::unordered_set<uint64_t> shapes, ntshapes, states;
    std::vector<std::pair<Violation, std::string>> found; std::set<std::string> fcls; std::vector<uint64_t> found_at; std::string nondet; std::vector<std::string> samples;
    uint64_t outhash = 0, nondet_n = 0;
    for (uint64_t i = 0; i < count; i++) {
        if (wall > 0 && real_now() - t0 > wall) break;
        uint64_t seed = mix64(seed0 * 1000003ULL + first + i) >> 1;
        Plan p; if (!gen_plan(prop, tier, seed, p)) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
        { std::string t = p.text(); set_cur(t); Plan q; q.parse(t); p = q; }  // execute exactly what a replay file would contain
        Ctx c; std::string itext; if (isolate) { c.prop = prop; exec_isolated(p, c, itext, samples.size() < 2 && (i % 7) == 3); } else exec_plan(p, c);
        runs++; events += c.nevents; simtime += c.simtime_ns; scn[p.scenario]++;
        outhash = mix64(outhash ^ c.h);
        for (auto &kv : c.cnt) cnt[kv.first] += kv.second;
        shapes.insert(c.shape); if (c.nontrivial) { nontrivial++; ntshapes.insert(c.shape); }
        if (states.size() < 2000000) for (auto s : c.states) states.insert(s);
        if (samples.size() < 2 && c.nontrivial && (i % 7) == 3) samples.push_back((isolate ? itext : full_plan_text ? full_plan_text(p) : p.text()).substr(0, 1500));
        bool own = false; for (auto &v : c.viol) { if (counts(v, prop)) own = true; else { others++; cnt["other_property_violation:" + v.prop] ++; } }
        std::string plan_text = isolate ? (own ? itext : "") : own ? (full_plan_text ? full_plan_text(p) : p.text()) : "";
        if ((runs % 64) == 1 || own) {  // determinism self-check
            Ctx d; if (isolate) { std::string x; exec_isolated(p, d, x, 0); } else exec_plan(p, d); doublechecks++;
            if (d.h != c.h || d.nevents != c.nevents) { nondet_n++; if (nondet.empty()) nondet = p.text(); }
        }
        if (own) for (auto &v : c.viol) if (counts(v, prop) && fcls.insert(v.cls).second) { found.push_back({v, plan_text}); found_at.push_back(i); }
        if (found.size() >= (tier == "thorough" ? 4u : 2u)) break;
        if (found.size() && real_now() - t0 > 5) break;
    }
    set_cur("");
    std::string js = "{";
    auto kv = [&](const char *k, uint64_t v) { js += std::string("\"") + k + "\":" + std::to_string(v) + ","; };
    kv("runs", runs); kv("nontrivial", nontrivial); kv("events", events); kv("simtime_ns", simtime); kv("doublechecks", doublechecks); kv("distinct_shapes", shapes.size()); kv("distinct_states", states.size()); kv("outhash", outhash >> 1); kv("other_violations", others); kv("nondet_runs", nondet_n);
    js += "\"wall\":" + std::to_string(real_now() - t0) + ",";
    js += "\"nondet\":" + jstr(nondet) + ",\"scenarios\":{"; bool f = true; for (auto &x : scn) { js += (f ? "" : ",") + jstr(x.first) + ":" + std::to_string(x.second); f = false; }
    js += "},\"counts\":{"; f = true; for (auto &x : cnt) { js += (f ? "" : ",") + jstr(x.first) + ":" + std::to_string(x.second); f = false; }
    js += "},\"samples\":["; f = true; for (auto &x : samples) { js += (f ? "" : ",") + jstr(x); f = false; }
    js += "],\"violations\":["; f = true;
    for (auto &x : found) { js += std::string(f ? "" : ",") + "{\"at\":" + std::to_string(found_at[&x - &found[0]]) + ",\"prop\":" + jstr(x.first.prop) + ",\"class\":" + jstr(x.first.cls) + ",\"msg\":" + jstr(x.first.msg) + ",\"plan\":" + jstr(x.second) + "}"; f = false; }
    js += "]}";
    FILE *fp = fopen(out.c_str(), "w"); if (!fp) return 2; fputs(js.c_str(), fp); fclose(fp);
    if (!shapes_file.empty()) { FILE *g = fopen(shapes_file.c_str(), "wb"); for (auto s : ntshapes) fwrite(&s, 8, 1, g); fclose(g); if ((g = fopen((shapes_file + ".st").c_str(), "wb"))) { for (auto s : states) fwrite(&s, 8, 1, g); fclose(g); } }
    _exit(found.empty() ? 0 : 1);
}
}  // namespace sim
