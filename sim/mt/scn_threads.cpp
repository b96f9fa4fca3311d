// threads: every thread works on wallets of its own and all of them call the stateless helpers on the
// same inputs (C07). The results must be those the same calls give one after another, and no memory
// may be written by one thread while another uses it.
#include "glue.h"
#include "rt.h"
#include "wraps.h"
#include "../seq/refxmss.h"
#include "../seq/ideal.h"
#include <algorithm>
#include <map>
#include <sys/wait.h>
#include <unistd.h>
using sim::Ctx; using sim::Plan; using sim::Rng; using sim::Line;
typedef uint64_t u64;
void gen_sched(Rng &r, Plan &p);

static void gen_threads(Rng &r, Plan &p) {
    gen_sched(r, p); bool thorough = p.tier == "thorough";
    int mode = p.prop == "C25" ? r.pickw({1, 6, 93}) : r.pickw({5, 13, 82}); p.set("mode", mode); if (p.cu("policy") == 0) p.set("pmem", (u64[]){0, 100000, 20000, 4000, mode == 2 ? 400u : 20000u, (mode == 2 || p.prop == "C25") && r.chance(1, 4) ? 40u : 2000u}[r.below(6)]); if (p.cu("policy") == 1) p.set("pctspan", (u64[]){1000, 20000, 300000, 3000000}[r.below(4)]);  // 0 real hashes, 1 fast hash, 2 fast hash and fast one-time signatures
    int nt = 2 + (int)r.pickw({55, 30, 15}); p.set("threads", nt); p.set("pre", mode == 0 ? r.chance(9, 10) : p.prop == "C25" && r.chance(2, 3)); p.set("iseed", r.below(100000)); p.set("same", r.chance(1, 3)); p.set("inputs", 1 + r.below(3)); p.set("hand", r.chance(1, 3) ? 1 + r.below(nt - 1) : 0); bool rs = p.prop == "C25";
    bool basic_ok = mode == 2 || rs;
    for (int t = 0; t < nt; t++) {
        int kind = (int)r.pickw({60, basic_ok || r.chance(1, 5) ? 25 : 0, 15}); bool walk = p.cu("hand") && mode == 2; int h = mode == 2 && r.chance(1, walk ? 2 : 5) ? (walk && r.chance(1, 4) ? 8 : 6) : 4; if (kind == 2) h = 4;
        unsigned w = (kind == 1 && r.chance(1, 3)) || (rs && kind < 2 && r.chance(1, 2)) ? 4 : 16;
        p.op("signer", t, kind, h, (int)r.below(3), w, r.below(100));
        if (rs) p.set("cap", 6000000000ull); int n = 1 + (int)r.below(mode == 0 || (rs && mode == 1) ? 3 : thorough ? 12 : 7); if (walk) n += 4 + (int)r.below(9);
        for (int i = 0; i < n; i++) {
            // what a thread does: 0 sign 1 setIndex 2 keys 3 verify 4.. stateless helpers
            static const int ops[] = {0, 0, 0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24};
            int op = rs && mode == 2 && r.chance(1, 15) ? 25 : ops[r.below(sizeof ops / sizeof *ops)]; if (mode == 0 && (op == 0 || op == 17) && r.chance(1, 2)) op = 3; if (walk && (i >= n / 2 ? r.chance(2, 3) : i + 2 >= n / 2)) op = r.chance(1, 8) ? 1 : 0; if (rs && mode < 2 && op == 1) op = 0;
            p.op("t", t, op, r.below(8), op == 1 ? r.below(18) : r.below(300));
        }
    }
    if (r.chance(1, 6)) p.op("fault", "delay", r.below(4), r.below(1000000));
}
struct Input { Bytes msg, sig, pk, addr, badaddr, mn, hx, hashes; unsigned w; };
// The two halves of the library behind one interface: C++ for C07, Rust for C25.
struct Half { void *(*make)(int, const Bytes &, int, int, unsigned, std::string &); void (*drop)(void *); Bytes (*call)(void *, int, const Bytes &, const Bytes &, const Bytes &, u64, unsigned); void (*enter)(int mode); };
static const Half cxx = {g_signer, g_signer_free, g_do, [](int) {}}, rst = {r_signer, r_signer_free, r_do, [](int m) { r_mode(m); }};
static const Half *H = &cxx; static bool in_rust() { return H == &rst; }
#define g_do H->call
static Bytes one(void *s, const Line &l, const std::vector<Input> &in) {
    int op = (int)l.u(2); u64 k = l.u(3), n = l.u(4); const Input &i = in[k % in.size()]; Bytes none;
    switch (op) {
        case 0: case 17: return g_do(s, op, i.msg, none, none, 0, 16);
        case 1: return g_do(s, 1, none, none, none, n, 16);
        case 2: return g_do(s, 2, none, none, none, 0, 16);
        case 3: return g_do(s, 3, i.msg, i.sig, i.pk, 0, i.w);
        case 4: return g_do(s, 4, i.pk, none, none, 0, 16);
        case 5: return g_do(s, 5, k & 1 ? i.badaddr : i.addr, none, none, 0, 16);
        case 6: return g_do(s, 6, i.pk, none, none, 0, 16);
        case 7: return g_do(s, 7, i.hx, none, none, 0, 16);
        case 8: return g_do(s, 8, i.hashes, none, none, 0, 16);
        case 9: return g_do(s, 9, i.mn, none, none, 0, 16);
        case 10: case 11: case 12: case 13: return g_do(s, op, i.msg, none, none, op == 13 ? n % 20 : 1 + n, 16);
        case 14: return g_do(s, 14, i.msg, none, none, n % 40, 16);
        case 15: return g_do(s, 15, none, none, none, 4 + 32 + 67 * 32 + 32 * (n % 33) + (n % 7 == 0), 16);
        case 16: return g_do(s, 16, i.pk, none, none, 0, 16);
        case 24: return g_do(s, 24, none, i.hashes, none, 0, 16);
        default: return g_do(s, op, i.msg, i.sig, i.pk, n, i.w);
    }
}
static void put(Bytes &o, const Bytes &b) { uint32_t n = (uint32_t)b.size(); o.insert(o.end(), (uint8_t *)&n, (uint8_t *)&n + 4); o.insert(o.end(), b.begin(), b.end()); }
static Bytes take(const uint8_t *&q) { uint32_t n; memcpy(&n, q, 4); Bytes b(q + 4, q + 4 + n); q += 4 + n; return b; }
static Bytes in_child(std::function<void(Bytes &)> f) {
    int fd[2]; Bytes o; if (pipe(fd)) _exit(3);
    pid_t pid = fork(); if (pid < 0) _exit(3);
    if (pid == 0) { f(o); size_t at = 0; while (at < o.size()) { ssize_t n = write(fd[1], o.data() + at, o.size() - at); if (n <= 0) _exit(3); at += n; } _exit(0); }
    close(fd[1]); uint8_t b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) o.insert(o.end(), b, b + n); close(fd[0]);
    int st; while (waitpid(pid, &st, 0) < 0) {} if (st) o.clear(); return o;
}
static std::string make_input(int mode, u64 s, Input &x) {
    int hash = (int)(s % 3); unsigned w = s % 5 == 0 ? 4 : 16; std::string err; x.w = w; x.msg = sim::bytes_from(5000 + s, 1 + (s * 37) % 200); void *sg = g_signer(1, sim::bytes_from(6000 + s, 48), 4, hash, w, err); (void)mode;
    if (!sg) return err.empty() ? "no reason given" : err;
    Bytes o = g_do(sg, 0, x.msg, {}, {}, 0, w); o.resize(o.size() >= 8 ? o.size() - 8 : 0); x.sig = o; Bytes q = g_do(sg, 2, {}, {}, {}, 0, w); g_signer_free(sg); x.pk.assign(q.begin(), q.begin() + 67); x.addr.assign(q.begin() + 67, q.begin() + 67 + 39);
    x.badaddr = x.addr; x.badaddr[s % 39] ^= (uint8_t)(1 + s); x.hashes = sim::bytes_from(7000 + s, 48); x.hashes.insert(x.hashes.begin(), {1, 2, 0}); x.mn = g_do(nullptr, 8, x.hashes, {}, {}, 0, 16); x.hx = g_do(nullptr, 6, x.hashes, {}, {}, 0, 16); if (s % 3 == 0 && x.sig.size() > 40) x.sig[40] ^= 1;
    return "";
}
static std::string make_input_r(u64 s, Input &x) {
    int hash = (int)(s % 3); unsigned w = s % 5 == 0 ? 4 : 16; std::string err; x.w = w; x.msg = sim::bytes_from(5000 + s, 1 + (s * 37) % 200); void *sg = r_signer(1, sim::bytes_from(6000 + s, 48), 4, hash, w, err); if (!sg) return "no signer";
    auto part = [](const Bytes &b, int k) { const uint8_t *q = b.data() + 8 * (k < 0), *e = b.data() + b.size(); Bytes v; for (int i = 0; i <= (k < 0 ? 0 : k); i++) { if (e - q < 4) return Bytes(); v = take(q); } return v; };
    x.sig = part(r_do(sg, 0, x.msg, {}, {}, 0, w), -1); Bytes q = r_do(sg, 2, {}, {}, {}, 0, w); r_signer_free(sg); x.pk = part(q, 0); x.addr = part(q, 2); if (x.sig.size() < 100 || x.pk.size() < 60 || x.addr.size() < 30) return "no signature, key or address";
    x.badaddr = x.addr; x.badaddr[s % 39] ^= (uint8_t)(1 + s); x.hashes = sim::bytes_from(7000 + s, 48); x.hashes.insert(x.hashes.begin(), {1, 2, 0}); x.mn = part(r_do(nullptr, 8, x.hashes, {}, {}, 0, 16), -1); x.hx = part(r_do(nullptr, 6, x.hashes, {}, {}, 0, 16), -1); if (s % 3 == 0) x.sig[40] ^= 1;
    return "";
}
static void exec_threads(const Plan &p, Ctx &c) {
    std::string P0 = p.prop; H = P0 == "C25" ? &rst : &cxx; if (in_rust() && !r_ok()) { c.count("runs_without_rust"); return; }
    int mode = (int)p.cu("mode", 2); if (in_rust()) { if (mode == 2 && !r_mode(2)) mode = 1; if (mode == 1 && !r_mode(1)) mode = 0; } else if (mode && !wr::mode_ok(mode)) mode = 0;
    wr::hook = nullptr; wr::set_mode(in_rust() ? 0 : mode); ref::mode = (ref::Mode)mode; H->enter(mode);
    int nt = (int)p.cu("threads", 2), ni = (int)p.cu("inputs", 1); if (ni < 1) ni = 1; if (nt > 8) nt = 8;
    struct Sg { int kind, h, hash; unsigned w; Bytes seed; bool any = false; }; std::vector<Sg> sg(nt); std::vector<std::vector<Line>> prog(nt);
    for (auto &l : p.ops) {
        if (l.s(0) == "signer" && l.u(1) < (u64)nt) { Sg &s = sg[l.u(1)]; s.any = true; s.kind = (int)l.u(2); s.h = (int)l.u(3); s.hash = (int)l.u(4); s.w = (unsigned)l.u(5, 16); u64 sd = p.cu("same") ? 1 : l.u(6); s.seed = sim::bytes_from(9000 + sd, 48); if (s.kind == 2) { Bytes d = ref::descriptor(s.hash, s.h); d.insert(d.end(), s.seed.begin(), s.seed.end()); s.seed = d; } }
        if (l.s(0) == "t" && l.u(1) < (u64)nt) prog[l.u(1)].push_back(l);
    }
    mt::Faults F; for (auto &l : p.ops) if (l.s(0) == "fault" && l.s(1) == "delay") F.thread_delay.push_back({l.u(2), l.u(3)});
    auto make = [&](int t) -> std::pair<void *, std::string> { std::string err; void *x = sg[t].any ? H->make(sg[t].kind, sg[t].seed, sg[t].h, sg[t].hash, sg[t].w, err) : nullptr; return {x, err}; };
    auto skip = [](void *s, const Line &l) { int op = (int)l.u(2); return !s && (op <= 2 || op == 17 || op == 23); };
    // Half a program; with "hand" set, the second half is run with the wallet another thread had in the first.
    int hand = (int)(p.cu("hand") % nt); struct Wal { void *s = nullptr; std::string err; }; auto owner = [&](int t, int half) { return half ? (t + hand) % nt : t; };
    auto script = [&](int t, int half, Wal w, const std::vector<Input> &inp, std::vector<Bytes> &out) {
        auto &pr = prog[t]; size_t cut = hand ? pr.size() / 2 : pr.size();
        if (!half) out.push_back(Bytes(w.err.begin(), w.err.end()));
        if (!half && w.s) out.push_back(g_do(w.s, 2, {}, {}, {}, 0, 16));
        for (size_t i = half ? cut : 0; i < (half ? pr.size() : cut); i++) if (!skip(w.s, pr[i])) out.push_back(one(w.s, pr[i], inp));
        if (w.s && (half || !hand)) out.push_back(g_do(w.s, 2, {}, {}, {}, 0, 16));
    };
    // In a process of its own, so that the simulated threads meet a library that has never been used: the
    // inputs, and what the same calls give one after another.
    std::vector<Input> in(ni); std::vector<std::vector<Bytes>> want(nt), got(nt);
    Bytes prepared = in_child([&](Bytes &o) {
        ideal::seed_random(p.seed); std::string bad;
        for (int i = 0; i < ni && bad.empty(); i++) bad = in_rust() ? make_input_r((p.cu("iseed") * 7 + i) % 40, in[i]) : make_input(mode, (p.cu("iseed") * 7 + i) % 40, in[i]);
        std::vector<Wal> ws(nt);
        for (int t = 0; t < nt && bad.empty(); t++) { auto m = make(t); ws[t] = {m.first, m.second}; script(t, 0, ws[t], in, want[t]); if (!hand && ws[t].s) H->drop(ws[t].s); }
        if (hand) for (int t = 0; t < nt && bad.empty(); t++) { script(t, 1, ws[owner(t, 1)], in, want[t]); if (ws[owner(t, 1)].s) H->drop(ws[owner(t, 1)].s); }
        put(o, Bytes(bad.begin(), bad.end())); if (bad.size()) return;
        for (auto &x : in) { for (auto b : {&x.msg, &x.sig, &x.pk, &x.addr, &x.badaddr, &x.mn, &x.hx, &x.hashes}) put(o, *b); o.push_back((uint8_t)x.w); }
        for (auto &v : want) { o.push_back((uint8_t)v.size()); for (auto &x : v) put(o, x); }
    });
    {
        const uint8_t *q = prepared.data(); Bytes bad; if (prepared.empty()) { c.fail(P0, "crash", "the calls crash when they are made one after another"); return; }
        bad = take(q); if (bad.size()) { c.fail(P0, "setup", "a signer could not be made: " + std::string(bad.begin(), bad.end())); return; }
        for (auto &x : in) { for (auto b : {&x.msg, &x.sig, &x.pk, &x.addr, &x.badaddr, &x.mn, &x.hx, &x.hashes}) *b = take(q); x.w = *q++; }
        for (auto &v : want) { int n = *q++; for (int i = 0; i < n; i++) v.push_back(take(q)); }
    }
    ideal::seed_random(p.seed);
    std::vector<std::pair<void *, std::string>> pre(nt, {nullptr, ""}); bool early = p.cu("pre");
    if (early) for (int t = 0; t < nt; t++) pre[t] = make(t);
    // all at once
    std::vector<Input> *shared = nullptr; int overlap = 0;
    bool completed = mt::run(c, p, F, [&] {
        { mt::NoFault nf; mt::Sut s; shared = new std::vector<Input>(in); }
        std::vector<int> ids; std::vector<int> running(nt, 0); std::vector<Wal> ws(nt);
        for (int t = 0; t < nt; t++) ids.push_back(mt::spawn([&, t] {
            H->enter(mode); running[t] = 1; auto m = early ? pre[t] : make(t); ws[t] = {m.first, m.second}; script(t, 0, ws[t], *shared, got[t]); int n = 0; for (int x : running) n += x == 1; if (n > 1) overlap++;
            if (!hand && ws[t].s) H->drop(ws[t].s); running[t] = 2; c.ev("done " + std::to_string(t));
        }));
        for (int id : ids) mt::join(id);
        ids.clear(); if (hand) for (int t = 0; t < nt; t++) ids.push_back(mt::spawn([&, t] { H->enter(mode); Wal w = ws[owner(t, 1)]; script(t, 1, w, *shared, got[t]); if (w.s) H->drop(w.s); c.ev("done " + std::to_string(t)); }));
        for (int id : ids) mt::join(id);
        { mt::Sut s; delete shared; }
    }, P0);
    u64 ops = 0;
    for (int t = 0; t < nt && completed; t++) {
        if (got[t].size() != want[t].size()) { c.fail(P0, "different-result", "thread " + std::to_string(t) + " did not finish its program"); break; }
        for (size_t i = 0; i < got[t].size(); i++) { ops++; c.ev("r " + std::to_string(sim::hash_bytes(got[t][i].data(), got[t][i].size()))); if (got[t][i] != want[t][i]) { std::string what = i == 0 ? "making its wallet" : sg[t].any && i == 1 ? "reading its keys" : "step " + std::to_string(i); c.fail(P0, "different-result", "thread " + std::to_string(t) + " got another result from " + what + " than the same calls give one after another"); t = nt - 1; break; } }
    }
    c.count("operations", ops); c.count("accesses", mt::stats().accesses); if (hand) c.count("runs_with_handover"); c.count(mode == 0 ? "runs_real_hashes" : mode == 1 ? "runs_real_wots_fast_hash" : "runs_fast_hash"); if (overlap) c.nontrivial = true; c.shu(mt::stats().sched_hash); c.shu(ops * 64 + nt * 8 + mode); c.state(sim::mix64(mt::stats().sched_hash ^ ops)); wr::set_mode(0); if (in_rust()) r_mode(0); H = &cxx;
}
static sim::Reg r1({"threads", gen_threads, exec_threads}, {{"C07", "", 1}, {"C25", "", 1}});
