// pool: several client threads share one XmssPool over simulated threads and time (C01-C06).
#include "glue.h"
#include "rt.h"
#include "wraps.h"
#include "../seq/refxmss.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
using sim::Ctx; using sim::Plan; using sim::Rng; using sim::Line;
typedef uint64_t u64;

void gen_sched(Rng &r, Plan &p) {
    p.set("sseed", r.next() >> 8); int pol = r.pickw({50, 30, 20}); p.set("policy", pol);
    if (pol == 0) { p.set("psync", (u64[]){30, 150, 400, 800}[r.below(4)]); p.set("pmem", (u64[]){0, 0, 2000, 300, 60, 15}[r.below(6)]); }
    if (pol == 1) { p.set("pctd", r.below(6)); p.set("pctspan", (u64[]){300, 2000, 8000, 40000}[r.below(4)]); }
    if (r.chance(1, 6)) p.set("spurious", 1);
}
static void gen_pool(Rng &r, Plan &p) {
    const std::string &P = p.prop; bool keep = P == "C23", teardown = P == "C06" || keep, thorough = p.tier == "thorough";
    gen_sched(r, p);
    bool real = r.chance(P == "C02" || teardown ? 1 : 0, 4) || r.chance(1, 40); p.set("real", real);
    p.set("h", real ? 4 : (u64[]){4, 6, 8, 10, 16, 20, 30}[r.pickw({60, 10, 10, 5, 5, 5, 5})]);
    u64 sizes[] = {0, 1, 2, 3, 5}; u64 size = sizes[r.pickw({22, 24, 24, 20, 10})]; if (r.chance(1, thorough ? 8 : 20)) size = (u64[]){4, 8, 9, 17, 20}[r.below(5)]; p.set("size", size);
    bool lengthy = r.chance(1, thorough ? 8 : 24);   // a long life, or one with days of idleness
    u64 starts[] = {0, 0, 1, 7, 253, 254, 255, 65533, 65534, (1u << 24) - 3, 0xfffffffdULL, 0xffffffffULL, 1ULL << 40, (1ULL << 62) + 12345, 0xffffffff00ULL - 2};
    p.set("start", r.chance(1, 3) ? r.below(1000) : starts[r.below(15)]);
    u64 lens[] = {48, 48, 48, 51, 32, 1, 0, 100, 200}; p.set("blen", lens[r.below(9)]); p.set("bid", r.below(50));
    int phases = keep ? 2 + (int)r.below(2) : P == "C02" ? 1 + (int)r.below(3) : teardown ? 1 + (int)r.below(2) : P == "C05" ? 1 + r.chance(1, 4) : 1 + r.chance(1, 6); if (lengthy && phases > 2) phases = 2; p.set("phases", phases);
    int clients = 1 + (int)r.pickw({14, 36, 30, 15, 5}); p.set("clients", clients); p.set("durmode", r.pickw({12, 40, 24, 12, 12})); p.set("durseed", r.below(1000000));
    bool faults = P == "C05" || (teardown && r.chance(2, 3)) || (P == "C02" && r.chance(1, 2)) || (P == "C01" && r.chance(1, 6)) || (P == "C03" && r.chance(1, 8)) || (P == "C04" && r.chance(1, 4));
    for (int ph = 0; ph < phases; ph++) {
        int n = lengthy ? 10 + (int)r.below(60) : teardown ? (int)r.below(6) : 1 + (int)r.below(thorough && r.chance(1, 8) ? 26 : 13);
        for (int i = 0; i < n; i++) {
            int t = (int)r.below(clients);
            switch (r.pickw({52, 16, 14, 14, 4, 6})) {
                case 0: p.op("c", ph, t, "next"); break;
                case 1: p.op("c", ph, t, "avail"); break;
                case 2: p.op("c", ph, t, "index"); break;
                case 3: p.op("c", ph, t, "sleep", lengthy && r.chance(1, 2) ? r.below(200000000000000ULL) : r.chance(1, 3) ? r.below(3000) : r.below(2500000000ULL)); break;
                case 4: p.op("c", ph, t, "drop"); break;
                default: p.op("c", ph, t, "use", r.below(1000)); break;
            }
        }
        bool immediate = teardown ? r.chance(3, 4) : P == "C02" ? r.chance(1, 2) : P == "C05" ? r.chance(1, 5) : r.chance(1, 8);
        if (immediate) p.op("end", ph, r.chance(1, 2) ? 0 : r.below(2000000000ULL)); else if (P == "C05" || r.chance(1, 4)) p.op("recover", ph);
        if (P == "C02" && r.chance(1, 4)) p.op("jump", ph, r.below(5), r.below(6), r.below(5));
    }
    if (faults) {
        p.set("armlate", r.chance(3, 4));
        int kinds = 1 + (int)r.below(7); if ((P == "C03" || P == "C04") && !(kinds &= 5)) kinds = 1; int n = 1 + (int)r.below(3);
        for (int i = 0; i < n; i++) {
            if (kinds & 1) p.op("fault", "thread", r.below(r.chance(1, 2) ? 4 : 14));
            if (kinds & 2) p.op("fault", "alloc", r.below(r.chance(1, 3) ? 12 : 160));
            if (kinds & 4) p.op("fault", "gen", r.below(r.chance(1, 2) ? 5 : 14), r.below(3));
        }
    }
    if (r.chance(1, 4)) for (int i = 0; i < 3; i++) p.op("fault", "delay", r.below(10), r.below(1500000000ULL));
}

struct Gen { u64 idx, b, e, tb, te; int tid, phase; bool done, ok, known; };
struct Op { int phase, client; char kind; u64 b, e, tb, te; u64 val; int err; bool ok, allocf, threadf; bool ended; };
struct World : wr::GenHook {
    Ctx &c; const Plan &p; std::string P; int h; u64 size; Bytes base; bool real_; std::map<Bytes, u64> index_of; std::vector<Gen> gens; std::vector<Op> ops; std::vector<int> phase_tid; std::set<u64> gen_fault; std::map<u64, int> gen_fault_kind; u64 gen_no = 0; bool faults_armed = false; u64 durmode, durseed; bool faulty = false, delayed = false;
    World(Ctx &c_, const Plan &p_) : c(c_), p(p_) {}
    Bytes tree_seed(u64 i) { Bytes b = base; u64 x = i + 1; while (x) { b.push_back((uint8_t)x); x >>= 8; } Bytes o(48); if (ref::mode == ref::REAL) ref::shake(136, o.data(), 48, b.data(), b.size()); else ref::toy(2256, o.data(), 48, b.data(), b.size()); return o; }
    void expect_from(u64 s, u64 n) { for (u64 i = s; i < s + n; i++) index_of[tree_seed(i)] = i; if (s) index_of[tree_seed(s - 1)] = s - 1; }
    void bad(const std::string &prop, const std::string &cls, const std::string &m) { c.fail(prop, cls, m); }
    int phase_of(int tid) { if (tid == 0) return (int)phase_tid.size() - 1; int ph = 0; for (size_t i = 0; i < phase_tid.size(); i++) if (tid >= phase_tid[i]) ph = (int)i; return ph; }
    bool stub() override { return !real_; }
    u64 dur(u64 i, int attempt) {
        u64 x = sim::mix64(durseed ^ (i * 77) ^ (u64)attempt * 131071);
        switch (durmode) { case 0: return 0; case 1: return 1 + x % 1000000000ULL; case 2: { static const u64 sc[] = {1000, 1000000, 1000000000ULL, 20000000000ULL}; return 1 + (x >> 8) % sc[x % 4]; } case 3: return 300000000ULL; default: return x % 4 == 0 ? 30000000000ULL + x % 1000 : x % 3000000; }
    }
    static std::map<int, size_t> &cur_gen() { static std::map<int, size_t> m; return m; }
    void begin(const uint8_t *seed, int gh, int hash) override {
        size_t me; u64 sleep, no; int fk = -1;
        {
            mt::NoSut ns; Bytes s(seed, seed + 48); auto it = index_of.find(s);
            Gen g; g.known = it != index_of.end(); g.idx = g.known ? it->second : 0; g.b = mt::seq(); g.e = 0; g.tb = mt::now(); g.te = 0; g.tid = mt::self(); g.phase = phase_of(g.tid); g.done = g.ok = false;
            int attempt = 0; for (auto &o : gens) attempt += o.known && g.known && o.idx == g.idx && o.phase == g.phase;
            me = gens.size(); gens.push_back(g); no = faults_armed ? gen_no++ : 0; c.ev("gen+ " + (g.known ? std::to_string(g.idx) : std::string("?")) + " t" + std::to_string(g.tid)); c.count("generations");
            if (!g.known) bad("C02", "wrong-seed", "a tree is generated from a seed that belongs to no index near the current one"); 
            if (gh != h || hash != 1) bad("C02", "wrong-parameters", "a tree is generated with height " + std::to_string(gh) + " and hash function " + std::to_string(hash));
            sleep = dur(g.idx, attempt); if (faults_armed && gen_fault.count(no)) { fk = gen_fault_kind[no]; c.count("fault_build_failure"); c.ev("fault gen"); }
            cur_gen()[mt::self()] = me;
        }
        if (fk >= 0) sleep /= 2;
        if (sleep) mt::sleep_ns(sleep);
        if (fk >= 0) { { mt::NoSut ns; gens[me].done = true; gens[me].e = mt::seq(); gens[me].te = mt::now(); c.ev("gen! " + std::to_string(gens[me].idx)); } if (fk == 0) throw std::runtime_error("simulated build failure"); if (fk == 1) throw std::bad_alloc(); throw SimBuildFailure{1}; }
    }
    void end(bool ok) override { mt::NoSut ns; Gen &g = gens[cur_gen()[mt::self()]]; g.done = true; g.ok = ok; g.e = mt::seq(); g.te = mt::now(); c.ev("gen- " + std::to_string(g.idx)); }
};
static const u64 TOL = 2000000;  // polling every millisecond is not waiting
static std::string us(u64 ns) { return std::to_string(ns / 1000000) + "ms"; }

static void exec_pool(const Plan &p, Ctx &c) {
    World w(c, p); w.P = p.prop; w.h = (int)p.cu("h", 4); w.size = p.cu("size"); w.real_ = p.cu("real"); w.durmode = p.cu("durmode"); w.durseed = p.cu("durseed");
    if (w.real_ && !wr::mode_ok(2)) w.real_ = false;
    if (w.real_) w.h = 4;
    wr::set_mode(w.real_ ? 2 : 0); w.base = sim::bytes_from(880000 + p.cu("bid"), p.cu("blen", 48));
    mt::Faults F;
    for (auto &l : p.ops) if (l.s(0) == "fault") {
        if (l.s(1) == "thread") F.thread_fail.push_back(l.u(2)); else if (l.s(1) == "alloc") F.alloc_fail.push_back(l.u(2)); else if (l.s(1) == "delay") { F.thread_delay.push_back({l.u(2), l.u(3)}); w.delayed = true; continue; }
        else { w.gen_fault.insert(l.u(2)); w.gen_fault_kind[l.u(2)] = (int)l.u(3); } w.faulty = true;
    }
    int phases = (int)p.cu("phases", 1), clients = (int)p.cu("clients", 1); bool seam = wr::gen_seam();
    std::vector<std::pair<void *, u64>> held; std::set<const void *> seen_ptr; std::vector<std::pair<void *, u64>> all_trees;  // trees survive their pools
    std::map<u64, int> delivered_all; World::cur_gen().clear();
    wr::hook = &w;
    auto inter = [&](Op &o) { o.b = mt::seq(); o.tb = mt::now(); };
    auto fin = [&](Op &o) { o.e = mt::seq(); o.te = mt::now(); o.ended = true; for (auto &a : mt::stats().allocs_failed) if (a.tid == mt::self() && a.step > o.b && a.step < o.e) o.allocf = true; for (auto &a : mt::stats().threads_failed) if (a.tid == mt::self() && a.step > o.b && a.step < o.e) o.threadf = true; };
    auto check_tree = [&](void *t, u64 &idx, bool &good) {
        TreeInfo i = g_tree_info(t); good = false; auto it = w.index_of.find(i.seed);
        if (it == w.index_of.end()) { w.bad("C02", "wrong-tree", "a request received a tree whose seed belongs to no index near the current one"); if (w.faulty) w.bad("C05", "wrong-tree", "a request received a wrong tree"); return; }
        idx = it->second; good = true; Bytes pk;
        if (w.real_) pk = ref::key(i.seed, 1, 4, 16)->pk(); else { pk = ref::descriptor(1, (unsigned)w.h); pk.resize(67); uint8_t e[96]; ref::shake(136, e, 96, i.seed.data(), 48); wr::stub_root(pk.data() + 3, i.seed.data(), w.h, 1); memcpy(pk.data() + 35, e + 64, 32); }
        if (i.h != w.h || i.hash != 1) w.bad("C02", "wrong-parameters", "tree " + std::to_string(idx) + " has height " + std::to_string(i.h) + " and hash function " + std::to_string(i.hash));
        else if (seam || w.real_) { if (i.pk != pk) w.bad("C02", "wrong-key", "tree " + std::to_string(idx) + " has another public key than its seed gives"); }
        if (i.index != 0) w.bad("C02", "used-tree", "tree " + std::to_string(idx) + " was delivered at signature index " + std::to_string(i.index));
        if (!seen_ptr.insert(i.ptr).second) { w.bad("C02", "shared-tree", "one tree object was handed to two requests"); }
    };
    auto use_tree = [&](void *t, u64 salt) {
        TreeInfo i = g_tree_info(t); auto it = w.index_of.find(i.seed); if (it == w.index_of.end()) return;
        if (!w.real_ || i.index >= 16) return; Bytes m = sim::bytes_from(salt, 20), s; int rc = g_tree_sign(t, m, s); auto k = ref::key(i.seed, 1, 4, 16);
        if (rc == 0 && s != k->sign(i.index, m)) { w.bad("C06", "tree-damaged", "a tree signs wrongly" ); w.bad("C02", "tree-damaged", "a tree signs wrongly"); }
        if (rc && !w.faulty) w.bad("C06", "tree-damaged", "a tree cannot sign"); c.count("tree_signatures");
    };
    u64 cur = p.cu("start"); bool anynext = false;
    bool completed = mt::run(c, p, F, [&] {
        u64 mark = 0;
        for (int ph = 0; ph < phases; ph++) {
            if (c.bad()) break;
            if (ph == 1) mark = mt::heap_mark();
            w.phase_tid.push_back(0);
            // threads of this phase have ids from here on
            int marker = mt::spawn([] {}); mt::join(marker); w.phase_tid.back() = marker;
            u64 start = cur; int nnext = 0, n = 0; for (auto &l : p.ops) if (l.s(0) == "c" && (int)l.u(1) == ph) { n++; nnext += l.s(3) == "next"; }
            bool end_now = false, recover = false; u64 end_delay = 0; for (auto &l : p.ops) { if (l.s(0) == "end" && (int)l.u(1) == ph) { end_now = true; end_delay = l.u(2); } if (l.s(0) == "recover" && (int)l.u(1) == ph) recover = true; }
            w.expect_from(start, (u64)nnext + w.size * 6 + 40);
            bool late = p.cu("armlate") && !w.delayed; mt::arm_faults(!late); w.faults_armed = !late; u64 tctor = mt::now(), sctor = mt::seq(); int err = 0; size_t op0 = w.ops.size(), af0 = mt::stats().allocs_failed.size(), tf0 = mt::stats().threads_failed.size();
            void *pool = g_pool_new(w.base, w.h, start, w.size, err); u64 sctor2 = mt::seq(); mt::arm_faults(true); w.faults_armed = true; c.ev("ctor err=" + std::to_string(err)); if (mt::now() > tctor + TOL && !w.faulty && !w.delayed) w.bad("C03", "constructor-waits", "constructing the pool took " + us(mt::now() - tctor) + " of tree generation");
            if (!pool) {
                bool cause = false; for (size_t i = af0; i < mt::stats().allocs_failed.size(); i++) cause |= mt::stats().allocs_failed[i].tid == 0; for (size_t i = tf0; i < mt::stats().threads_failed.size(); i++) cause |= mt::stats().threads_failed[i].tid == 0;
                if (!cause) w.bad(w.faulty ? "C05" : "C01", "constructor-failed", "the constructor failed (" + std::to_string(err) + ") although nothing it did was made to fail");
                c.count("constructor_failed"); mt::quiesce(); c.nontrivial = true;
                if (mt::live_sut_threads()) w.bad("C06", "leaked-thread", "threads are left running after a failed construction");
                if (mt::unjoined_sut_threads()) w.bad("C06", "leaked-thread", "finished threads were neither joined nor detached after a failed construction");
                continue;
            }
            std::vector<int> ids; std::vector<std::vector<std::pair<void *, u64>>> got(clients);
            for (int t = 0; t < clients; t++) {
                bool any = false; for (auto &l : p.ops) if (l.s(0) == "c" && (int)l.u(1) == ph && (int)l.u(2) == t) any = true;
                if (!any) continue;
                ids.push_back(mt::spawn([&, t] {
                    for (auto &l : p.ops) {
                        if (l.s(0) != "c" || (int)l.u(1) != ph || (int)l.u(2) != t) continue;
                        std::string k = l.s(3); Op o{}; o.phase = ph; o.client = t; size_t at = w.ops.size();
                        if (k == "sleep") { mt::sleep_ns(l.u(4)); continue; }
                        if (k == "drop") { if (!got[t].empty()) { void *x = got[t].back().first; got[t].pop_back(); g_tree_drop(x); } continue; }
                        if (k == "use") { if (!got[t].empty()) use_tree(got[t].back().first, l.u(4)); continue; }
                        o.kind = k[0]; w.ops.push_back(o); inter(w.ops[at]); c.ev("inv " + std::to_string(t) + " " + k);
                        if (k == "next") {
                            int e; void *x = g_pool_next(pool, e); fin(w.ops[at]); bool good = false; u64 idx = 0;
                            if (x) { check_tree(x, idx, good); got[t].push_back({x, idx}); }
                            Op &q = w.ops[at]; q.err = e; q.ok = x && good; q.val = idx; if (x && !good) q.err = 99;
                            c.ev("ret " + std::to_string(t) + " next " + std::to_string(idx) + " err=" + std::to_string(q.err)); c.shu(0x100 + t * 7 + (idx - start) * 64 + q.err); c.count("requests"); if (q.err) c.count("requests_failed");
                        } else if (k == "avail") { int r = g_pool_available(pool); Op &q = w.ops[at]; fin(q); q.val = (u64)(r == 1); q.err = r < 0; q.ok = r >= 0; c.ev("ret avail " + std::to_string(r)); c.shu(0x200 + t * 7 + r); c.count(r == 1 ? "available_true" : "available_false"); }
                        else { int e; u64 v = g_pool_index(pool, e); Op &q = w.ops[at]; fin(q); q.val = v; q.err = e; q.ok = e == 0; c.ev("ret index " + std::to_string(v)); c.shu(0x300 + t * 7 + (v - start) * 64); }
                    }
                }));
            }
            for (int id : ids) mt::join(id);
            for (int t = 0; t < clients; t++) for (auto &x : got[t]) all_trees.push_back(x);
            std::vector<Op> ops(w.ops.begin() + op0, w.ops.end());
            u64 recov_first = 0; bool recov = recover && !end_now;
            if (recov) {  // the faults stop; everything must work again
                mt::arm_faults(false); w.faults_armed = false; mt::quiesce(); recov_first = ops.size(); int streak = 0, limit = (int)w.size + 3 + 2 * (int)w.size + 12;
                for (int i = 0; i < limit && streak < (int)w.size + 2; i++) {
                    Op o{}; o.phase = ph; o.client = -1; o.kind = 'n'; inter(o); int e; void *x = g_pool_next(pool, e); fin(o); o.err = e; o.ok = x != nullptr; bool good = false; u64 idx = 0; if (x) { check_tree(x, idx, good); all_trees.push_back({x, idx}); } o.val = idx; if (x && !good) o.ok = false, o.err = 99;
                    c.ev("recover next " + std::to_string(idx) + " err=" + std::to_string(e)); ops.push_back(o); streak = o.ok ? streak + 1 : 0; if (i % 2) mt::quiesce();
                }
                if (streak < (int)w.size + 2) w.bad("C05", "no-recovery", "requests keep failing although no fault happened any more");
                c.count("recovery_phases");
            }
            if (!end_now) mt::quiesce(); else if (end_delay) mt::sleep_ns(end_delay);
            u64 now_idx = 0; int e1 = 0; int av = -1; if (!end_now) { now_idx = g_pool_index(pool, e1); av = g_pool_available(pool); }
            u64 gens_before_end = w.gens.size(); u64 tdtor = mt::now(); (void)gens_before_end;
            int live_before = mt::live_sut_threads(); if (live_before && end_now) { c.count("teardown_with_live_builders"); c.nontrivial = true; }
            g_pool_free(pool); c.ev("dtor"); u64 tdead = mt::now(); (void)tdead; (void)tdtor;
            c.shu(0x400 + live_before);
            // trees outlive the pool
            if (!all_trees.empty()) { use_tree(all_trees[all_trees.size() / 2].first, 4242 + ph); use_tree(all_trees.back().first, 4343 + ph); }
            mt::quiesce();
            if (mt::live_sut_threads()) w.bad("C06", "leaked-thread", "threads are left running after the pool was destroyed");
            else if (mt::unjoined_sut_threads()) w.bad("C06", "leaked-thread", "threads were neither joined nor detached when the pool was destroyed");

            // ---- history checks ----
            std::vector<Op> nx; std::set<u64> okset; int fails = 0; for (auto &o : ops) if (o.kind == 'n') { nx.push_back(o); if (o.ok) { if (!okset.insert(o.val).second) { std::string m = "tree " + std::to_string(o.val) + " was handed out twice"; w.bad("C01", "duplicate-index", m); if (w.faulty) w.bad("C05", "duplicate-index", m); } } else fails++; }
            for (auto &a : nx) for (auto &b : nx) if (a.ok && b.ok && a.e < b.b && a.val > b.val) { w.bad("C01", "order", "the request for tree " + std::to_string(b.val) + " began after the one for tree " + std::to_string(a.val) + " had returned"); goto ordered; }
            ordered:
            u64 served = 0, phase_max = start; for (auto &o : nx) if (o.ok) { served++; phase_max = std::max(phase_max, o.val + 1); if (o.val < start) w.bad("C01", "index-before-start", "tree " + std::to_string(o.val) + " lies before the starting index"); }
            if (nx.size() > 1 || (p.prop == "C02" && nx.size())) { c.nontrivial = true; } anynext |= nx.size() > 0;
            bool clean = true; for (auto &a : mt::stats().allocs_failed) clean &= !(a.step > sctor), (void)a; if (mt::stats().threads_failed.size() > tf0) clean = false; for (auto &g : w.gens) if (g.phase == ph && g.done && !g.ok) clean = false;
            if (clean && fails) for (auto &o : nx) if (!o.ok && o.err != 99) { w.bad("C01", "request-failed", "a request failed (" + std::to_string(o.err) + ") although nothing was made to fail"); w.bad("C05", "request-failed", "a request failed (" + std::to_string(o.err) + ") although nothing was made to fail"); break; }
            if (clean && !fails) {
                for (u64 i = 0; i < served; i++) if (!okset.count(start + i)) { w.bad("C01", "skipped-index", "tree " + std::to_string(start + i) + " was never handed out although " + std::to_string(served) + " requests were served from " + std::to_string(start)); break; }
                // one-at-a-time order: place every operation at a point inside its interval
                std::vector<Op> cl = nx; std::sort(cl.begin(), cl.end(), [](const Op &a, const Op &b) { return a.val < b.val; });
                u64 T = 0; bool lin = true; std::string why; size_t k = 0;
                for (u64 v = start; lin && v <= start + served; v++) {
                    u64 low = T;
                    for (auto &o : ops) if (o.kind == 'i' && o.ok && o.val == v) { if (std::max(T, o.b) > o.e) { lin = false; why = "current index " + std::to_string(v) + " was reported after it had already advanced"; } low = std::max(low, o.b); }
                    if (lin && k < cl.size() && v < start + served) { if (cl[k].val != v) { lin = false; why = "missing index"; break; } u64 t = std::max(low, cl[k].b); if (t > cl[k].e) { lin = false; why = "request for tree " + std::to_string(v) + " returned before an operation that must precede it had begun"; } T = t; k++; }
                }
                for (auto &o : ops) if (o.kind == 'i' && o.ok && (o.val < start || o.val > start + served)) { lin = false; why = "current index " + std::to_string(o.val) + " reported, outside " + std::to_string(start) + ".." + std::to_string(start + served); }
                if (!lin) w.bad("C01", "not-linearizable", why);
                if (!end_now && now_idx != start + served) w.bad("C01", "current-index", "current index is " + std::to_string(now_idx) + " after " + std::to_string(served) + " requests from " + std::to_string(start));
            } else for (auto &o : ops) if (o.kind == 'i' && o.ok) { u64 lo = 0, hi = 0; for (auto &q : nx) { lo += q.ok && q.e < o.b; hi += q.b < o.e; } if (o.val < start + lo || o.val > start + hi) w.bad("C05", "current-index", "current index " + std::to_string(o.val) + " reported, outside " + std::to_string(start + lo) + ".." + std::to_string(start + hi)); }
            for (auto &o : ops) if (o.kind != 'n' && o.err && !o.allocf) w.bad(w.faulty ? "C05" : "C01", "query-failed", "an index or availability query threw");
            // generations
            std::vector<Gen> gs; for (auto &g : w.gens) if (g.phase == ph && g.known) gs.push_back(g);
            auto gen_of = [&](u64 i) -> const Gen * { for (auto &g : gs) if (g.idx == i && g.ok) return &g; return nullptr; };
            if (seam) {
                std::map<u64, int> okn; for (auto &g : gs) if (g.ok && ++okn[g.idx] == 2) { w.bad("C04", "generated-twice", "tree " + std::to_string(g.idx) + " was generated twice"); }
                for (auto &g : gs) { u64 begun = 0; for (auto &o : nx) begun += o.b < g.b; if (g.idx >= start + begun + w.size) { w.bad("C04", "too-far-ahead", "tree " + std::to_string(g.idx) + " was generated when only " + std::to_string(begun) + " requests had been made from " + std::to_string(start) + " with pool size " + std::to_string(w.size)); break; } if (g.idx < start) { w.bad("C04", "before-start", "a tree before the starting index was generated"); break; } }
                // C03: who waits for what
                for (auto &o : ops) {
                    if (o.kind != 'n') { if (o.te > o.tb + TOL) { w.bad("C03", "query-waits", std::string(o.kind == 'a' ? "an availability" : "an index") + " query took " + us(o.te - o.tb) + " while trees were being generated"); break; } continue; }
                    if (!o.ok) { if (clean) continue; continue; }
                    const Gen *g = gen_of(o.val); if (!g) continue;
                    if (o.te > std::max(o.tb, g->te) + TOL) { w.bad("C03", "request-waits", "the request for tree " + std::to_string(o.val) + " returned " + us(o.te - std::max(o.tb, g->te)) + " after that tree was ready and asked for"); break; }
                    if (w.size == 0 && g->tb > o.tb + TOL && !w.delayed) { w.bad("C03", "build-waits", "the generation of tree " + std::to_string(o.val) + " began " + us(g->tb - o.tb) + " after its request"); break; }
                }
                if (clean && !w.delayed && w.size) for (auto &g : gs) { u64 open = tctor; if (g.idx >= start + w.size) { bool f = false; for (auto &o : nx) if (o.ok && o.val == g.idx - w.size) { open = o.tb; f = true; } if (!f) continue; } if (g.tb > open + TOL) { w.bad("C03", "build-waits", "the background build of tree " + std::to_string(g.idx) + " began " + us(g.tb - open) + " after it became due"); break; } }
                // C04: the window at rest, availability
                u64 curi = end_now ? phase_max : now_idx;
                if (clean && !end_now && !fails) {
                    for (u64 i = start; i < curi + w.size; i++) if (!gen_of(i)) { w.bad("C04", "not-prefetched", "tree " + std::to_string(i) + " was never generated although the next index is " + std::to_string(curi) + " and the pool size " + std::to_string(w.size)); break; }
                    if ((av == 1) != (w.size > 0)) w.bad("C04", "availability", std::string("a pool of size ") + std::to_string(w.size) + " at rest reports its next tree as " + (av ? "available" : "not available"));
                }
                for (auto &o : ops) if (o.kind == 'a' && o.ok) {
                    u64 lo = 0, hi = 0; for (auto &q : nx) { lo += q.ok && q.e < o.b; hi += q.b < o.e; }
                    bool can = false, must = true; for (u64 i = start + lo; i <= start + hi; i++) { bool ready = false, sure = false; for (auto &g : gs) if (g.idx == i && g.done) { if (g.e < o.e) ready = true; if (g.te < o.tb) sure = true; } can |= ready; must &= sure; }
                    if (o.val && w.size == 0) { w.bad("C04", "availability", "a pool of size 0 reported its next tree as available"); break; }
                    if (o.val && !can) { w.bad("C04", "availability", "the next tree was reported available before it was generated"); break; }
                    if (!o.val && must && w.size && clean) { w.bad("C04", "availability", "the next tree was reported not available although it had been generated earlier"); break; }
                }
                // C05: every failure has a cause, no tree is lost, the pool recovers
                if (!clean) {
                    int causes = 0, incall = 0, unexplained = 0; for (auto &g : gs) causes += g.done && !g.ok; for (auto &a : mt::stats().allocs_failed) causes += a.step > sctor && a.sut_thread; for (auto &o : nx) if (!o.ok) { incall += o.allocf; }
                    for (auto &o : nx) if (!o.ok && o.err == G_NULL) { w.bad("C05", "no-tree-no-error", "a request returned neither a tree nor an error"); break; }
                    if (fails > causes + incall) { w.bad("C05", "unexplained-failure", std::to_string(fails) + " requests failed, but only " + std::to_string(causes + incall) + " of the failures injected concern them"); }
                    for (u64 i = start; i < phase_max; i++) if (!okset.count(i)) {
                        bool failed_gen = false, any = false; const Gen *lost = nullptr; for (auto &g : gs) if (g.idx == i) { any = true; if (g.done && !g.ok) failed_gen = true; if (g.ok) { bool hit = false; for (auto &a : mt::stats().allocs_failed) if (a.tid == g.tid && a.step > g.b) hit = true; if (!hit) lost = &g; } }
                        if (lost && fails) { w.bad("C05", "tree-lost", "tree " + std::to_string(i) + " was generated successfully but its request failed"); break; }
                        if (lost) { w.bad("C05", "skipped-index", "tree " + std::to_string(i) + " was generated but never handed out"); break; }
                        (void)failed_gen; (void)any; (void)unexplained;
                    }
                    u64 gaps = 0; for (u64 i = start; i < phase_max; i++) gaps += !okset.count(i); if (gaps > (u64)fails) w.bad("C05", "skipped-index", std::to_string(gaps) + " indices were never handed out, but only " + std::to_string(fails) + " requests failed");
                    if (recov && !c.bad()) {
                        for (u64 i = curi; i < curi + w.size; i++) if (!gen_of(i)) { w.bad("C05", "no-recovery", "after the faults stopped and further requests succeeded, tree " + std::to_string(i) + " is not prefetched (next index " + std::to_string(curi) + ", pool size " + std::to_string(w.size) + ")"); break; }
                        if ((av == 1) != (w.size > 0)) w.bad("C05", "no-recovery", "after the faults stopped the next tree is not reported as available");
                    }
                }
            }
            if (p.prop == "C05" && !clean) c.nontrivial = true;
            if (p.prop == "C05" && clean) c.nontrivial = false;
            c.state(sim::mix64(served * 1009 + fails * 31 + w.size * 7 + live_before)); (void)recov_first; (void)sctor2;
            cur = clean && !fails ? start + served : phase_max;
            for (auto &l : p.ops) if (l.s(0) == "jump" && (int)l.u(1) == ph) { cur = cur >= l.u(2) ? cur - l.u(2) : 0; }
        }
        for (auto &t : all_trees) g_tree_drop(t.first);
        u64 kept = 0; int nkept = mark ? mt::live_since(mark, kept) : 0;   // the first pool of the process may leave tables behind, the later ones not
        if (nkept) { std::string m = std::to_string(nkept) + " allocations (" + std::to_string(kept) + " bytes) of a pool and its trees are still held after all of them were destroyed"; w.bad("C06", "memory-kept", m); w.bad("C23", "memory-kept", m); }
        if (mark) c.count("memory_compared");
    }, p.prop);
    (void)completed; (void)anynext; c.shu(mt::stats().sched_hash); c.shu(w.size * 31 + w.h); wr::hook = nullptr; wr::set_mode(0);
}


static sim::Reg r1({"pool", gen_pool, exec_pool}, {{"C01", "", 1}, {"C02", "", 1}, {"C03", "", 1}, {"C04", "", 1}, {"C05", "", 1}, {"C06", "", 1}, {"C23", "", 1}});
