// handover: one wallet passed back and forth between implementations and signer kinds (C17).
// rpool: the Rust tree pool over simulated worker threads (C18).
#include "scn.h"
#include <misc.h>
extern "C" {
void rs_watch(const uint8_t *seed, size_t n) __attribute__((weak));
size_t rs_watch_get(uint64_t *out, size_t cap) __attribute__((weak));
void rs_die_at(uint64_t i) __attribute__((weak));
void rs_fail_next_pool() __attribute__((weak));
}
// A tall tree (index fields beyond 16 bits) changes hands around the places where bytes of the index carry.
static void gen_handover_tall(Rng &r, Plan &p) {
    p.set("mode", 3); p.set("hash", r.below(3)); p.set("h", 18); p.set("w", 16); p.set("sid", 900 + r.below(2)); p.set("fill", r.next() | 1);
    p.op("take", RF, r.below(4)); p.op("sign", r.below(100000), 32); uint64_t at = (uint64_t[]){255, 256, 4095, 32767, 65534, 65535, 65536, 131071, 262141}[r.below(9)] - 1; p.op("set", at - 1);
    p.op("sign", r.below(100000), 32); p.op("sign", r.below(100000), 32); if (r.chance(1, 2)) p.op("take", (int[]){CF, CB, JF, JB, RF}[r.below(5)], r.below(4)); p.op("sign", r.below(100000), 32); p.op("cmp");   // the basic Rust signer takes quadratic time
}
static void gen_handover(Rng &r, Plan &p) {
    if (r.chance(1, 300)) { gen_handover_tall(r, p); return; }
    unsigned w = r.chance(1, 4) ? 4 : 16; p.set("mode", r.pickw({3, 32, 65})); p.set("hash", r.below(3)); p.set("h", p.cu("mode") == 2 ? (unsigned[]){4, 6, 8, 10, 12, 14}[r.pickw({500, 340, 120, 30, 9, 1})] : p.cu("mode") && r.chance(1, 5) ? 6 : 4); p.set("w", w); p.set("sid", r.below(6)); p.set("fill", r.next() | 1);
    uint64_t cap = 1ull << p.cu("h"); int n = cap > 16 ? 10 : 9 + (int)r.below(8);
    for (int i = 0; i < n; i++) switch (r.pickw({40, 38, 16, 10})) {
        case 0: p.op("take", r.below(6), r.below(4)); break;
        case 1: p.op("sign", r.below(100000), msg_len(r, r.chance(1, 3))); break;
        case 2: p.op("set", r.chance(1, 3) ? r.below(cap) : r.below(4)); break;
        default: p.op("cmp"); break;
    }
    p.op("take", r.below(6), r.below(4)); p.op("end"); for (int i = 0; i < 3; i++) { p.op("sign", r.below(100000), 32); if (i < 2) p.op("take", r.below(6), r.below(4)); }
}
static void exec_handover(const Plan &p, Ctx &c) {
    RunScope rs; Params q = get_params(p, "", true); if (!rust_available()) { c.ev("skip"); return; }
    shape_params(c, q, 8); auto k = ref::key(wseed(q.sid), q.hash, q.h, q.w); Bytes ext = k->ext_seed(), pk = k->pk(); std::string hexs = ref::to_hex(ext), mn = ref::to_mnemonic(ext, words()), err;
    uint32_t cap = 1u << q.h, idx = 0; int cur = -1, sigs = 0, takes = 0; WalletP w; unsigned langs = 0;
    auto fail = [&](const char *cls, const std::string &m) { c.fail("C17", cls, std::string(cur < 0 ? "" : kind_name[cur]) + " hash=" + std::to_string(q.hash) + " h=" + std::to_string(q.h) + " w=" + std::to_string(q.w) + ": " + m); };
    auto cmp = [&] {
        if (w->pk() != pk) return fail("pk", "public key differs from the other implementations'");
        if (w->has("addr") && w->address() != ref::address(pk)) return fail("address", "address differs from the other implementations'");
        if (w->ext_seed() != ext) return fail("backup", "extended seed differs from the other implementations'");
        if (w->hexseed() != hexs) return fail("backup", "hex seed differs from the other implementations'");
        if (w->has("mnemonic") && w->mnemonic() != mn) return fail("backup", "mnemonic differs from the other implementations'");
        if (w->height() != (int)q.h) return fail("height", "height differs");
        if (w->index() != idx) return fail("index", "index is " + std::to_string(w->index()) + " instead of " + std::to_string(idx));
        if (w->has("sk") && w->sk() != k->sk(idx)) return fail("sk", "secret key differs from the other implementations' at byte " + std::to_string(first_diff(w->sk(), k->sk(idx))));
        std::string odd = w->misreported(pk, k->sk(idx), wseed(q.sid), q.hash, q.w, 4 + 32 + (q.w == 4 ? 133 : 67) * 32 + q.h * 32);
        if (!odd.empty()) return fail("misreported", "the reported " + odd + " is not that of its keys and signatures");
    };
    auto take = [&](int kind, int how) {
        if (idx >= cap && is_fast(kind)) return;   // nothing left to hand over: a fast signer cannot be moved there
        cur = kind; takes++; langs |= 1u << kind; c.shu(kind * 4 + how); c.count("handovers");
        w = q.w != 16 || how == 0 ? (q.w != 16 && (kind == CF || kind == JF) ? nullptr : make_wallet(kind, wseed(q.sid), (int)q.h, q.hash, q.w, err)) : restore_wallet(kind, how, ext, hexs, mn, q.w, err);
        if (!w) { if (q.w != 16 && (kind == CF || kind == JF)) { cur = CB; langs |= 1u << CB; w = make_wallet(CB, wseed(q.sid), (int)q.h, q.hash, q.w, err); } if (!w) return fail("take", "cannot take the wallet over: " + err); }
        if (w->pk() != pk) return fail("pk", "public key after taking the wallet over differs from the other implementations'");
        if (w->set_index(idx)) return fail("take-index", "cannot move to index " + std::to_string(idx) + ": " + w->err);
        if (w->index() != idx) return fail("index", "index is " + std::to_string(w->index()) + " instead of " + std::to_string(idx) + " after taking over");
    };
    for (auto &o : p.ops) {
        if (c.bad()) break;
        if (!w && o.s(0) != "take") { take(CF, 0); if (c.bad()) break; }
        if (o.s(0) == "take") { take((int)o.u(1) % 6, (int)o.u(2) % 4); if (w && !c.bad() && takes % 2) cmp(); c.ev("take " + std::to_string(cur)); }
        else if (o.s(0) == "cmp") { cmp(); c.ev("cmp"); }
        else if (o.s(0) == "end" || o.s(0) == "set") {
            uint32_t t = o.s(0) == "end" ? cap - 2 : idx + (uint32_t)o.u(1); if (t < idx || t >= cap) continue;
            if (w->set_index(t)) { fail("set", "cannot move from " + std::to_string(idx) + " to " + std::to_string(t) + ": " + w->err); break; }
            idx = t; c.ev("set " + std::to_string(t)); c.shu(50);
        } else if (o.s(0) == "sign") {
            Bytes m = gen_msg(o.u(1), std::min<uint64_t>(o.u(2), 20000)), s; int rc = w->sign(m, s); c.ev("sign rc=" + std::to_string(rc)); c.shu(60 + rc);
            if (rc == 0 && idx >= cap) { fail("exhausted", "signed past the last key"); break; }
            if (rc != 0 && idx < cap) { fail("refused", "signing refused at index " + std::to_string(idx) + ": " + w->err); break; }
            if (rc) continue;
            Bytes e = k->sign(idx, m); sigs++; c.evb("s", s);
            if (s != e) { fail("signature", "signature at index " + std::to_string(idx) + " of a " + std::to_string(m.size()) + "-byte message differs from the other implementations' at byte " + std::to_string(first_diff(s, e)) + " (sizes " + std::to_string(s.size()) + ", " + std::to_string(e.size()) + ")"); break; }
            int a = q.mode == 3 ? 1 : any_verify(CF, m, s, pk, q.w), b = q.mode == 3 ? 1 : any_verify(RF, m, s, pk, q.w);
            if (a != 1 || b != 1) { fail("verify", "signature at index " + std::to_string(idx) + ": C++ verification says " + std::to_string(a) + ", Rust says " + std::to_string(b)); break; }
            idx++; if (w->index() != idx) { fail("index", "index is " + std::to_string(w->index()) + " instead of " + std::to_string(idx) + " after signing"); break; }
        }
    }
    c.nontrivial = sigs > 0 && __builtin_popcount(langs) > 1;
}

static void gen_rpool(Rng &r, Plan &p) {
    p.set("mode", r.pickw({2, 10, 28, 60})); p.set("hash", 1); p.set("h", p.cu("mode") >= 2 && r.chance(1, 20) ? 8 : p.cu("mode") && r.chance(1, 6) ? 6 : 4); p.set("sid", r.below(5)); p.set("size", r.pickw({3, 4, 4, 4, 2, 1})); p.set("sched", r.next()); p.set("smode", r.below(4)); p.set("fill", r.next() | 1); p.set("bl", r.chance(2, 3) ? 48 : (uint64_t[]){1, 2, 31, 32, 33, 47, 49, 51, 63, 64, 65, 96, 128, 130, 257, 1 + r.below(300)}[r.below(16)]);
    p.set("start", r.pickw({5, 3, 2, 2}) == 0 ? 0 : (uint64_t[]){1, 2, 7, 9, 98, 254, 255, 256, 998, 65534, 65536, 4294967294ull, 4294967296ull, 1ull << 40}[r.below(14)]);
    int n = 3 + (int)r.below(7);
    if (r.chance(1, p.tier == "thorough" ? 6 : 14)) { n = 10 + (int)r.below(50); p.set("mode", 3); p.set("h", 4); if (r.chance(1, 2)) p.set("size", (uint64_t[]){5, 8, 9, 16, 20}[r.below(5)]); }   // a long life
    for (int i = 0; i < n; i++) switch (r.pickw({56, 12, 10, 10, 6, 6})) {
        case 0: p.op("next"); break;
        case 1: p.op("avail"); break;
        case 2: p.op("run", 1 + r.below(3)); break;
        case 3: p.op("restart", r.below(4), r.chance(1, 4) ? r.below(3) : 99); break;
        case 4: p.op("use", r.below(1000)); break;
        default: p.op("die", r.below(4)); break;
    }
    p.op("next");
}
static void exec_rpool(const Plan &p, Ctx &c) {
    RunScope rs; if (!rust_available() || !rs_watch) { c.ev("skip"); return; }
    Params q = get_params(p, "", true); unsigned h = q.h; Bytes base = sim::bytes_from(8600 + p.cu("sid"), p.cu("bl", 48)); uint64_t start = p.cu("start"), size = p.cu("size"), cur = start, served = 0;
    rs_sched(p.cu("sched") | 1, (uint32_t)p.cu("smode")); rs_watch(base.data(), base.size()); c.shu(h * 1000 + size * 10 + p.cu("smode")); c.shu(start);
    struct Off { ~Off() { rs_watch(nullptr, 0); rs_sched(1, 0); } } off;
    auto fail = [&](const char *cls, const std::string &m) { c.fail("C18", cls, "start=" + std::to_string(start) + " size=" + std::to_string(size) + " h=" + std::to_string(h) + ": " + m); };
    auto want = [&](uint64_t i) { std::string s = ref::to_hex(base) + std::to_string(i + 1); Bytes d = ref::sha256(Bytes(s.begin(), s.end())); d.insert(d.end(), d.begin(), d.begin() + 16); return d; };
    void *P = nullptr; std::vector<void *> trees; bool died = false;
    auto built = [&] { std::vector<uint64_t> b(4096); b.resize(rs_watch_get(b.data(), b.size())); return std::set<uint64_t>(b.begin(), b.end()); };
    auto avail_check = [&](const char *when) {
        // the answer must equal "the next tree is built"; letting every worker finish must make it true
        auto before = built(); int a = rs_pool_available(P); auto after = built(); c.ev(std::string("avail ") + std::to_string(a)); c.shu(30 + a);
        if (a < 0) return fail("panic", std::string("is_available panicked ") + when);
        if (size == 0) { if (a) fail("avail-empty", std::string("a pool of size 0 reports a ready tree ") + when); return; }
        if (a && !after.count(cur) ) return fail("avail-early", std::string("availability reported although the tree for index ") + std::to_string(cur) + " has not been built, " + when);
        if (!a && before.count(cur) && rs_sched_stat(2) == 0 && !died) return fail("avail-late", std::string("tree for index ") + std::to_string(cur) + " is built but reported unavailable, " + when);
    };
    auto settle = [&](const char *when) {   // workers run to completion without anybody asking for a tree
        int n = rs_sched_run(1 << 20); if (n < 0) return fail("panic", "a build panicked");
        auto b = built(); for (uint64_t i = cur; i < cur + size; i++) if (!b.count(i)) return fail("not-prefetched", std::string(when) + " the tree for index " + std::to_string(i) + " is not being prefetched (current index " + std::to_string(cur) + ")");
        for (uint64_t i : b) if (i >= cur + size) return fail("too-far", std::string(when) + " the tree for index " + std::to_string(i) + " is built although the window ends before " + std::to_string(cur + size));
        if (size) { int a = rs_pool_available(P); if (a != 1 && !died) return fail("avail-late", std::string(when) + " with all builds finished the next tree is still reported unavailable"); }
    };
    auto open = [&](uint64_t at) { start = at; cur = at; served = 0; rs_sched(p.cu("sched") * 31 + at + trees.size() + 1, (uint32_t)p.cu("smode")); rs_watch(base.data(), base.size()); died = false; P = rs_pool_new(base.data(), base.size(), (int)h, at, size); if (!P) return fail("construct", "the pool cannot be constructed"); if (rs_pool_index(P) != at) return fail("index", "current index after construction is " + std::to_string(rs_pool_index(P))); };
    open(start);
    for (auto &o : p.ops) {
        if (c.bad()) break;
        std::string op = o.s(0);
        if (op == "next") {
            auto b0 = built(); bool quiet = rs_sched_stat(2) == 0 && !died; int rc = 9; void *t = rs_pool_next(P, &rc); c.ev("next rc=" + std::to_string(rc)); c.shu(40 + rc); (void)b0;
            if (t) trees.push_back(t);
            if (rc == 2 && !quiet && died) { c.count("request_failed_by_dead_worker"); cur = rs_pool_index(P); continue; }
            if (rc == 2) { fail("panic", "get_next_tree panicked or deadlocked at index " + std::to_string(cur)); break; }
            if (rc == 1) { fail("error", "get_next_tree failed at index " + std::to_string(cur)); break; }
            if (died) { // a worker died: nothing is promised about which request pays for it, but a tree handed out is the right one
                uint64_t now = rs_pool_index(P); if (now < cur + 1) { fail("index", "current index " + std::to_string(now) + " after a successful request at " + std::to_string(cur)); break; } cur = now - 1; }
            Bytes s(64); s.resize(rs_get(t, 4, s.data(), 64)); auto k = ref::key(want(cur), 1, h, 16); Bytes pk(80); pk.resize(rs_get(t, 0, pk.data(), 80));
            if (s != want(cur)) { uint64_t is = ~0ull; for (uint64_t j = cur > 40 ? cur - 40 : 0; j < cur + 40; j++) if (s == want(j)) is = j; fail("wrong-tree", "request for index " + std::to_string(cur) + " received " + (is == ~0ull ? std::string("a tree that belongs to no nearby index") : "the tree of index " + std::to_string(is))); break; }
            if (rs_num(t, 1) != (int)h || pk != k->pk()) { fail("wrong-key", "the tree for index " + std::to_string(cur) + " is not the SHAKE-128 wallet of its seed"); break; }
            if (rs_index(t) != 0) { fail("used-tree", "the tree for index " + std::to_string(cur) + " was delivered at signature index " + std::to_string(rs_index(t))); break; }
            cur++; served++;
            if (rs_pool_index(P) != cur) { fail("index", "current index is " + std::to_string(rs_pool_index(P)) + " after " + std::to_string(served) + " requests from " + std::to_string(start)); break; }
            if (o.u(1) == 0 && !died) { int sw = (int)(p.cu("sched") >> (served % 60)) & 3; if (sw == 0) settle("after a request"); else if (sw == 1) avail_check("after a request"); }
        } else if (op == "avail") { if (!died) avail_check("between requests"); else { int a = rs_pool_available(P); if (a < 0) fail("panic", "is_available panicked"); } }
        else if (op == "run") { int n = rs_sched_run((uint32_t)o.u(1)); c.ev("run " + std::to_string(n)); c.shu(70 + n); }
        else if (op == "restart") { rs_pool_free(P); P = nullptr; if (o.u(2) < 9) size = o.u(2); uint64_t back = std::min<uint64_t>(o.u(1), cur); c.count("fault_restart"); open(cur - back); c.ev("restart " + std::to_string(cur)); c.shu(80); }
        else if (op == "use" && !trees.empty()) { void *t = trees[o.u(1) % trees.size()]; Bytes m = gen_msg(o.u(1), 20), s(16384), pk(80); size_t n = 0; if (rs_index(t) >= (1u << h)) continue; int rc = rs_sign(t, m.data(), m.size(), s.data(), s.size(), &n); s.resize(n); pk.resize(rs_get(t, 0, pk.data(), 80)); if (rc || (ref::mode != ref::FLAT && rs_verify(m.data(), m.size(), s.data(), s.size(), pk.data(), pk.size(), 16) != 1)) fail("unusable", "a tree handed out earlier cannot sign any more"); c.evb("use", s); }
        else if (op == "die") { if (size == 0) continue; rs_die_at(cur + size + o.u(1) % 2); died = true; c.count("fault_worker_dies"); c.ev("die"); c.shu(90); }
    }
    if (!c.bad() && !died) settle("at the end");
    c.count("worker_jobs", rs_sched_stat(0)); c.count("worker_switches", rs_sched_stat(3)); c.h ^= sim::mix64(rs_sched_stat(4));
    if (P) { rs_pool_free(P); }
    for (void *t : trees) rs_free(t);
    c.nontrivial = served > 1;
}
static sim::Reg r1({"handover", gen_handover, exec_handover}, {{"C17", "", 1}});
static sim::Reg r2({"rpool", gen_rpool, exec_rpool}, {{"C18", "", 1}});
