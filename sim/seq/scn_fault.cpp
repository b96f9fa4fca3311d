// alloc: memory allocation fails at any point of any operation (C19).
// copies: signers copied, moved, swapped, stored and destroyed (C20).
// entropy: the operating system's random source misbehaves (C13).
#include "mutate.h"
#include <misc.h>
#include <qrlHelper.h>
#include <xmssFast.h>
#include <xmssBasic.h>
#include <cerrno>
#include <memory>
using emscripten::Val;

static void gen_alloc(Rng &r, Plan &p) {
    int kind = r.chance(2, 3) ? CF : CB;   // the C++ library only: in the JavaScript wrapper an injected failure would hit the stand-in for embind
    gen_params(r, p, false, kind == CB, is_fast(kind) ? 8 : 4); p.set("kind", kind);
    int n = p.cu("mode") == 0 ? 14 : 40; if (!is_fast(kind)) n = 16; uint64_t cap = 1ull << p.cu("h");
    for (int i = 0; i < n; i++) {
        int64_t k = r.chance(1, 8) ? -1 : (int64_t)r.below(r.chance(1, 2) ? 6 : 22);
        switch (r.pickw({46, 16, 8, 8, 8, 8, 6})) {
            case 0: p.op("sign", k, r.chance(1, 4), r.below(100000), r.chance(1, 3) ? 385 + r.below(4000) : msg_len(r, true)); break;
            case 1: p.op("set", k, r.chance(1, 4), r.chance(1, 5) ? -(int64_t)r.below(5) : r.chance(1, 8) ? (int64_t)cap : (int64_t)r.below(cap <= 16 ? 3 : 1 + cap / 8)); break;
            case 2: p.op("make", r.chance(1, 4) ? -1 : (int64_t)r.below(30), r.chance(1, 4), r.below(4)); break;
            case 3: p.op("verify", k, r.chance(1, 4), r.below(100000), msg_len(r, true)); break;
            case 4: p.op("enc", k, r.chance(1, 4), r.below(7)); break;
            case 5: p.op("get", k, r.chance(1, 4), r.below(5)); break;
            default: p.op("end"); p.op("sign", k, 0, 1, 5); break;
        }
    }
}
static void exec_alloc(const Plan &p, Ctx &c) {
    RunScope rs; Params q = get_params(p); int kind = (int)p.cu("kind"); shape_params(c, q, kind); Bytes seed = wseed(q.sid);
    std::string err; auto w = make_wallet(kind, seed, (int)q.h, q.hash, q.w, err); auto k = ref::key(seed, q.hash, q.h, q.w); uint32_t cap = 1u << q.h, idx = 0; bool fast = is_fast(kind);
    auto fail = [&](const char *cls, const std::string &m) { c.fail("C19", cls, std::string(kind_name[kind]) + " hash=" + std::to_string(q.hash) + " h=" + std::to_string(q.h) + ": " + m); };
    if (!w) { fail("construct", err); return; }
    Bytes vm = {1, 2, 3}, vs = k->sign(0, vm); int fired = 0, done = 0; std::string prev = "construction";
    auto unchanged = [&](const std::string &op) {
        if (w->index() != idx) { fail("index", "index is " + std::to_string(w->index()) + " instead of " + std::to_string(idx) + " after " + op); return; }
        if (w->has("sk") && w->sk() != k->sk(idx)) { fail("sk", "secret key changed by " + op); return; }
        if (w->pk() != k->pk()) { fail("pk", "public key changed by " + op); return; }
    };
    // runs f with the plan's allocation failure; 0 done, 1 threw
    auto run = [&](const sim::Line &o, const std::function<void()> &f) {
        inj::alloc_arm(o.i(1), o.u(2)); int rc = 0;
        try { f(); } catch (const std::exception &) { rc = 1; } catch (...) { rc = 1; }
        c.cnt["allocations_seen"] += inj::alloc_disarm(); if (inj::alloc_fired()) { fired++; c.count("fault_allocation_failed"); if (!rc) c.count("survived_allocation_failure"); }
        return rc;
    };
    for (auto &o : p.ops) {
        if (c.bad()) break;
        std::string op = o.s(0);
        if (op == "sign") {
            Bytes m = gen_msg(o.u(3), o.u(4)), s; int rc = 0; uint32_t b = idx;
            if (kind == CF || kind == CB) { rc = run(o, [&] { if (w->sign(m, s)) throw std::runtime_error(w->err); }); } else rc = run(o, [&] { if (w->sign(m, s)) throw std::runtime_error("x"); });
            bool oom = inj::alloc_fired(); c.ev("sign rc=" + std::to_string(rc) + " oom=" + std::to_string(oom)); c.shu(1 + rc * 2 + oom);
            std::string what = "a " + std::string(rc ? "failed" : "successful") + " signature of " + std::to_string(m.size()) + " bytes at index " + std::to_string(b) + (oom ? " (allocation " + o.s(1) + " failed)" : "");
            if (rc == 0) {
                if (b >= cap) { fail("exhausted", "an exhausted signer signed"); break; }
                Bytes e = k->sign(b, m); if (s != e) { fail("signature", what + " after " + prev + " is not the expected one (first difference at byte " + std::to_string(first_diff(s, e)) + ")"); break; }
                idx++; done++; c.evb("s", s);
            } else {
                if (!s.empty()) { fail("released", what + " still released a signature"); break; }
                if (!oom && b < cap) { fail("refused", what + " was refused without reason: " + w->err); break; }
            }
            unchanged(what); prev = what;
        } else if (op == "set") {
            int64_t t = (int64_t)idx + o.i(3); if (t < 0) t = 0; if (!fast && t > (int64_t)cap) t = cap; bool want = !fast || (t >= idx && t < (int64_t)cap);
            int rc = run(o, [&] { if (w->set_index((uint32_t)t)) throw std::runtime_error("x"); }); bool oom = inj::alloc_fired(); c.ev("set rc=" + std::to_string(rc)); c.shu(10 + rc);
            if (rc == 0 && !want) { fail("set-accepted", "setIndex(" + std::to_string(t) + ") accepted at index " + std::to_string(idx)); break; }
            if (rc && want && !oom) { fail("set-refused", "setIndex(" + std::to_string(t) + ") refused at index " + std::to_string(idx)); break; }
            if (rc == 0) idx = (uint32_t)t;
            unchanged("setIndex"); prev = "setIndex(" + std::to_string(t) + ") rc=" + std::to_string(rc);
        } else if (op == "make") {
            if (!fast && q.h > 4) continue;
            WalletP n; int rc = run(o, [&] { std::string e2; n = o.u(3) == 0 ? make_wallet(kind, seed, (int)q.h, q.hash, q.w, e2) : o.u(3) == 3 ? make_wallet(kind, seed, (int)q.h, q.hash, q.w, e2) : (q.w == 16 ? restore_wallet(kind, 1, k->ext_seed(), "", "", 16, e2) : make_wallet(kind, seed, (int)q.h, q.hash, q.w, e2)); if (!n) throw std::runtime_error(e2); });
            c.ev("make rc=" + std::to_string(rc)); c.shu(20 + rc);
            if (rc && !inj::alloc_fired()) { fail("make", "construction failed without reason"); break; }
            if (rc == 0) { Bytes s; if (n->pk() != k->pk() || n->sign({9}, s) || s != k->sign(0, {9})) { fail("make-wrong", "a signer constructed under memory pressure is wrong"); break; } }
            else { std::string e2; n = make_wallet(kind, seed, (int)q.h, q.hash, q.w, e2); if (!n || n->pk() != k->pk()) { fail("make-retry", "construction failed again after memory came back: " + e2); break; } }
            unchanged("constructing another signer");
        } else if (op == "verify") {
            Bytes m = gen_msg(o.u(3), o.u(4)), s = k->sign(idx % cap, m), pk = k->pk(); bool bad = o.u(3) & 1; if (bad) s[40] ^= 1; bool ans = false;
            int rc = run(o, [&] { ans = XmssBase::verify(m, s, pk, q.w); }); c.ev("verify rc=" + std::to_string(rc)); c.shu(30 + rc);
            if (rc == 0 && ans == bad) { fail("verify-wrong", "verification under memory pressure gave the wrong answer"); break; }
            if (rc && !inj::alloc_fired()) { fail("verify", "verification threw"); break; }
            if (XmssBase::verify(m, s, pk, q.w) == bad) { fail("verify-retry", "verification gave the wrong answer after memory came back"); break; }
        } else if (op == "enc") {
            Bytes ext = k->ext_seed(), pk = k->pk(), a; std::string hs = ref::to_hex(ext), mn = ref::to_mnemonic(ext, words()), t; Bytes ad = ref::address(pk);
            auto f = [&] { switch (o.u(3)) { case 0: t = bin2hstr(ext); if (t != hs) throw 1; break; case 1: a = hstr2bin(hs); if (a != ext) throw 1; break; case 2: t = bin2mnemonic(ext); if (t != mn) throw 1; break; case 3: a = mnemonic2bin(mn); if (a != ext) throw 1; break; case 4: a = QRLHelper::getAddress(pk); if (a != ad) throw 1; break; case 5: getHashChainSeed(ext, 1, 3); break; default: { bool v = QRLHelper::addressIsValid(ad); if (!v && !inj::alloc_fired()) throw 1; break; } } };
            int rc = run(o, f); c.ev("enc rc=" + std::to_string(rc)); c.shu(40 + o.u(3));
            if (rc && !inj::alloc_fired()) { fail("enc", "encoding call " + o.s(3) + " failed or was wrong"); break; }
            try { f(); } catch (...) { fail("enc-retry", "encoding call " + o.s(3) + " failed after memory came back"); break; }
        } else if (op == "get") {
            int rc = run(o, [&] { switch (o.u(3)) { case 0: w->pk(); break; case 1: if (w->has("addr")) w->address(); break; case 2: w->ext_seed(); break; case 3: w->hexseed(); break; default: w->mnemonic(); } });
            c.ev("get rc=" + std::to_string(rc)); c.shu(60 + rc); if (rc && !inj::alloc_fired()) { fail("get", "accessor failed"); break; } unchanged("an accessor");
        } else if (op == "end") { uint32_t t = cap - 1; if (fast && idx <= t && q.h <= 8) { if (w->set_index(t)) { fail("set-refused", "setIndex to the last index refused"); break; } idx = t; c.ev("end"); } }
        c.state(sim::mix64(idx * 64 + kind) ^ (uint64_t)inj::alloc_fired());
    }
    c.nontrivial = fired > 0 && done > 0;
}

// ---------------------------------------------------------------- copies
static void gen_copies(Rng &r, Plan &p) {
    gen_params(r, p, false, false, 8); p.set("basic", r.chance(1, 5)); if (p.cu("basic") && p.cu("h") > 4) p.set("h", 4);
    uint64_t cap = 1ull << p.cu("h"); int n = p.cu("mode") == 0 ? 16 : 50; p.op("new", 0, r.below(2));
    if (p.cu("basic")) n = 20;
    for (int i = 0; i < n; i++) switch (r.pickw({40, 8, 9, 7, 5, 6, 5, 6, 8, 4, 2, 4})) {
        case 0: p.op("sign", r.below(5), r.below(100000), msg_len(r, false)); break;
        case 1: p.op("set", r.below(5), r.below(cap <= 16 ? 3 : 1 + cap / 6)); break;
        case 2: p.op("copy", r.below(5), r.below(5)); break;
        case 3: p.op("assign", r.below(5), r.below(5)); break;
        case 4: p.op("move", r.below(5), r.below(5)); break;
        case 5: p.op("moveassign", r.below(5), r.below(5)); break;
        case 6: p.op("swap", r.below(5), r.below(5)); break;
        case 7: p.op("del", r.below(5)); break;
        case 8: p.op("vec", r.below(4), r.below(5)); break;
        case 9: p.op("new", r.below(5), r.below(2)); break;
        case 10: p.op("failcopy", r.below(5), r.below(5), r.below(14)); break;
        default: p.op("walk", r.below(5)); break;
    }
    for (int i = 0; i < 5; i++) p.op("sign", i, r.below(1000), 20);
}
template <class T> static void copies_run(const Plan &p, Ctx &c, const Params &q) {
    struct Slot { std::unique_ptr<T> o; uint32_t idx = 0; int key = 0; bool moved = false; };
    struct VItem { uint32_t idx; int key; };
    bool basic = std::is_same<T, XmssBasic>::value; Slot sl[5]; std::vector<T> vec; std::vector<VItem> vm;
    std::shared_ptr<const ref::Key> keys[2] = {ref::key(wseed(q.sid), q.hash, q.h, 16), ref::key(wseed(q.sid + 50), (q.hash + 1) % 3, q.h == 4 || q.mode == 0 ? 4 : q.h - 2, 16)};
    auto fail = [&](const char *cls, const std::string &m) { c.fail("C20", cls, std::string(basic ? "basic" : "fast") + " hash=" + std::to_string(q.hash) + " h=" + std::to_string(q.h) + ": " + m); };
    auto mk = [&](int k) { if constexpr (std::is_same<T, XmssBasic>::value) return new XmssBasic(wseed(q.sid + (k ? 50 : 0)), (uint8_t)keys[k]->h, (eHashFunction)keys[k]->hash, SHA256_2X, 16); else return new XmssFast(wseed(q.sid + (k ? 50 : 0)), (uint8_t)keys[k]->h, (eHashFunction)keys[k]->hash); };
    int copies = 0, signs = 0;
    auto sign = [&](T &o, uint32_t &idx, int key, const Bytes &m, const std::string &who) {
        auto &k = *keys[key]; uint32_t cap = 1u << k.h; Bytes s; int rc = 0; std::string er; if (o.getIndex() != idx) { fail("index", who + " is at index " + std::to_string(o.getIndex()) + " instead of " + std::to_string(idx)); return; }
        try { s = o.sign(m); } catch (const std::exception &e) { rc = 1; er = e.what(); }
        if (idx >= cap) { if (!rc) fail("exhausted", who + " signed although exhausted"); return; }
        if (rc) { fail("refused", who + " refused to sign at index " + std::to_string(idx) + ": " + er); return; }
        Bytes e = k.sign(idx, m); if (s != e) { fail("signature", who + ": signature at index " + std::to_string(idx) + " is wrong from byte " + std::to_string(first_diff(s, e))); return; }
        if (o.getPK() != k.pk()) { fail("pk", who + " has the wrong public key"); return; }
        idx++; signs++; c.evb("s", s);
    };
    for (auto &o : p.ops) {
        if (c.bad()) break;
        std::string op = o.s(0); Slot &a = sl[o.u(1) % 5], &b = sl[o.u(2) % 5]; std::string who = "object " + std::to_string(o.u(1) % 5);
        try {
            if (op == "new") { a.o.reset(mk((int)o.u(2) % 2)); a.idx = 0; a.key = (int)o.u(2) % 2; a.moved = false; c.ev("new"); }
            else if (op == "sign") { if (a.o && !a.moved) sign(*a.o, a.idx, a.key, gen_msg(o.u(2), o.u(3)), who); c.shu(1); }
            else if (op == "walk") { if (a.o && !a.moved && !basic && keys[a.key]->h <= 6 && q.mode) while (!c.bad() && a.idx < (1u << keys[a.key]->h)) sign(*a.o, a.idx, a.key, {5}, who); c.ev("walk"); c.shu(2); }
            else if (op == "set") { if (!a.o || a.moved) continue; uint32_t cap = 1u << keys[a.key]->h, t = a.idx + (uint32_t)o.u(2); if (t >= cap) continue; a.o->setIndex(t); a.idx = t; c.ev("set"); c.shu(3); }
            else if (op == "copy") { if (!a.o || a.moved || &a == &b) continue; b.o.reset(new T(*a.o)); b.idx = a.idx; b.key = a.key; b.moved = false; copies++; c.count("op_copy"); c.ev("copy"); c.shu(4); }
            else if (op == "assign") { if (!a.o || a.moved || !b.o) continue; *b.o = *a.o; b.idx = a.idx; b.key = a.key; b.moved = false; copies++; c.count(&a == &b ? "op_self_assign" : "op_assign"); c.ev("assign"); c.shu(5); }
            else if (op == "move") { if (!a.o || a.moved || &a == &b) continue; b.o.reset(new T(std::move(*a.o))); b.idx = a.idx; b.key = a.key; b.moved = false; a.moved = true; copies++; c.count("op_move"); c.ev("move"); c.shu(6); }
            else if (op == "moveassign") { if (!a.o || a.moved || !b.o || &a == &b) continue; *b.o = std::move(*a.o); b.idx = a.idx; b.key = a.key; b.moved = false; a.moved = true; copies++; c.count("op_move_assign"); c.ev("moveassign"); c.shu(7); }
            else if (op == "swap") { if (!a.o || !b.o || a.moved || b.moved || &a == &b) continue; std::swap(*a.o, *b.o); std::swap(a.idx, b.idx); std::swap(a.key, b.key); copies++; c.count("op_swap"); c.ev("swap"); c.shu(8); }
            else if (op == "del") { a.o.reset(); a.moved = false; c.ev("del"); c.count("op_destroy"); c.shu(9); }
            else if (op == "failcopy") {  // a copy that runs out of memory half-way must leave both objects alone
                if (!a.o || a.moved || &a == &b) continue; bool threw = false; inj::alloc_arm((int64_t)o.u(3));
                try { if (b.o) *b.o = *a.o; else b.o.reset(new T(*a.o)); } catch (const std::bad_alloc &) { threw = true; }
                inj::alloc_disarm(); c.ev("failcopy " + std::to_string(threw)); c.shu(10 + threw); if (threw) c.count("fault_allocation_failed");
                if (!threw) { b.idx = a.idx; b.key = a.key; b.moved = false; }
                else if (b.o) { b.o.reset(); b.moved = false; }   // its value is unspecified, it must only be destructible
            } else if (op == "vec") {
                switch (o.u(1)) {
                    case 0: { Slot &x = sl[o.u(2) % 5]; if (!x.o || x.moved || vec.size() > 8) break; vec.push_back(*x.o); vm.push_back({x.idx, x.key}); c.count("op_container_insert"); copies++; break; }
                    case 1: if (vec.size() > 1) { vec.erase(vec.begin()); vm.erase(vm.begin()); c.count("op_container_erase"); } break;
                    case 2: if (vec.size()) { size_t i = o.u(2) % vec.size(); sign(vec[i], vm[i].idx, vm[i].key, {1, 2, 3}, "container element " + std::to_string(i)); } break;
                    default: if (vec.size()) { vec.insert(vec.begin(), vec.back()); VItem t = vm.back(); vm.insert(vm.begin(), t); vec.shrink_to_fit(); c.count("op_container_relocate"); copies++; if (vec.size() > 8) { vec.pop_back(); vm.pop_back(); } }
                }
                c.ev("vec " + std::to_string(vec.size())); c.shu(12 + o.u(1));
            }
        } catch (const std::exception &e) { fail("exception", op + " threw " + e.what()); }
        uint64_t st = 0; for (auto &s : sl) st = st * 37 + (s.o ? 1 + s.moved + s.idx % 16 : 0); c.state(st);
    }
    for (size_t i = 0; i < vec.size() && !c.bad(); i++) sign(vec[i], vm[i].idx, vm[i].key, {4}, "container element " + std::to_string(i));
    for (int i = 0; i < 5 && !c.bad(); i++) { if (sl[i].o && !sl[i].moved) sign(*sl[i].o, sl[i].idx, sl[i].key, {6}, "object " + std::to_string(i)); sl[i].o.reset(); }
    c.nontrivial = copies > 0 && signs > 1;
}
static void exec_copies(const Plan &p, Ctx &c) {
    RunScope rs; Params q = get_params(p); shape_params(c, q, (int)p.cu("basic"));
    if (p.cu("basic")) copies_run<XmssBasic>(p, c, q); else copies_run<XmssFast>(p, c, q);
}

// ---------------------------------------------------------------- entropy
static size_t seed_len(Rng &r) { return r.chance(1, 2) ? 48 : r.chance(1, 3) ? 1 + r.below(300) : (size_t[]){1, 16, 32, 51, 96, 256, 257, 4096, 8190, 8191, 8192, 8193, 20000}[r.below(13)]; }
static void gen_entropy(Rng &r, Plan &p) {
    p.set("fill", r.next() | 1); int n = 3 + (int)r.below(6);
    for (int i = 0; i < n; i++) {
        sim::Line l; size_t sz = seed_len(r); l.w = {"get", std::to_string(sz), std::to_string(r.below(1 << 30)), std::to_string(r.chance(1, 3) ? 0 : r.chance(1, 4) ? 20 + r.below(200) : 1 + r.below(20)), std::to_string(r.below(1 << 20))};
        l.w.push_back(std::to_string(r.chance(1, 8) ? (int[]){ENOENT, EACCES, EMFILE, ENFILE, EINTR, ENODEV}[r.below(6)] : 0));
        if (!r.chance(1, 3)) { int k = 1 + (int)r.below(7); for (int j = 0; j < k; j++) { int t = r.pickw({50, 16, 12, 6, 16}); size_t cnt = r.chance(1, 3) ? sz : r.chance(1, 2) ? 1 + r.below(sz) : sz > 1 ? sz - 1 : 1; l.w.push_back(std::to_string(t) + ":" + std::to_string(cnt)); } }
        p.ops.push_back(l);
    }
}
static void exec_entropy(const Plan &p, Ctx &c) {
    RunScope rs; inj::fill_seed = p.cu("fill"); int got = 0, refused = 0;
    for (auto &o : p.ops) {
        if (c.bad()) break;
        size_t sz = o.u(1); Bytes eb = gen_msg(o.u(4), o.u(3)); std::string extra(eb.begin(), eb.end());
        auto arm = [&](size_t flip) {
            inj::ent = inj::Entropy(); inj::ent.stream_seed = o.u(2) * 2 + 1; inj::ent.open_errno = (int)o.u(5); inj::ent.flip_at = flip;
            if (o.u(5) == EINTR) { inj::ent.open_errno = 0; inj::ent.open_eintr = 1; }
            for (size_t i = 6; i < o.w.size(); i++) { auto &t = o.w[i]; size_t col = t.find(':'); inj::ent.script.push_back({atoi(t.c_str()), col == std::string::npos ? 1 : (size_t)strtoull(t.c_str() + col + 1, 0, 10)}); }
            inj::ent.armed = true;
        };
        auto call = [&](size_t flip, const std::string &ex, Bytes &out) { arm(flip); int rc = 0; try { out = getRandomSeed((uint32_t)sz, ex); } catch (const std::exception &) { rc = 1; } inj::ent.armed = false; return rc; };
        Bytes a, b; int rc = call((size_t)-1, extra, a); auto e = inj::ent;
        c.count("fault_short_read", e.short_reads); c.count("fault_eintr", e.eintr); c.count("fault_read_error", e.errors); c.count("fault_early_eof", e.eofs); c.count("fault_open_failed", e.opens_failed);
        c.ev("seed rc=" + std::to_string(rc) + " delivered=" + std::to_string(e.delivered)); c.shu(rc * 7 + e.short_reads + 100 * e.eintr + 10000 * e.errors + 1000000 * e.eofs + 77 * (sz > 8000) + 31 * e.opens_failed);
        std::string what = "getRandomSeed(" + std::to_string(sz) + ", " + std::to_string(extra.size()) + " bytes): source delivered " + std::to_string(e.delivered) + " bytes (" + std::to_string(e.short_reads) + " short reads, " + std::to_string(e.eintr) + " interruptions, " + std::to_string(e.errors) + " errors, " + std::to_string(e.eofs) + " ends of file, " + std::to_string(e.opens_failed) + " failed opens)";
        auto fail = [&](const char *cls, const std::string &m) { c.fail("C13", cls, what + ": " + m); };
        if (rc) {
            refused++;
            bool faults = e.short_reads || e.eintr || e.errors || e.eofs || e.opens_failed;
            if (!faults) { fail("refused", "threw although the source worked"); break; }
            continue;
        }
        got++;
        if (e.delivered < sz) { fail("too-few", "returned a seed without having obtained " + std::to_string(sz) + " random bytes"); break; }
        if (a.size() != sz) { fail("length", "returned " + std::to_string(a.size()) + " bytes"); break; }
        // a function of the delivered bytes and the extra entropy only, whatever was in memory before
        uint64_t f = inj::fill_seed; inj::fill_seed = f * 3 + 2; inj::poison_stack(f); int rc2 = call((size_t)-1, extra, b); inj::fill_seed = f;
        if (rc2 || a != b) { fail("not-a-function", "the same random bytes and extra entropy gave a different seed"); break; }
        if (sz < 16) continue;   // short outputs may coincide by chance
        size_t pos[4] = {0, sz - 1, (size_t)(sim::mix64(o.u(2)) % sz), (size_t)(sim::mix64(o.u(2) + 1) % sz)};
        for (size_t x : pos) { Bytes d; if (call(x, extra, d) == 0 && d == a) { fail("ignores-random", "the seed does not depend on random byte " + std::to_string(x)); break; } }
        if (c.bad()) break;
        if (!extra.empty()) { size_t ps[3] = {0, extra.size() - 1, (size_t)(sim::mix64(o.u(4)) % extra.size())}; for (size_t x : ps) { std::string ex = extra; ex[x] ^= 0x21; Bytes d; if (call((size_t)-1, ex, d) == 0 && d == a) { fail("ignores-entropy", "the seed does not depend on extra-entropy byte " + std::to_string(x)); break; } } }
        if (c.bad()) break;
        { Bytes d; std::string ex = extra + std::string(1, '\0'); if (call((size_t)-1, ex, d) == 0 && d == a) { fail("ignores-entropy", "appending a byte to the extra entropy does not change the seed"); break; } }
    }
    c.nontrivial = got + refused > 1;
}
static sim::Reg r1({"alloc", gen_alloc, exec_alloc}, {{"C19", "", 1}});
static sim::Reg r2({"copies", gen_copies, exec_copies}, {{"C20", "", 1}});
static sim::Reg r3({"entropy", gen_entropy, exec_entropy}, {{"C13", "", 1}});
