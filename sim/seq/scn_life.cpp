// life: one signer used from its first key to its last and beyond (C08, C09).
#include "scn.h"
#include <cmath>

static void gen_ops(Rng &r, Plan &p, uint64_t cap, bool fast) {
    int style = r.pickw({30, 25, 25, 20});
    uint64_t budget = cap <= 64 ? cap + 12 : cap <= 256 ? (r.chance(1, 3) ? cap + 6 : 60) : 40;
    if (style == 0) { for (uint64_t i = 0; i < budget; i++) { p.op("sign", r.below(1000000), msg_len(r, false)); if (r.chance(1, 12)) p.op("chk"); } }
    else for (uint64_t i = 0; i < budget; i++) {
        switch (r.pickw({50, style == 1 ? 25 : 8, style == 2 ? 25 : 6, 8, 6, 5})) {
            case 0: p.op("sign", r.below(1000000), msg_len(r, true)); break;
            case 1: p.op("set", "rel", r.chance(1, 6) ? -(int64_t)(1 + r.below(4)) : (int64_t)r.below(cap <= 16 ? 4 : 1 + cap / 8)); break;
            case 2: { int e = 0; while ((2ull << e) < cap) e++; int64_t t = (int64_t)1 << std::min<uint64_t>(e, i * (e + 2) / (budget + 1)); p.op("set", "abs", t + (int64_t)r.below(3) - 1); break; }
            case 3: if (i * 4 > budget * 3) p.op("set", "cap", -(int64_t)(1 + r.below(6))); else p.op("sign", r.below(1000000), msg_len(r, false)); break;
            case 4: switch (r.below(5)) { case 0: p.op("set", "cap", r.below(3)); break; case 1: p.op("set", "abs", 0); break; case 2: p.op("set", "abs", r.next() & 0xffffffffu); break; case 3: p.op("set", "abs", (r.next() & 0xffu) << (8 * r.below(4))); break; default: p.op("set", "abs", 0xffffffffu - r.below(2)); } break;
            default: p.op("chk");
        }
    }
    if (r.chance(1, 2)) { p.op("set", "cap", -(int64_t)(1 + r.below(3))); for (int i = 0; i < 5; i++) p.op("sign", r.below(1000000), 32); p.op("set", "cap", (int64_t)r.below(2)); p.op("sign", r.below(100), 10); p.op("set", "rel", -1); p.op("sign", 7, 7); p.op("chk"); }
}
// A tall tree (index fields beyond 16 bits): few operations around the places where bytes of the index carry.
static void gen_tall(Rng &r, Plan &p) {
    int kind = (int[]){CF, CB, JF, JB}[r.pickw({45, 35, 12, 8})]; bool fast = is_fast(kind);
    unsigned h = r.pickw({60, 40}) ? 18 : 16; uint64_t cap = 1ull << h;
    p.set("mode", 3); p.set("hash", r.below(3)); p.set("h", h); p.set("w", !fast && r.chance(1, 4) ? 4 : 16); p.set("sid", 900 + r.below(2)); p.set("fill", r.next() | 1); p.set("kind", kind); p.set("tall", 1);
    int n = fast ? 14 : 5; uint64_t at = 0;
    for (int i = 0; i < n; i++) {
        if (r.chance(fast ? 1 : 2, 3)) { uint64_t base = (uint64_t[]){256, 4096, 32768, 65536, 131072, cap}[r.below(6)]; int64_t t = (int64_t)base + (int64_t)r.below(5) - 3; if (fast && (uint64_t)t > at && at > 70000) t = at + r.below(1000); p.op("set", "abs", t); if ((uint64_t)t < cap && (uint64_t)t > at) at = t; }
        p.op("sign", r.below(1000000), msg_len(r, false));
    }
    p.op("chk");
}
static void gen_life(Rng &r, Plan &p) {
    if (r.chance(1, 100)) { gen_tall(r, p); return; }
    bool rust = p.prop == "C08" && rust_available() && r.chance(1, 5);
    int kind = rust ? (r.chance(2, 3) ? RF : RB) : (int[]){CF, CB, JF, JB}[r.pickw({50, 22, 18, 10})];
    gen_params(r, p, rust, kind == CB || kind == JB, is_fast(kind) ? 12 : 8);
    p.set("kind", kind);
    gen_ops(r, p, 1ull << p.cu("h"), is_fast(kind));
    if (rust && is_fast(kind) && p.ops.size() > 40) { size_t drop = p.ops.size() - 40; p.ops.erase(p.ops.begin() + 20, p.ops.begin() + 20 + drop); }
    if (rust && p.cu("mode") == 0 && p.ops.size() > 14) p.ops.erase(p.ops.begin() + 7, p.ops.end() - 7);
    // the basic signer builds the whole tree for every signature
    if (!is_fast(kind)) { size_t keep = p.cu("mode") == 0 ? 6 : p.cu("h") >= 8 ? 8 : 20; if (p.ops.size() > keep) p.ops.erase(p.ops.begin() + keep / 2, p.ops.end() - (keep - keep / 2)); }
}
static void exec_life(const Plan &p, Ctx &c) {
    RunScope rs; int kind = (int)p.cu("kind"); Params q = get_params(p, "", is_rust(kind));
    if (is_rust(kind) && !rust_available()) { c.ev("skip"); return; }
    shape_params(c, q, kind);
    std::string err; auto w = make_wallet(kind, wseed(q.sid), (int)q.h, q.hash, q.w, err);
    std::string who = std::string(kind_name[kind]) + " hash=" + std::to_string(q.hash) + " h=" + std::to_string(q.h) + " w=" + std::to_string(q.w);
    if (!w) { c.fail("C09", "construct", who + ": constructor refused valid parameters: " + err); return; }
    auto k = ref::key(wseed(q.sid), q.hash, q.h, q.w);
    uint32_t cap = 1u << q.h, idx = 0; Bytes pk0 = k->pk(); bool fast = is_fast(kind); std::string lastop = "construct";
    auto check = [&](bool full) {
        if (w->index() != idx) { c.fail("C08", "index", who + ": index is " + std::to_string(w->index()) + " but should be " + std::to_string(idx) + " after " + lastop); return; }
        if (w->has("remaining") && (idx <= cap || fast) && w->remaining() != (int64_t)cap - (int64_t)idx) { c.fail("C08", "remaining", who + ": remaining signatures reported as " + std::to_string(w->remaining()) + " at index " + std::to_string(idx)); return; }
        if (!full) return;
        if (w->has("remaining") && w->capacity() != (int64_t)cap) { c.fail("C08", "capacity", who + ": capacity reported as " + std::to_string(w->capacity())); return; }
        if (is_rust(kind)) return;
        if (w->pk() != pk0) { c.fail("C09", "pk", who + ": public key is not the canonical one at index " + std::to_string(idx)); return; }
        if (w->height() != (int)q.h) { c.fail("C09", "height", who + ": height changed"); return; }
        if (w->ext_seed() != k->ext_seed()) { c.fail("C09", "seed", who + ": extended seed is not the canonical one"); return; }
        if (w->has("addr") && w->address() != ref::address(pk0)) { c.fail("C09", "address", who + ": address is not the canonical one"); return; }
        if (w->has("sk") && w->sk() != k->sk(idx)) { c.fail("C09", "sk", who + ": secret key differs from the canonical one at byte " + std::to_string(first_diff(w->sk(), k->sk(idx))) + " at index " + std::to_string(idx)); return; }
        std::string odd = w->misreported(pk0, k->sk(idx), wseed(q.sid), q.hash, q.w, 4 + 32 + (q.w == 4 ? 133 : 67) * 32 + q.h * 32);
        if (!odd.empty()) { c.fail("C09", "misreported", who + ": the reported " + odd + " is not that of its keys and signatures"); return; }
    };
    check(true); int nsig = 0, nref = 0;
    for (auto &o : p.ops) {
        if (c.bad()) return;
        if (o.s(0) == "sign") {
            Bytes m = gen_msg(o.u(1), o.u(2)), s; int rc = w->sign(m, s); lastop = "sign"; c.count("op_sign");
            if (rc == 0) {
                c.evb("sig", s); c.shu(1); nsig++;
                if (idx >= cap) { c.fail("C08", "sign-exhausted", who + ": signing succeeded at index " + std::to_string(idx) + " of capacity " + std::to_string(cap)); return; }
                if (sig_index(s) != idx) { c.fail("C08", "sig-index", who + ": signature carries index " + std::to_string(sig_index(s)) + " but the signer was at " + std::to_string(idx)); return; }
                if (!is_rust(kind)) {
                    Bytes e = k->sign(idx, m);
                    if (s != e) { c.fail("C09", "signature", who + ": signature at index " + std::to_string(idx) + " differs from the canonical one at byte " + std::to_string(first_diff(s, e)) + " (message length " + std::to_string(m.size()) + ")"); return; }
                    if (q.mode != ref::FLAT && any_verify(kind, m, s, pk0, q.w) != 1) { c.fail("C09", "verify", who + ": own signature at index " + std::to_string(idx) + " does not verify"); return; }
                } else if (rs_verify && any_verify(RF, m, s, w->pk(), q.w) != 1) { c.fail("C08", "rust-verify", who + ": own signature does not verify"); return; }
                idx++;
            } else {
                c.ev("sign refused"); c.shu(2); nref++; c.count("refused_sign");
                if (idx < cap) { c.fail("C08", "sign-refused", who + ": signing refused at index " + std::to_string(idx) + " of " + std::to_string(cap) + " (" + w->err + ")"); c.fail("C09", "sign-refused", "same"); return; }
                if (w->err == "panic") { c.fail("C08", "sign-panic", who + ": signing panicked instead of returning an error"); return; }
            }
            check(false);
        } else if (o.s(0) == "set") {
            int64_t t = o.s(1) == "rel" ? (int64_t)idx + o.i(2) : o.s(1) == "cap" ? (int64_t)cap + o.i(2) : o.i(2);
            if (t < 0) t = 0; uint32_t n = (uint32_t)t;
            if (fast && !p.cu("tall") && n > idx && n < cap && n - idx > 1500) n = idx + 1500;
            int rc = w->set_index(n); lastop = "setIndex(" + std::to_string(n) + ")"; c.count("op_set"); c.ev("set " + std::to_string(n) + " rc=" + std::to_string(rc));
            bool want = !fast || (n >= idx && n < cap);
            if (rc == 0 && !want) { c.fail("C08", n < idx ? "rewind" : "past-capacity", who + ": setIndex(" + std::to_string(n) + ") accepted at index " + std::to_string(idx) + " of " + std::to_string(cap)); return; }
            if (rc != 0 && want) { c.fail("C08", "set-refused", who + ": setIndex(" + std::to_string(n) + ") refused at index " + std::to_string(idx) + " (" + w->err + ")"); return; }
            if (rc != 0) { nref++; c.count("refused_set"); }
            c.shu(rc ? 4 : 3);
            if (rc == 0) idx = n;
            check(false);
        } else if (o.s(0) == "chk") { check(true); c.ev("chk"); }
        c.state(sim::mix64(kind * 1000 + q.h) ^ sim::mix64(idx));
    }
    if (!c.bad()) { check(true); }
    c.nontrivial = nsig > 1 || nref > 0;
}
static sim::Reg r1({"life", gen_life, exec_life}, {{"C08", "", 1}, {"C09", "", 1}});
