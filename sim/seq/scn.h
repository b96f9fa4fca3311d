#pragma once
#include "../core/sim.h"
#include "inject.h"
#include "refxmss.h"
#include "wallets.h"
using sim::Ctx; using sim::Plan; using sim::Rng;
struct Params { int mode, hash; unsigned h, w; uint64_t sid; };
inline Bytes wseed(uint64_t sid) { return sim::bytes_from(7700 + sid, 48); }
// Draws primitives, hash function, height, Winternitz parameter and seed for one wallet.
inline void gen_params(Rng &r, Plan &p, bool rust, bool may_w4, unsigned hcap = 12, const std::string &pre = "") {
    int mode = rust ? r.pickw({6, 94}) : r.pickw({9, 26, 65});
    unsigned h;
    if (mode == 0) h = r.pickw({97, 3}) ? 6 : 4;
    else if (mode == 1) h = (unsigned[]){4, 6, 8}[r.pickw({74, 24, 2})];
    else h = (unsigned[]){4, 6, 8, 10, 12}[r.pickw({22, 34, 28, 13, 3})];
    if (h > hcap) h = hcap;
    p.set(pre + "mode", mode); p.set(pre + "hash", r.below(3)); p.set(pre + "h", h);
    p.set(pre + "w", may_w4 && r.chance(1, 3) ? 4 : 16); p.set(pre + "sid", r.below(mode == 0 ? 4 : 24));
    p.set("fill", r.next() | 1);
}
inline Params get_params(const Plan &p, const std::string &pre = "", bool rust = false) {
    Params q; q.mode = (int)p.cu(pre + "mode"); q.hash = (int)p.cu(pre + "hash", 1); q.h = (unsigned)p.cu(pre + "h", 4); q.w = (unsigned)p.cu(pre + "w", 16); q.sid = p.cu(pre + "sid");
    if (rust && q.mode == 3 && !inj::rust_flat_ok()) { q.mode = 1; if (q.h > 6) q.h = 6; }
    if (rust && q.mode == 2 && !inj::rust_leaf_ok()) { q.mode = 1; if (q.h > 6) q.h = 6; }
    if (!inj::mode_ok(q.mode) || (rust && q.mode && !inj::rust_toy_ok())) { q.mode = 0; if (q.h > 4) q.h = 4; }
    inj::set_mode(q.mode); inj::fill_seed = p.cu("fill");
    return q;
}
inline Bytes gen_msg(uint64_t seed, size_t len) { return sim::bytes_from(seed ^ 0x5eed, len); }
inline size_t msg_len(Rng &r, bool big = true) {
    switch (r.pickw({10, 10, 30, 20, 20, 6, big ? 2 : 0, big ? 1 : 0})) {
        case 0: return 0; case 1: return 1 + r.below(4); case 2: return 32; case 3: return r.chance(1, 2) ? 376 + r.below(16) : (size_t[]){7, 39, 55, 119, 143, 183, 207, 279, 375, 415, 543, 551}[r.below(12)] - 1 + r.below(3);   // around the block boundaries of the three hash functions case 4: return r.below(600);
        case 5: return r.below(9000); case 6: return 65000 + r.below(2000); default: return 2000000 + r.below(2000000);
    }
}
inline void shape_params(Ctx &c, const Params &q, int kind) { c.shu(q.mode * 1000003 + q.hash * 10007 + q.h * 101 + q.w * 7 + kind); }
inline std::string short_hex(const Bytes &b) { return sim::hex(b.data(), b.size() < 8 ? b.size() : 8) + (b.size() > 8 ? ".." : "") + "(" + std::to_string(b.size()) + ")"; }
inline uint32_t sig_index(const Bytes &s) { return s.size() < 4 ? 0xffffffffu : (uint32_t)s[0] << 24 | (uint32_t)s[1] << 16 | (uint32_t)s[2] << 8 | s[3]; }
inline size_t first_diff(const Bytes &a, const Bytes &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return i; }
// Resets process-wide simulation knobs when a run ends, however it ends.
struct RunScope { ~RunScope() { inj::alloc_disarm(); inj::set_mode(0); inj::fill_seed = 0; inj::ent = inj::Entropy(); } };
