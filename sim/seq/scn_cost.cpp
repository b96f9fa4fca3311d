// cost: what a fast signer, a verifier and the decoders spend, in hash calls and memory, along a wallet's
// life and on hostile input (C24).
#include "net.h"
#include <xmssFast.h>
#include <misc.h>
#include <qrlHelper.h>
using emscripten::Val;
static void gen_cost(Rng &r, Plan &p) {
    int kind = (int[]){CF, CF, JF, RF}[r.below(4)]; bool rust = kind == RF; p.set("kind", kind);
    int mode = rust ? 1 : (int)r.pickw({1, 10, 40, 49}); unsigned h = rust ? 4 : mode == 0 ? 4 : mode == 1 ? (unsigned[]){4, 6}[r.chance(1, 3)] : mode == 2 ? (unsigned[]){4, 6, 8, 10}[r.below(4)] : (unsigned[]){4, 6, 8, 10, 12}[r.below(5)];
    p.set("mode", mode); p.set("hash", r.below(3)); p.set("h", h); p.set("w", 16); p.set("sid", r.below(8)); p.set("fill", r.next() | 1); p.set("hashB", r.below(3)); p.set("hB", 4);
    p.op("pub", r.below(3), r.below(1 << 20), r.below(100000), 32); int n = rust ? 12 : 30; uint64_t cap = 1ull << h;
    for (int i = 0; i < n; i++) switch (r.pickw({45, 20, 22, 8, 5})) {
        case 0: p.op("sign", r.below(100000), msg_len(r, false), 1 + r.below(rust ? 3 : 12)); break;
        case 1: p.op("skip", r.chance(1, 2) ? r.below(5) : r.chance(1, 2) ? r.below(cap / 2 + 1) : cap - 1 - r.below(3), r.below(4)); break;
        case 2: { Plan t; gen_net_ops(r, t, 2, true); for (auto &o : t.ops) if (o.s(0) != "noise" && o.s(0) != "forge") p.ops.push_back(o); break; }
        case 3: p.op("decode", r.below(8), r.below(1 << 20), r.chance(1, 8) ? 20000 : r.below(400)); break;
        default: p.op("refused", r.below(3), r.below(1 << 20)); break;
    }
}
static void exec_cost(const Plan &p, Ctx &c) {
    RunScope rs; int kind = (int)p.cu("kind"); if (kind != JF && kind != RF) kind = CF; bool rust = kind == RF; if (rust && !rust_available()) { c.ev("skip"); return; }
    Net N(p, rust); shape_params(c, N.q, 20 + kind); std::string err; unsigned h = N.q.h; uint32_t cap = 1u << h; uint64_t peak_leaf = 0; int did = 0; int64_t z0, z1; bool mem = inj::live(z0, z1);
    auto fail = [&](const char *cls, const std::string &m) { c.fail("C24", cls, std::string(kind_name[kind]) + " hash=" + std::to_string(N.q.hash) + " h=" + std::to_string(h) + ": " + m); };
    const uint64_t LEAF = 3700;   // hash calls of one leaf, with some room
    auto start = [&] { inj::work_hash = inj::work_leaf = 0; inj::live_mark(); };
    auto spent = [&] { return inj::work_hash + (N.q.mode >= 2 ? inj::work_leaf * 3100 : 0); };
    auto judge = [&](const char *cls, uint64_t bound, int64_t bytes, const std::string &what) {
        uint64_t s = spent(); int64_t m = inj::live_peak(); c.ev(std::string(cls) + " " + std::to_string(s)); c.shu(s >> 8); c.count("hash_calls", s);
        if (s > bound) fail(cls, what + " took " + std::to_string(s) + " hash calls, more than " + std::to_string(bound));
        else if (mem && m > bytes) fail((std::string(cls) + "-memory").c_str(), what + " needed " + std::to_string(m) + " bytes, more than " + std::to_string(bytes));
    };
    start(); WalletP w = make_wallet(kind, wseed(N.q.sid), (int)h, N.q.hash, 16, err); if (!w) return fail("construct", "cannot be made: " + err);
    judge("keygen", (uint64_t)(cap + 8) * LEAF, 400000 + (int64_t)cap * 400, "making the wallet"); uint32_t idx = 0; auto k = N.keys[0];
    for (auto &o : p.ops) {
        if (c.bad()) break;
        std::string op = o.s(0);
        if (op == "pub") { int j = (int)o.u(1) % 3; N.pub(j, (uint32_t)(o.u(2) % (1u << N.keys[j]->h)), gen_msg(o.u(3), std::min<uint64_t>(o.u(4), 9000))); }
        else if (op == "tall") N.tall(o, c);
        else if (op == "sign") for (uint64_t i = 0; i < o.u(3) && idx < cap && !c.bad(); i++) { Bytes m = gen_msg(o.u(1) + i, std::min<uint64_t>(o.u(2), 20000)), s; start(); if (w->sign(m, s)) { fail("refused", "signing refused at index " + std::to_string(idx)); break; } peak_leaf = std::max(peak_leaf, spent()); judge("sign", (h / 2 + 2) * LEAF, 300000 + 16 * (int64_t)m.size() + 2000 * h, "signing with index " + std::to_string(idx)); idx++; did++; c.count("signatures"); }
        else if (op == "skip") { uint32_t t = o.u(1) >= cap / 2 + 3 ? std::max<uint32_t>((uint32_t)o.u(1), idx) : idx + (uint32_t)o.u(1); if (t >= cap) continue; if (rust && t - idx > 6) continue; start(); if (w->set_index(t)) { fail("refused", "cannot move forward to " + std::to_string(t)); break; } judge("skip", (uint64_t)(t - idx + 1) * (h / 2 + 2) * LEAF, 300000 + 2000 * h, "moving from " + std::to_string(idx) + " to " + std::to_string(t)); idx = t; did++; }
        else if (op == "refused") { start(); int rc; if (o.u(1) == 0) rc = idx ? w->set_index((uint32_t)(o.u(2) % idx)) : 1; else if (o.u(1) == 1) rc = w->set_index(cap + (uint32_t)(o.u(2) % 9)); else rc = w->set_index(0xffffffffu - (uint32_t)(o.u(2) % 9)); c.shu(rc); if (!rc) { fail("accepted", "an impossible move was accepted"); break; } judge("refused", LEAF, 300000, "refusing an impossible move"); c.count("fault_impossible_move"); }
        else if (op == "rx") { Bytes m, s, pk; unsigned vw; int front, kinds; if (!N.triple(o, m, s, pk, vw, front, c, kinds)) continue; start(); int fr = rust ? (int)RF : front == 0 ? (int)CF : front == 1 ? (int)JF : (int)JB; int g = any_verify(fr, m, s, pk, vw); c.shu(g); size_t in = m.size() + s.size() + pk.size(); judge("verify", 8000 + 16 * (s.size() / 32 > 400 ? 400 : s.size() / 32), 300000 + 16 * (int64_t)in, "verifying " + std::to_string(in) + " bytes"); did++; }
        else if (op == "decode") { Bytes b = gen_msg(o.u(2), o.u(3)); std::string t = o.u(2) % 2 ? ref::to_hex(b) : std::string(b.size() * 2, " af"[o.u(2) % 3]), m = o.u(2) % 3 ? std::string() : ref::to_mnemonic(Bytes(b.begin(), b.begin() + b.size() / 3 * 3), words()); start(); size_t in = b.size() + t.size() + m.size();
            try { switch (o.u(1)) { case 0: if (rust) { Bytes q(t.begin(), t.end()), out(80000); size_t n; rs_codec(3, q.data(), q.size(), out.data(), out.size(), &n); } else hstr2bin(t); break; case 1: if (rust) { Bytes q(m.begin(), m.end()), out(80000); size_t n; rs_codec(1, q.data(), q.size(), out.data(), out.size(), &n); } else mnemonic2bin(m.empty() ? t : m); break; case 2: any_addr_valid(rust ? 3 : 0, b); break; case 3: any_addr_valid(2, b); break; case 4: js("jsqrlwrapper::getHeight", {Val("Q" + t)}); break; case 5: bin2hstr(b); break; case 6: if (b.size() % 3 == 0) bin2mnemonic(b); break; default: QRLHelper::getAddress(b); } } catch (const std::exception &) {}
            judge("decode", 8, 3000000 + 64 * (int64_t)in, "decoding " + std::to_string(in) + " bytes"); did++; c.count("fault_junk"); }
    }
    c.nontrivial = did > 3; c.shu(peak_leaf >> 9);
}
static sim::Reg r1({"cost", gen_cost, exec_cost}, {{"C24", "", 1}});
