// net: a validator receives (message, signature, public key) triples from a hostile network (C12).
// split: the same triples and addresses are judged by C++, JavaScript and Rust validators (C17).
#include "net.h"
#include <xmssFast.h>
#include <xmssBasic.h>
using emscripten::Val;
static void gen_net(Rng &r, Plan &p) {
    gen_params(r, p, false, true, 10); p.set("hashB", r.below(3)); p.set("hB", (unsigned[]){4, 4, 6, 8}[p.cu("mode") == 2 ? r.below(4) : 0]);
    p.op("pub", r.below(3), r.below(1 << 20), r.below(100000), 32);
    gen_net_ops(r, p, p.cu("mode") == 0 ? 14 : p.cu("mode") == 1 ? 24 : 40, true);
}
static void exec_net(const Plan &p, Ctx &c) {
    RunScope rs; Net N(p); shape_params(c, N.q, 0); int acc = 0, rej = 0;
    auto fail = [&](const char *cls, const std::string &m) { c.fail("C12", cls, m + " [hash=" + std::to_string(N.q.hash) + " h=" + std::to_string(N.q.h) + " w=" + std::to_string(N.w) + "]"); };
    auto judge = [&](const Bytes &m, const Bytes &s, const Bytes &pk, unsigned w, int front, int kinds, bool again, uint64_t ps, const char *what) {
        bool want = ref::verify(m, s, pk, w); Bytes m1 = m, s1 = s, p1 = pk; m1.shrink_to_fit(); s1.shrink_to_fit(); p1.shrink_to_fit();
        int fr = front == 0 ? CF : front == 1 ? JF : JB; const char *L = front == 0 ? "C++" : front == 1 ? "JavaScript Xmss" : "JavaScript XmssBasic";
        inj::poison_stack(ps); int g = any_verify(fr, m1, s1, p1, w);
        c.ev("rx g=" + std::to_string(g)); c.shu(100 + kinds * 4 + g);
        std::string how = std::string(L) + " verification of " + what + " (message " + std::to_string(m.size()) + ", signature " + std::to_string(s.size()) + ", key " + std::to_string(pk.size()) + " bytes, w=" + std::to_string(w) + ")";
        if (m1 != m || s1 != s || p1 != pk) { fail("input-changed", how + " altered its inputs"); return; }
        if (g == -1) { fail("threw", how + " threw"); return; }
        if (g && !want) { fail("accepted", how + " accepted what is not a valid signature"); return; }
        if (!g && want) { fail("rejected", how + " rejected a valid signature"); return; }
        if (again) { uint64_t f = inj::fill_seed; inj::fill_seed = f * 31 + 7; inj::poison_stack(ps * 77 + 5); int g2 = any_verify(fr, m1, s1, p1, w); inj::fill_seed = f; if (g2 != g) { fail("history", how + " gave different answers for the same inputs"); return; } }
        (want ? acc : rej)++;
    };
    for (auto &o : p.ops) {
        if (c.bad()) break;
        if (o.s(0) == "pub") { int k = (int)o.u(1) % 3; uint32_t i = (uint32_t)(o.u(2) % (1u << N.keys[k]->h)); N.pub(k, i, gen_msg(o.u(3), o.u(4))); c.evb("pub", N.net.back().s); c.count("messages"); }
        else if (o.s(0) == "tall") N.tall(o, c);
        else if (o.s(0) == "rx") { Bytes m, s, pk; unsigned w; int front, kinds; if (!N.triple(o, m, s, pk, w, front, c, kinds)) continue; judge(m, s, pk, w, front, kinds, o.u(16), o.u(5) + 11, kinds ? "a damaged triple" : "an untouched triple"); }
        else if (o.s(0) == "forge") {
            auto &k = *N.keys[o.u(1) % 3]; uint32_t cap = 1u << k.h, i = (uint32_t)(o.u(2) % cap); Bytes m = gen_msg(o.u(3), 40), root = k.root(), pk = k.pk(); uint32_t ci = i; std::string what;
            if (o.u(4) == 0) { size_t b = o.u(5) % 4 == 0 ? 31 : o.u(5) % 4 == 1 ? 0 : o.u(5) % 32; root[b] ^= (uint8_t)(1 << (o.u(2) % 8)); pk[3 + b] = root[b]; what = "a signature made for a root differing in one bit"; }
            else if (o.u(4) == 1) { ci = i + cap * (uint32_t)(1 + o.u(5) % 3); what = "a signature claiming an index beyond the tree"; }
            else { ci = (i + 1 + (uint32_t)o.u(5) % (cap - 1)) % cap; what = "a signature claiming another leaf's index"; }
            Bytes s = k.sign_as(i, m, root, ci); c.count("fault_dishonest_signer"); judge(m, s, pk, N.w, (int)o.u(6) % 2 && N.w == 16 ? 1 : o.u(6) ? 2 : 0, 16, false, 3, what.c_str());
        } else if (o.s(0) == "noise") {  // other work in between must not matter
            try { switch (o.u(1)) {
                case 0: { XmssFast f(wseed(7), 4, (eHashFunction)(o.u(2) % 3)); f.sign({1, 2}); break; }
                case 1: XmssBase::verify(gen_msg(o.u(2), 9), gen_msg(o.u(2), o.u(2) % 9000), gen_msg(o.u(2) + 1, 67), o.u(2) % 2 ? 4 : 16); break;
                case 2: { XmssBasic b(wseed(8), 4, (eHashFunction)(o.u(2) % 3), SHA256_2X, o.u(2) % 2 ? 4 : 16); b.sign({3}); break; }
                case 3: XmssBase::verify({}, {}, {}, 16); break;
                case 4: XmssBase::verify(gen_msg(1, 3), N.net.empty() ? Bytes() : N.net[0].s, gen_msg(o.u(2), 67), 16); break;
                default: inj::fill_seed = o.u(2) | 1;
            } } catch (const std::exception &e) { if (o.u(1) != 0 && o.u(1) != 2) fail("threw", std::string("verification threw ") + e.what()); }
            c.ev("noise"); c.count("interleaved_work");
        }
    }
    c.nontrivial = acc > 0 && rej > 0;
}
static void gen_split(Rng &r, Plan &p) {
    p.set("mode", r.pickw({4, 46, 50})); p.set("hash", r.below(3)); p.set("h", p.cu("mode") == 2 ? 4 + 2 * r.below(3) : 4); p.set("w", r.chance(1, 4) ? 4 : 16); p.set("sid", r.below(4)); p.set("fill", r.next() | 1); p.set("hashB", r.below(3)); p.set("hB", 4);
    p.op("pub", r.below(3), r.below(1 << 20), r.below(100000), 32);
    Plan t; gen_net_ops(r, t, 12, true); for (auto &o : t.ops) if (o.s(0) != "noise") p.ops.push_back(o);
    for (int i = 0; i < 14; i++) { sim::Line l; l.w = {"addr", std::to_string(r.below(3)), std::to_string(r.below(1 << 16)), std::to_string(r.below(39 * 8)), std::to_string(r.below(6))}; gen_mut(r, l.w, 39); l.w.push_back(std::to_string(r.pickw({50, 35, 15}))); p.ops.push_back(l); }
}
static void exec_split(const Plan &p, Ctx &c) {
    RunScope rs; if (!rust_available()) { c.ev("skip"); return; }
    Net N(p, true); shape_params(c, N.q, 9); int n = 0;
    auto judge = [&](const Bytes &m, const Bytes &s, const Bytes &pk, unsigned w, const char *what) {
        int a = any_verify(CF, m, s, pk, w), b = any_verify(RF, m, s, pk, w), j = w == 16 ? any_verify(JF, m, s, pk, w) : any_verify(JB, m, s, pk, w);
        c.ev("split " + std::to_string(a) + std::to_string(b) + std::to_string(j)); n++; c.shu(100 + a);
        if ((a == 1) != (b == 1) || (a == 1) != (j == 1)) c.fail("C17", "verdict-split", std::string("validators disagree on ") + what + ": C++ " + std::to_string(a) + ", Rust " + std::to_string(b) + ", JavaScript " + std::to_string(j) + " (message " + std::to_string(m.size()) + ", signature " + std::to_string(s.size()) + ", key " + sim::hex(pk).substr(0, 6) + ".., w=" + std::to_string(w) + ")");
        else if (b == -1) c.fail("C17", "rust-panic", std::string("Rust verification panicked on ") + what);
    };
    for (auto &o : p.ops) {
        if (c.bad()) break;
        if (o.s(0) == "pub") { int k = (int)o.u(1) % 3; uint32_t i = (uint32_t)(o.u(2) % (1u << N.keys[k]->h)); N.pub(k, i, gen_msg(o.u(3), std::min<uint64_t>(o.u(4), 70000))); c.evb("pub", N.net.back().s); }
        else if (o.s(0) == "tall") N.tall(o, c);
        else if (o.s(0) == "rx") { Bytes m, s, pk; unsigned w; int front, kinds; if (!N.triple(o, m, s, pk, w, front, c, kinds)) continue; judge(m, s, pk, w, kinds ? "a damaged triple" : "an untouched triple"); }
        else if (o.s(0) == "forge") { auto &k = *N.keys[o.u(1) % 3]; uint32_t cap = 1u << k.h, i = (uint32_t)(o.u(2) % cap); Bytes m = gen_msg(o.u(3), 40), root = k.root(), pk = k.pk(); uint32_t ci = i; if (o.u(4) == 0) { size_t b = o.u(5) % 2 ? 31 : o.u(5) % 32; root[b] ^= 1; pk[3 + b] ^= 1; } else ci = i + cap; judge(m, k.sign_as(i, m, root, ci), pk, N.w, "a dishonest signer's triple"); c.count("fault_dishonest_signer"); }
        else if (o.s(0) == "addr") {
            Bytes a = ref::address(N.keys[o.u(1) % 3]->pk());
            switch (o.u(4)) { case 0: break; case 1: a[0] = (uint8_t)o.u(2); break; case 2: a[1] = (uint8_t)(o.u(2) & 0x8000 ? o.u(2) & 15 : o.u(2)); break; case 3: a[2] = (uint8_t)o.u(2); break; case 4: a[0] = (uint8_t)o.u(2); a[1] = (uint8_t)(o.u(2) >> 8); break; default: a = apply_mut(a, (int)o.u(5), o.u(6), o.u(7)); }
            if (o.u(4) >= 1 && o.u(4) <= 4) { Bytes h = ref::sha256(Bytes(a.begin(), a.begin() + 35)); std::copy(h.begin() + 28, h.end(), a.begin() + 35); 
                // ... and then damaged on the way
                if (o.u(8) == 1) a[35 + o.u(3) / 8 % 4] ^= (uint8_t)(1u << (o.u(3) % 8)); else if (o.u(8) == 2) a = apply_mut(a, (int)o.u(5), o.u(6), o.u(7)); }
            int x = any_addr_valid(0, a), y = any_addr_valid(3, a), z = any_addr_valid(1, a); n++; c.ev("addr " + std::to_string(x) + std::to_string(y)); c.count("fault_addr_damage"); c.shu(200 + x);
            if ((x == 1) != (y == 1) || (x == 1) != (z == 1)) c.fail("C17", "address-split", "C++ says " + std::to_string(x) + ", Rust " + std::to_string(y) + ", JavaScript " + std::to_string(z) + " about address " + sim::hex(a));
        }
    }
    c.nontrivial = n > 2;
}
static sim::Reg r1({"net", gen_net, exec_net}, {{"C12", "", 1}});
static sim::Reg r2({"split", gen_split, exec_split}, {{"C17", "", 2}});
