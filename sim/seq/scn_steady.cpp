// steady: a service repeats the same day over and over, failures included; it must not hold more memory
// or more open files after each (C23).
#include "net.h"
#include <xmssFast.h>
#include <xmssBasic.h>
#include <qrlHelper.h>
#include <misc.h>
#include <hashing.h>
#include <dilithium.h>
#include <kyber.h>
#include "ideal.h"
#include <cerrno>
using emscripten::Val;
static void gen_steady(Rng &r, Plan &p) {
    bool rust = r.chance(1, 8); p.set("rust", rust); p.set("mode", rust ? 1 : r.chance(1, 12) ? 1 : 2); p.set("hash", r.below(3)); p.set("h", 4); p.set("w", r.chance(1, 3) ? 4 : 16); p.set("sid", r.below(6)); p.set("fill", r.next() | 1); p.set("hashB", r.below(3)); p.set("hB", 4);
    p.op("pub", r.below(3), r.below(1 << 20), r.below(100000), 32); int n = 3 + (int)r.below(rust ? 4 : 9);
    for (int i = 0; i < n; i++) {
        sim::Line l; l.w = {"do", r.chance(1, 3) ? std::to_string(1 + r.below(r.chance(1, 2) ? 8 : 60)) : "0"};   // the allocation that fails, if any
        auto add = [&](std::initializer_list<uint64_t> v) { for (auto x : v) l.w.push_back(std::to_string(x)); };
        if (rust && r.chance(3, 4)) switch (r.below(5)) {
            case 0: l.w.push_back("life"); add({4 + r.below(2), r.below(4), r.below(20), r.below(1000), r.below(3)}); break;
            case 1: l.w.push_back("verify"); add({(uint64_t)RF, r.below(1 << 20), r.below(17), r.below(1 << 16), r.below(1 << 16)}); break;
            case 2: l.w.push_back("codec"); add({3, r.below(12), r.below(1 << 20), r.below(80)}); break;
            case 3: l.w.push_back("rpool"); add({r.below(4), 1 + r.below(4), r.below(1000), r.below(4)}); break;
            default: l.w.push_back("addr"); add({3, r.below(1 << 16)}); break;
        } else switch (r.pickw({34, 14, 10, 12, 10, 8, 6, 6})) {
            case 0: l.w.push_back("life"); add({r.below(4), r.below(4), r.below(20), r.below(1000), r.below(3)}); break;
            case 1: l.w.push_back("verify"); add({r.below(4), r.below(1 << 20), r.below(17), r.below(1 << 16), r.below(1 << 16)}); break;
            case 2: l.w.push_back("codec"); add({r.below(2), r.below(12), r.below(1 << 20), r.below(80)}); break;
            case 3: l.w.push_back("copy"); add({r.below(2), r.below(6), r.below(14), r.below(1000)}); break;
            case 4: l.w.push_back("seed"); add({r.below(200), r.below(8), r.below(200), r.below(5)}); break;
            case 5: l.w.push_back("dil"); add({r.below(4), r.below(300), r.below(4000), r.below(7)}); break;
            case 6: l.w.push_back("kyb"); add({r.below(4), r.below(3000), r.below(7)}); break;
            default: l.w.push_back("addr"); add({r.below(3), r.below(1 << 16)}); break;
        }
        p.ops.push_back(l);
    }
}
static void exec_steady(const Plan &p, Ctx &c) {
    int64_t b0, y0; if (!inj::live(b0, y0)) { c.ev("skip"); return; }
    RunScope rs; bool rust = p.cu("rust") && rust_available(); Net N(p, rust); shape_params(c, N.q, 12 + rust); auto k = N.keys[0]; Bytes ext = k->ext_seed(), pk = k->pk(); std::string hexs = ref::to_hex(ext), mn = ref::to_mnemonic(ext, words()); int did = 0, failed = 0, left_open = 0;
    for (auto &o : p.ops) if (o.s(0) == "pub") { int j = (int)o.u(1) % 3; N.pub(j, (uint32_t)(o.u(2) % (1u << N.keys[j]->h)), gen_msg(o.u(3), 40)); }
    Bytes addr = ref::address(pk), pk2 = N.keys[1]->pk(); auto kd = std::make_shared<ref::Key>(*k);
    auto one = [&](const sim::Line &o) {
        std::string op = o.s(2), err;
        if (op == "life") { int kind = (int)o.u(3) % 6; if (is_rust(kind) && !rust) return; unsigned w = is_fast(kind) && !is_rust(kind) ? 16 : N.w; WalletP x = o.u(4) == 0 ? make_wallet(kind, wseed(N.q.sid), 4, N.q.hash, w, err) : restore_wallet(kind, (int)o.u(4), ext, hexs, mn, w, err); if (!x) throw std::runtime_error(err);
            int n = (int)o.u(5); if (is_rust(kind)) n %= 5; Bytes s; for (int i = 0; i < n; i++) { Bytes m = gen_msg(o.u(6) + i, 40 * (o.u(6) % 9)); if (i % 7 == 3 && o.u(7)) x->set_index(o.u(7) == 1 ? 0 : 99); if (i % 5 == 4) x->set_index(x->index() + 1); x->sign(m, s); } x->pk(); x->ext_seed(); x->address(); x->sk(); x->hexseed(); x->mnemonic(); x->remaining(); }
        else if (op == "verify") { if (N.net.empty()) return; auto &t = N.net[o.u(4) % N.net.size()]; Bytes s = sig_mut(t.s, (int)o.u(5), o.u(6), o.u(7), *kd, t.s), q = o.u(7) % 3 ? t.pk : pk_mut(t.pk, (int)o.u(5) % 13, o.u(6), o.u(7), pk2); any_verify((int)o.u(3), t.m, s, q, N.w); any_verify((int)o.u(3), t.m, t.s, t.pk, N.w); }
        else if (op == "codec") { int lang = (int)o.u(3), w = (int)o.u(4); Bytes b = gen_msg(o.u(5), o.u(6)); std::string t = w < 4 ? text_mut(hexs, (int)o.u(5) % 11, o.u(5), o.u(6)) : words_mut(mn, (int)o.u(5) % 11, o.u(5), o.u(6));
            if (lang == 3) { Bytes in = w == 2 || w == 3 ? Bytes(t.begin(), t.end()) : w == 1 ? Bytes(mn.begin(), mn.end()) : b, out(70000); size_t n; if (w == 1 && o.u(5) % 2) in = Bytes(t.begin(), t.end()); if (w >= 8 && in.size() < 2) return; rs_codec(w % 12, in.data(), in.size(), out.data(), out.size(), &n); return; }
            switch (w) { case 0: case 1: if (lang) js("jsqrlwrapper::hstr2bin", {Val(t)}); else hstr2bin(t); break; case 2: bin2hstr(b, (uint32_t)o.u(6) % 5); break; case 3: bin2mnemonic(b); break; case 4: case 5: case 6: if (lang) js("jsqrlwrapper::mnemonic2bin", {Val(t)}); else mnemonic2bin(t); break; case 7: getHashChainSeed(b, (uint32_t)o.u(5), (uint32_t)o.u(6) % 20); break; case 8: shake256(o.u(6), b); shake128(o.u(6), b); break; case 9: sha2_256(b); sha2_256_n(b, o.u(6) % 5); break; case 10: if (lang) js("jsqrlwrapper::Xmss.fromHexSeed", {Val(t)}); else QRLDescriptor::fromExtendedSeed(b); break; default: if (lang) js("jsqrlwrapper::getHeight", {Val("Q" + ref::to_hex(b))}); else QRLHelper::getAddress(b); } }
        else if (op == "copy") { auto hf = (eHashFunction)N.q.hash; Bytes m = gen_msg(o.u(6), 33);
            auto f = [&](auto a, auto b) { typedef typename std::decay<decltype(a)>::type T; for (uint64_t i = 0; i < o.u(5); i++) a.sign(m); switch (o.u(4)) { case 0: b = a; b.sign(m); break; case 1: { T d(a); d.sign(m); a.sign(m); break; } case 2: a = std::move(b); a.sign(m); break; case 3: std::swap(a, b); a.sign(m); b.sign(m); break; case 4: { std::vector<T> v; for (int i = 0; i < 3; i++) v.push_back(a); v.erase(v.begin()); v[0].sign(m); break; } default: a = a; a.sign(m); } };
            if (o.u(3)) f(XmssFast(wseed(3), 4, hf), XmssFast(wseed(4), 6, hf)); else f(XmssBasic(wseed(3), 4, hf, SHA256_2X, N.w), XmssBasic(wseed(4), 4, hf, SHA256_2X, 16)); }
        else if (op == "seed") { inj::ent = inj::Entropy(); inj::ent.stream_seed = o.u(3) * 2 + 1; int f = (int)o.u(4); if (f == 1) inj::ent.open_errno = ENOENT; if (f == 2) inj::ent.open_errno = EMFILE; if (f >= 3 && f < 7) { if (o.u(3) > 1) inj::ent.script.push_back({0, 1 + o.u(5) % o.u(3)}); inj::ent.script.push_back({f - 2, 1}); } inj::ent.armed = true; struct D { ~D() { inj::ent.armed = false; } } d; getRandomSeed((uint32_t)o.u(3), std::string(o.u(5) % 50, 'e')); }
        else if (op == "dil") { ideal::seed_random(5); if (o.u(3) % 2) { auto J = [](const char *f) { return std::string("jsdilwrapper::Dilithium.") + f; }; Val d = js(J("empty"), {}); std::string s = js(J("sign"), {Val(ref::to_hex(gen_msg(1, o.u(4))))}, d.o.get()).s; if (o.u(3) == 3 && s.size()) s[o.u(5) % s.size()] = 'x'; js(J("sign_open"), {Val(""), Val(s), js(J("getPK"), {}, d.o.get())}); js(J("extract_message"), {Val(s)}); }
            else { Dilithium d; Bytes m = gen_msg(1, o.u(4)), s = d.sign(m), out; if (o.u(3) == 2) s = apply_mut(s, 1 + (int)o.u(6), o.u(5), o.u(5)); Dilithium::sign_open(out, s, d.getPK()); Dilithium::extract_message(s); Dilithium::extract_signature(s); Dilithium e(d.getPK(), d.getSK()); Dilithium g(m, m); } }
        else if (op == "kyb") { ideal::seed_random(6); Kyber a, b; a.kem_encode(b.getPK()); Bytes ct = a.getCypherText(); if (o.u(3)) ct = apply_mut(ct, 1 + (int)o.u(5), o.u(4), o.u(4)); b.kem_decode(ct); Kyber d(a.getPK(), a.getSK()); if (o.u(3) > 1) { auto J = [](const char *f) { return std::string("jskybwrapper::Kyber.") + f; }; Val v = js(J("empty"), {}); js(J("kem_encode"), {Val(ref::to_hex(ct)), Val("")}, v.o.get()); } Kyber e(ct, ct); }
        else if (op == "addr") { Bytes a = addr; if (o.u(4) % 3) a[o.u(4) % 39] ^= 1; if (o.u(4) % 7 == 0) a.pop_back(); any_addr_valid((int)o.u(3), a); }
        else if (op == "rpool" && rust && rs_pool_new) { rs_sched(o.u(5) | 1, (uint32_t)o.u(6)); Bytes base = wseed(901); void *P = rs_pool_new(base.data(), base.size(), 4, o.u(5) % 9, o.u(3)); for (uint64_t i = 0; i < o.u(4); i++) { int rc; void *t = rs_pool_next(P, &rc); if (t) rs_free(t); rs_pool_available(P); } rs_pool_free(P); rs_sched(1, 0); }
    };
    const int ROUNDS = 6; int64_t bl[ROUNDS], by[ROUNDS]; std::vector<std::string> what; std::vector<std::vector<int64_t>> per(ROUNDS); for (auto &v : per) v.reserve(p.ops.size() + 1);
    for (int r = 0; r < ROUNDS; r++) {
        for (auto &o : p.ops) {
            if (o.s(0) != "do") continue; uint64_t fa = o.u(1); int64_t a0, a1, z; inj::live(a0, z); bool threw = false;
            // everything this iteration allocates for itself is released before the second reading
            try { if (fa) inj::alloc_arm((int64_t)fa - 1); one(o); } catch (...) { threw = true; }
            bool fired = fa && inj::alloc_fired(); inj::alloc_disarm(); if (o.s(2) == "seed" && inj::ent.files > 0) left_open++; inj::ent = inj::Entropy();
            inj::live(a1, z); per[r].push_back(a1 - a0); if (r == 0) { did++; failed += threw || fired; c.ev(o.s(2) + std::to_string(threw)); c.shu(sim::hash_str(o.s(2)) + threw + o.u(3) * 8); c.count("operations"); if (fired) c.count("fault_alloc"); if (threw) c.count("failed_operations"); }
        }
        inj::live(bl[r], by[r]);
    }
    bool grow = true; for (int r = 3; r < ROUNDS; r++) { if (!(bl[r] > bl[r - 1] && by[r] > by[r - 1])) grow = false; }
    if (grow) { std::string who; size_t j = 0; for (auto &o : p.ops) if (o.s(0) == "do") { if (j < per[4].size() && per[3][j] > 0 && per[4][j] > 0) who += " " + o.s(2) + (o.u(1) ? " with failing allocation " + o.s(1) : ""); j++; } c.fail("C23", "memory", "repeating the same operations keeps taking memory: " + std::to_string(bl[ROUNDS - 1] - bl[ROUNDS - 2]) + " blocks, " + std::to_string(by[ROUNDS - 1] - by[ROUNDS - 2]) + " bytes more each time;" + who); }
    if (left_open) c.fail("C23", "files", "a random-seed request left its file open");
    c.nontrivial = did > 1 && failed > 0;
}
static sim::Reg r1({"steady", gen_steady, exec_steady}, {{"C23", "", 1}});
