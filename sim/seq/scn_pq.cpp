// dil: signed messages over a hostile channel (C15). kyb: key exchange over a hostile channel (C16).
#include "mutate.h"
#include "ideal.h"
#include <dilithium.h>
#include <kyber.h>
#include <misc.h>
using emscripten::Val;
static std::string hx(const Bytes &b) { return ref::to_hex(b); }
static Bytes unhx(const std::string &s) { return hstr2bin(s); }
static size_t odd_size(Rng &r, size_t n) { switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return n - 1; case 3: return n + 1; case 4: return n / 2; case 5: return n * 2; case 6: return r.below(n); default: return n + 1 + r.below(3000); } }

static void gen_dil(Rng &r, Plan &p) {
    p.set("rnd", r.next()); p.set("fill", r.next() | 1);
    p.op("key", r.below(2)); p.op("key", r.below(2)); if (r.chance(1, 2)) p.op("restore", r.below(2), r.below(2));
    int n = 4 + (int)r.below(14);
    for (int i = 0; i < n; i++) {
        switch (r.pickw({25, 45, 8, 8, 8, 6})) {
            case 0: p.op("send", r.below(3), r.below(100000), r.chance(1, 8) ? 0 : r.chance(1, 6) ? 2701 + (int64_t)r.below(3) - 1 : r.chance(1, 40) ? 65000 + (int64_t)r.below(70000) : r.below(300)); break;
            case 1: { std::vector<std::string> a{"open", std::to_string(r.below(2)), std::to_string(r.below(8)), std::to_string(r.below(3))};
                int t = r.pickw({25, 45, 25, 5}); a.push_back(std::to_string(t)); gen_mut(r, a, 2701 + 64); gen_mut(r, a, 1472); a.push_back(std::to_string(r.below(4000))); sim::Line l; l.w = a; p.ops.push_back(l); break; }
            case 2: p.op("badkeys", r.below(2), r.below(3), odd_size(r, 1472), odd_size(r, 3504), r.below(3)); break;
            case 3: p.op("short", r.below(2), r.chance(1, 2) ? r.below(2701) : (uint64_t[]){0, 1, 2700, 2701, 2702, 64}[r.below(6)], r.below(3)); break;
            case 4: p.op("restore", r.below(3), r.below(2)); break;
            default: p.op("text", r.below(8), r.below(6), r.below(6000)); break;
        }
    }
}
static void exec_dil(const Plan &p, Ctx &c) {
    RunScope rs; ideal::seed_random(p.cu("rnd")); inj::fill_seed = p.cu("fill");
    struct Party { bool jsp; std::unique_ptr<Dilithium> d; Val j; Bytes pk, sk; };
    std::vector<Party> ps; struct Blob { Bytes b, msg; size_t owner; }; std::vector<Blob> net; int opened = 0, refused = 0; Bytes kept;
    auto J = [](const char *f) { return std::string("jsdilwrapper::Dilithium.") + f; };
    auto fail = [&](const char *cls, const std::string &m) { c.fail("C15", cls, m); };
    auto addp = [&](bool jsp, const Bytes *pk, const Bytes *sk) {
        Party q; q.jsp = jsp;
        if (jsp) { q.j = pk ? js(J("fromKeys"), {Val(hx(*pk)), Val(hx(*sk))}) : js(J("empty"), {}); q.pk = unhx(js(J("getPK"), {}, q.j.o.get()).s); q.sk = unhx(js(J("getSK"), {}, q.j.o.get()).s);
            if (js(J("getPKRaw"), {}, q.j.o.get()).b != q.pk || js(J("getSKRaw"), {}, q.j.o.get()).b != q.sk) fail("raw-keys", "JavaScript raw and hex keys differ"); }
        else { q.d.reset(pk ? new Dilithium(*pk, *sk) : new Dilithium()); q.pk = q.d->getPK(); q.sk = q.d->getSK(); }
        if (q.pk.size() != 1472 || q.sk.size() != 3504) fail("key-size", "key pair has wrong sizes");
        if (pk && (q.pk != *pk || q.sk != *sk)) fail("restore", "restored key pair differs from the bytes it was restored from");
        ps.push_back(std::move(q));
    };
    for (auto &o : p.ops) {
        if (c.bad()) break;
        std::string op = o.s(0);
        try {
            if (op == "key") { addp(o.u(1), nullptr, nullptr); c.evb("pk", ps.back().pk); c.shu(1); }
            else if (op == "restore") { if (ps.empty()) continue; Bytes a = ps[o.u(1) % ps.size()].pk, b = ps[o.u(1) % ps.size()].sk; addp(o.u(2), &a, &b); c.ev("restored"); c.count("restores"); c.shu(2); }
            else if (op == "send") {
                if (ps.empty()) continue; size_t w = o.u(1) % ps.size(); auto &q = ps[w]; Bytes m = gen_msg(o.u(2), o.u(3)), b;
                b = q.jsp ? unhx(js(J("sign"), {Val(hx(m))}, q.j.o.get()).s) : q.d->sign(m);
                c.evb("blob", b); c.count("messages_sent"); c.shu(3);
                if (!ideal::dil_valid(b, q.pk)) { fail("sign", "a signed message of " + std::to_string(m.size()) + " bytes does not verify under the signer's key"); break; }
                if (b.size() != m.size() + 2701 || !std::equal(m.begin(), m.end(), b.begin() + 2701)) { fail("sign-layout", "signed message does not contain the message"); break; }
                net.push_back({b, m, w});
            } else if (op == "open") {
                if (ps.empty() || net.empty()) continue;
                bool viajs = o.u(1); auto &bl = net[o.u(2) % net.size()]; int t = (int)o.u(4); size_t kw = t == 3 ? o.u(3) % ps.size() : bl.owner;
                Bytes blob = bl.b, pk = ps[kw].pk; const Bytes &other = net[(o.u(2) + 1) % net.size()].b;
                if (t == 1) { blob = apply_mut(blob, (int)o.u(5), o.u(6), o.u(7), &other); c.count("fault_blob_damaged"); }
                if (t == 2) { pk = apply_mut(pk, (int)o.u(8), o.u(9), o.u(10), &ps[(kw + 1) % ps.size()].pk); c.count("fault_pk_damaged"); }
                if (t == 3) c.count("fault_wrong_receiver_key");
                bool want = ideal::dil_valid(blob, pk), got = false; std::string err; Bytes out(o.u(11) % 5 ? o.u(11) : 0, 0x77), b0 = blob, k0 = pk;
                if (o.u(11) % 7 == 1) out = blob; else if (o.u(11) % 7 == 2) out = bl.b; else if (o.u(11) % 7 >= 5) out = kept;  // the output buffer holds the blob, the genuine blob or what an earlier call left in it
                inj::poison_stack(o.u(7) + 1);
                try {
                    if (viajs) { out = unhx(js(J("sign_open"), {Val(std::string(o.u(11), 'x')), Val(hx(blob)), Val(hx(pk))}).s); got = true; }
                    else got = Dilithium::sign_open(out, blob, pk);
                    kept = out;
                } catch (const std::exception &e) { err = e.what(); got = false; if (!viajs && want) err = std::string("threw: ") + e.what(); }
                std::string how = std::string(viajs ? "JavaScript" : "C++") + " sign_open of a " + std::to_string(blob.size()) + "-byte blob under a " + std::to_string(pk.size()) + "-byte key";
                c.ev("open js=" + std::to_string(viajs) + " got=" + std::to_string(got)); c.shu(10 + t * 2 + got);
                got ? opened++ : refused++;
                if (got && !want) { fail("accepted", how + " accepted data that is not authentic"); break; }
                if (!got && want) { fail("rejected", how + " rejected an authentic message (" + err + ")"); break; }
                if (blob != b0 || pk != k0) { fail("input-changed", how + " altered its inputs"); break; }
                if (got) {
                    Bytes m(blob.begin() + 2701, blob.end());
                    if (out.size() < m.size() || !std::equal(m.begin(), m.end(), out.begin())) { fail("message", how + " did not return the signed message"); break; }
                    Bytes b2 = blob; Bytes em = Dilithium::extract_message(b2), es = Dilithium::extract_signature(b2);
                    if (em != m || es != Bytes(blob.begin(), blob.begin() + 2701) || b2 != blob) { fail("extract", "extraction helpers do not give back the signed message and signature"); break; }
                    if (viajs && unhx(js(J("extract_message"), {Val(hx(blob))}).s) != m) { fail("extract-js", "JavaScript extract_message does not give back the signed message"); break; }
                }
            } else if (op == "badkeys") {
                size_t a = o.u(2) == 1 ? 1472 : o.u(3), b = o.u(2) == 2 ? 3504 : o.u(4); if (a == 1472 && b == 3504) continue;
                Bytes pk = gen_msg(9, a), sk = gen_msg(8, b); bool threw = false; c.count("fault_wrong_size_keys"); c.shu(30 + o.u(2));
                try { if (o.u(1)) js(J("fromKeys"), {Val(hx(pk)), Val(hx(sk))}); else Dilithium(pk, sk); } catch (const std::exception &) { threw = true; }
                c.ev("badkeys threw=" + std::to_string(threw));
                if (!threw) { fail("key-size-accepted", "key pair of " + std::to_string(a) + "+" + std::to_string(b) + " bytes was accepted"); break; }
            } else if (op == "short") {
                size_t n = o.u(2); Bytes b = gen_msg(5, n); if (ps.size()) { bool got = true; Bytes out; c.count("fault_short_blob");
                    if (n < 2701) {
                        try { if (o.u(1)) js(J("sign_open"), {Val(""), Val(hx(b)), Val(hx(ps[0].pk))}); else got = Dilithium::sign_open(out, b, ps[0].pk); } catch (const std::exception &) { got = false; }
                        if (got) { fail("short-accepted", "a blob of " + std::to_string(n) + " bytes was accepted as a signed message"); break; }
                        bool threw = false; try { if (o.u(1)) js(J("extract_message"), {Val(hx(b))}); else if (o.u(3) == 1) Dilithium::extract_signature(b); else Dilithium::extract_message(b); } catch (const std::exception &) { threw = true; }
                        if (!threw) { fail("short-extract", "extraction from a blob of " + std::to_string(n) + " bytes did not fail"); break; }
                    } else { Bytes b2 = b; if (Dilithium::extract_message(b2) != Bytes(b.begin() + 2701, b.end()) || Dilithium::extract_signature(b2) != Bytes(b.begin(), b.begin() + 2701)) { fail("extract", "extraction helpers return the wrong parts"); break; } }
                    c.ev("short " + std::to_string(n)); c.shu(40 + (n < 2701)); }
            } else if (op == "text" && net.size()) {  // damage to the hexadecimal text itself
                auto &bl = net[o.u(1) % net.size()]; std::string s = hx(bl.b); size_t pos = o.u(3) % s.size();
                switch (o.u(2)) { case 0: s[pos] = 'g'; break; case 1: s.erase(pos, 1); break; case 2: s.insert(pos, "0"); break; case 3: s[pos] = ' '; break; case 4: s[pos] = (char)0xff; break; default: s[pos] = s[pos] == 'a' ? 'A' : s[pos]; }
                bool got = true, want = o.u(2) == 5; c.count("fault_text_damage");
                try { js(J("sign_open"), {Val(""), Val(s), Val(hx(ps[bl.owner].pk))}); } catch (const std::exception &) { got = false; }
                c.ev("text " + std::to_string(got)); c.shu(50 + o.u(2));
                if (got != want) { fail("text", "damaged hexadecimal text of a signed message gave the wrong verdict"); break; }
            }
        } catch (const std::exception &e) { fail("exception", op + " threw " + e.what()); }
    }
    c.nontrivial = opened + refused > 1;
}

static void gen_kyb(Rng &r, Plan &p) {
    p.set("rnd", r.next()); p.set("fill", r.next() | 1); p.set("implicit", r.chance(1, 4));
    p.op("key", r.below(2)); p.op("key", r.below(2)); if (r.chance(1, 2)) p.op("restore", r.below(2), r.below(2));
    int n = 5 + (int)r.below(16);
    for (int i = 0; i < n; i++) switch (r.pickw({30, 45, 8, 8, 6, 3})) {
        case 0: { sim::Line l; l.w = {"enc", std::to_string(r.below(4)), std::to_string(r.below(4)), std::to_string(r.pickw({70, 20, 10}))}; gen_mut(r, l.w, 1088); l.w.push_back(std::to_string(odd_size(r, 1088))); p.ops.push_back(l); break; }
        case 1: { sim::Line l; l.w = {"dec", std::to_string(r.below(8)), std::to_string(r.pickw({35, 35, 15, 15})), std::to_string(r.below(4))}; gen_mut(r, l.w, 1152); l.w.push_back(std::to_string(odd_size(r, 1152))); p.ops.push_back(l); break; }
        case 2: p.op("restore", r.below(4), r.below(2)); break;
        case 3: p.op("badkeys", r.below(2), r.below(3), odd_size(r, 1088), odd_size(r, 2400)); break;
        case 4: p.op("key", r.below(2)); break;
        default: p.op("text", r.below(8), r.below(5), r.below(2300)); break;
    }
}
static void exec_kyb(const Plan &p, Ctx &c) {
    RunScope rs; ideal::seed_random(p.cu("rnd")); inj::fill_seed = p.cu("fill"); ideal::implicit_reject = p.cu("implicit");
    struct Party { bool jsp; std::unique_ptr<Kyber> k; Val j; Bytes pk, sk; };
    std::vector<Party> ps; struct Ct { Bytes ct, key; size_t owner; bool good; }; std::vector<Ct> net; std::set<Bytes> old; int okc = 0, badc = 0;
    auto J = [](const char *f) { return std::string("jskybwrapper::Kyber.") + f; };
    auto fail = [&](const char *cls, const std::string &m) { c.fail("C16", cls, m); };
    auto key = [&](Party &q) { return q.jsp ? unhx(js(J("getMyKey"), {}, q.j.o.get()).s) : q.k->getMyKey(); };
    auto addp = [&](bool jsp, const Bytes *pk, const Bytes *sk) {
        Party q; q.jsp = jsp;
        if (jsp) { q.j = pk ? js(J("fromKeys"), {Val(hx(*pk)), Val(hx(*sk))}) : js(J("empty"), {}); q.pk = unhx(js(J("getPK"), {}, q.j.o.get()).s); q.sk = unhx(js(J("getSK"), {}, q.j.o.get()).s); }
        else { q.k.reset(pk ? new Kyber(*pk, *sk) : new Kyber()); q.pk = q.k->getPK(); q.sk = q.k->getSK(); }
        if (q.pk.size() != 1088 || q.sk.size() != 2400) fail("key-size", "key pair has wrong sizes");
        if (pk && (q.pk != *pk || q.sk != *sk)) fail("restore", "restored key pair differs from the bytes it was restored from");
        ps.push_back(std::move(q));
    };
    for (auto &o : p.ops) {
        if (c.bad()) break;
        std::string op = o.s(0);
        try {
            if (op == "key") { if (ps.size() < 6) addp(o.u(1), nullptr, nullptr); c.ev("key"); c.shu(1); }
            else if (op == "restore") { if (ps.empty() || ps.size() > 6) continue; Bytes a = ps[o.u(1) % ps.size()].pk, b = ps[o.u(1) % ps.size()].sk; addp(o.u(2), &a, &b); c.count("restores"); c.ev("restore"); c.shu(2); }
            else if (op == "enc") {
                if (ps.empty()) continue; auto &q = ps[o.u(1) % ps.size()]; size_t to = o.u(2) % ps.size(); Bytes pk = ps[to].pk; int t = (int)o.u(3);
                if (t == 1) { pk = apply_mut(pk, (int)o.u(4), o.u(5), o.u(6), &ps[(to + 1) % ps.size()].pk); c.count("fault_pk_damaged"); }
                if (t == 2) { pk = gen_msg(3, o.u(7)); c.count("fault_pk_wrong_size"); }
                bool got = q.jsp ? js(J("kem_encode"), {Val(hx(pk))}, q.j.o.get()).u : q.k->kem_encode(pk);
                c.ev("enc " + std::to_string(got)); c.shu(10 + t * 2 + got); Bytes k = key(q);
                std::string how = std::string(q.jsp ? "JavaScript" : "C++") + " kem_encode for a " + std::to_string(pk.size()) + "-byte key";
                if (pk.size() != 1088) {
                    badc++;
                    if (got) { fail("enc-size", how + " reported success"); break; }
                    if (old.count(k)) { fail("stale-key", how + " failed but the key of an earlier exchange is still held"); break; }
                    continue;
                }
                if (!got) { fail("enc-failed", how + " failed"); break; }
                Bytes ct = q.jsp ? unhx(js(J("getCypherText"), {}, q.j.o.get()).s) : q.k->getCypherText();
                if (k.size() != 32 || ct.size() != 1152) { fail("enc-sizes", how + ": key or ciphertext has the wrong size"); break; }
                if (old.count(k)) { fail("enc-stale", how + ": the key held is that of an earlier exchange"); break; }
                old.insert(k); net.push_back({ct, k, to, pk == ps[to].pk}); c.evb("ct", ct);
                if (net.back().good) { Bytes ss; if (ideal::kyb_dec(ss, ct, ps[to].sk) || ss != k) { fail("enc-key", how + ": key and ciphertext do not belong together"); break; } }
            } else if (op == "dec") {
                if (net.empty()) continue; auto &n = net[o.u(1) % net.size()]; int t = (int)o.u(2); size_t who = t == 3 ? o.u(3) % ps.size() : n.owner; if (who >= ps.size()) continue; auto &q = ps[who];
                Bytes ct = n.ct;
                if (t == 1) { ct = apply_mut(ct, (int)o.u(4), o.u(5), o.u(6), &net[(o.u(1) + 1) % net.size()].ct); c.count("fault_ct_damaged"); }
                if (t == 2) { ct = gen_msg(4, o.u(7)); c.count("fault_ct_wrong_size"); }
                if (t == 3) c.count("fault_ct_misdirected");
                bool got = q.jsp ? js(J("kem_decode"), {Val(hx(ct))}, q.j.o.get()).u : q.k->kem_decode(ct); Bytes k = key(q);
                c.ev("dec " + std::to_string(got)); c.evb("k", k); c.shu(20 + t * 2 + got); got ? okc++ : badc++;
                std::string how = std::string(q.jsp ? "JavaScript" : "C++") + " kem_decode of a " + std::to_string(ct.size()) + "-byte ciphertext";
                Bytes ss; bool auth = ct.size() == 1152 && ideal::kyb_dec(ss, ct, q.sk) == 0;
                if (auth) {
                    if (!got) { fail("dec-failed", how + " failed although it arrived unmodified"); break; }
                    if (k != ss) { fail("dec-key", how + ": the two sides hold different keys"); break; }
                    if (ct == n.ct && n.good && k != n.key) { fail("dec-key", how + ": the two sides hold different keys"); break; }
                } else {
                    if (got && ct.size() != 1152) { fail("dec-size", how + " reported success"); break; }
                    if (got && !ideal::implicit_reject) { fail("dec-accepted", how + " reported success for a ciphertext not made for this key pair"); break; }
                    if (old.count(k)) { fail("dec-stale", how + ": after a failed exchange the key of another exchange is held"); break; }
                }
            } else if (op == "badkeys") {
                size_t a = o.u(2) == 1 ? 1088 : o.u(3), b = o.u(2) == 2 ? 2400 : o.u(4); if (a == 1088 && b == 2400) continue;
                Bytes pk = gen_msg(9, a), sk = gen_msg(8, b); bool threw = false; c.count("fault_wrong_size_keys"); c.shu(30);
                try { if (o.u(1)) js(J("fromKeys"), {Val(hx(pk)), Val(hx(sk))}); else Kyber(pk, sk); } catch (const std::exception &) { threw = true; }
                c.ev("badkeys " + std::to_string(threw));
                if (!threw) { fail("key-size-accepted", "key pair of " + std::to_string(a) + "+" + std::to_string(b) + " bytes was accepted"); break; }
            } else if (op == "text" && net.size()) {
                auto &n = net[o.u(1) % net.size()]; if (n.owner >= ps.size()) continue; auto &q = ps[n.owner]; if (!q.jsp) continue;
                std::string s = hx(n.ct); size_t pos = o.u(3) % s.size();
                switch (o.u(2)) { case 0: s[pos] = 'x'; break; case 1: s.erase(pos, 1); break; case 2: s.insert(pos, "f"); break; case 3: s[pos] = '-'; break; default: s += "00"; }
                bool got = true; try { got = js(J("kem_decode"), {Val(s)}, q.j.o.get()).u; } catch (const std::exception &) { got = false; }
                c.count("fault_text_damage"); c.ev("text " + std::to_string(got)); c.shu(50 + o.u(2));
                if (got) { fail("text", "kem_decode accepted damaged hexadecimal text"); break; }
            }
        } catch (const std::exception &e) { fail("exception", op + " threw " + e.what()); }
    }
    c.nontrivial = okc > 0 && badc > 0; ideal::implicit_reject = false;
}
static sim::Reg r1({"dil", gen_dil, exec_dil}, {{"C15", "", 1}});
static sim::Reg r2({"kyb", gen_kyb, exec_kyb}, {{"C16", "", 1}});
