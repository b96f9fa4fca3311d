// rback: a Rust program reads backups, addresses and signed messages from damaged storage and from a
// hostile network (C22).
#include "net.h"
static void gen_rback(Rng &r, Plan &p) {
    p.set("mode", r.pickw({2, 33, 65})); p.set("hash", r.below(3)); p.set("h", 4); p.set("w", r.chance(1, 4) ? 4 : 16); p.set("sid", r.below(6)); p.set("fill", r.next() | 1); p.set("hashB", r.below(3)); p.set("hB", 4);
    p.op("pub", r.below(3), r.below(1 << 20), r.below(100000), 32); int n = 22;
    for (int i = 0; i < n; i++) switch (r.pickw({22, 10, 16, 12, 14, 14, 6, 6})) {
        case 0: { sim::Line l; l.w = {"addr", std::to_string(r.below(3)), std::to_string(r.below(6)), std::to_string(r.below(1 << 16)), std::to_string(r.below(3))}; gen_mut(r, l.w, 39); p.ops.push_back(l); break; }
        case 1: p.op("epk", r.below(3), r.chance(1, 4) ? 99 : r.below(13), r.below(1 << 16), r.below(1 << 16)); break;
        case 2: { Plan t; gen_net_ops(r, t, 2, true); for (auto &o : t.ops) if (o.s(0) != "noise" && o.s(0) != "forge") p.ops.push_back(o); break; }
        case 3: { sim::Line l; l.w = {"ext"}; gen_mut(r, l.w, 51); p.ops.push_back(l); break; }
        case 4: { sim::Line l; l.w = {"hex", std::to_string(r.below(1 << 20)), std::to_string(r.chance(1, 2) ? 0 : r.below(40))}; gen_text_mut(r, l.w); l.w.push_back(std::to_string(r.chance(1, 5) ? 1 + r.below(6) : 0)); p.ops.push_back(l); break; }
        case 5: { sim::Line l; l.w = {"mn", std::to_string(r.below(1 << 20)), std::to_string(r.chance(1, 2) ? 0 : 3 * (1 + r.below(20))), std::to_string(r.below(3))}; gen_text_mut(r, l.w); l.w.push_back(std::to_string(r.chance(1, 6) ? 1 + r.below(6) : 0)); p.ops.push_back(l); break; }
        case 6: p.op("desc", r.below(1 << 24), r.below(5)); break;
        default: p.op("junk", r.below(1 << 30), r.below(120), r.below(12)); break;
    }
}
static std::string uni(std::string s, int k, uint64_t a) { static const char *t[] = {"", "\xc3\xa9", "\xef\xbc\x91", "\xe2\x84\xaa", "\xc2\xa0", "\xff", "\xf0\x9f\x94\x91"}; if (k < 1 || k > 6) return s; s.insert(a % (s.size() + 1), t[k]); if (a % 3 == 0 && s.size() > 1) s.pop_back(); return s; }
static bool ascii(const std::string &s) { for (unsigned char ch : s) if (ch >= 128) return false; return true; }
static void exec_rback(const Plan &p, Ctx &c) {
    RunScope rs; if (!rust_available()) { c.ev("skip"); return; }
    Net N(p, true); shape_params(c, N.q, 11); auto k = N.keys[0]; Bytes ext = k->ext_seed(), ext2 = N.keys[1]->ext_seed(), pk = k->pk(); int good = 0, bad = 0;
    auto fail = [&](const char *cls, const std::string &m) { c.fail("C22", cls, m); };
    auto codec = [&](int op, const Bytes &in, Bytes &o, const std::string &what) { o.assign(65536, 0); size_t n = 0; Bytes i = in; i.shrink_to_fit(); int rc = rs_codec(op, i.data(), i.size(), o.data(), o.size(), &n); o.resize(rc ? 0 : n); c.ev(std::to_string(op) + " rc=" + std::to_string(rc)); c.shu(op * 4 + rc); if (rc == 2) fail("panic", what + " panicked"); (rc ? bad : good)++; return rc; };
    auto B = [](const std::string &s) { return Bytes(s.begin(), s.end()); };
    auto same_wallet = [&](const Bytes &e) { return e.size() == 51 && e[0] == ext[0] && e[1] == ext[1] && std::equal(e.begin() + 3, e.end(), ext.begin() + 3); };
    auto try_ext = [&](const Bytes &e, const std::string &what) {
        bool valid = e.size() == 51 && e[0] <= 2 && e[1] >> 4 == 0; unsigned h = valid ? (e[1] & 15) * 2 : 0; if (valid && h > 6) return;
        std::string err; auto w = restore_wallet(RF, 1, e, "", "", 16, err); c.ev("ext " + std::to_string(!!w)); c.shu(90 + !!w); (w ? good : bad)++;
        if (w && !valid) return fail("ext-invalid", what + " with an invalid descriptor was accepted: " + sim::hex(e).substr(0, 6));
        if (!w && same_wallet(e)) return fail("ext-lost", what + " is the original backup but was refused");
        if (w && h < 4) return fail("ext-height", what + " describing a tree of height " + std::to_string(h) + " was accepted");
        if (w && (w->height() != (int)h || w->pk() != ref::key(Bytes(e.begin() + 3, e.end()), e[0] & 15, h, 16)->pk())) return fail("ext-wrong", what + ": the restored wallet is not the one the bytes describe (" + sim::hex(e) + ")");
    };
    for (auto &o : p.ops) {
        if (c.bad()) break;
        std::string op = o.s(0); Bytes out;
        if (op == "pub") { int j = (int)o.u(1) % 3; uint32_t i = (uint32_t)(o.u(2) % (1u << N.keys[j]->h)); N.pub(j, i, gen_msg(o.u(3), std::min<uint64_t>(o.u(4), 70000))); }
        else if (op == "tall") N.tall(o, c);
        else if (op == "rx") { Bytes m, s, kp; unsigned vw; int front, kinds; if (!N.triple(o, m, s, kp, vw, front, c, kinds)) continue; bool want = ref::verify(m, s, kp, vw); int g = any_verify(RF, m, s, kp, vw); c.ev("rx " + std::to_string(g)); c.shu(100 + g * 16 + kinds); (want ? good : bad)++;
            if (g == -1) fail("panic", "verification panicked"); else if (g != (int)want) fail(g ? "accepted" : "rejected", std::string(g ? "an invalid signature was accepted" : "a valid signature was rejected") + " (message " + std::to_string(m.size()) + ", signature " + std::to_string(s.size()) + ", key " + std::to_string(kp.size()) + " bytes, w=" + std::to_string(vw) + ")"); }
        else if (op == "addr") { Bytes a = ref::address(N.keys[o.u(1) % 3]->pk()); uint64_t b = o.u(3);
            switch (o.u(2)) { case 1: a[0] = (uint8_t)b; break; case 2: a[1] = (uint8_t)(b & 0x8000 ? b & 15 : b); break; case 3: a[2] = (uint8_t)b; break; case 4: a[0] = (uint8_t)b; a[1] = (uint8_t)(b >> 8 & 15); break; }
            if (o.u(2) >= 1 && o.u(2) <= 4) { Bytes h = ref::sha256(Bytes(a.begin(), a.begin() + 35)); std::copy(h.begin() + 28, h.end(), a.begin() + 35); }
            if (o.u(4) == 1) a[35 + b % 4] ^= (uint8_t)(1u << (b >> 8) % 8); else if (o.u(4) == 2 || o.u(2) == 5) a = apply_mut(a, (int)o.u(5), o.u(6), o.u(7)); c.count("fault_addr_damage");
            bool want = ref::address_valid(a); a.shrink_to_fit(); int g = any_addr_valid(3, a); c.ev("addr " + std::to_string(g)); c.shu(20 + g); (want ? good : bad)++; if (g == -1) fail("panic", "address validity panicked for " + sim::hex(a)); else if (g != (int)want) fail(g ? "addr-accepted" : "addr-rejected", "address " + sim::hex(a) + (g ? " reported valid" : " reported invalid")); }
        else if (op == "epk") { Bytes e = N.keys[o.u(1) % 3]->pk(); if (o.u(2) < 13) { e = pk_mut(e, (int)o.u(2), o.u(3), o.u(4), N.keys[(o.u(1) + 1) % 3]->pk()); c.count("fault_key_damaged"); }
            bool want = e.size() == 67 && e[0] <= 2 && e[1] >> 4 == 0; int rc = codec(4, e, out, "the address of a public key"); if (c.bad()) break; if ((rc == 0) != want) fail(want ? "refused" : "answered", "public key " + sim::hex(e) + (want ? " was refused" : " was given an address")); else if (want && out != ref::address(e)) fail("wrong", "the address of public key " + sim::hex(e) + " is wrong"); }
        else if (op == "ext") { c.count("fault_ext_damage"); try_ext(apply_mut(ext, (int)o.u(1), o.u(2), o.u(3), &ext2), "a damaged extended seed"); }
        else if (op == "hex") { Bytes b = o.u(2) ? gen_msg(o.u(1), o.u(2) % 300) : ext; std::string t0 = ref::to_hex(b); codec(2, b, out, "hex encoding"); if (c.bad()) break; if (out != B(t0)) { fail("wrong", "hex encoding is wrong"); break; }
            std::string t = uni(text_mut(t0, (int)o.u(3), o.u(4), o.u(5)), (int)o.u(6), o.u(4)); c.count("fault_text_damage"); Bytes d; bool want = ref_hex(t, d); int rc = codec(3, B(t), out, "decoding hex text '" + t + "'"); if (c.bad()) break;
            if ((rc == 0) != want || out != (want ? d : Bytes())) { fail(want ? rc ? "refused" : "wrong" : "answered", "hex text '" + t + "' decoded to " + (rc ? "an error" : sim::hex(out))); break; } if (rc == 0 && !o.u(2)) try_ext(out, "a wallet from a damaged hex seed"); }
        else if (op == "mn") { Bytes b = o.u(2) ? gen_msg(o.u(1), o.u(2) % 300) : ext; if (b.size() % 3) { if (codec(0, b, out, "mnemonic encoding") == 0) fail("answered", "bytes that do not fit were encoded"); continue; } std::string m = ref::to_mnemonic(b, words()); codec(0, b, out, "mnemonic encoding"); if (c.bad()) break; if (out != B(m)) { fail("wrong", "mnemonic encoding is wrong"); break; }
            std::string t = o.u(3) == 1 ? text_mut(m, (int)o.u(4), o.u(5), o.u(6)) : o.u(3) == 2 ? words_mut(m, (int)o.u(4), o.u(5), o.u(6)) : m; t = uni(t, (int)o.u(7), o.u(5)); if (t != m) c.count("fault_text_damage"); Bytes d; bool want = ref_mnemonic(t, d); int rc = codec(1, B(t), out, "decoding mnemonic '" + t + "'"); if (c.bad()) break;
            if (!ascii(t)) { if (rc == 0 && out == b && o.u(7) != 4) fail("answered", "mnemonic '" + t + "' decoded to the original"); continue; }   // whether exotic spaces separate words is not specified
            if ((rc == 0) != want || out != (want ? d : Bytes())) { fail(want ? rc ? "refused" : "wrong" : "answered", "mnemonic '" + t + "' decoded to " + (rc ? "an error" : sim::hex(out))); break; } if (rc == 0 && !o.u(2)) try_ext(out, "a wallet from a damaged mnemonic"); }
        else if (op == "desc") { Bytes b = {(uint8_t)o.u(1), (uint8_t)(o.u(1) >> 8), (uint8_t)(o.u(1) >> 16)}; if (o.u(2) < 3) b[0] %= 4; if (o.u(2) < 2) b[1] &= 15; if (o.u(2) == 4) b.resize(o.u(1) % 6); bool want = b.size() == 3 && b[0] <= 2 && b[1] >> 4 == 0; int rc = codec(6, b, out, "decoding a descriptor"); if (c.bad()) break;
            if ((rc == 0) != want || (want && out != Bytes{b[0], b[1], 0, (uint8_t)((b[1] & 15) * 2)})) fail(want ? "wrong" : "answered", "descriptor " + sim::hex(b) + " decoded to " + (rc ? "an error" : sim::hex(out))); }
        else if (op == "junk") { Bytes b = gen_msg(o.u(1), o.u(2)); c.count("fault_junk"); int kd = (int)o.u(3); if (kd <= 4) codec(kd, b, out, "feeding arbitrary bytes to codec " + std::to_string(kd)); else if (kd == 5) try_ext(b, "arbitrary bytes"); else if (kd == 6) codec(6, b, out, "an arbitrary descriptor"); else { int g = any_verify(RF, gen_msg(o.u(1) + 1, 9), gen_msg(o.u(1) + 2, o.u(1) % 5000), kd < 9 ? b : pk, kd % 2 ? 16 : 4); c.ev("v" + std::to_string(g)); if (g) fail(g < 0 ? "panic" : "accepted", "verification of arbitrary bytes"); } }
    }
    c.nontrivial = good > 2 && bad > 2;
}
static sim::Reg r1({"rback", gen_rback, exec_rback}, {{"C22", "", 1}});
