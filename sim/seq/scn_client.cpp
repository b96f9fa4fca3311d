// client: a JavaScript program asks the wrapper about everything that reaches it from the network and
// from storage, between signatures of its own wallet (C21).
#include "net.h"
using emscripten::Val;
static void gen_client(Rng &r, Plan &p) {
    gen_params(r, p, false, true, 6); p.set("hashB", r.below(3)); p.set("hB", 4); p.set("kind", r.chance(2, 3) ? JF : JB);
    p.op("pub", r.below(3), r.below(1 << 20), r.below(100000), 32);
    int n = p.cu("mode") == 0 ? 16 : 30;
    auto tm = [&](sim::Line &l) { l.w.push_back(std::to_string(r.pickw({45, 55}))); gen_text_mut(r, l.w); };
    for (int i = 0; i < n; i++) switch (r.pickw({26, 10, 14, 9, 9, 8, 9, 8, 5})) {
        case 0: { sim::Line l; l.w = {"addr", std::to_string(r.below(3)), std::to_string(r.below(6)), std::to_string(r.below(1 << 16)), std::to_string(r.below(31))}; tm(l); p.ops.push_back(l); break; }
        case 1: { sim::Line l; l.w = {"epk", std::to_string(r.below(3)), std::to_string(r.chance(1, 3) ? 99 : r.below(13)), std::to_string(r.below(1 << 16)), std::to_string(r.below(1 << 16))}; tm(l); p.ops.push_back(l); break; }
        case 2: { Plan t; gen_net_ops(r, t, 3, true); for (auto &o : t.ops) if (o.s(0) != "noise" && o.s(0) != "forge") p.ops.push_back(o); break; }
        case 3: { sim::Line l; l.w = {"hex", std::to_string(r.below(1 << 20)), std::to_string(r.chance(1, 4) ? r.below(3) : r.below(80))}; tm(l); p.ops.push_back(l); break; }
        case 4: { sim::Line l; l.w = {"mn", std::to_string(r.below(1 << 20)), std::to_string(r.chance(1, 2) ? 51 : 3 * r.below(20)), std::to_string(r.below(3))}; gen_text_mut(r, l.w); p.ops.push_back(l); break; }
        case 5: p.op("hash", r.below(2), r.below(1 << 20), r.chance(1, 3) ? (uint64_t[]){0, 1, 55, 56, 63, 64, 65, 119, 135, 136, 137, 167, 168, 169, 336}[r.below(15)] : r.below(700), (uint64_t[]){0, 1, 31, 32, 33, 64, 136, 167, 168, 169, 337, 1000}[r.below(12)]); break;
        case 6: p.op("own", r.below(100000), msg_len(r, r.chance(1, 4))); break;
        case 7: { sim::Line l; l.w = {"restore", std::to_string(r.below(2)), std::to_string(r.below(3))}; gen_text_mut(r, l.w); p.ops.push_back(l); break; }
        default: p.op("again", r.below(1000)); break;
    }
    for (int i = 0; i < 3; i++) p.op("again", r.below(1000));
}
static void exec_client(const Plan &p, Ctx &c) {
    RunScope rs; Net N(p); int kind = (int)p.cu("kind", JF); if (kind != JF && kind != JB) kind = JF; if (kind == JF && N.w != 16) kind = JB; shape_params(c, N.q, kind); int good = 0, refused = 0; std::string err;
    auto fail = [&](const char *cls, const std::string &m) { c.fail("C21", cls, m); };
    // a question that was asked once can be asked again later and has the same answer
    typedef std::function<std::string()> Q; std::vector<std::pair<Q, std::string>> asked;
    auto show = [](const Val &v) { return v.kind == 's' ? "s:" + v.s : v.kind == 'b' ? "b:" + sim::hex(v.b) : "u:" + std::to_string(v.u); };
    auto ask = [&](const std::string &fn, const std::vector<Val> &a) -> std::string {
        Q q = [fn, a, show]() -> std::string { try { return show(js("jsqrlwrapper::" + fn, a)); } catch (const std::exception &) { return "refused"; } };
        std::string r = q(); (r == "refused" ? refused : good)++; c.ev(fn + " " + (r.size() > 40 ? std::to_string(sim::hash_str(r)) : r)); c.shu(sim::hash_str(fn) + (r == "refused")); if (asked.size() < 64) asked.push_back({q, r}); c.count("questions"); return r;
    };
    auto must = [&](const std::string &fn, const std::vector<Val> &a, const std::string &want, const std::string &what) {
        std::string g = ask(fn, a); if (g == want) return true;
        auto cut = [](const std::string &s) { return s.size() > 90 ? s.substr(0, 90) + ".." : s; };
        fail(want == "refused" ? "answered" : g == "refused" ? "refused" : "wrong", fn + " of " + cut(what) + " gave " + cut(g) + " instead of " + cut(want)); return false;
    };
    WalletP w = make_wallet(kind, wseed(N.q.sid), (int)N.q.h, N.q.hash, N.w, err); if (!w) { fail("construct", "the JavaScript wallet cannot be made: " + err); return; }
    auto k = N.keys[0]; uint32_t idx = 0, cap = 1u << N.q.h; Bytes ext = k->ext_seed(), pk0 = k->pk();
    for (auto &o : p.ops) {
        if (c.bad()) break;
        std::string op = o.s(0);
        if (op == "pub") { int j = (int)o.u(1) % 3; uint32_t i = (uint32_t)(o.u(2) % (1u << N.keys[j]->h)); N.pub(j, i, gen_msg(o.u(3), std::min<uint64_t>(o.u(4), 70000))); }
        else if (op == "tall") N.tall(o, c);
        else if (op == "rx") { Bytes m, s, pk; unsigned vw; int front, kinds; if (!N.triple(o, m, s, pk, vw, front, c, kinds)) continue; bool want = ref::verify(m, s, pk, vw); std::string u = want ? "u:1" : "u:0";
            if (vw == 16 && front != 2) must("Xmss.verify", {Val(m), Val(s), Val(pk)}, u, "a triple from the network"); else must("XmssBasic.verify", {Val(m), Val(s), Val(pk), Val(vw)}, u, "a triple from the network"); }
        else if (op == "addr") {
            Bytes a = ref::address(N.keys[o.u(1) % 3]->pk()); uint64_t b = o.u(3);
            switch (o.u(2)) { case 1: a[0] = (uint8_t)b; break; case 2: a[1] = (uint8_t)(b & 0x8000 ? b & 15 : b); break; case 3: a[2] = (uint8_t)b; break; case 4: a[0] = (uint8_t)b; a[1] = (uint8_t)(b >> 8 & 15); break; case 5: a[b % 39] ^= (uint8_t)(1u << (b >> 8) % 8); break; }
            if (o.u(2) >= 1 && o.u(2) <= 4 && b % 3) { Bytes h = ref::sha256(Bytes(a.begin(), a.begin() + 35)); std::copy(h.begin() + 28, h.end(), a.begin() + 35); }
            std::string t = "Q" + ref::to_hex(a); if (o.u(5)) { std::string body = text_mut(t.substr(1), (int)o.u(6), o.u(7), o.u(8)); t = "Q" + body; if (o.u(6) == 3 && o.u(8) % 5 == 0) t = t.substr(0, o.u(7) % 9); c.count("fault_text_damage"); } if (o.u(2)) c.count("fault_addr_damage");
            Bytes d; bool hex = t.size() > 1 ? ref_hex(t.substr(1), d) : false; bool desc = hex && d.size() >= 3 && (d[0] & 15) <= 2 && d[1] >> 4 == 0; int mask = (int)o.u(4) | 16;
            if (mask & 1) must("getHeight", {Val(t)}, desc ? "u:" + std::to_string((d[1] & 15) * 2) : "refused", "address '" + t + "'");
            if ((mask & 2) && !c.bad()) must("getHashFunction", {Val(t)}, desc ? "u:" + std::to_string(d[0] & 15) : "refused", "address '" + t + "'");
            if ((mask & 4) && !c.bad()) must("getSignatureType", {Val(t)}, desc ? "u:" + std::to_string(d[0] >> 4) : "refused", "address '" + t + "'");
            if ((mask & 8) && !c.bad() && hex) must("validateAddressRaw", {Val(d)}, ref::address_valid(d) ? "u:1" : "u:0", "address " + sim::hex(d));
            if ((mask & 16) && !c.bad()) { std::string g = ask("validateAddress", {Val(t)}); bool want = hex && ref::address_valid(d); if (want != (g == "u:1")) fail(want ? "refused" : "answered", "validateAddress of '" + t + "' gave " + g); if (!want && hex && d.size() >= 3 && g == "refused" && !c.bad()) fail("refused", "validateAddress of '" + t + "' threw instead of answering"); }
        } else if (op == "epk") {
            Bytes pk = N.keys[o.u(1) % 3]->pk(), other = N.keys[(o.u(1) + 1) % 3]->pk(); if (o.u(2) < 13) { pk = pk_mut(pk, (int)o.u(2), o.u(3), o.u(4), other); c.count("fault_key_damaged"); }
            auto okpk = [](const Bytes &x) { return x.size() == 67 && x[0] <= 2 && x[1] >> 4 == 0; };
            must("getAddressRaw", {Val(pk)}, okpk(pk) ? "b:" + sim::hex(ref::address(pk)) : "refused", "public key " + sim::hex(pk)); if (c.bad()) break;
            std::string t = ref::to_hex(pk); if (o.u(5)) { t = text_mut(t, (int)o.u(6), o.u(7), o.u(8)); c.count("fault_text_damage"); } Bytes d; bool hex = ref_hex(t, d);
            must("getAddress", {Val(t)}, hex && okpk(d) ? "s:" + ref::to_hex(ref::address(d)) : "refused", "public key '" + t + "'");
        } else if (op == "hex") {
            Bytes b = gen_msg(o.u(1), std::min<uint64_t>(o.u(2), 4000)); std::string t = ref::to_hex(b); if (!must("bin2hstr", {Val(b)}, "s:" + t, "bytes")) break; if (!must("str2bin", {Val(t)}, "b:" + sim::hex(Bytes(t.begin(), t.end())), "text")) break;
            if (!must("str2bin", {Val(std::string(b.begin(), b.end()))}, "b:" + sim::hex(b), "arbitrary text")) break;
            if (o.u(3)) { t = text_mut(t, (int)o.u(4), o.u(5), o.u(6)); c.count("fault_text_damage"); } Bytes d; must("hstr2bin", {Val(t)}, ref_hex(t, d) ? "b:" + sim::hex(d) : "refused", "hex text '" + t + "'");
        } else if (op == "mn") {
            Bytes b = gen_msg(o.u(1), std::min<uint64_t>(o.u(2), 300)); if (o.u(1) % 11 == 0) b.push_back(7);
            if (b.size() % 3) { must("bin2mnemonic", {Val(b)}, "refused", "bytes that do not fit"); continue; }
            std::string m = ref::to_mnemonic(b, words()); if (!must("bin2mnemonic", {Val(b)}, "s:" + m, "bytes")) break; if (b.empty()) continue;
            std::string t = m; if (o.u(3) == 1) t = text_mut(m, (int)o.u(4), o.u(5), o.u(6)); else if (o.u(3) == 2) t = words_mut(m, (int)o.u(4), o.u(5), o.u(6)); if (t != m) c.count("fault_text_damage");
            Bytes d; bool ok = ref_mnemonic(t, d); std::string g = ask("mnemonic2bin", {Val(t)});
            if (ok ? !(d.empty() && g == "refused") && g != "b:" + sim::hex(d) : g != "refused") fail(ok ? "wrong" : "answered", "mnemonic2bin of '" + t + "' gave " + g + " instead of " + (ok ? sim::hex(d) : "an error"));
        } else if (op == "hash") {
            Bytes b = gen_msg(o.u(2), std::min<uint64_t>(o.u(3), 4000)); inj::set_mode(0); std::string e = o.u(1) ? "b:" + sim::hex(ref::shake128(o.u(4) % 2000, b)) : "b:" + sim::hex(ref::sha256(b)), g;
            try { g = show(o.u(1) ? js("jsqrlwrapper::shake128", {Val(o.u(4) % 2000), Val(b)}) : js("jsqrlwrapper::sha2_256", {Val(b)})); } catch (const std::exception &x) { g = std::string("threw ") + x.what(); }
            inj::set_mode(N.q.mode); c.ev("hash"); c.shu(5); if (g != e) fail("wrong", std::string(o.u(1) ? "shake128" : "sha2_256") + " of " + std::to_string(b.size()) + " bytes is wrong");
        } else if (op == "own") {
            if (idx >= cap) continue; Bytes m = gen_msg(o.u(1), std::min<uint64_t>(o.u(2), 70000)), s; if (w->sign(m, s)) { fail("sign", "own wallet cannot sign: " + w->err); break; }
            c.evb("own", s); c.count("signatures"); if (s != k->sign(idx, m)) { fail("sign", "the wrapper's signature at index " + std::to_string(idx) + " is not the wallet's"); break; } idx++;
            if (w->index() != idx || w->height() != (int)N.q.h || w->pk() != pk0 || w->ext_seed() != ext || w->hexseed() != ref::to_hex(ext)) { fail("wallet", "the wrapper reports a wrong index, height, public key or seed"); break; }
            if (kind == JF) { if (w->address() != ref::address(pk0) || w->mnemonic() != ref::to_mnemonic(ext, words())) { fail("wallet", "the wrapper reports a wrong address or mnemonic"); break; }
                Bytes pr, ar; if (!raw_pk_addr(w.get(), pr, ar) || pr != pk0 || ar != ref::address(pk0)) { fail("wallet", "the wrapper's raw public key or address is wrong"); break; } }
            N.net.push_back({m, s, 0, pk0, k}); good++;
        } else if (op == "restore") {
            bool mn = o.u(1) == 1; std::string t = mn ? ref::to_mnemonic(ext, words()) : ref::to_hex(ext), t0 = t; if (o.u(2) == 1) t = text_mut(t, (int)o.u(3), o.u(4), o.u(5)); else if (o.u(2) == 2 && mn) t = words_mut(t, (int)o.u(3), o.u(4), o.u(5)); if (t != t0) c.count("fault_text_damage");
            Bytes d; bool ok = mn ? ref_mnemonic(t, d) : ref_hex(t, d); ok = ok && d.size() == 51 && d[0] <= 2 && d[1] >> 4 == 0; unsigned hh = ok ? (d[1] & 15) * 2 : 0; if (ok && hh > 6) continue; bool may = ok && hh >= 4;
            Val v; bool threw = false; try { v = js(std::string("jsqrlwrapper::Xmss.") + (mn ? "fromMnemonic" : "fromHexSeed"), {Val(t)}); } catch (const std::exception &) { threw = true; }
            c.ev("restore " + std::to_string(threw)); c.shu(7 + threw); (threw ? refused : good)++;
            if (!may && !threw) { fail("answered", "a wallet was made from '" + t + "'"); break; }
            if (may && threw && t == t0) { fail("refused", "no wallet was made from its own backup '" + t + "'"); break; }
            if (!threw) { Bytes g = js("jsqrlwrapper::Xmss.getPKRaw", {}, v.o.get()).b; if (g != ref::key(Bytes(d.begin() + 3, d.end()), d[0] & 15, hh, 16)->pk()) { fail("wrong", "the wallet made from '" + t + "' is not the one it describes"); break; } }
        } else if (op == "again" && asked.size()) { auto &q = asked[o.u(1) % asked.size()]; inj::poison_stack(o.u(1)); std::string g = q.first(); c.ev("again"); if (g != q.second) fail("history", "the same question was answered " + q.second.substr(0, 80) + " earlier and " + g.substr(0, 80) + " now"); }
    }
    c.nontrivial = good > 2 && refused > 0;
}
static sim::Reg r1({"client", gen_client, exec_client}, {{"C21", "", 1}});
