// wallet: an application keeps a wallet on a disk that loses unsynced writes; it crashes and restores
// from its backup again and again (C10).
// backup: damage to backups and addresses in storage and transit (C11).
#include "mutate.h"
#include <misc.h>
#include <qrlHelper.h>
#include <xmssFast.h>
#include <xmssBasic.h>
using emscripten::Val;
static const char *how_name[4] = {"parameters", "extended seed", "hex seed", "mnemonic"};

// a tall wallet that is restored and moved far ahead (ideal one-time keys)
static void gen_far(Rng &r, Plan &p) {
    p.set("mode", 3); p.set("hash", r.below(3)); p.set("h", (uint64_t[]){10, 12, 14}[r.pickw({60, 30, 10})]); p.set("w", 16); p.set("sid", 700 + r.below(4)); p.set("fill", r.next() | 1);
    p.set("kind", r.chance(2, 3) ? CF : JF); p.set("ahead", 1 + r.below(3)); p.set("how0", r.below(4));
    int n = 3 + (int)r.below(4);
    for (int i = 0; i < n; i++) {
        if (r.chance(2, 3)) p.op("leap", r.below(r.chance(1, 2) ? 1000 : 300));
        int m = 1 + (int)r.below(6); for (int j = 0; j < m; j++) p.op("sign", r.below(1000000), 30, r.pickw({80, 5, 5, 5, 5}));
        if (r.chance(2, 3)) p.op("crash", r.below(4), r.below(4));
        if (r.chance(1, 4)) { int b = 20 + (int)r.below(60); for (int j = 0; j < b; j++) p.op("sign", r.below(1000000), 30, 0); }
    }
    if (r.chance(1, 3)) { p.op("jump", 1 + r.below(4)); for (int i = 0; i < 5; i++) p.op("sign", r.below(1000000), 40, i == 2 ? 3 : 0); }
}
static void gen_wallet(Rng &r, Plan &p) {
    if (r.chance(1, 8)) { gen_far(r, p); return; }
    bool rust = rust_available() && r.chance(0, 12);
    int kind = (int[]){CF, JF, CB, JB}[r.pickw({50, 28, 14, 8})];
    gen_params(r, p, rust, false, is_fast(kind) ? (r.chance(1, 12) ? 10 : 8) : 6);
    p.set("kind", kind); p.set("ahead", r.chance(1, 3) ? 1 + r.below(6) : 1); p.set("how0", r.below(4));
    uint64_t cap = 1ull << p.cu("h"); int n = 10 + (int)r.below(p.cu("mode") == 0 ? 14 : 50);
    if (!is_fast(kind)) n = n / 3 + 3;
    for (int i = 0; i < n; i++) switch (r.pickw({55, 9, 9, 14, 6, 4})) {
        case 0: p.op("sign", r.below(1000000), msg_len(r, false), r.pickw({80, 5, 5, 5, 5})); break;  // where a crash hits: none / before journal / journal unsynced / journal synced, before sign / signed, not released
        case 1: p.op("crash", r.below(4), r.below(4)); break;
        case 2: p.op("skip", r.below(cap <= 16 ? 3 : 1 + cap / 10)); break;
        case 3: p.op("crash", r.below(4), r.below(4)); if (r.chance(1, 2)) p.op("crash", r.below(4), r.below(4)); break;
        case 4: p.op("upgrade", r.below(4)); break;   // the restored wallet is opened with the other signer / language front end
        default: p.op("backup"); break;
    }
    if (r.chance(1, 2)) { p.op("jump", 1 + r.below(4)); for (int i = 0; i < 6; i++) p.op("sign", r.below(1000000), 40, i == 2 ? 3 : 0); }
}
static void exec_wallet(const Plan &p, Ctx &c) {
    RunScope rs; Params q = get_params(p); int kind = (int)p.cu("kind"); shape_params(c, q, kind);
    Bytes seed = wseed(q.sid); auto k = ref::key(seed, q.hash, q.h, 16); Bytes pk0 = k->pk(), addr0 = ref::address(pk0); uint32_t cap = 1u << q.h;
    // durable state
    uint32_t disk_synced = 0; uint32_t disk_cache = 0; Bytes b_ext; std::string b_hex, b_mn; bool have_backup = false;
    std::string err; WalletP w; uint32_t idx = 0; std::map<uint32_t, Bytes> used; uint32_t ahead = (uint32_t)p.cu("ahead", 1), reserve = 0; int nrest = 0, nsig = 0;
    auto fail = [&](const char *cls, const std::string &m) { c.fail("C10", cls, std::string(kind_name[kind]) + " hash=" + std::to_string(q.hash) + " h=" + std::to_string(q.h) + ": " + m); };
    auto backup = [&] {
        b_ext = w->ext_seed(); b_hex = w->hexseed(); b_mn = w->mnemonic();
        if (b_mn.empty()) b_mn = bin2mnemonic(b_ext);
        if (have_backup && (b_ext != k->ext_seed())) fail("backup-changed", "the backup taken from a restored wallet differs from the original");
        if (b_hex != ref::to_hex(k->ext_seed())) fail("backup-hex", "hex seed backup is wrong: " + b_hex);
        if (b_mn != ref::to_mnemonic(k->ext_seed(), words())) fail("backup-mnemonic", "mnemonic backup is wrong");
        have_backup = true;
    };
    auto same = [&](const std::string &after) {
        if (w->pk() != pk0) fail("pk", "public key differs " + after);
        if (w->has("addr") && w->address() != addr0) fail("address", "address differs " + after);
        if (w->height() != (int)q.h) fail("height", "height differs " + after);
        if (w->ext_seed() != k->ext_seed()) fail("seed", "extended seed differs " + after);
        if (w->index() != idx) fail("index", "index is " + std::to_string(w->index()) + " instead of " + std::to_string(idx) + " " + after);
        if (w->has("sk") && w->sk() != k->sk(idx)) fail("sk", "secret key differs " + after);
    };
    auto restore = [&](int how, int crashinfo) -> bool {
        // unsynced writes are lost or kept as the disk pleases
        if (crashinfo & 1) disk_synced = std::max(disk_synced, disk_cache);
        disk_cache = disk_synced; w.reset(); nrest++; c.count("fault_crash");
        if (disk_cache < disk_synced) c.count("fault_lost_write");
        if (!have_backup) { w = make_wallet(kind, seed, (int)q.h, q.hash, 16, err); how = 0; }
        else if (how == 0) w = make_wallet(kind, seed, (int)q.h, q.hash, 16, err);
        else w = restore_wallet(kind, how, b_ext, b_hex, b_mn, 16, err);
        if (!w) { fail("restore", std::string("restoring from ") + how_name[how] + " failed: " + err); return false; }
        c.count(std::string("restore_from_") + (how == 0 ? "parameters" : how == 1 ? "ext" : how == 2 ? "hex" : "mnemonic"));
        idx = 0; uint32_t target = disk_synced;
        if (target < cap) { if (w->set_index(target)) { fail("restore-index", "moving the restored wallet to index " + std::to_string(target) + " was refused: " + w->err); return false; } idx = target; }
        else {  // every key may have been used: nothing is left to sign with
            if (cap && w->set_index(cap - 1)) { fail("restore-index", "moving the restored wallet to its last index was refused: " + w->err); return false; }
            idx = cap - 1; Bytes s; w->sign({0}, s); idx = cap; }
        reserve = disk_synced;
        if (w->index() != idx) { fail("restore-index", "restored wallet is at " + std::to_string(w->index()) + " instead of " + std::to_string(idx)); return false; }
        same(std::string("after restoring from ") + how_name[how]);
        return !c.bad();
    };
    w = make_wallet(kind, seed, (int)q.h, q.hash, 16, err); if (!w) { fail("construct", err); return; }
    backup(); same("at construction");
    for (auto &o : p.ops) {
        if (c.bad()) break;
        std::string op = o.s(0);
        if (op == "sign") {
            Bytes m = gen_msg(o.u(1), o.u(2)), s; int crash = (int)o.u(3);
            if (crash == 1) { c.ev("crash before journal"); if (!restore((int)(o.u(1) % 4), 0)) break; continue; }
            if (idx >= cap) { int rc = w->sign(m, s); c.ev("exhausted rc=" + std::to_string(rc)); if (rc == 0) fail("exhausted", "an exhausted wallet signed"); c.shu(9); continue; }
            if (idx + 1 > reserve) { disk_cache = std::min(cap, idx + ahead); if (crash == 2) { c.ev("crash, journal unsynced"); c.count("fault_lost_write"); if (!restore((int)(o.u(1) % 4), (int)(o.u(1) / 4 & 1))) break; continue; } disk_synced = disk_cache; reserve = disk_synced; }
            if (crash == 3) { c.ev("crash before signing"); if (!restore((int)(o.u(1) % 4), 0)) break; continue; }
            int rc = w->sign(m, s); c.shu(1);
            if (rc) { fail("sign-refused", "signing refused at index " + std::to_string(idx) + " of " + std::to_string(cap) + ": " + w->err); break; }
            Bytes e = k->sign(idx, m); nsig++;
            if (s != e) { fail("signature", "signature at index " + std::to_string(idx) + " after " + std::to_string(nrest) + " restores differs from the uninterrupted wallet's at byte " + std::to_string(first_diff(s, e))); break; }
            if (sig_index(s) != idx) { fail("index", "wrong index in signature"); break; }
            idx++; c.evb("sig", s);
            if (crash == 4) { c.ev("crash before release"); if (!restore((int)(o.u(1) % 4), 0)) break; continue; }
            uint32_t si = sig_index(s); if (used.count(si) && used[si] != m) { fail("index-reuse", "index " + std::to_string(si) + " released for two different messages"); break; } used[si] = m;
        } else if (op == "crash") { c.ev("crash"); c.shu(2 + o.u(1)); if (!restore((int)o.u(1) % 4, (int)o.u(2))) break; }
        else if (op == "skip" || op == "jump" || op == "leap") {
            uint32_t t = op == "skip" ? idx + (uint32_t)o.u(1) : op == "leap" ? idx + (uint32_t)((uint64_t)cap * o.u(1) / 1000) : cap - std::min<uint32_t>(cap, (uint32_t)o.u(1)); if (t >= cap || t < idx || (q.mode != 3 && t - idx > 700)) continue;
            if (w->set_index(t)) { fail("skip-refused", "moving forward to " + std::to_string(t) + " refused: " + w->err); break; }
            idx = t; disk_cache = disk_synced = reserve = std::max(disk_synced, idx); c.ev("skip " + std::to_string(t)); c.shu(7);
        } else if (op == "upgrade") {
            int nk = (int[]){CF, JF, CB, JB}[o.u(1)]; if (!is_fast(nk) && q.h > 6) continue;
            kind = nk; c.ev("upgrade"); c.shu(20 + nk); if (!restore((int)(p.cu("how0") % 4), 0)) break;
        } else if (op == "backup") { backup(); same("after taking a backup"); c.ev("backup"); }
        c.state(sim::mix64(idx) ^ sim::mix64(1000 + disk_synced * 3) ^ kind);
    }
    if (!c.bad()) same("at the end");
    c.nontrivial = nrest > 0 && nsig > 0;
}

// ---------------------------------------------------------------- backup
static void gen_backup(Rng &r, Plan &p) {
    p.set("sid", r.below(24)); p.set("hash", r.below(3)); p.set("h", 4); p.set("mode", 2); p.set("fill", r.next() | 1); p.set("sid2", 24 + r.below(8)); p.set("hash2", r.below(3)); p.set("h2", 4 + 2 * r.below(2));
    int n = 12 + (int)r.below(40);
    for (int i = 0; i < n; i++) switch (r.pickw({45, 10, 12, 12, 12, 9})) {
        case 0: { sim::Line l; l.w = {"addr", std::to_string(r.below(3))}; int m = 1 + (int)r.pickw({70, 20, 10}); for (int j = 0; j < m; j++) gen_mut(r, l.w, 39); p.ops.push_back(l); break; }
        case 1: p.op("addrfix", r.below(1 << 16), r.below(39 * 8), r.below(8), r.pickw({50, 35, 15}), r.below(32)); break;   // damage with the checksum recomputed
        case 2: { sim::Line l; l.w = {"ext", std::to_string(r.below(3))}; gen_mut(r, l.w, 51); p.ops.push_back(l); break; }
        case 3: { sim::Line l; l.w = {"hex", std::to_string(r.below(2))}; gen_text_mut(r, l.w); p.ops.push_back(l); break; }
        case 4: { sim::Line l; l.w = {"mn", std::to_string(r.below(2)), std::to_string(r.below(3) ? 1 : 0)}; gen_text_mut(r, l.w); p.ops.push_back(l); break; }
        default: p.op("junk", r.below(1 << 30), r.below(120), r.below(3)); break;
    }
}
static void exec_backup(const Plan &p, Ctx &c) {
    RunScope rs; Params q = get_params(p);
    Bytes seed = wseed(q.sid); auto k = ref::key(seed, q.hash, q.h, 16), k2 = ref::key(wseed(p.cu("sid2")), (int)p.cu("hash2"), inj::mode_ok(q.mode) && q.mode ? (unsigned)p.cu("h2", 4) : 4, 16);
    Bytes pk = k->pk(), addr = ref::address(pk), addr2 = ref::address(k2->pk()), ext = k->ext_seed(), ext2 = k2->ext_seed();
    auto fail = [&](const char *cls, const std::string &m) { c.fail("C11", cls, m); }; int nbad = 0, ngood = 0;
    { XmssFast f(seed, (unsigned char)q.h, (eHashFunction)q.hash); if (f.getAddress() != addr || f.getPK() != pk) { fail("address", "the wallet's address is not the hash of its public key"); return; } }
    auto judge_addr = [&](const Bytes &a, const std::string &what) {
        bool want = ref::address_valid(a);
        for (int lang = 0; lang < 3; lang++) {
            if (lang == 2 && a.size() < 3) { int g = any_addr_valid(2, a); if (g == 1) fail("addr-accepted", what + " reported valid"); continue; }
            int g = any_addr_valid(lang, a);
            const char *L = lang == 0 ? "C++" : lang == 1 ? "JavaScript raw" : "JavaScript";
            if (g == -1 && lang != 2) { fail("addr-threw", std::string(L) + " validity check threw for " + what + " " + sim::hex(a)); return; }
            if (g == 1 && !want) { fail("addr-accepted", std::string(L) + " reported " + what + " valid: " + sim::hex(a)); return; }
            if (g != 1 && want) { fail("addr-rejected", std::string(L) + " reported a valid address invalid: " + sim::hex(a)); return; }
        }
        (want ? ngood : nbad)++; c.ev("addr " + std::to_string(want));
    };
    judge_addr(addr, "the wallet's own address");
    // Same wallet? The reserved third descriptor byte and nothing else may differ.
    auto same_wallet = [&](const Bytes &e) { return e.size() == 51 && e[0] == ext[0] && e[1] == ext[1] && std::equal(e.begin() + 3, e.end(), ext.begin() + 3); };
    // whether the wallet constructors take these bytes for the original wallet
    auto try_ext = [&](const Bytes &e, int ctor, const std::string &what) {
        bool ok = false, orig = false; std::string err; Bytes g; int hh = 0;
        if (e.size() == 51 && ((e[1] & 15) > 3)) { c.ev("ext skip tall"); return; }  // building a tree of that height is not what is tested
        auto w = ctor == 0 ? restore_wallet(CF, 1, e, "", "", 16, err) : ctor == 1 ? restore_wallet(JF, 2, e, ref::to_hex(e), "", 16, err) : restore_wallet(CB, 1, e, "", "", 16, err);
        if (w) { ok = true; g = w->pk(); hh = w->height(); orig = g == pk; }
        c.ev("ext ok=" + std::to_string(ok) + " orig=" + std::to_string(orig));
        if (!same_wallet(e) && orig) { fail("ext-accepted", what + " (" + sim::hex(e) + ") was silently restored as the original wallet " + sim::hex(ext)); return; }
        if (same_wallet(e) && !orig) { fail("ext-lost", what + " is the original backup but was not restored as the original wallet: " + err); return; }
        if (ok) { int hf = e[0] & 15; unsigned h = (e[1] & 15) * 2; if (hf > 2 || (e[0] >> 4) || (e[1] >> 4)) { fail("ext-invalid", what + ": a backup with an invalid descriptor " + sim::hex(e).substr(0, 6) + " was accepted"); return; }
            if ((unsigned)hh != h) { fail("ext-height", what + ": restored with the wrong height"); return; }
            if (ref::key(Bytes(e.begin() + 3, e.end()), hf, h, 16)->pk() != g) { fail("ext-wrong", what + ": restored wallet is not the one the bytes describe"); return; } }
        (same_wallet(e) ? ngood : nbad)++;
    };
    for (auto &o : p.ops) {
        if (c.bad()) break;
        std::string op = o.s(0); size_t n = o.w.size();
        try {
            if (op == "addr") { Bytes a = o.u(1) == 1 ? addr2 : addr; for (size_t i = 2; i + 2 < n + 0 && i + 2 <= n - 1; i += 3) a = apply_mut(a, (int)o.u(i), o.u(i + 1), o.u(i + 2), o.u(1) == 1 ? &addr : &addr2); judge_addr(a, "a damaged address"); c.count("fault_addr_damage"); c.shu(1 + o.u(2)); }
            else if (op == "addrfix") { Bytes a = addr; a[o.u(2) / 8 % 35] ^= (uint8_t)(1u << (o.u(2) % 8)); if (o.u(3) == 1) a[0] = (uint8_t)o.u(1); if (o.u(3) == 2) a[1] = (uint8_t)o.u(1); if (o.u(3) >= 6) { a = addr; a[1] = (uint8_t)(o.u(1) & 15); if (o.u(3) == 7) a[0] = (uint8_t)(o.u(1) >> 4); } if (o.u(3) == 3) a[0] |= 0x80; Bytes h = ref::sha256(Bytes(a.begin(), a.begin() + 35)); std::copy(h.begin() + 28, h.end(), a.begin() + 35); if (o.u(4) == 1) a[35 + o.u(5) / 8] ^= (uint8_t)(1u << (o.u(5) % 8)); else if (o.u(4) == 2) a[o.u(2) / 8 % 39] ^= (uint8_t)(1u << (o.u(5) % 8)); judge_addr(a, "an address with recomputed checksum"); c.count("fault_addr_forged"); c.shu(20 + o.u(3)); }
            else if (op == "ext") { Bytes e = apply_mut(ext, (int)o.u(2), o.u(3), o.u(4), &ext2); try_ext(e, (int)o.u(1), "a damaged extended seed"); c.count("fault_ext_damage"); c.shu(30 + o.u(2)); }
            else if (op == "hex") {
                std::string h0 = ref::to_hex(ext), h = text_mut(h0, (int)o.u(2), o.u(3), o.u(4)); c.count("fault_hex_damage"); c.shu(50 + o.u(2));
                std::string lc = h; for (auto &ch : lc) ch = (char)tolower(ch);
                bool threw = false; Bytes e; try { e = o.u(1) ? js("jsqrlwrapper::hstr2bin", {Val(h)}).b : hstr2bin(h); } catch (const std::exception &) { threw = true; }
                c.ev("hex threw=" + std::to_string(threw));
                bool valid = h.size() % 2 == 0; for (unsigned char ch : h) if (!isxdigit(ch)) valid = false;
                if (threw && valid) { fail("hex-refused", "valid hex text was refused"); break; }
                if (!threw && e == ext && lc != h0) { fail("hex-accepted", "damaged hex seed '" + h + "' decoded to the original seed"); break; }
                if (!threw && !valid) { fail("hex-accepted", "invalid hex seed '" + h + "' was decoded"); break; }
                if (!threw) try_ext(e, 1, "a wallet from a damaged hex seed"); else nbad++;
            } else if (op == "mn") {
                std::string m0 = ref::to_mnemonic(ext, words()), m = o.u(2) ? words_mut(m0, (int)o.u(3), o.u(4), o.u(5)) : text_mut(m0, (int)o.u(3), o.u(4), o.u(5)); c.count("fault_mnemonic_damage"); c.shu(70 + o.u(3) + 20 * o.u(2));
                bool threw = false; Bytes e; try { e = o.u(1) ? js("jsqrlwrapper::mnemonic2bin", {Val(m)}).b : mnemonic2bin(m); } catch (const std::exception &) { threw = true; }
                std::vector<std::string> a, b; { std::istringstream is(m0), it(m); std::string x; while (is >> x) a.push_back(x); while (it >> x) b.push_back(x); }
                c.ev("mn threw=" + std::to_string(threw));
                if (!threw && e == ext && a != b) { fail("mnemonic-accepted", "damaged mnemonic '" + m + "' decoded to the original seed"); break; }
                if (threw && m == m0) { fail("mnemonic-refused", "undamaged mnemonic refused"); break; }
                if (!threw && e.size() == 51) try_ext(e, 0, "a wallet from a damaged mnemonic"); else nbad++;
            } else if (op == "junk") {
                Bytes b = gen_msg(o.u(1), o.u(2)); c.count("fault_junk");
                if (o.u(3) == 0) judge_addr(b, "arbitrary bytes");
                else { for (int i = 0; i < 2; i++) { try { if (o.u(3) == 1) { auto d = QRLDescriptor::fromExtendedSeed(b); (void)d; } else QRLHelper::getAddress(b); if (b.size() != (o.u(3) == 1 ? 51u : 67u)) fail("junk", "bytes of the wrong size accepted"); } catch (const std::exception &) {} } c.ev("junk"); }
            }
        } catch (const std::exception &e) { fail("exception", op + " threw " + e.what()); }
    }
    c.nontrivial = nbad > 0; c.shu(ngood);
}
static sim::Reg r1({"wallet", gen_wallet, exec_wallet}, {{"C10", "", 1}});
static sim::Reg r2({"backup", gen_backup, exec_backup}, {{"C11", "", 1}});
