// rpq: Rust Dilithium and Kyber objects on a hostile channel (C26). rseed: Rust random seeds over a failing
// source of randomness (C27).
#include "mutate.h"
#include "inject.h"
extern "C" {
__attribute__((weak)) void rs_rand_script(uint64_t, uint32_t, uint32_t, uint32_t, uint64_t); __attribute__((weak)) uint32_t rs_rand_stat(uint8_t *, size_t, size_t *); __attribute__((weak)) int rs_random_seed(uint32_t, const uint8_t *, size_t, uint8_t *, size_t, size_t *);
__attribute__((weak)) void rs_pq_seed(uint64_t); __attribute__((weak)) size_t rs_pq_size(int); __attribute__((weak)) int rs_dil_valid(const uint8_t *, size_t, const uint8_t *, size_t);
__attribute__((weak)) void *rs_dil_new(const uint8_t *, size_t, const uint8_t *, size_t, int *); __attribute__((weak)) void rs_dil_free(void *); __attribute__((weak)) size_t rs_dil_get(void *, int, uint8_t *, size_t); __attribute__((weak)) int rs_dil_sign(void *, const uint8_t *, size_t, uint8_t *, size_t, size_t *);
__attribute__((weak)) int rs_dil_open(const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, size_t *); __attribute__((weak)) int rs_dil_extract(int, const uint8_t *, size_t, uint8_t *, size_t, size_t *);
__attribute__((weak)) void *rs_kyb_new(const uint8_t *, size_t, const uint8_t *, size_t, int *); __attribute__((weak)) void *rs_kyb_clone(void *); __attribute__((weak)) void rs_kyb_free(void *); __attribute__((weak)) size_t rs_kyb_get(void *, int, uint8_t *, size_t); __attribute__((weak)) int rs_kyb_do(void *, int, const uint8_t *, size_t); __attribute__((weak)) int rs_kyb_truth(const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *);
}
static size_t odd_size(Rng &r, size_t n) { switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return n - 1; case 3: return n + 1; case 4: return n / 2; case 5: return n * 2; case 6: return r.below(n); default: return n + 1 + r.below(3000); } }
static Bytes dget(void *d, int i) { Bytes b(8192); b.resize(rs_dil_get(d, i, b.data(), b.size())); return b; }
static Bytes kget(void *d, int i) { Bytes b(8192); b.resize(rs_kyb_get(d, i, b.data(), b.size())); return b; }
static const size_t FRESH = (size_t)-1;

static void gen_rpq(Rng &r, Plan &p) {
    p.set("rnd", r.next()); p.set("fill", r.next() | 1); int n = 10 + (int)r.below(30);
    p.op("dkey"); p.op("dkey"); p.op("kkey"); p.op("kkey");
    for (int i = 0; i < n; i++) switch (r.pickw({12, 16, 5, 5, 4, 14, 18, 5, 6, 3, 3})) {
        case 0: p.op("send", r.below(4), r.below(100000), r.chance(1, 6) ? 0 : r.chance(1, 6) ? 4595 + (int64_t)r.below(3) - 1 : r.chance(1, 40) ? 65000 + r.below(70000) : r.chance(1, 10) ? 4000 + r.below(9000) : r.below(300)); break;
        case 1: { sim::Line l; l.w = {"open", std::to_string(r.below(8)), std::to_string(r.below(4)), std::to_string(r.pickw({30, 40, 20, 10}))}; gen_mut(r, l.w, 4595 + 64); gen_mut(r, l.w, 2592); p.ops.push_back(l); break; }
        case 2: p.op("drestore", r.below(4)); break;
        case 3: p.op("dbad", r.below(3), odd_size(r, 2592), odd_size(r, 4864), r.below(4)); break;
        case 4: p.op("short", r.chance(1, 2) ? r.below(4595) : (uint64_t[]){0, 1, 4594, 4595, 4596, 64}[r.below(6)], r.below(1000)); break;
        case 5: p.op("enc", r.below(5), r.below(5)); break;
        case 6: { sim::Line l; l.w = {"dec", std::to_string(r.below(8)), std::to_string(r.pickw({40, 30, 20})), std::to_string(r.below(5))}; gen_mut(r, l.w, 1088); p.ops.push_back(l); break; }
        case 7: p.op("krestore", r.below(5)); break;
        case 8: p.op("clone", r.below(5)); break;
        case 9: p.op("kbad", r.below(3), odd_size(r, 1184), odd_size(r, 2400), r.below(4)); break;
        default: p.op("drop", r.below(2), r.below(5)); break;
    }
}
static void exec_rpq(const Plan &p, Ctx &c) {
    RunScope rs; inj::fill_seed = p.cu("fill"); if (!rs_pq_seed || !rs_dil_new || !rs_kyb_new) { c.ev("skip"); return; }
    rs_pq_seed(p.cu("rnd")); const size_t PK = rs_pq_size(0), SK = rs_pq_size(1), SG = rs_pq_size(2), KPK = rs_pq_size(3), KSK = rs_pq_size(4);
    auto fail = [&](const char *cls, const std::string &m) { c.fail("C26", cls, m); };
    struct D { void *d; Bytes pk, sk; }; struct K { void *k; Bytes pk, sk, ss, ct; }; std::vector<D> ds; std::vector<K> ks;
    struct Blob { Bytes b, m; size_t who; Bytes pk; }; std::vector<Blob> net; struct Ct { Bytes ct, ss; Bytes pk, sk; }; std::vector<Ct> cts; std::set<Bytes> secrets, keys; int good = 0, bad = 0;
    if (rs_pq_size(6) != PK || rs_pq_size(7) != SK) { fail("sizes", "the reported key sizes are wrong"); return; }
    auto dadd = [&](const Bytes *pk, const Bytes *sk) {
        int rc = 0; void *d = rs_dil_new(pk ? pk->data() : nullptr, pk ? pk->size() : FRESH, sk ? sk->data() : nullptr, sk ? sk->size() : 0, &rc); c.ev("dil " + std::to_string(rc)); c.shu(rc);
        if (rc) { fail("refused", "Dilithium keys of the right sizes were refused"); return; }
        D x{d, dget(d, 0), dget(d, 1)}; ds.push_back(x);
        if (x.pk.size() != PK || x.sk.size() != SK) fail("key-size", "a Dilithium key pair has wrong sizes");
        if (pk && (x.pk != *pk || x.sk != *sk)) fail("restore", "a restored Dilithium key pair differs from the bytes it was restored from");
        if (!pk && (!keys.insert(x.pk).second || !keys.insert(x.sk).second)) fail("repeated-key", "a new Dilithium object has the key of an earlier one");
    };
    auto kcheck = [&](K &k, const char *when) {     // everything a caller can see of k
        if (kget(k.k, 0) != k.pk || kget(k.k, 1) != k.sk) return fail("keys-changed", std::string("the Kyber keys changed ") + when);
        if (kget(k.k, 2) != k.ss) return fail("secret-changed", std::string("the Kyber shared secret changed ") + when);
        if (kget(k.k, 3) != k.ct) return fail("ct-changed", std::string("the Kyber ciphertext changed ") + when);
    };
    auto kadd = [&](const Bytes *pk, const Bytes *sk) {
        int rc = 0; void *d = rs_kyb_new(pk ? pk->data() : nullptr, pk ? pk->size() : FRESH, sk ? sk->data() : nullptr, sk ? sk->size() : 0, &rc); c.ev("kyb " + std::to_string(rc)); c.shu(3 + rc);
        if (rc) { fail("refused", "Kyber keys of the right sizes were refused"); return; }
        K x{d, kget(d, 0), kget(d, 1), kget(d, 2), kget(d, 3)}; ks.push_back(x);
        if (x.pk.size() != KPK || x.sk.size() != KSK) fail("key-size", "a Kyber key pair has wrong sizes");
        if (pk && (x.pk != *pk || x.sk != *sk)) fail("restore", "a restored Kyber key pair differs from the bytes it was restored from");
        if (!pk && (!keys.insert(x.pk).second || !keys.insert(x.sk).second)) fail("repeated-key", "a new Kyber object has the key of an earlier one");
        if (!secrets.insert(x.ss).second) fail("repeated-secret", "a new Kyber object starts with a shared secret used before");
        Bytes t(32); if (rs_kyb_truth(x.ct.data(), x.ct.size(), x.sk.data(), x.sk.size(), t.data()) || t != x.ss) fail("initial", "the ciphertext of a new Kyber object does not decapsulate to its shared secret");
        cts.push_back({x.ct, x.ss, x.pk, x.sk});
    };
    for (auto &o : p.ops) {
        if (c.bad()) break;
        std::string op = o.s(0); Bytes out(262144); size_t n = 0;
        if (op == "dkey") dadd(nullptr, nullptr);
        else if (op == "kkey") kadd(nullptr, nullptr);
        else if (op == "drestore" && ds.size()) { Bytes a = ds[o.u(1) % ds.size()].pk, b = ds[o.u(1) % ds.size()].sk; dadd(&a, &b); c.count("restores"); }
        else if (op == "krestore" && ks.size()) { Bytes a = ks[o.u(1) % ks.size()].pk, b = ks[o.u(1) % ks.size()].sk; kadd(&a, &b); c.count("restores"); }
        else if (op == "dbad" || op == "kbad") { bool dl = op == "dbad"; size_t P1 = dl ? PK : KPK, S1 = dl ? SK : KSK; size_t a = o.u(1) == 1 ? P1 : o.u(2), b = o.u(1) == 2 ? S1 : o.u(3); if (a == P1 && b == S1) continue; if (o.u(4) == 0) { a = S1; b = P1; }
            Bytes pk = gen_msg(9, a), sk = gen_msg(8, b); int rc = 0; void *x = dl ? rs_dil_new(pk.data(), a, sk.data(), b, &rc) : rs_kyb_new(pk.data(), a, sk.data(), b, &rc); c.count("fault_wrong_size_keys"); c.ev("bad " + std::to_string(rc)); c.shu(10 + rc + 3 * dl); bad++; if (x) dl ? rs_dil_free(x) : rs_kyb_free(x);
            if (rc != 1) fail(rc ? "panic" : "key-size-accepted", std::string(dl ? "Dilithium" : "Kyber") + " keys of " + std::to_string(a) + " and " + std::to_string(b) + " bytes " + (rc ? "caused a panic" : "were accepted")); }
        else if (op == "send" && ds.size()) { size_t w = o.u(1) % ds.size(); Bytes m = gen_msg(o.u(2), o.u(3)); int rc = rs_dil_sign(ds[w].d, m.data(), m.size(), out.data(), out.size(), &n); out.resize(rc ? 0 : n); c.evb("sm", out); c.shu(20);
            if (rc) { fail("panic", "signing panicked"); break; }
            if (out.size() != SG + m.size() || !std::equal(m.begin(), m.end(), out.begin() + SG)) { fail("sign", "a signed message of " + std::to_string(m.size()) + " bytes does not hold its message"); break; }
            if (!rs_dil_valid(out.data(), out.size(), ds[w].pk.data(), ds[w].pk.size())) { fail("sign", "a signed message of " + std::to_string(m.size()) + " bytes does not verify under the signer's key"); break; }
            net.push_back({out, m, w, ds[w].pk}); c.count("messages_sent"); }
        else if (op == "open" && net.size()) { auto &bl = net[o.u(1) % net.size()]; int t = (int)o.u(3); Bytes b = bl.b, pk = t == 3 ? ds[o.u(2) % ds.size()].pk : bl.pk;
            if (t == 1) { b = apply_mut(b, (int)o.u(4), o.u(5), o.u(6), &net[(o.u(1) + 1) % net.size()].b); c.count("fault_blob_damaged"); } else if (t == 2) { pk = apply_mut(pk, (int)o.u(7), o.u(8), o.u(9), &ds[(o.u(2) + 1) % ds.size()].pk); c.count("fault_pk_damaged"); } else if (t == 3) c.count("fault_wrong_key");
            bool want = rs_dil_valid(b.data(), b.size(), pk.data(), pk.size()); int rc = rs_dil_open(b.data(), b.size(), pk.data(), pk.size(), out.data(), out.size(), &n); out.resize(rc ? 0 : n); c.ev("open " + std::to_string(rc)); c.shu(30 + t * 3 + rc); (rc ? bad : good)++;
            std::string what = "opening a blob of " + std::to_string(b.size()) + " bytes under a key of " + std::to_string(pk.size()) + " bytes";
            if (rc == 2) { fail("panic", what + " panicked"); break; } if ((rc == 0) != want) { fail(want ? "rejected" : "accepted", what + (want ? " failed though it is authentic" : " succeeded though it is not authentic")); break; }
            if (want && out != Bytes(b.begin() + SG, b.end())) { fail("message", what + " did not return exactly the signed message"); break; }
            for (int k = 0; k < 2; k++) { Bytes e(b.size() + 16); rc = rs_dil_extract(k, b.data(), b.size(), e.data(), e.size(), &n); if (rc == 2) { fail("panic", "extraction panicked"); break; } if ((rc == 0) != (b.size() >= SG)) { fail("extract", "extraction from " + std::to_string(b.size()) + " bytes gave rc " + std::to_string(rc)); break; } if (rc) continue; e.resize(n); if (e != (k ? Bytes(b.begin(), b.begin() + SG) : Bytes(b.begin() + SG, b.end()))) { fail("extract", std::string("the extracted ") + (k ? "signature" : "message") + " is not that part of the signed message of " + std::to_string(b.size()) + " bytes"); break; } } }
        else if (op == "short") { Bytes b = gen_msg(o.u(2), o.u(1)); c.count("fault_short_blob"); for (int k = 0; k < 2; k++) { int rc = rs_dil_extract(k, b.data(), b.size(), out.data(), out.size(), &n); c.ev("ex " + std::to_string(rc)); c.shu(50 + rc); if (rc == 2 || (rc == 0) != (b.size() >= SG)) { fail(rc == 2 ? "panic" : "short-extract", "extraction from a blob of " + std::to_string(b.size()) + " bytes " + (rc == 2 ? "panicked" : rc ? "failed" : "answered")); break; } } if (b.size() < SG && ds.size() && !c.bad()) { int rc = rs_dil_open(b.data(), b.size(), ds[0].pk.data(), PK, out.data(), out.size(), &n); if (rc != 1) fail(rc == 2 ? "panic" : "accepted", "a blob too short to hold a signature"); } }
        else if (op == "enc" && ks.size()) { auto &k = ks[o.u(1) % ks.size()], &to = ks[o.u(2) % ks.size()]; Bytes pk = to.pk, sk = to.sk; int rc = rs_kyb_do(k.k, 0, pk.data(), pk.size()); c.ev("enc " + std::to_string(rc)); c.shu(60); if (rc) { fail("panic", "encapsulation failed"); break; }
            k.ss = kget(k.k, 2); k.ct = kget(k.k, 3); Bytes t(32); if (rs_kyb_truth(k.ct.data(), k.ct.size(), sk.data(), sk.size(), t.data()) || t != k.ss) { fail("encode", "the encapsulated ciphertext does not decapsulate to the sender's secret under the receiver's key"); break; }
            if (!secrets.insert(k.ss).second) { fail("repeated-secret", "an encapsulation gave a shared secret used before"); break; } cts.push_back({k.ct, k.ss, pk, sk}); kcheck(k, "by reading them"); c.count("messages_sent"); }
        else if (op == "dec" && cts.size() && ks.size()) { auto &x = cts[o.u(1) % cts.size()]; size_t w = o.u(3) % ks.size(); if (o.u(2) != 2) for (size_t i = 0; i < ks.size(); i++) if (ks[i].pk == x.pk) { w = i; break; } auto &k = ks[w]; Bytes ct = x.ct; if (o.u(2) == 1) { ct = apply_mut(ct, (int)o.u(4), o.u(5), o.u(6), &cts[(o.u(1) + 1) % cts.size()].ct); c.count("fault_ct_damaged"); } else if (o.u(2) == 2) c.count("fault_ct_misdirected");
            Bytes t(32); bool ok = rs_kyb_truth(ct.data(), ct.size(), k.sk.data(), k.sk.size(), t.data()) == 0; int rc = rs_kyb_do(k.k, 1, ct.data(), ct.size()); c.ev("dec " + std::to_string(rc)); c.shu(64 + rc * 3 + o.u(2)); if (rc == 2) { fail("panic", "decapsulation panicked"); break; } if (rc != !ok) { fail("decode", "a ciphertext of the wrong size was taken"); break; }
            if (!rc) { k.ss = kget(k.k, 2); k.ct = kget(k.k, 3); if (k.ss != t) { fail("decode", std::string("decapsulation of a ") + (t == x.ss ? "genuine" : "damaged or misdirected") + " ciphertext gave another secret than the key encapsulation defines"); break; } bool same = ct == x.ct && k.sk == x.sk; (same ? good : bad)++; if (same && k.ss != x.ss) { fail("disagree", "sender and receiver do not agree"); break; } }
            kcheck(k, "by reading them"); }
        else if (op == "clone" && ks.size() && ks.size() < 12) { K k = ks[o.u(1) % ks.size()]; k.k = rs_kyb_clone(k.k); if (!k.k) { fail("panic", "cloning panicked"); break; } c.ev("clone"); c.shu(70); ks.push_back(k); kcheck(ks.back(), "by cloning"); }
        else if (op == "drop") { if (o.u(1) && ks.size() > 2) { size_t w = o.u(2) % ks.size(); rs_kyb_free(ks[w].k); ks.erase(ks.begin() + w); } else if (!o.u(1) && ds.size() > 2) { size_t w = o.u(2) % ds.size(); rs_dil_free(ds[w].d); ds.erase(ds.begin() + w); } c.shu(72); }
        // nothing done to one object shows in another
        for (auto &d : ds) if (!c.bad() && (dget(d.d, 0) != d.pk || dget(d.d, 1) != d.sk)) fail("keys-changed", "the keys of a Dilithium object changed");
        for (auto &k : ks) if (!c.bad()) kcheck(k, "though nothing was done with that object");
    }
    for (auto &d : ds) rs_dil_free(d.d); for (auto &k : ks) rs_kyb_free(k.k);
    c.nontrivial = good > 1 && bad > 0;
}

static size_t seed_len(Rng &r) { switch (r.below(7)) { case 0: return 48; case 1: return 32; case 2: return 51; case 3: return 1 + r.below(16); case 4: return 100 + r.below(200); case 5: return 130 + r.below(20); default: return 16 + r.below(64); } }
static void gen_rseed(Rng &r, Plan &p) {
    p.set("fill", r.next() | 1); int n = 2 + (int)r.below(6);
    for (int i = 0; i < n; i++) { size_t z = r.chance(1, 15) ? 4000 + r.below(9000) : seed_len(r); p.op("get", z, 1 + r.below(1 << 30), r.chance(1, 3) ? 0 : r.chance(1, 4) ? 20 + r.below(300) : 1 + r.below(20), r.below(1 << 20), r.chance(1, 2) ? 0 : 1 + r.below(r.chance(1, 2) ? 1 : 4), r.chance(1, 2) ? 1 : 1 + r.below(6), r.chance(1, 3) ? 0 : r.below(z + 1), r.below(4)); }
}
static void exec_rseed(const Plan &p, Ctx &c) {
    RunScope rs; inj::fill_seed = p.cu("fill"); if (!rs_random_seed || !rs_rand_script) { c.ev("skip"); return; } int got = 0, refused = 0; std::set<Bytes> seen;
    for (auto &o : p.ops) {
        if (c.bad()) break;
        size_t sz = o.u(1), nent = o.u(3); Bytes eb = gen_msg(o.u(4), nent); std::string ex; for (auto b : eb) if (o.u(8) && b > 127) { ex += (char)(0xc2 + b % 30); ex += (char)(0x80 | (b & 0x3f)); } else ex += (char)(b & 127);   // valid UTF-8, sometimes with NUL and beyond ASCII
        Bytes out; uint32_t fails = 0; size_t delivered = 0;
        auto call = [&](size_t flip, const std::string &e, bool faults) { rs_rand_script(o.u(2), faults ? (uint32_t)o.u(5) : 0, (uint32_t)o.u(6), (uint32_t)o.u(7), flip); out.assign(sz + 64, 0); size_t n = 0; int rc = rs_random_seed((uint32_t)sz, (const uint8_t *)e.data(), e.size(), out.data(), out.size(), &n); Bytes d(16); fails = rs_rand_stat(d.data(), d.size(), &delivered); if (rc == 0) { if (n > sz + 64) n = sz + 64; out.resize(n); } else out.clear(); return rc; };
        int rc = call(FRESH, ex, true); Bytes a = out; uint32_t fails0 = fails; c.count("fault_source_failed", fails); c.ev("seed rc=" + std::to_string(rc) + " delivered=" + std::to_string(delivered) + " fails=" + std::to_string(fails)); c.shu(rc + 4 * fails + 100 * (nent > 0) + 1000 * (sz > 136) + 10000 * (o.u(7) == 0) + 20000 * (o.u(7) >= sz)); (rc ? refused : got)++;
        std::string what = "get_random_seed(" + std::to_string(sz) + ", " + std::to_string(ex.size()) + " bytes): the source delivered " + std::to_string(delivered) + " bytes and failed " + std::to_string(fails) + " times";
        auto fail = [&](const char *cls, const std::string &m) { c.fail("C27", cls, what + ": " + m); };
        if (rc) { if (!fails) fail("refused", "refused though the source worked"); continue; }
        if (a.size() != sz) { fail("length", "returned " + std::to_string(a.size()) + " bytes"); break; }
        if (delivered < sz) { fail("too-few", "returned a seed without that many random bytes"); break; }
        inj::poison_stack(o.u(2)); if (call(FRESH, ex, true) || out != a) { fail("not-a-function", "the same random bytes and entropy gave another seed"); break; }
        if (sz < 16) continue;
        // with faults the delivered bytes that were finally used are not known by ordinal
        if (fails0 == 0) { size_t pos[5] = {0, sz - 1, sz / 2, (size_t)(sim::mix64(o.u(2)) % sz), (size_t)(sim::mix64(o.u(2) + 1) % sz)}; for (size_t x : pos) if (call(x, ex, false) == 0 && out == a) { fail("ignores-random", "the seed does not depend on random byte " + std::to_string(x)); break; } }
        if (c.bad()) break;
        if (ex.size()) { size_t ps[3] = {0, ex.size() - 1, (size_t)(sim::mix64(o.u(4)) % ex.size())}; for (size_t x : ps) { std::string e = ex; unsigned char u = e[x]; e[x] ^= u >= 0xc0 && u % 2 && (u ^ 4) >= 0xc2 && (u ^ 4) < 0xe0 ? 4 : 1; if (call(FRESH, e, true) == 0 && out == a) { fail("ignores-entropy", "the seed does not depend on entropy byte " + std::to_string(x) + " of " + std::to_string(ex.size())); break; } } }
        if (c.bad()) break;
        if (call(FRESH, ex + std::string(1, o.u(8) & 1 ? '\0' : ' '), true) == 0 && out == a) { fail("ignores-entropy", "appending a character to the entropy does not change the seed"); break; }
        if (!seen.insert(a).second) { bool dup = false; for (auto &q : p.ops) if (&q != &o && q.w[1] == o.w[1] && q.w[2] == o.w[2]) dup = true; if (!dup) { fail("repeated", "the same seed came from different random bytes"); break; } }
    }
    c.nontrivial = got + refused > 1;
}
static sim::Reg r1({"rpq", gen_rpq, exec_rpq}, {{"C26", "", 1}});
static sim::Reg r2({"rseed", gen_rseed, exec_rseed}, {{"C27", "", 1}});
