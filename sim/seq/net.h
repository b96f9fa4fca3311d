// A hostile network: published triples, structured damage of signatures and keys. Shared by several scenarios.
#pragma once
#include "mutate.h"
// structured damage of a signature / public key
inline Bytes sig_mut(Bytes s, int k, uint64_t a, uint64_t b, const ref::Key &key, const Bytes &other) {
    size_t ots = 36, auth = 36 + 32 * (size_t)key.len, n = s.size(); if (n < 36) return s;
    switch (k) {
        case 0: { uint32_t i = sig_index(s) + (uint32_t)((1 + a % 7) << key.h); s[0] = i >> 24; s[1] = i >> 16; s[2] = i >> 8; s[3] = i; break; }
        case 1: { uint32_t i = sig_index(s) ^ (1u << (a % 32)); s[0] = i >> 24; s[1] = i >> 16; s[2] = i >> 8; s[3] = i; break; }
        case 2: s[4 + a % 32] ^= (uint8_t)(1 << (b % 8)); break;
        case 3: if (auth <= n) s[ots + a % (auth - ots)] ^= (uint8_t)(1 << (b % 8)); break;
        case 4: if (n > auth) s[auth + a % (n - auth)] ^= (uint8_t)(1 << (b % 8)); break;
        case 5: if (n >= auth + 64) { size_t i = a % key.h, j = b % key.h; for (int x = 0; x < 32; x++) std::swap(s[auth + 32 * i + x], s[auth + 32 * j + x]); } break;
        case 6: if (auth <= n) { size_t i = a % key.len, j = b % key.len; for (int x = 0; x < 32; x++) std::swap(s[ots + 32 * i + x], s[ots + 32 * j + x]); } break;
        case 7: for (int x = 0; x < 32 * (1 + (int)(a % 3)); x++) s.push_back((uint8_t)b); break;
        case 8: s.resize(n - std::min<size_t>(n, 32 * (1 + a % 3))); break;
        case 9: for (size_t i = 0; i < 4 && i < other.size(); i++) s[i] = other[i]; break;
        case 10: for (size_t i = 4; i < 36 && i < other.size(); i++) s[i] = other[i]; break;
        case 11: for (size_t i = auth; i < n && i < other.size(); i++) s[i] = other[i]; break;
        case 12: s.resize(n + 1 + a % 31); break;
        case 13: s.resize(n - 1 - a % 31); break;
        case 14: s[n - 1] ^= (uint8_t)(1 << (b % 8)); break;
        case 15: s.insert(s.begin() + ots, s.begin() + ots, s.begin() + ots + 32); break;
        case 16: s.resize(a % 4 == 0 ? a % 40 : a % 3 == 0 ? 100000 : 4 + 32 * (a % 400)); break;
    }
    return s;
}
inline Bytes pk_mut(Bytes p, int k, uint64_t a, uint64_t b, const Bytes &other) {
    if (p.size() != 67) return p;
    switch (k) {
        case 0: p[0] = (uint8_t)((p[0] & 0xf0) | (b % 16)); break;
        case 1: p[0] = (uint8_t)((p[0] & 0x0f) | ((b % 16) << 4)); break;
        case 2: p[1] = (uint8_t)((p[1] & 0xf0) | (b % 16)); break;
        case 3: p[1] = (uint8_t)((p[1] & 0x0f) | ((b % 16) << 4)); break;
        case 4: p[2] = (uint8_t)b; break;
        case 5: p[3 + a % 32] ^= (uint8_t)(1 << (b % 8)); break;
        case 6: p[35 + a % 32] ^= (uint8_t)(1 << (b % 8)); break;
        case 7: std::copy(other.begin() + 3, other.begin() + 35, p.begin() + 3); break;
        case 8: std::copy(other.begin() + 35, other.end(), p.begin() + 35); break;
        case 9: p = other; break;
        case 10: p.resize(a % 3 == 0 ? 66 : a % 3 == 1 ? 68 : b % 200); break;
        case 11: p.erase(p.begin(), p.begin() + 3); break;
        case 12: p[66] ^= (uint8_t)(1 << (b % 8)); break;
    }
    return p;
}
inline void gen_net_ops(Rng &r, Plan &p, int n, bool w4) {
    for (int i = 0; i < n; i++) switch (r.pickw({15, 62, 10, 10, 5})) {
        case 4: p.op("tall", 4 + 2 * r.below(14), r.below(3), r.chance(1, 3) ? (1u << r.below(31)) - r.below(3) : r.below(1u << 30), r.below(100000), msg_len(r, false)); break;
        case 0: p.op("pub", r.below(3), r.below(1 << 20), r.below(100000), msg_len(r, r.chance(1, 6))); break;
        case 1: { sim::Line l; l.w = {"rx", std::to_string(r.below(8)), std::to_string(r.below(3))};
            int t = r.pickw({22, 40, 20, 12, 6});   // untouched, signature, key, message, several
            auto ad = [&](bool on, int nk) { bool byt = r.chance(1, 4); l.w.push_back(on ? (byt ? "b" : "s") : "-"); l.w.push_back(std::to_string(byt ? 1 + r.below(M_EMPTY) : r.below(nk))); l.w.push_back(std::to_string(r.below(1 << 16))); l.w.push_back(std::to_string(r.below(1 << 16))); };
            ad(t == 1 || t == 4, 17); ad(t == 2 || t == 4, 13);
            { bool on = t == 3 || (t == 4 && r.chance(1, 2)); l.w.push_back(on ? "b" : "-"); gen_mut(r, l.w, 64); }
            l.w.push_back(!w4 ? "0" : r.chance(1, 10) ? "1" : r.chance(1, 12) ? std::to_string(2 + r.below(11)) : "0"); l.w.push_back(r.chance(1, 3) ? "1" : "0"); p.ops.push_back(l); break; }
        case 2: p.op("forge", r.below(3), r.below(1 << 16), r.below(100000), r.below(3), r.below(256), r.below(3)); break;
        default: p.op("noise", r.below(6), r.next() >> 20); break;
    }
}
struct Net {
    struct T { Bytes m, s; int owner; Bytes pk; std::shared_ptr<const ref::Key> k; };
    std::vector<std::shared_ptr<const ref::Key>> keys; std::vector<T> net; Params q; unsigned w;
    Net(const Plan &p, bool rust = false) {
        q = get_params(p, "", rust); w = q.w; int hb = (int)p.cu("hashB", 1); unsigned h2 = (unsigned)p.cu("hB", 4); if (q.mode == 0) h2 = 4;
        keys.push_back(ref::key(wseed(q.sid), q.hash, q.h, w)); keys.push_back(ref::key(wseed(q.sid + 100), q.hash, q.h, w)); keys.push_back(ref::key(wseed(q.sid), hb, h2, w));
    }
    // a signature under a tree too tall to build: one leaf and an authentication path chosen by its owner
    void tall(const sim::Line &o, Ctx &c) {
        T t; t.owner = 0; t.m = gen_msg(o.u(4), std::min<uint64_t>(o.u(5), 9000)); auto k = std::make_shared<ref::Key>(); k->h = (unsigned)o.u(1); k->w = w; k->len = keys[0]->len; k->hash = (int)o.u(2);
        ref::synth(o.u(4) % 7, k->hash, k->h, w, (uint32_t)(o.u(3) % (1u << k->h)), t.m, t.pk, t.s); t.k = k; net.push_back(t); c.evb("tall", t.s); c.count("tall_trees");
    }
    void pub(int k, uint32_t i, const Bytes &m) { net.push_back({m, keys[k]->sign(i, m), k, keys[k]->pk(), keys[k]}); }
    bool triple(const sim::Line &o, Bytes &m, Bytes &s, Bytes &pk, unsigned &vw, int &front, Ctx &c, int &kinds) {
        if (net.empty()) return false;
        auto &t = net[o.u(1) % net.size()]; auto &u = net[(o.u(1) + 1) % net.size()]; const auto &k = *t.k;
        m = t.m; s = t.s; pk = t.pk; front = (int)o.u(2); kinds = 0; Bytes opk = keys[(t.owner + 1) % 3]->pk();
        if (o.s(3) == "s") { s = sig_mut(s, (int)o.u(4), o.u(5), o.u(6), k, u.s); kinds |= 1; c.count("fault_signature_damaged"); }
        else if (o.s(3) == "b") { s = apply_mut(s, (int)o.u(4), o.u(5), o.u(6), &u.s); kinds |= 1; c.count("fault_signature_damaged"); }
        if (o.s(7) == "s") { pk = pk_mut(pk, (int)o.u(8), o.u(9), o.u(10), opk); kinds |= 2; c.count("fault_key_damaged"); }
        else if (o.s(7) == "b") { pk = apply_mut(pk, (int)o.u(8), o.u(9), o.u(10), &opk); kinds |= 2; c.count("fault_key_damaged"); }
        if (o.s(11) == "b") { m = apply_mut(m, (int)o.u(12), o.u(13), o.u(14), &u.m); kinds |= 4; c.count("fault_message_damaged"); }
        vw = w; if (o.u(15) > 1) { vw = (unsigned[]){8, 2, 32, 64, 256, 5, 6, 7, 17, 24, 31}[(o.u(15) - 2) % (ref::mode >= ref::LEAF ? 5 : 11)]; kinds |= 8; c.count("fault_wrong_winternitz"); }   // the last six have as many chains as 4 or 16, which stand-in one-time signatures cannot tell apart
        else if (o.u(15)) { vw = w == 16 ? 4 : 16; kinds |= 8; c.count("fault_wrong_winternitz"); }
        if (front == 1) { if (vw != 16) front = 2; }
        return true;
    }
};
