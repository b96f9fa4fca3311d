#include "refxmss.h"
#include <cstring>
#include <map>
#include <tuple>
namespace ref {
Mode mode = REAL;
static const uint64_t RC[24] = {1ULL,0x8082ULL,0x800000000000808aULL,0x8000000080008000ULL,0x808bULL,0x80000001ULL,0x8000000080008081ULL,0x8000000000008009ULL,0x8aULL,0x88ULL,0x80008009ULL,0x8000000aULL,0x8000808bULL,0x800000000000008bULL,0x8000000000008089ULL,0x8000000000008003ULL,0x8000000000008002ULL,0x8000000000000080ULL,0x800aULL,0x800000008000000aULL,0x8000000080008081ULL,0x8000000000008080ULL,0x80000001ULL,0x8000000080008008ULL};
static inline uint64_t rl(uint64_t x, int n) { return n ? (x << n) | (x >> (64 - n)) : x; }
static void keccakf(uint64_t a[25]) {
    static const int rot[25] = {0,1,62,28,27,36,44,6,55,20,3,10,43,25,39,41,45,15,21,8,18,2,61,56,14};
    for (int r = 0; r < 24; r++) {
        uint64_t c[5], d[5], b[25];
        for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20];
        for (int x = 0; x < 5; x++) d[x] = c[(x+4)%5] ^ rl(c[(x+1)%5], 1);
        for (int i = 0; i < 25; i++) a[i] ^= d[i%5];
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y + 5*((2*x+3*y)%5)] = rl(a[x+5*y], rot[x+5*y]);
        for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) a[x+5*y] = b[x+5*y] ^ (~b[(x+1)%5+5*y] & b[(x+2)%5+5*y]);
        a[0] ^= RC[r];
    }
}
void shake(unsigned rate, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen) {
    uint64_t a[25] = {0}; uint8_t blk[200];
    while (true) {
        size_t n = inlen < rate ? inlen : rate; bool last = inlen < rate;
        memset(blk, 0, sizeof blk); if (n) memcpy(blk, in, n);
        if (last) { blk[n] ^= 0x1f; blk[rate-1] ^= 0x80; }
        for (unsigned i = 0; i < rate/8; i++) { uint64_t w = 0; for (int k = 7; k >= 0; k--) w = w << 8 | blk[8*i+k]; a[i] ^= w; }
        keccakf(a);
        if (last) break;
        in += n; inlen -= n;
    }
    while (outlen) {
        size_t n = outlen < rate ? outlen : rate;
        for (size_t i = 0; i < n; i++) out[i] = (uint8_t)(a[i/8] >> (8*(i%8)));
        out += n; outlen -= n; if (outlen) keccakf(a);
    }
}
static const uint32_t K256[64] = {0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static inline uint32_t rr(uint32_t x, int n) { return x >> n | x << (32-n); }
void sha256(uint8_t out[32], const uint8_t *in, size_t inlen) {
    uint32_t s[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    uint64_t bits = (uint64_t)inlen*8; size_t off = 0; bool pad1 = false, done = false;
    while (!done) {
        uint8_t b[64]; memset(b, 0, 64); size_t n = inlen-off < 64 ? inlen-off : 64; if (n) memcpy(b, in+off, n); off += n;
        if (n < 64) { if (!pad1) { b[n] = 0x80; pad1 = true; } if (n < 56) { for (int i = 0; i < 8; i++) b[63-i] = (uint8_t)(bits >> (8*i)); done = true; } }
        if (n < 64 && n >= 56 && !done) { /* length goes to the next block */ }
        uint32_t w[64]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)b[4*i]<<24|(uint32_t)b[4*i+1]<<16|(uint32_t)b[4*i+2]<<8|b[4*i+3];
        for (int i = 16; i < 64; i++) w[i] = w[i-16]+(rr(w[i-15],7)^rr(w[i-15],18)^w[i-15]>>3)+w[i-7]+(rr(w[i-2],17)^rr(w[i-2],19)^w[i-2]>>10);
        uint32_t v[8]; memcpy(v, s, 32);
        for (int i = 0; i < 64; i++) { uint32_t t1 = v[7]+(rr(v[4],6)^rr(v[4],11)^rr(v[4],25))+((v[4]&v[5])^(~v[4]&v[6]))+K256[i]+w[i]; uint32_t t2 = (rr(v[0],2)^rr(v[0],13)^rr(v[0],22))+((v[0]&v[1])^(v[0]&v[2])^(v[1]&v[2])); v[7]=v[6];v[6]=v[5];v[5]=v[4];v[4]=v[3]+t1;v[3]=v[2];v[2]=v[1];v[1]=v[0];v[0]=t1+t2; }
        for (int i = 0; i < 8; i++) s[i] += v[i];
    }
    for (int i = 0; i < 32; i++) out[i] = (uint8_t)(s[i/4] >> (24-8*(i%4)));
}
Bytes sha256(const Bytes &b) { Bytes o(32); sha256(o.data(), b.data(), b.size()); return o; }
Bytes shake256(size_t n, const Bytes &b) { Bytes o(n); shake(136, o.data(), n, b.data(), b.size()); return o; }
Bytes shake128(size_t n, const Bytes &b) { Bytes o(n); shake(168, o.data(), n, b.data(), b.size()); return o; }

void toy(unsigned domain, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen) {
    const uint64_t P = 0x9fb21c651e98df25ULL;
    uint64_t a = 0x243f6a8885a308d3ULL ^ domain * P, b = 0x13198a2e03707344ULL ^ inlen;
    size_t i = 0; uint64_t w;
    for (; i + 8 <= inlen; i += 8) { memcpy(&w, in + i, 8); a = (a ^ w) * P; a ^= a >> 32; b = ((b << 23 | b >> 41) + a) ^ (w * 0xc2b2ae3d27d4eb4fULL); }
    w = 0x80; for (size_t k = inlen; k > i; k--) w = w << 8 | in[k-1];
    a = (a ^ w) * P; a ^= a >> 29; b = (b + a) * P; b ^= b >> 31;
    for (size_t o = 0; o < outlen; o += 8) { a = (a + 0x9e3779b97f4a7c15ULL + b) * P; a ^= a >> 32; b = (b << 17 | b >> 47) ^ (a * 0xc2b2ae3d27d4eb4fULL); uint64_t v = a ^ b; memcpy(out + o, &v, outlen - o < 8 ? outlen - o : 8); }
}
static void H(int hash, uint8_t *out, const uint8_t *in, size_t n) {
    if (mode != REAL) { toy(hash == 0 ? 256 : hash == 1 ? 128 : 2256, out, 32, in, n); return; }
    if (hash == 0) sha256(out, in, n); else if (hash == 1) shake(168, out, 32, in, n); else shake(136, out, 32, in, n);
}
static void core(int hash, uint8_t *out, unsigned type, const uint8_t *key, size_t keylen, const uint8_t *in, size_t inlen) {
    uint8_t st[512]; Bytes big; uint8_t *p = st; size_t n = 32 + keylen + inlen;
    if (n > sizeof st) { big.resize(n); p = big.data(); }
    memset(p, 0, 32); p[31] = (uint8_t)type; memcpy(p + 32, key, keylen); if (inlen) memcpy(p + 32 + keylen, in, inlen);
    H(hash, out, p, n);
}
struct Adr { uint32_t a[8] = {0,0,0,0,0,0,0,0}; void bytes(uint8_t *o) const { for (int i = 0; i < 8; i++) { o[4*i]=a[i]>>24; o[4*i+1]=a[i]>>16; o[4*i+2]=a[i]>>8; o[4*i+3]=a[i]; } } };
static void prf(int hash, uint8_t *out, const uint8_t *in32, const uint8_t *key) { core(hash, out, 3, key, 32, in32, 32); }
static void F(int hash, uint8_t *x, const uint8_t *ps, Adr &ad) {
    uint8_t ab[32], key[32], bm[32], b[32];
    ad.a[7] = 0; ad.bytes(ab); prf(hash, key, ab, ps); ad.a[7] = 1; ad.bytes(ab); prf(hash, bm, ab, ps);
    for (int i = 0; i < 32; i++) b[i] = x[i] ^ bm[i];
    core(hash, x, 0, key, 32, b, 32);
}
static void HH(int hash, uint8_t *out, const uint8_t *l, const uint8_t *r, const uint8_t *ps, Adr &ad) {
    uint8_t ab[32], key[32], bm[64], b[64];
    ad.a[7] = 0; ad.bytes(ab); prf(hash, key, ab, ps); ad.a[7] = 1; ad.bytes(ab); prf(hash, bm, ab, ps); ad.a[7] = 2; ad.bytes(ab); prf(hash, bm + 32, ab, ps);
    for (int i = 0; i < 32; i++) { b[i] = l[i] ^ bm[i]; b[32+i] = r[i] ^ bm[32+i]; }
    core(hash, out, 1, key, 32, b, 64);
}
void wots_lens(unsigned w, unsigned &l1, unsigned &l2) { unsigned lg = w == 4 ? 2 : w == 16 ? 4 : 8; l1 = 256 / lg; unsigned m = l1 * (w - 1), bits = 0; while (m >> (bits + 1)) bits++; l2 = bits / lg + 1; }
static void digits(unsigned w, const uint8_t *msg, std::vector<unsigned> &d) {
    unsigned l1, l2; wots_lens(w, l1, l2); unsigned lg = w == 4 ? 2 : w == 16 ? 4 : 8; d.clear(); unsigned cs = 0;
    for (unsigned i = 0; i < l1; i++) { unsigned bit = i * lg; unsigned v = (msg[bit/8] >> (8 - lg - bit % 8)) & (w - 1); d.push_back(v); cs += w - 1 - v; }
    for (unsigned i = 0; i < l2; i++) d.push_back((cs >> (lg * (l2 - 1 - i))) & (w - 1));
}
static void otsadr(Adr &a, uint32_t i) { a = Adr(); a.a[4] = i; }
static void chain(int hash, uint8_t *x, unsigned from, unsigned to, unsigned c, const uint8_t *ps, Adr &ad) { ad.a[5] = c; for (unsigned i = from; i < to; i++) { ad.a[6] = i; F(hash, x, ps, ad); } }
static void otsseed(const Key &k, uint32_t i, uint8_t *seed) { Adr a; otsadr(a, i); uint8_t ab[32]; a.bytes(ab); prf(k.hash, seed, ab, k.sk_seed); }
static void skel(const Key &k, const uint8_t *seed, unsigned c, uint8_t *out) { uint8_t ctr[32] = {0}; ctr[31] = c; ctr[30] = c >> 8; prf(k.hash, out, ctr, seed); }
static void ltree(int hash, unsigned len, uint8_t *pk, const uint8_t *ps, uint32_t idx, uint8_t *out) {
    Adr a; a.a[3] = 1; a.a[4] = idx; unsigned l = len, h = 0;
    if (mode == FLAT) { stub_ltree(out, len, pk, ps, a.a); return; }
    while (l > 1) { a.a[5] = h; for (unsigned i = 0; i < l/2; i++) { a.a[6] = i; uint8_t o[32]; HH(hash, o, pk + 64*i, pk + 64*i + 32, ps, a); memcpy(pk + 32*i, o, 32); } if (l & 1) { memmove(pk + 32*(l/2), pk + 32*(l-1), 32); l = l/2 + 1; } else l /= 2; h++; }
    memcpy(out, pk, 32);
}
void stub_ots_pkgen(uint8_t *pk, unsigned len, const uint8_t *seed, const uint8_t *ps, const uint32_t addr[8]) {
    uint8_t b[76]; memcpy(b, seed, 32); memcpy(b + 32, ps, 32); memcpy(b + 64, &addr[3], 8);
    if (mode == FLAT) { toy(79, pk, 32 * len, b, 72); return; }
    for (uint32_t c = 0; c < len; c++) { memcpy(b + 72, &c, 4); toy(77, pk + 32 * c, 32, b, 76); }
}
static void ots_mask(uint8_t *x, unsigned len, const uint8_t *msg) { uint8_t b[36], t[32]; memcpy(b, msg, 32); if (mode == FLAT) { Bytes z(32 * len); toy(80, z.data(), z.size(), b, 32); for (size_t i = 0; i < z.size(); i++) x[i] ^= z[i]; return; } for (uint32_t c = 0; c < len; c++) { memcpy(b + 32, &c, 4); toy(78, t, 32, b, 36); for (int i = 0; i < 32; i++) x[32 * c + i] ^= t[i]; } }
void stub_ots_sign(uint8_t *sig, unsigned len, const uint8_t *msg, const uint8_t *seed, const uint8_t *ps, const uint32_t addr[8]) { stub_ots_pkgen(sig, len, seed, ps, addr); ots_mask(sig, len, msg); }
void stub_ots_pk(uint8_t *pk, unsigned len, const uint8_t *sig, const uint8_t *msg) { memcpy(pk, sig, 32 * len); ots_mask(pk, len, msg); }

void stub_ltree(uint8_t *leaf, unsigned len, const uint8_t *pk, const uint8_t *ps, const uint32_t addr[8]) {
    uint8_t b[72], t[32]; memcpy(b, ps, 32); memcpy(b + 32, &addr[3], 8); toy(81, t, 32, pk, 32 * len); memcpy(b + 40, t, 32); toy(82, leaf, 32, b, 72);
}
static void leaf(const Key &k, uint32_t i, uint8_t *out) {
    uint8_t seed[32]; otsseed(k, i, seed);
    uint8_t pk[32 * 133]; Adr a; otsadr(a, i);
    if (mode >= LEAF) stub_ots_pkgen(pk, k.len, seed, k.pub_seed, a.a);
    else for (unsigned c = 0; c < k.len; c++) { skel(k, seed, c, &pk[32*c]); chain(k.hash, &pk[32*c], 0, k.w - 1, c, k.pub_seed, a); }
    ltree(k.hash, k.len, pk, k.pub_seed, i, out);
}
static void derive(Key &k);
std::shared_ptr<const Key> key(const Bytes &seed, int hash, unsigned h, unsigned w) {
    typedef std::tuple<int, int, unsigned, unsigned, Bytes> T;
    static std::map<T, std::shared_ptr<const Key>> cache; static std::vector<T> order; static size_t held = 0;
    T t((int)mode, hash, h, w, seed); auto it = cache.find(t); if (it != cache.end()) return it->second;
    auto k = std::make_shared<Key>(); k->hash = hash; k->h = h; k->w = w; k->seed = seed; unsigned l1, l2; wots_lens(w, l1, l2); k->len = l1 + l2;
    derive(*k);
    k->level.resize(h + 1); uint32_t n = 1u << h; k->level[0].resize(32 * (size_t)n);
    for (uint32_t i = 0; i < n; i++) leaf(*k, i, &k->level[0][32 * (size_t)i]);
    for (unsigned l = 1; l <= h; l++) { n >>= 1; k->level[l].resize(32 * (size_t)n); for (uint32_t i = 0; i < n; i++) { Adr a; a.a[3] = 2; a.a[5] = l - 1; a.a[6] = i; HH(hash, &k->level[l][32*(size_t)i], &k->level[l-1][64*(size_t)i], &k->level[l-1][64*(size_t)i+32], k->pub_seed, a); } }
    while (!order.empty() && (order.size() > 64 || held + (64u << h) > (256u << 20))) { auto q = cache.find(order[0]); held -= 64u << q->second->h; cache.erase(q); order.erase(order.begin()); }
    cache[t] = k; order.push_back(t); held += 64u << h;
    return k;
}
Bytes descriptor(int hash, unsigned h) { return {(uint8_t)hash, (uint8_t)(h / 2), 0}; }
Bytes Key::pk() const { Bytes p = descriptor(hash, h), r = root(); p.insert(p.end(), r.begin(), r.end()); p.insert(p.end(), pub_seed, pub_seed + 32); return p; }
Bytes Key::ext_seed() const { Bytes p = descriptor(hash, h); p.insert(p.end(), seed.begin(), seed.end()); return p; }
Bytes Key::sk(uint32_t i) const { Bytes s = {(uint8_t)(i>>24),(uint8_t)(i>>16),(uint8_t)(i>>8),(uint8_t)i}; s.insert(s.end(), sk_seed, sk_seed+32); s.insert(s.end(), sk_prf, sk_prf+32); s.insert(s.end(), pub_seed, pub_seed+32); Bytes r = root(); s.insert(s.end(), r.begin(), r.end()); return s; }
static void msghash(int hash, uint8_t *out, const uint8_t *R, const uint8_t *root, uint32_t idx, const Bytes &m) {
    uint8_t k[96]; memcpy(k, R, 32); memcpy(k + 32, root, 32); memset(k + 64, 0, 32); k[92]=idx>>24; k[93]=idx>>16; k[94]=idx>>8; k[95]=idx;
    core(hash, out, 2, k, 96, m.data(), m.size());
}
void Key::ots(uint32_t i, const uint8_t *mh, uint8_t *out) const {
    uint8_t seed[32]; otsseed(*this, i, seed); Adr a; otsadr(a, i);
    if (mode >= LEAF) stub_ots_sign(out, len, mh, seed, pub_seed, a.a);
    else { std::vector<unsigned> d; digits(w, mh, d); for (unsigned c = 0; c < len; c++) { skel(*this, seed, c, out + 32*c); chain(hash, out + 32*c, 0, d[c], c, pub_seed, a); } }
}
Bytes Key::sign(uint32_t i, const Bytes &m) const { return sign_as(i, m, root(), i); }
Bytes Key::sign_as(uint32_t i, const Bytes &m, const Bytes &r, uint32_t ci) const {
    Bytes s(4 + 32 + 32 * (size_t)len + 32 * h); s[0]=ci>>24; s[1]=ci>>16; s[2]=ci>>8; s[3]=ci;
    uint8_t ib[32] = {0}; ib[28]=s[0]; ib[29]=s[1]; ib[30]=s[2]; ib[31]=s[3]; prf(hash, &s[4], ib, sk_prf);
    uint8_t mh[32]; msghash(hash, mh, &s[4], r.data(), ci, m);
    ots(i, mh, &s[36]);
    uint32_t x = i; for (unsigned l = 0; l < h; l++) { memcpy(&s[36 + 32*(len + l)], &level[l][32 * (size_t)(x ^ 1)], 32); x >>= 1; }
    return s;
}
static void walk(int hash, uint8_t *node, uint32_t x, const uint8_t *path, unsigned h, const uint8_t *ps) {
    for (unsigned l = 0; l < h; l++) { Adr t; t.a[3] = 2; t.a[5] = l; t.a[6] = x >> 1; const uint8_t *sib = path + 32*l; uint8_t o[32]; if (x & 1) HH(hash, o, sib, node, ps, t); else HH(hash, o, node, sib, ps, t); memcpy(node, o, 32); x >>= 1; }
}
static void derive(Key &k) {
    uint8_t e[96]; if (mode == REAL) shake(136, e, 96, k.seed.data(), k.seed.size()); else toy(2256, e, 96, k.seed.data(), k.seed.size());
    memcpy(k.sk_seed, e, 32); memcpy(k.sk_prf, e + 32, 32); memcpy(k.pub_seed, e + 64, 32);
}
void synth(uint64_t sid, int hash, unsigned h, unsigned w, uint32_t idx, const Bytes &m, Bytes &pk, Bytes &s) {
    Key k; k.hash = hash; k.h = h; k.w = w; unsigned l1, l2; wots_lens(w, l1, l2); k.len = l1 + l2; k.seed.resize(48); toy(90, k.seed.data(), 48, (const uint8_t *)&sid, 8); derive(k);
    s.assign(4 + 32 + 32 * (size_t)(k.len + h), 0); s[0]=idx>>24; s[1]=idx>>16; s[2]=idx>>8; s[3]=idx;
    toy(91, &s[36 + 32 * k.len], 32 * h, (const uint8_t *)&sid, 8);
    uint8_t node[32]; leaf(k, idx, node); walk(hash, node, idx, &s[36 + 32 * k.len], h, k.pub_seed);
    pk = descriptor(hash, h); pk.insert(pk.end(), node, node + 32); pk.insert(pk.end(), k.pub_seed, k.pub_seed + 32);
    uint8_t ib[32] = {0}; memcpy(ib + 28, &s[0], 4); prf(hash, &s[4], ib, k.sk_prf);
    uint8_t mh[32]; msghash(hash, mh, &s[4], &pk[3], idx, m); k.ots(idx, mh, &s[36]);
}
bool verify(const Bytes &m, const Bytes &s, const Bytes &pk, unsigned w) {
    if (pk.size() != 67 || (w != 4 && w != 16)) return false;   // no wallet signs with any other
    unsigned l1, l2; wots_lens(w, l1, l2); unsigned len = l1 + l2;
    int hash = pk[0] & 15; unsigned h = (pk[1] & 15) * 2;
    if (hash > 2 || (pk[0] >> 4) || (pk[1] >> 4) || h < 4) return false;
    if (s.size() != 36 + 32 * (size_t)(len + h)) return false;
    uint32_t i = (uint32_t)s[0]<<24|(uint32_t)s[1]<<16|(uint32_t)s[2]<<8|s[3];
    // An index at or beyond 2^h addresses no leaf of the tree.
    uint8_t mh[32]; msghash(hash, mh, &s[4], &pk[3], i, m);
    const uint8_t *ps = &pk[35]; uint8_t node[32]; Adr a; otsadr(a, i);
    Bytes p(s.begin() + 36, s.begin() + 36 + 32 * len);
    if (mode >= LEAF) stub_ots_pk(p.data(), len, &s[36], mh);
    else { std::vector<unsigned> d; digits(w, mh, d); for (unsigned c = 0; c < len; c++) chain(hash, &p[32*c], d[c], w - 1, c, ps, a); }
    ltree(hash, len, p.data(), ps, i, node);
    walk(hash, node, i, &s[36 + 32 * len], h, ps);
    return !memcmp(node, &pk[3], 32);
}
Bytes address(const Bytes &pk) { Bytes a(pk.begin(), pk.begin() + 3); a[2] = 0; Bytes hsh = sha256(pk); a.insert(a.end(), hsh.begin(), hsh.end()); Bytes c = sha256(a); a.insert(a.end(), c.begin() + 28, c.end()); return a; }
bool address_valid(const Bytes &a) {
    if (a.size() != 39 || (a[0] & 15) > 2 || (a[1] >> 4)) return false;
    Bytes c = sha256(Bytes(a.begin(), a.begin() + 35)); return !memcmp(&c[28], &a[35], 4);
}
std::string to_hex(const Bytes &b) { static const char *d = "0123456789abcdef"; std::string s; for (auto x : b) { s += d[x >> 4]; s += d[x & 15]; } return s; }
std::string to_mnemonic(const Bytes &b, const std::vector<std::string> &w) { std::string s; for (size_t i = 0; i < b.size() * 2; i += 3) { unsigned v = 0; for (int k = 0; k < 3; k++) { size_t n = i + k; unsigned nib = n / 2 < b.size() ? (n % 2 ? b[n/2] & 15 : b[n/2] >> 4) : 0; v = v << 4 | nib; } if (i) s += ' '; s += w[v]; } return s; }
}
