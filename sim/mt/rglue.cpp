// The Rust half, for the threads scenario. Absent from builds without it.
#include "glue.h"
#include "rt.h"
#include "../seq/refxmss.h"
#include <cstring>
extern "C" {
#define W __attribute__((weak))
W void *rs_new(int, const uint8_t *, size_t, int, int, uint32_t); W void *rs_from_ext(int, const uint8_t *, size_t, uint32_t); W void rs_free(void *); W uint32_t rs_index(void *); W int rs_set_index(void *, uint32_t); W int rs_sign(void *, const uint8_t *, size_t, uint8_t *, size_t, size_t *); W size_t rs_get(void *, int, uint8_t *, size_t); W int64_t rs_num(void *, int);
W int rs_verify(const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, uint32_t); W int rs_addr_valid(const uint8_t *, size_t); W int rs_codec(int, const uint8_t *, size_t, uint8_t *, size_t, size_t *); W int rs_toy(void (*)(uint32_t, uint8_t *, size_t, const uint8_t *, size_t)); W int rs_leaf(void (*)(uint32_t, uint8_t *, uint32_t, const uint8_t *, const uint8_t *, const uint8_t *, const uint32_t *)); W int rs_random_seed(uint32_t, const uint8_t *, size_t, uint8_t *, size_t, size_t *); W void rs_rand_script(uint64_t, uint32_t, uint32_t, uint32_t, uint64_t);
W void rs_sched(uint64_t, uint32_t); W void *rs_pool_new(const uint8_t *, size_t, int, uint64_t, uint64_t); W void rs_pool_free(void *); W void *rs_pool_next(void *, int *); W int rs_pool_available(void *); W uint64_t rs_pool_index(void *);
W void rs_pq_seed(uint64_t); W void *rs_dil_new(const uint8_t *, size_t, const uint8_t *, size_t, int *); W void rs_dil_free(void *); W size_t rs_dil_get(void *, int, uint8_t *, size_t); W int rs_dil_sign(void *, const uint8_t *, size_t, uint8_t *, size_t, size_t *); W int rs_dil_open(const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, size_t *); W int rs_dil_extract(int, const uint8_t *, size_t, uint8_t *, size_t, size_t *);
W void *rs_kyb_new(const uint8_t *, size_t, const uint8_t *, size_t, int *); W void rs_kyb_free(void *); W size_t rs_kyb_get(void *, int, uint8_t *, size_t); W int rs_kyb_do(void *, int, const uint8_t *, size_t);
}
static void toy(uint32_t d, uint8_t *o, size_t n, const uint8_t *i, size_t il) { mt::NoSut q; ref::toy(d, o, n, i, il); }
static void leaf(uint32_t op, uint8_t *o, uint32_t len, const uint8_t *a, const uint8_t *msg, const uint8_t *ps, const uint32_t *ad) { mt::NoSut q; if (op == 0) ref::stub_ots_pkgen(o, len, a, ps, ad); else if (op == 1) ref::stub_ots_sign(o, len, msg, a, ps, ad); else ref::stub_ots_pk(o, len, a, msg); }
bool r_ok() { return rs_new && rs_sched && rs_toy && rs_leaf; }
bool r_mode(int m) { bool a = rs_toy(m ? toy : nullptr) == 1, b = rs_leaf(m == 2 ? leaf : nullptr) == 1; return !m || (a && (m == 1 || b)); }
void *r_signer(int kind, const Bytes &seed, int h, int hash, unsigned w, std::string &err) { mt::Sut s; void *x = kind == 2 ? rs_from_ext(0, seed.data(), seed.size(), w) : rs_new(kind, seed.data(), seed.size(), h, hash, w); if (!x) err = "refused"; return x; }
void r_signer_free(void *x) { mt::Sut s; rs_free(x); }
Bytes r_do(void *x, int op, const Bytes &a, const Bytes &b, const Bytes &c, uint64_t n, unsigned w) {
    Bytes out, buf(16384); size_t k = 0; mt::Sut s;
    auto put = [&](const uint8_t *p, size_t m) { mt::NoSut q; for (int i = 0; i < 4; i++) out.push_back((uint8_t)(m >> (8 * i))); out.insert(out.end(), p, p + m); };
    auto num = [&](int64_t v) { mt::NoSut q; for (int i = 0; i < 8; i++) out.push_back((uint8_t)((uint64_t)v >> (8 * i))); };
    auto got = [&](int rc) { num(rc); if (rc == 0) put(buf.data(), std::min(k, buf.size())); };
    auto codec = [&](int o, const Bytes &in) { k = 0; got(rs_codec(o, in.data(), in.size(), buf.data(), buf.size(), &k)); };
    auto with = [&](std::initializer_list<int> p, const Bytes &in) { Bytes v; { mt::NoSut q; for (int i : p) v.push_back((uint8_t)i); v.insert(v.end(), in.begin(), in.end()); } return v; };
    switch (op) {
        case 0: case 17: got(rs_sign(x, a.data(), a.size(), buf.data(), buf.size(), &k)); num(rs_index(x)); break;
        case 1: num(rs_set_index(x, (uint32_t)n)); num(rs_num(x, 0)); break;
        case 2: for (int i = 0; i < 5; i++) { k = rs_get(x, i, buf.data(), buf.size()); put(buf.data(), k); } num(rs_index(x)); break;
        case 3: num(rs_verify(a.data(), a.size(), b.data(), b.size(), c.data(), c.size(), w)); break;
        case 4: codec(4, a); break;
        case 5: num(rs_addr_valid(a.data(), a.size())); break;
        case 6: codec(2, a); break; case 7: codec(3, a); break; case 8: codec(0, a); break; case 9: codec(1, a); break; case 10: codec(12, a); break;
        case 11: codec(8, with({(int)(n & 255)}, a)); break; case 12: codec(9, with({(int)(n & 255)}, a)); break; case 13: codec(10, with({(int)(n % 4)}, a)); break; case 14: codec(11, with({(int)(n % 40), 3}, a)); break;
        case 15: case 16: case 20: case 24: codec(6, with({(int)(n % 4), (int)(n % 20), 0}, {})); break;
        case 18: codec(7, a); break;
        case 19: rs_rand_script(n + 1, 0, 0, 0, ~0ULL); got(rs_random_seed((uint32_t)(n % 100), a.data(), 0, buf.data(), buf.size(), &k)); break;
        case 21: if (rs_dil_new && rs_pq_seed) { int rc = 0; rs_pq_seed(n * 7 + a.size()); void *d = rs_dil_new(nullptr, (size_t)-1, nullptr, 0, &rc); if (!d) { num(rc); break; } Bytes pk, sm, sk; { mt::NoSut q; pk.resize(8192); sm.resize(16384); sk.resize(8192); } size_t pn = rs_dil_get(d, 0, pk.data(), pk.size()), sn = 0, kn = rs_dil_get(d, 1, sk.data(), sk.size()); rc = rs_dil_sign(d, a.data(), a.size(), sm.data(), sm.size(), &sn); num(rc); put(sm.data(), sn); rs_dil_free(d);
            void *e = rs_dil_new(pk.data(), pn, sk.data(), kn, &rc); if (e) { k = 0; got(rs_dil_sign(e, b.data(), b.size() % 300, buf.data(), buf.size(), &k)); rs_dil_free(e); } got(rs_dil_open(sm.data(), sn, pk.data(), pn, buf.data(), buf.size(), &k)); for (int i = 0; i < 2; i++) got(rs_dil_extract(i, sm.data(), sn, buf.data(), buf.size(), &k)); sm[n % sn] ^= 1; got(rs_dil_open(sm.data(), sn, pk.data(), pn, buf.data(), buf.size(), &k)); { mt::NoSut q; Bytes().swap(pk); Bytes().swap(sm); Bytes().swap(sk); } } break;
        case 22: if (rs_kyb_new && rs_pq_seed) { int rc = 0; rs_pq_seed(n * 5 + 1); void *p = rs_kyb_new(nullptr, (size_t)-1, nullptr, 0, &rc), *q2 = rs_kyb_new(nullptr, (size_t)-1, nullptr, 0, &rc); if (p && q2) { uint8_t pk[4096], ct[4096]; size_t pn = rs_kyb_get(q2, 0, pk, sizeof pk); num(rs_kyb_do(p, 0, pk, pn)); size_t cn = rs_kyb_get(p, 3, ct, sizeof ct); num(rs_kyb_do(q2, 1, ct, cn)); for (void *z : {p, q2}) { k = rs_kyb_get(z, 2, buf.data(), buf.size()); put(buf.data(), k); } } if (p) rs_kyb_free(p); if (q2) rs_kyb_free(q2); } break;
        case 25: { rs_sched(n + 1, 0); void *p = rs_pool_new(a.data(), a.size(), 4, n % 300, 1 + n % 3); num(!!p); if (p) { for (int i = 0; i < 2; i++) { int rc = 0; void *t = rs_pool_next(p, &rc); num(rc); if (t) { k = rs_get(t, 0, buf.data(), buf.size()); put(buf.data(), k); rs_free(t); } } num(rs_pool_available(p)); num((int64_t)rs_pool_index(p)); rs_pool_free(p); } rs_sched(1, 0); break; }
        default: if (x) { for (int i = 0; i < 3; i++) num(rs_num(x, i)); num(rs_index(x)); } break;
    }
    { mt::NoSut q; Bytes().swap(buf); }
    return out;
}
