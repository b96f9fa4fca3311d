#include "ideal.h"
#include "refxmss.h"
#include "../core/sim.h"
#include <dilithium/ref/api.h>
#include <kyber/ref/api.h>
#include <dilithium/ref/randombytes.h>
#include <cstring>
namespace ideal {
static sim::Rng rng(1); bool implicit_reject = false; unsigned fail_enc = 0;
void seed_random(uint64_t s) { rng = sim::Rng(s); }
static void expand(unsigned dom, uint8_t *o, size_t n, const uint8_t *in, size_t m) { ref::toy(dom, o, n, in, m); }
static void dil_sig(uint8_t *sig, const uint8_t *m, size_t n, const uint8_t *pk) {
    std::vector<uint8_t> b(CRYPTO_PUBLICKEYBYTES + n); memcpy(b.data(), pk, CRYPTO_PUBLICKEYBYTES); if (n) memcpy(b.data() + CRYPTO_PUBLICKEYBYTES, m, n);
    expand(500, sig, CRYPTO_BYTES, b.data(), b.size());
}
static bool dil_check(const uint8_t *sm, size_t n, const uint8_t *pk) { uint8_t s[CRYPTO_BYTES]; dil_sig(s, sm + CRYPTO_BYTES, n - CRYPTO_BYTES, pk); return !memcmp(s, sm, CRYPTO_BYTES); }
bool dil_valid(const std::vector<uint8_t> &b, const std::vector<uint8_t> &pk) { return pk.size() == CRYPTO_PUBLICKEYBYTES && b.size() >= CRYPTO_BYTES && dil_check(b.data(), b.size(), pk.data()); }
static void kyb_pk(uint8_t *pk, const uint8_t *seed) { expand(510, pk, KYBER_PUBLICKEYBYTES, seed, 32); }
// ct = (coins xor mask(pk)) || expand(coins, pk); ss = H(coins, pk, ct)
static void kyb_ct(uint8_t *ct, const uint8_t *coins, const uint8_t *pk) {
    uint8_t mk[32]; expand(511, mk, 32, pk, KYBER_PUBLICKEYBYTES); for (int i = 0; i < 32; i++) ct[i] = coins[i] ^ mk[i];
    uint8_t b[32 + KYBER_PUBLICKEYBYTES]; memcpy(b, coins, 32); memcpy(b + 32, pk, KYBER_PUBLICKEYBYTES); expand(512, ct + 32, KYBER_CIPHERTEXTBYTES - 32, b, sizeof b);
}
static void kyb_ss(uint8_t *ss, const uint8_t *secret, const uint8_t *ct) { uint8_t b[32 + KYBER_CIPHERTEXTBYTES]; memcpy(b, secret, 32); memcpy(b + 32, ct, KYBER_CIPHERTEXTBYTES); expand(513, ss, KYBER_SYMBYTES, b, sizeof b); }
static int dec(uint8_t *ss, const uint8_t *ct, const uint8_t *sk) {
    uint8_t c2[KYBER_CIPHERTEXTBYTES], coins[32], mk[32]; const uint8_t *pk = sk + 32;
    uint8_t t[32]; expand(514, t, 32, sk, KYBER_SECRETKEYBYTES - 32); bool skok = !memcmp(t, sk + KYBER_SECRETKEYBYTES - 32, 32);
    expand(511, mk, 32, pk, KYBER_PUBLICKEYBYTES); for (int i = 0; i < 32; i++) coins[i] = ct[i] ^ mk[i];
    kyb_ct(c2, coins, pk);
    bool ok = skok && !memcmp(c2, ct, KYBER_CIPHERTEXTBYTES);
    kyb_ss(ss, ok ? coins : sk + KYBER_SECRETKEYBYTES - 32, ct);
    return ok || implicit_reject ? 0 : -1;
}
int kyb_dec(std::vector<uint8_t> &ss, const std::vector<uint8_t> &ct, const std::vector<uint8_t> &sk) { ss.assign(32, 0); if (ct.size() != KYBER_CIPHERTEXTBYTES || sk.size() != KYBER_SECRETKEYBYTES) return -2; bool s = implicit_reject; implicit_reject = false; int r = dec(ss.data(), ct.data(), sk.data()); implicit_reject = s; return r; }
}
using namespace ideal;
void randombytes(unsigned char *o, unsigned long long n) { for (unsigned long long i = 0; i < n; i++) o[i] = (unsigned char)rng.next(); }
int crypto_sign_keypair(unsigned char *pk, unsigned char *sk) {
    uint8_t seed[32]; randombytes(seed, 32); expand(501, pk, CRYPTO_PUBLICKEYBYTES, seed, 32);
    memcpy(sk, seed, 32); memcpy(sk + 32, pk, CRYPTO_PUBLICKEYBYTES); size_t o = 32 + CRYPTO_PUBLICKEYBYTES; expand(502, sk + o, CRYPTO_SECRETKEYBYTES - 32 - o, sk, o); expand(503, sk + CRYPTO_SECRETKEYBYTES - 32, 32, sk, CRYPTO_SECRETKEYBYTES - 32); return 0;
}
int crypto_sign(unsigned char *sm, unsigned long long *smlen, const unsigned char *m, unsigned long long n, const unsigned char *sk) {
    uint8_t t[32]; expand(503, t, 32, sk, CRYPTO_SECRETKEYBYTES - 32);
    for (unsigned long long i = n; i-- > 0;) sm[CRYPTO_BYTES + i] = m[i];   // from the end: the buffers may overlap
    dil_sig(sm, sm + CRYPTO_BYTES, n, sk + 32); if (memcmp(t, sk + CRYPTO_SECRETKEYBYTES - 32, 32)) sm[0] ^= 1;
    *smlen = n + CRYPTO_BYTES; return 0;
}
int crypto_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long n, const unsigned char *pk) {
    if (n < CRYPTO_BYTES) { *mlen = (unsigned long long)-1; for (unsigned long long i = 0; i < n; i++) m[i] = 0; return -1; }
    unsigned long long k = n - CRYPTO_BYTES;
    for (unsigned long long i = 0; i < k; i++) m[CRYPTO_BYTES + i] = sm[CRYPTO_BYTES + i];  // scratch use of the whole buffer, as the reference code does
    if (!dil_check(sm, n, pk)) { *mlen = (unsigned long long)-1; for (unsigned long long i = 0; i < n; i++) m[i] = 0; return -1; }
    *mlen = k; for (unsigned long long i = 0; i < k; i++) m[i] = sm[CRYPTO_BYTES + i];
    return 0;
}
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk) {
    uint8_t seed[32]; randombytes(seed, 32); kyb_pk(pk, seed); memcpy(sk, seed, 32); memcpy(sk + 32, pk, KYBER_PUBLICKEYBYTES);
    size_t o = 32 + KYBER_PUBLICKEYBYTES; expand(515, sk + o, KYBER_SECRETKEYBYTES - 32 - o, sk, o); expand(514, sk + KYBER_SECRETKEYBYTES - 32, 32, sk, KYBER_SECRETKEYBYTES - 32); return 0;
}
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk) { uint8_t coins[32]; randombytes(coins, 32); kyb_ct(ct, coins, pk); kyb_ss(ss, coins, ct); return 0; }
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk) { return ideal::dec(ss, ct, sk); }
