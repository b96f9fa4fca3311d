// Independent reference implementation used as oracle: SHAKE/SHA-256 (own code), WOTS+, L-tree,
// Merkle tree by whole-tree construction, sign, verify, wallet encodings.
#pragma once
#include <cstdint>
#include <cstddef>
#include <memory>
#include <string>
#include <vector>
namespace ref {
typedef std::vector<uint8_t> Bytes;
enum Mode { REAL = 0, TOY = 1, LEAF = 2, FLAT = 3 };  // TOY: fast mixing function for every hash; LEAF: also an ideal one-time signature; FLAT: also an ideal L-tree (tall trees)
extern Mode mode;                            // must equal the mode of the wraps around the code under test
void shake(unsigned rate, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen);
void sha256(uint8_t out[32], const uint8_t *in, size_t inlen);
Bytes sha256(const Bytes &b);
Bytes shake256(size_t n, const Bytes &b);
Bytes shake128(size_t n, const Bytes &b);
void toy(unsigned domain, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen);
// ideal one-time signature used in LEAF mode: chunk c of a signature is chunk c of the public key
// xored with a mask derived from the message digest, so any change of either changes the public key
void stub_ots_pkgen(uint8_t *pk, unsigned len, const uint8_t *seed32, const uint8_t *pub_seed, const uint32_t addr[8]);
void stub_ots_sign(uint8_t *sig, unsigned len, const uint8_t *msg32, const uint8_t *seed32, const uint8_t *pub_seed, const uint32_t addr[8]);
void stub_ltree(uint8_t *leaf, unsigned len, const uint8_t *pk, const uint8_t *pub_seed, const uint32_t addr[8]);
void stub_ots_pk(uint8_t *pk, unsigned len, const uint8_t *sig, const uint8_t *msg32);

void wots_lens(unsigned w, unsigned &len1, unsigned &len2);
struct Key {
    int hash; unsigned h, w, len; Bytes seed; uint8_t sk_seed[32], sk_prf[32], pub_seed[32];
    std::vector<std::vector<uint8_t>> level;  // level[k] = nodes of height k, concatenated
    Bytes root() const { return Bytes(level[h].begin(), level[h].begin() + 32); }
    Bytes pk() const;       // 67 bytes
    Bytes ext_seed() const; // 51 bytes
    Bytes sk(uint32_t idx) const;
    void ots(uint32_t idx, const uint8_t *msg32, uint8_t *out) const;
    Bytes sign(uint32_t idx, const Bytes &msg) const;
    // what a dishonest key owner can produce: the message hashed under another root, another index claimed
    Bytes sign_as(uint32_t idx, const Bytes &msg, const Bytes &root, uint32_t claimed) const;
};
std::shared_ptr<const Key> key(const Bytes &seed48, int hash, unsigned h, unsigned w);  // cached
// a key and a signature of any height made from one leaf and an invented authentication path
void synth(uint64_t sid, int hash, unsigned h, unsigned w, uint32_t idx, const Bytes &msg, Bytes &pk, Bytes &sig);
bool verify(const Bytes &msg, const Bytes &sig, const Bytes &pk67, unsigned w);
Bytes address(const Bytes &pk67);
bool address_valid(const Bytes &a);
Bytes descriptor(int hash, unsigned h);
std::string to_hex(const Bytes &b);
std::string to_mnemonic(const Bytes &b, const std::vector<std::string> &words);
}
