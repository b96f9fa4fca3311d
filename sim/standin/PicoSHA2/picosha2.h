// Stand-in for the PicoSHA2 submodule (deps/PicoSHA2 is empty in this checkout): an independent
// SHA-256 with the part of picosha2's interface that code like theQRL/qrllib can use.
#ifndef VERIF_STANDIN_PICOSHA2_H
#define VERIF_STANDIN_PICOSHA2_H
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <iterator>
#include <algorithm>
#include <sstream>
#include <fstream>
#include <cassert>
namespace picosha2 {
typedef unsigned long word_t;
typedef unsigned char byte_t;
static const size_t k_digest_size = 32;
namespace standin {
inline uint32_t rr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
inline void block(uint32_t s[8], const uint8_t *p) {
    static const uint32_t K[64] = {
        0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
        0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
        0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
        0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
        0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
        0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
        0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
        0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
    uint32_t w[64];
    for (int i = 0; i < 16; i++)
        w[i] = (uint32_t)p[4*i] << 24 | (uint32_t)p[4*i+1] << 16 | (uint32_t)p[4*i+2] << 8 | p[4*i+3];
    for (int i = 16; i < 64; i++) {
        uint32_t a = rr(w[i-15],7) ^ rr(w[i-15],18) ^ (w[i-15] >> 3);
        uint32_t b = rr(w[i-2],17) ^ rr(w[i-2],19) ^ (w[i-2] >> 10);
        w[i] = w[i-16] + a + w[i-7] + b;
    }
    uint32_t a=s[0],b=s[1],c=s[2],d=s[3],e=s[4],f=s[5],g=s[6],h=s[7];
    for (int i = 0; i < 64; i++) {
        uint32_t t1 = h + (rr(e,6)^rr(e,11)^rr(e,25)) + ((e&f)^(~e&g)) + K[i] + w[i];
        uint32_t t2 = (rr(a,2)^rr(a,13)^rr(a,22)) + ((a&b)^(a&c)^(b&c));
        h=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
    }
    s[0]+=a; s[1]+=b; s[2]+=c; s[3]+=d; s[4]+=e; s[5]+=f; s[6]+=g; s[7]+=h;
}
} // namespace standin
class hash256_one_by_one {
public:
    hash256_one_by_one() { init(); }
    void init() {
        static const uint32_t iv[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
        std::memcpy(s_, iv, sizeof iv); n_ = 0; total_ = 0;
    }
    template <typename It> void process(It first, It last) {
        for (; first != last; ++first) put(static_cast<uint8_t>(*first));
    }
    void finish() {
        uint64_t bits = total_ * 8;
        put(0x80);
        while (n_ != 56) put(0);
        for (int i = 7; i >= 0; i--) put(static_cast<uint8_t>(bits >> (8 * i)));
    }
    template <typename Out> void get_hash_bytes(Out first, Out last) const {
        for (int i = 0; i < 32 && first != last; i++, ++first)
            *first = static_cast<uint8_t>(s_[i >> 2] >> (24 - 8 * (i & 3)));
    }
private:
    void put(uint8_t b) { buf_[n_++] = b; total_++; if (n_ == 64) { standin::block(s_, buf_); n_ = 0; } }
    uint32_t s_[8]; uint8_t buf_[64]; size_t n_; uint64_t total_;
};
template <typename It> void output_hex(It first, It last, std::ostream &os) {
    static const char *d = "0123456789abcdef";
    for (; first != last; ++first) os << d[(static_cast<uint8_t>(*first) >> 4) & 15] << d[static_cast<uint8_t>(*first) & 15];
}
template <typename It> std::string bytes_to_hex_string(It first, It last) {
    std::ostringstream o; output_hex(first, last, o); return o.str();
}
template <typename C> std::string bytes_to_hex_string(const C &c) { return bytes_to_hex_string(c.begin(), c.end()); }
inline std::string get_hash_hex_string(const hash256_one_by_one &h) {
    byte_t b[32]; h.get_hash_bytes(b, b + 32); return bytes_to_hex_string(b, b + 32);
}
template <typename It, typename Out> void hash256(It first, It last, Out first2, Out last2, int = 0) {
    hash256_one_by_one h; h.process(first, last); h.finish(); h.get_hash_bytes(first2, last2);
}
template <typename It, typename C> void hash256(It first, It last, C &dst) { hash256(first, last, dst.begin(), dst.end()); }
template <typename S, typename Out> void hash256(const S &src, Out first, Out last) { hash256(src.begin(), src.end(), first, last); }
template <typename S, typename C> void hash256(const S &src, C &dst) { hash256(src.begin(), src.end(), dst.begin(), dst.end()); }
template <typename It> std::string hash256_hex_string(It first, It last) {
    byte_t b[32]; hash256(first, last, b, b + 32); return bytes_to_hex_string(b, b + 32);
}
template <typename It> void hash256_hex_string(It first, It last, std::string &hex) { hex = hash256_hex_string(first, last); }
template <typename S> std::string hash256_hex_string(const S &src) { return hash256_hex_string(src.begin(), src.end()); }
template <typename S> void hash256_hex_string(const S &src, std::string &hex) { hex = hash256_hex_string(src.begin(), src.end()); }
} // namespace picosha2
#endif
