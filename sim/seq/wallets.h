// One interface over the six signers the repository ships: C++ fast/basic, the JavaScript wrapper's
// fast/basic, Rust fast/basic.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <emscripten/bind.h>
typedef std::vector<uint8_t> Bytes;
enum Kind { CF = 0, CB = 1, JF = 2, JB = 3, RF = 4, RB = 5 };
extern const char *kind_name[6];
inline bool is_fast(int k) { return k == CF || k == JF || k == RF; }
inline bool is_rust(int k) { return k >= RF; }
struct Wallet {
    int kind;
    virtual ~Wallet() {}
    virtual uint32_t index() = 0;
    virtual int set_index(uint32_t i) = 0;                 // 0 done, 1 refused
    virtual int sign(const Bytes &m, Bytes &sig) = 0;      // 0 done, 1 refused
    virtual int height() = 0;
    virtual Bytes pk() = 0;
    virtual Bytes ext_seed() = 0;
    virtual bool has(const char *what) { return true; }    // "addr" "sk" "remaining" "mnemonic" "verify"
    virtual Bytes address() = 0;
    virtual Bytes sk() { return {}; }
    virtual int64_t remaining() { return -1; }
    virtual int64_t capacity() { return -1; }
    virtual std::string misreported(const Bytes &pk, const Bytes &sk, const Bytes &seed, int hash, unsigned w, size_t siglen) { return ""; }   // facts about itself that are not so
    virtual std::string hexseed() { return ""; }
    virtual std::string mnemonic() { return ""; }
    std::string err;
};
typedef std::unique_ptr<Wallet> WalletP;
bool rust_available();
// how: 0 parameters, 1 extended seed, 2 hex seed, 3 mnemonic (whatever the kind supports)
WalletP make_wallet(int kind, const Bytes &seed48, int h, int hash, unsigned w, std::string &err);
WalletP restore_wallet(int kind, int how, const Bytes &ext_seed, const std::string &hexs, const std::string &mn, unsigned w, std::string &err);
int any_verify(int kind, const Bytes &m, const Bytes &s, const Bytes &pk, unsigned w);  // 1 / 0 / -1 = threw
int any_addr_valid(int lang, const Bytes &a);                                            // lang 0 C++, 1 JS raw, 2 JS string, 3 Rust
emscripten::Val js(const std::string &fn, const std::vector<emscripten::Val> &a, void *self = nullptr);
bool raw_pk_addr(Wallet *w, Bytes &pk, Bytes &addr);   // a JavaScript fast wallet's getPKRaw and getAddressRaw
const std::vector<std::string> &words();
extern "C" {
void *rs_new(int kind, const uint8_t *seed, size_t n, int h, int hash, uint32_t w) __attribute__((weak));
void *rs_from_ext(int kind, const uint8_t *ext, size_t n, uint32_t w) __attribute__((weak));
void rs_free(void *) __attribute__((weak));
uint32_t rs_index(void *) __attribute__((weak));
int rs_set_index(void *, uint32_t) __attribute__((weak));
int rs_sign(void *, const uint8_t *m, size_t n, uint8_t *out, size_t cap, size_t *outlen) __attribute__((weak));
size_t rs_get(void *, int which, uint8_t *out, size_t cap) __attribute__((weak));
size_t rs_facts(void *, uint32_t w, size_t siglen, uint8_t *out, size_t cap) __attribute__((weak));
int64_t rs_num(void *, int which) __attribute__((weak));  // 0 remaining 1 height 2 capacity
int rs_verify(const uint8_t *m, size_t mn, const uint8_t *s, size_t sn, const uint8_t *pk, size_t pn, uint32_t w) __attribute__((weak));
int rs_addr_valid(const uint8_t *a, size_t n) __attribute__((weak));
int rs_codec(int op, const uint8_t *in, size_t n, uint8_t *out, size_t cap, size_t *outlen) __attribute__((weak));  // 0 bin2mnemonic 1 mnemonic2bin 2 bin2hstr 3 hstr2bin 4 address of pk
void *rs_pool_new(const uint8_t *seed, size_t n, int h, uint64_t start, uint64_t size) __attribute__((weak));
void rs_pool_free(void *) __attribute__((weak));
void *rs_pool_next(void *, int *rc) __attribute__((weak));
int rs_pool_available(void *) __attribute__((weak));
uint64_t rs_pool_index(void *) __attribute__((weak));
void rs_sched(uint64_t seed, uint32_t mode) __attribute__((weak));           // decisions of the simulated thread pool
uint64_t rs_sched_stat(int which) __attribute__((weak));                     // 0 spawned 1 finished 2 pending 3 switches 4 hash of the schedule
int rs_flat(int) __attribute__((weak));
int rs_leaf(void (*)(uint32_t, uint8_t *, uint32_t, const uint8_t *, const uint8_t *, const uint8_t *, const uint32_t *)) __attribute__((weak));
int rs_toy(void (*)(uint32_t, uint8_t *, size_t, const uint8_t *, size_t)) __attribute__((weak));
int rs_sched_run(uint32_t n) __attribute__((weak));                          // let n pending jobs run; returns how many did
}
