#include "inject.h"
#include "refxmss.h"
#include "wallets.h"
#include "../core/sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <sys/random.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <xmssFast.h>
#include <xmssBasic.h>

namespace inj {
uint64_t fill_seed = 0; static bool armed = false, fired = false, persist = false; static int64_t fail_at = -1; static uint64_t seen = 0;
void alloc_arm(int64_t f, bool p) { fail_at = f; persist = p; seen = 0; fired = false; armed = true; }
uint64_t alloc_disarm() { armed = false; return seen; }
bool alloc_fired() { return fired; }
static inline void *get(size_t n) {
    if (armed) { int64_t k = (int64_t)seen++; if (fail_at >= 0 && (k == fail_at || (persist && k > fail_at))) { fired = true; return nullptr; } }
    void *p = malloc(n ? n : 1);
    if (p && fill_seed) { uint64_t x = fill_seed; size_t m = n < 65536 ? n : 65536; unsigned char *b = (unsigned char *)p; size_t i = 0; for (; i + 8 <= m; i += 8) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; memcpy(b + i, &x, 8); } for (; i < m; i++) b[i] = (unsigned char)(x >> 56); }
    return p;
}
__attribute__((noinline)) void poison_stack(uint64_t s) {
    volatile uint64_t a[12288]; for (size_t i = 0; i < 12288; i++) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; a[i] = s; }
    asm volatile("" ::"r"(&a[0]) : "memory");
}
Entropy ent;
uint64_t work_hash = 0, work_leaf = 0;
static int mode = 0; static bool ok[4] = {true, false, false, false};
static void rust_toy(uint32_t d, uint8_t *o, size_t ol, const uint8_t *i, size_t il) { work_hash++; ref::toy(d, o, ol, i, il); }
static void rust_leaf(uint32_t op, uint8_t *o, uint32_t len, const uint8_t *a, const uint8_t *msg, const uint8_t *ps, const uint32_t *addr) { work_leaf++; if (op == 0) ref::stub_ots_pkgen(o, len, a, ps, addr); else if (op == 1) ref::stub_ots_sign(o, len, msg, a, ps, addr); else if (op == 2) ref::stub_ots_pk(o, len, a, msg); else ref::stub_ltree(o, len, a, ps, addr); }
void set_mode(int m) { mode = m; ref::mode = (ref::Mode)m; if (rs_toy) rs_toy(m ? rust_toy : nullptr); if (rs_leaf) rs_leaf(m >= 2 ? rust_leaf : nullptr); if (rs_flat) rs_flat(m == 3); }
bool mode_ok(int m) { return ok[m]; }
}
#ifndef __SANITIZE_ADDRESS__
// the C library's allocator with an account of what is held; everything in the process goes through it
static int64_t live_blocks, live_bytes, live_max, live_base;
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static inline void *held(void *p) { if (p) { __atomic_fetch_add(&live_blocks, 1, __ATOMIC_RELAXED); int64_t v = __atomic_add_fetch(&live_bytes, (int64_t)malloc_usable_size(p), __ATOMIC_RELAXED); if (v > live_max) live_max = v; } return p; }
static inline void unheld(void *p) { if (p) { __atomic_fetch_sub(&live_blocks, 1, __ATOMIC_RELAXED); __atomic_fetch_sub(&live_bytes, (int64_t)malloc_usable_size(p), __ATOMIC_RELAXED); } }
void *malloc(size_t n) { return held(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return held(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) { unheld(p); void *q = __libc_realloc(p, n); if (!q && n && p) { held(p); return nullptr; } return held(q); }
void free(void *p) { unheld(p); __libc_free(p); }
void *memalign(size_t a, size_t n) { return held(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return held(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) { void *q = held(__libc_memalign(a, n)); if (!q) return ENOMEM; *p = q; return 0; }
}
void inj::live_mark() { live_base = live_max = live_bytes; }
int64_t inj::live_peak() { return live_max - live_base; }
bool inj::live(int64_t &a, int64_t &b) { a = live_blocks; b = live_bytes; return true; }
#else
bool inj::live(int64_t &, int64_t &) { return false; }
void inj::live_mark() {}
int64_t inj::live_peak() { return 0; }
#endif
void *operator new(size_t n) { void *p = inj::get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = inj::get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return inj::get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return inj::get(n); }
// freed memory is overwritten, so that a use after free reads garbage even where no sanitizer watches
static void put(void *p) noexcept { if (p && inj::fill_seed) { size_t n = malloc_usable_size(p); memset(p, 0xdb, n < 65536 ? n : 65536); } free(p); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }

// ---- hash primitives behind linker wraps (REAL: pass through) ----
typedef unsigned long long ull;
extern "C" {
void __real__Z8shake128PhyPKhy(unsigned char *, ull, const unsigned char *, ull) __attribute__((weak));
void __real__Z8shake256PhyPKhy(unsigned char *, ull, const unsigned char *, ull) __attribute__((weak));
void __real_sha2_256(unsigned char *, unsigned char *, size_t) __attribute__((weak));
void __real__Z10wots_pkgen13eHashFunctionPhPKhPK11wots_paramsS2_Pj(eHashFunction, unsigned char *, const unsigned char *, const wots_params *, const unsigned char *, uint32_t *) __attribute__((weak));
void __real__Z9wots_sign13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj(eHashFunction, unsigned char *, const unsigned char *, const unsigned char *, const wots_params *, const unsigned char *, uint32_t *) __attribute__((weak));
void __real__Z14wots_pkFromSig13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj(eHashFunction, unsigned char *, const unsigned char *, const unsigned char *, const wots_params *, const unsigned char *, uint32_t *) __attribute__((weak));
void __wrap__Z8shake128PhyPKhy(unsigned char *o, ull ol, const unsigned char *i, ull il) { inj::work_hash++; if (inj::mode) ref::toy(128, o, ol, i, il); else __real__Z8shake128PhyPKhy(o, ol, i, il); }
void __wrap__Z8shake256PhyPKhy(unsigned char *o, ull ol, const unsigned char *i, ull il) { inj::work_hash++; if (inj::mode) ref::toy(2256, o, ol, i, il); else __real__Z8shake256PhyPKhy(o, ol, i, il); }
void __wrap_sha2_256(unsigned char *o, unsigned char *i, size_t il) { inj::work_hash++; if (inj::mode) ref::toy(256, o, 32, i, il); else __real_sha2_256(o, i, il); }
void __real__Z6l_tree13eHashFunctionPK11wots_paramsPhS3_PKhPj(eHashFunction, const wots_params *, unsigned char *, unsigned char *, const unsigned char *, uint32_t *) __attribute__((weak));
void __wrap__Z6l_tree13eHashFunctionPK11wots_paramsPhS3_PKhPj(eHashFunction h, const wots_params *p, unsigned char *leaf, unsigned char *pk, const unsigned char *ps, uint32_t *a) {
    if (inj::mode == ref::FLAT) ref::stub_ltree(leaf, p->len, pk, ps, a); else __real__Z6l_tree13eHashFunctionPK11wots_paramsPhS3_PKhPj(h, p, leaf, pk, ps, a);
}
void __wrap__Z10wots_pkgen13eHashFunctionPhPKhPK11wots_paramsS2_Pj(eHashFunction h, unsigned char *pk, const unsigned char *sk, const wots_params *p, const unsigned char *ps, uint32_t *a) {
    inj::work_leaf++; if (inj::mode >= ref::LEAF) ref::stub_ots_pkgen(pk, p->len, sk, ps, a); else __real__Z10wots_pkgen13eHashFunctionPhPKhPK11wots_paramsS2_Pj(h, pk, sk, p, ps, a);
}
void __wrap__Z9wots_sign13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj(eHashFunction h, unsigned char *sig, const unsigned char *msg, const unsigned char *sk, const wots_params *p, const unsigned char *ps, uint32_t *a) {
    if (inj::mode >= ref::LEAF) ref::stub_ots_sign(sig, p->len, msg, sk, ps, a); else __real__Z9wots_sign13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj(h, sig, msg, sk, p, ps, a);
}
void __wrap__Z14wots_pkFromSig13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj(eHashFunction h, unsigned char *pk, const unsigned char *sig, const unsigned char *msg, const wots_params *p, const unsigned char *ps, uint32_t *a) {
    if (inj::mode >= ref::LEAF) ref::stub_ots_pk(pk, p->len, sig, msg); else __real__Z14wots_pkFromSig13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj(h, pk, sig, msg, p, ps, a);
}
}
namespace inj {
// A simulated primitive is used only when the code under test, run on it, agrees with the reference
// run on it; otherwise every run uses the real primitives.
static bool rust_ok[4];
bool rust_toy_ok() { return rust_ok[1]; } bool rust_leaf_ok() { return rust_ok[2]; } bool rust_flat_ok() { return rust_ok[3]; }
static void probe(char *res) {
    for (int m = 1; m <= 3; m++) if (rust_ok[m]) {
        bool good = true; set_mode(m);
        for (int hash = 0; hash < 3 && good; hash++) for (int kind = 0; kind < 2 && good; kind++) {
            auto seed = sim::bytes_from(4811 + hash, 48); auto k = ref::key(seed, hash, 4, 16); std::vector<uint8_t> pk(80), s(8192), msg = {1, 2, 3}; size_t n = 0;
            void *x = rs_new(kind, seed.data(), seed.size(), 4, hash, 16); good = x != nullptr;
            if (x) { pk.resize(rs_get(x, 0, pk.data(), 80)); good = pk == k->pk() && !rs_sign(x, msg.data(), 3, s.data(), s.size(), &n) && (s.resize(n), s == k->sign(0, msg)) && (m == 3 || rs_verify(msg.data(), 3, s.data(), n, pk.data(), pk.size(), 16) == 1); rs_free(x); }
        }
        res[4 + m] = good; set_mode(0);
    }
    for (int m = 1; m <= 3; m++) {
        bool good = true;
        set_mode(m);
        try {
            for (int hash = 0; hash < 3 && good; hash++) {
                auto seed = sim::bytes_from(4711 + hash, 48); std::vector<uint8_t> msg = {1, 2, 3};
                auto k = ref::key(seed, hash, 4, 16);
                XmssFast f(seed, 4, (eHashFunction)hash); XmssBasic b(seed, 4, (eHashFunction)hash, SHA256_2X, 16);
                auto s = k->sign(0, msg);
                good = f.getPK() == k->pk() && b.getPK() == k->pk() && f.sign(msg) == s && b.sign(msg) == s && (m == 3 || XmssBase::verify(msg, s, k->pk()));  // FLAT: the verifier may call its own l_tree, which the linker cannot replace
            }
        } catch (...) { good = false; }
        res[m] = good;
    }
    set_mode(0);
}
// In a process of its own, which may crash or never end: then the runs show it, on the real primitives.
void calibrate() {
    rust_ok[1] = rs_toy && rs_toy(rust_toy) == 1; rust_ok[2] = rust_ok[1] && rs_leaf && rs_leaf(rust_leaf) == 1; rust_ok[3] = rust_ok[2] && rs_flat && rs_flat(1) == 1;
    auto *res = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (res == MAP_FAILED) _exit(3);
    pid_t pid = fork(); if (pid < 0) _exit(3);
    if (pid == 0) { rlimit l = {10, 10}; setrlimit(RLIMIT_CPU, &l); probe(res); _exit(0); }
    int st; while (waitpid(pid, &st, 0) < 0) {}
    for (int m = 1; m <= 3; m++) { ok[m] = res[m]; rust_ok[m] = rust_ok[m] && res[4 + m]; }
    munmap(res, 4096);
}

// ---- entropy source ----
static bool is_rnd(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random") || !strcmp(p, "/dev/srandom") || !strcmp(p, "/dev/hwrng")); }
static const int FD = 900000;
struct SimFile { FILE *f; };
static FILE *simfile = nullptr; static bool fd_open = false;
static ssize_t deliver(void *buf, size_t n) {
    if (!ent.armed) { errno = EBADF; return -1; }
    ent.reads++;
    if (n == 0) return 0;
    if (ent.script.empty()) { if (ent.ended) { if (ent.end_kind == 4) { ent.eofs++; return 0; } ent.errors++; errno = EIO; return -1; } }
    size_t give = n;
    if (!ent.script.empty()) {
        Chunk &c = ent.script.front();
        if (c.kind == 1) { ent.script.pop_front(); ent.eintr++; errno = EINTR; return -1; }
        if (c.kind == 3) { ent.script.pop_front(); ent.errors++; errno = EAGAIN; return -1; }
        if (c.kind == 2) { ent.ended = true; ent.end_kind = 2; ent.script.clear(); ent.errors++; errno = EIO; return -1; }
        if (c.kind == 4) { ent.ended = true; ent.end_kind = 4; ent.script.clear(); ent.eofs++; return 0; }
        if (c.n < n) { give = c.n; ent.short_reads++; }
        ent.script.pop_front();
        if (give == 0) give = 1;
    }
    auto *b = (unsigned char *)buf;
    for (size_t i = 0; i < give; i++) { size_t pos = ent.delivered + i; uint64_t w = sim::mix64(ent.stream_seed ^ (pos / 8) * 0x9e3779b97f4a7c15ULL); b[i] = (unsigned char)(w >> (8 * (pos % 8))); if (pos == ent.flip_at) b[i] ^= 0x5a; }
    ent.delivered += give;
    return (ssize_t)give;
}
static bool open_fails() {
    ent.opens++;
    if (ent.open_eintr > 0) { ent.open_eintr--; ent.opens_failed++; errno = EINTR; return true; }
    if (ent.open_errno) { ent.opens_failed++; errno = ent.open_errno; return true; }
    return false;
}
static ssize_t ck_read(void *, char *b, size_t n) { return deliver(b, n); }
static int ck_close(void *) { return 0; }
static FILE *sim_fopen() {
    if (open_fails()) return nullptr;
    cookie_io_functions_t io = {ck_read, nullptr, nullptr, ck_close};
    simfile = fopencookie(nullptr, "r", io); ent.files++; return simfile;
}
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
}
using namespace inj;
extern "C" {
FILE *fopen(const char *p, const char *m) { static auto r = real<FILE *(*)(const char *, const char *)>("fopen"); return ent.armed && is_rnd(p) ? sim_fopen() : r(p, m); }
FILE *fopen64(const char *p, const char *m) { static auto r = real<FILE *(*)(const char *, const char *)>("fopen64"); return ent.armed && is_rnd(p) ? sim_fopen() : r(p, m); }
int fclose(FILE *f) { static auto r = real<int (*)(FILE *)>("fclose"); if (f == simfile && f) { simfile = nullptr; ent.closes++; ent.files--; } return r(f); }
int fileno(FILE *f) { static auto r = real<int (*)(FILE *)>("fileno"); return f && f == simfile ? FD : r(f); }
static int sim_open() { if (open_fails()) return -1; fd_open = true; ent.files++; return FD; }
int open(const char *p, int fl, ...) { static auto r = real<int (*)(const char *, int, ...)>("open"); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return ent.armed && is_rnd(p) ? sim_open() : r(p, fl, m); }
int open64(const char *p, int fl, ...) { static auto r = real<int (*)(const char *, int, ...)>("open64"); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return ent.armed && is_rnd(p) ? sim_open() : r(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { static auto r = real<int (*)(int, const char *, int, ...)>("openat"); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return ent.armed && is_rnd(p) ? sim_open() : r(d, p, fl, m); }
ssize_t read(int fd, void *b, size_t n) { static auto r = real<ssize_t (*)(int, void *, size_t)>("read"); return fd == FD ? deliver(b, n) : r(fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int c) { static auto r = real<ssize_t (*)(int, const struct iovec *, int)>("readv"); if (fd != FD) return r(fd, v, c); ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t k = deliver(v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : k; t += k; if ((size_t)k < v[i].iov_len) break; } return t; }
ssize_t pread(int fd, void *b, size_t n, off_t o) { static auto r = real<ssize_t (*)(int, void *, size_t, off_t)>("pread"); return fd == FD ? deliver(b, n) : r(fd, b, n, o); }
int close(int fd) { static auto r = real<int (*)(int)>("close"); if (fd == FD) { ent.closes++; ent.files--; return 0; } return r(fd); }
off_t lseek(int fd, off_t o, int w) { static auto r = real<off_t (*)(int, off_t, int)>("lseek"); if (fd == FD) { errno = ESPIPE; return -1; } return r(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { static auto r = real<off64_t (*)(int, off64_t, int)>("lseek64"); if (fd == FD) { errno = ESPIPE; return -1; } return r(fd, o, w); }
ssize_t getrandom(void *b, size_t n, unsigned f) { static auto r = real<ssize_t (*)(void *, size_t, unsigned)>("getrandom"); if (!ent.armed) return r(b, n, f); ent.opens++; if (ent.open_errno) { ent.opens_failed++; errno = ent.open_errno == ENOENT ? ENOSYS : ent.open_errno; return -1; } ssize_t k = deliver(b, n); if (k == 0 && n) { errno = EIO; return -1; } return k; }
int getentropy(void *b, size_t n) { static auto r = real<int (*)(void *, size_t)>("getentropy"); if (!ent.armed) return r(b, n); if (n > 256) { errno = EIO; return -1; } size_t g = 0; while (g < n) { ssize_t k = getrandom((char *)b + g, n - g, 0); if (k <= 0) { if (k < 0 && errno == EINTR) continue; errno = EIO; return -1; } g += (size_t)k; } return 0; }
// the clock jumps between reads while a seed is being made, so a seed that depended on it would show
static uint64_t fakeclk() { static uint64_t n = 0; return 1600000000ULL + (sim::mix64(++n) & 0xffffff); }
time_t time(time_t *t) { static auto r = real<time_t (*)(time_t *)>("time"); if (!ent.armed) return r(t); time_t v = (time_t)fakeclk(); if (t) *t = v; return v; }
int clock_gettime(clockid_t c, struct timespec *t) { static auto r = real<int (*)(clockid_t, struct timespec *)>("clock_gettime"); if (!ent.armed) return r(c, t); t->tv_sec = (time_t)fakeclk(); t->tv_nsec = (long)(fakeclk() % 1000000000); return 0; }
}
