#include "wraps.h"
#include "glue.h"
#include "rt.h"
#include "../seq/refxmss.h"
#include <cstring>
#include <xmssFast.h>
#include <xmssBasic.h>
#include <stdexcept>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
namespace wr {
static int mode = 0; static bool ok[3] = {true, false, false}; static bool seam = false; GenHook *hook = nullptr;
void set_mode(int m) { mode = m; ref::mode = (ref::Mode)m; }
bool mode_ok(int m) { return ok[m]; } bool gen_seam() { return seam; }
void stub_root(uint8_t *root, const uint8_t *seed, int h, int hash) { uint8_t b[50]; memcpy(b, seed, 48); b[48] = (uint8_t)h; b[49] = (uint8_t)hash; ref::toy(9001, root, 32, b, 50); }
}
typedef unsigned long long ull;
extern "C" {
void __real__Z8shake128PhyPKhy(unsigned char *, ull, const unsigned char *, ull) __attribute__((weak));
void __real__Z8shake256PhyPKhy(unsigned char *, ull, const unsigned char *, ull) __attribute__((weak));
void __real_sha2_256(unsigned char *, unsigned char *, size_t) __attribute__((weak));
void __real__Z10wots_pkgen13eHashFunctionPhPKhPK11wots_paramsS2_Pj(eHashFunction, unsigned char *, const unsigned char *, const wots_params *, const unsigned char *, uint32_t *) __attribute__((weak));
void __real__Z9wots_sign13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj(eHashFunction, unsigned char *, const unsigned char *, const unsigned char *, const wots_params *, const unsigned char *, uint32_t *) __attribute__((weak));
void __real__Z14wots_pkFromSig13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj(eHashFunction, unsigned char *, const unsigned char *, const unsigned char *, const wots_params *, const unsigned char *, uint32_t *) __attribute__((weak));
int __real__Z19xmssfast_Genkeypair13eHashFunctionP11xmss_paramsPhS2_P9bds_stateS2_(eHashFunction, xmss_params *, unsigned char *, unsigned char *, bds_state *, unsigned char *) __attribute__((weak));
void __wrap__Z8shake128PhyPKhy(unsigned char *o, ull ol, const unsigned char *i, ull il) { if (wr::mode) ref::toy(128, o, ol, i, il); else __real__Z8shake128PhyPKhy(o, ol, i, il); }
void __wrap__Z8shake256PhyPKhy(unsigned char *o, ull ol, const unsigned char *i, ull il) { if (wr::mode) ref::toy(2256, o, ol, i, il); else __real__Z8shake256PhyPKhy(o, ol, i, il); }
void __wrap_sha2_256(unsigned char *o, unsigned char *i, size_t il) { if (wr::mode) ref::toy(256, o, 32, i, il); else __real_sha2_256(o, i, il); }
void __wrap__Z10wots_pkgen13eHashFunctionPhPKhPK11wots_paramsS2_Pj(eHashFunction h, unsigned char *pk, const unsigned char *sk, const wots_params *p, const unsigned char *ps, uint32_t *a) { if (wr::mode == ref::LEAF) ref::stub_ots_pkgen(pk, p->len, sk, ps, a); else __real__Z10wots_pkgen13eHashFunctionPhPKhPK11wots_paramsS2_Pj(h, pk, sk, p, ps, a); }
void __wrap__Z9wots_sign13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj(eHashFunction h, unsigned char *sig, const unsigned char *msg, const unsigned char *sk, const wots_params *p, const unsigned char *ps, uint32_t *a) { if (wr::mode == ref::LEAF) ref::stub_ots_sign(sig, p->len, msg, sk, ps, a); else __real__Z9wots_sign13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj(h, sig, msg, sk, p, ps, a); }
void __wrap__Z14wots_pkFromSig13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj(eHashFunction h, unsigned char *pk, const unsigned char *sig, const unsigned char *msg, const wots_params *p, const unsigned char *ps, uint32_t *a) { if (wr::mode == ref::LEAF) ref::stub_ots_pk(pk, p->len, sig, msg); else __real__Z14wots_pkFromSig13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj(h, pk, sig, msg, p, ps, a); }
// Key generation: takes simulated time, can fail, and is either the real one or an instant stand-in
// that fills the key with a function of the seed.
int __wrap__Z19xmssfast_Genkeypair13eHashFunctionP11xmss_paramsPhS2_P9bds_stateS2_(eHashFunction hf, xmss_params *p, unsigned char *pk, unsigned char *sk, bds_state *st, unsigned char *seed) {
    wr::seam = true; wr::GenHook *hk = wr::hook;
    if (!hk) return __real__Z19xmssfast_Genkeypair13eHashFunctionP11xmss_paramsPhS2_P9bds_stateS2_(hf, p, pk, sk, st, seed);
    hk->begin(seed, (int)p->h, (int)hf);
    int rc = 0;
    if (hk->stub()) {
        uint8_t e[96]; ref::shake(136, e, 96, seed, 48); memset(sk, 0, 4); memcpy(sk + 4, e, 96); wr::stub_root(sk + 100, seed, (int)p->h, (int)hf); memcpy(pk, sk + 100, 32); memcpy(pk + 32, sk + 68, 32);
    } else {
        try { rc = __real__Z19xmssfast_Genkeypair13eHashFunctionP11xmss_paramsPhS2_P9bds_stateS2_(hf, p, pk, sk, st, seed); } catch (...) { hk->end(false); throw; }
    }
    hk->end(true); return rc;
}
}
namespace wr {
static void probe();
// In a process of its own: the code under test must not have run before the first simulated run.
void calibrate() {
    int fd[2]; char b[3] = {0, 0, 0}; if (pipe(fd)) _exit(3);
    pid_t pid = fork(); if (pid < 0) _exit(3);
    if (pid == 0) { rlimit l = {10, 10}; setrlimit(RLIMIT_CPU, &l); probe(); b[0] = ok[1]; b[1] = ok[2]; b[2] = seam; ssize_t n = write(fd[1], b, 3); _exit(n != 3); }
    close(fd[1]); if (read(fd[0], b, 3) != 3) b[0] = b[1] = b[2] = 0; close(fd[0]); int st; while (waitpid(pid, &st, 0) < 0) {}
    ok[1] = b[0]; ok[2] = b[1]; seam = b[2];
}
static void probe() {
    for (int m = 1; m <= 2; m++) {
        bool good = true; set_mode(m);
        try { for (int hash = 0; hash < 3 && good; hash++) {
            auto seed = sim::bytes_from(4711 + hash, 48); std::vector<uint8_t> msg = {1, 2, 3}; auto k = ref::key(seed, hash, 4, 16);
            XmssFast f(seed, 4, (eHashFunction)hash); XmssBasic b(seed, 4, (eHashFunction)hash, SHA256_2X, 16); auto s = k->sign(0, msg);
            good = f.getPK() == k->pk() && b.getPK() == k->pk() && f.sign(msg) == s && b.sign(msg) == s && XmssBase::verify(msg, s, k->pk());
        } } catch (...) { good = false; }
        ok[m] = good;
    }
    set_mode(0);
}
}
