#include "glue.h"
#include "rt.h"
#include <cstring>
#include <dilithium.h>
#include <kyber.h>
#include <hashing.h>
#include <misc.h>
#include <qrlHelper.h>
#include <system_error>
#include <xmssBasic.h>
#include <xmssFast.h>
#include <xmssPool.h>
typedef std::shared_ptr<XmssFast> Tree;
template <class F> static int guarded(F f) {
    try { f(); return G_OK; } catch (const SimBuildFailure &) { return G_SIMBUILD; } catch (const std::system_error &) { return G_SYSTEM; } catch (const std::bad_alloc &) { return G_NOMEM; }
    catch (const std::runtime_error &e) { return strstr(e.what(), "simulated build failure") ? G_SIMBUILD : G_OTHER; } catch (...) { return G_OTHER; }
}
template <class T> static std::vector<uint8_t> sut(const T &v) { mt::NoSut n; return std::vector<uint8_t>(v.begin(), v.end()); }
void *g_pool_new(const Bytes &seed, int h, uint64_t start, uint64_t size, int &err) { mt::Sut s; void *p = nullptr; err = guarded([&] { p = new XmssPool(seed, (unsigned char)h, (size_t)start, (size_t)size); }); return p; }
void g_pool_free(void *p) { mt::NoFault nf; mt::Sut s; delete (XmssPool *)p; }
void *g_pool_next(void *p, int &err) {
    mt::Sut s; Tree *o; { mt::NoSut n; o = new Tree(); }
    err = guarded([&] { Tree t = ((XmssPool *)p)->getNextTree(); *o = std::move(t); });
    if (err == G_OK && !*o) err = G_NULL;
    if (err != G_OK) { mt::NoSut n; delete o; return nullptr; }
    return o;
}
int g_pool_available(void *p) { mt::Sut s; int r = -1; guarded([&] { r = ((XmssPool *)p)->isAvailable() ? 1 : 0; }); return r; }
uint64_t g_pool_index(void *p, int &err) { mt::Sut s; uint64_t r = 0; err = guarded([&] { r = ((XmssPool *)p)->getCurrentIndex(); }); return r; }
TreeInfo g_tree_info(void *t) { TreeInfo i; mt::NoFault nf; mt::Sut s; Tree &x = *(Tree *)t; i.ptr = x.get(); auto a = x->getSeed(); auto b = x->getPK(); { mt::NoSut n; i.seed.assign(a.begin(), a.end()); i.pk.assign(b.begin(), b.end()); } i.h = x->getHeight(); i.hash = x->getDescriptor().getHashFunction(); i.index = x->getIndex(); return i; }
int g_tree_sign(void *t, const Bytes &m, Bytes &sig) { mt::NoFault nf; mt::Sut s; return guarded([&] { auto r = (*(Tree *)t)->sign(m); mt::NoSut n; sig.assign(r.begin(), r.end()); }); }
void g_tree_drop(void *t) { { mt::Sut s; ((Tree *)t)->reset(); } delete (Tree *)t; }
void *g_signer(int kind, const Bytes &seed, int h, int hash, unsigned w, std::string &err) {
    mt::Sut s; XmssBase *x = nullptr;
    try {
        if (kind == 0) x = new XmssFast(seed, (unsigned char)h, (eHashFunction)hash);
        else if (kind == 1) x = new XmssBasic(seed, (unsigned char)h, (eHashFunction)hash, SHA256_2X, w);
        else x = new XmssFast(seed);
    } catch (const std::exception &e) { mt::NoSut n; err = e.what(); }
    return x;
}
void g_signer_free(void *x) { mt::Sut s; delete (XmssBase *)x; }
Bytes g_do(void *signer, int op, const Bytes &a, const Bytes &b, const Bytes &c, uint64_t n, unsigned w) {
    Bytes out; mt::Sut s; XmssBase *x = (XmssBase *)signer;
    auto put = [&](const std::vector<unsigned char> &v) { mt::NoSut q; out.insert(out.end(), v.begin(), v.end()); };
    auto puts = [&](const std::string &v) { mt::NoSut q; out.insert(out.end(), v.begin(), v.end()); };
    auto num = [&](uint64_t v) { mt::NoSut q; for (int i = 0; i < 8; i++) out.push_back((uint8_t)(v >> (8 * i))); };
    try {
        switch (op) {
            case 0: put(x->sign(a)); num(x->getIndex()); break;
            case 1: num(x->setIndex((unsigned)n)); num(x->getRemainingSignatures()); break;
            case 2: put(x->getPK()); put(x->getAddress()); put(x->getExtendedSeed()); put(x->getSK()); num(x->getIndex()); break;
            case 3: num(XmssBase::verify(a, b, c, w)); break;
            case 4: put(QRLHelper::getAddress(a)); break;
            case 5: num(QRLHelper::addressIsValid(a)); break;
            case 6: puts(bin2hstr(a)); break;
            case 7: put(hstr2bin(std::string(a.begin(), a.end()))); break;
            case 8: puts(bin2mnemonic(a)); break;
            case 9: put(mnemonic2bin(std::string(a.begin(), a.end()))); break;
            case 10: put(sha2_256(a)); break;
            case 11: put(shake128((size_t)n, a)); break;
            case 12: put(shake256((size_t)n, a)); break;
            case 13: put(sha2_256_n(a, (size_t)n)); break;
            case 14: for (auto &v : getHashChainSeed(a, (uint32_t)n, 3)) put(v); break;
            case 15: num(XmssBase::getHeightFromSigSize((size_t)n, w)); num(XmssBase::calculateSignatureBaseSize(w)); break;
            case 16: { auto d = QRLDescriptor::fromExtendedPK(a); num(d.getHeight()); put(d.getBytes()); break; }
            case 17: { auto *f = dynamic_cast<XmssFast *>(x); if (f) { XmssFast y(*f); put(y.sign(a)); num(y.getIndex()); } else { XmssBasic y(*dynamic_cast<XmssBasic *>(x)); put(y.sign(a)); } break; }
            case 18: puts(bin2hstr(a, (uint32_t)(n % 50))); put(str2bin(std::string(a.begin(), a.end()))); puts(bin2hstr(std::string(a.begin(), a.end()))); break;
            case 19: num(getRandomSeed((uint32_t)(n % 100), std::string(a.begin(), a.end())).size()); break;
            case 20: { QRLDescriptor d((eHashFunction)(n % 3), (eSignatureType)0, (uint8_t)(4 + 2 * (n % 8)), (eAddrFormatType)0); auto v = d.getBytes(); put(v); auto e = QRLDescriptor::fromBytes(v); num(e.getHeight()); num(e.getHashFunction()); num(e.getAddrFormatType()); num(e.getSignatureType()); break; }
            case 21: { Dilithium d; auto s = d.sign(a); std::vector<uint8_t> m(s.size()); num(Dilithium::sign_open(m, s, d.getPK())); put(Dilithium::extract_message(m)); s[n % s.size()] ^= 1; std::vector<uint8_t> m2(s.size()); num(Dilithium::sign_open(m2, s, d.getPK())); Dilithium e(d.getPK(), d.getSK()); num(e.getPK() == d.getPK()); num(e.sign(a) == d.sign(a)); break; }
            case 22: { Kyber x1, x2; num(x1.kem_encode(x2.getPK())); num(x2.kem_decode(x1.getCypherText())); num(x1.getMyKey() == x2.getMyKey()); auto ct = x1.getCypherText(); ct[n % ct.size()] ^= 1; num(x2.kem_decode(ct)); break; }
            case 23: if (x) { num(x->getHeight()); num(x->getSignatureSize()); num(x->getPublicKeySize()); num(x->getSecretKeySize()); num(x->getNumberSignatures()); put(x->getRoot()); put(x->getPKSeed()); put(x->getSKSeed()); put(x->getSKPRF()); put(x->getDescriptorBytes()); } break;
            case 24: { auto d = QRLDescriptor::fromExtendedSeed(b); num(d.getHeight()); num(d.getHashFunction()); break; }
        }
    } catch (const std::exception &e) { mt::NoSut q; std::string m = std::string("error: ") + e.what(); out.insert(out.end(), m.begin(), m.end()); }
    return out;
}
