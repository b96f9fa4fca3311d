#include "wallets.h"
#include "refxmss.h"
#include "../core/sim.h"
#include <xmssFast.h>
#include <xmssBasic.h>
#include <qrlHelper.h>
#include <misc.h>
#include <wordlist.h>
#include <cstring>
const char *kind_name[6] = {"cpp-fast", "cpp-basic", "js-fast", "js-basic", "rust-fast", "rust-basic"};
using emscripten::Val;
Val js(const std::string &fn, const std::vector<Val> &a, void *self) {
    auto it = emscripten::registry().fns.find(fn);
    if (it == emscripten::registry().fns.end()) throw std::runtime_error("no such JavaScript function: " + fn);
    return it->second(self, a);
}
const std::vector<std::string> &words() { static std::vector<std::string> w(wordlist.begin(), wordlist.end()); return w; }
bool rust_available() { return rs_new != nullptr; }

template <class F> static int guard(std::string &err, F f) { try { f(); return 0; } catch (const std::exception &e) { err = e.what(); return 1; } catch (...) { err = "unknown exception"; return 1; } }

template <class T> struct CppW : Wallet {
    std::unique_ptr<T> x;
    uint32_t index() override { return x->getIndex(); }
    int set_index(uint32_t i) override { return guard(err, [&] { x->setIndex(i); }); }
    int sign(const Bytes &m, Bytes &s) override { return guard(err, [&] { s = x->sign(m); }); }
    int height() override { return x->getHeight(); }
    Bytes pk() override { return x->getPK(); }
    Bytes ext_seed() override { return x->getExtendedSeed(); }
    Bytes address() override { return x->getAddress(); }
    Bytes sk() override { return x->getSK(); }
    int64_t remaining() override { return x->getRemainingSignatures(); }
    int64_t capacity() override { return x->getNumberSignatures(); }
    std::string misreported(const Bytes &pk, const Bytes &sk, const Bytes &seed, int hash, unsigned w, size_t siglen) override {
        auto cut = [](const Bytes &b, size_t a, size_t n) { return Bytes(b.begin() + a, b.begin() + a + n); }; int h = x->getHeight();
        if (x->getRoot() != cut(pk, 3, 32)) return "root";
        if (x->getPKSeed() != cut(pk, 35, 32)) return "public seed";
        if (x->getDescriptorBytes() != cut(pk, 0, 3)) return "descriptor bytes";
        if (x->getSKSeed() != cut(sk, 4, 32)) return "secret seed";
        if (x->getSKPRF() != cut(sk, 36, 32)) return "secret PRF key";
        if (x->getSeed() != seed) return "seed";
        if (x->getPublicKeySize() != pk.size()) return "public key size";
        if (x->getSecretKeySize() != sk.size()) return "secret key size";
        if (x->getSignatureSize(w) != siglen) return "signature size";
        if (XmssBase::calculateSignatureBaseSize(w) + 32u * h != siglen) return "signature base size";
        if (XmssBase::getHeightFromSigSize(siglen, w) != h) return "height of a signature of its size";
        if (w == 16 && (x->getSignatureSize() != siglen || XmssBase::getHeightFromSigSize(siglen) != h)) return "default signature size";
        auto d = x->getDescriptor(); if (d.getHashFunction() != (eHashFunction)hash || d.getSignatureType() != eSignatureType::XMSS || d.getHeight() != h || d.getAddrFormatType() != eAddrFormatType::SHA256_2X || d.getBytes() != cut(pk, 0, 3)) return "descriptor";
        return "";
    }
    std::string hexseed() override { return bin2hstr(x->getExtendedSeed()); }
    std::string mnemonic() override { return bin2mnemonic(x->getExtendedSeed()); }
};
struct JsW : Wallet {
    Val o; std::string c;
    Val m(const char *f, const std::vector<Val> &a = {}) { return js(c + f, a, o.o.get()); }
    uint32_t index() override { return (uint32_t)m("getIndex").u; }
    int set_index(uint32_t i) override { return guard(err, [&] { m("setIndex", {Val(i)}); }); }
    int sign(const Bytes &b, Bytes &s) override { return guard(err, [&] { s = m("sign", {Val(b)}).b; }); }
    int height() override { return (int)m("getHeight").u; }
    Bytes pk() override { return hstr2bin(m("getPK").s); }
    bool has(const char *w) override { if (!strcmp(w, "sk") || !strcmp(w, "remaining")) return false; if (kind == JB && (!strcmp(w, "mnemonic") || !strcmp(w, "addr"))) return false; return true; }
    Bytes address() override { if (kind == JB) return {}; std::string a = m("getAddress").s; return hstr2bin(a.substr(1)); }
    Bytes ext_seed() override { return hstr2bin(m("getHexSeed").s); }
    std::string hexseed() override { return m("getHexSeed").s; }
    std::string mnemonic() override { return kind == JB ? "" : m("getMnemonic").s; }
};
bool raw_pk_addr(Wallet *w, Bytes &pk, Bytes &addr) { auto *j = dynamic_cast<JsW *>(w); if (!j) return false; pk = j->m("getPKRaw").b; addr = j->m("getAddressRaw").b; return true; }
struct RsW : Wallet {
    void *p = nullptr;
    ~RsW() { if (p) rs_free(p); }
    Bytes get(int which) { Bytes b(4096); b.resize(rs_get(p, which, b.data(), b.size())); return b; }
    std::string codec(int op, const Bytes &in) { Bytes b(8192); size_t n = 0; if (rs_codec(op, in.data(), in.size(), b.data(), b.size(), &n)) return ""; return std::string(b.begin(), b.begin() + n); }
    uint32_t index() override { return rs_index(p); }
    int set_index(uint32_t i) override { int r = rs_set_index(p, i); err = r == 2 ? "panic" : r ? "error" : ""; return r ? 1 : 0; }
    int sign(const Bytes &m, Bytes &s) override { s.resize(16384); size_t n = 0; int r = rs_sign(p, m.data(), m.size(), s.data(), s.size(), &n); s.resize(n); err = r == 2 ? "panic" : r ? "error" : ""; return r ? 1 : 0; }
    std::string misreported(const Bytes &pk, const Bytes &sk, const Bytes &seed, int, unsigned w, size_t siglen) override {
        if (!rs_facts) return ""; Bytes b(512), e(pk.begin() + 3, pk.end()); b.resize(rs_facts(p, w, siglen, b.data(), b.size()));
        e.insert(e.end(), pk.begin(), pk.begin() + 3); e.insert(e.end(), sk.begin() + 4, sk.begin() + 68); e.insert(e.end(), seed.begin(), seed.end()); int h = height();
        for (size_t n : {pk.size(), sk.size(), siglen, siglen - 32 * (size_t)h, (size_t)h}) for (int i = 0; i < 4; i++) e.push_back((uint8_t)(n >> 8 * i));
        return b == e ? "" : "root, seed, key or size (field at byte " + std::to_string(b.size() < e.size() ? b.size() : (size_t)(std::mismatch(e.begin(), e.end(), b.begin()).first - e.begin())) + ")";
    }
    int height() override { return (int)rs_num(p, 1); }
    Bytes pk() override { return get(0); }
    Bytes ext_seed() override { return get(1); }
    Bytes address() override { return get(2); }
    Bytes sk() override { return get(3); }
    int64_t remaining() override { return rs_num(p, 0); }
    int64_t capacity() override { return rs_num(p, 2); }
    std::string hexseed() override { return codec(2, ext_seed()); }
    std::string mnemonic() override { return codec(0, ext_seed()); }
};
WalletP make_wallet(int kind, const Bytes &seed, int h, int hash, unsigned w, std::string &err) {
    WalletP r;
    guard(err, [&] {
        auto hf = (eHashFunction)hash;
        if (kind == CF) { auto x = std::make_unique<CppW<XmssFast>>(); x->x = std::make_unique<XmssFast>(seed, (unsigned char)h, hf); r = std::move(x); }
        else if (kind == CB) { auto x = std::make_unique<CppW<XmssBasic>>(); x->x = std::make_unique<XmssBasic>(seed, (unsigned char)h, hf, SHA256_2X, w); r = std::move(x); }
        else if (kind == JF) { auto x = std::make_unique<JsW>(); x->c = "jsqrlwrapper::Xmss."; x->o = js(x->c + "fromParameters", {Val(seed), Val(h), Val(hf)}); r = std::move(x); }
        else if (kind == JB) { auto x = std::make_unique<JsW>(); x->c = "jsqrlwrapper::XmssBasic."; x->o = js(x->c + "fromParameters", {Val(seed), Val(h), Val(hf), Val(SHA256_2X), Val(w)}); r = std::move(x); }
        else { auto x = std::make_unique<RsW>(); x->p = rs_new(kind == RB, seed.data(), seed.size(), h, hash, w); if (!x->p) throw std::runtime_error("rust constructor failed"); r = std::move(x); }
        r->kind = kind;
    });
    return r;
}
WalletP restore_wallet(int kind, int how, const Bytes &ext, const std::string &hexs, const std::string &mn, unsigned w, std::string &err) {
    WalletP r;
    guard(err, [&] {
        Bytes e = how == 2 ? hstr2bin(hexs) : how == 3 ? mnemonic2bin(mn) : ext;
        if (kind == CF) { auto x = std::make_unique<CppW<XmssFast>>(); x->x = std::make_unique<XmssFast>(e); r = std::move(x); }
        else if (kind == JF) {
            auto x = std::make_unique<JsW>(); x->c = "jsqrlwrapper::Xmss.";
            if (how == 3) x->o = js(x->c + "fromMnemonic", {Val(mn)}); else x->o = js(x->c + "fromHexSeed", {Val(how == 2 ? hexs : bin2hstr(ext))});
            r = std::move(x);
        } else if (kind == RF) {
            if (how == 3) { Bytes in(mn.begin(), mn.end()), o(4096); size_t n = 0; if (rs_codec(1, in.data(), in.size(), o.data(), o.size(), &n)) throw std::runtime_error("rust mnemonic"); o.resize(n); e = o; }
            auto x = std::make_unique<RsW>(); x->p = rs_from_ext(0, e.data(), e.size(), w); if (!x->p) throw std::runtime_error("rust constructor failed"); r = std::move(x);
        } else {  // basic signers have no backup constructor of their own: the application decodes the backup
            auto d = QRLDescriptor::fromExtendedSeed(e); Bytes seed(e.begin() + 3, e.end());
            r = make_wallet(kind, seed, d.getHeight(), d.getHashFunction(), w, err);
            if (!r) throw std::runtime_error(err);
        }
        r->kind = kind;
    });
    return r;
}
int any_verify(int kind, const Bytes &m, const Bytes &s, const Bytes &pk, unsigned w) {
    try {
        if (kind == CF || kind == CB) return XmssBase::verify(m, s, pk, w) ? 1 : 0;
        if (kind == JF) return js("jsqrlwrapper::Xmss.verify", {Val(m), Val(s), Val(pk)}).u ? 1 : 0;
        if (kind == JB) return js("jsqrlwrapper::XmssBasic.verify", {Val(m), Val(s), Val(pk), Val(w)}).u ? 1 : 0;
        return rs_verify(m.data(), m.size(), s.data(), s.size(), pk.data(), pk.size(), w);
    } catch (...) { return -1; }
}
int any_addr_valid(int lang, const Bytes &a) {
    try {
        if (lang == 0) return QRLHelper::addressIsValid(a) ? 1 : 0;
        if (lang == 1) return js("jsqrlwrapper::validateAddressRaw", {Val(a)}).u ? 1 : 0;
        if (lang == 2) return js("jsqrlwrapper::validateAddress", {Val("Q" + bin2hstr(a))}).u ? 1 : 0;
        return rs_addr_valid(a.data(), a.size());
    } catch (...) { return -1; }
}
