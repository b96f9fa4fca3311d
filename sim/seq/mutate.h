// Byte- and text-level damage, described by plan lines so that it can be minimised and replayed.
#pragma once
#include "scn.h"
// mutation words: "<kind> <a> <b>"; kinds below. Returns false when nothing changed.
enum Mut { M_NONE, M_FLIP, M_SET, M_DROP, M_INS, M_TRUNC, M_EXT, M_SWAP, M_ZERO, M_SPLICE, M_RAND, M_DUP, M_XORRUN, M_EMPTY };
inline void gen_mut(Rng &r, std::vector<std::string> &o, size_t n, bool splice = true) {
    int k = (int[]){M_FLIP, M_SET, M_DROP, M_INS, M_TRUNC, M_EXT, M_SWAP, M_ZERO, M_SPLICE, M_RAND, M_DUP, M_XORRUN, M_EMPTY}[r.pickw({40, 8, 6, 6, 8, 8, 6, 4, splice ? 8 : 0, 2, 2, 4, 1})];
    o.push_back(std::to_string(k)); o.push_back(std::to_string(r.below(n ? n * 8 : 8))); o.push_back(std::to_string(r.below(1 << 16)));
}
inline Bytes apply_mut(const Bytes &in, int k, uint64_t a, uint64_t b, const Bytes *other = nullptr) {
    Bytes v = in; size_t n = v.size(); size_t p = n ? (a / 8) % n : 0;
    switch (k) {
        case M_FLIP: if (n) v[p] ^= (uint8_t)(1u << (a % 8)); break;
        case M_SET: if (n) v[p] = (uint8_t)b; break;
        case M_DROP: if (n) v.erase(v.begin() + p); break;
        case M_INS: v.insert(v.begin() + p, (uint8_t)b); break;
        case M_TRUNC: v.resize(n - (n ? std::min<size_t>(n, 1 + (b % 4 ? b % 70 : b)) : 0)); break;
        case M_EXT: { size_t m = 1 + (b % 4 ? b % 70 : b % 4000); for (size_t i = 0; i < m; i++) v.push_back((uint8_t)(b % 3 ? 0 : i + a)); break; }
        case M_SWAP: if (n > 1) std::swap(v[p], v[b % n]); break;
        case M_ZERO: for (size_t i = p; i < n && i < p + 1 + b % 40; i++) v[i] = b & 0x8000 ? 0xff : 0; break;
        case M_SPLICE: if (other && other->size() && n) { size_t e = std::min(n, other->size()); size_t l = 1 + b % 64; for (size_t i = p; i < e && i < p + l; i++) v[i] = (*other)[i]; } break;
        case M_RAND: { auto q = sim::bytes_from(a * 65537 + b, n); v = q; break; }
        case M_DUP: v.insert(v.end(), in.begin(), in.end()); break;
        case M_XORRUN: for (size_t i = p; i < n && i < p + 1 + b % 8; i++) v[i] ^= (uint8_t)(b >> 8 | 1); break;
        case M_EMPTY: v.clear(); break;
    }
    return v;
}
// text damage
inline void gen_text_mut(Rng &r, std::vector<std::string> &o) { o.push_back(std::to_string(r.below(11))); o.push_back(std::to_string(r.below(4096))); o.push_back(std::to_string(r.below(4096))); }
inline std::string text_mut(std::string s, int k, uint64_t a, uint64_t b) {
    if (s.empty()) return s; size_t p = a % s.size();
    switch (k) {
        case 0: s[p] = "0123456789abcdefgxABCDEF zq"[b % 27]; break;
        case 1: s.erase(p, 1); break;
        case 2: s.insert(p, 1, "0f a"[b % 4]); break;
        case 3: s = s.substr(0, p); break;
        case 4: s += "0 a"[b % 3]; break;
        case 5: std::swap(s[p], s[b % s.size()]); break;
        case 6: s[p] = (char)(b & 0xff); break;
        case 7: for (auto &ch : s) if (b & 1) ch = (char)toupper(ch); else ch = (char)tolower(ch); break;
        case 8: s = std::string(1 + b % 3, " \t\n"[b % 3]) + s; break;
        case 9: s[p] = (char)toupper(s[p]); break;
        default: s += std::string(b % 3, '0'); break;
    }
    return s;
}
inline std::string words_mut(const std::string &mn, int k, uint64_t a, uint64_t b) {
    std::vector<std::string> v; { std::istringstream is(mn); std::string x; while (is >> x) v.push_back(x); } if (v.empty()) return mn; size_t i = a % v.size(), j = b % v.size(); std::string sep = " ";
    switch (k) {
        case 0: v[i] = words()[b % 4096]; break;
        case 1: std::swap(v[i], v[j]); break;
        case 2: v.erase(v.begin() + i); break;
        case 3: v.insert(v.begin() + i, words()[b % 4096]); break;
        case 4: v[i] = v[i].substr(0, v[i].size() - 1); break;
        case 5: v[i] += "s"; break;
        case 6: v[i][0] = (char)toupper(v[i][0]); break;
        case 7: v.erase(v.begin() + i); if (v.size()) v.erase(v.begin() + j % v.size()); break;
        case 8: v.push_back(v[i]); v.push_back(v[j % v.size()]); break;
        case 9: sep = "  "; break;
        default: v[i] = v[j]; break;
    }
    std::string s; for (size_t n = 0; n < v.size(); n++) { if (n) s += (sep == "  " && n == i + 1) ? "  " : " "; s += v[n]; } return s;
}
// what a text means; false: it is no such text
inline int nib(int ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
// what a hex text means; false: it is not hex
inline bool ref_hex(const std::string &s, Bytes &o) { o.clear(); if (s.size() % 2) return false; for (size_t i = 0; i < s.size(); i += 2) { int a = nib((unsigned char)s[i]), b = nib((unsigned char)s[i + 1]); if (a < 0 || b < 0) return false; o.push_back((uint8_t)(a * 16 + b)); } return true; }
inline bool ref_mnemonic(const std::string &s, Bytes &o) {
    static std::map<std::string, int> ix; if (ix.empty()) for (size_t i = 0; i < words().size(); i++) ix[words()[i]] = (int)i;
    o.clear(); std::istringstream is(s); std::string x; std::vector<int> v; while (is >> x) { auto it = ix.find(x); if (it == ix.end()) return false; v.push_back(it->second); }
    if (v.size() % 2) return false;
    for (size_t i = 0; i + 1 < v.size(); i += 2) { o.push_back((uint8_t)(v[i] >> 4)); o.push_back((uint8_t)((v[i] & 15) << 4 | v[i + 1] >> 8)); o.push_back((uint8_t)v[i + 1]); }
    return true;
}
