// Ideal signature scheme and key encapsulation standing in for the absent Dilithium/Kyber code:
// deterministic functions with the pinned sizes, the same buffer usage and the same return codes.
#pragma once
#include <cstdint>
#include <vector>
namespace ideal {
void seed_random(uint64_t s);
extern bool implicit_reject;             // newer Kyber: decapsulation always returns 0
extern unsigned fail_enc;                // (unused primitive failures)
bool dil_valid(const std::vector<uint8_t> &blob, const std::vector<uint8_t> &pk);
int kyb_dec(std::vector<uint8_t> &ss, const std::vector<uint8_t> &ct, const std::vector<uint8_t> &sk);
}
