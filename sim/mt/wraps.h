// Seams below the code under test: hash primitives and key generation.
#pragma once
#include <cstdint>
namespace wr {
void set_mode(int m);          // ref::Mode for the wraps and the reference
bool mode_ok(int m);
bool gen_seam();               // key generation goes through the wrap
void calibrate();
struct GenHook { virtual ~GenHook() {} virtual void begin(const uint8_t *seed, int h, int hash) = 0; virtual bool stub() = 0; virtual void end(bool ok) = 0; };
extern GenHook *hook;
void stub_root(uint8_t *root, const uint8_t *seed, int h, int hash);
}
