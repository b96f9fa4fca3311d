// The only way from the simulator into the code under test; compiled with the same instrumentation as it.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
typedef std::vector<uint8_t> Bytes;
enum { G_OK = 0, G_SYSTEM = 1, G_NOMEM = 2, G_SIMBUILD = 3, G_OTHER = 4, G_NULL = 5 };
struct SimBuildFailure { int idx; };
void *g_pool_new(const Bytes &seed, int h, uint64_t start, uint64_t size, int &err);
void g_pool_free(void *pool);
void *g_pool_next(void *pool, int &err);                // heap-allocated std::shared_ptr<XmssFast>
int g_pool_available(void *pool);                       // -1: threw
uint64_t g_pool_index(void *pool, int &err);
struct TreeInfo { Bytes seed, pk; int h = -1, hash = -1; uint32_t index = 0; const void *ptr = nullptr; };
TreeInfo g_tree_info(void *t);
int g_tree_sign(void *t, const Bytes &msg, Bytes &sig); // 0 done, 1 threw
void g_tree_drop(void *t);
// C07: a signer of its own, and every stateless helper
void *g_signer(int kind, const Bytes &seed, int h, int hash, unsigned w, std::string &err);  // kind 0 fast 1 basic 2 fast from extended seed
void g_signer_free(void *);
// performs one operation and returns everything it produced as bytes (errors included)
Bytes g_do(void *signer, int op, const Bytes &a, const Bytes &b, const Bytes &c, uint64_t n, unsigned w);
// the same for the Rust half; kinds and operations as above, plus 25: a whole pool
bool r_ok();
bool r_mode(int m);                   // this thread's primitives: 0 real, 1 fast hashes, 2 and fast one-time signatures; false if this build cannot
void *r_signer(int kind, const Bytes &seed, int h, int hash, unsigned w, std::string &err);
void r_signer_free(void *);
Bytes r_do(void *signer, int op, const Bytes &a, const Bytes &b, const Bytes &c, uint64_t n, unsigned w);
