// Fault and nondeterminism seams of the sequential simulator: allocator, stale memory contents,
// entropy source, and (optionally) the hash primitives.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <deque>
namespace inj {
// --- memory ---
extern uint64_t fill_seed;               // contents of fresh memory
void alloc_arm(int64_t fail_at, bool persistent = false);  // the fail_at-th (0-based) allocation fails; persistent: every later one too
uint64_t alloc_disarm();                 // returns the number of allocations seen while armed
bool alloc_fired();
bool live(int64_t &blocks, int64_t &bytes);   // heap held by the process, whoever allocated it; false: this build cannot tell
void poison_stack(uint64_t seed);
// --- hash primitives ---
void set_mode(int m);                    // ref::Mode, for the wraps and the reference
bool mode_ok(int m);                     // calibrated: the code under test really runs on the replaced primitives
bool rust_leaf_ok(); bool rust_flat_ok();                     // and on simulated one-time signatures
bool rust_toy_ok();                      // the Rust half can run on TOY primitives
void calibrate();
extern uint64_t work_hash, work_leaf;    // calls of hash primitives and of one-time key generation
void live_mark();                        // start looking for the peak of what is held
int64_t live_peak();                     // how far above the mark it went
// --- entropy ---
struct Chunk { int kind; size_t n; };    // 0 deliver n bytes, 1 EINTR, 2 EIO, 3 EAGAIN, 4 end of file
struct Entropy {
    bool armed = false; uint64_t stream_seed = 0; std::deque<Chunk> script; int open_errno = 0; int open_eintr = 0;
    size_t flip_at = (size_t)-1;         // invert one byte of the stream
    size_t delivered = 0; int files = 0; unsigned reads = 0, opens = 0, opens_failed = 0, closes = 0, eintr = 0, errors = 0, eofs = 0, short_reads = 0; bool other_source = false;
    bool ended = false; int end_kind = 0;
};
extern Entropy ent;
}
