"""What each check runs. count = simulated runs wanted, wall = seconds after which a worker stops early."""
REAL = ['src/xmss-alt', 'src/qrl', 'src/shasha', 'src/jswrapper']
STUB = ['operator new/delete (can fail, fills fresh and freed memory)', 'entropy source (fopen/open/read/getrandom)', 'embind registry in place of emscripten', 'PicoSHA2 (own SHA-256)', 'in most runs SHAKE/SHA-256 and WOTS are replaced by a fast ideal function under both the code and the reference; a share of the runs uses the real ones']
def P(*parts):
    """parts: (engine, workers, quick runs, thorough factor)"""
    def f(tier):
        t = tier == 'thorough'
        return [dict(engine=e, workers=w, count=n * (40 if t else 1), wall=2400 if t else 140, seedoff=i * 1000) for i, (e, w, n) in enumerate(parts)]
    return f
LIFE = 'A run is one wallet life generated from one seed: parameters, then signing, skipping, rewinding and exhausting in random order; non-trivial: several signatures or a refused operation happened.'
POOL = 'A run is one C++ pool (size, height, start index, build durations) used by 1 to 5 client threads under one seeded schedule, possibly torn down and reopened, with the injected failures of its plan; '
MTSTUB = ['thread scheduler, clocks, futexes, mutexes, thread creation (deterministic runtime; the threads of the code are real threads that run one at a time)', 'operator new (can fail, never reuses memory within a run)', 'xmssfast_Genkeypair (takes virtual time, can fail; replaced by an instant key in most runs, real in the rest)', 'hash primitives and WOTS replaced by fast ideal functions in the runs that generate keys for real, except some runs of C07', 'PicoSHA2 (own SHA-256)']
def MT(rule, n, **k): return dict(level=k.pop('level', 'exploration'), rule=rule, parts=P(('mt', 8, n)), real=['src/qrl (XmssPool, XmssFast, misc, hashing)', 'src/xmss-alt', 'src/shasha', 'libstdc++ std::async/std::future'], stub=MTSTUB, **k)
PROPS = {
 'C01': MT(POOL + 'non-trivial: at least two requests were made.', 72000),
 'C02': MT(POOL + 'non-trivial: at least one tree was handed out and compared with the reference wallet of its index.', 8000),
 'C03': MT(POOL + 'non-trivial: at least two requests were made while trees were being generated.', 72000),
 'C04': MT(POOL + 'non-trivial: at least two requests were made.', 72000),
 'C05': MT(POOL + 'non-trivial: an injected thread-start, allocation or build failure fired.', 72000, level='fault_enumeration'),
 'C06': MT(POOL + 'non-trivial: the pool was destroyed while builders ran, or its constructor failed.', 20000),
 'C07': MT('A run is 2 to 4 threads, each with a wallet of its own and a random program of signing, skipping, copying, verifying, encoding, hashing, Dilithium and Kyber calls on shared inputs, under one seeded schedule down to single memory accesses; non-trivial: threads overlapped.', 2600),
 'C08': dict(level='exploration', rule=LIFE, parts=P(('seq', 6, 2400), ('seq-asan', 2, 320))),
 'C09': dict(level='exploration', rule=LIFE, parts=P(('seq', 7, 3200), ('seq-asan', 1, 140))),
 'C10': dict(level='exploration', rule='A run is one wallet with a write-ahead index file: signing, crashes at any point, lost unsynced writes, restores from each kind of backup; non-trivial: at least one crash and restore with signatures on both sides.', parts=P(('seq', 7, 1500), ('seq-asan', 1, 80))),
 'C11': dict(level='exploration', rule='A run stores the backups and address of one wallet, damages them in many generated ways and reads them back; non-trivial: something was damaged and judged.', parts=P(('seq', 5, 12000), ('seq-asan', 3, 2400))),
 'C12': dict(level='exploration', rule='A run is a network carrying signed messages of three wallets to a validator while an adversary damages, splices, replays and forges; non-trivial: at least one acceptance and one rejection.', parts=P(('seq', 5, 3000), ('seq-asan', 3, 800))),
 'C13': dict(level='fault_enumeration', rule='A run is one random-seed request against a scripted entropy source (short reads, EINTR, EIO, early end, failed open); non-trivial: a request was answered or refused under a fault script.', parts=P(('seq', 6, 160000), ('seq-asan', 2, 24000)), real=['src/qrl/misc.cpp']),
 'C14': dict(level='fault_enumeration', rule='A run loads getRandomSeed.js into a fresh realm and makes a history of calls with generated size arguments while the simulated WebCrypto device and the global objects around it break, lie and recover; non-trivial: a call met a misbehaving device or an invalid size.', parts=P(('js', 8, 200000)), real=['src/jswrapper/getRandomSeed.js'], stub=['global objects (globalThis, self, window) and crypto.getRandomValues', 'the embind Uint8Vector class (checks values as embind does, can run out of memory)']),
 'C15': dict(level='exploration', rule='A run sends Dilithium signed messages over a channel that damages, truncates, extends, splices and misdirects blobs and keys; non-trivial: messages both accepted and rejected.', parts=P(('seq', 5, 70000), ('seq-asan', 3, 20000)), real=['src/dilithium', 'src/jswrapper/jsdilwrapper.cpp'], stub=['the Dilithium reference code in deps/ (empty submodule): an ideal signature scheme with the same interface and sizes', 'embind registry', 'allocator and memory contents']),
 'C16': dict(level='exploration', rule='A run performs Kyber handshakes over a channel that damages, truncates, extends and misdirects ciphertexts and keys; non-trivial: both agreeing and failing handshakes.', parts=P(('seq', 5, 120000), ('seq-asan', 3, 30000)), real=['src/kyber', 'src/jswrapper/jskybwrapper.cpp'], stub=['the Kyber reference code in deps/ (empty submodule): an ideal KEM with the same interface and sizes', 'embind registry', 'allocator and memory contents']),
 'C17': dict(level='exploration', needs=['Rust half built'], rule='A run hands one wallet back and forth between C++/JavaScript/Rust and fast/basic signers, or lets the three validators judge what a hostile network delivers; non-trivial: at least two implementations were used.', parts=P(('seq', 8, 6000),), real=REAL + ['src/rust_wrapper']),
 'C18': dict(level='exploration', needs=['Rust half built'], rule='A run is one Rust pool over simulated worker threads with requests, restarts, dying workers; non-trivial: several trees were served.', parts=P(('seq', 8, 4500),), real=['src/rust_wrapper'], stub=['rayon thread pool and crossbeam channels (seeded scheduler)', 'sha2 crate (own SHA-256)', 'tree hashes replaced by a fast function in most runs']),
 'C19': dict(level='fault_enumeration', rule='A run is one wallet whose operations suffer an allocation failure at a chosen allocation; non-trivial: at least one failure fired and the wallet went on.', parts=P(('seq', 6, 3000), ('seq-asan', 2, 300))),
 'C20': dict(level='exploration', rule='A run keeps a population of signers that are copied, assigned, moved, swapped, stored, destroyed and used; non-trivial: a copy outlived a change to its source.', parts=P(('seq', 5, 3000), ('seq-asan', 3, 700))),
 'C21': dict(level='exploration', rule='A run is a JavaScript program with a wallet of its own that puts damaged and forged addresses, keys, seeds, texts and signed messages to the wrapper and repeats earlier questions; non-trivial: questions both answered and refused.', parts=P(('seq', 6, 2600), ('seq-asan', 2, 300))),
 'C22': dict(level='exploration', needs=['Rust half built'], rule='A run is a Rust program reading damaged backups, addresses, keys, texts and signed messages; non-trivial: some were read and some refused.', parts=P(('seq', 7, 4000), ('seq-asan', 1, 60)), real=['src/rust_wrapper'], stub=['sha2 crate (own SHA-256)', 'rayon, crossbeam, rand stand-ins', 'tree hashes replaced by a fast function in most runs']),
 'C23': dict(level='fault_enumeration', rule='A run repeats one sequence of operations, with chosen allocations and entropy reads failing, and compares what is held after each repetition; non-trivial: several operations were repeated; or one C++ pool under one seeded schedule, reopened, where what the second and later pools hold is compared with nothing after all is destroyed.', parts=P(('seq', 5, 1800), ('mt', 3, 2400))),
 'C26': dict(level='exploration', needs=['Rust half built'], rule='A run is a population of Rust Dilithium and Kyber objects (fresh, restored, cloned, dropped) exchanging signed messages and ciphertexts over a channel that damages, truncates, extends and misdirects them; non-trivial: something was accepted and something refused.', parts=P(('seq', 8, 60000),), real=['src/rust_wrapper/dilithium', 'src/rust_wrapper/kyber'], stub=['pqcrypto-dilithium and pqcrypto-kyber crates (not available offline): ideal signature scheme and KEM with the same interface']),
 'C27': dict(level='fault_enumeration', needs=['Rust half built'], rule='A run is a few random-seed requests in Rust against a scripted system source that fails on chosen calls after delivering part of the bytes; non-trivial: at least two requests were answered or refused.', parts=P(('seq', 8, 120000),), real=['src/rust_wrapper/qrl/misc.rs', 'src/rust_wrapper/xmss_alt/fips202.rs'], stub=['rand crate: the system source is scripted, userspace generators are separate']),
 'C25': dict(level='exploration', needs=['Rust half built'], rule='A run is 2 to 4 threads, each with Rust wallets, pools, Dilithium and Kyber objects of its own and a random program of calls on shared inputs, under one seeded schedule down to single memory accesses of the crate; wallets may change threads between calls; non-trivial: threads overlapped.', parts=P(('mt-rust', 8, 1500),), real=['src/rust_wrapper'], stub=['thread scheduler, clocks, futexes (deterministic runtime)', 'sha2, rand, rayon, crossbeam, pqcrypto crates (stand-ins)', 'tree hashes replaced by a fast function in most runs']),
 'C24': dict(level='exploration', rule='A run is one wallet life with signing, forward and impossible moves, hostile verification and decoding, counting hash computations and allocated bytes; non-trivial: more than three operations were measured.', parts=P(('seq', 8, 3600))),
}
