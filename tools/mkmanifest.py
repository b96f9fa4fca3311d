import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS
NA = {
 'C31': 'SHAKE/SHA-256 conformance is a pure function of input bytes: no schedule, clock, I/O, fault or other party for it to depend on, so simulation has nothing to decide (the simulator uses an independent implementation of both as oracle elsewhere, but that is comparison of inputs, not simulation).',
 'C32': 'Hex/mnemonic round trips are pure functions of their input; what depends on a hostile channel (damaged backups) is claimed as C11.',
 'C33': 'Descriptor encoding is a pure function over a small finite domain; no schedule, fault or history is involved. Damaged descriptors are claimed in C11/C12/C17.',
 'C34': 'Hash-chain seeds are a pure function of seed, shift and count; nothing for a simulator to decide.',
 'C35': 'The SWIG/Python and Go bindings cannot be built here (no swig, no Python headers for it, no Go bindings in the tree that build offline); a binding is a pure translation layer in any case. The JavaScript wrappers, which are plain C++ and JS, are simulated inside C08, C10, C14-C17 and C21.',
}
T = {
 'C01': 'seeded schedules of caller and builder threads, linearizability against a sequential pool model, happens-before race detection',
 'C02': 'seeded schedules, restarts and build failures; every tree compared with the reference wallet of its index',
 'C03': 'seeded schedules with virtual build durations; virtual-time bounds on every operation',
 'C04': 'seeded schedules; generation log against the prefetch window at every instant and at rest',
 'C05': 'injected thread-start, allocation and build failures over seeded schedules; recovery within bounded requests',
 'C06': 'pool destruction and constructor failure at seeded points of seeded schedules; use-after-free and leaked-thread detection',
 'C07': 'seeded preemption at single memory accesses, comparison with sequential execution, happens-before race detection',
 'C08': 'seeded wallet lives in C++, JS wrapper and Rust against a one-time-index ledger',
 'C09': 'seeded wallet lives, every signature byte-compared with an independent XMSS',
 'C10': 'crash/restart and lost-write injection on a simulated index file, ledger of (index, message)',
 'C11': 'seeded storage/channel damage of addresses and backups, judged by an independent decoder',
 'C12': 'adversarial simulated network, every verdict compared with an independent verifier',
 'C13': 'scripted entropy-source faults (short reads, EINTR, EIO, EOF, open failure)',
 'C14': 'scripted WebCrypto device faults over call histories in a simulated JS realm',
 'C15': 'adversarial simulated channel with an ideal signature scheme below the wrappers',
 'C16': 'adversarial simulated channel with an ideal KEM below the wrappers',
 'C17': 'seeded handover of one wallet between implementations; hostile network judged by all validators',
 'C18': 'seeded schedules of simulated rayon workers, dying builds, restarts; sequential pool model',
 'C19': 'allocation failure at seeded allocation ordinals, differential against an undisturbed twin',
 'C21': 'hostile network and storage against a JavaScript client, every answer compared with an independent decoder and verifier, earlier questions repeated',
 'C22': 'storage/channel damage against a Rust client, every answer compared with an independent decoder and verifier, panics caught',
 'C23': 'repetition of seeded histories with allocation and entropy failures; live memory and open files compared',
 'C24': 'seeded wallet lives and hostile inputs with hash computations and memory counted behind the wrapped primitives',
 'C25': 'seeded preemption at single memory accesses of the Rust crate, objects changing threads, comparison with sequential execution',
 'C26': 'adversarial simulated channel between Rust objects, with an ideal signature scheme and KEM in place of the pqcrypto crates',
 'C27': 'scripted failures of the system randomness source below Rust, dependence of the seed on every delivered byte',
 'C20': 'seeded populations of copied/moved/destroyed signers with a poisoning allocator',
}
NOTE = {'mt': 'Search by sampling of schedules and faults, not enumeration. Trusts the interposition layer (every pthread/futex/clock call and every compiled memory access of the library goes through it), the reference XMSS and sequential pool model. Sequentially consistent memory; weak-memory effects appear only as data-race reports.',
        'seq': 'Search by sampling of histories, damage and faults. Trusts the independent XMSS reference and, where hashes are replaced by a fast ideal function under both sides, that the logic does not depend on hash values; a share of runs uses the real hashes.',
        'js': 'Search by sampling of device faults and call histories. Trusts the simulated realm to behave like a browser/Node realm for the globals used.'}
checks = []
for p in sorted(PROPS):
    e = PROPS[p]['parts']('quick')[0]['engine']
    checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, technique='deterministic simulation with fault injection: ' + T[p], level=PROPS[p]['level'], level_note=NOTE['mt' if e.startswith('mt') else 'js' if e == 'js' else 'seq'] + (' ' + PROPS[p]['note'] if PROPS[p].get('note') else '')))
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()], notes='No hooks in /repo: every seam is at link, compiler-instrumentation or library-interposition level.'), open(V + '/MANIFEST.json', 'w'), indent=1)
