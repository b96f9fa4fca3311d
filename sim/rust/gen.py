# Writes a crate root that is /repo's crate with the Keccak primitive, and with "leaf" also the one-time signatures, replaceable at run time.
import re, sys
R = sys.argv[1] + '/src/rust_wrapper'; reduced = sys.argv[2] == 'reduced'; leaf = 'leaf' in sys.argv[3:]; flat = 'flat' in sys.argv[3:]
def mods(p): return re.findall(r'^\s*(?:pub(?:\([a-z]+\))?\s+)?mod\s+(\w+)\s*;', open(p).read(), re.M)
def path(d, m):
    import os
    return f'{d}/{m}.rs' if os.path.exists(f'{d}/{m}.rs') else f'{d}/{m}/mod.rs'
o = 'pub mod rust_wrapper {\n'
for m in mods(R + '/mod.rs'):
    if reduced and m in ('dilithium', 'kyber'): continue
    if m != 'xmss_alt': o += f'#[path="{path(R, m)}"] pub mod {m};\n'; continue
    o += 'pub mod xmss_alt {\n'
    for k in mods(R + '/xmss_alt/mod.rs'):
        if k == 'wots' and leaf:
            o += f'''#[path="{path(R + "/xmss_alt", k)}"] pub mod real_wots;
pub mod wots {{
use super::real_wots as real; pub use super::real_wots::*; #[allow(unused_imports)] use super::*; use super::hash_functions::HashFunction;
fn go(op: u32, o: &mut [u8], p: &WOTSParams, a: &[u8], m: &[u8], ps: &[u8], ad: &mut [u32; 8]) -> bool {{ match sha2::LEAF.with(|t| t.get()) {{ Some(f) => {{ let n = 32 * p.len as usize; assert!(o.len() >= n && a.len() >= if op == 2 {{ n }} else {{ 32 }} && ps.len() >= 32 && (op == 0 || m.len() >= 32)); f(op, o.as_mut_ptr(), p.len, a.as_ptr(), m.as_ptr(), ps.as_ptr(), ad.as_ptr()); true }} None => false }} }}
pub fn wots_pkgen(h: &HashFunction, pk: &mut [u8], sk: &[u8], params: &WOTSParams, pub_seed: &[u8], addr: &mut [u32; 8]) {{ if !go(0, pk, params, sk, &[], pub_seed, addr) {{ real::wots_pkgen(h, pk, sk, params, pub_seed, addr) }} }}
pub fn wots_sign(h: &HashFunction, sig: &mut [u8], msg: &[u8], sk: &[u8], params: &WOTSParams, pub_seed: &[u8], addr: &mut [u32; 8]) {{ if !go(1, sig, params, sk, msg, pub_seed, addr) {{ real::wots_sign(h, sig, msg, sk, params, pub_seed, addr) }} }}
pub fn wots_pk_from_sig(h: &HashFunction, pk: &mut [u8], sig: &[u8], msg: &[u8], params: &WOTSParams, pub_seed: &[u8], addr: &mut [u32; 8]) {{ if !go(2, pk, params, sig, msg, pub_seed, addr) {{ real::wots_pk_from_sig(h, pk, sig, msg, params, pub_seed, addr) }} }}
}}
'''; continue
        if k == 'xmss_common' and flat:
            o += f'''#[path="{path(R + "/xmss_alt", k)}"] pub mod real_xmss_common;
pub mod xmss_common {{
use super::real_xmss_common as real; pub use super::real_xmss_common::*; use super::hash_functions::HashFunction; use super::wots::WOTSParams;
pub fn l_tree(h: &HashFunction, params: &WOTSParams, leaf: &mut [u8], wots_pk: &mut [u8], pub_seed: &[u8], addr: &mut [u32; 8]) {{ if sha2::FLAT.with(|t| t.get()) {{ if let Some(f) = sha2::LEAF.with(|t| t.get()) {{ assert!(leaf.len() >= 32 && wots_pk.len() >= 32 * params.len as usize && pub_seed.len() >= 32); f(3, leaf.as_mut_ptr(), params.len, wots_pk.as_ptr(), std::ptr::null(), pub_seed.as_ptr(), addr.as_ptr()); return }} }} real::l_tree(h, params, leaf, wots_pk, pub_seed, addr) }}
}}
'''; continue
        if k != 'fips202': o += f'#[path="{path(R + "/xmss_alt", k)}"] pub mod {k};\n'; continue
        o += f'''#[path="{path(R + "/xmss_alt", k)}"] pub mod real_fips202;
pub mod fips202 {{
use super::real_fips202 as real; pub use super::real_fips202::*;
fn go(d: u32, o: &mut [u8], ol: usize, i: &[u8], il: u64) -> bool {{ match sha2::TOY.with(|t| t.get()) {{ Some(f) => {{ assert!(o.len() >= ol && i.len() as u64 >= il); f(d, o.as_mut_ptr(), ol, i.as_ptr(), il as usize); true }} None => false }} }}
pub fn shake128(o: &mut [u8], ol: usize, i: &[u8], il: u64) {{ if !go(128, o, ol, i, il) {{ real::shake128(o, ol, i, il) }} }}
pub fn shake256(o: &mut [u8], ol: usize, i: &[u8], il: u64) {{ if !go(2256, o, ol, i, il) {{ real::shake256(o, ol, i, il) }} }}
}}
'''
    o += '}\n'
o += '}\n'
print(o)
