// C ABI over the Rust half of qrllib, for the simulator. No panic crosses it.
use qrllib::rust_wrapper::qrl::{hashing, misc, qrl_address_format::AddrFormatType, qrl_descriptor, qrl_helper, xmss_base::{Sign, XMSSBase, XMSSBaseTrait}, xmss_basic::XMSSBasic, xmss_fast::XMSSFast, xmss_pool::XMSSPool};
use qrllib::rust_wrapper::xmss_alt::hash_functions::HashFunction;
use std::cell::RefCell;
use std::os::raw::c_void;
use std::panic::{catch_unwind, AssertUnwindSafe};
enum W { F(XMSSFast), B(XMSSBasic) }
macro_rules! on { ($w:expr, $x:ident => $e:expr) => { match $w { W::F($x) => $e, W::B($x) => $e } } }
fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p, n) } } }
fn put(o: &[u8], out: *mut u8, cap: usize) -> usize { let n = o.len().min(cap); unsafe { std::ptr::copy_nonoverlapping(o.as_ptr(), out, n) }; n }
fn quiet() { use std::sync::Once; static O: Once = Once::new(); O.call_once(|| std::panic::set_hook(Box::new(|_| {}))); }
fn cu<R>(d: R, f: impl FnOnce() -> R) -> R { quiet(); catch_unwind(AssertUnwindSafe(f)).unwrap_or(d) }
fn hf(h: i32) -> HashFunction { match h { 0 => HashFunction::SHA2_256, 1 => HashFunction::Shake128, _ => HashFunction::Shake256 } }
fn w<'a>(p: *mut c_void) -> &'a mut W { unsafe { &mut *(p as *mut W) } }
fn boxed(r: Option<W>) -> *mut c_void { match r { Some(x) => Box::into_raw(Box::new(x)) as *mut c_void, None => std::ptr::null_mut() } }
#[no_mangle] pub extern "C" fn rs_new(kind: i32, seed: *const u8, n: usize, h: i32, hash: i32, wp: u32) -> *mut c_void {
    boxed(cu(None, || { let s = sl(seed, n).to_vec(); if kind == 0 { XMSSFast::new(s, h as u8, Some(hf(hash)), Some(AddrFormatType::SHA256_2X), Some(wp)).ok().map(W::F) } else { XMSSBasic::new(s, h as u8, hf(hash), AddrFormatType::SHA256_2X, Some(wp)).ok().map(W::B) } }))
}
#[no_mangle] pub extern "C" fn rs_from_ext(_kind: i32, e: *const u8, n: usize, _w: u32) -> *mut c_void { boxed(cu(None, || XMSSFast::from_extended_seed(&sl(e, n).to_vec()).ok().map(W::F))) }
#[no_mangle] pub extern "C" fn rs_free(p: *mut c_void) { if !p.is_null() { unsafe { drop(Box::from_raw(p as *mut W)) } } }
#[no_mangle] pub extern "C" fn rs_index(p: *mut c_void) -> u32 { cu(u32::MAX, || on!(w(p), x => x.get_index())) }
#[no_mangle] pub extern "C" fn rs_set_index(p: *mut c_void, i: u32) -> i32 { cu(2, || on!(w(p), x => if x.set_index(i).is_ok() { 0 } else { 1 })) }
#[no_mangle] pub extern "C" fn rs_sign(p: *mut c_void, m: *const u8, n: usize, out: *mut u8, cap: usize, ol: *mut usize) -> i32 {
    cu(2, || { let m = sl(m, n).to_vec(); match on!(w(p), x => x.sign(&m)) { Ok(s) => { unsafe { *ol = put(&s, out, cap) }; 0 } Err(_) => 1 } })
}
#[no_mangle] pub extern "C" fn rs_get(p: *mut c_void, which: i32, out: *mut u8, cap: usize) -> usize {
    cu(0, || { let v = on!(w(p), x => match which { 0 => x.get_pk(), 1 => x.get_extended_seed(), 2 => x.get_address().unwrap_or_default(), 3 => x.get_sk().clone(), _ => x.get_seed().clone() }); put(&v, out, cap) })
}
#[no_mangle] pub extern "C" fn rs_num(p: *mut c_void, which: i32) -> i64 { cu(-1, || on!(w(p), x => match which { 0 => x.get_remaining_signatures() as i64, 1 => x.get_height() as i64, _ => x.get_number_signatures() as i64 })) }
// What a wallet reports about itself: root, public seed, descriptor, secret seed, PRF key, seed, five sizes.
#[cfg(facts)] fn facts<X: XMSSBaseTrait>(x: &X, wp: u32, siglen: usize) -> Vec<u8> {
    let mut o = [x.get_root(), x.get_pk_seed(), x.get_descriptor_bytes(), x.get_sk_seed(), x.get_sk_prf(), x.get_seed().clone()].concat();
    for n in [X::get_public_key_size() as u32, X::get_secret_key_size() as u32, x.get_signature_size(Some(wp)), X::calculate_signature_base_size(Some(wp)), X::get_height_from_sig_size(siglen, Some(wp)).map_or(999, |h| h as u32)] { o.extend(n.to_le_bytes()); } o
}
#[cfg(facts)] #[no_mangle] pub extern "C" fn rs_facts(p: *mut c_void, wp: u32, siglen: usize, out: *mut u8, cap: usize) -> usize { cu(0, || { let v = on!(w(p), x => facts(x, wp, siglen)); put(&v, out, cap) }) }
#[no_mangle] pub extern "C" fn rs_verify(m: *const u8, mn: usize, s: *const u8, sn: usize, pk: *const u8, pn: usize, wp: u32) -> i32 {
    cu(-1, || { let mut m1 = sl(m, mn).to_vec(); if XMSSBase::verify(&mut m1, &sl(s, sn).to_vec(), &sl(pk, pn).to_vec(), Some(wp)).is_ok() { 1 } else { 0 } })
}
#[no_mangle] pub extern "C" fn rs_addr_valid(a: *const u8, n: usize) -> i32 { cu(-1, || qrl_helper::address_is_valid(&sl(a, n).to_vec()) as i32) }
#[no_mangle] pub extern "C" fn rs_codec(op: i32, i: *const u8, n: usize, out: *mut u8, cap: usize, ol: *mut usize) -> i32 {
    cu(2, || {
        let v = sl(i, n).to_vec(); let s = String::from_utf8_lossy(&v).into_owned();
        let r: Option<Vec<u8>> = match op { 0 => misc::bin2mnemonic(&v).ok().map(String::into_bytes), 1 => misc::mnemonic2bin(&s).ok(), 2 => Some(misc::bin2hstr(&v, 0).into_bytes()), 3 => misc::hstr2bin(&s).ok(), 4 => qrl_helper::get_address(&v).ok(), 6 => qrl_descriptor::QRLDescriptor::from_bytes(&v).ok().map(|d| { let mut o = d.get_bytes(); o.push(d.get_height()); o }), 7 => Some(misc::str2bin(&s)), 8 => Some(hashing::shake128(v[0] as usize, &v[1..].to_vec())), 9 => Some(hashing::shake256(v[0] as usize, &v[1..].to_vec())), 10 => hashing::sha2_256_n(&v[1..].to_vec(), v[0] as usize).ok(), 11 => Some(misc::get_hash_chain_seed(&v[2..].to_vec(), v[0] as u32, v[1] as u32 % 16).concat()), _ => Some(hashing::sha2_256(&v)) };
        match r { Some(o) => { unsafe { *ol = put(&o, out, cap) }; 0 } None => 1 }
    })
}
// ---- pool ----
thread_local! { static BUILT: RefCell<Vec<u64>> = RefCell::new(Vec::new()); static DIE: RefCell<Option<u64>> = RefCell::new(None); }
#[no_mangle] pub extern "C" fn rs_sched(seed: u64, mode: u32) { rayon::sim::reset(seed, mode); rand::reseed(seed); sha2::observe(None); BUILT.with(|b| b.borrow_mut().clear()); DIE.with(|d| *d.borrow_mut() = None); }
#[no_mangle] pub extern "C" fn rs_sched_stat(i: i32) -> u64 { rayon::sim::stat(i) }
#[no_mangle] pub extern "C" fn rs_sched_run(n: u32) -> i32 { cu(-1, || { let mut k = 0; while k < n && rayon::sim::run_one() { k += 1; } k as i32 }) }
/// Watches the seeds derived for this base seed: which tree indices are being built. n = 0 stops.
#[no_mangle] pub extern "C" fn rs_watch(seed: *const u8, n: usize) {
    if n == 0 { sha2::observe(None); return; }
    let pre = hex::encode(sl(seed, n));
    sha2::observe(Some(Box::new(move |m: &[u8]| {
        if m.len() > pre.len() && m.len() < pre.len() + 24 && m.starts_with(pre.as_bytes()) {
            if let Some(k) = std::str::from_utf8(&m[pre.len()..]).ok().and_then(|t| t.parse::<u64>().ok()) {
                BUILT.with(|b| b.borrow_mut().push(k.wrapping_sub(1)));
                if DIE.with(|d| { let mut d = d.borrow_mut(); if *d == Some(k.wrapping_sub(1)) { *d = None; true } else { false } }) { panic!("injected: the worker building this tree dies"); }
            }
        }
    })));
}
#[no_mangle] pub extern "C" fn rs_watch_get(out: *mut u64, cap: usize) -> usize { BUILT.with(|b| { let b = b.borrow(); let n = b.len().min(cap); unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), out, n) }; n }) }
#[no_mangle] pub extern "C" fn rs_die_at(i: u64) { DIE.with(|d| *d.borrow_mut() = Some(i)); }
#[no_mangle] pub extern "C" fn rs_fail_next_pool() { rayon::sim::fail_next_pool(true); }
fn pl<'a>(p: *mut c_void) -> &'a mut XMSSPool { unsafe { &mut *(p as *mut XMSSPool) } }
#[no_mangle] pub extern "C" fn rs_pool_new(seed: *const u8, n: usize, h: i32, start: u64, size: u64) -> *mut c_void {
    cu(std::ptr::null_mut(), || match XMSSPool::new(sl(seed, n).to_vec(), h as u8, start as usize, size as usize) { Ok(p) => Box::into_raw(Box::new(p)) as *mut c_void, Err(_) => std::ptr::null_mut() })
}
#[no_mangle] pub extern "C" fn rs_pool_free(p: *mut c_void) { cu((), || unsafe { drop(Box::from_raw(p as *mut XMSSPool)) }) }
/// rc: 0 a tree, 1 an error, 2 a panic (a deadlock of the simulated threads is one)
#[no_mangle] pub extern "C" fn rs_pool_next(p: *mut c_void, rc: *mut i32) -> *mut c_void {
    let (c, r) = cu((2, None), || match pl(p).get_next_tree() { Ok(t) => (0, Some(W::F(t))), Err(_) => (1, None) });
    unsafe { *rc = c };
    boxed(r)
}
#[no_mangle] pub extern "C" fn rs_pool_available(p: *mut c_void) -> i32 { cu(-1, || pl(p).is_available() as i32) }
#[no_mangle] pub extern "C" fn rs_pool_index(p: *mut c_void) -> u64 { cu(u64::MAX, || pl(p).get_current_index() as u64) }

/// Replaces the hash primitives of the tree hashes (null: the real ones). Returns 1 if this build can.
#[no_mangle] pub extern "C" fn rs_toy(f: Option<sha2::Toy>) -> i32 { if TOY_BUILD { sha2::TOY.with(|t| t.set(f)); 1 } else { 0 } }
/// The same for the one-time signatures.
#[no_mangle] pub extern "C" fn rs_leaf(f: Option<sha2::Leaf>) -> i32 { if cfg!(leaf) { sha2::LEAF.with(|t| t.set(f)); 1 } else { 0 } }
/// And for the trees that compress a one-time public key.
#[no_mangle] pub extern "C" fn rs_flat(on: i32) -> i32 { if cfg!(flat) { sha2::FLAT.with(|t| t.set(on != 0)); 1 } else { 0 } }
const TOY_BUILD: bool = cfg!(toy);

// ---- the system's randomness ----
#[no_mangle] pub extern "C" fn rs_rand_script(seed: u64, from: u32, n: u32, before: u32, flip: u64) { rand::reseed(seed); rand::script(rand::Script { fail_from: from, fail_n: n, before }); rand::flip(flip as usize); }
#[no_mangle] pub extern "C" fn rs_rand_stat(delivered: *mut u8, cap: usize, n: *mut usize) -> u32 { let d = rand::delivered(); unsafe { *n = d.len(); } put(&d, delivered, cap); rand::failures() }
/// 0 a seed, 2 a panic
#[no_mangle] pub extern "C" fn rs_random_seed(n: u32, e: *const u8, en: usize, out: *mut u8, cap: usize, ol: *mut usize) -> i32 { cu(2, || { let s = String::from_utf8_lossy(sl(e, en)).into_owned(); let v = misc::get_random_seed(n, &s); unsafe { *ol = v.len() }; put(&v, out, cap); 0 }) }

// ---- Dilithium and Kyber ----
#[cfg(pq)] mod pq {
    use super::*;
    use qrllib::rust_wrapper::{dilithium::dilithium::{self as dm, Dilithium}, kyber::kyber::{self as km, Kyber}};
    use pqcrypto_dilithium::dilithium5 as d5; use pqcrypto_kyber::kyber768 as k7; use pqcrypto_traits::{kem, sign};
    fn set(o: &[u8], out: *mut u8, cap: usize, ol: *mut usize) { unsafe { *ol = put(o, out, cap) } }
    fn dl<'a>(p: *mut c_void) -> &'a mut Dilithium { unsafe { &mut *(p as *mut Dilithium) } }
    fn kl<'a>(p: *mut c_void) -> &'a mut Kyber { unsafe { &mut *(p as *mut Kyber) } }
    #[no_mangle] pub extern "C" fn rs_pq_seed(s: u64) { pqcrypto_traits::ideal::reseed(s) }
    #[no_mangle] pub extern "C" fn rs_pq_size(i: i32) -> usize { match i { 0 => dm::CRYPTO_PUBLICKEYBYTES, 1 => dm::CRYPTO_SECRETKEYBYTES, 2 => dm::CRYPTO_BYTES, 3 => km::KYBER_PUBLICKEYBYTES, 4 => km::KYBER_SECRETKEYBYTES, 5 => km::KYBER_CIPHERTEXTBYTES, 6 => Dilithium::get_public_key_size(), 7 => Dilithium::get_secret_key_size(), _ => km::KYBER_SYMBYTES } }
    #[no_mangle] pub extern "C" fn rs_dil_valid(b: *const u8, n: usize, pk: *const u8, pn: usize) -> i32 { d5::valid(sl(b, n), sl(pk, pn)) as i32 }
    /// rc: 0 made, 1 an error, 2 a panic; pn = usize::MAX: fresh keys
    #[no_mangle] pub extern "C" fn rs_dil_new(pk: *const u8, pn: usize, sk: *const u8, sn: usize, rc: *mut i32) -> *mut c_void {
        let (c, d) = cu((2, None), || if pn == usize::MAX { (0, Some(Dilithium::default())) } else { match Dilithium::new(sl(pk, pn), sl(sk, sn)) { Ok(d) => (0, Some(d)), Err(_) => (1, None) } });
        unsafe { *rc = c }; match d { Some(d) => Box::into_raw(Box::new(d)) as *mut c_void, None => std::ptr::null_mut() }
    }
    #[no_mangle] pub extern "C" fn rs_dil_free(p: *mut c_void) { unsafe { drop(Box::from_raw(p as *mut Dilithium)) } }
    #[no_mangle] pub extern "C" fn rs_dil_get(p: *mut c_void, which: i32, out: *mut u8, cap: usize) -> usize { cu(0, || if which == 0 { put(sign::PublicKey::as_bytes(&dl(p).get_pk()), out, cap) } else { put(sign::SecretKey::as_bytes(&dl(p).get_sk()), out, cap) }) }
    #[no_mangle] pub extern "C" fn rs_dil_sign(p: *mut c_void, m: *const u8, n: usize, out: *mut u8, cap: usize, ol: *mut usize) -> i32 { cu(2, || { set(sign::SignedMessage::as_bytes(&dl(p).sign(sl(m, n))), out, cap, ol); 0 }) }
    #[no_mangle] pub extern "C" fn rs_dil_open(b: *const u8, n: usize, pk: *const u8, pn: usize, out: *mut u8, cap: usize, ol: *mut usize) -> i32 {
        cu(2, || { let k: d5::PublicKey = match sign::PublicKey::from_bytes(sl(pk, pn)) { Ok(k) => k, Err(_) => return 1 }; let s: d5::SignedMessage = match sign::SignedMessage::from_bytes(sl(b, n)) { Ok(s) => s, Err(_) => return 1 }; match Dilithium::sign_open(&s, &k) { Ok(m) => { set(&m, out, cap, ol); 0 } Err(_) => 1 } })
    }
    #[no_mangle] pub extern "C" fn rs_dil_extract(which: i32, b: *const u8, n: usize, out: *mut u8, cap: usize, ol: *mut usize) -> i32 { cu(2, || { let v = sl(b, n).to_vec(); match if which == 0 { Dilithium::extract_message(&v) } else { Dilithium::extract_signature(&v) } { Ok(o) => { set(&o, out, cap, ol); 0 } Err(_) => 1 } }) }
    #[no_mangle] pub extern "C" fn rs_kyb_new(pk: *const u8, pn: usize, sk: *const u8, sn: usize, rc: *mut i32) -> *mut c_void {
        let (c, d) = cu((2, None), || if pn == usize::MAX { (0, Some(Kyber::default())) } else { match Kyber::new(sl(pk, pn), sl(sk, sn)) { Ok(d) => (0, Some(d)), Err(_) => (1, None) } });
        unsafe { *rc = c }; match d { Some(d) => Box::into_raw(Box::new(d)) as *mut c_void, None => std::ptr::null_mut() }
    }
    #[no_mangle] pub extern "C" fn rs_kyb_clone(p: *mut c_void) -> *mut c_void { cu(std::ptr::null_mut(), || Box::into_raw(Box::new(kl(p).clone())) as *mut c_void) }
    #[no_mangle] pub extern "C" fn rs_kyb_free(p: *mut c_void) { unsafe { drop(Box::from_raw(p as *mut Kyber)) } }
    #[no_mangle] pub extern "C" fn rs_kyb_get(p: *mut c_void, which: i32, out: *mut u8, cap: usize) -> usize { cu(0, || { let k = kl(p); match which { 0 => put(kem::PublicKey::as_bytes(&k.get_pk()), out, cap), 1 => put(kem::SecretKey::as_bytes(&k.get_sk()), out, cap), 2 => put(kem::SharedSecret::as_bytes(&k.get_shared_secret()), out, cap), _ => put(kem::Ciphertext::as_bytes(&k.get_cipher_text()), out, cap) } }) }
    /// 0 done, 1 the bytes are no key / ciphertext, 2 a panic
    #[no_mangle] pub extern "C" fn rs_kyb_do(p: *mut c_void, decode: i32, b: *const u8, n: usize) -> i32 { cu(2, || if decode == 0 { let k: k7::PublicKey = match kem::PublicKey::from_bytes(sl(b, n)) { Ok(k) => k, Err(_) => return 1 }; kl(p).kem_encode(k); 0 } else { let c: k7::Ciphertext = match kem::Ciphertext::from_bytes(sl(b, n)) { Ok(c) => c, Err(_) => return 1 }; kl(p).kem_decode(c); 0 }) }
    /// What decapsulation of these bytes under this secret key gives.
    #[no_mangle] pub extern "C" fn rs_kyb_truth(ct: *const u8, n: usize, sk: *const u8, sn: usize, out: *mut u8) -> i32 { let c: k7::Ciphertext = match kem::Ciphertext::from_bytes(sl(ct, n)) { Ok(c) => c, Err(_) => return 1 }; let s: k7::SecretKey = match kem::SecretKey::from_bytes(sl(sk, sn)) { Ok(c) => c, Err(_) => return 1 }; put(kem::SharedSecret::as_bytes(&k7::decapsulate(&c, &s)), out, 32); 0 }
}
