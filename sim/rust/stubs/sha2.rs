// Stand-in for sha2 0.10: real SHA-256, written from FIPS 180-4. It also is the seam through which the
// simulator sees which inputs are hashed (see `observe`) and can make a build die half-way.
use std::cell::{Cell, RefCell};
pub type Toy = extern "C" fn(u32, *mut u8, usize, *const u8, usize);
thread_local! { pub static TOY: Cell<Option<Toy>> = Cell::new(None); }
pub type Leaf = extern "C" fn(u32, *mut u8, u32, *const u8, *const u8, *const u8, *const u32);
thread_local! { pub static LEAF: Cell<Option<Leaf>> = Cell::new(None); pub static FLAT: Cell<bool> = Cell::new(false); }
thread_local! { static OBS: RefCell<Option<Box<dyn FnMut(&[u8])>>> = RefCell::new(None); }
pub fn observe(f: Option<Box<dyn FnMut(&[u8])>>) { OBS.with(|o| *o.borrow_mut() = f); }
const K: [u32; 64] = [
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2];
fn block(h: &mut [u32; 8], b: &[u8]) {
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]); }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let [mut a, mut bb, mut c, mut d, mut e, mut f, mut g, mut hh] = *h;
    for i in 0..64 {
        let t1 = hh.wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25)).wrapping_add((e & f) ^ (!e & g)).wrapping_add(K[i]).wrapping_add(w[i]);
        let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & bb) ^ (a & c) ^ (bb & c));
        hh = g; g = f; f = e; e = d.wrapping_add(t1); d = c; c = bb; bb = a; a = t1.wrapping_add(t2);
    }
    for (x, y) in h.iter_mut().zip([a, bb, c, d, e, f, g, hh]) { *x = x.wrapping_add(y); }
}
fn sha256(m: &[u8]) -> [u8; 32] {
    let mut h = [0x6a09e667u32, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let full = m.len() / 64 * 64;
    for b in m[..full].chunks(64) { block(&mut h, b); }
    let mut t = m[full..].to_vec(); t.push(0x80);
    while t.len() % 64 != 56 { t.push(0); }
    t.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    for b in t.chunks(64) { block(&mut h, b); }
    let mut o = [0u8; 32];
    for i in 0..8 { o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes()); }
    o
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Output(pub [u8; 32]);
impl Output { pub fn as_slice(&self) -> &[u8] { &self.0 } pub fn to_vec(&self) -> Vec<u8> { self.0.to_vec() } }
impl std::ops::Deref for Output { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Output { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<Output> for [u8; 32] { fn from(o: Output) -> [u8; 32] { o.0 } }
impl IntoIterator for Output { type Item = u8; type IntoIter = std::array::IntoIter<u8, 32>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
#[derive(Clone, Default)]
pub struct Sha256(Vec<u8>);
pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn chain_update(self, d: impl AsRef<[u8]>) -> Self;
    fn finalize(self) -> Output;
    fn finalize_reset(&mut self) -> Output;
    fn reset(&mut self);
    fn digest(d: impl AsRef<[u8]>) -> Output;
    fn output_size() -> usize { 32 }
}
impl Digest for Sha256 {
    fn new() -> Self { Sha256(Vec::new()) }
    fn update(&mut self, d: impl AsRef<[u8]>) { self.0.extend_from_slice(d.as_ref()); }
    fn chain_update(mut self, d: impl AsRef<[u8]>) -> Self { self.update(d); self }
    fn finalize(self) -> Output {
        OBS.with(|o| { if let Ok(mut g) = o.try_borrow_mut() { if let Some(f) = g.as_mut() { f(&self.0); } } });
        // the keyed tree hashes (32-byte big-endian type number first) may run on the simulator's fast primitive
        if self.0.len() >= 96 && self.0[..31].iter().all(|b| *b == 0) {
            let t = TOY.with(|t| t.get());
            if let Some(f) = t { let mut o = [0u8; 32]; f(256, o.as_mut_ptr(), 32, self.0.as_ptr(), self.0.len()); return Output(o); }
        }
        Output(sha256(&self.0))
    }
    fn finalize_reset(&mut self) -> Output { let o = self.clone().finalize(); self.0.clear(); o }
    fn reset(&mut self) { self.0.clear(); }
    fn digest(d: impl AsRef<[u8]>) -> Output { Sha256::new().chain_update(d).finalize() }
}
