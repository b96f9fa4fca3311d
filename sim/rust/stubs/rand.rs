// Stand-in for rand 0.8. OsRng is the operating system's source: deterministic and scripted, it can fail.
// The userspace generators are there too, and are not it.
use std::cell::{Cell, RefCell};
/// How the source behaves: which call fails (0: none, 1: first, ...), for how many calls, and how many bytes it delivers before failing.
#[derive(Clone, Copy, Default)]
pub struct Script { pub fail_from: u32, pub fail_n: u32, pub before: u32 }
thread_local! { static S: Cell<u64> = Cell::new(1); static U: Cell<u64> = Cell::new(7); static SC: Cell<Script> = Cell::new(Script { fail_from: 0, fail_n: 0, before: 0 }); static CALLS: Cell<u32> = Cell::new(0); static FAILS: Cell<u32> = Cell::new(0); static FLIP: Cell<usize> = Cell::new(usize::MAX); static LOG: RefCell<Vec<u8>> = RefCell::new(Vec::new()); }
pub fn reseed(s: u64) { S.with(|c| c.set(s | 1)); SC.with(|c| c.set(Script::default())); CALLS.with(|c| c.set(0)); FAILS.with(|c| c.set(0)); FLIP.with(|c| c.set(usize::MAX)); LOG.with(|l| l.borrow_mut().clear()); }
pub fn script(s: Script) { SC.with(|c| c.set(s)); }
/// Inverts a bit of the byte with this ordinal among those delivered since reseed.
pub fn flip(i: usize) { FLIP.with(|c| c.set(i)); }
pub fn delivered() -> Vec<u8> { LOG.with(|l| l.borrow().clone()) }
pub fn failures() -> u32 { FAILS.with(|c| c.get()) }
fn step(c: &Cell<u64>) -> u64 { let mut x = c.get(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; c.set(x); x }
fn next() -> u64 { S.with(step) }
fn device(dest: &mut [u8]) -> Result<(), Error> {
    let k = CALLS.with(|c| { c.set(c.get() + 1); c.get() }); let sc = SC.with(|c| c.get());
    let bad = sc.fail_from > 0 && k >= sc.fail_from && k - sc.fail_from < sc.fail_n;
    let n = if bad { dest.len().min(sc.before as usize) } else { dest.len() };
    for b in &mut dest[..n] { *b = (next() >> 24) as u8; LOG.with(|l| { let mut l = l.borrow_mut(); if l.len() == FLIP.with(|c| c.get()) { *b ^= 0x20; } l.push(*b); }); }
    if bad { FAILS.with(|c| c.set(c.get() + 1)); return Err(Error); }
    Ok(())
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "the system's source of randomness failed") } }
impl std::error::Error for Error {}
pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]);
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error>;
}
pub trait CryptoRng {}
pub trait SeedableRng: Sized { type Seed; fn from_seed(s: Self::Seed) -> Self; fn seed_from_u64(s: u64) -> Self; fn from_entropy() -> Self { let mut b = [0; 8]; if device(&mut b).is_err() { panic!("from_entropy failed"); } Self::seed_from_u64(u64::from_le_bytes(b)) } fn from_rng<R: RngCore>(mut r: R) -> Result<Self, Error> { let mut b = [0; 8]; r.try_fill_bytes(&mut b)?; Ok(Self::seed_from_u64(u64::from_le_bytes(b))) } }
pub trait Byte: Copy + Default { fn take(v: u64) -> Self; }
impl Byte for u8 { fn take(v: u64) -> u8 { v as u8 } }
impl Byte for u32 { fn take(v: u64) -> u32 { v as u32 } }
impl Byte for u64 { fn take(v: u64) -> u64 { v } }
pub trait Rng: RngCore { fn gen<T: Byte>(&mut self) -> T { T::take(self.next_u64()) } fn fill(&mut self, dest: &mut [u8]) { self.fill_bytes(dest) } fn try_fill(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.try_fill_bytes(dest) } }
impl<R: RngCore> Rng for R {}
pub fn thread_rng() -> rngs::ThreadRng { rngs::ThreadRng }
pub fn random<T: Byte>() -> T { T::take(U.with(step)) }
pub mod rngs {
    use super::*;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct OsRng;
    impl RngCore for OsRng {
        fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
        fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
        fn fill_bytes(&mut self, dest: &mut [u8]) { if let Err(e) = self.try_fill_bytes(dest) { panic!("Error: {}", e); } }
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { device(dest) }
    }
    impl CryptoRng for OsRng {}
    #[derive(Clone, Debug, Default)]
    pub struct ThreadRng;
    impl RngCore for ThreadRng {
        fn next_u32(&mut self) -> u32 { U.with(step) as u32 }
        fn next_u64(&mut self) -> u64 { U.with(step) }
        fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = (U.with(step) >> 24) as u8; } }
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
    }
    impl CryptoRng for ThreadRng {}
    #[derive(Clone, Debug)]
    pub struct StdRng(u64);
    impl RngCore for StdRng {
        fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
        fn next_u64(&mut self) -> u64 { let c = Cell::new(self.0); let v = step(&c); self.0 = c.get(); v }
        fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = (self.next_u64() >> 24) as u8; } }
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
    }
    impl CryptoRng for StdRng {}
    impl SeedableRng for StdRng { type Seed = [u8; 32]; fn from_seed(s: [u8; 32]) -> Self { let mut h = 1u64; for b in s { h = h.wrapping_mul(0x100000001b3) ^ b as u64; } StdRng(h | 1) } fn seed_from_u64(s: u64) -> Self { StdRng(s | 1) } }
    pub type SmallRng = StdRng;
}
