// Stand-in for pqcrypto-traits, and the ideal functions below the Dilithium and Kyber stand-ins.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Error { BadLength { name: &'static str, actual: usize, expected: usize } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
macro_rules! bytes_trait { ($n:ident) => { pub trait $n { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> super::Result<Self> where Self: Sized; } } }
pub mod kem { bytes_trait!(PublicKey); bytes_trait!(SecretKey); bytes_trait!(Ciphertext); bytes_trait!(SharedSecret); }
pub mod sign {
    bytes_trait!(PublicKey); bytes_trait!(SecretKey); bytes_trait!(DetachedSignature);
    pub trait SignedMessage { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> super::Result<Self> where Self: Sized; fn len(&self) -> usize; }
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum VerificationError { InvalidSignature, UnknownVerificationError }
    impl std::fmt::Display for VerificationError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
    impl std::error::Error for VerificationError {}
}
pub mod ideal {
    use std::cell::Cell;
    thread_local! { static S: Cell<u64> = Cell::new(1); }
    pub fn reseed(s: u64) { S.with(|c| c.set(s)) }
    fn mix(mut z: u64) -> u64 { z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    pub fn fresh() -> [u8; 32] { let mut o = [0; 32]; for i in 0..4 { let v = S.with(|c| { c.set(c.get().wrapping_add(0x9e3779b97f4a7c15)); mix(c.get()) }); o[i * 8..i * 8 + 8].copy_from_slice(&v.to_le_bytes()); } o }
    /// A function of the parts and their boundaries, stretched to n bytes.
    pub fn f(n: usize, parts: &[&[u8]]) -> Vec<u8> {
        let mut h = [1u64, 2, 3, 4];
        for p in parts { for c in p.chunks(8) { let mut b = [0; 8]; b[..c.len()].copy_from_slice(c); let v = u64::from_le_bytes(b); for i in 0..4 { h[i] = mix(h[i] ^ v.wrapping_mul(2 * i as u64 + 1)).wrapping_add(h[(i + 1) % 4]); } } for i in 0..4 { h[i] = mix(h[i] ^ p.len() as u64 ^ 0x5555); } }
        let mut o = Vec::with_capacity(n + 8); let mut k = 0u64; while o.len() < n { o.extend_from_slice(&mix(h[(k % 4) as usize] ^ mix(k)).to_le_bytes()); k += 1; } o.truncate(n); o
    }
}
