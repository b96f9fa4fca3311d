// An ideal key encapsulation with the interface and sizes of pqcrypto-kyber.
pub mod kyber768 {
    use pqcrypto_traits::{kem as t, Error, Result};
    macro_rules! ty { ($n:ident, $t:path, $len:expr) => {
        #[derive(Clone, Copy, PartialEq)] pub struct $n([u8; $len]);
        impl $t for $n { fn as_bytes(&self) -> &[u8] { &self.0 } fn from_bytes(b: &[u8]) -> Result<Self> { let mut a = [0; $len]; if b.len() != $len { return Err(Error::BadLength { name: stringify!($n), actual: b.len(), expected: $len }); } a.copy_from_slice(b); Ok($n(a)) } } } }
    ty!(PublicKey, t::PublicKey, 1184); ty!(SecretKey, t::SecretKey, 2400); ty!(Ciphertext, t::Ciphertext, 1088); ty!(SharedSecret, t::SharedSecret, 32);
    pub const fn public_key_bytes() -> usize { 1184 } pub const fn secret_key_bytes() -> usize { 2400 } pub const fn ciphertext_bytes() -> usize { 1088 } pub const fn shared_secret_bytes() -> usize { 32 }
    fn a<const N: usize>(n: &[&[u8]]) -> [u8; N] { let mut o = [0; N]; o.copy_from_slice(&pqcrypto_traits::ideal::f(N, n)); o }
    fn pub_of(seed: &[u8]) -> [u8; 1184] { a(&[b"kpk", seed]) }
    pub fn keypair() -> (PublicKey, SecretKey) { let s = pqcrypto_traits::ideal::fresh(); let mut k: [u8; 2400] = a(&[b"ksk", &s]); k[..32].copy_from_slice(&s); (PublicKey(pub_of(&s)), SecretKey(k)) }
    fn ct(p: &[u8], r: &[u8]) -> [u8; 1088] { let mut c: [u8; 1088] = a(&[b"ct", p, r]); c[..32].copy_from_slice(r); c }
    pub fn encapsulate(p: &PublicKey) -> (SharedSecret, Ciphertext) { let r = pqcrypto_traits::ideal::fresh(); (SharedSecret(a(&[b"ss", &p.0, &r])), Ciphertext(ct(&p.0, &r))) }
    /// A ciphertext that was not made for this key gives an unrelated secret.
    pub fn decapsulate(c: &Ciphertext, s: &SecretKey) -> SharedSecret { let p = pub_of(&s.0[..32]); let whole: [u8; 2400] = { let mut k: [u8; 2400] = a(&[b"ksk", &s.0[..32]]); k[..32].copy_from_slice(&s.0[..32]); k }; if whole == s.0 && ct(&p, &c.0[..32]) == c.0 { SharedSecret(a(&[b"ss", &p, &c.0[..32]])) } else { SharedSecret(a(&[b"rej", &s.0, &c.0])) } }
}
