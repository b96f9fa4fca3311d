// An ideal signature scheme with the interface and sizes of pqcrypto-dilithium.
pub mod dilithium5 {
    use pqcrypto_traits::{sign as t, Error, Result};
    macro_rules! ty { ($n:ident, $t:path, $len:expr) => {
        #[derive(Clone, Copy, PartialEq)] pub struct $n([u8; $len]);
        impl $t for $n { fn as_bytes(&self) -> &[u8] { &self.0 } fn from_bytes(b: &[u8]) -> Result<Self> { let mut a = [0; $len]; if b.len() != $len { return Err(Error::BadLength { name: stringify!($n), actual: b.len(), expected: $len }); } a.copy_from_slice(b); Ok($n(a)) } } } }
    ty!(PublicKey, t::PublicKey, 2592); ty!(SecretKey, t::SecretKey, 4864); ty!(DetachedSignature, t::DetachedSignature, 4595);
    #[derive(Clone, PartialEq)] pub struct SignedMessage(Vec<u8>);
    impl t::SignedMessage for SignedMessage { fn as_bytes(&self) -> &[u8] { &self.0 } fn from_bytes(b: &[u8]) -> Result<Self> { Ok(SignedMessage(b.to_vec())) } fn len(&self) -> usize { self.0.len() } }
    pub const fn public_key_bytes() -> usize { 2592 } pub const fn secret_key_bytes() -> usize { 4864 } pub const fn signature_bytes() -> usize { 4595 }
    fn a<const N: usize>(n: &[&[u8]]) -> [u8; N] { let mut o = [0; N]; o.copy_from_slice(&pqcrypto_traits::ideal::f(N, n)); o }
    fn pub_of(seed: &[u8]) -> [u8; 2592] { a(&[b"dpk", seed]) }
    pub fn keypair() -> (PublicKey, SecretKey) { let s = pqcrypto_traits::ideal::fresh(); let mut k: [u8; 4864] = a(&[b"dsk", &s]); k[..32].copy_from_slice(&s); (PublicKey(pub_of(&s)), SecretKey(k)) }
    fn sig(p: &[u8], m: &[u8]) -> [u8; 4595] { a(&[b"sig", p, m]) }
    pub fn sign(m: &[u8], s: &SecretKey) -> SignedMessage { let mut v = detached_sign(m, s).0.to_vec(); v.extend_from_slice(m); SignedMessage(v) }
    pub fn open(m: &SignedMessage, p: &PublicKey) -> std::result::Result<Vec<u8>, t::VerificationError> { if valid(&m.0, &p.0) { Ok(m.0[4595..].to_vec()) } else { Err(t::VerificationError::InvalidSignature) } }
    pub fn detached_sign(m: &[u8], s: &SecretKey) -> DetachedSignature { let whole: [u8; 4864] = { let mut k: [u8; 4864] = a(&[b"dsk", &s.0[..32]]); k[..32].copy_from_slice(&s.0[..32]); k }; DetachedSignature(if whole == s.0 { sig(&pub_of(&s.0[..32]), m) } else { a(&[b"bad", &s.0, m]) }) }
    pub fn verify_detached_signature(g: &DetachedSignature, m: &[u8], p: &PublicKey) -> std::result::Result<(), t::VerificationError> { if g.0 == sig(&p.0, m) { Ok(()) } else { Err(t::VerificationError::InvalidSignature) } }
    /// What the simulator judges by.
    pub fn valid(sm: &[u8], pk: &[u8]) -> bool { pk.len() == 2592 && sm.len() >= 4595 && sm[..4595] == sig(pk, &sm[4595..]) }
}
