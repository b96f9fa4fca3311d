// Stand-in for hex 0.4: the functions library code may use.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FromHexError { InvalidHexCharacter { c: char, index: usize }, OddLength, InvalidStringLength }
impl std::fmt::Display for FromHexError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for FromHexError {}
pub fn encode<T: AsRef<[u8]>>(d: T) -> String { d.as_ref().iter().map(|b| format!("{:02x}", b)).collect() }
pub fn encode_upper<T: AsRef<[u8]>>(d: T) -> String { d.as_ref().iter().map(|b| format!("{:02X}", b)).collect() }
fn val(c: u8, index: usize) -> Result<u8, FromHexError> { (c as char).to_digit(16).map(|v| v as u8).ok_or(FromHexError::InvalidHexCharacter { c: c as char, index }) }
pub fn decode<T: AsRef<[u8]>>(d: T) -> Result<Vec<u8>, FromHexError> {
    let d = d.as_ref();
    if d.len() % 2 != 0 { return Err(FromHexError::OddLength); }
    (0..d.len() / 2).map(|i| Ok(val(d[2 * i], 2 * i)? << 4 | val(d[2 * i + 1], 2 * i + 1)?)).collect()
}
