//! Stand-in for `num-bigint` in executor runs.
use bigz::Z;
bigz::present!(BigInt);
pub type ParseBigIntError = ParseError;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sign { Minus, NoSign, Plus }
pub trait ToBigInt { fn to_bigint(&self) -> Option<BigInt>; }
macro_rules! tb { ($($t:ty)*) => { $(impl ToBigInt for $t { fn to_bigint(&self) -> Option<BigInt> { Some(BigInt::from(*self)) } })* } }
tb!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl ToBigInt for BigInt { fn to_bigint(&self) -> Option<BigInt> { Some(self.clone()) } }
impl BigInt {
    pub fn from_bytes_le(s: Sign, b: &[u8]) -> BigInt {
        let z = Z::from_bytes_le(b);
        BigInt(match s { Sign::Plus => z, Sign::Minus => z.neg(), Sign::NoSign => Z::zero() })
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        let mut b = self.0.bytes_le();
        if b.is_empty() { b.push(0); }
        (self.sign(), b)
    }
    pub fn sign(&self) -> Sign { if self.0.neg { Sign::Minus } else if self.0.is_zero() { Sign::NoSign } else { Sign::Plus } }
    pub fn bits(&self) -> u64 { self.0.bits() as u64 }
    pub fn bit(&self, i: u64) -> bool { self.0.shr(i as usize).odd() }
    pub fn modpow(&self, e: &BigInt, m: &BigInt) -> BigInt {
        assert!(!m.0.is_zero(), "attempt to calculate with zero modulus!");
        let r = self.0.pow_mod(&e.0, &m.0);
        BigInt(if m.0.neg && !r.is_zero() { r.add(&m.0) } else { r })
    }
    pub fn pow(&self, e: u32) -> BigInt { BigInt(self.0.pow(e as u64)) }
    pub fn parse_bytes(b: &[u8], r: u32) -> Option<BigInt> { Z::parse_radix(std::str::from_utf8(b).ok()?, r).map(BigInt) }
}
