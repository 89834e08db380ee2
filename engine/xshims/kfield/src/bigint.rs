//! ark-ff's 256-bit integers with a bit expansion that is cheap to execute
//! (the upper limbs of delay function outputs are constants in these runs)
use realff::BigInteger as _;
pub use realff::BigInteger as RealBigInteger;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Debug)]
pub struct BigInteger256(pub [u64; 4]);
pub const UPPER: [u64; 3] = [0x9E37_79B9_7F4A_7C15, 0xC2B2_AE3D_27D4_EB4F, 0x1656_67B1_9E37_79F9];
static mut TPL: [Vec<bool>; 2] = [Vec::new(), Vec::new()];
fn real(b: &BigInteger256) -> realff::BigInteger256 {
    realff::BigInteger256(b.0)
}
#[allow(static_mut_refs)]
fn template(k: usize) -> Vec<bool> {
    unsafe {
        if TPL[k].is_empty() {
            TPL[k] = real(&BigInteger256([0, k as u64 * UPPER[0], k as u64 * UPPER[1], k as u64 * UPPER[2]])).to_bits_le();
        }
        TPL[k].clone()
    }
}
impl BigInteger256 {
    pub const fn new(v: [u64; 4]) -> Self {
        BigInteger256(v)
    }
}
pub trait BigInteger: Copy {
    fn to_bits_le(&self) -> Vec<bool>;
    fn to_bits_be(&self) -> Vec<bool>;
    fn from_bits_le(b: &[bool]) -> Self;
    fn from_bits_be(b: &[bool]) -> Self;
    fn get_bit(&self, i: usize) -> bool;
    fn to_bytes_le(&self) -> Vec<u8>;
    fn to_bytes_be(&self) -> Vec<u8>;
    fn is_odd(&self) -> bool;
    fn is_even(&self) -> bool;
    fn is_zero(&self) -> bool;
    fn num_bits(&self) -> u32;
    fn div2(&mut self);
    fn mul2(&mut self);
    fn divn(&mut self, n: u32);
    fn muln(&mut self, n: u32);
}
impl BigInteger for BigInteger256 {
    fn to_bits_le(&self) -> Vec<bool> {
        let u = [self.0[1], self.0[2], self.0[3]];
        let mut v = if u == UPPER {
            template(1)
        } else if u == [0; 3] {
            template(0)
        } else {
            return real(self).to_bits_le();
        };
        let x = self.0[0];
        for i in 0..64 {
            v[i] = (x >> i) & 1 == 1;
        }
        v
    }
    fn to_bits_be(&self) -> Vec<bool> {
        let mut v = self.to_bits_le();
        v.reverse();
        v
    }
    fn from_bits_le(b: &[bool]) -> Self {
        BigInteger256(realff::BigInteger256::from_bits_le(b).0)
    }
    fn from_bits_be(b: &[bool]) -> Self {
        BigInteger256(realff::BigInteger256::from_bits_be(b).0)
    }
    fn get_bit(&self, i: usize) -> bool {
        i < 256 && (self.0[i / 64] >> (i % 64)) & 1 == 1
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.0.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
    fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    fn is_even(&self) -> bool {
        self.0[0] & 1 == 0
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn num_bits(&self) -> u32 {
        real(self).num_bits()
    }
    fn div2(&mut self) {
        self.divn(1)
    }
    fn mul2(&mut self) {
        self.muln(1)
    }
    fn divn(&mut self, n: u32) {
        let mut r = real(self);
        r.divn(n);
        self.0 = r.0;
    }
    fn muln(&mut self, n: u32) {
        let mut r = real(self);
        r.muln(n);
        self.0 = r.0;
    }
}
impl AsRef<[u64]> for BigInteger256 {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
impl From<u64> for BigInteger256 {
    fn from(x: u64) -> Self {
        BigInteger256([x, 0, 0, 0])
    }
}
