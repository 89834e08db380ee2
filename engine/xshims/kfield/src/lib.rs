//! Value-level stand-in for the BLS12-381 scalar field in executor runs: a
//! 64-bit value; addition is exact modulo 2^64 and products are a commutative
//! function (wrapping product on concrete values, uninterpreted otherwise).
//! What the checks need of it: equality, conversion from small integers, and
//! that field code is a function of its arguments.  The integer value of a
//! delay function output is supplied by the harness (`set_int`).
use realff::{Field, PrimeField};
use ark_serialize::*;
use num_traits::{One, Zero};
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;
pub mod bigint;
use realff::BigInteger256;
use ndlib as nd;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Debug)]
pub struct Fr(pub u64);

/// elements with a prescribed integer value (low limb); the others are their
/// own integer value
pub const ORACLE: u64 = 7;
pub fn set_int(f: Fr, low: u64) {
    nd::map_set(ORACLE, f.0, low);
    nd::map_set(ORACLE + 1, f.0, 1);
}
/// the same for an arbitrary value whose low three bits are enumerated when
/// it is first asked for
pub fn set_free(f: Fr, low: u64) {
    nd::map_set(ORACLE, f.0, low);
    nd::map_set(ORACLE + 1, f.0, 2);
}
pub fn int_of(f: u64) -> [u64; 4] {
    let lo = nd::map_get(ORACLE, f, f);
    match nd::map_get(ORACLE + 1, f, 0) {
        0 => [lo, 0, 0, 0],
        1 => [lo, bigint::UPPER[0], bigint::UPPER[1], bigint::UPPER[2]],
        _ => [lo & !7 | nd::split(lo & 7), bigint::UPPER[0], bigint::UPPER[1], bigint::UPPER[2]],
    }
}
impl fmt::Display for Fr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Fr({})", self.0)
    }
}
impl Zero for Fr {
    fn zero() -> Self {
        Fr(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Fr {
    fn one() -> Self {
        Fr(1)
    }
}
impl Neg for Fr {
    type Output = Self;
    fn neg(self) -> Self {
        Fr(self.0.wrapping_neg())
    }
}
macro_rules! binop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $m:expr) => {
        impl $tr<Fr> for Fr {
            type Output = Fr;
            fn $f(self, o: Fr) -> Fr {
                let g: fn(u64, u64) -> u64 = $m;
                Fr(g(self.0, o.0))
            }
        }
        impl<'a> $tr<&'a Fr> for Fr {
            type Output = Fr;
            fn $f(self, o: &'a Fr) -> Fr {
                $tr::$f(self, *o)
            }
        }
        impl<'a> $tr<&'a Fr> for &'a Fr {
            type Output = Fr;
            fn $f(self, o: &'a Fr) -> Fr {
                $tr::$f(*self, *o)
            }
        }
        impl<'a> $tr<&'a mut Fr> for Fr {
            type Output = Fr;
            fn $f(self, o: &'a mut Fr) -> Fr {
                $tr::$f(self, *o)
            }
        }
        impl $tra<Fr> for Fr {
            fn $fa(&mut self, o: Fr) {
                *self = $tr::$f(*self, o)
            }
        }
        impl<'a> $tra<&'a Fr> for Fr {
            fn $fa(&mut self, o: &'a Fr) {
                *self = $tr::$f(*self, *o)
            }
        }
        impl<'a> $tra<&'a mut Fr> for Fr {
            fn $fa(&mut self, o: &'a mut Fr) {
                *self = $tr::$f(*self, *o)
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, |x, y| x.wrapping_add(y));
binop!(Sub, sub, SubAssign, sub_assign, |x, y| x.wrapping_sub(y));
binop!(Mul, mul, MulAssign, mul_assign, |x, y| nd::uf2(1, x, y));
binop!(Div, div, DivAssign, div_assign, |x, y| nd::uf2(17, x, y));
impl Sum<Fr> for Fr {
    fn sum<I: Iterator<Item = Fr>>(it: I) -> Self {
        it.fold(Self::zero(), |a, b| a + b)
    }
}
impl<'a> Sum<&'a Fr> for Fr {
    fn sum<I: Iterator<Item = &'a Fr>>(it: I) -> Self {
        it.fold(Self::zero(), |a, b| a + *b)
    }
}
impl Product<Fr> for Fr {
    fn product<I: Iterator<Item = Fr>>(it: I) -> Self {
        it.fold(Self::one(), |a, b| a * b)
    }
}
impl<'a> Product<&'a Fr> for Fr {
    fn product<I: Iterator<Item = &'a Fr>>(it: I) -> Self {
        it.fold(Self::one(), |a, b| a * *b)
    }
}
macro_rules! from_int {
    ($($t:ty),*) => { $( impl From<$t> for Fr { fn from(x: $t) -> Self { Fr(x as u64) } } )* };
}
from_int!(u128, u64, u32, u16, u8, bool);
impl From<BigInteger256> for Fr {
    fn from(b: BigInteger256) -> Self {
        Fr(b.0[0])
    }
}
impl From<Fr> for BigInteger256 {
    fn from(s: Fr) -> Self {
        BigInteger256(int_of(s.0))
    }
}
impl From<bigint::BigInteger256> for Fr {
    fn from(b: bigint::BigInteger256) -> Self {
        Fr(b.0[0])
    }
}
impl From<Fr> for bigint::BigInteger256 {
    fn from(s: Fr) -> Self {
        bigint::BigInteger256(int_of(s.0))
    }
}
impl From<num_bigint::BigUint> for Fr {
    fn from(b: num_bigint::BigUint) -> Self {
        Fr(b.iter_u64_digits().next().unwrap_or(0))
    }
}
impl From<Fr> for num_bigint::BigUint {
    fn from(s: Fr) -> Self {
        num_bigint::BigUint::from(s.0)
    }
}
impl std::str::FromStr for Fr {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        let b = s.as_bytes();
        if b.is_empty() {
            return Err(());
        }
        // the executor's encoding of a symbolic integer
        if b.len() == 10 && b[0] == 0xff && b[1] == 0x23 {
            return Ok(Fr(u64::from_le_bytes([b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9]])));
        }
        let mut v: u64 = 0;
        let mut i = 0;
        while i < b.len() {
            if b[i] < b'0' || b[i] > b'9' {
                return Err(());
            }
            v = v.wrapping_mul(10).wrapping_add((b[i] - b'0') as u64);
            i += 1;
        }
        Ok(Fr(v))
    }
}
impl zeroize::Zeroize for Fr {
    fn zeroize(&mut self) {
        *self = Fr(0)
    }
}
impl ark_std::rand::distributions::Distribution<Fr> for ark_std::rand::distributions::Standard {
    fn sample<R: ark_std::rand::Rng + ?Sized>(&self, r: &mut R) -> Fr {
        Fr(r.next_u64())
    }
}
impl realff::ToBytes for Fr {
    fn write<W: Write>(&self, w: W) -> ark_std::io::Result<()> {
        self.0.write(w)
    }
}
impl realff::FromBytes for Fr {
    fn read<R: Read>(r: R) -> ark_std::io::Result<Self> {
        Ok(Fr(u64::read(r)?))
    }
}
impl CanonicalSerialize for Fr {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        self.0.serialize(w)
    }
    fn serialized_size(&self) -> usize {
        32
    }
}
impl CanonicalSerializeWithFlags for Fr {
    fn serialize_with_flags<W: Write, F: Flags>(&self, w: W, _f: F) -> Result<(), SerializationError> {
        self.0.serialize(w)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        32
    }
}
impl CanonicalDeserialize for Fr {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        Ok(Fr(u64::deserialize(r)?))
    }
}
impl CanonicalDeserializeWithFlags for Fr {
    fn deserialize_with_flags<R: Read, F: Flags>(_r: R) -> Result<(Self, F), SerializationError> {
        Err(SerializationError::InvalidData)
    }
}
impl Field for Fr {
    type BasePrimeField = Fr;
    fn characteristic() -> &'static [u64] {
        realbls::Fr::characteristic()
    }
    fn extension_degree() -> u64 {
        1
    }
    fn from_base_prime_field_elems(e: &[Fr]) -> Option<Self> {
        if e.len() == 1 { Some(e[0]) } else { None }
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = *self + *self;
        self
    }
    fn from_random_bytes_with_flags<F: Flags>(_b: &[u8]) -> Option<(Self, F)> {
        None
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = *self * *self;
        self
    }
    fn inverse(&self) -> Option<Self> {
        if self.0 == 0 { None } else { Some(Fr(1) / *self) }
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        if self.0 == 0 { return None; }
        *self = Fr(1) / *self;
        Some(self)
    }
    fn frobenius_map(&mut self, _p: usize) {}
}
impl realff::FftField for Fr {
    type FftParams = realbls::FrParameters;
    fn two_adic_root_of_unity() -> Self {
        Fr(7)
    }
    fn large_subgroup_root_of_unity() -> Option<Self> {
        None
    }
    fn multiplicative_generator() -> Self {
        Fr(7)
    }
}
impl PrimeField for Fr {
    type Params = realbls::FrParameters;
    type BigInt = BigInteger256;
    fn from_repr(b: BigInteger256) -> Option<Self> {
        Some(Fr(b.0[0]))
    }
    fn into_repr(&self) -> BigInteger256 {
        (*self).into()
    }
}
impl rand::Gen for Fr {
    fn make() -> Self {
        Fr(<u64 as rand::Gen>::make())
    }
}
