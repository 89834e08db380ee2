//! Stand-in for `rug` in executor runs.
pub mod integer {
    use bigz::Z;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Order { Lsf, LsfLe, LsfBe, LsfNe, Msf, MsfLe, MsfBe, MsfNe }
    impl Order {
        #[allow(non_upper_case_globals)]
        pub const LsfNative: Order = Order::Lsf;
        fn lsf(self) -> bool { matches!(self, Order::Lsf | Order::LsfLe | Order::LsfNe | Order::LsfBe) }
    }
    pub trait UnsignedPrimitive: Copy { const N: usize; fn to64(self) -> u64; fn of64(x: u64) -> Self; }
    macro_rules! up { ($($t:ty)*) => { $(impl UnsignedPrimitive for $t { const N: usize = std::mem::size_of::<$t>(); fn to64(self) -> u64 { self as u64 } fn of64(x: u64) -> Self { x as $t } })* } }
    up!(u8 u16 u32 u64 usize);
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum IsPrime { No, Probably, Yes }
    bigz::present!(Integer);
    pub type ParseIntegerError = ParseError;
    impl Integer {
        pub const ZERO: Integer = Integer(Z { neg: false, m: Vec::new(), lo: 0 });
        pub fn new() -> Integer { Integer(Z::zero()) }
        pub fn with_capacity(_b: usize) -> Integer { Integer(Z::zero()) }
        pub fn from_str_radix(s: &str, r: i32) -> Result<Integer, ParseError> { Z::parse_radix(s, r as u32).map(Integer).ok_or(ParseError) }
        pub fn parse<S: AsRef<[u8]>>(s: S) -> Result<Integer, ParseError> { Z::parse(std::str::from_utf8(s.as_ref()).map_err(|_| ParseError)?).map(Integer).ok_or(ParseError) }
        pub fn to_string_radix(&self, r: i32) -> String { self.0.text(r as u32) }
        pub fn from_digits<T: UnsignedPrimitive>(d: &[T], o: Order) -> Integer {
            let mut b = Vec::with_capacity(d.len() * T::N);
            for i in 0..d.len() {
                let x = if o.lsf() { d[i] } else { d[d.len() - 1 - i] }.to64();
                for k in 0..T::N { b.push((x >> (8 * k)) as u8); }
            }
            Integer(Z::from_bytes_le(&b))
        }
        pub fn assign_digits<T: UnsignedPrimitive>(&mut self, d: &[T], o: Order) { *self = Integer::from_digits(d, o) }
        pub fn to_digits<T: UnsignedPrimitive>(&self, o: Order) -> Vec<T> {
            let b = self.0.bytes_le();
            let mut v = Vec::with_capacity(b.len());
            let mut i = 0;
            while i < b.len() {
                let mut x = 0u64;
                for k in 0..T::N { if i + k < b.len() { x |= (b[i + k] as u64) << (8 * k) } }
                v.push(T::of64(x));
                i += T::N;
            }
            if !o.lsf() { v.reverse(); }
            v
        }
        pub fn write_digits<T: UnsignedPrimitive>(&self, d: &mut [T], o: Order) {
            let v = self.to_digits::<T>(Order::Lsf);
            assert!(d.len() >= v.len(), "not enough capacity");
            let n = d.len();
            for i in 0..n {
                let x = if i < v.len() { v[i] } else { T::of64(0) };
                if o.lsf() { d[i] = x } else { d[n - 1 - i] = x }
            }
        }
        pub fn significant_bits(&self) -> u32 { self.0.bits() as u32 }
        pub fn significant_digits<T: UnsignedPrimitive>(&self) -> usize { (self.0.bytes_le().len() + T::N - 1) / T::N }
        pub fn is_odd(&self) -> bool { self.0.odd() }
        pub fn is_even(&self) -> bool { !self.0.odd() }
        pub fn is_zero(&self) -> bool { self.0.is_zero() }
        pub fn is_negative(&self) -> bool { self.0.neg }
        pub fn is_positive(&self) -> bool { !self.0.neg && !self.0.is_zero() }
        pub fn cmp0(&self) -> std::cmp::Ordering { self.0.cmp(&Z::zero()) }
        pub fn cmp_abs(&self, o: &Integer) -> std::cmp::Ordering { self.0.abs().cmp(&o.0.abs()) }
        pub fn get_bit(&self, i: u32) -> bool { self.0.shr(i as usize).odd() }
        pub fn to_u8(&self) -> Option<u8> { self.to_u64().and_then(|x| u8::try_from(x).ok()) }
        pub fn to_u32(&self) -> Option<u32> { self.to_u64().and_then(|x| u32::try_from(x).ok()) }
        pub fn to_u64(&self) -> Option<u64> { self.0.small() }
        pub fn to_usize(&self) -> Option<usize> { self.0.small().map(|x| x as usize) }
        pub fn to_i32(&self) -> Option<i32> { self.to_i64().and_then(|x| i32::try_from(x).ok()) }
        pub fn to_i64(&self) -> Option<i64> {
            let a = self.0.abs().small()?;
            if a >> 63 != 0 { None } else if self.0.neg { Some(-(a as i64)) } else { Some(a as i64) }
        }
        pub fn to_u64_wrapping(&self) -> u64 { let x = self.0.m.first().copied().unwrap_or(0); if self.0.neg { x.wrapping_neg() } else { x } }
        pub fn to_u32_wrapping(&self) -> u32 { self.to_u64_wrapping() as u32 }
        pub fn mod_u(&self, m: u32) -> u32 { self.0.rem_euc(&Z::u(m as u64)).small().unwrap() as u32 }
        pub fn is_divisible(&self, d: &Integer) -> bool { self.0.divrem(&d.0).1.is_zero() }
        pub fn is_divisible_u(&self, d: u32) -> bool { self.0.divrem(&Z::u(d as u64)).1.is_zero() }
        pub fn is_congruent(&self, c: &Integer, d: &Integer) -> bool { self.0.sub(&c.0).divrem(&d.0).1.is_zero() }
        pub fn abs(self) -> Integer { Integer(self.0.abs()) }
        pub fn square(self) -> Integer { Integer(self.0.mul(&self.0)) }
        pub fn square_ref(&self) -> Integer { Integer(self.0.mul(&self.0)) }
        pub fn square_mut(&mut self) { self.0 = self.0.mul(&self.0) }
        pub fn modulo(self, d: &Integer) -> Integer { Integer(self.0.modfloor(&d.0)) }
        pub fn modulo_mut(&mut self, d: &Integer) { self.0 = self.0.modfloor(&d.0) }
        pub fn modulo_ref(&self, d: &Integer) -> Integer { Integer(self.0.modfloor(&d.0)) }
        pub fn div_rem(self, d: Integer) -> (Integer, Integer) { let (q, r) = self.0.divrem(&d.0); (Integer(q), Integer(r)) }
        pub fn div_rem_euc(self, d: Integer) -> (Integer, Integer) {
            let r = self.0.rem_euc(&d.0);
            let q = self.0.sub(&r).divrem(&d.0).0;
            (Integer(q), Integer(r))
        }
        pub fn div_exact(self, d: &Integer) -> Integer { Integer(self.0.divrem(&d.0).0) }
        pub fn div_exact_u(self, d: u32) -> Integer { Integer(self.0.divrem(&Z::u(d as u64)).0) }
        pub fn pow_mod(self, e: &Integer, m: &Integer) -> Result<Integer, Integer> {
            if m.0.is_zero() { return Err(self); }
            Ok(Integer(self.0.pow_mod(&e.0, &m.0)))
        }
        pub fn pow_mod_mut(&mut self, e: &Integer, m: &Integer) -> Result<(), ()> {
            if m.0.is_zero() { return Err(()); }
            self.0 = self.0.pow_mod(&e.0, &m.0);
            Ok(())
        }
        pub fn pow_mod_ref(&self, e: &Integer, m: &Integer) -> Option<Integer> {
            if m.0.is_zero() { return None; }
            Some(Integer(self.0.pow_mod(&e.0, &m.0)))
        }
        pub fn secure_pow_mod(self, e: &Integer, m: &Integer) -> Integer { Integer(self.0.pow_mod(&e.0, &m.0)) }
        pub fn legendre(&self, n: &Integer) -> i32 { self.0.jacobi(&n.0) }
        pub fn jacobi(&self, n: &Integer) -> i32 { self.0.jacobi(&n.0) }
        pub fn u_pow_u(b: u32, e: u32) -> Integer { Integer(Z::u(b as u64).pow(e as u64)) }
        pub fn keep_bits(self, n: u32) -> Integer { let m = Z::u(1).shl(n as usize).sub(&Z::u(1)); Integer(self.0.and(&m)) }
    }
    macro_rules! try_prims { ($($t:ty)*) => { $(
        impl TryFrom<Integer> for $t { type Error = ParseError; fn try_from(x: Integer) -> Result<$t, ParseError> { x.to_u64().and_then(|v| <$t>::try_from(v).ok()).ok_or(ParseError) } }
        impl<'a> TryFrom<&'a Integer> for $t { type Error = ParseError; fn try_from(x: &'a Integer) -> Result<$t, ParseError> { x.to_u64().and_then(|v| <$t>::try_from(v).ok()).ok_or(ParseError) } }
    )* } }
    try_prims!(u8 u16 u32 u64 usize);
}
pub use integer::Integer;
pub mod ops {
    use crate::Integer;
    pub trait Pow<R> { type Output; fn pow(self, r: R) -> Self::Output; }
    macro_rules! pows { ($($t:ty)*) => { $(
        impl Pow<$t> for Integer { type Output = Integer; fn pow(self, r: $t) -> Integer { Integer(self.0.pow(r as u64)) } }
        impl<'a> Pow<$t> for &'a Integer { type Output = Integer; fn pow(self, r: $t) -> Integer { Integer(self.0.pow(r as u64)) } }
    )* } }
    pows!(u32 i32);
    pub trait RemRounding<R = Self> { type Output; fn rem_trunc(self, r: R) -> Self::Output; fn rem_floor(self, r: R) -> Self::Output; fn rem_euc(self, r: R) -> Self::Output; }
    macro_rules! remr { ($a:ty, $b:ty) => {
        impl<'a, 'b> RemRounding<$b> for $a { type Output = Integer;
            fn rem_trunc(self, r: $b) -> Integer { Integer(self.0.divrem(&r.0).1) }
            fn rem_floor(self, r: $b) -> Integer { Integer(self.0.modfloor(&r.0)) }
            fn rem_euc(self, r: $b) -> Integer { Integer(self.0.rem_euc(&r.0)) } }
    } }
    remr!(Integer, Integer);
    remr!(Integer, &'b Integer);
    remr!(&'a Integer, &'b Integer);
    pub trait NegAssign { fn neg_assign(&mut self); }
    impl NegAssign for Integer { fn neg_assign(&mut self) { self.0 = self.0.neg() } }
    pub trait SubFrom<L = Self> { fn sub_from(&mut self, l: L); }
    impl SubFrom<Integer> for Integer { fn sub_from(&mut self, l: Integer) { self.0 = l.0.sub(&self.0) } }
    impl<'a> SubFrom<&'a Integer> for Integer { fn sub_from(&mut self, l: &'a Integer) { self.0 = l.0.sub(&self.0) } }
    pub trait RemAssignRound<R = Self> { fn rem_euc_assign(&mut self, r: R); }
    impl<'a> RemAssignRound<&'a Integer> for Integer { fn rem_euc_assign(&mut self, r: &'a Integer) { self.0 = self.0.rem_euc(&r.0) } }
}
pub trait Assign<S = Self> { fn assign(&mut self, s: S); }
impl<S> Assign<S> for Integer where Integer: From<S> { fn assign(&mut self, s: S) { *self = Integer::from(s) } }
pub trait Complete { type Completed; fn complete(self) -> Self::Completed; }
impl Complete for Integer { type Completed = Integer; fn complete(self) -> Integer { self } }
