//! Signed integers on 64-bit limbs for executor runs.  The number of limbs is
//! an upper bound (limbs known to be 0 are dropped), so small values stay
//! single words.  What the executor cannot do with symbolic operands ends the
//! run without an answer (`ndlib::unsupported`), never with a wrong value.
use ndlib as nd;
use std::cmp::Ordering;
use std::hint::select_unpredictable as sel;

#[derive(Clone)]
pub struct Z {
    pub neg: bool,
    pub m: Vec<u64>,
    /// the value modulo 2^64
    pub lo: u64,
}
/// to_digits: how many more values may have leading zero digits
/// (usize::MAX: any number), and from which byte on a 0 is a leading zero
pub static mut SHORTS: usize = usize::MAX;
pub static mut WIDTH: usize = 0;

fn trim(m: &mut Vec<u64>) {
    while let Some(&x) = m.last() {
        if nd::known(x) && x == 0 { m.pop(); } else { break; }
    }
}
fn limb(m: &[u64], i: usize) -> u64 { if i < m.len() { m[i] } else { 0 } }
fn madd(a: &[u64], b: &[u64]) -> Vec<u64> {
    let n = a.len().max(b.len());
    let mut r = Vec::with_capacity(n + 1);
    let mut c = 0u64;
    for i in 0..n {
        let (x, y) = (limb(a, i), limb(b, i));
        if nd::max(x) < 1 << 62 && nd::max(y) < 1 << 62 {
            r.push(x + y + c);
            c = 0;
        } else {
            let (s, o) = x.overflowing_add(y);
            let (s, p) = s.overflowing_add(c);
            r.push(s);
            c = (o | p) as u64;
        }
    }
    r.push(c);
    trim(&mut r);
    r
}
/// a - b modulo 2^(64 n), and whether a < b
fn msub(a: &[u64], b: &[u64]) -> (Vec<u64>, bool) {
    let n = a.len().max(b.len());
    let mut r = Vec::with_capacity(n);
    let mut c = false;
    for i in 0..n {
        let (x, y) = (limb(a, i), limb(b, i));
        let (s, o) = x.overflowing_sub(y);
        let (s, p) = s.overflowing_sub(c as u64);
        r.push(s);
        c = o | p;
    }
    (r, c)
}
fn mlt(a: &[u64], b: &[u64]) -> bool { msub(a, b).1 }
fn mzero(a: &[u64]) -> bool {
    let mut r = 0;
    for x in a { r |= *x; }
    r == 0
}
fn meq(a: &[u64], b: &[u64]) -> bool {
    let mut r = true;
    for i in 0..a.len().max(b.len()) { r &= limb(a, i) == limb(b, i); }
    r
}
fn msel(c: bool, a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r: Vec<u64> = (0..a.len().max(b.len())).map(|i| sel(c, limb(a, i), limb(b, i))).collect();
    trim(&mut r);
    r
}
fn mknown(a: &[u64]) -> bool { a.iter().all(|x| nd::known(*x)) }
fn mmul(a: &[u64], b: &[u64]) -> Vec<u64> {
    if a.len() <= 1 && b.len() <= 1 {
        let (x, y) = (limb(a, 0), limb(b, 0));
        let (mx, my) = (nd::max(x), nd::max(y));
        if mx < 256 && my < 256 { return one((x as u16 * y as u16) as u64); }
        if mx < 65536 && my < 65536 { return one((x as u32 * y as u32) as u64); }
        if mx >> 32 == 0 && my >> 32 == 0 { return one(x * y); }
    }
    if !(mknown(a) && mknown(b)) && !(a.len() <= 1 && b.len() <= 1) {
        nd::unsupported("product of wide symbolic integers");
    }
    let mut r = vec![0u64; a.len() + b.len() + 1];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c as u128;
            r[i + j] = t as u64;
            c = (t >> 64) as u64;
        }
        r[i + b.len()] = c;
    }
    trim(&mut r);
    r
}
fn one(x: u64) -> Vec<u64> {
    let mut r = vec![x];
    trim(&mut r);
    r
}
fn bitlen(a: &[u64]) -> usize { a.iter().rposition(|x| *x != 0).map_or(0, |i| 64 * i + 64 - a[i].leading_zeros() as usize) }
/// (a / b, a % b)
fn mdivrem(a: &[u64], b: &[u64]) -> (Vec<u64>, Vec<u64>) {
    if mzero(b) { panic!("division by zero"); }
    if a.is_empty() { return (vec![], vec![]); }
    if a.len() <= 1 && b.len() <= 1 {
        let (x, y) = (limb(a, 0), limb(b, 0));
        let (mx, my) = (nd::max(x), nd::max(y));
        if nd::known(y) && mx < y { return (vec![], one(x)); }
        if mx < 256 && my < 256 { return (one((x as u8 / y as u8) as u64), one((x as u8 % y as u8) as u64)); }
        if mx < 65536 && my < 65536 { return (one((x as u16 / y as u16) as u64), one((x as u16 % y as u16) as u64)); }
        if mx >> 32 == 0 && my >> 32 == 0 { return (one((x as u32 / y as u32) as u64), one((x as u32 % y as u32) as u64)); }
        return (one(x / y), one(x % y));
    }
    if mknown(b) && b.len() == 1 && b[0] == 2 {
        let q = (0..a.len()).map(|i| a[i] >> 1 | limb(a, i + 1) << 63).collect::<Vec<_>>();
        return (q, one(a[0] & 1));
    }
    if mknown(a) && mknown(b) {
        let (mut q, mut r) = (vec![0u64; a.len()], vec![0u64; b.len() + 1]);
        for k in (0..64 * a.len()).rev() {
            for i in (1..r.len()).rev() { r[i] = r[i] << 1 | r[i - 1] >> 63; }
            r[0] = r[0] << 1 | a[k / 64] >> (k % 64) & 1;
            let (d, lt) = msub(&r, b);
            if !lt {
                r = d;
                q[k / 64] |= 1 << (k % 64);
            }
        }
        trim(&mut q);
        trim(&mut r);
        return (q, r);
    }
    // wide symbolic: a few subtractions have to do
    let mut r = a.to_vec();
    let mut q = 0u64;
    for _ in 0..3 {
        let (d, lt) = msub(&r, b);
        r = msel(lt, &r, &d);
        q += sel(lt, 0, 1);
    }
    nd::unsupported_if(!mlt(&r, b), "quotient of wide symbolic integers above 3");
    r.truncate(b.len());
    trim(&mut r);
    (one(q), r)
}

fn mk(neg: bool, m: Vec<u64>) -> Z {
    let w = limb(&m, 0);
    let lo = if nd::known(neg as u64) { if neg { 0u64.wrapping_sub(w) } else { w } } else { sel(neg, 0u64.wrapping_sub(w), w) };
    Z { neg, m, lo }
}
impl Z {
    pub fn of(m: Vec<u64>, neg: bool) -> Z {
        let mut m = m;
        trim(&mut m);
        mk(neg, m)
    }
    pub fn zero() -> Z { mk(false, vec![]) }
    pub fn u(x: u64) -> Z { mk(false, one(x)) }
    pub fn i(x: i64) -> Z { mk(x < 0, one(x.unsigned_abs())) }
    pub fn u128(x: u128) -> Z { Z::of(vec![x as u64, (x >> 64) as u64], false) }
    pub fn is_zero(&self) -> bool { mzero(&self.m) }
    pub fn odd(&self) -> bool { limb(&self.m, 0) & 1 == 1 }
    pub fn neg(&self) -> Z { Z { neg: !self.neg & !self.is_zero(), m: self.m.clone(), lo: 0u64.wrapping_sub(self.lo) } }
    pub fn abs(&self) -> Z { mk(false, self.m.clone()) }
    pub fn add(&self, o: &Z) -> Z {
        let lo = self.lo.wrapping_add(o.lo);
        if self.neg == o.neg { return Z { neg: self.neg, m: madd(&self.m, &o.m), lo }; }
        let (d, lt) = msub(&self.m, &o.m);
        let (e, _) = msub(&o.m, &self.m);
        let m = msel(lt, &e, &d);
        let z = mzero(&m);
        Z { neg: (self.neg ^ lt) & !z, m, lo }
    }
    pub fn sub(&self, o: &Z) -> Z {
        if nd::known(self.neg as u64) && nd::known(o.neg as u64) && !self.neg && !o.neg {
            let (d, lt) = msub(&self.m, &o.m);
            let (e, _) = msub(&o.m, &self.m);
            return Z { neg: lt, m: msel(lt, &e, &d), lo: self.lo.wrapping_sub(o.lo) };
        }
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Z) -> Z {
        let m = mmul(&self.m, &o.m);
        let z = mzero(&m);
        mk((self.neg ^ o.neg) & !z, m)
    }
    /// truncating, as rug's and num-bigint's operators
    pub fn divrem(&self, o: &Z) -> (Z, Z) {
        if !o.neg && o.m.len() == 1 && nd::known(o.m[0]) && o.m[0].is_power_of_two() {
            // quotient and remainder by a power of two from the low word
            let k = o.m[0];
            let neg = self.neg;
            let w = if neg { 0u64.wrapping_sub(self.lo) } else { self.lo };
            let r = mk(false, one(w & (k - 1)));
            let q = mk(false, self.shr_abs(k.trailing_zeros() as usize));
            return if neg { (q.neg(), r.neg()) } else { (q, r) };
        }
        let (q, r) = mdivrem(&self.m, &o.m);
        let (zq, zr) = (mzero(&q), mzero(&r));
        (mk((self.neg ^ o.neg) & !zq, q), mk(self.neg & !zr, r))
    }
    fn shr_abs(&self, k: usize) -> Vec<u64> {
        let mut m: Vec<u64> = (0..self.m.len()).map(|i| if k == 0 { self.m[i] } else { self.m[i] >> k | limb(&self.m, i + 1) << (64 - k) }).collect();
        trim(&mut m);
        m
    }
    pub fn rem_euc(&self, o: &Z) -> Z {
        if o.m.len() == 1 && nd::known(o.m[0]) && o.m[0].is_power_of_two() { return mk(false, one(self.lo & (o.m[0] - 1))); }
        let r = self.divrem(o).1;
        if r.neg { o.abs().add(&r) } else { r }
    }
    pub fn modfloor(&self, o: &Z) -> Z {
        let r = self.divrem(o).1;
        if !r.is_zero() && r.neg != o.neg { r.add(o) } else { r }
    }
    pub fn pow(&self, e: u64) -> Z {
        let mut r = Z::u(1);
        for _ in 0..e { r = r.mul(self); }
        r
    }
    pub fn pow_mod(&self, e: &Z, p: &Z) -> Z {
        if !mknown(&e.m) || e.neg { nd::unsupported("symbolic or negative exponent"); }
        let pa = p.abs();
        let b = self.rem_euc(&pa);
        let mut r = Z::u(1).rem_euc(&pa);
        let n = bitlen(&e.m);
        for k in (0..n).rev() {
            if k + 1 < n { r = r.mul(&r).rem_euc(&pa); }
            if e.m[k / 64] >> (k % 64) & 1 == 1 {
                r = if k + 1 == n { b.clone() } else { r.mul(&b).rem_euc(&pa) };
            }
        }
        r
    }
    pub fn eq(&self, o: &Z) -> bool { (self.neg == o.neg) & meq(&self.m, &o.m) }
    pub fn lt(&self, o: &Z) -> bool {
        if self.neg != o.neg { return self.neg; }
        if self.neg { mlt(&o.m, &self.m) } else { mlt(&self.m, &o.m) }
    }
    pub fn cmp(&self, o: &Z) -> Ordering {
        if self.eq(o) { Ordering::Equal } else if self.lt(o) { Ordering::Less } else { Ordering::Greater }
    }
    pub fn and(&self, o: &Z) -> Z {
        if self.neg || o.neg { nd::unsupported("bit operation on a negative integer"); }
        Z::of((0..self.m.len().min(o.m.len())).map(|i| self.m[i] & o.m[i]).collect(), false)
    }
    pub fn or(&self, o: &Z) -> Z {
        if self.neg || o.neg { nd::unsupported("bit operation on a negative integer"); }
        Z::of((0..self.m.len().max(o.m.len())).map(|i| limb(&self.m, i) | limb(&o.m, i)).collect(), false)
    }
    pub fn xor(&self, o: &Z) -> Z {
        if self.neg || o.neg { nd::unsupported("bit operation on a negative integer"); }
        Z::of((0..self.m.len().max(o.m.len())).map(|i| limb(&self.m, i) ^ limb(&o.m, i)).collect(), false)
    }
    pub fn shl(&self, k: usize) -> Z {
        let mut m = vec![0; k / 64];
        for i in 0..=self.m.len() {
            let lo = if k % 64 == 0 || i == 0 { 0 } else { self.m[i - 1] >> (64 - k % 64) };
            m.push(limb(&self.m, i) << (k % 64) | lo);
        }
        Z::of(m, self.neg)
    }
    pub fn shr(&self, k: usize) -> Z {
        if self.neg { nd::unsupported("shift of a negative integer"); }
        let mut m = vec![];
        for i in k / 64..self.m.len() {
            let hi = if k % 64 == 0 { 0 } else { limb(&self.m, i + 1) << (64 - k % 64) };
            m.push(self.m[i] >> (k % 64) | hi);
        }
        Z::of(m, false)
    }
    pub fn bits(&self) -> usize {
        let mut n = self.m.len();
        while n > 0 && self.m[n - 1] == 0 { n -= 1; }
        if n == 0 { 0 } else { 64 * n - self.m[n - 1].leading_zeros() as usize }
    }
    pub fn from_bytes_le(b: &[u8]) -> Z {
        let mut m = vec![0u64; (b.len() + 7) / 8];
        for i in 0..b.len() { m[i / 8] |= (b[i] as u64) << (8 * (i % 8)); }
        Z::of(m, false)
    }
    /// digits of the absolute value, least significant first, no leading zeros
    pub fn bytes_le(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(8 * self.m.len());
        for x in &self.m {
            for k in 0..8 { v.push((*x >> (8 * k)) as u8); }
        }
        let mut n = v.len();
        let mut counted = false;
        while n > 0 {
            let x = v[n - 1];
            if nd::known(x as u64) {
                if x != 0 { break; }
                n -= 1;
                continue;
            }
            unsafe {
                if SHORTS != usize::MAX && n <= WIDTH && !counted {
                    if nd::certain(x == 0) {
                        n -= 1;
                        continue;
                    }
                    if SHORTS == 0 {
                        nd::assume(x != 0);
                        break;
                    }
                    if x != 0 { break; }
                    SHORTS -= 1;
                    counted = true;
                } else if x != 0 {
                    break;
                }
            }
            n -= 1;
        }
        v.truncate(n);
        v
    }
    pub fn parse(s: &str) -> Option<Z> { Z::parse_radix(s, 10) }
    pub fn parse_radix(s: &str, radix: u32) -> Option<Z> {
        let (neg, d) = match s.as_bytes() {
            [b'-', r @ ..] => (true, r),
            [b'+', r @ ..] => (false, r),
            r => (false, r),
        };
        if d.is_empty() { return None; }
        let mut m: Vec<u64> = vec![];
        for c in d {
            if *c == b'_' { continue; }
            let mut carry = (*c as char).to_digit(radix)? as u128;
            for x in m.iter_mut() {
                let t = *x as u128 * radix as u128 + carry;
                *x = t as u64;
                carry = t >> 64;
            }
            if carry != 0 { m.push(carry as u64); }
        }
        let neg = neg && !m.is_empty();
        Some(Z::of(m, neg))
    }
    pub fn text(&self, radix: u32) -> String {
        if !mknown(&self.m) { nd::unsupported("text of a symbolic integer"); }
        let mut m = self.m.clone();
        let mut v = vec![];
        while m.iter().any(|x| *x != 0) {
            let mut r = 0u128;
            for x in m.iter_mut().rev() {
                let t = r << 64 | *x as u128;
                *x = (t / radix as u128) as u64;
                r = t % radix as u128;
            }
            v.push(std::char::from_digit(r as u32, radix).unwrap());
        }
        if v.is_empty() { v.push('0'); }
        if self.neg { v.push('-'); }
        v.iter().rev().collect()
    }
    pub fn small(&self) -> Option<u64> {
        for i in 1..self.m.len() {
            if self.m[i] != 0 { return None; }
        }
        if self.neg { None } else { Some(limb(&self.m, 0)) }
    }
    /// Jacobi symbol (odd positive n)
    pub fn jacobi(&self, n: &Z) -> i32 {
        let (mut a, mut n, mut s) = (self.rem_euc(n), n.clone(), 1);
        while !a.is_zero() {
            while !a.odd() {
                a = a.shr(1);
                let r = limb(&n.m, 0) & 7;
                if r == 3 || r == 5 { s = -s; }
            }
            std::mem::swap(&mut a, &mut n);
            if limb(&a.m, 0) & 3 == 3 && limb(&n.m, 0) & 3 == 3 { s = -s; }
            a = a.rem_euc(&n);
        }
        if n.eq(&Z::u(1)) { s } else { 0 }
    }
}

/// the operators and traits common to both presentations
#[macro_export]
macro_rules! present {
    ($T:ident) => {
        #[derive(Clone)]
        pub struct $T(pub $crate::Z);
        impl Default for $T { fn default() -> Self { $T($crate::Z::zero()) } }
        impl PartialEq for $T { fn eq(&self, o: &$T) -> bool { self.0.eq(&o.0) } }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &$T) -> Option<std::cmp::Ordering> { Some(self.0.cmp(&o.0)) }
            fn lt(&self, o: &$T) -> bool { self.0.lt(&o.0) }
            fn gt(&self, o: &$T) -> bool { o.0.lt(&self.0) }
            fn le(&self, o: &$T) -> bool { !o.0.lt(&self.0) }
            fn ge(&self, o: &$T) -> bool { !self.0.lt(&o.0) }
        }
        impl Ord for $T { fn cmp(&self, o: &$T) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
        impl std::hash::Hash for $T { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.bytes_le().hash(h) } }
        impl std::fmt::Display for $T { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0.text(10)) } }
        impl std::fmt::Debug for $T { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0.text(10)) } }
        #[derive(Debug, Clone, PartialEq)]
        pub struct ParseError;
        impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("parse error") } }
        impl std::error::Error for ParseError {}
        impl std::str::FromStr for $T {
            type Err = ParseError;
            fn from_str(s: &str) -> Result<$T, ParseError> { $crate::Z::parse(s).map($T).ok_or(ParseError) }
        }
        impl<'a> From<&'a $T> for $T { fn from(x: &'a $T) -> $T { x.clone() } }
        impl std::ops::Neg for $T { type Output = $T; fn neg(self) -> $T { $T(self.0.neg()) } }
        impl<'a> std::ops::Neg for &'a $T { type Output = $T; fn neg(self) -> $T { $T(self.0.neg()) } }
        impl std::iter::Sum for $T { fn sum<I: Iterator<Item = $T>>(i: I) -> $T { i.fold($T::default(), |a, b| a + b) } }
        impl std::iter::Product for $T { fn product<I: Iterator<Item = $T>>(i: I) -> $T { i.fold($T($crate::Z::u(1)), |a, b| a * b) } }
        $crate::present_ops!($T, Add add AddAssign add_assign |a, b| a.add(b));
        $crate::present_ops!($T, Sub sub SubAssign sub_assign |a, b| a.sub(b));
        $crate::present_ops!($T, Mul mul MulAssign mul_assign |a, b| a.mul(b));
        $crate::present_ops!($T, Div div DivAssign div_assign |a, b| a.divrem(b).0);
        $crate::present_ops!($T, Rem rem RemAssign rem_assign |a, b| a.divrem(b).1);
        $crate::present_ops!($T, BitAnd bitand BitAndAssign bitand_assign |a, b| a.and(b));
        $crate::present_ops!($T, BitOr bitor BitOrAssign bitor_assign |a, b| a.or(b));
        $crate::present_ops!($T, BitXor bitxor BitXorAssign bitxor_assign |a, b| a.xor(b));
        $crate::present_shift!($T, Shl shl ShlAssign shl_assign);
        $crate::present_shift!($T, Shr shr ShrAssign shr_assign);
        $crate::present_prims!($T, u; u8 u16 u32 u64 usize);
        $crate::present_prims!($T, i; i8 i16 i32 i64 isize);
        impl From<u128> for $T { fn from(x: u128) -> $T { $T($crate::Z::u128(x)) } }
        impl From<bool> for $T { fn from(x: bool) -> $T { $T($crate::Z::u(x as u64)) } }
    };
}
#[macro_export]
macro_rules! present_ops {
    ($T:ident, $Tr:ident $f:ident $Ta:ident $fa:ident $m:expr) => {
        impl std::ops::$Tr<$T> for $T { type Output = $T; fn $f(self, o: $T) -> $T { let g: fn(&$crate::Z, &$crate::Z) -> $crate::Z = $m; $T(g(&self.0, &o.0)) } }
        impl<'a> std::ops::$Tr<&'a $T> for $T { type Output = $T; fn $f(self, o: &'a $T) -> $T { let g: fn(&$crate::Z, &$crate::Z) -> $crate::Z = $m; $T(g(&self.0, &o.0)) } }
        impl<'a> std::ops::$Tr<$T> for &'a $T { type Output = $T; fn $f(self, o: $T) -> $T { let g: fn(&$crate::Z, &$crate::Z) -> $crate::Z = $m; $T(g(&self.0, &o.0)) } }
        impl<'a, 'b> std::ops::$Tr<&'b $T> for &'a $T { type Output = $T; fn $f(self, o: &'b $T) -> $T { let g: fn(&$crate::Z, &$crate::Z) -> $crate::Z = $m; $T(g(&self.0, &o.0)) } }
        impl std::ops::$Ta<$T> for $T { fn $fa(&mut self, o: $T) { let g: fn(&$crate::Z, &$crate::Z) -> $crate::Z = $m; self.0 = g(&self.0, &o.0) } }
        impl<'a> std::ops::$Ta<&'a $T> for $T { fn $fa(&mut self, o: &'a $T) { let g: fn(&$crate::Z, &$crate::Z) -> $crate::Z = $m; self.0 = g(&self.0, &o.0) } }
    };
}
#[macro_export]
macro_rules! present_shift {
    ($T:ident, $Tr:ident $f:ident $Ta:ident $fa:ident) => { $crate::present_shift!($T, $Tr $f $Ta $fa; u32 i32 usize u64); };
    ($T:ident, $Tr:ident $f:ident $Ta:ident $fa:ident; $($t:ty)*) => { $(
        impl std::ops::$Tr<$t> for $T { type Output = $T; fn $f(self, o: $t) -> $T { $T(self.0.$f(o as usize)) } }
        impl<'a> std::ops::$Tr<$t> for &'a $T { type Output = $T; fn $f(self, o: $t) -> $T { $T(self.0.$f(o as usize)) } }
        impl std::ops::$Ta<$t> for $T { fn $fa(&mut self, o: $t) { self.0 = self.0.$f(o as usize) } }
    )* };
}
#[macro_export]
macro_rules! present_prims {
    ($T:ident, $k:ident; $($t:ident)*) => { $(
        impl From<$t> for $T { fn from(x: $t) -> $T { $T($crate::present_prims!(@ $k x)) } }
        impl PartialEq<$t> for $T { fn eq(&self, o: &$t) -> bool { self.0.eq(&$T::from(*o).0) } }
        impl PartialEq<$T> for $t { fn eq(&self, o: &$T) -> bool { o.0.eq(&$T::from(*self).0) } }
        impl PartialOrd<$t> for $T { fn partial_cmp(&self, o: &$t) -> Option<std::cmp::Ordering> { Some(self.0.cmp(&$T::from(*o).0)) } }
        impl PartialOrd<$T> for $t { fn partial_cmp(&self, o: &$T) -> Option<std::cmp::Ordering> { Some($T::from(*self).0.cmp(&o.0)) } }
        $crate::present_prims!(@ops $T $t Add add AddAssign add_assign);
        $crate::present_prims!(@ops $T $t Sub sub SubAssign sub_assign);
        $crate::present_prims!(@ops $T $t Mul mul MulAssign mul_assign);
        $crate::present_prims!(@ops $T $t Div div DivAssign div_assign);
        $crate::present_prims!(@ops $T $t Rem rem RemAssign rem_assign);
        $crate::present_prims!(@ops $T $t BitAnd bitand BitAndAssign bitand_assign);
        $crate::present_prims!(@ops $T $t BitOr bitor BitOrAssign bitor_assign);
        $crate::present_prims!(@ops $T $t BitXor bitxor BitXorAssign bitxor_assign);
    )* };
    (@ u $x:ident) => { $crate::Z::u($x as u64) };
    (@ i $x:ident) => { $crate::Z::i($x as i64) };
    (@ops $T:ident $t:ident $Tr:ident $f:ident $Ta:ident $fa:ident) => {
        impl std::ops::$Tr<$t> for $T { type Output = $T; fn $f(self, o: $t) -> $T { std::ops::$Tr::$f(self, $T::from(o)) } }
        impl<'a> std::ops::$Tr<$t> for &'a $T { type Output = $T; fn $f(self, o: $t) -> $T { std::ops::$Tr::$f(self, $T::from(o)) } }
        impl std::ops::$Tr<$T> for $t { type Output = $T; fn $f(self, o: $T) -> $T { std::ops::$Tr::$f($T::from(self), o) } }
        impl<'a> std::ops::$Tr<&'a $T> for $t { type Output = $T; fn $f(self, o: &'a $T) -> $T { std::ops::$Tr::$f($T::from(self), o) } }
        impl std::ops::$Ta<$t> for $T { fn $fa(&mut self, o: $t) { std::ops::$Ta::$fa(self, $T::from(o)) } }
    };
}
