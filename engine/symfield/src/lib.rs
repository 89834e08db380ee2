//! A *symbolic* BLS12-381 scalar field.
//!
//! `SymF` implements arkworks' real `Field` trait, so the repository's own
//! functions and circuits, compiled unmodified, can be executed on it.  Every
//! arithmetic operation appends a node to an expression DAG; nothing is
//! evaluated except constant sub-expressions.  Comparisons between
//! syntactically different expressions are *decisions*: the driver re-executes
//! the code once per outcome and keeps the outcome as a path condition.
use ark_ff::{BigInteger256, Field, FpParameters, PrimeField, UniformRand};
use ark_serialize::*;
use num_traits::{One, Zero};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;

pub use realbls::Fr as RealFr;

#[derive(Clone, Copy)]
pub struct SymF(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(RealFr),
    Sym(String),
    Add(u32, u32),
    Mul(u32, u32),
    Neg(u32),
    Inv(u32),
}

#[derive(Clone, Debug)]
pub struct Decision {
    pub a: u32,
    pub b: u32,
    pub eq: bool,
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    pub vals: Vec<RealFr>,
    map: HashMap<Node, u32>,
    /// concrete valuation used only where code leaves the field (e.g. `into()`
    /// an integer): symbol name -> value
    pub valuation: HashMap<String, RealFr>,
    pub forced: Vec<bool>,
    pub decisions: Vec<Decision>,
    /// nodes whose concrete value escaped into control flow / integers
    pub escapes: Vec<(u32, RealFr)>,
    /// values to hand out, in order, to *new* escaping expressions
    pub script: Vec<RealFr>,
    pub quiet: bool,
    pub seed: u64,
}

thread_local! { pub static AR: RefCell<Arena> = RefCell::new(Arena::default()); }

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Arena {
    fn push(&mut self, n: Node) -> u32 {
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let v = match &n {
            Node::Const(c) => *c,
            Node::Sym(s) => {
                let seed = self.seed;
                *self.valuation.entry(s.clone()).or_insert_with(|| {
                    let mut h: u64 = 1469598103934665603 ^ seed;
                    for b in s.bytes() {
                        h = (h ^ b as u64).wrapping_mul(1099511628211);
                    }
                    let mut acc = RealFr::zero();
                    for _ in 0..5 {
                        acc = acc * RealFr::from(u64::MAX) + RealFr::from(splitmix(&mut h));
                    }
                    acc
                })
            }
            Node::Add(a, b) => self.vals[*a as usize] + self.vals[*b as usize],
            Node::Mul(a, b) => self.vals[*a as usize] * self.vals[*b as usize],
            Node::Neg(a) => -self.vals[*a as usize],
            Node::Inv(a) => self.vals[*a as usize].inverse().unwrap_or_else(RealFr::zero),
        };
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.vals.push(v);
        self.map.insert(n, i);
        i
    }
    fn as_const(&self, a: u32) -> Option<RealFr> {
        match &self.nodes[a as usize] {
            Node::Const(c) => Some(*c),
            _ => None,
        }
    }
    pub fn cst(&mut self, c: RealFr) -> u32 {
        self.push(Node::Const(c))
    }
    fn add(&mut self, a: u32, b: u32) -> u32 {
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => self.cst(x + y),
            (Some(x), _) if x.is_zero() => b,
            (_, Some(y)) if y.is_zero() => a,
            _ => self.push(Node::Add(a.min(b), a.max(b))),
        }
    }
    fn neg(&mut self, a: u32) -> u32 {
        if let Some(x) = self.as_const(a) {
            return self.cst(-x);
        }
        if let Node::Neg(x) = self.nodes[a as usize] {
            return x;
        }
        self.push(Node::Neg(a))
    }
    fn sub(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return self.cst(RealFr::zero());
        }
        let n = self.neg(b);
        self.add(a, n)
    }
    fn mul(&mut self, a: u32, b: u32) -> u32 {
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => self.cst(x * y),
            (Some(x), _) if x.is_zero() => a,
            (_, Some(y)) if y.is_zero() => b,
            (Some(x), _) if x.is_one() => b,
            (_, Some(y)) if y.is_one() => a,
            _ => self.push(Node::Mul(a.min(b), a.max(b))),
        }
    }
    fn inv(&mut self, a: u32) -> u32 {
        if let Some(x) = self.as_const(a) {
            return self.cst(x.inverse().unwrap());
        }
        self.push(Node::Inv(a))
    }
    /// Is a == b on the current path?
    fn decide_eq(&mut self, a: u32, b: u32) -> bool {
        if a == b {
            return true;
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return x == y;
        }
        if self.quiet {
            return false;
        }
        for d in &self.decisions {
            if (d.a, d.b) == (a, b) || (d.a, d.b) == (b, a) {
                return d.eq;
            }
        }
        let k = self.decisions.len();
        let eq = if k < self.forced.len() {
            self.forced[k]
        } else {
            self.vals[a as usize] == self.vals[b as usize]
        };
        self.decisions.push(Decision { a, b, eq });
        eq
    }
}

/// Start a fresh execution.
pub fn reset(seed: u64, forced: Vec<bool>) {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        a.decisions.clear();
        a.escapes.clear();
        a.script.clear();
        a.forced = forced;
        a.quiet = false;
        if a.seed != seed || a.nodes.is_empty() {
            *a = Arena { seed, forced: std::mem::take(&mut a.forced), ..Arena::default() };
        }
    })
}
pub fn set_quiet(q: bool) {
    AR.with(|a| a.borrow_mut().quiet = q)
}
pub fn set_value(name: &str, v: RealFr) {
    AR.with(|a| {
        a.borrow_mut().valuation.insert(name.to_string(), v);
    })
}
pub fn decisions() -> Vec<Decision> {
    AR.with(|a| a.borrow().decisions.clone())
}
pub fn escapes() -> Vec<(u32, RealFr)> {
    AR.with(|a| a.borrow().escapes.clone())
}
/// Assume the expressions that leave the field have these values (in order of
/// first escape); the assumption is reported as a path condition.
pub fn set_escape_script(v: Vec<RealFr>) {
    AR.with(|a| a.borrow_mut().script = v)
}
pub fn sym(name: &str) -> SymF {
    SymF(AR.with(|a| a.borrow_mut().push(Node::Sym(name.to_string()))))
}
pub fn constant(c: RealFr) -> SymF {
    SymF(AR.with(|a| a.borrow_mut().cst(c)))
}
impl SymF {
    pub fn value(&self) -> RealFr {
        AR.with(|a| a.borrow().vals[self.0 as usize])
    }
    fn is_const(&self) -> bool {
        AR.with(|a| a.borrow().as_const(self.0).is_some())
    }
    /// concrete value, recording that it escaped
    fn escape(&self) -> RealFr {
        if self.is_const() {
            return self.value();
        }
        AR.with(|a| {
            let mut a = a.borrow_mut();
            if let Some((_, v)) = a.escapes.iter().find(|(n, _)| *n == self.0) {
                return *v;
            }
            let k = a.escapes.len();
            let v = if k < a.script.len() { a.script[k] } else { a.vals[self.0 as usize] };
            a.escapes.push((self.0, v));
            v
        })
    }
}
pub fn dec(f: &RealFr) -> String {
    let b: BigInteger256 = (*f).into();
    let mut s = String::from("0x");
    for l in b.0.iter().rev() {
        s.push_str(&format!("{:016x}", l));
    }
    s
}
/// The whole DAG as JSON: one entry per node.
pub fn dump_nodes() -> String {
    AR.with(|a| {
        let a = a.borrow();
        let mut out = String::from("[");
        for (i, n) in a.nodes.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            match n {
                Node::Const(c) => out.push_str(&format!("[\"c\",\"{}\"]", dec(c))),
                Node::Sym(s) => out.push_str(&format!("[\"s\",\"{}\"]", s)),
                Node::Add(x, y) => out.push_str(&format!("[\"+\",{},{}]", x, y)),
                Node::Mul(x, y) => out.push_str(&format!("[\"*\",{},{}]", x, y)),
                Node::Neg(x) => out.push_str(&format!("[\"-\",{}]", x)),
                Node::Inv(x) => out.push_str(&format!("[\"i\",{}]", x)),
            }
        }
        out.push(']');
        out
    })
}

impl PartialEq for SymF {
    fn eq(&self, o: &Self) -> bool {
        AR.with(|a| a.borrow_mut().decide_eq(self.0, o.0))
    }
}
impl Eq for SymF {}
impl PartialOrd for SymF {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SymF {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.escape().cmp(&o.escape())
    }
}
impl std::hash::Hash for SymF {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        std::hash::Hash::hash(&self.0, h)
    }
}
impl Default for SymF {
    fn default() -> Self {
        Self::zero()
    }
}
impl fmt::Debug for SymF {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SymF#{}", self.0)
    }
}
impl fmt::Display for SymF {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SymF#{}", self.0)
    }
}
impl Zero for SymF {
    fn zero() -> Self {
        constant(RealFr::zero())
    }
    fn is_zero(&self) -> bool {
        *self == Self::zero()
    }
}
impl One for SymF {
    fn one() -> Self {
        constant(RealFr::one())
    }
    fn is_one(&self) -> bool {
        *self == Self::one()
    }
}
impl Neg for SymF {
    type Output = Self;
    fn neg(self) -> Self {
        SymF(AR.with(|a| Arena::neg(&mut a.borrow_mut(), self.0)))
    }
}
macro_rules! binop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $m:expr) => {
        impl $tr<SymF> for SymF {
            type Output = SymF;
            fn $f(self, o: SymF) -> SymF {
                let g: fn(&mut Arena, u32, u32) -> u32 = $m;
                SymF(AR.with(|a| g(&mut a.borrow_mut(), self.0, o.0)))
            }
        }
        impl<'a> $tr<&'a SymF> for SymF {
            type Output = SymF;
            fn $f(self, o: &'a SymF) -> SymF {
                $tr::$f(self, *o)
            }
        }
        impl<'a> $tr<&'a SymF> for &'a SymF {
            type Output = SymF;
            fn $f(self, o: &'a SymF) -> SymF {
                $tr::$f(*self, *o)
            }
        }
        impl<'a> $tr<&'a mut SymF> for SymF {
            type Output = SymF;
            fn $f(self, o: &'a mut SymF) -> SymF {
                $tr::$f(self, *o)
            }
        }
        impl $tra<SymF> for SymF {
            fn $fa(&mut self, o: SymF) {
                *self = $tr::$f(*self, o)
            }
        }
        impl<'a> $tra<&'a SymF> for SymF {
            fn $fa(&mut self, o: &'a SymF) {
                *self = $tr::$f(*self, *o)
            }
        }
        impl<'a> $tra<&'a mut SymF> for SymF {
            fn $fa(&mut self, o: &'a mut SymF) {
                *self = $tr::$f(*self, *o)
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, |a, x, y| a.add(x, y));
binop!(Sub, sub, SubAssign, sub_assign, |a, x, y| a.sub(x, y));
binop!(Mul, mul, MulAssign, mul_assign, |a, x, y| a.mul(x, y));
binop!(Div, div, DivAssign, div_assign, |a, x, y| {
    let i = a.inv(y);
    a.mul(x, i)
});
impl Sum<SymF> for SymF {
    fn sum<I: Iterator<Item = SymF>>(it: I) -> Self {
        it.fold(Self::zero(), |a, b| a + b)
    }
}
impl<'a> Sum<&'a SymF> for SymF {
    fn sum<I: Iterator<Item = &'a SymF>>(it: I) -> Self {
        it.fold(Self::zero(), |a, b| a + *b)
    }
}
impl Product<SymF> for SymF {
    fn product<I: Iterator<Item = SymF>>(it: I) -> Self {
        it.fold(Self::one(), |a, b| a * b)
    }
}
impl<'a> Product<&'a SymF> for SymF {
    fn product<I: Iterator<Item = &'a SymF>>(it: I) -> Self {
        it.fold(Self::one(), |a, b| a * *b)
    }
}
macro_rules! from_int {
    ($($t:ty),*) => { $( impl From<$t> for SymF { fn from(x: $t) -> Self { constant(RealFr::from(x)) } } )* };
}
from_int!(u128, u64, u32, u16, u8, bool);
impl From<BigInteger256> for SymF {
    fn from(b: BigInteger256) -> Self {
        constant(RealFr::from(b))
    }
}
impl From<SymF> for BigInteger256 {
    fn from(s: SymF) -> Self {
        s.escape().into()
    }
}
impl From<num_bigint::BigUint> for SymF {
    fn from(b: num_bigint::BigUint) -> Self {
        constant(RealFr::from(b))
    }
}
impl From<SymF> for num_bigint::BigUint {
    fn from(s: SymF) -> Self {
        s.escape().into()
    }
}
impl std::str::FromStr for SymF {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        s.parse::<RealFr>().map(constant).map_err(|_| ())
    }
}
impl zeroize::Zeroize for SymF {
    fn zeroize(&mut self) {
        *self = Self::zero()
    }
}
thread_local! { static FRESH: RefCell<u32> = RefCell::new(0); }
fn fresh() -> SymF {
    FRESH.with(|f| {
        let mut f = f.borrow_mut();
        *f += 1;
        sym(&format!("rnd{}", *f))
    })
}
impl ark_std::rand::distributions::Distribution<SymF> for ark_std::rand::distributions::Standard {
    fn sample<R: ark_std::rand::Rng + ?Sized>(&self, _r: &mut R) -> SymF {
        fresh()
    }
}
impl ark_ff::ToBytes for SymF {
    fn write<W: Write>(&self, w: W) -> ark_std::io::Result<()> {
        self.escape().write(w)
    }
}
impl ark_ff::FromBytes for SymF {
    fn read<R: Read>(r: R) -> ark_std::io::Result<Self> {
        Ok(constant(RealFr::read(r)?))
    }
}
impl CanonicalSerialize for SymF {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        self.escape().serialize(w)
    }
    fn serialized_size(&self) -> usize {
        32
    }
}
impl CanonicalSerializeWithFlags for SymF {
    fn serialize_with_flags<W: Write, F: Flags>(&self, w: W, f: F) -> Result<(), SerializationError> {
        self.escape().serialize_with_flags(w, f)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        32
    }
}
impl CanonicalDeserialize for SymF {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        Ok(constant(RealFr::deserialize(r)?))
    }
}
impl CanonicalDeserializeWithFlags for SymF {
    fn deserialize_with_flags<R: Read, F: Flags>(r: R) -> Result<(Self, F), SerializationError> {
        let (x, f) = RealFr::deserialize_with_flags(r)?;
        Ok((constant(x), f))
    }
}
impl Field for SymF {
    type BasePrimeField = SymF;
    fn characteristic() -> &'static [u64] {
        RealFr::characteristic()
    }
    fn extension_degree() -> u64 {
        1
    }
    fn from_base_prime_field_elems(e: &[SymF]) -> Option<Self> {
        if e.len() == 1 {
            Some(e[0])
        } else {
            None
        }
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = *self + *self;
        self
    }
    fn from_random_bytes_with_flags<F: Flags>(b: &[u8]) -> Option<(Self, F)> {
        RealFr::from_random_bytes_with_flags(b).map(|(x, f)| (constant(x), f))
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = *self * *self;
        self
    }
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() {
            None
        } else {
            Some(SymF(AR.with(|a| a.borrow_mut().inv(self.0))))
        }
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        match self.inverse() {
            Some(x) => {
                *self = x;
                Some(self)
            }
            None => None,
        }
    }
    fn frobenius_map(&mut self, _p: usize) {}
}
impl ark_ff::FftField for SymF {
    type FftParams = realbls::FrParameters;
    fn two_adic_root_of_unity() -> Self {
        constant(RealFr::two_adic_root_of_unity())
    }
    fn large_subgroup_root_of_unity() -> Option<Self> {
        RealFr::large_subgroup_root_of_unity().map(constant)
    }
    fn multiplicative_generator() -> Self {
        constant(RealFr::multiplicative_generator())
    }
}
impl PrimeField for SymF {
    type Params = realbls::FrParameters;
    type BigInt = BigInteger256;
    fn from_repr(b: BigInteger256) -> Option<Self> {
        RealFr::from_repr(b).map(constant)
    }
    fn into_repr(&self) -> BigInteger256 {
        self.escape().into_repr()
    }
}
pub fn modulus_hex() -> String {
    let b = <realbls::FrParameters as FpParameters>::MODULUS;
    let mut s = String::from("0x");
    for l in b.0.iter().rev() {
        s.push_str(&format!("{:016x}", l));
    }
    s
}
#[allow(dead_code)]
fn _assert_uniform<T: UniformRand>() {}
