//! Hash-consed bit-vector terms with simplification, intervals and known bits.
use crate::ir::{mask, sext, Bin};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Const,
    Var,
    B(Bin),
    Ite,
    Extract, // k = low bit
    Concat,
    ZExt,
    SExt,
    Eq,
    Ult,
    Slt,
    Uf, // k = symbol, args a (and b unless symbol is unary)
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: K,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}
#[derive(Clone, Copy)]
pub struct Info {
    pub lo: u128,
    pub hi: u128,
    pub kz: u128,
    pub ko: u128,
}
pub const NONE: E = u32::MAX;
pub struct Pool {
    pub n: Vec<Node>,
    pub i: Vec<Info>,
    map: FxMap<Node, E>,
}
fn ones(w: u32) -> u128 {
    mask(u128::MAX, w)
}
impl Pool {
    pub fn new() -> Self {
        Pool { n: vec![], i: vec![], map: Default::default() }
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w
    }
    fn mk(&mut self, nd: Node) -> E {
        if let Some(&e) = self.map.get(&nd) {
            return e;
        }
        let inf = self.info(&nd);
        if nd.op != K::Const && inf.lo == inf.hi {
            let e = self.c(inf.lo, nd.w);
            self.map.insert(nd, e);
            return e;
        }
        let e = self.n.len() as E;
        self.n.push(nd);
        self.i.push(inf);
        self.map.insert(nd, e);
        e
    }
    fn info(&self, nd: &Node) -> Info {
        let w = nd.w;
        let full = ones(w);
        let mut r = Info { lo: 0, hi: full, kz: 0, ko: 0 };
        let g = |e: E| self.i[e as usize];
        match nd.op {
            K::Const => {
                return Info { lo: nd.k, hi: nd.k, kz: full & !nd.k, ko: nd.k };
            }
            K::Var | K::Uf => {}
            K::ZExt => {
                let a = g(nd.a);
                r.lo = a.lo;
                r.hi = a.hi;
                r.kz = a.kz | (full & !ones(self.w(nd.a)));
                r.ko = a.ko;
            }
            K::SExt => {
                let a = g(nd.a);
                let aw = self.w(nd.a);
                let s = 1u128 << (aw - 1);
                if a.kz & s != 0 {
                    r.lo = a.lo;
                    r.hi = a.hi;
                    r.kz = a.kz | (full & !ones(aw));
                    r.ko = a.ko;
                } else {
                    r.kz = a.kz & !s;
                    r.ko = a.ko & !s;
                }
            }
            K::Extract => {
                let a = g(nd.a);
                r.kz = (a.kz >> nd.k) & full;
                r.ko = (a.ko >> nd.k) & full;
                if nd.k == 0 && a.hi <= full {
                    r.lo = a.lo;
                    r.hi = a.hi;
                } else if a.hi >> nd.k <= full {
                    r.lo = a.lo >> nd.k;
                    r.hi = a.hi >> nd.k;
                }
            }
            K::Concat => {
                let (a, b) = (g(nd.a), g(nd.b));
                let bw = self.w(nd.b);
                r.kz = (a.kz << bw) | b.kz;
                r.ko = (a.ko << bw) | b.ko;
                r.lo = (a.lo << bw) + b.lo;
                r.hi = (a.hi << bw) + b.hi;
            }
            K::Ite => {
                let (a, b) = (g(nd.b), g(nd.c));
                r.lo = a.lo.min(b.lo);
                r.hi = a.hi.max(b.hi);
                r.kz = a.kz & b.kz;
                r.ko = a.ko & b.ko;
            }
            K::Eq => {
                let (a, b) = (g(nd.a), g(nd.b));
                if a.hi < b.lo || b.hi < a.lo || (a.kz & b.ko) != 0 || (a.ko & b.kz) != 0 {
                    r.hi = 0;
                    r.kz = 1;
                }
            }
            K::Ult => {
                let (a, b) = (g(nd.a), g(nd.b));
                if a.hi < b.lo {
                    r.lo = 1;
                    r.ko = 1;
                } else if a.lo >= b.hi {
                    r.hi = 0;
                    r.kz = 1;
                }
            }
            K::Slt => {
                let (a, b) = (g(nd.a), g(nd.b));
                let aw = self.w(nd.a);
                let s = 1u128 << (aw - 1);
                // decide when signs are known
                let sa = if a.kz & s != 0 || a.hi < s { Some(false) } else if a.ko & s != 0 || a.lo >= s { Some(true) } else { None };
                let sb = if b.kz & s != 0 || b.hi < s { Some(false) } else if b.ko & s != 0 || b.lo >= s { Some(true) } else { None };
                let v = match (sa, sb) {
                    (Some(true), Some(false)) => Some(true),
                    (Some(false), Some(true)) => Some(false),
                    (Some(x), Some(y)) if x == y => {
                        if a.hi < b.lo {
                            Some(true)
                        } else if a.lo >= b.hi {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                match v {
                    Some(true) => {
                        r.lo = 1;
                        r.ko = 1
                    }
                    Some(false) => {
                        r.hi = 0;
                        r.kz = 1
                    }
                    None => {}
                }
            }
            K::B(b) => {
                let (x, y) = (g(nd.a), g(nd.b));
                let kx = x.kz | x.ko;
                let ky = y.kz | y.ko;
                let low = |k: u128| (!k).trailing_zeros().min(w); // number of known low bits
                match b {
                    Bin::Add | Bin::Sub | Bin::Mul => {
                        let n = low(kx).min(low(ky));
                        let m = if n >= 128 { u128::MAX } else { (1u128 << n) - 1 } & full;
                        let v = match b {
                            Bin::Add => x.ko.wrapping_add(y.ko),
                            Bin::Sub => x.ko.wrapping_sub(y.ko),
                            _ => x.ko.wrapping_mul(y.ko),
                        } & m;
                        r.ko = v;
                        r.kz = m & !v;
                        match b {
                            Bin::Add => {
                                if let Some(h) = x.hi.checked_add(y.hi) {
                                    if h <= full {
                                        r.lo = x.lo + y.lo;
                                        r.hi = h;
                                    } else if let Some(l) = x.lo.checked_add(y.lo) {
                                        // both ends wrap exactly once
                                        if l > full {
                                            r.lo = l & full;
                                            r.hi = h & full;
                                        }
                                    }
                                }
                            }
                            Bin::Sub => {
                                if x.lo >= y.hi {
                                    r.lo = x.lo - y.hi;
                                    r.hi = x.hi - y.lo;
                                }
                            }
                            _ => {
                                if let Some(h) = x.hi.checked_mul(y.hi) {
                                    if h <= full {
                                        r.lo = x.lo * y.lo;
                                        r.hi = h;
                                    }
                                }
                                // trailing zeros add up
                                let tz = ((!x.kz).trailing_zeros() + (!y.kz).trailing_zeros()).min(w);
                                if tz > 0 {
                                    r.kz |= ones(tz);
                                }
                            }
                        }
                    }
                    Bin::And => {
                        r.kz = x.kz | y.kz;
                        r.ko = x.ko & y.ko;
                        r.hi = x.hi.min(y.hi);
                    }
                    Bin::Or => {
                        r.kz = x.kz & y.kz;
                        r.ko = x.ko | y.ko;
                        r.lo = x.lo.max(y.lo);
                    }
                    Bin::Xor => {
                        r.ko = (x.ko & y.kz) | (x.kz & y.ko);
                        r.kz = (x.kz & y.kz) | (x.ko & y.ko);
                    }
                    Bin::UDiv => {
                        if y.lo > 0 {
                            r.lo = x.lo / y.hi;
                            r.hi = x.hi / y.lo;
                        }
                    }
                    Bin::URem => {
                        if y.lo > 0 {
                            r.hi = (y.hi - 1).min(x.hi);
                        }
                    }
                    Bin::Shl => {
                        if y.lo == y.hi && y.lo < w as u128 {
                            let s = y.lo as u32;
                            r.kz = ((x.kz << s) | ((1u128 << s) - 1)) & full;
                            r.ko = (x.ko << s) & full;
                            if x.hi.leading_zeros() >= s && (x.hi << s) <= full {
                                r.lo = x.lo << s;
                                r.hi = x.hi << s;
                            }
                        }
                    }
                    Bin::LShr => {
                        if y.lo == y.hi && y.lo < w as u128 {
                            let s = y.lo as u32;
                            r.kz = (x.kz >> s) | (full & !(full >> s));
                            r.ko = x.ko >> s;
                            r.lo = x.lo >> s;
                            r.hi = x.hi >> s;
                        } else {
                            r.hi = x.hi;
                        }
                    }
                    _ => {}
                }
            }
        }
        // combine
        r.kz &= full;
        r.ko &= full;
        let bits_hi = full & !r.kz;
        r.hi = r.hi.min(bits_hi);
        r.lo = r.lo.max(r.ko);
        if r.hi < full {
            let lz = r.hi.leading_zeros();
            if lz > 0 {
                let m = if lz >= 128 { u128::MAX } else { !(u128::MAX >> lz) };
                r.kz |= m & full;
            }
        }
        if (r.kz | r.ko) == full {
            r.lo = r.ko;
            r.hi = r.ko;
        }
        if r.lo > r.hi {
            // contradictory (dead) term; keep it harmless
            r.lo = 0;
            r.hi = full;
            r.kz = 0;
            r.ko = 0;
        }
        r
    }
    pub fn c(&mut self, k: u128, w: u32) -> E {
        self.mk(Node { op: K::Const, w, a: NONE, b: NONE, c: NONE, k: mask(k, w) })
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == K::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn var(&mut self, id: u128, w: u32) -> E {
        self.mk(Node { op: K::Var, w, a: NONE, b: NONE, c: NONE, k: id })
    }
    pub fn uf(&mut self, sym: u128, w: u32, a: E, b: E) -> E {
        self.mk(Node { op: K::Uf, w, a, b, c: NONE, k: sym })
    }
    fn raw(&mut self, op: K, w: u32, a: E, b: E, c: E, k: u128) -> E {
        self.mk(Node { op, w, a, b, c, k })
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let o = self.c(ones(w), w);
        self.bin(Bin::Xor, a, o)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Bin::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Bin::Or, a, b)
    }
    /// e = c * base + k over the integers (no wrap-around anywhere)
    fn lin(&mut self, e: E) -> (E, u128, u128) {
        let n = self.n[e as usize];
        let full = ones(n.w);
        let r = match n.op {
            K::ZExt => {
                if self.w(n.a) == 1 {
                    return (e, 1, 0);
                }
                self.lin(n.a)
            }
            K::Concat => match self.cv(n.b) {
                Some(k) => {
                    let (b, c, o) = self.lin(n.a);
                    let s = self.w(n.b);
                    if s >= 64 || c.leading_zeros() <= s || o.leading_zeros() <= s {
                        return (e, 1, 0);
                    }
                    (b, c << s, (o << s) + k)
                }
                None => return (e, 1, 0),
            },
            K::B(op) => {
                let k = match self.cv(n.b) {
                    Some(k) => k,
                    None => return (e, 1, 0),
                };
                let ia = self.i[n.a as usize];
                match op {
                    Bin::Add if ia.hi.checked_add(k).map_or(false, |x| x <= full) => {
                        let (b, c, o) = self.lin(n.a);
                        (b, c, o + k)
                    }
                    Bin::Or if (full & !ia.kz) & k == 0 => {
                        let (b, c, o) = self.lin(n.a);
                        (b, c, o + k)
                    }
                    Bin::Mul if ia.hi.checked_mul(k).map_or(false, |x| x <= full) => {
                        let (b, c, o) = self.lin(n.a);
                        match (c.checked_mul(k), o.checked_mul(k)) {
                            (Some(c), Some(o)) => (b, c, o),
                            _ => return (e, 1, 0),
                        }
                    }
                    Bin::Shl if k < 64 && ia.hi.leading_zeros() > k as u32 && (ia.hi << k) <= full => {
                        let (b, c, o) = self.lin(n.a);
                        if c.leading_zeros() <= k as u32 || o.leading_zeros() <= k as u32 {
                            return (e, 1, 0);
                        }
                        (b, c << k, o << k)
                    }
                    Bin::And => {
                        // contiguous mask (as far as the operand has bits)
                        let m = full & !ia.kz;
                        if m == 0 {
                            return (e, 1, 0);
                        }
                        let m = m & k;
                        if m == 0 {
                            return (e, 1, 0);
                        }
                        let top = 128 - m.leading_zeros();
                        let t = k.trailing_zeros();
                        if t == 0 || t >= top || k & ones(top) != ones(top) & !ones(t) {
                            return (e, 1, 0);
                        }
                        let b = self.extract(n.a, t, top - t);
                        (b, 1 << t, 0)
                    }
                    _ => return (e, 1, 0),
                }
            }
            _ => return (e, 1, 0),
        };
        if r.1 >= 1 << 64 || r.2 >= 1 << 64 {
            return (e, 1, 0);
        }
        r
    }
    fn fit(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew > w {
            self.extract(e, 0, w)
        } else {
            self.zext(e, w)
        }
    }
    /// c * base + k in width w (modulo 2^w)
    fn unlin(&mut self, b: E, c: u128, k: u128, w: u32) -> E {
        let b = self.fit(b, w);
        let c = self.c(c, w);
        let k = self.c(k, w);
        let m = self.bin(Bin::Mul, b, c);
        self.bin(Bin::Add, m, k)
    }
    /// e as x & mask
    fn masked(&self, e: E) -> Option<(E, u128)> {
        let n = self.n[e as usize];
        match n.op {
            K::B(Bin::And) => self.cv(n.b).map(|m| (n.a, m)),
            K::ZExt => {
                let x = self.n[n.a as usize];
                if x.op == K::Extract && x.k == 0 && self.w(x.a) == n.w {
                    return Some((x.a, ones(x.w)));
                }
                None
            }
            _ => None,
        }
    }
    pub fn upper(&self, e: E) -> u128 {
        self.i[e as usize].hi
    }
    /// e as lo <= y < hi
    fn range(&self, e: E) -> Option<(E, u128, u128)> {
        let n = self.n[e as usize];
        let top = |y: E| if self.w(y) >= 128 { u128::MAX } else { 1u128 << self.w(y) };
        match n.op {
            K::Ult => self.cv(n.b).map(|k| (n.a, 0, k)),
            K::Eq => match self.cv(n.b) {
                Some(k) if self.w(n.a) < 128 => Some((n.a, k, k + 1)),
                _ => None,
            },
            K::B(Bin::Xor) if self.cv(n.b) == Some(1) => {
                let x = self.n[n.a as usize];
                if x.op == K::Ult {
                    return self.cv(x.b).map(|k| (x.a, k, top(x.a)));
                }
                None
            }
            K::B(Bin::And) => {
                let (p, q) = (self.n[n.a as usize], self.n[n.b as usize]);
                let simple = |n: &Node| n.op == K::Ult || n.op == K::B(Bin::Xor);
                if !simple(&p) || !simple(&q) {
                    return None;
                }
                let (a, b) = (self.range(n.a)?, self.range(n.b)?);
                if a.0 == b.0 {
                    Some((a.0, a.1.max(b.1), a.2.min(b.2)))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn combine(&mut self, op: Bin, a: E, b: E) -> Option<E> {
        let (x, y) = (self.range(a)?, self.range(b)?);
        if x.0 != y.0 {
            return None;
        }
        let w = self.w(x.0);
        if w >= 128 {
            return None;
        }
        let top = 1u128 << w;
        let (lo, hi) = if op == Bin::And {
            (x.1.max(y.1), x.2.min(y.2))
        } else {
            if x.1.max(y.1) > x.2.min(y.2) {
                return None;
            }
            (x.1.min(y.1), x.2.max(y.2))
        };
        if lo >= hi {
            return Some(self.c(0, 1));
        }
        if (lo, hi) == (x.1, x.2) {
            return Some(a);
        }
        if (lo, hi) == (y.1, y.2) {
            return Some(b);
        }
        if lo == 0 && hi >= top {
            return Some(self.c(1, 1));
        }
        if lo == 0 {
            let k = self.c(hi, w);
            return Some(self.ult(x.0, k));
        }
        if hi == top {
            let k = self.c(lo, w);
            let q = self.ult(x.0, k);
            return Some(self.not(q));
        }
        if hi == lo + 1 {
            let k = self.c(lo, w);
            return Some(self.eq(x.0, k));
        }
        if op == Bin::Or {
            let k = self.c(hi, w);
            let p = self.ult(x.0, k);
            let k = self.c(lo, w);
            let q = self.ult(x.0, k);
            let q = self.not(q);
            return Some(self.raw(K::B(Bin::And), 1, p.min(q), p.max(q), NONE, 0));
        }
        None
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = self.n[a as usize];
        match n.op {
            K::Const => return self.c(n.k, w),
            K::ZExt => return self.zext(n.a, w),
            K::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let x = self.zext(n.b, w);
                    let y = self.zext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.raw(K::ZExt, w, a, NONE, NONE, 0)
    }
    pub fn sext_to(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.cv(a) {
            return self.c(sext(k, aw) as u128, w);
        }
        let s = 1u128 << (aw - 1);
        if self.i[a as usize].kz & s != 0 {
            return self.zext(a, w);
        }
        self.raw(K::SExt, w, a, NONE, NONE, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n[a as usize];
        if lo == 0 && n.w == w {
            return a;
        }
        match n.op {
            K::Const => return self.c(n.k >> lo, w),
            K::Extract => return self.extract(n.a, lo + n.k as u32, w),
            K::ZExt | K::SExt => {
                let aw = self.w(n.a);
                if lo + w <= aw {
                    return self.extract(n.a, lo, w);
                }
                if n.op == K::ZExt {
                    if lo >= aw {
                        return self.c(0, w);
                    }
                    let x = self.extract(n.a, lo, aw - lo);
                    return self.zext(x, w);
                }
            }
            K::Concat => {
                let bw = self.w(n.b);
                if lo + w <= bw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= bw {
                    return self.extract(n.a, lo - bw, w);
                }
                let l = self.extract(n.b, lo, bw - lo);
                let h = self.extract(n.a, 0, w - (bw - lo));
                return self.concat(h, l);
            }
            K::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            K::B(b) => match b {
                Bin::And | Bin::Or | Bin::Xor => {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(b, x, y);
                }
                Bin::Add | Bin::Sub | Bin::Mul if lo == 0 => {
                    let x = self.extract(n.a, 0, w);
                    let y = self.extract(n.b, 0, w);
                    return self.bin(b, x, y);
                }
                Bin::Add | Bin::Mul => {
                    let (x, c, k) = self.lin(a);
                    if x != a && c.trailing_zeros() >= lo {
                        return self.unlin(x, c >> lo, k >> lo, w);
                    }
                }
                Bin::Shl => {
                    if let Some(s) = self.cv(n.b) {
                        let s = s as u32;
                        if lo >= s {
                            return self.extract(n.a, lo - s, w);
                        }
                        if lo + w <= s {
                            return self.c(0, w);
                        }
                    }
                }
                Bin::LShr => {
                    if let Some(s) = self.cv(n.b) {
                        let s = s as u32;
                        if lo + s + w <= n.w {
                            return self.extract(n.a, lo + s, w);
                        }
                        if lo + s >= n.w {
                            return self.c(0, w);
                        }
                        let x = self.extract(n.a, lo + s, n.w - lo - s);
                        return self.zext(x, w);
                    }
                }
                _ => {}
            },
            _ => {}
        }
        self.raw(K::Extract, w, a, NONE, NONE, lo as u128)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hn, ln) = (self.n[h as usize], self.n[l as usize]);
        let w = hn.w + ln.w;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            return self.c((x << ln.w) | y, w);
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        if hn.op == K::Extract && ln.op == K::Extract && hn.a == ln.a && ln.k as u32 + ln.w == hn.k as u32 {
            return self.extract(ln.a, ln.k as u32, w);
        }
        // the low slice may have been rewritten (slices of sums are sums)
        if hn.op == K::Extract && hn.k >= ln.w as u128 {
            let lo = hn.k as u32 - ln.w;
            if self.extract(hn.a, lo, ln.w) == l {
                return self.extract(hn.a, lo, w);
            }
        }
        self.raw(K::Concat, w, h, l, NONE, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.cv(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let w = self.w(a);
        let cn = self.n[c as usize];
        // ite(not x, a, b) = ite(x, b, a)
        if cn.op == K::B(Bin::Xor) && self.cv(cn.b) == Some(1) {
            return self.ite(cn.a, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (_, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                (_, Some(0)) => return self.and(c, a),
                _ => {}
            }
        }
        if w > 1 && cn.op == K::Extract {
            // one bit put back where it came from
            if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
                if x ^ y == 1u128.checked_shl(cn.k as u32).unwrap_or(0) && x > y && cn.k > 0 {
                    let v = self.fit(cn.a, w);
                    let m = self.c(x ^ y, w);
                    let v = self.bin(Bin::And, v, m);
                    return self.bin(Bin::Or, v, b);
                }
            }
        }
        let (an, bn) = (self.n[a as usize], self.n[b as usize]);
        if an.op == K::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        if bn.op == K::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
        if bn.op == K::Ite && bn.b == a {
            let d = self.or(c, bn.a);
            return self.ite(d, a, bn.c);
        }
        // ite(c, ite(d, x, y), y) = ite(c&d, x, y)
        if an.op == K::Ite && an.c == b {
            let d = self.and(c, an.a);
            return self.ite(d, an.b, b);
        }
        self.raw(K::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(1, 1);
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { (b, a) } else { (a, b) };
        let an = self.n[a as usize];
        if let Some(k) = self.cv(b) {
            if let Some(j) = self.cv(a) {
                return self.c((j == k) as u128, 1);
            }
            if an.w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match an.op {
                K::ZExt => {
                    let aw = self.w(an.a);
                    if k > ones(aw) {
                        return self.c(0, 1);
                    }
                    let kk = self.c(k, aw);
                    return self.eq(an.a, kk);
                }
                K::Ite => {
                    if self.cv(an.b).is_some() || self.cv(an.c).is_some() {
                        let x = self.eq(an.b, b);
                        let y = self.eq(an.c, b);
                        return self.ite(an.a, x, y);
                    }
                }
                K::B(Bin::Add) => {
                    if let Some(j) = self.cv(an.b) {
                        let kk = self.c(k.wrapping_sub(j), an.w);
                        return self.eq(an.a, kk);
                    }
                }
                K::B(Bin::Xor) => {
                    if let Some(j) = self.cv(an.b) {
                        let kk = self.c(k ^ j, an.w);
                        return self.eq(an.a, kk);
                    }
                }
                K::B(Bin::And) => {
                    // x & 2^j == 0 / 2^j
                    if let Some(j) = self.cv(an.b) {
                        if j.count_ones() == 1 {
                            let bit = self.extract(an.a, j.trailing_zeros(), 1);
                            if k == 0 {
                                return self.not(bit);
                            }
                            if k == j {
                                return bit;
                            }
                            return self.c(0, 1);
                        }
                    }
                }
                _ => {}
            }
            let (x, c, o) = self.lin(a);
            if x != a && (c, o) != (1, 0) {
                if k < o || (k - o) % c != 0 || (k - o) / c > ones(self.w(x)) {
                    return self.c(0, 1);
                }
                let kk = self.c((k - o) / c, self.w(x));
                return self.eq(x, kk);
            }
        } else {
            let bn = self.n[b as usize];
            let (x, c, o) = self.lin(a);
            let (y, d, q) = self.lin(b);
            if c == d && (c > 1 || (o == q && o > 0) || x == y) {
                let (x, o, y, q) = if o >= q { (x, o, y, q) } else { (y, q, x, o) };
                // c*x + (o-q) == c*y
                if (o - q) % c != 0 {
                    return self.c(0, 1);
                }
                let k = (o - q) / c;
                if x == y {
                    return self.c((k == 0) as u128, 1);
                }
                let w = self.w(x).max(self.w(y)).max(128 - k.leading_zeros()) + (k > 0) as u32;
                if w < 120 {
                    let (x, y) = (self.zext(x, w), self.zext(y, w));
                    let k = self.c(k, w);
                    let x = self.bin(Bin::Add, x, k);
                    if x == y {
                        return self.c(1, 1);
                    }
                    let (x, y) = (x.min(y), x.max(y));
                    let (xn, yn) = (self.n[x as usize], self.n[y as usize]);
                    if xn.op == K::ZExt && yn.op == K::ZExt && self.w(xn.a) == self.w(yn.a) {
                        return self.eq(xn.a, yn.a);
                    }
                    if self.cv(x).is_some() || self.cv(y).is_some() {
                        return self.eq(x, y);
                    }
                    return self.raw(K::Eq, 1, x, y, NONE, 0);
                }
            }
            if an.op == K::ZExt && bn.op == K::ZExt && self.w(an.a) == self.w(bn.a) {
                return self.eq(an.a, bn.a);
            }
        }
        if an.w == 1 {
            // boolean equality
            let x = self.bin(Bin::Xor, a, b);
            return self.not(x);
        }
        self.raw(K::Eq, 1, a, b, NONE, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(0, 1);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((x < y) as u128, 1);
        }
        if self.cv(b) == Some(1) {
            let z = self.c(0, self.w(a));
            return self.eq(a, z);
        }
        if self.cv(a) == Some(0) {
            let z = self.c(0, self.w(b));
            let q = self.eq(b, z);
            return self.not(q);
        }
        let (an, bn) = (self.n[a as usize], self.n[b as usize]);
        if let Some(k) = self.cv(b) {
            if an.op == K::Ite && (self.cv(an.b).is_some() || self.cv(an.c).is_some()) {
                let x = self.ult(an.b, b);
                let y = self.ult(an.c, b);
                return self.ite(an.a, x, y);
            }
            if an.op == K::ZExt {
                let aw = self.w(an.a);
                if k > ones(aw) {
                    return self.c(1, 1);
                }
                let kk = self.c(k, aw);
                return self.ult(an.a, kk);
            }
            let (x, c, o) = self.lin(a);
            if x != a && (c, o) != (1, 0) {
                if k <= o {
                    return self.c(0, 1);
                }
                let t = (k - o + c - 1) / c;
                if t > ones(self.w(x)) {
                    return self.c(1, 1);
                }
                let t = self.c(t, self.w(x));
                return self.ult(x, t);
            }
        }
        if let Some(k) = self.cv(a) {
            if an.w < 128 && k < ones(an.w) {
                let kk = self.c(k + 1, an.w);
                let q = self.ult(b, kk);
                return self.not(q);
            }
            if k == ones(an.w) {
                return self.c(0, 1);
            }
        }
        if let Some(_) = self.cv(a) {
            if bn.op == K::Ite && (self.cv(bn.b).is_some() || self.cv(bn.c).is_some()) {
                let x = self.ult(a, bn.b);
                let y = self.ult(a, bn.c);
                return self.ite(bn.a, x, y);
            }
        }
        self.raw(K::Ult, 1, a, b, NONE, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(0, 1);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((sext(x, w) < sext(y, w)) as u128, 1);
        }
        let s = 1u128 << (w - 1);
        let (x, y) = (self.i[a as usize], self.i[b as usize]);
        if (x.kz & s != 0 && y.kz & s != 0) || (x.ko & s != 0 && y.ko & s != 0) {
            return self.ult(a, b);
        }
        self.raw(K::Slt, 1, a, b, NONE, 0)
    }
    pub fn bin(&mut self, op: Bin, a: E, b: E) -> E {
        let w = self.w(a);
        let full = ones(w);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if let Some(v) = fold(op, x, y, w) {
                return self.c(v, w);
            }
        }
        let comm = matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor);
        let (a, b) = if comm && (self.cv(a).is_some() || (self.cv(b).is_none() && a > b)) { (b, a) } else { (a, b) };
        let (an, bn) = (self.n[a as usize], self.n[b as usize]);
        if let Some(k) = self.cv(b) {
            match op {
                Bin::Add | Bin::Sub | Bin::Or | Bin::Xor | Bin::Shl | Bin::LShr | Bin::AShr if k == 0 => return a,
                Bin::Mul | Bin::And if k == 0 => return b,
                Bin::Mul | Bin::UDiv if k == 1 => return a,
                Bin::And if k == full => return a,
                Bin::Or if k == full => return b,
                Bin::URem if k == 1 => return self.c(0, w),
                Bin::Sub => {
                    let nk = self.c(0u128.wrapping_sub(k), w);
                    return self.bin(Bin::Add, a, nk);
                }
                Bin::Mul if k.count_ones() == 1 => {
                    let s = self.c(k.trailing_zeros() as u128, w);
                    return self.bin(Bin::Shl, a, s);
                }
                Bin::UDiv if k.count_ones() == 1 => {
                    let s = self.c(k.trailing_zeros() as u128, w);
                    return self.bin(Bin::LShr, a, s);
                }
                Bin::URem if k.count_ones() == 1 => {
                    let s = self.c(k - 1, w);
                    return self.bin(Bin::And, a, s);
                }
                Bin::Shl | Bin::LShr if k >= w as u128 => return self.c(0, w),
                _ => {}
            }
            // associativity with constants
            if an.op == K::B(op) && comm {
                if let Some(j) = self.cv(an.b) {
                    let kk = fold(op, j, k, w).unwrap();
                    let kk = self.c(kk, w);
                    return self.bin(op, an.a, kk);
                }
            }
            if op == Bin::And {
                // x & k where known bits make it trivial
                let ia = self.i[a as usize];
                if (full & !ia.kz) & !k == 0 {
                    return a;
                }
                // low mask -> zext(extract)
                let m = k & !ia.kz;
                if m != 0 && (m & (m + 1)) == 0 {
                    let n = 128 - m.leading_zeros();
                    if n < w {
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                }
            }
            if op == Bin::Mul {
                let (x, c, o) = self.lin(a);
                if x != a && (c, o) != (1, 0) {
                    if let (Some(c), Some(o)) = (c.checked_mul(k), o.checked_mul(k)) {
                        let x = self.fit(x, w);
                        let c = self.c(c, w);
                        let m = if let Some(z) = self.cv(x) { self.c(z.wrapping_mul(self.cv(c).unwrap()), w) } else { self.mulc(x, c) };
                        let o = self.c(o, w);
                        return self.bin(Bin::Add, m, o);
                    }
                }
            }
            if op == Bin::LShr {
                let s = k as u32;
                // shift of a term that is an extract/zext: use extract
                let x = self.extract(a, s, w - s);
                return self.zext(x, w);
            }
            if an.op == K::Ite && (self.cv(an.b).is_some() && self.cv(an.c).is_some()) {
                let x = self.bin(op, an.b, b);
                let y = self.bin(op, an.c, b);
                return self.ite(an.a, x, y);
            }
            if op == Bin::Xor && w == 1 && k == 1 {
                if an.op == K::B(Bin::Xor) && self.cv(an.b) == Some(1) {
                    return an.a;
                }
            }
            if op == Bin::Shl && an.op == K::B(Bin::Shl) {
                if let Some(j) = self.cv(an.b) {
                    let kk = self.c(j + k, w);
                    return self.bin(Bin::Shl, an.a, kk);
                }
            }
        } else if a == b {
            match op {
                Bin::And | Bin::Or => return a,
                Bin::Xor | Bin::Sub => return self.c(0, w),
                _ => {}
            }
        }
        if let Some(k) = self.cv(a) {
            if !comm {
                if k == 0 && !matches!(op, Bin::Sub) {
                    return a;
                }
                if bn.op == K::Ite && self.cv(bn.b).is_some() && self.cv(bn.c).is_some() {
                    let x = self.bin(op, a, bn.b);
                    let y = self.bin(op, a, bn.c);
                    return self.ite(bn.a, x, y);
                }
            }
        }
        // constants outward
        if comm && op != Bin::Mul && self.cv(b).is_none() {
            for (p, q) in [(a, b), (b, a)] {
                let pn = self.n[p as usize];
                if pn.op == K::B(op) && self.cv(pn.b).is_some() && (w > 1 || op == Bin::Xor) {
                    let x = self.bin(op, pn.a, q);
                    return self.bin(op, x, pn.b);
                }
            }
        }
        if op == Bin::Or && w > 1 {
            for (p, q) in [(a, b), (b, a)] {
                let (pn, qn) = (self.n[p as usize], self.n[q as usize]);
                if pn.op != K::ZExt || qn.op != K::B(Bin::Shl) || self.n[qn.a as usize].op != K::ZExt {
                    continue;
                }
                let h = self.n[qn.a as usize].a;
                if let Some(k) = self.cv(qn.b) {
                    let k = k as u32;
                    if self.w(pn.a) <= k && k + self.w(h) <= w && self.n[h as usize].op == K::Extract {
                        let l = self.zext(pn.a, k);
                        let c = self.concat(h, l);
                        if self.n[c as usize].op != K::Concat {
                            return self.zext(c, w);
                        }
                    }
                }
            }
            if let (Some((x, m)), Some((y, k))) = (self.masked(a), self.masked(b)) {
                if x == y {
                    let m = self.c(m | k, w);
                    return self.bin(Bin::And, x, m);
                }
            }
        }
        if w == 1 && (op == Bin::And || op == Bin::Or) {
            if let Some(r) = self.combine(op, a, b) {
                return r;
            }
            for (p, q) in [(a, b), (b, a)] {
                let pn = self.n[p as usize];
                if pn.op == K::B(op) && self.range(p).is_none() {
                    if let Some(r) = self.combine(op, pn.a, q) {
                        return self.bin(op, r, pn.b);
                    }
                    if let Some(r) = self.combine(op, pn.b, q) {
                        return self.bin(op, pn.a, r);
                    }
                }
            }
        }
        if w == 1 && (op == Bin::And || op == Bin::Or) {
            // absorption / complement
            let na = self.not(a);
            if na == b {
                return self.c((op == Bin::Or) as u128, 1);
            }
        }
        // x + y - y, x - y + y
        if op == Bin::Sub && an.op == K::B(Bin::Add) {
            if an.b == b {
                return an.a;
            }
            if an.a == b {
                return an.b;
            }
        }
        if op == Bin::Add && w > 1 {
            for (p, q) in [(a, b), (b, a)] {
                let pn = self.n[p as usize];
                if pn.op == K::B(Bin::Sub) && pn.b == q {
                    return pn.a;
                }
            }
        }
        if op == Bin::Sub && self.cv(b).is_none() && an.op == K::B(Bin::Add) && self.cv(an.b).is_some() {
            let x = self.bin(Bin::Sub, an.a, b);
            return self.bin(Bin::Add, x, an.b);
        }
        // disjoint bits: or == add == xor; normalise to Or
        if matches!(op, Bin::Add | Bin::Xor) {
            let (x, y) = (self.i[a as usize], self.i[b as usize]);
            if w > 1 && (full & !x.kz) & (full & !y.kz) == 0 {
                return self.bin(Bin::Or, a, b);
            }
        }
        if op == Bin::Mul {
            // product with a 0/1 valued term
            for (p, q) in [(a, b), (b, a)] {
                if self.i[p as usize].hi <= 1 && w > 1 {
                    let bit = self.extract(p, 0, 1);
                    let z = self.c(0, w);
                    return self.ite(bit, q, z);
                }
            }
        }
        self.raw(K::B(op), w, a, b, NONE, 0)
    }
    /// x * constant where x is not itself linear
    fn mulc(&mut self, x: E, c: E) -> E {
        let w = self.w(x);
        let k = self.cv(c).unwrap();
        if k == 0 {
            return c;
        }
        if k == 1 {
            return x;
        }
        if k.count_ones() == 1 {
            let s = self.c(k.trailing_zeros() as u128, w);
            return self.bin(Bin::Shl, x, s);
        }
        self.raw(K::B(Bin::Mul), w, x, c, NONE, 0)
    }
    /// evaluation under a model; None when a UF is met
    pub fn eval(&self, e: E, m: &crate::solver::Model, memo: &mut FxMap<E, Option<u128>>) -> Option<u128> {
        let n = self.n[e as usize];
        match n.op {
            K::Const => return Some(n.k),
            K::Var => return Some(mask(m.vars.get(&n.k).copied().unwrap_or(0), n.w)),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let r = (|| {
            Some(match n.op {
                K::B(b) => {
                    let x = self.eval(n.a, m, memo)?;
                    let y = self.eval(n.b, m, memo)?;
                    fold_total(b, x, y, n.w)
                }
                K::Ite => {
                    if self.eval(n.a, m, memo)? == 1 {
                        self.eval(n.b, m, memo)?
                    } else {
                        self.eval(n.c, m, memo)?
                    }
                }
                K::Extract => mask(self.eval(n.a, m, memo)? >> n.k, n.w),
                K::Concat => (self.eval(n.a, m, memo)? << self.w(n.b)) | self.eval(n.b, m, memo)?,
                K::ZExt => self.eval(n.a, m, memo)?,
                K::SExt => mask(sext(self.eval(n.a, m, memo)?, self.w(n.a)) as u128, n.w),
                K::Eq => (self.eval(n.a, m, memo)? == self.eval(n.b, m, memo)?) as u128,
                K::Ult => (self.eval(n.a, m, memo)? < self.eval(n.b, m, memo)?) as u128,
                K::Slt => {
                    let w = self.w(n.a);
                    (sext(self.eval(n.a, m, memo)?, w) < sext(self.eval(n.b, m, memo)?, w)) as u128
                }
                K::Uf => {
                    let x = self.eval(n.a, m, memo)?;
                    let y = if n.b == NONE { 0 } else { self.eval(n.b, m, memo)? };
                    m.ufs.get(&(n.k, x, y)).copied().unwrap_or(0)
                }
                _ => return None,
            })
        })();
        memo.insert(e, r);
        r
    }
}
pub fn fold(op: Bin, x: u128, y: u128, w: u32) -> Option<u128> {
    if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) && y == 0 {
        return None;
    }
    Some(fold_total(op, x, y, w))
}
/// SMT-LIB semantics for division by zero
pub fn fold_total(op: Bin, x: u128, y: u128, w: u32) -> u128 {
    let sh = |y: u128| y >= w as u128;
    let r = match op {
        Bin::Add => x.wrapping_add(y),
        Bin::Sub => x.wrapping_sub(y),
        Bin::Mul => x.wrapping_mul(y),
        Bin::UDiv => {
            if y == 0 {
                u128::MAX
            } else {
                x / y
            }
        }
        Bin::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Bin::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    u128::MAX
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Bin::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        Bin::Shl => {
            if sh(y) {
                0
            } else {
                x << y
            }
        }
        Bin::LShr => {
            if sh(y) {
                0
            } else {
                x >> y
            }
        }
        Bin::AShr => {
            let s = (y).min(w as u128 - 1) as u32;
            (sext(x, w) >> s) as u128
        }
        Bin::And => x & y,
        Bin::Or => x | y,
        Bin::Xor => x ^ y,
    };
    mask(r, w)
}

/// random terms through the simplifying constructors against direct evaluation
pub fn selftest(seed: u64, rounds: u64) -> Result<u64, String> {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut rnd = move |n: u64| {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        (s >> 11) % n
    };
    let mut total = 0;
    for round in 0..rounds {
        let mut p = Pool::new();
        p.c(1, 1);
        let models: Vec<crate::solver::Model> = (0..6)
            .map(|_| {
                let mut m = crate::solver::Model::default();
                for v in 0..4u128 {
                    let x = match rnd(4) {
                        0 => rnd(16) as u128,
                        1 => u64::MAX as u128 - rnd(16) as u128,
                        _ => ((rnd(1 << 32) as u128) << 32) | rnd(1 << 32) as u128,
                    };
                    m.vars.insert(v, x);
                }
                m
            })
            .collect();
        let mut ts: Vec<(E, Vec<u128>)> = vec![];
        for v in 0..4u128 {
            let w = [64, 64, 8, 16][v as usize];
            let e = p.var(v, w);
            ts.push((e, models.iter().map(|m| mask(m.vars[&v], w)).collect()));
        }
        for _ in 0..60 {
            let w = [64, 64, 8, 1, 61, 10][rnd(6) as usize];
            // operand of width w
            let mut pick = |p: &mut Pool, ts: &Vec<(E, Vec<u128>)>, w: u32| -> (E, Vec<u128>) {
                if rnd(3) == 0 {
                    let k = match rnd(5) {
                        0 => 1u128 << rnd(w as u64),
                        1 => ones(w) & !ones(rnd(w as u64 + 1) as u32),
                        2 => ones(rnd(w as u64 + 1) as u32),
                        3 => rnd(24) as u128,
                        _ => (rnd(1 << 40) as u128) << rnd(24),
                    };
                    let k = mask(k, w);
                    return (p.c(k, w), vec![k; 6]);
                }
                let c: Vec<usize> = (0..ts.len()).filter(|&i| p.w(ts[i].0) == w).collect();
                if !c.is_empty() && rnd(6) != 0 {
                    // favour recent terms
                    let k = c.len() as u64;
                    let j = k - 1 - rnd(k).min(rnd(k));
                    return ts[c[j as usize]].clone();
                }
                let (e, v) = ts[rnd(ts.len() as u64) as usize].clone();
                let ew = p.w(e);
                if ew < w {
                    return (p.zext(e, w), v);
                }
                let lo = rnd((ew - w + 1) as u64) as u32;
                (p.extract(e, lo, w), v.iter().map(|x| mask(x >> lo, w)).collect())
            };
            let (a, av) = pick(&mut p, &ts, w);
            let (b, bv) = pick(&mut p, &ts, w);
            let (c, cv) = pick(&mut p, &ts, 1);
            let z = |f: &dyn Fn(usize) -> u128| (0..6).map(f).collect::<Vec<u128>>();
            let (e, v) = match rnd(14) {
                0 | 1 => (p.ite(c, a, b), z(&|i| if cv[i] == 1 { av[i] } else { bv[i] })),
                2 => (p.eq(a, b), z(&|i| (av[i] == bv[i]) as u128)),
                3 | 4 => (p.ult(a, b), z(&|i| (av[i] < bv[i]) as u128)),
                5 => (p.slt(a, b), z(&|i| (sext(av[i], w) < sext(bv[i], w)) as u128)),
                6 if w <= 64 => (p.concat(a, b), z(&|i| (av[i] << w) | bv[i])),
                7 if w < 64 => (p.sext_to(a, 64), z(&|i| mask(sext(av[i], w) as u128, 64))),
                _ => {
                    let op = [Bin::Add, Bin::Add, Bin::Sub, Bin::Mul, Bin::Mul, Bin::And, Bin::And, Bin::Or, Bin::Or, Bin::Xor, Bin::Shl, Bin::LShr, Bin::AShr, Bin::UDiv, Bin::URem, Bin::SDiv, Bin::SRem][rnd(17) as usize];
                    if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) && bv.contains(&0) {
                        continue;
                    }
                    (p.bin(op, a, b), z(&|i| fold_total(op, av[i], bv[i], w)))
                }
            };
            for i in 0..6 {
                let mut memo = Default::default();
                let got = p.eval(e, &models[i], &mut memo);
                let inf = p.i[e as usize];
                if got != Some(v[i]) || v[i] < inf.lo || v[i] > inf.hi || v[i] & inf.kz != 0 || v[i] & inf.ko != inf.ko {
                    return Err(format!("seed {} round {}: width {} got {:?} want {:#x} info {:#x}..{:#x} {:#x} {:#x}", seed, round, w, got, v[i], inf.lo, inf.hi, inf.kz, inf.ko));
                }
            }
            total += 1;
            if p.w(e) <= 64 || rnd(2) == 0 {
                ts.push((e, v));
            }
        }
    }
    Ok(total)
}
