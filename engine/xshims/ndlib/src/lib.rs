//! Nondeterministic values and the check primitives.
//! `--cfg symex`: intrinsics of the symbolic executor.  Otherwise: native
//! replay of a recorded counterexample (tape of values, array contents).
#[cfg(symex)]
mod imp {
    extern "C" {
        fn nd_u8() -> u8;
        fn nd_u16() -> u16;
        fn nd_u32() -> u32;
        fn nd_u64() -> u64;
        fn nd_bool() -> bool;
        fn nd_bits(w: u64) -> u64;
        fn nd_assume(c: bool);
        fn nd_check(c: bool, p: *const u8, n: usize);
        fn nd_possible(c: bool, p: *const u8, n: usize);
        fn nd_reach(p: *const u8, n: usize);
        fn nd_panic_ok(x: u64);
        fn nd_stop();
        fn nd_split(x: u64) -> u64;
        fn nd_uf2(s: u64, a: u64, b: u64) -> u64;
        fn nd_map_set(m: u64, k: u64, v: u64);
        fn nd_map_get(m: u64, k: u64, d: u64) -> u64;
        fn nd_arr_new(kind: u64) -> u64;
        fn nd_arr_get(id: u64, i: u64) -> u8;
        fn nd_arr_set(id: u64, i: u64, v: u8);
        fn nd_log(x: u64);
        fn nd_known(x: u64) -> bool;
        fn nd_max(x: u64) -> u64;
        fn nd_same(a: *const u8, b: *const u8, n: usize) -> bool;
        fn nd_valid(c: bool) -> bool;
        fn nd_certain(c: bool) -> bool;
        fn nd_suppose(c: bool);
        fn nd_unsupported(c: bool, p: *const u8, n: usize);
    }
    /// is the value the same in all runs of this path
    pub fn known(x: u64) -> bool { unsafe { nd_known(x) } }
    /// some upper bound
    pub fn max(x: u64) -> u64 { unsafe { nd_max(x) } }
    /// are these byte strings the same terms
    pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && unsafe { nd_same(a.as_ptr(), b.as_ptr(), a.len()) } }
    /// does this hold in all runs of this path (false: not known)
    pub fn valid(c: bool) -> bool { unsafe { nd_valid(c) } }
    /// the same where no draws depend on the answer
    pub fn certain(c: bool) -> bool { unsafe { nd_certain(c) } }
    /// assume, without asking whether the path is still feasible
    pub fn suppose(c: bool) { unsafe { nd_suppose(c) } }
    #[inline(never)]
    pub fn unsupported_if(c: bool, m: &str) { unsafe { nd_unsupported(c, m.as_ptr(), m.len()) } }
    pub fn u8() -> u8 { unsafe { nd_u8() } }
    pub fn u16() -> u16 { unsafe { nd_u16() } }
    pub fn u32() -> u32 { unsafe { nd_u32() } }
    pub fn u64() -> u64 { unsafe { nd_u64() } }
    pub fn bool() -> bool { unsafe { nd_bool() } }
    pub fn bits(w: usize) -> u64 { unsafe { nd_bits(w as u64) } }
    pub fn assume(c: bool) { unsafe { nd_assume(c) } }
    #[inline(never)]
    pub fn check(c: bool, m: &str) { unsafe { nd_check(c, m.as_ptr(), m.len()) } }
    /// the condition must be able to hold (on some path)
    #[inline(never)]
    pub fn possible(c: bool, m: &str) { unsafe { nd_possible(c, m.as_ptr(), m.len()) } }
    #[inline(never)]
    pub fn reach(m: &str) { unsafe { nd_reach(m.as_ptr(), m.len()) } }
    /// from here on a panic ends the path quietly (1) or is a violation (0)
    pub fn panic_ok(x: bool) { unsafe { nd_panic_ok(x as u64) } }
    pub fn stop() -> ! { unsafe { nd_stop() }; loop {} }
    pub fn split(x: u64) -> u64 { unsafe { nd_split(x) } }
    pub fn uf2(s: u64, a: u64, b: u64) -> u64 { unsafe { nd_uf2(s, a, b) } }
    pub fn map_set(m: u64, k: u64, v: u64) { unsafe { nd_map_set(m, k, v) } }
    pub fn map_get(m: u64, k: u64, d: u64) -> u64 { unsafe { nd_map_get(m, k, d) } }
    pub fn arr_new(kind: u64) -> u64 { unsafe { nd_arr_new(kind) } }
    pub fn arr_get(id: u64, i: u64) -> u8 { unsafe { nd_arr_get(id, i) } }
    pub fn arr_set(id: u64, i: u64, v: u8) { unsafe { nd_arr_set(id, i, v) } }
    pub fn log(x: u64) { unsafe { nd_log(x) } }
}
#[cfg(not(symex))]
mod imp {
    use std::collections::BTreeMap;
    use std::sync::Mutex;
    #[derive(Default)]
    pub struct World {
        pub tape: Vec<u64>,
        pub pos: usize,
        /// (array symbol, index) -> value
        pub content: BTreeMap<(u64, u64), u64>,
        maps: BTreeMap<(u64, u64), u64>,
        arrs: Vec<(u64, BTreeMap<u64, u8>)>,
        pub panic_ok: bool,
        pub random: Option<u64>,
    }
    pub static W: Mutex<Option<World>> = Mutex::new(None);
    fn w<T>(f: impl FnOnce(&mut World) -> T) -> T {
        let mut g = W.lock().unwrap_or_else(|e| e.into_inner());
        f(g.get_or_insert_with(Default::default))
    }
    pub fn load(tape: Vec<u64>, content: BTreeMap<(u64, u64), u64>) {
        w(|x| *x = World { tape, content, ..Default::default() })
    }
    pub static POSS: Mutex<BTreeMap<String, bool>> = Mutex::new(BTreeMap::new());
    pub fn randomize(seed: u64) {
        w(|x| *x = World { random: Some(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1), ..Default::default() })
    }
    pub fn possible(c: bool, m: &str) {
        *POSS.lock().unwrap().entry(m.to_string()).or_insert(false) |= c
    }
    pub fn panic_allowed() -> bool { w(|x| x.panic_ok) }
    fn next(b: u32) -> u64 {
        w(|x| {
            let v = match &mut x.random {
                Some(s) => {
                    *s ^= *s << 13;
                    *s ^= *s >> 7;
                    *s ^= *s << 17;
                    *s >> 7 ^ *s << 31
                }
                None => x.tape.get(x.pos).copied().unwrap_or(0),
            };
            x.pos += 1;
            if b == 64 { v } else { v & ((1 << b) - 1) }
        })
    }
    pub struct Stop;
    pub struct Failed(pub String);
    pub fn u8() -> u8 { next(8) as u8 }
    pub fn u16() -> u16 { next(16) as u16 }
    pub fn u32() -> u32 { next(32) as u32 }
    pub fn u64() -> u64 { next(64) }
    pub fn bool() -> bool { next(8) & 1 == 1 }
    pub fn bits(n: usize) -> u64 { if n == 0 { 0 } else { next(n as u32) } }
    pub fn assume(c: bool) { if !c { std::panic::panic_any(Stop) } }
    pub fn check(c: bool, m: &str) { if !c { std::panic::panic_any(Failed(m.to_string())) } }
    pub fn reach(_m: &str) {}
    pub fn panic_ok(v: bool) { w(|x| x.panic_ok = v) }
    pub fn stop() -> ! { std::panic::panic_any(Stop) }
    pub fn split(x: u64) -> u64 { x }
    pub fn uf2(s: u64, a: u64, b: u64) -> u64 { mix(s, a, b) }
    pub fn map_set(m: u64, k: u64, v: u64) { w(|x| { x.maps.insert((m, k), v); }) }
    pub fn map_get(m: u64, k: u64, d: u64) -> u64 { w(|x| x.maps.get(&(m, k)).copied().unwrap_or(d)) }
    pub fn arr_new(kind: u64) -> u64 {
        w(|x| {
            let sym = if kind == 0 { 0 } else { x.arrs.len() as u64 + 1 };
            x.arrs.push((sym, BTreeMap::new()));
            x.arrs.len() as u64 - 1
        })
    }
    pub fn arr_get(id: u64, i: u64) -> u8 {
        w(|x| {
            let (s, m) = &x.arrs[id as usize];
            match m.get(&i) {
                Some(v) => *v,
                None if *s == 0 => 0,
                None => x.content.get(&(*s, i)).copied().unwrap_or(0) as u8,
            }
        })
    }
    pub fn arr_set(id: u64, i: u64, v: u8) { w(|x| { x.arrs[id as usize].1.insert(i, v); }) }
    pub fn log(x: u64) { eprintln!("log {}", x) }
    pub fn known(_x: u64) -> bool { true }
    pub fn max(x: u64) -> u64 { x }
    pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && if random() { a == b } else { next(8) & 1 == 1 } }
    pub fn certain(c: bool) -> bool { c }
    pub fn valid(c: bool) -> bool { if random() { c } else { next(8) & 1 == 1 } }
    fn random() -> bool { w(|x| x.random.is_some()) }
    pub fn suppose(c: bool) { assume(c) }
    pub fn unsupported_if(c: bool, _m: &str) { if c { std::panic::panic_any(Stop) } }
    /// must agree with symex's exec.rs
    pub fn mix(sym: u64, x: u64, y: u64) -> u64 {
        if sym == 1 { return x.wrapping_mul(y); }
        let (x, y) = if sym < 16 && x > y { (y, x) } else { (x, y) };
        let mut h = x.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ y.rotate_left(31).wrapping_mul(0xC2B2_AE3D_27D4_EB4F) ^ sym.wrapping_mul(0x1656_67B1_9E37_79F9);
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        h ^= h >> 32;
        h
    }
}
pub use imp::*;
pub fn usize() -> usize { u64() as usize }
/// an arbitrary value below n
pub fn below(n: usize) -> usize {
    if n <= 1 { return 0; }
    let w = 64 - ((n - 1) as u64).leading_zeros() as usize;
    let x = bits(w) as usize;
    if n & (n - 1) != 0 { assume(x < n); }
    x
}

pub fn unsupported(m: &str) { unsupported_if(true, m) }
/// Arbitrary functions of byte strings (hashes) and arbitrary permutations.
#[allow(static_mut_refs)]
pub mod model {
    pub struct Ent { tag: u64, inp: Vec<u8>, out: u64, fix: bool }
    pub static mut HASHES: Vec<Ent> = Vec::new();
    /// arbitrary bytes in the output of hash 1
    pub static mut HASH_BYTES: usize = 2;
    /// calls of hash 1
    pub static mut CALLS: usize = 0;
    fn eq(a: &[u8], b: &[u8]) -> bool {
        let mut r = true;
        for i in 0..a.len() { r &= a[i] == b[i]; }
        r
    }
    /// tag 1: any function; others: any injective function with 64-bit values
    pub fn hash(tag: u64, d: &[u8], out: &mut [u8; 32]) {
        let t = unsafe { &mut HASHES };
        let n = if tag == 1 { unsafe { CALLS += 1; HASH_BYTES } } else { 8 };
        for e in t.iter() {
            if e.tag == tag && crate::same(&e.inp, d) {
                for k in 0..n { out[k] = (e.out >> (8 * k)) as u8; }
                return;
            }
        }
        let fix = tag == 1 && fixed(d);
        for e in t.iter().rev() {
            if tag == 1 && e.tag == tag && !e.fix && e.inp.len() == d.len() && !d.is_empty() && crate::valid(eq(&e.inp, d)) {
                for k in 0..n { out[k] = (e.out >> (8 * k)) as u8; }
                return;
            }
        }
        let x = if fix { mix(d) & (!0 >> (66 - 8 * n)) } else { crate::bits(8 * n) };
        for e in t.iter() {
            if e.tag != tag { continue; }
            if e.inp.len() == d.len() {
                let q = eq(&e.inp, d);
                crate::suppose(!q | (x == e.out));
                if tag != 1 { crate::suppose(q | (x != e.out)); }
            } else if tag != 1 {
                crate::suppose(x != e.out);
            }
        }
        t.push(Ent { tag, inp: d.to_vec(), out: x, fix });
        for k in 0..n { out[k] = (x >> (8 * k)) as u8; }
    }
    /// large cases: known inputs have fixed values (hash 1, permutations: the half
    /// is kept), unknown ones arbitrary values (permutations: in the upper
    /// half)
    pub static mut MIX: bool = false;
    fn fixed(d: &[u8]) -> bool {
        if !unsafe { MIX } { return false; }
        let mut all = true;
        for x in d { all &= crate::known(*x as u64); }
        crate::same(&[all as u8], &[1]) // recorded
    }
    fn mix(d: &[u8]) -> u64 {
        let mut h = 0xcbf29ce484222325u64 ^ d.len() as u64;
        for x in d { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); }
        h ^ h >> 29
    }
    /// arbitrary permutations of 0..p, one for each k: (k, argument, value)
    pub static mut PAIRS: Vec<(u64, u64, u64, bool)> = Vec::new();
    fn pair(k: u64, x: u64, y: u64, p: u64, fix: bool) {
        for &(l, a, b, f) in unsafe { PAIRS.iter() } {
            if l != k || f || fix { continue; }
            let (q, r) = (a == x, b == y);
            crate::suppose(!((a < p) & (x < p)) | (q == r));
            crate::suppose(!q | r);
        }
        unsafe { PAIRS.push((k, x, y, fix)) }
    }
    fn find(k: u64, v: u64, inv: bool, fix: bool) -> Option<u64> {
        for &(l, a, b, f) in unsafe { PAIRS.iter() } {
            if l == k && f == fix && crate::same(&(if inv { b } else { a }).to_le_bytes(), &v.to_le_bytes()) { return Some(if inv { a } else { b }); }
        }
        for &(l, a, b, f) in unsafe { PAIRS.iter().rev() } {
            if l == k && !f && !fix && crate::valid((if inv { b } else { a }) == v) { return Some(if inv { a } else { b }); }
        }
        None
    }
    /// an unknown pair is none of the fixed ones
    fn other(k: u64, x: u64, y: u64, p: u64) {
        for &(l, a, b, f) in unsafe { PAIRS.iter() } {
            if l == k && f {
                crate::suppose(a != x);
                if b >= p / 2 { crate::suppose(b != y); }
            }
        }
    }
    pub fn enc(k: u64, x: u64, p: u64) -> u64 {
        let fix = fixed(&x.to_le_bytes());
        if let Some(y) = find(k, x, false, fix) { return y; }
        // p: a power of two
        let y = if fix {
            x & (p / 2) | x.wrapping_mul(0x9e3779b1).wrapping_add(k) & (p / 2 - 1)
        } else if unsafe { MIX } {
            p / 2 | crate::below((p / 2) as usize) as u64
        } else { crate::below(p as usize) as u64 };
        if !fix { other(k, x, y, p); }
        pair(k, x, y, p, fix);
        y
    }
    pub fn dec(k: u64, y: u64, p: u64) -> u64 {
        let fix = fixed(&y.to_le_bytes());
        if let Some(x) = find(k, y, true, fix) { return x; }
        crate::unsupported_if(fix, "unknown fixed value");
        if unsafe { MIX } { crate::suppose(y >= p / 2); }
        let x = crate::below(p as usize) as u64;
        other(k, x, y, p);
        pair(k, x, y, p, fix);
        x
    }
}
