//! Harnesses over the storage crate's pieces: dependency rules, byte and
//! integer helpers, delay function, Merkle tree, challenges.
#![allow(static_mut_refs)]
use crate::proof_of_storage::common::*;
use crate::proof_of_storage::depend::*;
use crate::proof_of_storage::merkle_tree::*;
use crate::proof_of_storage::postorage::*;
use crate::proof_of_storage::prover::*;
use crate::proof_of_storage::verifier::*;
use crate::vde::rug_sloth;
use crate::vde::rug_vde;
use crate::vde::sloth as big_sloth;
use ndlib as nd;
use num_bigint::BigInt;
use rug::Integer;
use std::str::FromStr;
use vstd::fs;

macro_rules! harnesses {
    ($($name:ident => $e:expr;)*) => {
        $( #[cfg_attr(symex, no_mangle)] pub fn $name() { $e; } )*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
harnesses! {
    h_dep_long1 => long_rule(1, 40, 6);
    h_dep_long1_far => { let i = nd::below(1 << 40); long_at(i, 3, 1) };
    h_dep_long2 => long_rule(2, 70, 8);
    h_dep_long2_far => { let i = nd::below(1 << 40); long_at(i, 12, 2) };
    h_dep_long2_many => { for i in [0, 1, 2, 3, 7, 8, 9, 64, 1000, (1 << 20) + 1] { long_at(i, 100, 2) } };
    h_dep_long3 => { let i = nd::split(nd::below(64) as u64) as usize; long_at(i, 0, 3) };
    h_dep_long3_far => { for i in [99, 100, 650, 655, 1000, 5000, 70000] { long_at(i, 0, 3) } };
    h_dep_long_other => { for m in [0, 4, 9] { nd::check(long_depend(nd::below(100), 4, m).is_empty(), "no rule, no dependencies"); } };
    h_dep_short1 => short_rule(1, 9, 5);
    h_dep_short2 => short_rule(2, 12, 6);
    h_dep_short_far => { for n in [64, 1000] { for m in [1, 2] { for i in [0, 1, n / 2, n - 2, n - 1] { short_at(n, i, 70, m) } } } };
    h_dep_short_other => { for m in [0, 3, 9] { nd::check(short_depend(9, nd::below(9), 4, m).is_empty(), "no rule, no dependencies"); } };
    h_dep_tables => tables();
    h_dep_rl_small => random_long(8, 3, 2);
    h_dep_rl_many => random_long(9, 17, 1);
    h_dep_rl_many2 => random_long(9, 20, 1);
    h_dep_rl_mid => random_long(1000, 2, 4);
    h_dep_rl_mid_many => random_long(1000, 12, 2);
    h_dep_rl_big => random_long(100000, 1, 3);
    h_dep_rl_big_many => random_long(100000, 9, 3);
    h_dep_rl_builtin => random_long(256, 26, 1);
    h_dep_rl_reach => reach_long(200, 16);
    h_dep_rl_reach_mid => reach_long(60000, 16);
    h_dep_rl_reach_big => reach_long(1 << 20, 24);
    h_dep_rs_small => random_short(5, 3, 2);
    h_dep_rs_many => random_short(3, 17, 1);
    h_dep_rs_many2 => random_short(4, 20, 1);
    h_dep_rs_mid => random_short(1000, 2, 4);
    h_dep_rs_mid_many => random_short(1000, 12, 2);
    h_dep_rs_big => random_short(100000, 1, 3);
    h_dep_rs_big_many => random_short(100000, 9, 3);
    h_dep_rs_builtin => random_short(4096, 10, 2);
    h_dep_rs_builtin64 => random_short(64, 10, 2);
    h_dep_rs_reach => reach_short(200);
    h_dep_rs_reach_mid => reach_short(60000);
    h_dep_rs_reach_big => reach_short(1 << 20);
    h_dep_order => same_order();
    h_bytes_units => units();
    h_bytes_xor => xor();
    h_bytes_read => reading();
    h_bytes_pad => padding();
    h_mod_small => modround(Integer::from(251u64), 1, 2, 1);
    h_mod_two => modround(Integer::from(65519u64), 2, 2, 9);
    h_mod_longer => modround(Integer::from(65519u64), 2, 1, 9);
    h_mod_three => modround(Integer::from(16777213u64), 3, 2, 9);
    h_mod_leading => modleading();
    h_mod_p64 => modround(Integer::from_str(rug_sloth::P_64).unwrap(), 8, 8, 1);
    h_mod_wide => { for z in [rug_sloth::P_256, rug_sloth::P_512, rug_sloth::P_1024] { modwide(z) } };
    h_mod_wrap64 => modwrap(rug_sloth::P_64, 8);
    h_mod_wrap512 => modwrap(rug_sloth::P_512, 64);
    h_mod_value => { for p in [251u64, 65519] { modvalue(p) } };
    h_vde_rug3 => sloth_inverse(3, 1, false);
    h_vde_rug7 => sloth_inverse(7, 1, false);
    h_vde_rug11 => sloth_inverse(11, 1, false);
    h_vde_rug19 => sloth_inverse(19, 1, false);
    h_vde_rug23 => sloth_inverse(23, 1, false);
    h_vde_rug31 => sloth_inverse(31, 1, false);
    h_vde_rug7_t3 => sloth_inverse(7, 3, false);
    h_vde_rug11_t2 => sloth_inverse(11, 2, false);
    h_vde_rug103 => sloth_inverse(103, 1, true);
    h_vde_rug251 => sloth_inverse(251, 1, true);
    h_vde_big3 => big_inverse(3, 1, false);
    h_vde_big7 => big_inverse(7, 1, false);
    h_vde_big11 => big_inverse(11, 1, false);
    h_vde_big19 => big_inverse(19, 1, false);
    h_vde_big23 => big_inverse(23, 1, false);
    h_vde_big31 => big_inverse(31, 1, false);
    h_vde_big7_t3 => big_inverse(7, 3, false);
    h_vde_big103 => big_inverse(103, 1, true);
    h_vde_big251 => big_inverse(251, 1, true);
    h_vde_agree7 => agree(7);
    h_vde_agree19 => agree(19);
    h_vde_agree31 => agree(31);
    h_vde_legendre3 => legendre(3);
    h_vde_legendre5 => legendre(5);
    h_vde_legendre7 => legendre(7);
    h_vde_legendre13 => legendre(13);
    h_vde_legendre17 => legendre(17);
    h_vde_legendre19 => legendre(19);
    h_vde_legendre23 => legendre(23);
    h_vde_legendre29 => legendre(29);
    h_vde_legendre31 => legendre(31);
    h_vde_modpow7 => modpow(7);
    h_vde_modpow23 => modpow(23);
    h_vde_bytes1 => vde_bytes(23, 1, 1);
    h_vde_bytes2 => vde_bytes(23, 2, 1);
    h_vde_bytes3 => vde_bytes(7, 3, 1);
    h_vde_bytes_t0 => vde_bytes(11, 2, 0);
    h_vde_bytes_t3 => vde_bytes(11, 2, 3);
    h_pub_params => params();
    h_pub_saved => pubdata();
    h_pub_over => { fs::arbitrary("pub", 700); pubdata() };
    h_tree_cover1_1 => tree_cover(1, 1);
    h_tree_cover2_1 => tree_cover(2, 1);
    h_tree_cover3_1 => tree_cover(3, 1);
    h_tree_cover4_1 => tree_cover(4, 1);
    h_tree_cover5_1 => tree_cover(5, 1);
    h_tree_cover4_2 => tree_cover(4, 2);
    h_tree_cover6_2 => tree_cover(6, 2);
    h_tree_cover6_3 => tree_cover(6, 3);
    h_tree_cover5_2 => tree_cover(5, 2);
    h_tree_cover7_3 => tree_cover(7, 3);
    h_tree_cover9_1 => tree_cover(9, 1);
    h_tree_cover16_2 => tree_cover(16, 2);
    h_tree_cover24_8 => tree_cover(24, 8);
    h_tree_data => { for n in 1..=5 { tree_data(n) } };
    h_tree_open1 => tree_open(1);
    h_tree_open2 => tree_open(2);
    h_tree_open3 => tree_open(3);
    h_tree_open4 => tree_open(4);
    h_tree_open5 => tree_open(5);
    h_tree_open7 => tree_open(7);
    h_tree_open8 => tree_open(8);
    h_tree_wrong1 => tree_wrong(1);
    h_tree_wrong2 => tree_wrong(2);
    h_tree_wrong3 => tree_wrong(3);
    h_tree_wrong4 => tree_wrong(4);
    h_tree_wrong5 => tree_wrong(5);
    h_tree_flow0 => flow(0);
    h_tree_flow1 => flow(1);
    h_tree_flow2 => flow(2);
    h_tree_flow3 => flow(3);
    h_chal_1 => challenges(1);
    h_chal_2 => challenges(2);
    h_chal_3 => challenges(3);
    h_chal_all => chal_all();
    h_chal_file => random_file();
}
//@ all
fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| nd::u8()).collect() }
/// case k can occur (each case is its own situation)
fn possible_at(k: usize, c: bool, what: &str) {
    let mut m = [b' '; 64];
    m[0] = b'0' + (k / 100 % 10) as u8;
    m[1] = b'0' + (k / 10 % 10) as u8;
    m[2] = b'0' + (k % 10) as u8;
    for i in 0..what.len() { m[4 + i] = what.as_bytes()[i]; }
    nd::possible(c, std::str::from_utf8(&m[..4 + what.len()]).unwrap_or(""));
}
//@ dep
/// indices of other, existing blocks (earlier ones), each once
fn rule(n: usize, i: usize, v: &Vec<usize>, earlier: bool) {
    for k in 0..v.len() {
        nd::check(v[k] < n, "dependencies exist");
        nd::check(v[k] != i, "nothing depends on itself");
        if earlier { nd::check(v[k] < i, "long dependencies are on earlier blocks"); }
        for j in 0..k { nd::check(v[j] != v[k], "each dependency is listed once"); }
    }
}
fn is(v: &Vec<usize>, w: &Vec<usize>) {
    nd::check(v.len() == w.len(), "number of dependencies");
    for k in 0..v.len() { nd::check(v[k] == w[k], "the dependencies of the rule"); }
}
/// distances 1, 3, 5, ... (mode 1), 2, 3, 5, 9, ... (modes 2, 3)
fn long_at(i: usize, count: usize, mode: usize) {
    let v = long_depend(i, count, mode);
    rule(i + 1, i, &v, true);
    let n = if mode == 3 { i / 10 } else { count };
    let mut w = vec![];
    for k in 0..n.min(62) {
        let d = if mode == 1 { 1 + 2 * k } else { 1 + (1 << k) };
        if d <= i { w.push(i - d); } else { break; }
    }
    is(&v, &w);
}
fn long_rule(mode: usize, max: usize, counts: usize) {
    let i = nd::split(nd::below(max) as u64) as usize;
    let c = nd::split(nd::below(counts) as u64) as usize;
    long_at(i, c, mode)
}
/// distances -1, +1, -3, +3, ... without those outside (mode 1);
/// -2, +1, -5, +7, -17, +31, ... up to the first outside (mode 2)
fn short_at(n: usize, i: usize, count: usize, mode: usize) {
    let v = short_depend(n, i, count, mode);
    rule(n, i, &v, false);
    let mut w = vec![];
    if mode == 1 {
        let mut k = 0;
        while k < n && w.len() < count {
            let d = 1 + 2 * k;
            if d <= i { w.push(i - d); }
            if w.len() < count && i + d < n { w.push(i + d); }
            k += 1;
        }
    } else {
        for k in 0..count {
            let d = 1usize << k;
            if k % 2 == 0 {
                if i < d + 1 { break; }
                w.push(i - d - 1);
            } else {
                if i + d - 1 >= n { break; }
                w.push(i + d - 1);
            }
        }
    }
    is(&v, &w);
}
fn short_rule(mode: usize, max: usize, counts: usize) {
    let n = 1 + nd::split(nd::below(max) as u64) as usize;
    let i = nd::split(nd::below(n) as u64) as usize;
    let c = nd::split(nd::below(counts) as u64) as usize;
    short_at(n, i, c, mode)
}
fn tables() {
    for m in [1, 2, 3] {
        let t = create_long_depend(12, 3, m);
        nd::check(t.len() == 12, "one list per block");
        for i in 0..12 { is(&t[i], &long_depend(i, 3, m)); }
    }
    for m in [1, 2] {
        let t = create_short_depend(9, 3, m);
        nd::check(t.len() == 9, "one list per unit");
        for i in 0..9 { is(&t[i], &short_depend(9, i, 3, m)); }
    }
}
fn hashed(n: usize) { unsafe { nd::model::HASH_BYTES = n; } }
fn random_long(num: usize, count: usize, h: usize) {
    hashed(h);
    let i = if num <= 9 { nd::split(nd::below(num) as u64) as usize } else { num - 1 - nd::split(nd::below(3) as u64) as usize };
    let v = long_mode_random(num, &bytes(2), i, count);
    rule(num, i, &v, true);
    nd::check(v.len() <= count, "at most as many dependencies as asked for");
    if i > 0 && count > 0 { nd::check(!v.is_empty(), "at least one dependency"); }
    for k in 1..v.len() { nd::check(v[k - 1] < v[k], "ascending"); }
}
fn random_short(num: usize, count: usize, h: usize) {
    hashed(h);
    let i = if num <= 9 { nd::split(nd::below(num) as u64) as usize } else { num - 1 - nd::split(nd::below(3) as u64) as usize };
    let v = short_depend_random(num, &bytes(2), i, count);
    rule(num, i, &v, false);
    nd::check(v.len() <= count, "at most as many dependencies as asked for");
    for k in 1..v.len() { nd::check(v[k - 1] < v[k], "ascending"); }
}
/// every earlier block can be a dependency
fn reach_long(num: usize, _b: usize) {
    hashed(4);
    let i = num - 1;
    let v = long_mode_random(num, &bytes(1), i, 1);
    if v.len() == 1 {
        let x = v[0];
        nd::possible(x == 0, "the first block");
        nd::possible(x == i - 1, "the previous block");
        nd::possible(x == i / 2, "a block in the middle");
        nd::possible(x == i / 2 + 1, "the one after it");
        nd::possible(x == i / 3 * 2, "a block in the upper half");
    }
}
fn reach_short(num: usize) {
    hashed(4);
    let v = short_depend_random(num, &bytes(1), 5, 1);
    if v.len() == 1 {
        let x = v[0];
        nd::possible(x == 0, "the first unit");
        nd::possible(x == num - 1, "the last unit");
        nd::possible(x == num / 2, "a unit in the middle");
        nd::possible(x == num / 2 + 1, "the one after it");
        nd::possible(x == num / 3 * 2, "a unit in the upper half");
    }
}
/// the same answer in another process
fn same_order() {
    hashed(3);
    let d = bytes(2);
    let (a, b) = (long_mode_random(7, &d, 6, 3), short_depend_random(7, &d, 2, 3));
    unsafe { vstd::collections::REVERSE = true; }
    is(&long_mode_random(7, &d, 6, 3), &a);
    is(&short_depend_random(7, &d, 2, 3), &b);
}
//@ bytes
fn units() {
    for len in 1..=3 {
        for n in 0..=3 {
            let d = bytes(len * n);
            let u = to_units(&d, len);
            nd::check(u.len() == n, "number of units");
            for i in 0..n {
                nd::check(u[i].len() == len, "length of units");
                for j in 0..len { nd::check(u[i][j] == d[i * len + j], "units are the consecutive pieces"); }
            }
            let c = com_units(&u);
            nd::check(c.len() == d.len(), "length of joined units");
            for i in 0..d.len() { nd::check(c[i] == d[i], "joined units are the data"); }
        }
    }
}
fn xor() {
    for n in 0..=3 {
        for m in 0..=3 {
            let (a, b) = (bytes(n), bytes(m));
            let x = vecu8_xor(&a, &b);
            nd::check(x.len() == n.max(m), "length of the longer");
            for i in 0..x.len() {
                let w = if i >= m { a[i] } else if i >= n { b[i] } else { a[i] ^ b[i] };
                nd::check(x[i] == w, "bytewise exclusive or");
            }
        }
    }
}
fn reading() {
    let o = fs::arbitrary("o", 6);
    let mut f = vstd::fs::OpenOptions::new().read(true).open("o").unwrap();
    for (b, l) in [(2, 3), (0, 6), (5, 1), (1, 0), (3, 2)] {
        let v = read_file(&mut f, b, l);
        nd::check(v.len() == l, "length read");
        for i in 0..l { nd::check(v[i] == fs::byte(o, b + i), "the bytes at the position"); }
    }
}
fn padding() {
    for (n, l) in [(1, 1), (3, 1), (2, 2), (3, 3)] {
        let o = fs::arbitrary("o", n * l);
        if nd::bool() { fs::arbitrary("p", n * (l + 1) + 3); fs::arbitrary("c", n * l + 2); }
        copy_and_pad("o", "p", n * l, l);
        let p = fs::find(b"p");
        nd::check(fs::ino(p).len == n * (l + 1), "length of the padded file");
        for u in 0..n {
            for k in 0..l { nd::check(fs::byte(p, u * (l + 1) + k) == fs::byte(o, u * l + k), "padding keeps the bytes"); }
            nd::check(fs::byte(p, u * (l + 1) + l) == 0, "a zero byte after each unit");
        }
        copy_and_compress("p", "c", n * l, l, l + 1);
        let c = fs::find(b"c");
        nd::check(fs::ino(c).len == n * l, "length of the compressed file");
        for k in 0..n * l { nd::check(fs::byte(c, k) == fs::byte(o, k), "compressing gives the data back"); }
    }
}
//@ mod
fn modround(z: Integer, len: usize, hlen: usize, shorts: usize) {
    unsafe { bigz::SHORTS = shorts; bigz::WIDTH = len; }
    let a = bytes(len);
    let b = bytes(hlen);
    nd::assume(Integer::from_digits(&a, rug::integer::Order::Lsf) < z);
    let s = modadd(&a, &b, &z);
    nd::check(s.len() == len, "modadd keeps the length");
    nd::check(Integer::from_digits(&s, rug::integer::Order::Lsf) < z, "sums are reduced");
    let d = modsub(&s, &b, &z);
    nd::check(d.len() == len, "modsub keeps the length");
    for i in 0..len { nd::check(d[i] == a[i], "modsub undoes modadd"); }
}
/// some arbitrary bytes, sums below p
fn modwide(p: &str) {
    let z = Integer::from_str(p).unwrap();
    let n = (z.significant_bits() as usize + 7) / 8;
    unsafe { bigz::SHORTS = 0; bigz::WIDTH = n; }
    let (mut a, mut b) = (vec![0u8; n], vec![0u8; 32]);
    for i in [0, 9, n / 2, n - 2] { a[i] = nd::u8(); }
    let top = nd::bits(5) as u8;
    nd::assume(top != 0);
    a[n - 1] = top;
    for i in [0, 8, 31] { b[i] = nd::u8(); }
    if n == 32 { b[31] &= 31; }
    let s = modadd(&a, &b, &z);
    nd::check(s.len() == n, "modadd keeps the length");
    let mut c = 0u16;
    for i in 0..n {
        c += a[i] as u16 + if i < 32 { b[i] as u16 } else { 0 };
        nd::check(s[i] == c as u8, "bytes of the sum");
        c >>= 8;
    }
    let d = modsub(&s, &b, &z);
    nd::check(d.len() == n, "modsub keeps the length");
    for i in 0..n { nd::check(d[i] == a[i], "modsub undoes modadd"); }
}
/// units of 64 bytes of which only the first k are not zero
fn modleading() {
    let z = Integer::from_str(rug_sloth::P_512).unwrap();
    for k in [0, 1, 7, 8, 9, 31, 32, 33, 40, 63] {
        for h in [0, 1, 32] {
            unsafe { bigz::SHORTS = 0; bigz::WIDTH = 64; }
            let (mut a, mut b) = (vec![0u8; 64], vec![0u8; h]);
            if k > 0 {
                a[k - 1] = nd::bits(7) as u8;
                nd::assume(a[k - 1] != 0);
                a[0] |= nd::bits(7) as u8;
            }
            if h > 0 {
                b[h - 1] = nd::bits(7) as u8;
                nd::assume(b[h - 1] != 0);
            }
            let s = modadd(&a, &b, &z);
            nd::check(s.len() == 64, "modadd keeps the length");
            let d = modsub(&s, &b, &z);
            nd::check(d.len() == 64, "modsub keeps the length");
            for i in 0..64 { nd::check(d[i] == a[i], "modsub undoes modadd"); }
        }
    }
}
/// p - 1 - k plus h
fn modwrap(p: &str, n: usize) {
    let z = Integer::from_str(p).unwrap();
    let k = nd::u8();
    let w = Integer::from_str(p).unwrap() - Integer::from(1 + k as u64);
    let mut a = w.to_digits::<u8>(rug::integer::Order::Lsf);
    a.resize(n, 0);
    let h = nd::u8();
    let b = vec![h, 0, 0];
    let s = modadd(&a, &b, &z);
    nd::check(s.len() == n, "modadd keeps the length");
    let v = Integer::from_digits(&s, rug::integer::Order::Lsf);
    if h > k { nd::check(v == Integer::from((h - k - 1) as u64), "sums wrap at p"); }
    else { nd::check(v == w + Integer::from(h as u64), "sums below p do not wrap"); }
    let d = modsub(&s, &b, &z);
    nd::check(d.len() == n, "modsub keeps the length");
    for i in 0..n { nd::check(d[i] == a[i], "modsub undoes modadd"); }
}
fn modvalue(p: u64) {
    let len = if p < 256 { 1 } else { 2 };
    let (a, b) = (bytes(len), bytes(2));
    let v = |d: &Vec<u8>| { let mut x = 0u64; for i in 0..d.len() { x |= (d[i] as u64) << (8 * i); } x };
    nd::assume(v(&a) < p);
    let s = modadd(&a, &b, &Integer::from(p));
    nd::check(v(&s) == (v(&a) + v(&b)) % p, "sum modulo p");
}
//@ vde
fn sloth_inverse(p: u64, t: usize, each: bool) {
    let x = nd::below(p as usize) as u64;
    let x = if each { nd::split(x) } else { x };
    let (z, q) = (Integer::from(x), Integer::from(p));
    let y = rug_sloth::sloth(&z, &q, t);
    nd::check(y >= 0 && y < q, "values stay in range");
    let b = rug_sloth::sloth_inv(&y, &q, t);
    nd::check(b == z, "sloth_inv undoes sloth");
    let c = rug_sloth::sloth_inv(&z, &q, t);
    nd::check(c >= 0 && c < q, "values stay in range (inverse)");
    nd::check(rug_sloth::sloth(&c, &q, t) == z, "sloth undoes sloth_inv");
}
fn big_inverse(p: u64, t: usize, each: bool) {
    let x = nd::below(p as usize) as u64;
    let x = if each { nd::split(x) } else { x };
    let (z, q) = (BigInt::from(x), BigInt::from(p));
    let y = big_sloth::sloth(&z, &q, t);
    nd::check(y >= BigInt::from(0u64) && y < q, "values stay in range");
    let b = big_sloth::sloth_inv(&y, &q, t);
    nd::check(b == z, "sloth_inv undoes sloth");
    let c = big_sloth::sloth_inv(&z, &q, t);
    nd::check(c >= BigInt::from(0u64) && c < q, "values stay in range (inverse)");
    nd::check(big_sloth::sloth(&c, &q, t) == z, "sloth undoes sloth_inv");
}
fn agree(p: u64) {
    let x = nd::split(nd::below(p as usize) as u64);
    let a = rug_sloth::sloth(&Integer::from(x), &Integer::from(p), 2);
    let b = big_sloth::sloth(&BigInt::from(x), &BigInt::from(p), 2);
    nd::check(a.to_digits::<u8>(rug::integer::Order::Lsf) == Integer::from_digits(&b.to_bytes_le().1, rug::integer::Order::Lsf).to_digits::<u8>(rug::integer::Order::Lsf), "both implementations agree");
}
fn legendre(p: u64) {
    let x = nd::split(nd::below(p as usize) as u64);
    let mut square = false;
    for y in 1..p { square |= y * y % p == x; }
    let want = if x == 0 { 0 } else if square { 1 } else { -1 };
    nd::check(rug_sloth::legendre(Integer::from(x), &Integer::from(p)) == Integer::from(want), "quadratic character (rug)");
    nd::check(big_sloth::legendre(BigInt::from(x), &BigInt::from(p)) == BigInt::from(want), "quadratic character (bigint)");
}
fn modpow(p: u64) {
    let x = nd::split(nd::below(p as usize) as u64);
    let t = nd::split(nd::below(12) as u64);
    let mut w = 1;
    for _ in 0..t { w = w * x % p; }
    let y = crate::vde::compare_modpow::fast_modpow(BigInt::from(x), BigInt::from(t), BigInt::from(p));
    nd::check(y == BigInt::from(w), "x^t mod p");
}
fn vde_bytes(p: u64, l: usize, t: usize) {
    let x = nd::split(nd::below(p as usize) as u64);
    let mut d = vec![x as u8];
    d.resize(l, 0);
    let q = Integer::from(p);
    let y = rug_vde::vde(&d, &q, t, &"sloth".to_string(), l);
    nd::check(y.len() == l, "vde keeps the length");
    let z = rug_vde::vde_inv(&y, &q, t, &"sloth".to_string(), l);
    nd::check(z.len() == l, "vde_inv keeps the length");
    for i in 0..l { nd::check(z[i] == d[i], "vde_inv undoes vde"); }
    let s = rug_sloth::sloth(&Integer::from(x), &q, t);
    nd::check(Integer::from_digits(&y, rug::integer::Order::Lsf) == s, "vde is the delay function on the bytes");
}
//@ pub
fn params() {
    for l in [64, 128, 256] {
        let (k, iv) = prepare_params(l);
        nd::check(k.significant_bits() as usize == 8 * l, "modulus of the size of a unit");
        nd::check(k.clone() % 4 == Integer::from(3), "modulus 3 modulo 4");
        nd::check(iv.len() == 128, "initial value of 128 bytes");
        for i in [0, 63, 127] {
            for x in [0, 90, 255] { possible_at(i, iv[i] == x, if x == 0 { "any initial value (0)" } else if x == 90 { "any initial value (90)" } else { "any initial value (255)" }); }
        }
    }
    for l in [1, 4, 16, 64] {
        let q = gen_posdata(l);
        nd::check(q.unit_pl == q.unit_l + 1, "one byte of padding per unit");
        nd::check(q.block_l % q.unit_l == 0 && q.data_l % q.block_l == 0, "whole units and blocks");
        nd::check(q.block_pl == q.block_l / q.unit_l * q.unit_pl, "length of padded blocks");
        nd::check(q.big_block_pl == q.big_block_l / q.unit_l * q.unit_pl, "length of padded big blocks");
        nd::check(q.data_l == l * 63 * 16 * 1024, "the size asked for");
        nd::check(q.unit_pl * 8 == 512 && q.seal_rounds > 0 && q.vde_rounds > 0, "a modulus of the size of a unit");
        nd::check(q.leaves_to_prove_count <= q.data_l / q.block_l, "enough leaves");
    }
}
fn pubdata() {
    let iv = bytes(5);
    for s in ["7", rug_sloth::P_64, rug_sloth::P_512] {
        let k = Integer::from_str(s).unwrap();
        save_data("pub", &k, &iv);
        let (l, w) = load_data("pub");
        nd::check(l == k, "saved modulus is loaded");
        nd::check(w.len() == iv.len(), "length of the initial value");
        for i in 0..iv.len() { nd::check(w[i] == iv[i], "saved initial value is loaded"); }
    }
}
//@ tree
/// two files have the same root only if they are the same
fn tree_cover(n: usize, leaf: usize) {
    let a = fs::arbitrary("a", n);
    let b = fs::arbitrary("b", n);
    let (la, _, ra) = generate_merkle_tree_from_file("a", n, leaf);
    let (_, _, rb) = generate_merkle_tree_from_file("b", n, leaf);
    nd::check(la.len() == (n + leaf - 1) / leaf, "one leaf per block");
    let mut eq = true;
    for i in 0..n { eq &= fs::byte(a, i) == fs::byte(b, i); }
    let mut req = true;
    for i in 0..32 { req &= ra[i] == rb[i]; }
    nd::check(!req | eq, "the root determines the file");
    nd::check(!eq | req, "the file determines the root");
}
/// the tree of the blocks is the tree of the file
fn tree_data(n: usize) {
    let a = fs::arbitrary("a", 2 * n);
    let blocks: Vec<Vec<u8>> = (0..n).map(|i| vec![fs::byte(a, 2 * i), fs::byte(a, 2 * i + 1)]).collect();
    let (l1, _, r1) = generate_merkle_tree_from_file("a", 2 * n, 2);
    let (l2, _, r2) = generate_merkle_tree_from_data(&blocks);
    nd::check(l1.len() == n && l2.len() == n, "one leaf per block");
    for i in 0..32 { nd::check(r1[i] == r2[i], "the same root"); }
    for k in 0..n { for i in 0..32 { nd::check(l1[k][i] == l2[k][i], "the same leaves"); } }
}
fn some_indices(n: usize) -> Vec<usize> {
    let mut idx: Vec<usize> = vec![];
    for i in 0..n { if nd::split(nd::bool() as u64) == 1 { idx.push(i); } }
    if idx.is_empty() { idx.push(0); }
    idx
}
fn tree_open(n: usize) {
    let v: Vec<Vec<u8>> = (0..n).map(|_| bytes(1)).collect();
    let (leaves, tree, root) = generate_merkle_tree_from_data(&v);
    let idx = if n <= 5 { some_indices(n) } else { vec![nd::split(nd::below(n) as u64) as usize] };
    let proof = generate_merkle_proof(&idx, &tree);
    verify_merkle_proof(proof, root, &idx, &leaves);
    nd::reach("honest proof accepted");
}
/// one opened leaf of other data, or another root
fn tree_wrong(n: usize) {
    let v: Vec<Vec<u8>> = (0..n).map(|_| bytes(1)).collect();
    let (mut leaves, tree, mut root) = generate_merkle_tree_from_data(&v);
    let idx = some_indices(n);
    let proof = generate_merkle_proof(&idx, &tree);
    let (k, x) = (nd::split(nd::below(idx.len()) as u64) as usize, nd::u8());
    if nd::bool() { leaves[idx[k]][0] ^= x; } else { root[0] ^= x; }
    nd::panic_ok(true);
    verify_merkle_proof(proof, root, &idx, &leaves);
    nd::panic_ok(false);
    nd::check(x == 0, "only the committed data is accepted");
}
/// the last step of the protocol: accepted for equal files
fn flow(at: usize) {
    let a = fs::arbitrary("a", 4);
    let b = fs::arbitrary("b", 4);
    for i in 0..4 { fs::set_byte(b, i, fs::byte(a, i)); }
    let x = nd::u8();
    fs::set_byte(b, at, fs::byte(a, at) ^ x);
    unsafe { rand::LIMIT = 3; }
    nd::panic_ok(true);
    if nd::split((x == 0) as u64) == 1 { nd::panic_ok(false); }
    merkle_tree_proof("a", "b", 4, 1, 2);
    nd::panic_ok(false);
    nd::check(x == 0, "only the same data is accepted");
}
//@ chal
fn challenges(n: usize) {
    let lo = nd::below(4);
    let hi = lo + n + nd::below(3);
    unsafe { rand::LIMIT = n + 1; }
    let v = create_challenges(n, (lo, hi));
    nd::check(v.len() == n, "as many challenges as asked for");
    for i in 0..n {
        nd::check(lo <= v[i] && v[i] < hi, "challenges in the range");
        if i > 0 { nd::check(v[i - 1] < v[i], "ascending, no repetition"); }
    }
}
fn chal_all() {
    unsafe { rand::LIMIT = 4; }
    let v = create_challenges(1, (3, 11));
    for k in 3..11 { possible_at(k, v[0] == k, "every challenge can occur"); }
    let w = create_challenges(2, (0, 4));
    for a in 0..4 { for b in a + 1..4 { possible_at(10 * a + b, (w[0] == a) & (w[1] == b), "every pair of challenges can occur"); } }
}
fn random_file() {
    for n in [0, 1, 5] {
        if nd::bool() { fs::arbitrary("r", n + 4); }
        create_random_file("r", n).unwrap();
        let r = fs::find(b"r");
        nd::check(fs::ino(r).len == n, "file of the length asked for");
        for i in 0..n {
            possible_at(10 * n + i, fs::byte(r, i) == 0, "any content (0)");
            possible_at(10 * n + i, fs::byte(r, i) == 255, "any content (255)");
        }
    }
}
