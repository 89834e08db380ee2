//! Harnesses over sealing, unsealing and the verifier's unsealing.  The delay
//! function is an arbitrary permutation per round count (rug_sloth.rs in this
//! directory), blake3 an arbitrary function, so what is shown does not depend
//! on either.  Units have two bytes, the modulus is 2^16 (the modular helpers
//! and the delay function are checked for primes in the `storage` harnesses).
#![allow(static_mut_refs)]
use crate::proof_of_storage::depend::*;
use crate::proof_of_storage::postorage::PosPara;
use crate::proof_of_storage::prover::*;
use crate::proof_of_storage::verifier::*;
use ndlib as nd;
use rug::Integer;
use vstd::fs;
macro_rules! harnesses {
    ($($name:ident => $e:expr;)*) => {
        $( #[cfg_attr(symex, no_mangle)] pub fn $name() { $e; } )*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
harnesses! {
    // para(blocks, units, rounds, mode_l, cnt_l, mode_s, cnt_s)
    h_round_tiny => roundtrip(&para(1, 1, 1, 0, 0, 0, 1), 9);
    h_round_units => roundtrip(&para(1, 3, 1, 0, 0, 0, 1), 0);
    h_round_units2 => roundtrip(&para(1, 3, 1, 0, 0, 0, 2), 0);
    h_round_units_short => roundtrip(&para(1, 3, 1, 0, 0, 1, 2), 1);
    h_round_blocks => roundtrip(&para(3, 1, 1, 0, 2, 0, 1), 1);
    h_round_both => roundtrip(&para(2, 2, 1, 0, 0, 0, 1), 1);
    h_round_rounds => roundtrip(&para(2, 2, 2, 0, 0, 0, 1), 0);
    h_round_rounds3 => roundtrip(&para(1, 2, 3, 0, 0, 0, 1), 1);
    h_round_nine => roundtrip(&para(9, 1, 1, 0, 1, 0, 1), 0);
    h_round_rule1 => roundtrip(&para(4, 2, 1, 1, 2, 1, 2), 0);
    h_round_rule12 => roundtrip(&para(3, 4, 2, 1, 2, 2, 3), 0);
    h_round_rule2 => roundtrip(&para(5, 2, 1, 2, 2, 1, 1), 0);
    h_round_rule3 => roundtrip(&para(12, 2, 1, 3, 2, 1, 2), 0);
    h_round_mixed => roundtrip(&para(3, 2, 1, 0, 1, 1, 2), 0);
    h_round_mixed2 => roundtrip(&para(3, 2, 1, 1, 1, 0, 1), 0);
    h_round_wide => roundtrip(&wide(2, 2, 1), 0);
    h_round_eleven => { large(4); roundtrip(&para(12, 1, 1, 0, 0, 0, 1), 0) };
    h_round_twelve => { large(12); roundtrip(&para(12, 1, 1, 0, 0, 0, 1), 0) };
    h_round_many => { large(1); roundtrip(&para(256, 1, 1, 0, 0, 0, 1), 0) };
    h_round_thirty => { large(2); roundtrip(&para(31, 1, 1, 0, 0, 0, 1), 0) };
    h_round_more => { large(2); roundtrip(&para(300, 1, 1, 0, 2, 0, 1), 0) };
    h_round_unitsmany => { large(1); roundtrip(&para(1, 300, 1, 0, 0, 0, 2), 0) };
    h_round_twice => { large(1); roundtrip(&para(13, 2, 2, 0, 0, 0, 1), 0) };
    h_round_twicemany => { large(1); roundtrip(&para(25, 6, 2, 0, 0, 1, 3), 0) };
    h_spec_units => spec(&para(1, 3, 1, 0, 0, 0, 1), 0);
    h_spec_units2 => spec(&para(1, 3, 1, 0, 0, 0, 2), 0);
    h_spec_blocks => spec(&para(3, 1, 1, 0, 2, 0, 1), 1);
    h_spec_both => spec(&para(2, 2, 2, 0, 0, 0, 1), 0);
    h_spec_rule1 => spec(&para(4, 2, 1, 1, 2, 1, 2), 1);
    h_spec_rule12 => spec(&para(3, 4, 2, 1, 2, 2, 3), 0);
    h_spec_rule2 => spec(&para(5, 2, 1, 2, 2, 1, 1), 0);
    h_spec_rule3 => spec(&para(12, 2, 1, 3, 2, 1, 2), 0);
    h_spec_nine => spec(&para(9, 1, 1, 0, 1, 0, 1), 0);
    h_spec_twelve => { large(3); spec(&para(12, 1, 1, 0, 0, 0, 1), 0) };
    h_spec_thirty => { large(2); spec(&para(31, 1, 1, 0, 0, 0, 1), 0) };
    h_spec_many => { large(1); spec(&para(256, 1, 1, 0, 0, 0, 1), 0) };
    h_spec_more => { large(1); spec(&para(300, 1, 1, 0, 2, 0, 1), 0) };
    h_spec_unitsmany => { large(1); spec(&para(1, 300, 1, 0, 0, 0, 2), 0) };
    h_spec_twice => { large(1); spec(&para(13, 2, 2, 0, 0, 0, 1), 0) };
    h_spec_twicemany => { large(1); spec(&para(25, 6, 2, 0, 0, 1, 3), 0) };
    h_batch_both => batch(&para(2, 2, 1, 0, 0, 0, 1), 0, 2, 1);
    h_batch_tail => batch(&para(3, 1, 1, 0, 2, 0, 1), 1, 3, 1);
    h_batch_rounds => batch(&para(2, 2, 2, 0, 0, 0, 1), 0, 2, 0);
    h_batch_rule1 => batch(&para(4, 2, 1, 1, 2, 1, 2), 0, 4, 0);
    h_batch_rule12 => batch(&para(3, 4, 2, 1, 2, 2, 3), 1, 3, 0);
    h_batch_rule2 => batch(&para(5, 2, 1, 2, 2, 1, 1), 2, 5, 0);
    h_batch_twelve => { large(2); batch(&para(12, 1, 1, 0, 0, 0, 1), 0, 12, 0) };
    h_batch_more => { large(2); batch(&para(300, 1, 1, 0, 2, 0, 1), 290, 300, 0) };
    h_batch_unitsmany => { large(1); batch(&para(1, 300, 1, 0, 0, 0, 2), 0, 1, 0) };
    h_batch_twicemany => { large(1); batch(&para(25, 6, 2, 0, 0, 1, 3), 5, 25, 0) };
    h_par_both => parallel(&para(2, 2, 1, 0, 0, 0, 1), 0, 2, 0);
    h_par_tail => parallel(&para(3, 1, 1, 0, 2, 0, 1), 0, 3, 0);
    h_par_rule1 => parallel(&para(4, 2, 1, 1, 2, 1, 2), 1, 4, 0);
    h_par_rule12 => parallel(&para(3, 4, 2, 1, 2, 2, 3), 1, 3, 0);
    h_par_twelve => { large(2); parallel(&para(12, 1, 1, 0, 0, 0, 1), 9, 12, 0) };
    h_par_ten => { large(2); parallel(&para(12, 1, 1, 0, 0, 0, 1), 1, 12, 0) };
    h_par_more => { large(2); parallel(&para(300, 1, 1, 0, 2, 0, 1), 297, 300, 0) };
    h_par_unitsmany => { large(1); parallel(&para(1, 300, 1, 0, 0, 0, 2), 0, 1, 0) };
    h_par_twicemany => { large(1); parallel(&para(25, 6, 2, 0, 0, 1, 3), 22, 25, 0) };
    h_single_both => single(&para(3, 2, 1, 0, 2, 0, 1), 0);
    h_single_rule1 => single(&para(4, 2, 1, 1, 2, 1, 2), 0);
    h_single_rule2 => single(&para(6, 1, 1, 2, 2, 1, 1), 0);
    h_single_twelve => { large(2); single(&para(12, 1, 1, 0, 0, 0, 1), 0) };
    h_single_more => { large(2); single(&para(260, 1, 1, 0, 2, 0, 1), 0) };
    h_single_twicemany => { large(1); single(&para(25, 6, 2, 0, 0, 1, 3), 0) };
    h_verify_honest => { let q = para(2, 2, 1, 0, 0, 0, 1); accept(&q, 0, 2, 0) };
    h_verify_honest_rule => { let q = para(3, 4, 2, 1, 2, 2, 3); accept(&q, 0, 3, 0) };
    h_verify_honest_large => { large(1); let q = para(25, 6, 2, 0, 0, 1, 3); accept(&q, 0, 25, 0) };
    h_verify_changed => { let q = para(2, 2, 1, 0, 0, 0, 1); reject(&q, 0, 2, 0) };
    h_verify_changed_rule => { let q = para(3, 3, 1, 1, 2, 1, 2); reject(&q, 1, 3, 0) };
    h_drv_both => drive(&para(2, 2, 1, 0, 0, 0, 1));
    h_drv_rule => drive(&para(3, 2, 2, 1, 2, 1, 2));
    h_drv_later => later(&para(2, 2, 1, 0, 0, 0, 1));
    h_drv_later_rule => later(&para(3, 2, 2, 1, 2, 1, 2));
    h_drv_single => single_ok(&para(10, 1, 1, 1, 1, 1, 1), 0);
    h_drv_single_random => single_ok(&para(10, 1, 1, 0, 1, 0, 1), 0);
    h_drv_single_par => single_ok(&para(11, 1, 1, 1, 1, 1, 1), 3);
    h_drv_changed => single_bad(&para(10, 1, 1, 1, 1, 1, 1), 0);
    h_drv_changed_par => single_bad(&para(10, 1, 1, 1, 1, 1, 1), 2);
    h_drv_all => all_steps(&para(4, 1, 1, 0, 0, 0, 1), false);
    h_drv_all_logged => all_steps(&para(2, 2, 1, 1, 1, 1, 1), true);
    h_drv_all_single => all_single(&para(10, 1, 1, 1, 1, 1, 1), 0);
    h_drv_all_par => all_single(&para(10, 1, 1, 1, 1, 1, 1), 2);
}
fn para(blocks: usize, units: usize, rounds: usize, mode_l: usize, cnt_l: usize, mode_s: usize, cnt_s: usize) -> PosPara {
    PosPara { data_l: blocks * units, unit_l: 1, block_l: units, big_block_l: units, unit_pl: 2, block_pl: 2 * units, big_block_pl: 2 * units,
        seal_rounds: rounds, vde_rounds: 3, vde_mode: "sloth".to_string(), mode_l, cnt_l, mode_s, cnt_s, leaves_to_prove_count: 1 }
}
/// two data bytes per unit
fn wide(blocks: usize, units: usize, rounds: usize) -> PosPara {
    PosPara { data_l: 2 * blocks * units, unit_l: 2, block_l: 2 * units, big_block_l: 2 * units, unit_pl: 3, block_pl: 3 * units, big_block_pl: 3 * units,
        seal_rounds: rounds, vde_rounds: 3, vde_mode: "sloth".to_string(), mode_l: 0, cnt_l: 0, mode_s: 0, cnt_s: 1, leaves_to_prove_count: 1 }
}
fn key(q: &PosPara) -> u64 { 1 << (8 * q.unit_pl) }
/// shorts: how many values may have leading zero bytes
fn limits(q: &PosPara, shorts: usize) {
    unsafe {
        bigz::SHORTS = shorts;
        bigz::WIDTH = q.unit_pl;
        nd::model::HASH_BYTES = 2;
    }
}
/// large cases: the last `free` bytes of "o" are arbitrary, known inputs of
/// hash and permutation have fixed values
static mut FREE: usize = usize::MAX;
fn large(free: usize) { unsafe { FREE = free; nd::model::MIX = true; } }
fn original(q: &PosPara) -> usize {
    let free = unsafe { FREE };
    if free == usize::MAX { return fs::arbitrary("o", q.data_l); }
    let d: Vec<u8> = (0..q.data_l).map(|i| if i + free >= q.data_l { nd::u8() } else { (i * 7 + 1) as u8 & 127 }).collect();
    fs::given("o", &d)
}
fn initial() -> Vec<u8> { if unsafe { FREE } == usize::MAX { vec![nd::u8(), nd::u8()] } else { vec![3, 1] } }
/// an arbitrary file "o", padded to "s" and sealed
fn sealed(q: &PosPara, shorts: usize) -> (usize, Integer, Vec<u8>) {
    limits(q, shorts);
    let o = original(q);
    let iv = initial();
    let p = Integer::from(key(q));
    copy_and_pad("o", "s", q.data_l, q.unit_l);
    seal(q, "s", &p, &iv);
    // another run of the program: other iteration order of hash tables
    unsafe { vstd::collections::REVERSE = true; }
    (o, p, iv)
}
//@ round
fn roundtrip(q: &PosPara, shorts: usize) {
    let (o, p, iv) = sealed(q, shorts);
    nd::check(fs::ino(fs::find(b"s")).len == q.data_l / q.unit_l * q.unit_pl, "length of the sealed file");
    unseal(q, "s", &p, &iv);
    copy_and_compress("s", "u", q.data_l, q.unit_l, q.unit_pl);
    let u = fs::find(b"u");
    nd::check(fs::ino(u).len == q.data_l, "length of the unsealed file");
    for i in 0..q.data_l {
        nd::check(fs::byte(u, i) == fs::byte(o, i), "unsealing gives the data back");
    }
}
//@ spec
fn hash(d: &[u8]) -> Vec<u8> {
    let mut r = [0u8; 32];
    nd::model::hash(1, d, &mut r);
    r.to_vec()
}
fn num(d: &[u8]) -> u64 {
    let mut x = 0u64;
    for i in 0..d.len().min(8) { x |= (d[i] as u64) << (8 * i); }
    x
}
/// the definition of the sealed file
fn reference(q: &PosPara, data: &[u8], iv: &[u8]) -> (Vec<Vec<Vec<u8>>>, Vec<Vec<u8>>) {
    let blocks = q.data_l / q.block_l;
    let units = q.block_l / q.unit_l;
    let mut out: Vec<Vec<Vec<u8>>> = vec![];
    let mut ids: Vec<Vec<u8>> = vec![];
    for b in 0..blocks {
        let mut cur: Vec<Vec<u8>> = vec![];
        for u in 0..units {
            let k = (b * units + u) * q.unit_l;
            let mut x = data[k..k + q.unit_l].to_vec();
            x.resize(q.unit_pl, 0);
            cur.push(x);
        }
        let before = if b == 0 { iv.to_vec() } else { ids[b - 1].clone() };
        let far = if q.mode_l != 0 { long_depend(b, q.cnt_l, q.mode_l) }
            else if b == 0 { vec![] }
            else { long_mode_random(blocks, &before, b, if q.cnt_l == 0 { b / 10 + 1 } else { q.cnt_l }) };
        for _ in 0..q.seal_rounds {
            for u in 0..units {
                let near = if q.mode_s != 0 { short_depend(units, u, q.cnt_s, q.mode_s) }
                    else if u == 0 { short_depend_random(units, &vec![], u, q.cnt_s) }
                    else { short_depend_random(units, &cur[u - 1], u, q.cnt_s) };
                let mut d = vec![];
                for &i in &far { d.extend_from_slice(&out[i][u]); }
                for &i in &near { d.extend_from_slice(&cur[i]); }
                if u == 0 { d.extend_from_slice(&before); }
                let x = (num(&cur[u]) + num(&hash(&d))) & (key(q) - 1);
                let y = nd::model::enc(q.vde_rounds as u64, x, key(q));
                cur[u] = y.to_le_bytes()[..q.unit_pl].to_vec();
            }
        }
        let all: Vec<u8> = cur.concat();
        ids.push(hash(&all));
        out.push(cur);
    }
    (out, ids)
}
fn spec(q: &PosPara, shorts: usize) {
    limits(q, shorts);
    let o = original(q);
    let iv = initial();
    let p = Integer::from(key(q));
    copy_and_pad("o", "s", q.data_l, q.unit_l);
    let r = seal(q, "s", &p, &iv);
    let ids = r.0;
    unsafe { vstd::collections::REVERSE = true; }
    let data: Vec<u8> = (0..q.data_l).map(|i| fs::byte(o, i)).collect();
    let (want, wids) = reference(q, &data, &iv);
    let s = fs::find(b"s");
    let mut k = 0;
    for b in &want {
        for u in b {
            for x in u {
                nd::check(fs::byte(s, k) == *x, "sealed bytes are as defined");
                k += 1;
            }
        }
    }
    nd::check(fs::ino(s).len == k, "length of the sealed file");
    nd::check(ids.len() == wids.len(), "one id per block");
    for i in 0..wids.len() {
        for j in 0..32 { nd::check(ids[i][j] == wids[i][j], "block ids are the hashes of the sealed blocks"); }
    }
}
//@ batch par single
fn same_blocks(q: &PosPara, o: usize, idx: &Vec<usize>, from: usize, to: usize, r: &Vec<Vec<Vec<u8>>>) {
    nd::check(idx.len() == to - from, "number of blocks");
    nd::check(r.len() == idx.len(), "number of unsealed blocks");
    for i in 0..idx.len() {
        nd::check(idx[i] == from + i, "the blocks asked for");
        nd::check(r[i].len() == q.block_l / q.unit_l, "number of units");
        for u in 0..r[i].len() {
            for k in 0..q.unit_l {
                nd::check(r[i][u][k] == fs::byte(o, idx[i] * q.block_l + u * q.unit_l + k), "unsealed blocks are the data");
            }
        }
    }
}
//@ batch
fn batch(q: &PosPara, from: usize, to: usize, shorts: usize) {
    let (o, p, iv) = sealed(q, shorts);
    let (idx, mut blocks, ids, deps) = batch_unseal_prepare("s", from * q.block_pl, to * q.block_pl, q);
    let r = batch_unseal(q, &idx, &mut blocks, &ids, &deps, &p, &iv);
    same_blocks(q, o, &idx, from, to, &r);
}
//@ par
fn parallel(q: &PosPara, from: usize, to: usize, shorts: usize) {
    let (o, p, iv) = sealed(q, shorts);
    let (idx, blocks, ids, deps) = batch_unseal_prepare("s", from * q.block_pl, to * q.block_pl, q);
    let r = batch_unseal_parallel(q, &idx, &blocks, &ids, &deps, &p, &iv, 2);
    same_blocks(q, o, &idx, from, to, &r);
}
//@ single
/// one block at a time
fn single(q: &PosPara, shorts: usize) {
    let (o, p, iv) = sealed(q, shorts);
    for b in 0..q.data_l / q.block_l {
        let (block, id, dep) = single_unseal_prepare("s", b, q);
        let r = batch_unseal(q, &vec![b], &mut vec![block], &vec![id], &vec![dep], &p, &iv);
        same_blocks(q, o, &vec![b], b, b + 1, &r);
    }
}
//@ verify
fn accept(q: &PosPara, from: usize, to: usize, shorts: usize) {
    let (_, p, iv) = sealed(q, shorts);
    let (idx, mut blocks, ids, deps) = batch_unseal_prepare("s", from * q.block_pl, to * q.block_pl, q);
    batch_unseal_and_verify(q, "o", &idx, &blocks, &ids, &deps, &p, &iv);
    let r = batch_unseal(q, &idx, &mut blocks, &ids, &deps, &p, &iv);
    for i in 0..idx.len() { batch_verify("o", idx[i], &r[i], q.block_l, q.unit_l); }
    nd::reach("honest data accepted");
}
/// an arbitrary byte of the original in the range may have changed
fn reject(q: &PosPara, from: usize, to: usize, shorts: usize) {
    let (o, p, iv) = sealed(q, shorts);
    let (idx, blocks, ids, deps) = batch_unseal_prepare("s", from * q.block_pl, to * q.block_pl, q);
    let at = from * q.block_l + nd::split(nd::below((to - from) * q.block_l) as u64) as usize;
    let x = nd::u8();
    fs::set_byte(o, at, fs::byte(o, at) ^ x);
    if nd::bool() {
        nd::panic_ok(true);
        batch_unseal_and_verify(q, "o", &idx, &blocks, &ids, &deps, &p, &iv);
    } else {
        let r = batch_unseal_parallel(q, &idx, &blocks, &ids, &deps, &p, &iv, 1);
        nd::panic_ok(true);
        for i in 0..idx.len() { batch_verify("o", idx[i], &r[i], q.block_l, q.unit_l); }
    }
    nd::panic_ok(false);
    nd::check(x == 0, "only unchanged data is accepted");
}
//@ drv
use crate::proof_of_storage::postorage::{load_data, seal_and_unseal, test_postorage, test_unseal_single_and_verify};
fn note(p: &str) -> vstd::fs::File { vstd::fs::OpenOptions::new().read(true).write(true).append(true).create(true).open(p).unwrap() }
/// the provider's driver on an arbitrary file "o", older files in the way or not
fn provide(q: &PosPara, unsealing: bool) -> usize {
    limits(q, 0);
    let o = fs::arbitrary("o", q.data_l);
    if nd::bool() {
        fs::arbitrary("s", q.data_l * 3);
        fs::arbitrary("u", q.data_l * 2);
        fs::arbitrary("p", 200);
    }
    let (mut run, mut stat) = (note("r"), note("c"));
    seal_and_unseal(q, "o", "s", "u", "p", &mut run, nd::bool(), unsealing, &mut stat);
    unsafe { vstd::collections::REVERSE = true; }
    o
}
fn equal(o: usize, u: usize, n: usize) {
    nd::check(fs::ino(u).len == n, "length of the unsealed file");
    for i in 0..n { nd::check(fs::byte(u, i) == fs::byte(o, i), "the unsealed file is the original"); }
}
fn drive(q: &PosPara) {
    let d: Vec<u8>;
    let o = provide(q, true);
    d = (0..q.data_l).map(|i| fs::byte(o, i)).collect();
    equal(o, fs::find(b"u"), q.data_l);
    nd::check(fs::ino(o).len == q.data_l && d.len() == q.data_l, "the original stays");
}
/// what was saved is enough to get the data back from the sealed file
fn later(q: &PosPara) {
    let o = provide(q, false);
    let (p, iv) = load_data("p");
    unseal(q, "s", &p, &iv);
    copy_and_compress("s", "v", q.data_l, q.unit_l, q.unit_pl);
    equal(o, fs::find(b"v"), q.data_l);
}
fn single_ok(q: &PosPara, jobs: usize) {
    provide(q, false);
    test_unseal_single_and_verify(q, "p", "o", "s", jobs);
    nd::reach("honest data accepted");
}
fn single_bad(q: &PosPara, jobs: usize) {
    let o = provide(q, false);
    let at = nd::split(nd::below(10 * q.block_l) as u64) as usize;
    let x = nd::u8();
    fs::set_byte(o, at, fs::byte(o, at) ^ x);
    nd::panic_ok(true);
    test_unseal_single_and_verify(q, "p", "o", "s", jobs);
    nd::panic_ok(false);
    nd::check(x == 0, "only unchanged data is accepted");
}
/// random data, sealed, unsealed, Merkle proof of the unsealed data
fn all_steps(q: &PosPara, log: bool) {
    limits(q, 0);
    test_postorage(q.clone(), log, true, true, true, false, 0);
    equal(fs::find(b"src/proof_of_storage/data/origin_data"), fs::find(b"src/proof_of_storage/data/unsealed_data"), q.data_l);
    nd::reach("the whole run succeeds");
}
fn all_single(q: &PosPara, jobs: usize) {
    limits(q, 0);
    test_postorage(q.clone(), false, true, false, false, false, jobs);
    unsafe { vstd::collections::REVERSE = true; }
    test_postorage(q.clone(), false, false, false, false, true, jobs);
    nd::reach("the whole run succeeds");
}
