T = "proof_of_storage/src/proof_of_storage/"
D = "proof_of_storage/src/vde/"
SPRE = """
#![allow(unused)]
use crate::proof_of_storage::{common::*, depend::*, merkle_tree::*, postorage::*, prover::*, verifier::*};
use crate::vde::{rug_sloth, rug_vde};
use rug::{Integer, integer::Order};
use std::fs;
use std::str::FromStr;
fn para(blocks: usize, units: usize, rounds: usize, mode_l: usize, cnt_l: usize, mode_s: usize, cnt_s: usize) -> PosPara {
    PosPara { data_l: 63 * blocks * units, unit_l: 63, block_l: 63 * units, big_block_l: 63 * units, unit_pl: 64, block_pl: 64 * units,
        big_block_pl: 64 * units, seal_rounds: rounds, vde_rounds: 1, vde_mode: "sloth".to_string(), mode_l, cnt_l, mode_s, cnt_s, leaves_to_prove_count: 1 }
}
fn data(n: usize, s: usize) -> Vec<u8> { let mut x = s as u64 * 2 + 1; (0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 40) as u8 }).collect() }
fn sealed(q: &PosPara, s: usize) -> (Vec<u8>, Integer, Vec<u8>, Vec<Vec<u8>>) {
    let d = data(q.data_l, s);
    fs::write("o", &d).unwrap();
    let (p, iv) = (Integer::from_str(rug_sloth::P_512).unwrap(), data(128, s + 77));
    copy_and_pad("o", "s", q.data_l, q.unit_l);
    let r = seal(q, "s", &p, &iv);
    (d, p, iv, r.0)
}
fn padded(d: &[u8]) -> Vec<Vec<u8>> { d.chunks(63).map(|u| { let mut v = u.to_vec(); v.push(0); v }).collect() }
"""

seed("unseal-tenth-block", "C19", "random long dependencies with the built-in number (index / 10 + 1) and at least ten blocks",
     "unsealing asks for one more long dependency than sealing for every tenth block, so its data is lost",
     [(T + "prover.rs", "long_mode_random(block_cnt, &before_block_id, idx2, idx2 / 10 + 1)", "long_mode_random(block_cnt, &before_block_id, idx2, (idx2 + 1) / 10 + 1)")], SPRE + """
#[test]
fn verif_demo() {
    for s in 0..3 {
        let q = para(12, 1, 1, 0, 0, 0, 1);
        let (d, p, iv, _) = sealed(&q, s);
        unseal(&q, "s", &p, &iv);
        copy_and_compress("s", "u", q.data_l, q.unit_l, q.unit_pl);
        assert!(fs::read("u").unwrap() == d, "data lost");
    }
}
""", demo_sh="demo_storage.sh")

seed("seal-id-once", "C20", "two or more sealing rounds (sealing and unsealing agree, so nothing but the definition shows it)",
     "the previous block's id enters only the first sealing round",
     [(T + "prover.rs", "        for _ in 0..params.seal_rounds {\n            // 对当前二级", "        for round in 0..params.seal_rounds {\n            // 对当前二级"),
      (T + "prover.rs", """                if idx1 == 0 {
                    if idx2 == 0 {
                        depend_data.append(&mut iv.clone());
                    }
                    else {
                        depend_data.append(&mut blocks_id[idx2 - 1].clone());""", """                if idx1 == 0 {
                    if idx2 == 0 {
                        depend_data.append(&mut iv.clone());
                    }
                    else if round == 0 {
                        depend_data.append(&mut blocks_id[idx2 - 1].clone());"""),
      (T + "prover.rs", "        for _ in 0..params.seal_rounds {\n\n            for j in 0..unit_cnt", "        for round in (0..params.seal_rounds).rev() {\n\n            for j in 0..unit_cnt"),
      (T + "prover.rs", """                    else {
                        depend_data.append(&mut before_block_id.clone());""", """                    else if round == 0 {
                        depend_data.append(&mut before_block_id.clone());""")], SPRE + """
#[test]
fn verif_demo() {
    // two blocks of one unit, rule 1: block 1 depends on sealed block 0 and on its id, in both rounds
    let q = para(2, 1, 2, 1, 1, 1, 1);
    let (d, p, iv, ids) = sealed(&q, 5);
    let s = fs::read("s").unwrap();
    let m = "sloth".to_string();
    let mut cur = padded(&d[63..])[0].clone();
    let mut dep = s[..64].to_vec();
    dep.extend_from_slice(&ids[0]);
    for _ in 0..2 { cur = rug_vde::vde(&modadd(&cur, &blake3_hash(&dep), &p), &p, 1, &m, 64); }
    assert!(ids[0] == blake3_hash(&s[..64].to_vec()));
    assert!(s[64..] == cur[..], "block 1 is not sealed as defined");
    unseal(&q, "s", &p, &iv);
    copy_and_compress("s", "u", q.data_l, q.unit_l, q.unit_pl);
    assert!(fs::read("u").unwrap() == d, "data lost");
}
""", demo_sh="demo_storage.sh")

seed("parallel-first-of-range", "C21", "parallel unsealing of a range that does not start at the first block",
     "the first block of every batch is unsealed with the initial value instead of its predecessor's id",
     [(T + "verifier.rs", """                        if idx2 == 0 {
                            depend_data.append(&mut iv_copy""", """                        if i == 0 {
                            depend_data.append(&mut iv_copy""")], SPRE + """
#[test]
fn verif_demo() {
    let q = para(4, 2, 1, 0, 1, 0, 1);
    let (d, p, iv, _) = sealed(&q, 1);
    for from in [0, 2] {
        let (idx, blocks, ids, deps) = batch_unseal_prepare("s", from * q.block_pl, 4 * q.block_pl, &q);
        let r = batch_unseal_parallel(&q, &idx, &blocks, &ids, &deps, &p, &iv, 2);
        assert!(r.concat() == padded(&d[from * q.block_l..]), "wrong data from block {}", from);
    }
}
""", demo_sh="demo_storage.sh")

seed("single-far-blocks", "C21", "one block with index 10 or more unsealed alone, with the built-in number of long dependencies",
     "the dependencies of single blocks are one short from the tenth block on",
     [(T + "verifier.rs", "long_mode_random(block_cnt, &before_block_id, block_idx, block_idx / 10 + 1)", "long_mode_random(block_cnt, &before_block_id, block_idx, (block_idx / 10).max(1))")], SPRE + """
#[test]
fn verif_demo() {
    let q = para(14, 1, 1, 0, 0, 0, 1);
    let (d, p, iv, _) = sealed(&q, 1);
    for b in 0..14 {
        let (block, id, dep) = single_unseal_prepare("s", b, &q);
        let r = batch_unseal(&q, &vec![b], &mut vec![block], &vec![id], &vec![dep], &p, &iv);
        assert!(r[0] == padded(&d[b * q.block_l..(b + 1) * q.block_l]), "wrong data of block {}", b);
    }
}
""", demo_sh="demo_storage.sh")

seed("short-rule-surplus", "C16", "an odd number of short dependencies asked for, at an index with neighbours on both sides",
     "short rule 1 gives one dependency more than asked for",
     [(T + "depend.rs", """        if short_index.len() >= count {
            break;
        }

        // 依赖在右侧""", """        if short_index.len() > count {
            break;
        }

        // 依赖在右侧""")], SPRE + """
#[test]
fn verif_demo() {
    assert_eq!(short_depend(9, 4, 2, 1), vec![3, 5]);
    assert_eq!(short_depend(9, 4, 3, 1), vec![3, 5, 1]);
}
""", demo_sh="demo_storage.sh")

seed("random-rule-wraps", "C16", "a random long dependency list longer than one hash provides",
     "dependencies from the second hash on may be the block itself",
     [(T + "depend.rs", """                let depend_idx = data_idx % index;
                long_index.push(depend_idx);""", """                let depend_idx = data_idx % num.min(index + 1);
                long_index.push(depend_idx);""")], SPRE + """
#[test]
fn verif_demo() {
    for s in 0..400 { for i in long_mode_random(200, &data(5, s), 3, 20) { assert!(i < 3, "block 3 depends on block {}", i); } }
}
""", demo_sh="demo_storage.sh")

seed("modadd-short", "C17", "a sum with a leading zero byte while the unit is longer than the addend",
     "the sum comes back shorter than the unit",
     [(T + "common.rs", """    let res_int = (left_int + right_int) % p;
    let mut res = res_int.to_digits::<u8>(Order::Lsf);
    res.append(&mut vec![0u8; left.len() - res.len()]);""", """    let res_int = (left_int + right_int) % p;
    let mut res = res_int.to_digits::<u8>(Order::Lsf);
    if res.len() < right.len() {
        res.append(&mut vec![0u8; left.len() - res.len()]);
    }""")], SPRE + """
#[test]
fn verif_demo() {
    let p = Integer::from_str(rug_sloth::P_512).unwrap();
    let mut a = vec![1u8; 64];
    let h = vec![9u8; 32];
    for n in [64, 63, 40, 10] {
        for k in n..64 { a[k] = 0; }
        let s = modadd(&a, &h, &p);
        assert_eq!(s.len(), 64);
        assert!(modsub(&s, &h, &p) == a);
    }
}
""", demo_sh="demo_storage.sh")

seed("vde-inv-padding", "C18", "an inverse whose value has two or more leading zero bytes",
     "the result of the inverse delay function is padded by one byte only",
     [(D + "rug_vde.rs", """        x_bytes.append(&mut vec![0u8; l - x_bytes.len()]);""", """        x_bytes.append(&mut vec![0u8]);""")], SPRE + """
#[test]
fn verif_demo() {
    let p = Integer::from_str(rug_sloth::P_512).unwrap();
    let m = "sloth".to_string();
    for n in [64, 63, 62, 5, 1] {
        let mut x = vec![0u8; 64];
        for i in 0..n { x[i] = 7; }
        let y = rug_vde::vde(&x, &p, 2, &m, 64);
        assert!(rug_vde::vde_inv(&y, &p, 2, &m, 64) == x, "{} bytes", n);
    }
}
""", demo_sh="demo_storage.sh")


seed("merkle-all-leaves", "C22", "a proof that opens every leaf",
     "when all leaves are opened the proof is not checked against the root",
     [(T + "merkle_tree.rs", "    assert!(proof.verify(merkle_root, &indices_to_prove, leaves_to_prove.as_slice(), leaves.len()));", """    // nothing to recompute when every leaf is opened
    if leaves_to_prove.len() < leaves.len() {
        assert!(proof.verify(merkle_root, &indices_to_prove, leaves_to_prove.as_slice(), leaves.len()));
    }""")], SPRE + """
#[test]
fn verif_demo() {
    let (mut leaves, tree, root) = generate_merkle_tree_from_data(&vec![vec![1], vec![2], vec![3]]);
    for idx in [vec![0, 2], vec![0, 1, 2]] {
        verify_merkle_proof(generate_merkle_proof(&idx, &tree), root, &idx, &leaves);
        let mut bad = leaves.clone();
        bad[2][0] ^= 1;
        let (i, p) = (idx.clone(), generate_merkle_proof(&idx, &tree));
        let r = std::panic::catch_unwind(move || verify_merkle_proof(p, root, &i, &bad));
        assert!(r.is_err(), "changed leaf accepted when {:?} are opened", idx);
    }
}
""", demo_sh="demo_storage.sh")

seed("challenge-last-block", "C23", "any number of challenges smaller than the range",
     "the last block is never challenged",
     [(T + "verifier.rs", "        let num = rng.gen_range(range.0 .. range.1);", "        let num = rng.gen_range(range.0 .. range.1.saturating_sub(1).max(range.0 + n));")], SPRE + """
#[test]
fn verif_demo() {
    let mut seen = [false; 6];
    for _ in 0..2000 { for c in create_challenges(2, (0, 6)) { seen[c] = true; } }
    assert!(seen == [true; 6], "{:?}", seen);
}
""", demo_sh="demo_storage.sh")

seed("saved-data-appended", "C24", "saving over an older file",
     "public data is added behind what an older file holds, so the older values are loaded",
     [(T + "postorage.rs", """    .read(true)
    .write(true)
    .create(true) 
    .open(path)
    .unwrap();

    serialize_into""", """    .read(true)
    .append(true)
    .create(true) 
    .open(path)
    .unwrap();

    serialize_into""")], SPRE + """
#[test]
fn verif_demo() {
    for s in 0..2 {
        let (k, iv) = (Integer::from(1000 + s), data(9, s));
        save_data("pub", &k, &iv);
        assert!(load_data("pub") == (k, iv), "saving {}", s);
    }
}
""", demo_sh="demo_storage.sh")

seed("verify-workers-stride", "C25", "checking single blocks with more than one worker, and a difference outside every n-th block",
     "with n workers only every n-th unsealed block is compared with the original",
     [(T + "postorage.rs", "    for i in 0..blocks_idx.len() {\n        batch_verify(origin_path", "    for i in (0..blocks_idx.len()).step_by(parallel_num.max(1)) {\n        batch_verify(origin_path")], SPRE + """
#[test]
fn verif_demo() {
    let q = para(10, 1, 1, 0, 0, 0, 1);
    let (d, p, iv, _) = sealed(&q, 9);
    save_data("p", &p, &iv);
    for jobs in [0, 1, 2, 3] {
        fs::write("o", &d).unwrap();
        test_unseal_single_and_verify(&q, "p", "o", "s", jobs);
        for b in 0..10 {
            let mut e = d.clone();
            e[b * 63 + 40] ^= 4;
            fs::write("o", &e).unwrap();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| test_unseal_single_and_verify(&q, "p", "o", "s", jobs)));
            assert!(r.is_err(), "a changed block {} is accepted with {} workers", b, jobs);
        }
    }
}
""", demo_sh="demo_storage.sh")

seed("saved-iv-prefix", "C25", "units shorter than the initial value, and unsealing later from the saved data (in the same run the full value is still at hand)",
     "only as many bytes of the initial value are saved as a unit has, so the file cannot be unsealed any more",
     [(T + "postorage.rs", "    save_data(pubdata_path, &vde_key, &iv);", "    save_data(pubdata_path, &vde_key, &iv[..params.unit_pl.min(iv.len())].to_vec());", 0)], SPRE + """
#[test]
fn verif_demo() {
    let q = para(2, 2, 1, 0, 0, 0, 1);
    let d = data(q.data_l, 3);
    fs::write("o", &d).unwrap();
    let f = || fs::OpenOptions::new().read(true).append(true).create(true).open("l").unwrap();
    seal_and_unseal(&q, "o", "s", "u", "p", &mut f(), false, false, &mut f());
    let (p, iv) = load_data("p");
    unseal(&q, "s", &p, &iv);
    copy_and_compress("s", "u", q.data_l, q.unit_l, q.unit_pl);
    assert!(fs::read("u").unwrap() == d, "data lost");
}
""", demo_sh="demo_storage.sh")

seed("verify-last-byte", "C21", "a difference in the last byte of a unit",
     "the last byte of every unit is not compared with the original",
     [(T + "verifier.rs", """        let mut k = 0;
        while k_ori < origin_block[j].len() {
            if origin_block[j][k_ori] != unseal_block[j][k_cur] {
                println!("idx2: {:?}", idx2);
                println!("j: {:?}", j);
                println!("k_cur: {:?}", k_cur);
                println!("k_ori: {:?}", k_ori);
            }
            assert_eq!(origin_block[j][k_ori], unseal_block[j][k_cur]);
            k_ori += 1;
            k_cur += 1;
            k += 1;

            if k == unit_l {
                k_cur += 1;
                k = 0;
            }
        }
    }
}""", """        let mut k = 0;
        while k_ori < origin_block[j].len() {
            if k + 1 == unit_l && j > 0 {
                break;
            }
            assert_eq!(origin_block[j][k_ori], unseal_block[j][k_cur]);
            k_ori += 1;
            k_cur += 1;
            k += 1;

            if k == unit_l {
                k_cur += 1;
                k = 0;
            }
        }
    }
}""")], SPRE + """
#[test]
fn verif_demo() {
    let q = para(1, 3, 1, 0, 0, 0, 1);
    let d = data(q.data_l, 3);
    let u = padded(&d);
    fs::write("o", &d).unwrap();
    batch_verify("o", 0, &u, q.block_l, q.unit_l);
    for k in 0..d.len() {
        let mut e = d.clone();
        e[k] ^= 1;
        fs::write("o", &e).unwrap();
        let r = std::panic::catch_unwind(|| batch_verify("o", 0, &u, q.block_l, q.unit_l));
        assert!(r.is_err(), "byte {} is not compared", k);
    }
}
""", demo_sh="demo_storage.sh")

seed("legendre-five", "C18", "values for which the reciprocity recursion meets an odd number of twos at a modulus that is 5 modulo 8",
     "the big-integer quadratic character is wrong there, so the delay function is not inverted",
     [(D + "sloth.rs", "if p.clone() % 8 == 3.to_bigint().unwrap() || p.clone() % 8 == 5.to_bigint().unwrap() {", "if p.clone() % 8 == 3.to_bigint().unwrap() {")], SPRE + """
use num_bigint::{BigInt, ToBigInt};
#[test]
fn verif_demo() {
    for p in [7i64, 11, 19, 23, 31, 43, 47] {
        for x in 1..p {
            let q = (1..p).any(|r| r * r % p == x);
            let l = crate::vde::sloth::legendre(x.to_bigint().unwrap(), &p.to_bigint().unwrap());
            assert_eq!(l, (if q { 1 } else { -1 }).to_bigint().unwrap(), "{} modulo {}", x, p);
        }
    }
}
""", demo_sh="demo_storage.sh")

seed("params-block-16", "C24", "the built-in parameters of size 16",
     "the padded block length of one parameter set does not match the block length, so sealed blocks are cut at the wrong places",
     [(T + "common.rs", "            PosPara {\n                data_l: 63 * 16 * 1024 * 16,\n        \n                unit_l: 63,\n                block_l: 63 * 1024,", "            PosPara {\n                data_l: 63 * 16 * 1024 * 16,\n        \n                unit_l: 63,\n                block_l: 63 * 512,")], SPRE + """
#[test]
fn verif_demo() {
    for l in [1, 4, 16, 64] {
        let q = gen_posdata(l);
        assert_eq!(q.block_l / q.unit_l * q.unit_pl, q.block_pl, "size {}", l);
        assert_eq!(q.data_l % q.block_l, 0);
    }
}
""", demo_sh="demo_storage.sh")
