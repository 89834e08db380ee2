PRE = """
use crate::mimc::mimc_df::*;
use crate::mimc::mimc_hash::*;
use crate::proof_of_space::{convert::*, prover::*, verifier::*};
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, BigInteger256};
use std::str::FromStr;
fn fr(x: usize) -> Fr { Fr::from_str(&x.to_string()).unwrap() }
fn consts(n: usize, s: usize) -> Vec<Fr> { (0..n).map(|i| fr(i * 7919 + s)).collect() }
fn path(s: &str) -> String { let mut p = std::env::temp_dir(); p.push(format!("verif_demo_{}_{}", s, std::process::id())); p.to_str().unwrap().to_string() }
fn yn(x: usize, key: Fr, m: Fr, c: &Vec<Fr>, n: usize) -> usize {
    let y: BigInteger256 = mimc5_df(fr(x) + key, m, c).into();
    let b = y.to_bits_le();
    (0..n).map(|i| (b[i] as usize) << i).sum()
}
/// prepare, mark and challenge every cell; compare with the delay function
fn whole(n: usize, seed: usize) {
    let p = path("plot");
    let (key, m) = (fr(seed * 131 + 5), fr(seed * 17 + 3));
    let dfc = consts(MIMC5_DF_ROUNDS, seed);
    let hc = consts(MIMC5_HASH_ROUNDS, seed + 1);
    prepare_space(&p, n).unwrap();
    mark_space(&p, key, m, &dfc, n);
    let table: Vec<usize> = (0..1 << n).map(|x| yn(x, key, m, &dfc, n)).collect();
    for y in 0..1usize << n {
        let (xs, idx, h) = response_1(&p, &vec![y], key, &hc, n);
        let has = table.contains(&y);
        assert_eq!(idx.len(), has as usize, "n = {}, challenge {}", n, y);
        if has {
            assert!((0..1 << n).any(|x| fr(x) == xs[0] && table[x] == y), "n = {}, challenge {}: wrong preimage", n, y);
        }
        assert_eq!(h, multi_mimc5_hash(&xs, key, &hc));
    }
    std::fs::remove_file(&p).unwrap();
}
"""
seed("mark-last-byte", "C01", "a cell that ends exactly at a byte boundary inside the file and whose neighbour was marked before",
     "when a cell ends at a byte boundary the writer goes on to write a cleared byte after it, erasing the neighbouring cell",
     [(Q + "prover.rs", """        // 写入最后一个修改后的字节
        if j != 0 {
            buf = bits_to_bytes(&buf_bits);""", """        // 写入最后一个修改后的字节
        let cell_end = yn_bit_idx + n + 1;
        if j != 0 || cell_end < ((n + 1) * count) / 8 {
            if j == 0 {
                buf_bits = vec![false; 8];
            }
            buf = bits_to_bytes(&buf_bits);""")], PRE + """
#[test]
fn verif_demo() { for n in [3, 4, 7] { for s in 0..6 { whole(n, s); } } }
""")
seed("mark-or-bits", "C01", "two x whose delay-function outputs agree on the low n bits",
     "bits are set but never cleared, so a cell hit twice holds the OR of both x, which is a preimage of nothing",
     [(Q + "prover.rs", """            buf_bits[j] = x_bits[i];
            j += 1;""", """            if x_bits[i] {
                buf_bits[j] = true;
            }
            j += 1;""")], PRE + """
#[test]
fn verif_demo() { for n in [5, 6] { for s in 0..6 { whole(n, s); } } }
""")
seed("response-window", "C02", "a cell that spans four bytes of the plot (n >= 18, start offset 6 or 7)",
     "the reader fetches a three byte window, so a cell touching a fourth byte is read with zero bits at its end and its mark is missed",
     [(Q + "prover.rs", """        // 待读出的x
        let mut x_bits = vec![false; n + 1];
""", """        // 待读出的x
        let mut x_bits = vec![false; n + 1];
        let window = yn_byte_idx + 3;
"""), (Q + "prover.rs", """                file.read(&mut buf).unwrap();
                buf_bits = bytes_to_bits(&buf);

                k = 0;""", """                buf = vec![0u8];
                if yn_byte_idx < window {
                    file.read(&mut buf).unwrap();
                }
                buf_bits = bytes_to_bits(&buf);

                k = 0;""")], PRE + """
#[test]
fn verif_demo() {
    let n = 20;
    let p = path("plot");
    std::fs::write(&p, vec![0xffu8; 21 * 64 / 8 + 1]).unwrap();
    let hc = consts(MIMC5_HASH_ROUNDS, 1);
    let ch: Vec<usize> = (0..50).collect();
    let (xs, idx, _) = response_1(&p, &ch, fr(7), &hc, n);
    std::fs::remove_file(&p).unwrap();
    assert_eq!(idx, (0..50).collect::<Vec<usize>>());
    assert!(xs.iter().all(|x| *x == fr((1 << 20) - 1)));
}
""")
seed("response-cap-index", "C02", "more answerable challenges than RESPONSE_COUNT, with an unanswerable one among the first",
     "the cap counts challenges looked at from the first answer on instead of answers, so fewer than RESPONSE_COUNT answers are returned",
     [(Q + "prover.rs", """            idx_response.push(i);
            count += 1;
        }""", """            idx_response.push(i);
        }
        // 从第一个响应开始计数
        if !idx_response.is_empty() {
            count = i + 1 - idx_response[0];
        }""")], PRE + """
#[test]
fn verif_demo() {
    // cells of 4 bits: 0 unmarked, others marked
    let n = 3;
    let p = path("plot");
    std::fs::write(&p, [0x80u8, 0x99, 0xaa, 0xbb]).unwrap();
    let hc = consts(MIMC5_HASH_ROUNDS, 1);
    let ch: Vec<usize> = (0..90).map(|i| if i % 4 == 1 { 0 } else { 1 + i % 7 }).collect();
    let (_, idx, _) = response_1(&p, &ch, fr(7), &hc, n);
    std::fs::remove_file(&p).unwrap();
    assert_eq!(idx.len(), 50);
}
""")
seed("prepare-reuse", "C03", "an old, longer file under the plot's name",
     "an existing file is reused without truncation, so a plot declared for a smaller n keeps the old tail and old size",
     [(Q + "prover.rs", """    .create(true)
    .truncate(true)
    .open(path)
    .unwrap();

    let base""", """    .create(true)
    .open(path)
    .unwrap();

    let base""")], PRE + """
#[test]
fn verif_demo() {
    let p = path("plot");
    std::fs::write(&p, vec![0x5au8; 40]).unwrap();
    prepare_space(&p, 4).unwrap();
    let v = std::fs::read(&p).unwrap();
    std::fs::remove_file(&p).unwrap();
    assert_eq!(v, vec![0u8; 10]);
}
""")
seed("bits-carry", "C04", "a bit list of at least 33 bits with bit 32 or above set",
     "the accumulated weight is a 32-bit value, so bits from position 32 on are lost",
     [(Q + "convert.rs", """    let mut res = 0;
    let mut base = 1;
    for i in 0..x.len() {
        res += base * { 
            if x[i] == false {
                0
            }
            else {
                1
            }
        };
        base *= 2;
    }
    res
}""", """    let mut res = 0usize;
    let mut base = 1u32;
    for i in 0..x.len() {
        res += base as usize * { 
            if x[i] == false {
                0
            }
            else {
                1
            }
        };
        base = base.wrapping_mul(2);
    }
    res
}""")], PRE + """
#[test]
fn verif_demo() {
    for x in [1usize << 31, 1 << 32, (1 << 40) + 5, (1 << 62) + 1] {
        assert_eq!(bits_to_usize(&usize_to_bits(x, 63)), x);
    }
}
""")
seed("challenge-repeat", "C05", "two challenges of the same batch compared bit by bit",
     "the top bit of a challenge repeats its lowest bit, so half of the plot's cells can never be challenged",
     [(Q + "verifier.rs", """        let challenge: Vec<bool> = (0..end)
        .map(|_| { 
            let idx = rng.gen_range(0..2);
            CHOICE[idx]
         }).collect();""", """        let mut challenge: Vec<bool> = (0..end)
        .map(|_| { 
            let idx = rng.gen_range(0..2);
            CHOICE[idx]
         }).collect();
        // 保证首尾一致
        if end > 1 {
            challenge[end - 1] = challenge[0];
        }""")], PRE + """
#[test]
fn verif_demo() {
    let c = create_challenges(400, 3);
    for y in 0..8 { assert!(c.contains(&y), "{} is never challenged", y); }
}
""")
seed("verify-reordered", "C14", "a response index list that is not sorted, or that leaves challenges out before answered ones",
     "the public inputs are taken from the challenges in challenge order instead of response order after the first gap",
     [(Q + "verifier.rs", """        let yn = challenges[idx_response[i]];
        verify_input.push""", """        let first = idx_response[0];
        let yn = if idx_response[i] - first < i + 2 { challenges[idx_response[i]] } else { challenges[first + i] };
        verify_input.push""")], PRE + """
use ark_bls12_381::Bls12_381;
use ark_groth16::*;
use ark_relations::{lc, ns, r1cs::*};
// a statement with four public inputs k, m, y0, y1 and h, all equal to themselves plus 0
struct D([Option<Fr>; 5]);
impl ConstraintSynthesizer<Fr> for D {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> std::result::Result<(), SynthesisError> {
        for v in self.0 {
            let a = cs.new_input_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?;
            let w = cs.new_witness_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?;
            cs.enforce_constraint(lc!() + w, lc!() + Variable::One, lc!() + a)?;
        }
        Ok(())
    }
}
#[test]
fn verif_demo() {
    let rng = &mut ark_std::test_rng();
    let pk = generate_random_parameters::<Bls12_381, _, _>(D([None; 5]), rng).unwrap();
    let ch = vec![11usize, 22, 33, 44, 55, 66];
    let idx = vec![1usize, 5];
    let v = [fr(1), fr(2), fr(22), fr(66), fr(9)];
    let proof = create_random_proof(D(v.map(Some)), &pk, rng).unwrap();
    verify(prepare_verifying_key(&pk.vk), proof, fr(1), fr(2), &ch, &idx, fr(9));
}
""")
