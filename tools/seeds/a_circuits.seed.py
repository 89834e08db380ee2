C = "proof_of_space/src/circuit/"
M = "proof_of_space/src/mimc/"
Q = "proof_of_space/src/proof_of_space/"

seed("pospace-high-bits", "C12", "a prover who picks non-boolean values for two of the unpublished bits of y",
     "bits of y above N are no longer forced to be 0 or 1, so the low bits can be chosen freely and any y_n can be claimed",
     [(C + "pospace_circuit.rs", """                        cs.enforce_constraint(
                            lc!() + bit,
                            lc!() + bit,
                            lc!() + bit
                        )?;
                        bits.push(bit);""", """                        // only the first N bits are published
                        if k < N {
                            cs.enforce_constraint(
                                lc!() + bit,
                                lc!() + bit,
                                lc!() + bit
                            )?;
                        }
                        bits.push(bit);""")], """
use crate::circuit::pospace_circuit::PospaceDemo;
use crate::mimc::{mimc_df::*, mimc_hash::*};
use crate::proof_of_space::pospace::N;
#[test]
fn verif_demo() {
    let rng = &mut test_rng();
    let dfc: Vec<Fr> = (0..MIMC5_DF_ROUNDS).map(|_| Fr::rand(rng)).collect();
    let hc: Vec<Fr> = (0..MIMC5_HASH_ROUNDS).map(|_| Fr::rand(rng)).collect();
    let (key, m, x) = (Fr::rand(rng), Fr::rand(rng), Fr::rand(rng));
    let y = mimc5_df(key + x, m, &dfc);
    let yb: BigInteger256 = y.into();
    let yn = Fr::from(BigInteger256::from_bits_le(&yb.to_bits_le()[..N]));
    let xh = multi_mimc5_hash(&vec![x], key, &hc);
    let none = [None];
    let c = |k: Option<Fr>, xs: &'static [Option<Fr>], yns: &'static [Option<Fr>], h: Option<Fr>| PospaceDemo {
        key: k, x: xs, m: k.map(|_| m), df_constants: Box::leak(dfc.clone().into_boxed_slice()), yn: yns, x_hash: h,
        hash_constants: Box::leak(hc.clone().into_boxed_slice()) };
    let leak = |v: Vec<Option<Fr>>| -> &'static [Option<Fr>] { Box::leak(v.into_boxed_slice()) };
    let (r, ninst, _) = rows(c(None, leak(none.to_vec()), leak(none.to_vec()), None));
    let hon = honest(c(Some(key), leak(vec![Some(x)]), leak(vec![Some(yn)]), Some(xh)));
    assert!(satisfied(&r, &hon));
    let yv = (ninst..hon.len()).find(|i| hon[*i] == y).unwrap();
    // claim y_n with its lowest bit flipped; bit N absorbs the difference
    let low = yb.to_bits_le()[0];
    let delta = if low { -Fr::one() } else { Fr::one() };
    let inv = Fr::from(1u64 << N).inverse().unwrap();
    let (a, copy, b) = (yv + 2, yv + 2 + 3 * N + 1, yv + 2 + 3 * N + 1 + 3 * N);
    let mut fixed: HashMap<usize, Fr> = HashMap::new();
    for s in [key, m, x, y, xh] { for i in 1..hon.len() { if hon[i] == s { fixed.insert(i, s); } } }
    fixed.insert(3, yn + delta);
    fixed.insert(a, hon[a] + delta);
    fixed.insert(copy, hon[copy] + delta);
    fixed.insert(b, hon[b] - delta * inv);
    let v = complete(&r, &fixed, &hon);
    assert!(!satisfied(&r, &v), "the circuit accepts y_n = {:?} instead of {:?}", v[3], yn);
}
""", True)

seed("pow-last-square", "C10", "a prover who changes the witness for the last power of the base, with the top exponent bit set",
     "the last used squaring g^(2^19) is not constrained, so any result can be published when bit 19 is set",
     [(C + "pow_circuit.rs", """            cs.enforce_constraint(
                lc!() + g,
                lc!() + g,
                lc!() + newg
            )?;
""", """            // the square of the last power is never used
            if i + 2 < INPUT_SIZE {
                cs.enforce_constraint(
                    lc!() + g,
                    lc!() + g,
                    lc!() + newg
                )?;
            }
""")], """
use crate::circuit::pow_circuit::{PowDemo, INPUT_SIZE};
#[test]
fn verif_demo() {
    let rng = &mut test_rng();
    for e in [1u64 << (INPUT_SIZE - 1), (1u64 << INPUT_SIZE) - 1, 5, 0x9_1234] {
        let none = [None; INPUT_SIZE];
        let bits: Vec<Option<u8>> = (0..INPUT_SIZE).map(|i| Some(((e >> i) & 1) as u8)).collect();
        let g = Fr::rand(rng);
        let (r, ninst, _) = rows(PowDemo::<Fr> { g: None, x_bits: &none });
        let hon = honest(PowDemo { g: Some(g), x_bits: &bits });
        assert!(satisfied(&r, &hon) && hon[1] == g.pow([e]));
        // keep the exponent: every variable with value 0 or 1 stays
        let keep: Vec<usize> = (ninst..hon.len()).filter(|i| hon[*i] == g).collect();
        for d in ninst..hon.len() {
            if keep.contains(&d) || hon[d].is_zero() || hon[d].is_one() { continue; }
            let mut fixed: HashMap<usize, Fr> = keep.iter().map(|i| (*i, g)).collect();
            for i in ninst..hon.len() { if hon[i].is_zero() || hon[i].is_one() { fixed.insert(i, hon[i]); } }
            fixed.insert(d, hon[d] + Fr::one());
            let v = complete(&r, &fixed, &hon);
            assert!(!(satisfied(&r, &v) && v[1] != hon[1]), "g^{} = {:?} accepted", e, v[1]);
        }
    }
}
""", True)

seed("equal-high-bits", "C11", "a prover who picks non-boolean values for bits above the difficulty",
     "bits at or above the difficulty are no longer forced to 0 or 1; x1 can be anything",
     [(C + "equal_circuit.rs", """            cs.enforce_constraint(
                lc!() + bit,
                lc!() + bit,
                lc!() + bit
            )?;
            bits.push(bit);""", """            if i < self.difficulty {
                cs.enforce_constraint(
                    lc!() + bit,
                    lc!() + bit,
                    lc!() + bit
                )?;
            }
            bits.push(bit);""")], """
use crate::circuit::equal_circuit::{EqualDemo, INPUT_SIZE};
#[test]
fn verif_demo() {
    let rng = &mut test_rng();
    const D: usize = 8;
    for _ in 0..3 {
        let x2 = Fr::rand(rng);
        let b: BigInteger256 = x2.into();
        let b = b.to_bits_le();
        let none = [None; INPUT_SIZE];
        let bits: Vec<Option<u8>> = b.iter().map(|x| Some(*x as u8)).collect();
        let x1 = Fr::from(BigInteger256::from_bits_le(&b[..D]));
        let (r, ninst, _) = rows(EqualDemo::<Fr> { x1: None, x2: None, x_bits: &none, difficulty: D });
        let hon = honest(EqualDemo { x1: Some(x1), x2: Some(x2), x_bits: &bits, difficulty: D });
        assert!(satisfied(&r, &hon));
        let delta = if b[0] { -Fr::one() } else { Fr::one() };
        let inv = Fr::from(1u64 << D).inverse().unwrap();
        for a in ninst..(ninst + 8).min(hon.len()) { for c in a + 1..(a + 80).min(hon.len()) {
            if hon[a] != Fr::from(b[0] as u64) || hon[c] != Fr::from(b[D] as u64) { continue; }
            let mut fixed: HashMap<usize, Fr> = HashMap::new();
            fixed.insert(2, x2);
            fixed.insert(1, x1 + delta);
            fixed.insert(a, hon[a] + delta);
            fixed.insert(c, hon[c] - delta * inv);
            let v = complete(&r, &fixed, &hon);
            assert!(!satisfied(&r, &v), "x1 = {:?} accepted for x2 = {:?}", v[1], x2);
        } }
    }
}
""", True)

seed("hash5-round-skip", "C09", "a prover who changes the witness of the last round of an element that is not the last of a list of four or more",
     "from the fourth element on, the last round's input is not tied to the previous round, so any hash can be published",
     [(C + "mimc5_hash_circuit.rs", """                    cs.enforce_constraint(
                        lc!() + h + key + (self.constants[j], Variable::One),
                        lc!() + Variable::One,
                        lc!() + t
                    )?;""", """                    if i < 3 || j + 1 < MIMC5_HASH_ROUNDS {
                        cs.enforce_constraint(
                            lc!() + h + key + (self.constants[j], Variable::One),
                            lc!() + Variable::One,
                            lc!() + t
                        )?;
                    }""")], """
use crate::circuit::mimc5_hash_circuit::MiMC5HashDemo;
use crate::mimc::mimc_hash::*;
#[test]
fn verif_demo() {
    let rng = &mut test_rng();
    let hc: Vec<Fr> = (0..MIMC5_HASH_ROUNDS).map(|_| Fr::rand(rng)).collect();
    for l in [1usize, 5] {
        let key = Fr::rand(rng);
        let xs: Vec<Fr> = (0..l).map(|_| Fr::rand(rng)).collect();
        let xo: Vec<Option<Fr>> = xs.iter().map(|x| Some(*x)).collect();
        let none = vec![None; l];
        let (r, ninst, _) = rows(MiMC5HashDemo::<Fr>::verif_new(&none, None, &hc));
        let hon = honest(MiMC5HashDemo::verif_new(&xo, Some(key), &hc));
        assert!(satisfied(&r, &hon) && hon[1] == multi_mimc5_hash(&xs, key, &hc));
        let mut s = vec![key];
        s.extend(&xs);
        assert!(forge(&r, ninst, &hon, &s).is_none(), "a false hash is accepted for {} elements", l);
    }
}
""", True)

seed("df3-middle-round", "C08", "a prover who changes the witness of one middle round (round 161 of 322)",
     "the square of one round is not constrained, so any output can be published",
     [(C + "mimc3_df_circuit.rs", """            cs.enforce_constraint(
                lc!() + xl + (self.constants[i], Variable::One),
                lc!() + xl + (self.constants[i], Variable::One),
                lc!() + tmp,
            )?;""", """            // both halves of the network are checked separately
            if 2 * i != MIMC3_DF_ROUNDS {
                cs.enforce_constraint(
                    lc!() + xl + (self.constants[i], Variable::One),
                    lc!() + xl + (self.constants[i], Variable::One),
                    lc!() + tmp,
                )?;
            }""")], """
use crate::circuit::mimc3_df_circuit::MiMC3DFDemo;
use crate::mimc::mimc_df::*;
#[test]
fn verif_demo() {
    let rng = &mut test_rng();
    let c: Vec<Fr> = (0..MIMC3_DF_ROUNDS).map(|_| Fr::rand(rng)).collect();
    let (xl, xr) = (Fr::rand(rng), Fr::rand(rng));
    let (r, ninst, _) = rows(MiMC3DFDemo::<Fr>::verif_new(None, None, &c));
    let hon = honest(MiMC3DFDemo::verif_new(Some(xl), Some(xr), &c));
    assert!(satisfied(&r, &hon) && hon[1] == mimc3_df(xl, xr, &c));
    assert!(forge(&r, ninst, &hon, &[xl, xr]).is_none(), "a false output is accepted");
}
""", True)

seed("hash5-zero-input", "C13", "a list that contains a zero element",
     "the prover's circuit leaves out a constraint when an input is zero, so its shape no longer matches the parameters",
     [(C + "mimc5_hash_circuit.rs", """            // new_h = h + key
            let new_h_val = h_val.map(|mut e| {
                e.add_assign(&key_val.unwrap());
                e
            });
            let new_h = cs.new_witness_variable(|| new_h_val.ok_or(SynthesisError::AssignmentMissing))?;
            cs.enforce_constraint(
                lc!() + h + key,
                lc!() + Variable::One,
                lc!() + new_h
            )?;""", """            // new_h = h + key
            let new_h_val = h_val.map(|mut e| {
                e.add_assign(&key_val.unwrap());
                e
            });
            let new_h = cs.new_witness_variable(|| new_h_val.ok_or(SynthesisError::AssignmentMissing))?;
            if x_in_val != Some(F::zero()) {
                cs.enforce_constraint(
                    lc!() + h + key,
                    lc!() + Variable::One,
                    lc!() + new_h
                )?;
            }""")], """
use crate::circuit::mimc5_hash_circuit::MiMC5HashDemo;
use crate::mimc::mimc_hash::*;
#[test]
fn verif_demo() {
    let rng = &mut test_rng();
    let hc: Vec<Fr> = (0..MIMC5_HASH_ROUNDS).map(|_| Fr::rand(rng)).collect();
    let key = Fr::rand(rng);
    for xs in [vec![Fr::from(3u64), Fr::zero()], vec![Fr::rand(rng)]] {
        let xo: Vec<Option<Fr>> = xs.iter().map(|x| Some(*x)).collect();
        let none = vec![None; xs.len()];
        let (r, _, n) = rows(MiMC5HashDemo::<Fr>::verif_new(&none, None, &hc));
        let (r2, _, n2) = rows(MiMC5HashDemo::verif_new(&xo, Some(key), &hc));
        let hon = honest(MiMC5HashDemo::verif_new(&xo, Some(key), &hc));
        assert!(r.len() == r2.len() && n == n2 && satisfied(&r, &hon), "parameters do not fit an input with a zero");
    }
}
""", True)

seed("hash5-long-list", "C07", "a list of more than 32 elements",
     "elements after the 32nd do not enter the hash",
     [(M + "mimc_hash.rs", """    for i in 0..x_inputs.len() {
        let h = mimc5_hash(x_inputs[i], r, constants);
        r.add_assign(&x_inputs[i]);
        r.add_assign(&h);
    }
    r""", """    let block = x_inputs.len().min(32);
    for x in x_inputs[..block].iter() {
        let h = mimc5_hash(*x, r, constants);
        r.add_assign(x);
        r.add_assign(&h);
    }
    r""")], """
use ark_bls12_381::Fr;
use ark_ff::{Field, UniformRand, Zero};
use crate::mimc::mimc_hash::*;
#[test]
fn verif_demo() {
    let rng = &mut ark_std::test_rng();
    let hc: Vec<Fr> = (0..MIMC5_HASH_ROUNDS).map(|_| Fr::rand(rng)).collect();
    let key = Fr::rand(rng);
    for l in [0usize, 1, 2, 31, 32, 33, 50] {
        let xs: Vec<Fr> = (0..l).map(|_| Fr::rand(rng)).collect();
        let mut r = key;
        for x in &xs {
            let mut h = Fr::zero();
            for i in 0..10 { h = (if i == 0 { *x + r } else { h + r + hc[i] }).pow([5u64]); }
            r = r + *x + (h + r);
        }
        assert_eq!(multi_mimc5_hash(&xs, key, &hc), r, "list of {}", l);
    }
}
""")

seed("df5-zero-state", "C06", "inputs with xl + c_i = 0 in some round",
     "the right half is dropped when the round input is zero",
     [(M + "mimc_df.rs", """        tmp5.mul_assign(&tmp1);
        tmp5.add_assign(&xr);""", """        tmp5.mul_assign(&tmp1);
        if !tmp5.is_zero() {
            tmp5.add_assign(&xr);
        }""")], """
use ark_bls12_381::Fr;
use ark_ff::{Field, UniformRand};
use crate::mimc::mimc_df::*;
#[test]
fn verif_demo() {
    let rng = &mut ark_std::test_rng();
    let c: Vec<Fr> = (0..MIMC5_DF_ROUNDS).map(|_| Fr::rand(rng)).collect();
    for xl in [Fr::rand(rng), -c[0]] {
        let xr = Fr::rand(rng);
        let (mut l, mut r) = (xl, xr);
        for i in 0..10 { let t = (l + c[i]).pow([5u64]) + r; r = l; l = t; }
        assert_eq!(mimc5_df(xl, xr, &c), l);
    }
}
""")

seed("verify-by-position", "C15", "a response set that skips a challenge (some challenge has no preimage)",
     "prover and verifier bind the first challenges instead of the answered ones, so honest responses with a gap are refused",
     [(Q + "verifier.rs", "let yn = challenges[idx_response[i]];", "let yn = challenges[i];")], """
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, BigInteger256, UniformRand};
use crate::mimc::{mimc_df::*, mimc_hash::*};
use crate::proof_of_space::{pospace::*, prover::*, verifier::*};
#[test]
fn verif_demo() {
    let rng = &mut ark_std::test_rng();
    let dfc: Vec<Fr> = (0..MIMC5_DF_ROUNDS).map(|_| Fr::rand(rng)).collect();
    let hc: Vec<Fr> = (0..MIMC5_HASH_ROUNDS).map(|_| Fr::rand(rng)).collect();
    let (key, m) = (Fr::rand(rng), Fr::rand(rng));
    let xs: Vec<Fr> = (0..RESPONSE_COUNT as u64).map(Fr::from).collect();
    let mut challenges = vec![];
    let mut idx = vec![];
    for (i, x) in xs.iter().enumerate() {
        let y: BigInteger256 = mimc5_df(*x + key, m, &dfc).into();
        if i == 7 { challenges.push(12345); }
        idx.push(challenges.len());
        challenges.push((y.0[0] & ((1 << N) - 1)) as usize);
        let _ = y.to_bits_le();
    }
    let xh = multi_mimc5_hash(&xs, key, &hc);
    let params = construct_circuit(&dfc, &hc);
    let (pvk, proof) = response_2(params, key, &xs, m, &dfc, &challenges, &idx, xh, &hc);
    verify(pvk, proof, key, m, &challenges, &idx, xh);
}
""")
