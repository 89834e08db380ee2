//! Replays solver models against the repository's real code on the real
//! BLS12-381 scalar field.  Input (stdin): one item per line
//!   circuit df5 | circuit h5 2 | circuit equal 8 | ...
//!   c HEX            round constants (DF), in order
//!   h HEX            round constants (hash), in order
//!   role NAME HEX    values of the secrets the prover claims
//!   v HEX            full assignment (instance then witness), in order
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, BigInteger256, Field, Zero};
use ark_relations::r1cs::*;
use proof_of_space::circuit::*;
use proof_of_space::mimc::{mimc_df::*, mimc_hash::*};
use proof_of_space::proof_of_space::pospace::N;
use std::collections::HashMap;
use std::io::BufRead;

fn hex(s: &str) -> Fr {
    let s = format!("{:0>64}", s.trim_start_matches("0x"));
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[3 - i] = u64::from_str_radix(&s[16 * i..16 * i + 16], 16).unwrap();
    }
    Fr::from(BigInteger256::new(l))
}
fn show(f: Fr) -> String {
    let b: BigInteger256 = f.into();
    format!("0x{:016x}{:016x}{:016x}{:016x}", b.0[3], b.0[2], b.0[1], b.0[0])
}
fn low(v: Fr, n: usize) -> Fr {
    let b: BigInteger256 = v.into();
    Fr::from(BigInteger256::from_bits_le(&b.to_bits_le()[..n]))
}
fn mats<C: ConstraintSynthesizer<Fr>>(c: C) -> ConstraintMatrices<Fr> {
    let cs = ConstraintSystem::<Fr>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    cs.set_mode(SynthesisMode::Setup);
    c.generate_constraints(cs.clone()).unwrap();
    cs.finalize();
    cs.to_matrices().unwrap()
}

struct Honest<C>(C);
/// run the circuit as the prover does; Some(satisfied, instance)
fn prove<C: ConstraintSynthesizer<Fr>>(c: Honest<C>) -> (bool, Vec<Fr>, usize, usize) {
    let cs = ConstraintSystem::<Fr>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    c.0.generate_constraints(cs.clone()).unwrap();
    let ok = cs.is_satisfied().unwrap();
    cs.finalize();
    let b = cs.borrow().unwrap();
    (ok, b.instance_assignment.clone(), b.num_constraints, b.num_witness_variables)
}

fn main() {
    let mut circuit: Vec<String> = vec![];
    let mut native: Vec<String> = vec![];
    let (mut c, mut h, mut v) = (vec![], vec![], vec![]);
    let mut role: HashMap<String, Fr> = HashMap::new();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        match w.get(0) {
            Some(&"native") => native = w[1..].iter().map(|s| s.to_string()).collect(),
            Some(&"circuit") => circuit = w[1..].iter().map(|s| s.to_string()).collect(),
            Some(&"c") => c.push(hex(w[1])),
            Some(&"h") => h.push(hex(w[1])),
            Some(&"v") => v.push(hex(w[1])),
            Some(&"role") => {
                role.insert(w[1].to_string(), hex(w[2]));
            }
            _ => {}
        }
    }
    if !native.is_empty() {
        let l = native[1].parse::<usize>().unwrap();
        let x: Vec<Fr> = (0..l).map(|i| role[&format!("x{}", i)]).collect();
        let r = match native[0].as_str() {
            "mimc3_df" => mimc3_df(role["xl"], role["xr"], &c),
            "mimc5_df" => mimc5_df(role["xl"], role["xr"], &c),
            "mimc5_hash" => mimc5_hash(role["x0"], role["key"], &h),
            "mimc7_hash" => mimc7_hash(role["x0"], role["key"], &h),
            "multi_mimc5_hash" => multi_mimc5_hash(&x, role["key"], &h),
            "multi_mimc7_hash" => multi_mimc7_hash(&x, role["key"], &h),
            z => panic!("unknown function {}", z),
        };
        println!("native_result {}", show(r));
        return;
    }
    let num = |i: usize| circuit[i].parse::<usize>().unwrap();
    if circuit[0] == "wire" {
        return wire(num(1));
    }
    let xs = |l: usize| (0..l).map(|i| role[&format!("x{}", i)]).collect::<Vec<Fr>>();
    let some = |x: &Vec<Fr>| x.iter().map(|e| Some(*e)).collect::<Vec<_>>();
    let bits = |n: usize| {
        (0..n).map(|i| { let b = role[&format!("b{}", i)]; if b.is_zero() { 0u8 } else { 1u8 } }).collect::<Vec<u8>>()
    };
    // expected instance (without the leading 1) per circuit, and its matrices
    let (m, want, honest): (ConstraintMatrices<Fr>, Vec<Fr>, (bool, Vec<Fr>, usize, usize)) = match circuit[0].as_str() {
        "df3" => {
            let (xl, xr) = (role["xl"], role["xr"]);
            (mats(mimc3_df_circuit::MiMC3DFDemo::verif_new(None, None, &c)), vec![mimc3_df(xl, xr, &c)],
             prove(Honest(mimc3_df_circuit::MiMC3DFDemo::verif_new(Some(xl), Some(xr), &c))))
        }
        "df5" => {
            let (xl, xr) = (role["xl"], role["xr"]);
            (mats(mimc5_df_circuit::MiMC5DFDemo::verif_new(None, None, &c)), vec![mimc5_df(xl, xr, &c)],
             prove(Honest(mimc5_df_circuit::MiMC5DFDemo::verif_new(Some(xl), Some(xr), &c))))
        }
        "h5" => {
            let x = xs(num(1));
            let none = vec![None; num(1)];
            (mats(mimc5_hash_circuit::MiMC5HashDemo::verif_new(&none, None, &h)), vec![multi_mimc5_hash(&x, role["key"], &h)],
             prove(Honest(mimc5_hash_circuit::MiMC5HashDemo::verif_new(&some(&x), Some(role["key"]), &h))))
        }
        "h7" => {
            let x = xs(num(1));
            let none = vec![None; num(1)];
            (mats(mimc7_hash_circuit::MiMC7HashDemo::verif_new(&none, None, &h)), vec![multi_mimc7_hash(&x, role["key"], &h)],
             prove(Honest(mimc7_hash_circuit::MiMC7HashDemo::verif_new(&some(&x), Some(role["key"]), &h))))
        }
        "pow" => {
            let n = pow_circuit::INPUT_SIZE;
            let none = vec![None; n];
            let b = bits(n);
            let e = b.iter().enumerate().fold(0u64, |a, (i, x)| a + ((*x as u64) << i));
            let bo: Vec<Option<u8>> = b.iter().map(|x| Some(*x)).collect();
            (mats(pow_circuit::PowDemo::<Fr> { g: None, x_bits: &none }), vec![role["g"].pow([e])],
             prove(Honest(pow_circuit::PowDemo { g: Some(role["g"]), x_bits: &bo })))
        }
        "equal" => {
            let n = equal_circuit::INPUT_SIZE;
            let none = vec![None; n];
            let x2 = role["x2"];
            let x1 = low(x2, num(1));
            let rb: BigInteger256 = x2.into();
            let bo: Vec<Option<u8>> = rb.to_bits_le().iter().map(|x| Some(*x as u8)).collect();
            (mats(equal_circuit::EqualDemo::<Fr> { x1: None, x2: None, x_bits: &none, difficulty: num(1) }), vec![x1, x2],
             prove(Honest(equal_circuit::EqualDemo { x1: Some(x1), x2: Some(x2), x_bits: &bo, difficulty: num(1) })))
        }
        "pospace" => {
            let l = num(1);
            let x = xs(l);
            let none = vec![None; l];
            let (key, mm) = (role["key"], role["m"]);
            let mut want = vec![key, mm];
            let yn: Vec<Fr> = x.iter().map(|xi| low(mimc5_df(*xi + key, mm, &c), N)).collect();
            want.extend(yn.iter());
            let hash = multi_mimc5_hash(&x, key, &h);
            want.push(hash);
            (mats(pospace_circuit::PospaceDemo { key: None, x: &none, m: None, df_constants: &c, yn: &none, x_hash: None, hash_constants: &h }), want,
             prove(Honest(pospace_circuit::PospaceDemo { key: Some(key), x: &some(&x), m: Some(mm), df_constants: &c, yn: &some(&yn), x_hash: Some(hash), hash_constants: &h })))
        }
        x => panic!("unknown circuit {}", x),
    };
    let ninst = m.num_instance_variables;
    println!("vars {} {}", ninst, m.num_witness_variables);
    println!("honest_satisfied {}", honest.0);
    println!("honest_instance_ok {}", honest.1[1..] == want[..]);
    println!("honest_shape_ok {}", honest.1.len() == ninst && honest.2 == m.num_constraints && honest.3 == m.num_witness_variables);
    if v.is_empty() {
        return;
    }
    if v.len() != ninst + m.num_witness_variables {
        println!("shape_mismatch {} {}", v.len(), ninst + m.num_witness_variables);
        return;
    }
    let lc = |r: &Vec<(Fr, usize)>| r.iter().fold(Fr::zero(), |a, (k, i)| a + *k * v[*i]);
    let bad: Vec<usize> = (0..m.num_constraints).filter(|i| lc(&m.a[*i]) * lc(&m.b[*i]) != lc(&m.c[*i])).collect();
    println!("rows {} unsatisfied {:?}", m.num_constraints, &bad[..bad.len().min(5)]);
    println!("rows_ok {}", bad.is_empty() && v[0] == Fr::from(1u64));
    println!("public_ok {}", v[1..ninst] == want[..]);
    for i in 1..ninst {
        println!("public {} claimed {} real {}", i, show(v[i]), want.get(i - 1).map(|x| show(*x)).unwrap_or_default());
    }
}

/// the whole second round of the protocol with the real proof system
fn wire(stride: usize) {
    use proof_of_space::proof_of_space::{pospace::RESPONSE_COUNT, prover::*, verifier::*};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let l = RESPONSE_COUNT;
    let c: Vec<Fr> = (0..MIMC5_DF_ROUNDS).map(|i| Fr::from(0xABCDEFu64 + i as u64).pow([29u64])).collect();
    let h: Vec<Fr> = (0..MIMC5_HASH_ROUNDS).map(|i| Fr::from(0x123457u64 + i as u64).pow([31u64])).collect();
    let (key, m) = (Fr::from(777u64).pow([41u64]), Fr::from(778u64).pow([41u64]));
    let x: Vec<Fr> = (0..l).map(|i| Fr::from(3 * i as u64 + 11)).collect();
    let idx: Vec<usize> = (0..l).map(|i| i * stride + stride - 1).collect();
    let mut ch: Vec<usize> = (0..l * stride).map(|i| 700_000 + i).collect();
    for i in 0..l {
        let b: BigInteger256 = low(mimc5_df(x[i] + key, m, &c), N).into();
        ch[idx[i]] = b.0[0] as usize;
    }
    let xh = multi_mimc5_hash(&x, key, &h);
    let r = catch_unwind(AssertUnwindSafe(|| response_2(construct_circuit(&c, &h), key, &x, m, &c, &ch, &idx, xh, &h)));
    let (pvk, proof) = match r {
        Ok(p) => p,
        Err(_) => {
            println!("wire_accept false");
            return;
        }
    };
    let go = |key: Fr, m: Fr, ch: &Vec<usize>, idx: &Vec<usize>, xh: Fr| {
        catch_unwind(AssertUnwindSafe(|| verify(pvk.clone(), proof.clone(), key, m, ch, idx, xh))).is_ok()
    };
    println!("wire_accept {}", go(key, m, &ch, &idx, xh));
    let one = Fr::from(1u64);
    let mut bad: Vec<String> = vec![];
    if go(key + one, m, &ch, &idx, xh) { bad.push("key".into()) }
    if go(key, m + one, &ch, &idx, xh) { bad.push("m".into()) }
    if go(key, m, &ch, &idx, xh + one) { bad.push("x_hash".into()) }
    for i in 0..l {
        let mut ch2 = ch.clone();
        ch2[idx[i]] ^= 1;
        if go(key, m, &ch2, &idx, xh) { bad.push(format!("yn{}", i)) }
    }
    println!("wire_tampered_accepted {}", if bad.is_empty() { "none".to_string() } else { bad.join(",") });
}
