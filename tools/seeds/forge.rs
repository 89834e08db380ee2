// Looks for an assignment that satisfies every constraint of a circuit, keeps
// the given secrets, and publishes something else than the honest run.
#![allow(dead_code, unused_imports)]
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, BigInteger256, Field, One, UniformRand, Zero};
use ark_relations::r1cs::*;
use ark_std::test_rng;
use std::collections::HashMap;

type Row = [Vec<(Fr, usize)>; 3];
fn rows<C: ConstraintSynthesizer<Fr>>(c: C) -> (Vec<Row>, usize, usize) {
    let cs = ConstraintSystem::<Fr>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    cs.set_mode(SynthesisMode::Setup);
    c.generate_constraints(cs.clone()).unwrap();
    cs.finalize();
    let m = cs.to_matrices().unwrap();
    let r = (0..m.a.len()).map(|i| [m.a[i].clone(), m.b[i].clone(), m.c[i].clone()]).collect();
    (r, m.num_instance_variables, m.num_instance_variables + m.num_witness_variables)
}
fn honest<C: ConstraintSynthesizer<Fr>>(c: C) -> Vec<Fr> {
    let cs = ConstraintSystem::<Fr>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    c.generate_constraints(cs.clone()).unwrap();
    cs.finalize();
    let b = cs.borrow().unwrap();
    [b.instance_assignment.clone(), b.witness_assignment.clone()].concat()
}
fn lc(p: &[(Fr, usize)], v: &[Fr]) -> Fr {
    p.iter().map(|(c, i)| *c * v[*i]).sum()
}
fn satisfied(r: &[Row], v: &[Fr]) -> bool {
    r.iter().all(|x| lc(&x[0], v) * lc(&x[1], v) == lc(&x[2], v))
}
/// completes `fixed` using rows with one linear unknown, then honest values
fn complete(r: &[Row], fixed: &HashMap<usize, Fr>, hon: &[Fr]) -> Vec<Fr> {
    let n = hon.len();
    let mut v = vec![Fr::zero(); n];
    let mut known = vec![false; n];
    v[0] = Fr::one();
    known[0] = true;
    for (i, x) in fixed { v[*i] = *x; known[*i] = true; }
    loop {
        let mut progress = true;
        while progress {
            progress = false;
            for x in r {
                let mut u = None;
                let mut many = false;
                for p in x.iter() { for (_, i) in p {
                    if !known[*i] { match u { None => u = Some(*i), Some(j) if j == *i => {}, _ => many = true } }
                } }
                if many || u.is_none() { continue; }
                let u = u.unwrap();
                let co = |p: &Vec<(Fr, usize)>| {
                    let (mut k, mut s) = (Fr::zero(), Fr::zero());
                    for (c, i) in p { if *i == u { s += c } else { k += *c * v[*i] } }
                    (k, s)
                };
                let (a, b, c) = (co(&x[0]), co(&x[1]), co(&x[2]));
                if !(a.1 * b.1).is_zero() { continue; }
                let q1 = a.0 * b.1 + a.1 * b.0 - c.1;
                if q1.is_zero() { continue; }
                v[u] = (c.0 - a.0 * b.0) / q1;
                known[u] = true;
                progress = true;
            }
        }
        match (0..n).rev().filter(|i| !known[*i]).min_by_key(|i| (*i < 3, *i)) { Some(i) => { v[i] = hon[i]; known[i] = true; } None => break }
    }
    v
}
/// Some(assignment) when one changed variable lets the circuit publish a lie
fn forge(r: &[Row], ninst: usize, hon: &[Fr], secrets: &[Fr]) -> Option<Vec<Fr>> {
    let carriers: Vec<usize> = secrets.iter().map(|s| (1..hon.len()).find(|i| hon[*i] == *s).unwrap()).collect();
    let mut fixed: HashMap<usize, Fr> = carriers.iter().map(|i| (*i, hon[*i])).collect();
    for d in 1..hon.len() {
        if carriers.contains(&d) { continue; }
        fixed.insert(d, hon[d] + Fr::from(1u64));
        let v = complete(r, &fixed, hon);
        fixed.remove(&d);
        if satisfied(r, &v) && v[1..ninst] != hon[1..ninst] { return Some(v); }
    }
    None
}
