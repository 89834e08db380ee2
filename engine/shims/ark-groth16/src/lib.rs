//! Stand-in for ark-groth16 in symbolic runs.  The proof system is idealised:
//! parameters are the synthesised constraint matrices, a proof is the full
//! (symbolic) assignment, and every call is recorded for the checks.
use ark_ec::PairingEngine;
use ark_relations::r1cs::*;
use std::cell::RefCell;
use std::marker::PhantomData;
use symfield::SymF;

pub type Row = Vec<(u32, usize)>;
#[derive(Clone, Default)]
pub struct Mats {
    pub ninst: usize,
    pub nwit: usize,
    pub a: Vec<Row>,
    pub b: Vec<Row>,
    pub c: Vec<Row>,
}
#[derive(Clone, Default)]
pub struct Synth {
    pub mats: Mats,
    pub inst: Vec<u32>,
    pub wit: Vec<u32>,
}
#[derive(Clone)]
pub struct VerifyingKey<E>(pub usize, PhantomData<E>);
impl<E> Default for VerifyingKey<E> {
    fn default() -> Self {
        VerifyingKey(0, PhantomData)
    }
}
#[derive(Clone)]
pub struct ProvingKey<E> {
    pub vk: VerifyingKey<E>,
}
#[derive(Clone)]
pub struct PreparedVerifyingKey<E> {
    pub vk: VerifyingKey<E>,
}
#[derive(Clone)]
pub struct Proof<E>(pub usize, PhantomData<E>);
impl<E> Default for Proof<E> {
    fn default() -> Self {
        Proof(0, PhantomData)
    }
}

#[derive(Clone, Default)]
pub struct Log {
    pub setups: Vec<Synth>,
    pub proofs: Vec<(usize, Synth)>,
    pub verifies: Vec<(usize, usize, Vec<u32>)>,
    pub verdict: u8,
}
thread_local! { pub static LOG: RefCell<Log> = RefCell::new(Log::default()); }
/// 0: Ok(true), 1: Ok(false), 2: Err
pub fn script_verdict(v: u8) {
    LOG.with(|l| {
        *l.borrow_mut() = Log::default();
        l.borrow_mut().verdict = v
    })
}

pub fn synth<C: ConstraintSynthesizer<SymF>>(circuit: C, setup: bool) -> Result<Synth> {
    let cs = ConstraintSystem::<SymF>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    if setup {
        cs.set_mode(SynthesisMode::Setup);
    } else {
        cs.set_mode(SynthesisMode::Prove { construct_matrices: true });
    }
    circuit.generate_constraints(cs.clone())?;
    symfield::set_quiet(true);
    cs.finalize();
    let m = cs.to_matrices().unwrap();
    symfield::set_quiet(false);
    let conv = |v: &Vec<Vec<(SymF, usize)>>| {
        v.iter().map(|r| r.iter().map(|(c, i)| (c.0, *i)).collect()).collect::<Vec<Row>>()
    };
    let mats = Mats {
        ninst: m.num_instance_variables,
        nwit: m.num_witness_variables,
        a: conv(&m.a),
        b: conv(&m.b),
        c: conv(&m.c),
    };
    let (mut inst, mut wit) = (vec![], vec![]);
    if !setup {
        let b = cs.borrow().unwrap();
        inst = b.instance_assignment.iter().map(|x| x.0).collect();
        wit = b.witness_assignment.iter().map(|x| x.0).collect();
    }
    Ok(Synth { mats, inst, wit })
}
pub fn generate_random_parameters<E, C, R>(circuit: C, _rng: &mut R) -> Result<ProvingKey<E>>
where
    E: PairingEngine<Fr = SymF>,
    C: ConstraintSynthesizer<SymF>,
{
    let s = synth(circuit, true)?;
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.setups.push(s);
        Ok(ProvingKey { vk: VerifyingKey(l.setups.len() - 1, PhantomData) })
    })
}
pub fn create_random_proof<E, C, R>(circuit: C, pk: &ProvingKey<E>, _rng: &mut R) -> Result<Proof<E>>
where
    E: PairingEngine<Fr = SymF>,
    C: ConstraintSynthesizer<SymF>,
{
    let s = synth(circuit, false)?;
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.proofs.push((pk.vk.0, s));
        Ok(Proof(l.proofs.len() - 1, PhantomData))
    })
}
pub fn create_proof_no_zk<E, C>(circuit: C, pk: &ProvingKey<E>) -> Result<Proof<E>>
where
    E: PairingEngine<Fr = SymF>,
    C: ConstraintSynthesizer<SymF>,
{
    create_random_proof(circuit, pk, &mut ())
}
pub fn prepare_verifying_key<E: PairingEngine>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> {
    PreparedVerifyingKey { vk: VerifyingKey(vk.0, PhantomData) }
}
pub fn verify_proof<E: PairingEngine<Fr = SymF>>(
    pvk: &PreparedVerifyingKey<E>,
    proof: &Proof<E>,
    inputs: &[SymF],
) -> Result<bool> {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.verifies.push((pvk.vk.0, proof.0, inputs.iter().map(|x| x.0).collect()));
        match l.verdict {
            0 => Ok(true),
            1 => Ok(false),
            _ => Err(SynthesisError::MalformedVerifyingKey),
        }
    })
}
