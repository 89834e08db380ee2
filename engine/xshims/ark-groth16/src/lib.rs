//! Stand-in for ark-groth16 in executor runs: an ideal proof check with a scripted
//! verdict that records the statement it was asked about.
use ark_ec::PairingEngine;
use ark_relations::r1cs::*;
use kfield::Fr;
use std::marker::PhantomData;
pub const ICAP: usize = 128;
pub static mut VERDICT: u8 = 0;
pub static mut VK: usize = 0;
pub static mut PROOF: usize = 0;
pub static mut INPUTS: [u64; ICAP] = [0; ICAP];
pub static mut NINPUTS: usize = 0;
pub static mut CALLS: usize = 0;

pub struct VerifyingKey<E>(pub usize, pub PhantomData<E>);
impl<E> Clone for VerifyingKey<E> { fn clone(&self) -> Self { VerifyingKey(self.0, PhantomData) } }
pub struct ProvingKey<E> { pub vk: VerifyingKey<E> }
impl<E> Clone for ProvingKey<E> { fn clone(&self) -> Self { ProvingKey { vk: self.vk.clone() } } }
pub struct PreparedVerifyingKey<E> { pub vk: VerifyingKey<E> }
impl<E> Clone for PreparedVerifyingKey<E> { fn clone(&self) -> Self { PreparedVerifyingKey { vk: self.vk.clone() } } }
pub struct Proof<E>(pub usize, pub PhantomData<E>);
impl<E> Clone for Proof<E> { fn clone(&self) -> Self { Proof(self.0, PhantomData) } }

pub fn generate_random_parameters<E, C, R>(_c: C, _rng: &mut R) -> Result<ProvingKey<E>>
where E: PairingEngine<Fr = Fr>, C: ConstraintSynthesizer<Fr> {
    Ok(ProvingKey { vk: VerifyingKey(1, PhantomData) })
}
pub fn create_random_proof<E, C, R>(_c: C, _pk: &ProvingKey<E>, _rng: &mut R) -> Result<Proof<E>>
where E: PairingEngine<Fr = Fr>, C: ConstraintSynthesizer<Fr> {
    Ok(Proof(1, PhantomData))
}
pub fn create_proof_no_zk<E, C>(c: C, pk: &ProvingKey<E>) -> Result<Proof<E>>
where E: PairingEngine<Fr = Fr>, C: ConstraintSynthesizer<Fr> {
    create_random_proof(c, pk, &mut ())
}
pub fn prepare_verifying_key<E: PairingEngine>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> {
    PreparedVerifyingKey { vk: VerifyingKey(vk.0, PhantomData) }
}
pub fn verify_proof<E: PairingEngine<Fr = Fr>>(pvk: &PreparedVerifyingKey<E>, proof: &Proof<E>, inputs: &[Fr]) -> Result<bool> {
    unsafe {
        CALLS += 1;
        VK = pvk.vk.0;
        PROOF = proof.0;
        NINPUTS = inputs.len();
        let mut i = 0;
        while i < inputs.len() && i < ICAP {
            INPUTS[i] = inputs[i].0;
            i += 1;
        }
        match VERDICT {
            0 => Ok(true),
            1 => Ok(false),
            _ => Err(SynthesisError::MalformedVerifyingKey),
        }
    }
}
