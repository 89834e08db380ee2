pub use kfield::Fr;
#[derive(Clone, Copy)]
pub struct Parameters;
pub type Bls12_381 = ark_ec::bls12::Bls12<Parameters>;
