//! Stand-in for ark-bls12-381 in symbolic runs: `Fr` is the symbolic field.
pub use symfield::SymF as Fr;
#[derive(Clone, Copy)]
pub struct Parameters;
pub type Bls12_381 = ark_ec::bls12::Bls12<Parameters>;
