//! Stand-in for ark-ec in symbolic runs: curve groups are not modelled.
pub trait PairingEngine: 'static + Copy + Clone {
    type Fr;
}
pub mod bls12 {
    #[derive(Clone, Copy)]
    pub struct Bls12<P>(pub std::marker::PhantomData<P>);
}
impl<P: 'static + Copy + Clone> PairingEngine for bls12::Bls12<P> {
    type Fr = symfield::SymF;
}
