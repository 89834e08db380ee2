//! Stand-in for `sha2` in executor runs: an arbitrary injective function of
//! the bytes (first eight bytes of the output; the others 0).
pub mod digest {
    pub trait FixedOutput: crate::Digest { fn finalize_fixed(self) -> <Self as crate::Digest>::Out { self.finalize() } }
    pub use crate::Digest;
}
pub trait Digest: Sized {
    type Out;
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn finalize(self) -> Self::Out;
    fn digest(d: impl AsRef<[u8]>) -> Self::Out { let mut h = Self::new(); h.update(d); h.finalize() }
}
macro_rules! algo { ($t:ident, $tag:expr, $n:expr) => {
    #[derive(Clone, Default)]
    pub struct $t(Vec<u8>);
    impl Digest for $t {
        type Out = [u8; $n];
        fn new() -> Self { $t(vec![]) }
        fn update(&mut self, d: impl AsRef<[u8]>) { self.0.extend_from_slice(d.as_ref()) }
        fn finalize(self) -> [u8; $n] {
            let mut h = [0u8; 32];
            ndlib::model::hash($tag, &self.0, &mut h);
            let mut r = [0u8; $n];
            r[..8].copy_from_slice(&h[..8]);
            r
        }
    }
    impl digest::FixedOutput for $t {}
} }
algo!(Sha256, 2, 32);
algo!(Sha384, 3, 48);
algo!(Sha512, 4, 64);
