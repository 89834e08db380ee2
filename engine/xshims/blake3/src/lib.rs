//! Stand-in for `blake3` in executor runs: an arbitrary function of the bytes;
//! the first ndlib::model::HASH_BYTES bytes of the output are arbitrary, the
//! others 0.
#[derive(Clone, Default)]
pub struct Hasher(Vec<u8>);
pub const OUT_LEN: usize = 32;
#[derive(Clone, Copy, Debug)]
pub struct Hash([u8; 32]);
impl PartialEq for Hash { fn eq(&self, o: &Hash) -> bool { self.0 == o.0 } }
impl Eq for Hash {}
impl Hash {
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub fn as_slice(&self) -> &[u8] { &self.0 }
}
impl From<Hash> for [u8; 32] { fn from(h: Hash) -> [u8; 32] { h.0 } }
impl Hasher {
    pub fn new() -> Hasher { Hasher(vec![]) }
    pub fn update(&mut self, d: &[u8]) -> &mut Hasher {
        self.0.extend_from_slice(d);
        self
    }
    pub fn reset(&mut self) -> &mut Hasher { self.0.clear(); self }
    pub fn finalize(&self) -> Hash { hash(&self.0) }
}
pub fn hash(d: &[u8]) -> Hash {
    let mut r = [0u8; 32];
    ndlib::model::hash(1, d, &mut r);
    Hash(r)
}
