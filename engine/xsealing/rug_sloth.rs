//! In the sealing checks the delay function is an arbitrary permutation of
//! 0..p, one for each number of rounds (that the real one is one: the checks
//! of the delay function).
#[path = "rug_sloth_orig.rs"]
pub mod orig;
pub use self::orig::*;
use rug::Integer;
/// the sealing checks use two-byte units: the modulus the drivers choose
/// (which one they choose for which unit length: the checks of public data)
pub const P_512: &str = "65536";
pub const P_1024: &str = "65536";
pub const P_2048: &str = "65536";

fn word(x: &Integer) -> u64 {
    match x.to_u64() {
        Some(v) => v,
        None => { ndlib::unsupported("wide value"); 0 }
    }
}
pub fn sloth(y: &Integer, p: &Integer, t: usize) -> Integer {
    if t == 0 { return y.clone(); }
    Integer::from(ndlib::model::enc(t as u64, word(y), word(p)))
}
pub fn sloth_inv(y: &Integer, p: &Integer, t: usize) -> Integer {
    if t == 0 { return y.clone(); }
    Integer::from(ndlib::model::dec(t as u64, word(y), word(p)))
}
