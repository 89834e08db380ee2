pub use realff::*;
pub use kfield::bigint::{BigInteger, BigInteger256};
