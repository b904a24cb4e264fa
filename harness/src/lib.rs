//! Shared monitor framework and independent oracles for the Kogarashi checks.
pub mod ate;
pub mod big;
pub mod circ;
pub mod curve;
pub mod ext;
pub mod g16;
pub mod gadgets;
pub mod jub;
pub mod mon;
pub mod nova;
pub mod pts;
pub mod work;
pub mod prelude {
    pub use crate::ate::*;
    pub use crate::big::*;
    pub use crate::circ::*;
    pub use crate::curve::*;
    pub use crate::ext::*;
    pub use crate::gadgets::*;
    pub use crate::mon::*;
    pub use crate::pts::*;
    pub use num_bigint::BigUint;
    pub use num_traits::{One, Zero};
    pub use rand_chacha::ChaCha20Rng;
    pub use rand_core::{RngCore, SeedableRng};
}
