//! An enum deriving the scalar trait.
use crate::keys::Key;
use crate::rng::Rng;

/// An enum deriving the scalar trait.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, frozen_collections::Scalar)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum Hue {
    H0, H1, H2, H3, H4, H5, H6, H7, H8, H9, H10, H11, H12, H13, H14, H15, H16, H17, H18, H19, H20, H21, H22, H23,
}
pub const HUES: [Hue; 24] = {
    use Hue::*;
    [H0, H1, H2, H3, H4, H5, H6, H7, H8, H9, H10, H11, H12, H13, H14, H15, H16, H17, H18, H19, H20, H21, H22, H23]
};
impl Key for Hue {
    fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        ((0..n).map(|_| *rng.pick(&HUES)).collect(), "enum")
    }
    fn near(&self, rng: &mut Rng) -> Self {
        *rng.pick(&HUES)
    }
    fn random(rng: &mut Rng) -> Self {
        *rng.pick(&HUES)
    }
}
