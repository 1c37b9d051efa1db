//! Consistent hash builders, from excellent to terrible, behind one type.
use crate::rng::{Rng, mix};
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Good,
    Zero,
    Ones,
    LowBits,
    HighBits,
    Identity,
    Sequence,
    Shifted,
    Pairs,
}

pub const KINDS: &[Kind] = &[
    Kind::Good,
    Kind::Zero,
    Kind::Ones,
    Kind::LowBits,
    Kind::HighBits,
    Kind::Identity,
    Kind::Sequence,
    Kind::Shifted,
    Kind::Pairs,
];

#[derive(Clone, Debug)]
pub struct DynBH {
    pub kind: Kind,
    pub seed: u64,
}

impl Default for DynBH {
    fn default() -> Self {
        Self { kind: Kind::Good, seed: 7 }
    }
}

impl DynBH {
    pub fn pick(rng: &mut Rng, n: usize) -> Self {
        let kind = if n > 600 {
            *rng.pick(&[Kind::Good, Kind::Good, Kind::Identity, Kind::Sequence, Kind::Pairs])
        } else if rng.chance(1, 3) {
            Kind::Good
        } else {
            *rng.pick(KINDS)
        };
        Self { kind, seed: rng.u64() }
    }
}

pub struct DynH {
    kind: Kind,
    state: u64,
    raw: u64,
}

impl Hasher for DynH {
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            let x = u64::from_le_bytes(b);
            self.state = mix(self.state, x ^ (c.len() as u64) << 56);
            self.raw = self.raw.wrapping_mul(31).wrapping_add(x);
        }
    }
    fn finish(&self) -> u64 {
        let g = mix(self.state, 99);
        match self.kind {
            Kind::Good => g,
            Kind::Zero => 0,
            Kind::Ones => u64::MAX,
            Kind::LowBits => g & 7,
            Kind::HighBits => g << 48,
            Kind::Identity => self.raw,
            Kind::Sequence => self.raw.wrapping_mul(3),
            Kind::Shifted => self.raw << 8,
            Kind::Pairs => g & !1,
        }
    }
}

impl BuildHasher for DynBH {
    type Hasher = DynH;
    fn build_hasher(&self) -> DynH {
        DynH {
            kind: self.kind,
            state: self.seed,
            raw: 0,
        }
    }
}
