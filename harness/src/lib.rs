//! Monitors for frozen-collections: see /verif/DESIGN.md.
#![allow(clippy::all)]
pub mod adapt;
pub mod ctx;
pub mod hashers;
pub mod iters;
pub mod hue;
pub mod keys;
pub mod rng;
pub mod fam;
pub mod meter;
pub mod model;
pub mod monitors;
