//! The code the emitter produced, as a crate of its own.
#![allow(warnings)]
pub mod look;
use fzmon::adapt::In;
use fzmon::ctx::Ctx;

include!(env!("FZMON_EMITTED"));
