//! Runs the monitors over the emitted collections, and looks at them from another crate.
#![allow(warnings)]
use emitted::look;
use fzmon::ctx::Ctx;

include!(env!("FZMON_PROBES"));

fn main() {
    let mut cx = Ctx::from_args();
    emitted::run(&mut cx);
    outside(&mut cx);
    cx.finish();
}
