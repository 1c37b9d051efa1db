//! What is checked of an emitted collection.
use fzmon::adapt::*;
use fzmon::ctx::Ctx;
use fzmon::fam::Probe;
use fzmon::keys::{Key, Val};
use fzmon::model::*;
use fzmon::monitors::*;
use std::collections::BTreeSet;

pub fn map_looks<K: Probe<Q>, Q: ?Sized, V: Val>(cx: &mut Ctx, mut m: impl MapLook<K, Q, V>, e: Vec<(K, V)>) {
    let md = model(&e);
    let present: Vec<K> = md.keys().cloned().collect();
    let probes = K::probes(&mut cx.rng, &present, 120);
    audit_map::<K, Q, V>(cx, "emitted map", &mut m, &md, &probes);
    cx.ev("emitted collections examined", 1);
}

pub fn map_changes<K: Probe<Q>, Q: ?Sized + Eq, V: Val>(cx: &mut Ctx, mut m: impl MapChange<K, Q, V>, e: Vec<(K, V)>) {
    let md = model(&e);
    let present: Vec<K> = md.keys().cloned().collect();
    let probes = K::probes(&mut cx.rng, &present, 60);
    audit_map::<K, Q, V>(cx, "emitted map", &mut m, &md, &probes);
    change::<K, Q, V>(cx, "emitted map", &mut m, &md, &probes, 20);
    cx.ev("emitted collections examined", 1);
    cx.ev("mutable collections", 1);
}

pub fn set_looks<T: Probe<Q>, Q: ?Sized>(cx: &mut Ctx, s: impl SetLook<T, Q>, e: Vec<T>) {
    let md: BTreeSet<T> = e.into_iter().collect();
    let present: Vec<T> = md.iter().cloned().collect();
    let probes = T::probes(&mut cx.rng, &present, 120);
    audit_set::<T, Q>(cx, "emitted set", &s, &md, &probes);
    cx.ev("emitted collections examined", 1);
}

/// Whether a name stands for what was emitted, rather than for the stand-in of that name further out.
pub fn seen<T>(_: &T) -> bool {
    seen_type::<T>()
}
pub fn seen_type<T>() -> bool {
    !std::any::type_name::<T>().ends_with("::Hidden")
}

pub fn visibility(cx: &mut Ctx, desc: &str, whence: &str, got: (bool, bool), want: (bool, bool)) {
    cx.run(|cx| {
        cx.describe(desc.into());
        let say = |x: (bool, bool)| format!("static {}, alias {}", if x.0 { "visible" } else { "not visible" }, if x.1 { "visible" } else { "not visible" });
        cx.check(got == want, || format!("seen from {whence}: {}, expected {}", say(got), say(want)));
        cx.ev("visibilities", 1);
    });
}
