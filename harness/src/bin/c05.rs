//! C05: traversals.
use fzmon::adapt::*;
use fzmon::ctx::Ctx;
use fzmon::hashers::DynBH;
use fzmon::monitors::*;
use fzmon::keys::*;
use fzmon::model::*;
use fzmon::*;
use std::collections::BTreeSet;

macro_rules! maps_case {
    ($cx:ident, $K:ty, $V:ty, $family:ident ( $($arg:expr),* ), $md:ident) => {{
        let want: Vec<($K, $V)> = $md.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        $family!($K, $V, $($arg,)* |name, m| {
            walk_map::<$K, $V>($cx, name, &mut In(m), &want, true);
        });
    }};
}

fn keyed(cx: &mut Ctx) {
    let pick = cx.rng.u64();
    macro_rules! case {
        ($K:ty, $V:ty) => {{
            let n = size(&mut cx.rng, 300);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, $V)> = entries(keys.clone());
            let md = model(&e);
            let d = md.len();
            let bh = DynBH::pick(&mut cx.rng, n);
            cx.describe(format!("{} shape={shape} n={} distinct={d} hasher={:?}", stringify!($K), e.len(), bh.kind));
            maps_case!(cx, $K, $V, hash_maps(e, bh, d), md);
            maps_case!(cx, $K, $V, ord_maps(e), md);
            let want: Vec<$K> = keys.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect();
            hash_sets!($K, keys, bh, |name, m| {
                walk_set::<$K>(cx, name, &In(m), &want, true);
            });
            ord_sets!($K, keys, |name, m| {
                walk_set::<$K>(cx, name, &In(m), &want, true);
            });
            cx.sample(|| format!("{shape}: {:?}", e.iter().map(|x| &x.0).take(12).collect::<Vec<_>>()));
        }};
    }
    match pick % 5 {
        0 => case!(u64, u64),
        1 => case!(String, Box<u64>),
        2 => case!(Ci, u64),
        3 => case!((), ()),
        _ => case!(Fat, (u8, [u64; 4])),
    }
}

fn scalar(cx: &mut Ctx) {
    let pick = cx.rng.u64();
    macro_rules! case {
        ($K:ty) => {{
            let n = size(&mut cx.rng, 300);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, String)> = entries(keys.clone());
            let md = model(&e);
            cx.describe(format!("scalar {} shape={shape} n={} distinct={}", stringify!($K), e.len(), md.len()));
            maps_case!(cx, $K, String, scalar_maps(e), md);
            let want: Vec<$K> = md.keys().cloned().collect();
            scalar_sets!($K, keys, |name, m| {
                walk_set::<$K>(cx, name, &In(m), &want, true);
            });
            cx.sample(|| format!("scalar {shape}: {:?}", e.iter().map(|x| &x.0).take(12).collect::<Vec<_>>()));
        }};
    }
    match pick % 4 {
        0 => case!(u8),
        1 => case!(i32),
        2 => case!(WideI),
        _ => case!(std::num::NonZeroU16),
    }
}

fn string(cx: &mut Ctx) {
    let n = size(&mut cx.rng, 300);
    let (keys, shape) = Box::<str>::list(&mut cx.rng, n);
    let e: Vec<(Box<str>, u64)> = entries(keys.clone());
    let md = model(&e);
    let bh = DynBH::pick(&mut cx.rng, n);
    cx.describe(format!("string shape={shape} n={} distinct={} hasher={:?}", e.len(), md.len(), bh.kind));
    let want: Vec<(Box<str>, u64)> = md.iter().map(|(k, v)| (k.clone(), *v)).collect();
    string_maps!(u64, e, bh, |name, m| {
        walk_map::<Box<str>, u64>(cx, name, &mut In(m), &want, true);
    });
    let want: Vec<Box<str>> = md.keys().cloned().collect();
    string_sets!(keys, bh, |name, m| {
        walk_set::<Box<str>>(cx, name, &In(m), &want, true);
    });
}

#[cfg(feature = "fixture")]
mod fixture {
    use super::*;
    macro_rules! visit_map {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty, $V:ty) => {
            $cx.run(|cx| {
                cx.describe($desc.into());
                let e: Vec<($K, $V)> = $e;
                let want: Vec<($K, $V)> = model(&e).into_iter().collect();
                walk_map::<$K, $V>(cx, "inline map", &mut In($m), &want, true);
                cx.ev("inline collections", 1);
            });
        };
    }
    macro_rules! visit_set {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty) => {
            $cx.run(|cx| {
                cx.describe($desc.into());
                let e: Vec<$K> = $e;
                let want: Vec<$K> = e.into_iter().collect::<BTreeSet<_>>().into_iter().collect();
                walk_set::<$K>(cx, "inline set", &In($m), &want, true);
                cx.ev("inline collections", 1);
            });
        };
    }
    include!(env!("FZMON_FIXTURE"));
}

fn main() {
    let mut cx = Ctx::from_args();
    #[cfg(feature = "fixture")]
    fixture::run(&mut cx);
    let n = cx.n(1600);
    for i in 0..n {
        match i % 3 {
            0 => cx.run(keyed),
            1 => cx.run(scalar),
            _ => cx.run(string),
        }
    }
    cx.finish();
}
