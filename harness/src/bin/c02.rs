//! C02: sets built at run time against the set of the supplied values.
use fzmon::adapt::*;
use fzmon::ctx::Ctx;
use fzmon::hashers::DynBH;
use fzmon::keys::*;
use fzmon::model::*;
use fzmon::*;
use frozen_collections::*;
use std::collections::BTreeSet;

fn max_len(cx: &mut Ctx) -> usize {
    if cx.thorough { if cx.rng.chance(1, 60) { 70_000 } else { 5000 } } else if cx.rng.chance(1, 25) { 4200 } else { 700 }
}

fn keyed(cx: &mut Ctx) {
    let pick = cx.rng.u64();
    macro_rules! case {
        ($K:ty, $Q:ty, $V:ty) => {{
            let max = max_len(cx);
            let n = size(&mut cx.rng, max);
            let (e, shape) = <$K as Key>::list(&mut cx.rng, n);
            let md: BTreeSet<$K> = e.iter().cloned().collect();
            let bh = DynBH::pick(&mut cx.rng, n);
            cx.describe(format!("{} as {} shape={shape} n={} distinct={} hasher={:?}", stringify!($K), stringify!($Q), e.len(), md.len(), bh.kind));
            let present: Vec<$K> = md.iter().cloned().collect();
            let np = 20 + n.min(60);
            let probes = <$K>::probes(&mut cx.rng, &present, np);
            hash_sets!($K, e, bh, |name, m| {
                audit_set::<$K, $Q>(cx, name, &In(m), &md, &probes);
            });
            ord_sets!($K, e, |name, m| {
                audit_set::<$K, $Q>(cx, name, &In(m), &md, &probes);
            });
            // from a map with unit values, and through the other constructors
            let units: Vec<($K, ())> = e.iter().map(|x| (x.clone(), ())).collect();
            match cx.rng.below(4) {
                0 => audit_set::<$K, $Q>(cx, "FzHashSet(from map)", &In(FzHashSet::<$K>::from(FzHashMap::<$K, ()>::new(units))), &md, &probes),
                1 => audit_set::<$K, $Q>(cx, "FzOrderedSet(from map)", &In(FzOrderedSet::<$K>::from(FzOrderedMap::new(units))), &md, &probes),
                2 => audit_set::<$K, $Q>(cx, "FzHashSet(collected)", &In(e.iter().cloned().collect::<FzHashSet<$K>>()), &md, &probes),
                _ => audit_set::<$K, $Q>(cx, "FzOrderedSet(collected)", &In(e.iter().cloned().collect::<FzOrderedSet<$K>>()), &md, &probes),
            }
            cx.sample(|| format!("{shape}: {:?}", e.iter().take(12).collect::<Vec<_>>()));
        }};
    }
    dispatch_keys!(pick, case);
}

fn scalar(cx: &mut Ctx) {
    let pick = cx.rng.u64();
    macro_rules! case {
        ($K:ty) => {{
            let max = max_len(cx);
            let n = size(&mut cx.rng, max);
            let (e, shape) = <$K as Key>::list(&mut cx.rng, n);
            let md: BTreeSet<$K> = e.iter().cloned().collect();
            cx.describe(format!("scalar {} shape={shape} n={} distinct={}", stringify!($K), e.len(), md.len()));
            let present: Vec<$K> = md.iter().cloned().collect();
            let np = 20 + n.min(60);
            let probes = <$K>::probes(&mut cx.rng, &present, np);
            scalar_sets!($K, e, |name, m| {
                audit_set::<$K, $K>(cx, name, &In(m), &md, &probes);
            });
            if cx.rng.chance(1, 2) {
                let units: Vec<($K, ())> = e.iter().map(|x| (x.clone(), ())).collect();
                audit_set::<$K, $K>(cx, "FzScalarSet(from map)", &In(FzScalarSet::<$K>::from(FzScalarMap::new(units))), &md, &probes);
            } else {
                audit_set::<$K, $K>(cx, "FzScalarSet(collected)", &In(e.iter().cloned().collect::<FzScalarSet<$K>>()), &md, &probes);
            }
            cx.sample(|| format!("scalar {shape}: {:?}", e.iter().take(12).collect::<Vec<_>>()));
        }};
    }
    dispatch_scalars!(pick, case);
}

fn string(cx: &mut Ctx) {
    let max = max_len(cx);
    let n = size(&mut cx.rng, max);
    let (e, shape) = Box::<str>::list(&mut cx.rng, n);
    let md: BTreeSet<Box<str>> = e.iter().cloned().collect();
    let bh = DynBH::pick(&mut cx.rng, n);
    cx.describe(format!("string shape={shape} n={} distinct={} hasher={:?}", e.len(), md.len(), bh.kind));
    let present: Vec<Box<str>> = md.iter().cloned().collect();
    let np = 20 + n.min(60);
    let probes = Box::<str>::probes(&mut cx.rng, &present, np);
    string_sets!(e, bh, |name, m| {
        audit_set::<Box<str>, str>(cx, name, &In(m), &md, &probes);
    });
    if cx.rng.chance(1, 2) {
        let units: Vec<(Box<str>, ())> = e.iter().map(|x| (x.clone(), ())).collect();
        audit_set::<Box<str>, str>(cx, "FzStringSet(from map)", &In(FzStringSet::<Box<str>>::from(FzStringMap::new(units))), &md, &probes);
    } else {
        let s: FzStringSet<Box<str>> = e.iter().map(|x| x.to_string()).collect();
        audit_set::<Box<str>, String>(cx, "FzStringSet(collected)", &In(s), &md, &probes);
    }
    cx.sample(|| format!("string {shape}: {:?}", e.iter().take(8).collect::<Vec<_>>()));
}

/// Sizes around and beyond 16 bits.
fn big(cx: &mut Ctx, i: u64) {
    let n = [65_534, 65_535, 65_536, 65_537, 66_000, 70_001, 80_000, 131_073][i as usize];
    let salt = cx.rng.u64();
    let e: Vec<u64> = (0..n).map(|x: u64| if i % 2 == 0 { x.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ salt } else { x * 3 }).collect();
    let bh = DynBH { kind: fzmon::hashers::Kind::Good, seed: salt };
    cx.describe(format!("big n={n} salt={salt:x}"));
    let md: BTreeSet<u64> = e.iter().cloned().collect();
    let probes = u64::probes(&mut cx.rng, &e, 500);
    hash_sets!(u64, e, bh, |name, m| {
        audit_set::<u64, u64>(cx, name, &In(m), &md, &probes);
    });
    ord_sets!(u64, e, |name, m| {
        audit_set::<u64, u64>(cx, name, &In(m), &md, &probes);
    });
    #[cfg(target_pointer_width = "64")]
    scalar_sets!(u64, e, |name, m| {
        audit_set::<u64, u64>(cx, name, &In(m), &md, &probes);
    });
    let es: Vec<Box<str>> = e
        .iter()
        .map(|k| match i % 3 {
            0 => format!("{k:x}-suffix").into(),
            1 => format!("prefix-prefix-prefix{k:016x}").into(),
            _ => format!("{:x}{:0>30}{}", k & 0xff, "", k >> 8).into(),
        })
        .collect();
    let mds: BTreeSet<Box<str>> = es.iter().cloned().collect();
    let probes = Box::<str>::probes(&mut cx.rng, &es, 500);
    string_sets!(es, bh, |name, m| {
        audit_set::<Box<str>, str>(cx, name, &In(m), &mds, &probes);
    });
    cx.ev("big sets", 1);
}

fn main() {
    let mut cx = Ctx::from_args();
    for i in 0..8 {
        if i % cx.shards == cx.shard && !cfg!(miri) {
            cx.run(|cx| big(cx, i));
        }
    }
    let n = cx.n(60_000);
    for i in 0..n {
        match i % 3 {
            0 => cx.run(keyed),
            1 => cx.run(scalar),
            _ => cx.run(string),
        }
    }
    cx.finish();
}
