//! C06: changing values.
use fzmon::adapt::*;
use fzmon::ctx::{Ctx, panics};
use fzmon::hashers::DynBH;
use fzmon::keys::*;
use fzmon::model::*;
use fzmon::monitors::*;
use fzmon::*;
use fzmon::fam::Probe;
use std::collections::BTreeMap;

fn steps(n: usize) -> usize {
    if n > 200 { 5 } else { 14 }
}

fn keyed(cx: &mut Ctx) {
    let pick = cx.rng.u64();
    macro_rules! case {
        ($K:ty, $Q:ty, $V:ty) => {{
            let n = size(&mut cx.rng, 300);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, $V)> = entries(keys);
            let md = model(&e);
            let bh = DynBH::pick(&mut cx.rng, n);
            cx.describe(format!("{} as {} shape={shape} n={} distinct={} hasher={:?}", stringify!($K), stringify!($Q), e.len(), md.len(), bh.kind));
            let present: Vec<$K> = md.keys().cloned().collect();
            let probes = <$K>::probes(&mut cx.rng, &present, 20);
            hash_maps!($K, $V, e, bh, md.len(), |name, m| {
                change::<$K, $Q, $V>(cx, name, &mut In(m), &md, &probes, steps(n));
            });
            ord_maps!($K, $V, e, |name, m| {
                change::<$K, $Q, $V>(cx, name, &mut In(m), &md, &probes, steps(n));
            });
            cx.sample(|| format!("{shape}: {:?}", e.iter().map(|x| &x.0).take(12).collect::<Vec<_>>()));
        }};
    }
    match pick % 8 {
        0 => case!(u64, u64, u64),
        1 => case!(String, str, String),
        2 => case!(Vec<u8>, [u8], Box<u64>),
        3 => case!(Pt, PtRef, u64),
        4 => case!(Ci, Ci, u64),
        5 => case!(Coarse, Coarse, u64),
        6 => case!((), (), u64),
        _ => case!(Fat, Fat, (u8, [u64; 4])),
    }
}

fn scalar(cx: &mut Ctx) {
    let pick = cx.rng.u64();
    macro_rules! case {
        ($K:ty, $V:ty) => {{
            let n = size(&mut cx.rng, 300);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, $V)> = entries(keys);
            let md = model(&e);
            cx.describe(format!("scalar {} shape={shape} n={} distinct={}", stringify!($K), e.len(), md.len()));
            let present: Vec<$K> = md.keys().cloned().collect();
            let probes = <$K>::probes(&mut cx.rng, &present, 20);
            scalar_maps!($K, $V, e, |name, m| {
                change::<$K, $K, $V>(cx, name, &mut In(m), &md, &probes, steps(n));
            });
            cx.sample(|| format!("scalar {shape}: {:?}", e.iter().map(|x| &x.0).take(12).collect::<Vec<_>>()));
        }};
    }
    match pick % 6 {
        0 => case!(u8, u64),
        1 => case!(i16, String),
        2 => case!(i32, u64),
        3 => case!(WideU, Box<u64>),
        4 => case!(WideNzI, u64),
        _ => case!(Hue, u64),
    }
}

fn string(cx: &mut Ctx) {
    let n = size(&mut cx.rng, 300);
    let (keys, shape) = Box::<str>::list(&mut cx.rng, n);
    let e: Vec<(Box<str>, u64)> = entries(keys);
    let md = model(&e);
    let bh = DynBH::pick(&mut cx.rng, n);
    cx.describe(format!("string shape={shape} n={} distinct={} hasher={:?}", e.len(), md.len(), bh.kind));
    let present: Vec<Box<str>> = md.keys().cloned().collect();
    let probes = Box::<str>::probes(&mut cx.rng, &present, 20);
    string_maps!(u64, e, bh, |name, m| {
        change::<Box<str>, str, u64>(cx, name, &mut In(m), &md, &probes, steps(n));
    });
}

#[cfg(feature = "fixture")]
mod fixture {
    use super::*;
    macro_rules! visit_map {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty, $V:ty) => {
            $cx.run(|cx| {
                cx.describe($desc.into());
                let e: Vec<($K, $V)> = $e;
                let md = model(&e);
                let present: Vec<$K> = md.keys().cloned().collect();
                let probes = <$K>::probes(&mut cx.rng, &present, 20);
                let m = $m;
                for _ in 0..6 {
                    change::<$K, $Q, $V>(cx, "inline map", &mut In(m.clone()), &md, &probes, 14);
                }
                cx.ev("inline collections", 1);
            });
        };
    }
    macro_rules! visit_set {
        ($cx:ident, $($x:tt)*) => { let _ = $cx; };
    }
    include!(env!("FZMON_FIXTURE"));
}

/// Maps of thousands of entries, where the tables have other sizes.
fn large(cx: &mut Ctx) {
    fn go<K: Probe<Q>, Q: ?Sized>(cx: &mut Ctx, name: &str, m: &mut dyn MapChange<K, Q, u64>, md: &BTreeMap<K, u64>, probes: &[K]) {
        for p in probes {
            if !md.contains_key(p) {
                p.with(|q| {
                    let g = m.get_mut(q);
                    cx.check(g.is_none(), || format!("{name} of {}: get_mut({p:?}) = {g:?}, expected None", md.len()));
                });
            }
        }
        let mut want = md.clone();
        for (i, (k, w)) in want.iter_mut().enumerate() {
            if i % 3 != 0 {
                continue;
            }
            k.with(|q| {
                let g = m.get_mut(q);
                cx.check(g.as_deref() == Some(&*w), || format!("{name} of {}: get_mut({k:?}) = {g:?}, expected {w}", md.len()));
                if let Some(g) = g {
                    *g += 1_000_000_007;
                    *w += 1_000_000_007;
                }
            });
        }
        let mut all: Vec<(K, u64)> = m.entries().into_iter().map(|(k, v)| (k.clone(), *v)).collect();
        all.sort();
        cx.check(all.len() == want.len() && all.iter().zip(&want).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1), || format!("{name} of {}: other entries changed", md.len()));
        change::<K, Q, u64>(cx, name, m, &want, probes, 5);
        cx.ev("large maps", 1);
        cx.ev("changes", md.len() as u64 / 3);
    }
    let n = *cx.rng.pick(&[400, 700, 1100, 1700, 2100, 4200]) + cx.rng.idx(40);
    macro_rules! case {
        ($K:ty, $Q:ty) => {{
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, u64)> = entries(keys);
            let md = model(&e);
            let mut bh = DynBH::pick(&mut cx.rng, n);
            bh.kind = fzmon::hashers::Kind::Good;
            cx.describe(format!("large {} shape={shape} n={}", stringify!($K), md.len()));
            let present: Vec<$K> = md.keys().cloned().collect();
            let probes = <$K>::probes(&mut cx.rng, &present, 600);
            (e, md, bh, probes)
        }};
    }
    match cx.rng.below(3) {
        0 => {
            let (e, md, bh, probes) = case!(u64, u64);
            hash_maps!(u64, u64, e, bh, md.len(), |name, m| {
                go::<u64, u64>(cx, name, &mut In(m), &md, &probes);
            });
            { let m = frozen_collections::FzOrderedMap::<u64, u64>::new(e.clone()); go::<u64, u64>(cx, "FzOrderedMap", &mut In(m), &md, &probes); }
        }
        1 => {
            let (e, md, bh, probes) = case!(Box<str>, str);
            string_maps!(u64, e, bh, |name, m| {
                go::<Box<str>, str>(cx, name, &mut In(m), &md, &probes);
            });
        }
        _ => {
            let (e, md, _, probes) = case!(i32, i32);
            scalar_maps!(i32, u64, e, |name, m| {
                go::<i32, i32>(cx, name, &mut In(m), &md, &probes);
            });
        }
    }
}

/// Queries that differ from each other but select the same entry.
fn many_to_one(cx: &mut Ctx) {
    use equivalent::{Comparable, Equivalent};
    #[derive(PartialEq, Eq, Debug)]
    struct Loose(u64, u8);
    impl std::hash::Hash for Loose {
        fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
            self.0.hash(h);
        }
    }
    impl Equivalent<u64> for Loose {
        fn equivalent(&self, k: &u64) -> bool {
            self.0 == *k
        }
    }
    impl Comparable<u64> for Loose {
        fn compare(&self, k: &u64) -> std::cmp::Ordering {
            self.0.cmp(k)
        }
    }
    let n = size(&mut cx.rng, 60).max(1);
    let (keys, _) = u64::list(&mut cx.rng, n);
    let e: Vec<(u64, u64)> = entries(keys);
    if e.is_empty() {
        return;
    }
    cx.describe(format!("unequal queries for one entry, n={}", e.len()));
    let k = cx.rng.pick(&e).0;
    let other = e.iter().map(|x| x.0).find(|x| *x != k);
    macro_rules! go {
        ($name:expr, $m:expr) => {{
            let mut m = $m;
            let r = panics(|| m.get_disjoint_mut([&Loose(k, 1), &Loose(k, 2)]).into_iter().flatten().count());
            cx.check(r.is_err(), || format!("{}: two unequal queries for the entry {k} don't panic", $name));
            if let Some(o) = other {
                let r = panics(|| m.get_disjoint_mut([&Loose(k, 1), &Loose(o, 0), &Loose(k, 2)]).into_iter().flatten().count());
                cx.check(r.is_err(), || format!("{}: two unequal queries for the entry {k} don't panic", $name));
                let r = panics(|| m.get_disjoint_mut([&Loose(k, 1), &Loose(o, 1)]).into_iter().flatten().count());
                cx.check(r == Ok(2), || format!("{}: disjoint queries give {r:?}", $name));
            }
            cx.ev("unequal queries for one entry", 1);
        }};
    }
    go!("FzHashMap", frozen_collections::FzHashMap::<u64, u64>::new(e.clone()));
    go!("FzOrderedMap", frozen_collections::FzOrderedMap::<u64, u64>::new(e.clone()));
    go!("ScanMap", frozen_collections::maps::ScanMap::<u64, u64>::new(e.clone()));
    go!("EytzingerSearchMap", frozen_collections::maps::EytzingerSearchMap::<u64, u64>::new(e.clone()));
}

fn main() {
    let mut cx = Ctx::from_args();
    #[cfg(feature = "fixture")]
    fixture::run(&mut cx);
    let n = cx.n(24_000);
    for i in 0..n {
        if i % 160 == 7 {
            cx.run(large);
        }
        match i % 4 {
            0 => cx.run(keyed),
            1 => cx.run(scalar),
            2 => cx.run(string),
            _ => cx.run(many_to_one),
        }
    }
    cx.finish();
}
