//! C01: maps built at run time against the last-wins dictionary.
use fzmon::adapt::*;
use fzmon::ctx::Ctx;
use fzmon::hashers::DynBH;
use fzmon::keys::*;
use fzmon::model::*;
use fzmon::*;

fn max_len(cx: &mut Ctx) -> usize {
    if cx.thorough { if cx.rng.chance(1, 60) { 70_000 } else { 5000 } } else if cx.rng.chance(1, 25) { 4200 } else { 700 }
}

fn keyed(cx: &mut Ctx) {
    let pick = cx.rng.u64();
    macro_rules! case {
        ($K:ty, $Q:ty, $V:ty) => {{
            let max = max_len(cx);
            let n = size(&mut cx.rng, max);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, $V)> = entries(keys);
            let md = model(&e);
            let bh = DynBH::pick(&mut cx.rng, n);
            cx.describe(format!("{} as {} shape={shape} n={} distinct={} hasher={:?}", stringify!($K), stringify!($Q), e.len(), md.len(), bh.kind));
            let present: Vec<$K> = md.keys().cloned().collect();
            let np = 20 + n.min(60);
            let probes = <$K>::probes(&mut cx.rng, &present, np);
            hash_maps!($K, $V, e, bh, md.len(), |name, m| {
                let mut m = In(m);
                audit_map::<$K, $Q, $V>(cx, name, &mut m, &md, &probes);
            });
            ord_maps!($K, $V, e, |name, m| {
                let mut m = In(m);
                audit_map::<$K, $Q, $V>(cx, name, &mut m, &md, &probes);
            });
            cx.sample(|| format!("{shape}: {:?}", e.iter().map(|x| &x.0).take(12).collect::<Vec<_>>()));
        }};
    }
    dispatch_keys!(pick, case);
}

fn scalar(cx: &mut Ctx) {
    let pick = cx.rng.u64();
    macro_rules! case {
        ($K:ty) => {{
            let max = max_len(cx);
            let n = size(&mut cx.rng, max);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, u64)> = entries(keys);
            let md = model(&e);
            cx.describe(format!("scalar {} shape={shape} n={} distinct={}", stringify!($K), e.len(), md.len()));
            let present: Vec<$K> = md.keys().cloned().collect();
            let np = 20 + n.min(60);
            let probes = <$K>::probes(&mut cx.rng, &present, np);
            scalar_maps!($K, u64, e, |name, m| {
                let mut m = In(m);
                audit_map::<$K, $K, u64>(cx, name, &mut m, &md, &probes);
            });
            cx.sample(|| format!("scalar {shape}: {:?}", e.iter().map(|x| &x.0).take(12).collect::<Vec<_>>()));
        }};
    }
    dispatch_scalars!(pick, case);
}

fn string(cx: &mut Ctx) {
    let max = max_len(cx);
    let n = size(&mut cx.rng, max);
    let (keys, shape) = Box::<str>::list(&mut cx.rng, n);
    let e: Vec<(Box<str>, u64)> = entries(keys);
    let md = model(&e);
    let bh = DynBH::pick(&mut cx.rng, n);
    cx.describe(format!("string shape={shape} n={} distinct={} hasher={:?}", e.len(), md.len(), bh.kind));
    let present: Vec<Box<str>> = md.keys().cloned().collect();
    let np = 20 + n.min(60);
    let probes = Box::<str>::probes(&mut cx.rng, &present, np);
    string_maps!(u64, e, bh, |name, m| {
        let mut m = In(m);
        audit_map::<Box<str>, str, u64>(cx, name, &mut m, &md, &probes);
    });
    let s: Vec<(String, u64)> = e.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let mut m = In(frozen_collections::FzStringMap::from_iter(s));
    let m: &mut In<frozen_collections::FzStringMap<Box<str>, u64>> = &mut m;
    audit_map::<Box<str>, String, u64>(cx, "FzStringMap(from String)", m, &md, &probes);
    cx.sample(|| format!("string {shape}: {:?}", e.iter().map(|x| &x.0).take(8).collect::<Vec<_>>()));
}

/// Sizes around and beyond 16 bits.
fn big(cx: &mut Ctx, i: u64) {
    let n = [65_534, 65_535, 65_536, 65_537, 66_000, 70_001, 80_000, 131_073][i as usize];
    let salt = cx.rng.u64();
    let keys: Vec<u64> = (0..n).map(|x: u64| if i % 2 == 0 { x.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ salt } else { x * 3 }).collect();
    let bh = DynBH { kind: fzmon::hashers::Kind::Good, seed: salt };
    cx.describe(format!("big n={n} salt={salt:x}"));
    let mut e: Vec<(u64, u64)> = entries(keys.clone());
    for _ in 0..20 {
        let k = keys[cx.rng.idx(keys.len())];
        e.push((k, e.len() as u64 + 1));
    }
    let md = model(&e);
    let probes = u64::probes(&mut cx.rng, &keys, 500);
    let d = md.len();
    hash_maps!(u64, u64, e, bh, d, |name, m| {
        let mut m = In(m);
        audit_map::<u64, u64, u64>(cx, name, &mut m, &md, &probes);
        let key = format!("big {name}");
        cx.ev(&key, 1);
    });
    {
        let mut m = In(frozen_collections::FzOrderedMap::<u64, u64>::new(e.clone()));
        audit_map::<u64, u64, u64>(cx, "FzOrderedMap", &mut m, &md, &probes);
    }
    #[cfg(target_pointer_width = "64")]
    scalar_maps!(u64, u64, e, |name, m| {
        let mut m = In(m);
        audit_map::<u64, u64, u64>(cx, name, &mut m, &md, &probes);
    });
    // strings whose variable part is on the left, on the right, or spread
    let es: Vec<(Box<str>, u64)> = e
        .iter()
        .map(|(k, v)| {
            let s = match i % 3 {
                0 => format!("{k:x}-suffix"),
                1 => format!("prefix-prefix-prefix{k:016x}"),
                _ => format!("{:x}{:0>30}{}", k & 0xff, "", k >> 8),
            };
            (s.into_boxed_str(), *v)
        })
        .collect();
    let mds = model(&es);
    let present: Vec<Box<str>> = mds.keys().cloned().collect();
    let probes = Box::<str>::probes(&mut cx.rng, &present, 500);
    string_maps!(u64, es, bh, |name, m| {
        let mut m = In(m);
        audit_map::<Box<str>, str, u64>(cx, name, &mut m, &mds, &probes);
    });
}

fn main() {
    let mut cx = Ctx::from_args();
    // once per run: the sizes around the 16-bit limit of the medium magnitude
    for i in 0..8 {
        if i % cx.shards == cx.shard && !cfg!(miri) {
            cx.run(|cx| big(cx, i));
        }
    }
    let n = cx.n(40_000);
    for i in 0..n {
        match i % 3 {
            0 => cx.run(keyed),
            1 => cx.run(scalar),
            _ => cx.run(string),
        }
    }
    cx.finish();
}
