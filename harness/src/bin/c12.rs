//! C12: positions of scalars, derived positions of enums, and scalar-keyed collections over whole ranges.
use fzmon::adapt::*;
use fzmon::ctx::Ctx;
use fzmon::keys::*;
use fzmon::model::*;
use fzmon::rng::mix;
use fzmon::*;
use frozen_collections::Scalar;
use std::collections::BTreeMap;
use std::fmt::Debug;

/// Values in increasing order must have increasing positions.
fn increasing<T: Scalar + Debug>(cx: &mut Ctx, name: &str, it: impl Iterator<Item = T>) {
    let mut last: Option<(T, usize)> = None;
    let mut n = 0u64;
    for v in it {
        let i = v.index();
        if let Some((w, j)) = last {
            if !(w < v && j < i) {
                cx.fail(format!("{name}: {w:?} has position {j} and the larger {v:?} has position {i}"));
            }
            if n & 0xffff == 1 {
                cx.distinct(mix(fp(&name), i as u64));
            }
        }
        last = Some((v, i));
        n += 1;
    }
    cx.ev("positions", n);
    cx.ev(&format!("positions {name}"), n);
}

/// All values of `lo..=hi` in the shard's part.
fn part(cx: &Ctx, lo: i128, hi: i128) -> std::ops::RangeInclusive<i128> {
    let (s, n) = (i128::from(cx.shard), i128::from(cx.shards));
    let len = hi - lo + 1;
    // neighbouring parts overlap by one value, so that every adjacent pair is seen
    (lo + len * s / n)..=(hi.min(lo + len * (s + 1) / n))
}

fn samples(cx: &mut Ctx, lo: i128, hi: i128) -> Vec<i128> {
    let mut v = vec![];
    let mut around = |x: i128, r: i128| v.extend((x - r)..=(x + r));
    let (far, near) = if FOREIGN { (100, 2) } else { (2000, 40) };
    around(lo, far);
    around(hi, far);
    around(0, far);
    for b in 0..64 {
        around(1i128 << b, near);
        around(-(1i128 << b), near);
        for c in 0..if FOREIGN { 0 } else { b } {
            around((1i128 << b) + (1i128 << c), 2);
            around(-(1i128 << b) - (1i128 << c), 2);
        }
    }
    for _ in 0..if FOREIGN { 200 } else { 20_000 } {
        let x = (i128::from(cx.rng.u64()) << cx.rng.below(2)) - i128::from(cx.rng.u64() >> cx.rng.below(64));
        v.extend([x, x + 1, x >> cx.rng.below(63)]);
    }
    v.retain(|x| (lo..=hi).contains(x));
    v.sort_unstable();
    v.dedup();
    v
}

fn positions(cx: &mut Ctx) {
    cx.describe("positions".into());
    macro_rules! whole {
        ($($t:ident $nz:ident),*) => {$({
            let r = part(cx, <$t>::MIN as i128, <$t>::MAX as i128);
            increasing(cx, stringify!($t), r.clone().map(|x| x as $t));
            increasing(cx, stringify!($nz), r.filter_map(|x| std::num::$nz::new(x as $t)));
        })*};
    }
    macro_rules! wide {
        ($($t:ident $nz:ident),*) => {$({
            let v = samples(cx, <$t>::MIN as i128, <$t>::MAX as i128);
            increasing(cx, stringify!($t), v.iter().map(|x| *x as $t));
            increasing(cx, stringify!($nz), v.iter().filter_map(|x| std::num::$nz::new(*x as $t)));
        })*};
    }
    whole!(u8 NonZeroU8, i8 NonZeroI8);
    if FOREIGN {
        wide!(u16 NonZeroU16, i16 NonZeroI16);
    } else {
        whole!(u16 NonZeroU16, i16 NonZeroI16);
    }
    wide!(u32 NonZeroU32, i32 NonZeroI32, usize NonZeroUsize, isize NonZeroIsize);
    #[cfg(target_pointer_width = "64")]
    wide!(u64 NonZeroU64, i64 NonZeroI64);
}

/// Every value of the 32-bit types.
fn whole32(cx: &mut Ctx) {
    cx.describe("every 32-bit value".into());
    macro_rules! whole {
        ($($t:ident $nz:ident),*) => {$({
            let r = part(cx, <$t>::MIN as i128, <$t>::MAX as i128);
            let (a, b) = (*r.start() as i64, *r.end() as i64);
            increasing(cx, stringify!($t), (a..=b).map(|x| x as $t));
            increasing(cx, stringify!($nz), (a..=b).filter_map(|x| std::num::$nz::new(x as $t)));
        })*};
    }
    whole!(u32 NonZeroU32, i32 NonZeroI32);
}

fn collections(cx: &mut Ctx) {
    let pick = cx.rng.u64();
    macro_rules! case {
        ($K:ty) => {{
            let max = if cx.rng.chance(1, 30) { 3000 } else { 300 };
            let n = size(&mut cx.rng, max);
            let (mut keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            // reach for the extremes, alone or together
            let (lo, hi) = (<$K>::MIN, <$K>::MAX);
            match cx.rng.below(5) {
                0 => keys.push(lo),
                1 => keys.push(hi),
                2 => keys.extend([lo, hi]),
                3 => keys.extend([hi, lo, hi]),
                _ => {}
            }
            let e: Vec<($K, u64)> = entries(keys);
            let md = model(&e);
            let ks: Vec<$K> = e.iter().map(|x| x.0).collect();
            cx.describe(format!("{} shape={shape} n={} distinct={}", stringify!($K), e.len(), md.len()));
            let present: Vec<$K> = md.keys().cloned().collect();
            let np = 30 + n.min(60);
            let mut probes = <$K>::probes(&mut cx.rng, &present, np);
            probes.extend([lo, hi]);
            scalar_maps!($K, u64, e, |name, m| {
                let mut m = In(m);
                audit_map::<$K, $K, u64>(cx, name, &mut m, &md, &probes);
            });
            let mds: std::collections::BTreeSet<$K> = present.iter().cloned().collect();
            scalar_sets!($K, ks, |name, s| {
                let s = In(s);
                audit_set::<$K, $K>(cx, name, &s, &mds, &probes);
            });
            cx.sample(|| format!("{} {shape}: {:?}", stringify!($K), present.iter().take(10).collect::<Vec<_>>()));
        }};
    }
    dispatch_scalars!(pick, case);
}

/// The whole of the small types as key set.
fn domains(cx: &mut Ctx) {
    cx.describe("whole domains".into());
    macro_rules! dom {
        ($($t:ident $nz:ident),*) => {$({
            for rev in [false, true] {
                let mut all: Vec<$t> = (<$t>::MIN..=<$t>::MAX).collect();
                if rev { all.reverse(); }
                let e: Vec<($t, u64)> = entries(all.clone());
                let md = model(&e);
                scalar_maps!($t, u64, e, |name, m| {
                    let mut m = In(m);
                    audit_map::<$t, $t, u64>(cx, name, &mut m, &md, &[]);
                });
                let e: Vec<(std::num::$nz, u64)> = entries(all.iter().filter_map(|x| std::num::$nz::new(*x)).collect());
                let md = model(&e);
                scalar_maps!(std::num::$nz, u64, e, |name, m| {
                    let mut m = In(m);
                    audit_map::<std::num::$nz, std::num::$nz, u64>(cx, name, &mut m, &md, &[]);
                });
            }
        })*};
    }
    dom!(u8 NonZeroU8, i8 NonZeroI8, u16 NonZeroU16, i16 NonZeroI16);
}

/// `all`: the variants in declaration order.
pub fn audit_enum<E: Scalar + Debug + std::hash::Hash>(cx: &mut Ctx, name: &str, all: &[E]) {
    cx.describe(format!("enum {name} of {} variants", all.len()));
    for (i, v) in all.iter().enumerate() {
        cx.check(v.index() == i, || format!("{name}: {v:?}, variant number {i}, has position {}", v.index()));
    }
    cx.ev("enum variants", all.len() as u64);
    cx.distinct(mix(fp(&name), all.len() as u64));
    for round in 0..8 {
        let mut e: Vec<(E, u64)> = vec![];
        let n = if round == 0 { all.len() } else { cx.rng.idx(all.len() + 1) };
        for i in 0..n {
            let k = match round {
                0 => all[i],
                1 => all[i % (1 + n / 2)],
                2 => all[all.len() - 1 - i],
                _ => *cx.rng.pick(all),
            };
            e.push((k, i as u64));
        }
        let mut md: BTreeMap<usize, u64> = BTreeMap::new();
        for (k, v) in &e {
            md.insert(all.iter().position(|x| x == k).unwrap(), *v);
        }
        scalar_maps!(E, u64, e, |mn, m| {
            cx.check(m.len() == md.len(), || format!("{mn}<{name}>: len {} for {} distinct keys", m.len(), md.len()));
            for (i, v) in all.iter().enumerate() {
                let g = m.get(v);
                cx.check(g == md.get(&i), || format!("{mn}<{name}>: get({v:?}) = {g:?}, expected {:?}", md.get(&i)));
            }
            cx.ev("enum maps", 1);
        });
        let ks: Vec<E> = e.iter().map(|x| x.0).collect();
        scalar_sets!(E, ks, |mn, s| {
            cx.check(s.len() == md.len(), || format!("{mn}<{name}>: len {} for {} distinct values", s.len(), md.len()));
            for (i, v) in all.iter().enumerate() {
                cx.check(s.contains(v) == md.contains_key(&i), || format!("{mn}<{name}>: contains({v:?}) = {}", s.contains(v)));
            }
        });
    }
}

#[cfg(feature = "fixture")]
mod enums {
    use super::*;
    include!(env!("FZMON_FIXTURE"));
}

fn main() {
    let mut cx = Ctx::from_args();
    cx.run(positions);
    if cx.thorough && !FOREIGN {
        cx.run(whole32);
    }
    if cx.shard == 0 && !FOREIGN {
        cx.run(domains);
    }
    #[cfg(feature = "fixture")]
    {
        let (i, n) = (cx.shard as usize, cx.shards as usize);
        for (j, f) in enums::ALL.iter().enumerate() {
            if j % n == i {
                cx.run(f);
            }
        }
    }
    let n = cx.n(40_000);
    for _ in 0..n {
        cx.run(collections);
    }
    cx.finish();
}
