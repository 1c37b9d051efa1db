//! C14: construction ends, doesn't panic, takes memory in proportion to the entries, and time, and reports capacity limits.
use frozen_collections::hashers::BridgeHasher;
use frozen_collections::{
    FzHashMap, FzHashSet, FzOrderedMap, FzOrderedSet, FzScalarMap, FzScalarSet, FzStringMap, FzStringSet, LargeCollection, MediumCollection, Scalar, SmallCollection, maps,
};
use fzmon::ctx::Ctx;
use fzmon::hashers::{DynBH, Kind};
use fzmon::keys::*;
use fzmon::model::*;
use fzmon::*;
use fzmon::meter::{Meter, metered};
use std::collections::BTreeSet;

#[global_allocator]
static METER: Meter = Meter;

/// Bytes allowed per entry, besides a multiple of the entry itself: several times what any representation takes.
const PER_ENTRY: usize = 600;
const TIMES_ENTRY: usize = 6;
const BASE: usize = 16_384;

fn judge(cx: &mut Ctx, name: &str, n: usize, unit: usize, peak: usize) {
    let allowed = BASE + n * (PER_ENTRY + TIMES_ENTRY * unit);
    cx.check(peak <= allowed, || format!("{name}: construction from {n} entries of {unit} bytes took {peak} bytes, {} per entry", peak / n.max(1)));
    let pct = (peak * 100 / allowed) as u64;
    cx.ev("metered constructions", 1);
    cx.ev(&format!("peak {}0..{}9% of the allowance", pct / 10, pct / 10), 1);
    if n >= 100 {
        cx.ev(&format!("bytes {name}"), peak as u64);
        cx.ev(&format!("entries {name}"), n as u64);
    }
}

fn pick_hasher(cx: &mut Ctx, n: usize) -> DynBH {
    // all codes equal makes construction quadratic in comparisons: only up to a size
    let kind = if n > 3000 { *cx.rng.pick(&[Kind::Good, Kind::Identity, Kind::Sequence, Kind::Pairs]) } else { *cx.rng.pick(fzmon::hashers::KINDS) };
    DynBH { kind, seed: cx.rng.u64() }
}

fn limits<K: Key, V: Val>(cx: &mut Ctx, e: &[(K, V)], distinct: usize, bh: &DynBH) {
    macro_rules! limit {
        ($cm:ident, $max:expr) => {{
            let x = e.to_vec();
            let (r, peak, _) = metered(|| maps::HashMap::<K, V, $cm, _>::with_hasher(x, BridgeHasher::new(bh.clone())).map(|m| m.len()));
            match &r {
                Ok(n) => cx.check(*n == distinct && distinct <= $max, || format!("HashMap<{}> accepted {distinct} distinct keys (limit {}) and has length {n}", stringify!($cm), $max)),
                Err(m) => cx.check(distinct > $max, || format!("HashMap<{}> refused {distinct} distinct keys (limit {}) of {}: {m}", stringify!($cm), $max, e.len())),
            }
            cx.ev(if r.is_ok() { "within capacity" } else { "beyond capacity" }, 1);
            judge(cx, concat!("HashMap<", stringify!($cm), ">"), e.len(), size_of::<(K, V)>(), peak);
        }};
    }
    limit!(SmallCollection, 255);
    limit!(MediumCollection, 65_535);
    limit!(LargeCollection, usize::MAX);
}

fn keyed(cx: &mut Ctx) {
    let pick = cx.rng.u64();
    macro_rules! case {
        ($K:ty, $Q:ty, $V:ty) => {{
            let max = if cx.rng.chance(1, 40) { 20_000 } else { 1200 };
            let n = size(&mut cx.rng, max);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let n = keys.len();
            let bh = pick_hasher(cx, n);
            let set: BTreeSet<&$K> = keys.iter().collect();
            let distinct = set.len();
            cx.describe(format!("{} shape={shape} n={n} distinct={distinct} hasher={:?}", stringify!($K), bh.kind));
            if distinct > 1 {
                cx.distinct(situation(stringify!($K), set.iter().take(400)));
            }
            drop(set);
            let e: Vec<($K, $V)> = entries(keys.clone());
            let unit = size_of::<($K, $V)>();
            let x = e.clone();
            let (m, peak, _) = metered(|| FzHashMap::with_hasher(x, bh.clone()));
            cx.check(m.len() == distinct, || format!("FzHashMap has length {}", m.len()));
            judge(cx, "FzHashMap", n, unit, peak);
            let x = e.clone();
            let (m, peak, _) = metered(|| FzHashMap::<$K, $V>::new(x));
            cx.check(m.len() == distinct, || format!("FzHashMap has length {}", m.len()));
            judge(cx, "FzHashMap", n, unit, peak);
            let x = keys.clone();
            let (m, peak, _) = metered(|| FzHashSet::with_hasher(x, bh.clone()));
            cx.check(m.len() == distinct, || format!("FzHashSet has length {}", m.len()));
            judge(cx, "FzHashSet", n, unit, peak);
            let x = e.clone();
            let (m, peak, _) = metered(|| FzOrderedMap::new(x));
            cx.check(m.len() == distinct, || format!("FzOrderedMap has length {}", m.len()));
            judge(cx, "FzOrderedMap", n, unit, peak);
            let x = keys.clone();
            let (m, peak, _) = metered(|| FzOrderedSet::new(x));
            cx.check(m.len() == distinct, || format!("FzOrderedSet has length {}", m.len()));
            judge(cx, "FzOrderedSet", n, unit, peak);
            if n < 400 {
                let x = e.clone();
                let (m, peak, _) = metered(|| maps::ScanMap::new(x));
                cx.check(m.len() == distinct, || format!("ScanMap has length {}", m.len()));
                judge(cx, "ScanMap", n, unit, peak);
            }
            limits(cx, &e, distinct, &bh);
        }};
    }
    dispatch_keys!(pick, case);
}

fn scalar(cx: &mut Ctx) {
    let pick = cx.rng.u64();
    macro_rules! case {
        ($K:ty) => {{
            let max = if cx.rng.chance(1, 40) { 20_000 } else { 1200 };
            let n = size(&mut cx.rng, max);
            let (mut keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            if cx.rng.chance(1, 4) {
                // one or two far away
                keys.push(<$K>::random(&mut cx.rng));
                keys.push(*cx.rng.pick(&[<$K>::MIN, <$K>::MAX]));
            }
            let n = keys.len();
            let set: BTreeSet<$K> = keys.iter().copied().collect();
            let distinct = set.len();
            let (lo, hi) = (set.first().map_or(0, |x| x.index()), set.last().map_or(0, |x| x.index()));
            cx.describe(format!("scalar {} shape={shape} n={n} distinct={distinct} span={}", stringify!($K), hi - lo));
            if distinct > 1 {
                cx.distinct(situation(stringify!($K), set.iter().take(400)));
            }
            let e: Vec<($K, u64)> = entries(keys.clone());
            let unit = size_of::<($K, u64)>();
            let x = e.clone();
            let (m, peak, _) = metered(|| FzScalarMap::new(x));
            cx.check(m.len() == distinct, || format!("FzScalarMap has length {}", m.len()));
            judge(cx, "FzScalarMap", n, unit, peak);
            let x = keys.clone();
            let (m, peak, _) = metered(|| FzScalarSet::new(x));
            cx.check(m.len() == distinct, || format!("FzScalarSet has length {}", m.len()));
            judge(cx, "FzScalarSet", n, unit, peak);
            // the values themselves, not the positions, decide what is contiguous
            let contiguous = distinct == 0 || set.iter().zip(set.iter().skip(1)).all(|(a, b)| b.index() - a.index() == 1);
            let x = e.clone();
            let (r, peak, _) = metered(|| maps::DenseScalarLookupMap::new(x));
            match &r {
                Ok(m) => cx.check(contiguous && m.len() == distinct, || format!("DenseScalarLookupMap accepted {} of {distinct} keys, contiguous: {contiguous}", m.len())),
                Err(m) => cx.check(!contiguous, || format!("DenseScalarLookupMap refused {distinct} contiguous keys of {n}: {m}")),
            }
            cx.ev(if r.is_ok() { "contiguous" } else { "not contiguous" }, 1);
            judge(cx, "DenseScalarLookupMap", n, unit, peak);
        }};
    }
    dispatch_scalars!(pick, case);
}

fn string(cx: &mut Ctx) {
    let max = if cx.rng.chance(1, 40) { 20_000 } else { 1200 };
    let n = size(&mut cx.rng, max);
    let (keys, shape) = String::list(&mut cx.rng, n);
    let n = keys.len();
    let bh = pick_hasher(cx, n);
    let set: BTreeSet<&String> = keys.iter().collect();
    let distinct = set.len();
    cx.describe(format!("string shape={shape} n={n} distinct={distinct} hasher={:?}", bh.kind));
    if distinct > 1 {
        cx.distinct(situation("string", set.iter().take(400)));
    }
    let bytes: usize = keys.iter().map(String::len).sum::<usize>() / n.max(1);
    let e: Vec<(String, u64)> = entries(keys.clone());
    let unit = bytes + 32;
    let x = e.clone();
    let (m, peak, _) = metered(|| FzStringMap::<Box<str>, u64, _>::with_hasher(x, bh.clone()));
    cx.check(m.len() == distinct, || format!("FzStringMap has length {}", m.len()));
    judge(cx, "FzStringMap", n, unit, peak);
    let (m, peak, _) = metered(|| FzStringMap::<Box<str>, u64>::new(e));
    cx.check(m.len() == distinct, || format!("FzStringMap has length {}", m.len()));
    judge(cx, "FzStringMap", n, unit, peak);
    let (m, peak, _) = metered(|| FzStringSet::<Box<str>, _>::with_hasher(keys, bh.clone()));
    cx.check(m.len() == distinct, || format!("FzStringSet has length {}", m.len()));
    judge(cx, "FzStringSet", n, unit, peak);
    cx.sample(|| format!("string {shape} n={n}: peak {peak} bytes"));
}

/// The capacities themselves, one by one, with repetitions that take the list beyond the limit.
fn edges(cx: &mut Ctx, i: u64) {
    let distinct = [254usize, 255, 256, 257, 65_534, 65_535, 65_536, 65_537][i as usize];
    let extra = [0usize, 1, 300, 2][cx.rng.idx(4)];
    let mut keys: Vec<u32> = (0..distinct as u32).map(|x| x.wrapping_mul(2_654_435_761)).collect();
    for _ in 0..extra {
        keys.push(*cx.rng.pick(&keys.clone()));
    }
    cx.rng.shuffle(&mut keys);
    cx.describe(format!("{distinct} distinct keys and {extra} repetitions"));
    let e: Vec<(u32, u64)> = entries(keys);
    let bh = DynBH { kind: Kind::Good, seed: 3 };
    limits(cx, &e, distinct, &bh);
    cx.ev("capacity edges", 1);
}

fn big(cx: &mut Ctx, n: usize) {
    let salt = cx.rng.u64();
    cx.describe(format!("big n={n}"));
    let keys: Vec<u64> = (0..n as u64).map(|i| fzmon::rng::mix(i, salt)).collect();
    let e: Vec<(u64, u64)> = entries(keys.clone());
    let x = e.clone();
    let (m, peak, _) = metered(|| FzHashMap::<u64, u64>::new(x));
    cx.check(m.len() == n, || format!("FzHashMap has length {}", m.len()));
    judge(cx, "FzHashMap", n, 16, peak);
    let x = e.clone();
    let (m, peak, _) = metered(|| FzScalarMap::new(x));
    cx.check(m.len() == n, || format!("FzScalarMap has length {}", m.len()));
    judge(cx, "FzScalarMap", n, 16, peak);
    let x = e.clone();
    let (m, peak, _) = metered(|| FzOrderedMap::new(x));
    cx.check(m.len() == n, || format!("FzOrderedMap has length {}", m.len()));
    judge(cx, "FzOrderedMap", n, 16, peak);
    let es: Vec<(String, u64)> = e.iter().map(|(k, v)| (format!("{k:x}"), *v)).collect();
    let (m, peak, _) = metered(|| FzStringMap::<Box<str>, u64>::new(es));
    cx.check(m.len() == n, || format!("FzStringMap has length {}", m.len()));
    judge(cx, "FzStringMap", n, 48, peak);
    cx.distinct(situation("big", keys.iter().take(10)));
}

/// The processor time the thread has taken.
fn clock() -> f64 {
    #[repr(C)]
    struct Timespec {
        s: i64,
        n: i64,
    }
    unsafe extern "C" {
        fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
    }
    let mut t = Timespec { s: 0, n: 0 };
    // SAFETY: it's CLOCK_THREAD_CPUTIME_ID of 64-bit Linux, which writes two words
    assert_eq!(unsafe { clock_gettime(3, &mut t) }, 0);
    t.s as f64 + t.n as f64 / 1e9
}

/// The time construction takes, from a list and from one 16 times as long: linear is 16 times as much, quadratic 256 times.
fn time(cx: &mut Ctx, i: u64) {
    const FEW: usize = 10_000;
    const TIMES: usize = 16;
    const ALLOWED: f64 = 96.0;
    let salt = cx.rng.u64();
    let list = |n: usize| -> Vec<u64> {
        let mix = |x: usize| fzmon::rng::mix(x as u64, salt);
        match i {
            0 => (0..n).map(mix).collect(),
            1 => (0..n).map(|x| mix(x % (n / 2))).collect(),
            2 => (0..n).map(|x| mix(x / 2)).collect(),
            3 => (0..n).map(|x| mix(x % 7)).collect(),
            4 => vec![salt; n],
            5 => (0..n).map(|x| mix(x.saturating_sub(n / 4))).collect(),
            6 => (0..n).map(|x| if x % 3 == 0 { mix(n - x) } else { mix(x % 100) }).collect(),
            _ => (0..n).map(|x| (x as u64) << 1).collect(),
        }
    };
    let (few, many) = (list(FEW), list(FEW * TIMES));
    let what = ["distinct", "twice in a row each", "in pairs", "7 over and over", "one only", "a quarter the same", "mixed", "even numbers"][i as usize];
    cx.describe(format!("time to build from {FEW} and {} keys: {what}", FEW * TIMES));
    macro_rules! timed {
        ($name:expr, |$e:ident| $build:expr) => {{
            // the quickest of several: other work on the machine only adds to it
            let mut took = |keys: &[u64], times: usize| {
                let mut best = f64::MAX;
                for _ in 0..times {
                    let $e = keys.to_vec();
                    let t = clock();
                    let m = std::hint::black_box($build);
                    best = best.min(clock() - t);
                    drop(m);
                    if best > 1.0 { break }
                }
                best
            };
            let (a, b) = (took(&few, 5), took(&many, 3));
            // what ends at once is quick enough
            cx.check(b <= ALLOWED * a || b < 0.3, || format!("{}: construction took {:.4} s from {FEW} entries ({what}) and {b:.4} s from {TIMES} times as many", $name, a));
            cx.ev("timed constructions", 1);
            cx.sample(|| format!("{}, {what}: {a:.4} s, {b:.4} s", $name));
        }};
    }
    let bh = DynBH { kind: Kind::Good, seed: salt };
    timed!("FzHashMap", |e| FzHashMap::with_hasher(e.into_iter().map(|k| (k, 1u8)).collect(), bh.clone()));
    timed!("FzHashMap(default hasher)", |e| FzHashMap::<u64, u8>::new(e.into_iter().map(|k| (k, 1u8)).collect()));
    timed!("FzHashSet", |e| FzHashSet::with_hasher(e, bh.clone()));
    timed!("FzOrderedMap", |e| FzOrderedMap::new(e.into_iter().map(|k| (k, 1u8)).collect()));
    timed!("FzOrderedSet", |e| FzOrderedSet::new(e));
    timed!("FzScalarMap", |e| FzScalarMap::new(e.into_iter().map(|k| (k, 1u8)).collect()));
    timed!("FzScalarSet", |e| FzScalarSet::new(e));
    timed!("FzStringMap", |e| FzStringMap::<Box<str>, u8, _>::with_hasher(e.into_iter().map(|k| (format!("{k:x}"), 1u8)).collect(), bh.clone()));
    timed!("FzStringSet", |e| FzStringSet::<Box<str>, _>::with_hasher(e.into_iter().map(|k| format!("key {k:20}")).collect::<Vec<_>>(), bh.clone()));
    timed!("HashMap<large>", |e| maps::HashMap::<u64, u8, LargeCollection, _>::with_hasher(e.into_iter().map(|k| (k, 1u8)).collect(), BridgeHasher::new(bh.clone())).unwrap().len());
    timed!("EytzingerSearchMap", |e| maps::EytzingerSearchMap::new(e.into_iter().map(|k| (k, 1u8)).collect()));
    timed!("collected FzHashMap", |e| e.into_iter().map(|k| (k, 1u8)).collect::<FzHashMap<u64, u8>>());
}

fn main() {
    let mut cx = Ctx::from_args();
    for i in 0..8 {
        if i % cx.shards == cx.shard {
            for _ in 0..4 {
                cx.run(|cx| edges(cx, i));
            }
            cx.run(|cx| time(cx, i));
            cx.run(|cx| big(cx, [66_000, 100_000, 131_073, 200_000, 262_144, 300_000, 500_000, 1_000_000][i as usize]));
        }
    }
    let n = cx.n(120_000);
    for i in 0..n {
        match i % 3 {
            0 => cx.run(keyed),
            1 => cx.run(scalar),
            _ => cx.run(string),
        }
    }
    cx.finish();
}
