//! C20: reading allocates nothing, and statics written with literal keys are constants.
use fzmon::adapt::{MapLook, SetLook, In};
use fzmon::ctx::Ctx;
use fzmon::fam::Probe;
use fzmon::keys::*;
use fzmon::meter::{Meter, metered};
use fzmon::model::*;
use fzmon::*;
use frozen_collections::SetOps as _;
use std::any::TypeId;
use std::collections::{BTreeSet, HashSet};
use std::hint::black_box;

#[global_allocator]
static METER: Meter = Meter;

/// Runs something that mustn't allocate.
fn quiet<R>(cx: &mut Ctx, name: &str, what: &str, f: impl FnOnce() -> R) -> R {
    let (r, peak, kept) = metered(f);
    cx.check(peak == 0 && kept == 0, || format!("{name}: {what} allocated {peak} bytes ({kept} kept)"));
    cx.ev("reads watched", 1);
    r
}

/// Steps, jumps and asks about what is left.
fn walk<I: Iterator>(a: I, b: I, c: I) -> usize {
    let mut n = a.inspect(|x| drop(black_box(x as *const _))).count();
    let mut b = b;
    n += black_box(b.size_hint()).0;
    black_box(b.nth(2));
    black_box(b.next());
    n += b.fold(0, |n, _| n + 1);
    for x in c {
        black_box(&x);
        n += 1;
    }
    n
}

/// Some of the keys and some others.
fn probes<K: Key>(cx: &mut Ctx, keys: &[K]) -> Vec<K> {
    let mut v: Vec<K> = (0..12.min(keys.len())).map(|_| keys[cx.rng.idx(keys.len())].clone()).collect();
    v.extend(K::list(&mut cx.rng, 24).0.into_iter().take(16));
    v
}

fn looks<K: Probe<Q>, Q: ?Sized, V>(cx: &mut Ctx, name: &str, m: &mut dyn MapLook<K, Q, V>, probes: &[K]) {
    for p in probes {
        p.with(|q| {
            quiet(cx, name, "a lookup", || black_box(m.get(q)).is_some() as usize + black_box(m.gkv(q)).is_some() as usize + black_box(m.has(q)) as usize);
            let hit = quiet(cx, name, "get_mut", || black_box(m.get_mut(q)).is_some());
            if hit {
                quiet(cx, name, "indexing", || {
                    black_box(m.at(q));
                });
            }
            cx.ev(if hit { "lookups_hit" } else { "lookups_miss" }, 1);
        });
    }
    quiet(cx, name, "len", || black_box(m.len()) + black_box(m.is_empty()) as usize);
}

macro_rules! reads_map {
    ($cx:ident, $name:expr, $m:ident, $K:ty, $Q:ty, $V:ty, $probes:expr) => {{
        let probes: &[$K] = $probes;
        let mut m = In($m);
        looks::<$K, $Q, $V>($cx, $name, &mut m, probes);
        let mut m = m.0;
        {
            let m = &m;
            quiet($cx, $name, "iter", || walk(m.iter(), m.iter(), m.iter()));
            quiet($cx, $name, "keys", || walk(m.keys(), m.keys(), m.keys()));
            quiet($cx, $name, "values", || walk(m.values(), m.values(), m.values()));
            quiet($cx, $name, "a loop", || walk(m.into_iter(), m.into_iter(), m.into_iter()));
            quiet($cx, $name, "clones of iterators", || walk(m.iter().clone(), m.iter().clone(), m.iter().clone()));
        }
        quiet($cx, $name, "iter_mut", || m.iter_mut().count() + m.values_mut().size_hint().0 + m.values_mut().fold(0, |n, _| n + 1));
        // distinct keys, of which some may be absent
        let mut d: Vec<$K> = probes.to_vec();
        d.sort();
        d.dedup();
        $cx.rng.shuffle(&mut d);
        d.truncate(20);
        <$K as Probe<$Q>>::with_many(&d, |q: &[&$Q]| {
            if let Some(q) = q.first_chunk::<5>() {
                quiet($cx, $name, "get_disjoint_mut", || m.get_disjoint_mut([q[0], q[1], q[2]]).iter().flatten().count() + m.get_disjoint_mut(*q).iter().flatten().count());
                $cx.ev("several at once", 1);
            }
            if let Some(q) = q.first_chunk::<20>() {
                quiet($cx, $name, "get_disjoint_mut", || m.get_disjoint_mut(*q).iter().flatten().count());
                $cx.ev("many at once", 1);
            }
        });
    }};
}

fn looks_set<K: Probe<Q>, Q: ?Sized>(cx: &mut Ctx, name: &str, s: &dyn SetLook<K, Q>, probes: &[K]) {
    for p in probes {
        p.with(|q| {
            let hit = quiet(cx, name, "a lookup", || black_box(s.has(q)) | black_box(s.get(q)).is_some());
            cx.ev(if hit { "lookups_hit" } else { "lookups_miss" }, 1);
        });
    }
    quiet(cx, name, "len", || black_box(s.len()) + black_box(s.is_empty()) as usize);
}

macro_rules! reads_set {
    ($cx:ident, $name:expr, $s:ident, $K:ty, $Q:ty, $probes:expr) => {{
        let s = In($s);
        looks_set::<$K, $Q>($cx, $name, &s, $probes);
        let s = &s.0;
        quiet($cx, $name, "iter", || walk(s.iter(), s.iter(), s.iter()));
        quiet($cx, $name, "a loop", || walk(s.into_iter(), s.into_iter(), s.into_iter()));
    }};
}

/// Set algebra with another set, taken lazily.
fn algebra<'a, T, A, B>(cx: &mut Ctx, name: &str, a: &'a A, b: &'a B)
where
    T: std::hash::Hash + Eq + 'a,
    A: frozen_collections::Set<T> + frozen_collections::SetIteration<T>,
    B: frozen_collections::Set<T> + frozen_collections::SetIteration<T>,
{
    macro_rules! op {
        ($($f:ident)*) => {$( quiet(cx, name, stringify!($f), || walk(a.$f(b), a.$f(b), a.$f(b))); )*};
    }
    op!(union intersection difference symmetric_difference);
    quiet(cx, name, "a comparison of sets", || black_box(a.is_subset(b)) as usize + black_box(a.is_superset(b)) as usize + black_box(a.is_disjoint(b)) as usize);
    cx.ev("set operations", 4);
}

fn keyed(cx: &mut Ctx) {
    macro_rules! case {
        ($K:ty, $Q:ty, $V:ty) => {{
            let n = size(&mut cx.rng, 400);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, $V)> = entries(keys.clone());
            let d = model(&e).len();
            cx.describe(format!("{} shape={shape} n={} distinct={d}", stringify!($K), e.len()));
            cx.distinct(situation(stringify!($K), keys.iter()));
            let p = probes(cx, &keys);
            let bh = std::hash::RandomState::new();
            hash_maps!($K, $V, e, bh, d, |name, m| { reads_map!(cx, name, m, $K, $Q, $V, &p) });
            ord_maps!($K, $V, e, |name, m| { reads_map!(cx, name, m, $K, $Q, $V, &p) });
            hash_sets!($K, keys, bh, |name, s| { reads_set!(cx, name, s, $K, $Q, &p) });
            ord_sets!($K, keys, |name, s| { reads_set!(cx, name, s, $K, $Q, &p) });
            // two sets that overlap
            let k = cx.rng.idx(keys.len() + 1);
            let other: Vec<$K> = keys[k..].iter().cloned().chain(p.iter().cloned()).collect();
            let std: HashSet<$K> = other.iter().cloned().collect();
            let tree: BTreeSet<$K> = other.iter().cloned().collect();
            let fz = frozen_collections::FzHashSet::<$K>::new(other.clone());
            let fo = frozen_collections::FzOrderedSet::<$K>::new(other.clone());
            hash_sets!($K, keys, bh, |name, s| {
                algebra::<$K, _, _>(cx, name, &s, &std);
                algebra::<$K, _, _>(cx, name, &s, &fz);
                quiet(cx, name, "==", || black_box(s == fz));
            });
            ord_sets!($K, keys, |name, s| {
                algebra::<$K, _, _>(cx, name, &s, &fo);
                algebra::<$K, _, _>(cx, name, &s, &tree);
                quiet(cx, name, "==", || black_box(s == fo));
            });
            cx.sample(|| format!("{shape}: {:?}", e.iter().map(|x| &x.0).take(8).collect::<Vec<_>>()));
        }};
    }
    match cx.rng.below(5) {
        0 => case!(u64, u64, u64),
        1 => case!(String, str, Box<u64>),
        2 => case!(Vec<u8>, [u8], u64),
        3 => case!(Pt, PtRef, (u8, [u64; 4])),
        _ => case!((), (), ()),
    }
}

fn scalar(cx: &mut Ctx) {
    macro_rules! case {
        ($K:ty) => {{
            let n = size(&mut cx.rng, 400);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, String)> = entries(keys.clone());
            cx.describe(format!("scalar {} shape={shape} n={}", stringify!($K), e.len()));
            cx.distinct(situation(stringify!($K), keys.iter()));
            let p = probes(cx, &keys);
            scalar_maps!($K, String, e, |name, m| { reads_map!(cx, name, m, $K, $K, String, &p) });
            let k = cx.rng.idx(keys.len() + 1);
            let other: HashSet<$K> = keys[k..].iter().chain(&p).copied().collect();
            let fz: frozen_collections::FzScalarSet<$K> = other.iter().copied().collect();
            scalar_sets!($K, keys, |name, s| {
                algebra::<$K, _, _>(cx, name, &s, &other);
                algebra::<$K, _, _>(cx, name, &s, &fz);
                quiet(cx, name, "==", || black_box(s == fz));
                reads_set!(cx, name, s, $K, $K, &p)
            });
        }};
    }
    match cx.rng.below(5) {
        0 => case!(u8),
        1 => case!(i32),
        2 => case!(u64),
        3 => case!(Hue),
        _ => case!(std::num::NonZeroU16),
    }
}

fn string(cx: &mut Ctx) {
    let n = size(&mut cx.rng, 400);
    let (keys, shape) = Box::<str>::list(&mut cx.rng, n);
    let e: Vec<(Box<str>, u64)> = entries(keys.clone());
    cx.describe(format!("string shape={shape} n={}", e.len()));
    cx.distinct(situation("string", keys.iter()));
    let p = probes(cx, &keys);
    let bh = std::hash::RandomState::new();
    string_maps!(u64, e, bh, |name, m| { reads_map!(cx, name, m, Box<str>, str, u64, &p) });
    string_sets!(keys, bh, |name, s| { reads_set!(cx, name, s, Box<str>, str, &p) });
    let k = cx.rng.idx(keys.len() + 1);
    let other: Vec<Box<str>> = keys[k..].iter().chain(&p).cloned().collect();
    let other = frozen_collections::FzStringSet::<Box<str>>::new(other);
    let s = frozen_collections::FzStringSet::<Box<str>>::new(keys.clone());
    {
        let (a, b) = (&s, &other);
        quiet(cx, "FzStringSet", "union", || walk(a.union(b), a.union(b), a.union(b)));
        quiet(cx, "FzStringSet", "intersection", || walk(a.intersection(b), a.intersection(b), a.intersection(b)));
        quiet(cx, "FzStringSet", "difference", || walk(a.difference(b), a.difference(b), a.difference(b)));
        quiet(cx, "FzStringSet", "symmetric_difference", || walk(a.symmetric_difference(b), a.symmetric_difference(b), a.symmetric_difference(b)));
        quiet(cx, "FzStringSet", "==", || black_box(a == b));
    }
}

#[cfg(feature = "fixture")]
mod fixture {
    use super::*;
    macro_rules! visit_map {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty, $V:ty) => {
            $cx.run(|cx| {
                cx.describe($desc.into());
                let e: Vec<($K, $V)> = $e;
                let keys: Vec<$K> = e.iter().map(|x| x.0.clone()).collect();
                let p = probes(cx, &keys);
                let m = $m;
                reads_map!(cx, "inline map", m, $K, $Q, $V, &p);
                cx.ev("inline collections", 1);
            });
        };
    }
    macro_rules! visit_set {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty) => {
            $cx.run(|cx| {
                cx.describe($desc.into());
                let keys: Vec<$K> = $e;
                let p = probes(cx, &keys);
                let s = $m;
                reads_set!(cx, "inline set", s, $K, $Q, &p);
                cx.ev("inline collections", 1);
            });
        };
    }
    include!(env!("FZMON_FIXTURE"));
}

#[cfg(feature = "fixture")]
mod statics {
    use super::*;
    /// Is the static of the type that its declaration names?
    fn plain<T: 'static, S: 'static>(cx: &mut Ctx, _: &'static S) {
        let ok = TypeId::of::<T>() == TypeId::of::<S>();
        cx.check(ok, || format!("the static is a {} rather than a {}", std::any::type_name::<S>(), std::any::type_name::<T>()));
        cx.ev("constant statics", 1);
    }
    const NUMBERS: &[u16] = &[1, 2, 3];
    const fn konst<T: Copy>(x: T) -> T {
        x
    }
    include!(env!("FZMON_STATICS"));
}

fn main() {
    let mut cx = Ctx::from_args();
    #[cfg(feature = "fixture")]
    {
        statics::run(&mut cx);
        fixture::run(&mut cx);
    }
    let n = cx.n(3000);
    for i in 0..n {
        match i % 3 {
            0 => cx.run(keyed),
            1 => cx.run(scalar),
            _ => cx.run(string),
        }
    }
    cx.finish();
}
