//! C17: results of a fixed workload, to be compared between builds with different features.
#![allow(clippy::all, dead_code, unused_imports, unexpected_cfgs)]
#[path = "../../harness/src/adapt.rs"]
pub mod adapt;
#[path = "../../harness/src/iters.rs"]
pub mod iters;
#[path = "../../harness/src/ctx.rs"]
pub mod ctx;
#[path = "../../harness/src/fam.rs"]
#[macro_use]
pub mod fam;
#[path = "../../harness/src/hashers.rs"]
pub mod hashers;
#[path = "../../harness/src/keys.rs"]
pub mod keys;
#[path = "../../harness/src/rng.rs"]
pub mod rng;
/// The enum of the other monitors needs the macros.
pub mod hue {}

use adapt::*;
use ctx::Ctx;
use fam::Probe;
use frozen_collections::*;
use hashers::DynBH;
use keys::*;
use rng::mix;
use std::collections::BTreeSet;
use std::fmt::{Debug, Write as _};
use std::hash::{BuildHasher, Hash};
use std::io::Write as _;

struct Log {
    out: std::io::BufWriter<std::fs::File>,
    dump: bool,
}

/// Records one result under a label.
fn put(cx: &mut Ctx, log: &mut Log, label: &str, text: String) {
    let h = DynBH::default().hash_one(&text);
    let no = cx.case_no * cx.shards + cx.shard;
    let _ = writeln!(log.out, "{no}\t{label}\t{h:x}\t{}", if log.dump { text.replace(['\n', '\t'], " ") } else { String::new() });
    cx.ev("results", 1);
    cx.ev(label, 1);
    cx.distinct(mix(h, DynBH::default().hash_one(label)));
}

/// What a piece of code evaluates to, a panic included.
fn eval(f: impl FnOnce() -> String) -> String {
    match ctx::panics(f) {
        Ok(s) => s,
        Err(m) => format!("panicked: {m}"),
    }
}

fn sorted(mut v: Vec<String>, ord: bool) -> String {
    if !ord {
        v.sort();
    }
    v.join(",")
}

/// Everything observable about a map, as text; in order only where the order is determined by the input.
fn map_text<K: Probe<Q>, Q: ?Sized, V: Val>(m: &mut dyn MapChange<K, Q, V>, present: &[K], probes: &[K], ord: bool) -> String {
    let mut s = format!("len {} {} ", m.len(), m.is_empty());
    for k in present.iter().chain(probes) {
        k.with(|q| {
            let _ = write!(s, "{:?} {:?} {}", m.get(q), m.gkv(q), m.has(q));
            let _ = write!(s, " {:?};", m.get_mut(q));
        });
    }
    s += "iter ";
    s += &sorted(m.entries().iter().map(|x| format!("{x:?}")).collect(), ord);
    if present.len() >= 2 {
        let n = present.len();
        for ks in [[0, usize::MAX, n - 1], [0, n - 1, 0]] {
            let ks = ks.map(|i| if i == usize::MAX { probes[0].clone() } else { present[i].clone() });
            s += &eval(|| K::with_many(&ks, |q| format!("{:?}", m.disjoint(q))));
        }
    }
    if ord {
        let mut i = 0;
        let mut it = m.values_mut();
        while let Some(v) = it.next() {
            i += 1;
            v.bump(i);
        }
    }
    s += " changed ";
    s += &sorted(m.entries().iter().map(|x| format!("{x:?}")).collect(), ord);
    s
}

fn set_text<T: Probe<Q>, Q: ?Sized>(m: &dyn SetLook<T, Q>, present: &[T], probes: &[T], ord: bool) -> String {
    let mut s = format!("len {} {} ", m.len(), m.is_empty());
    for k in present.iter().chain(probes) {
        k.with(|q| {
            let _ = write!(s, "{} {:?};", m.has(q), m.get(q));
        });
    }
    s + &sorted(m.entries().iter().map(|x| format!("{x:?}")).collect(), ord)
}

macro_rules! set_ops {
    ($m:expr, $o:expr, $ord:expr) => {{
        let (m, o) = (&$m, &$o);
        let dbg = |x: &dyn Debug| format!("{x:?}");
        let mut s = sorted(m.union(o).map(|x| dbg(x)).collect(), $ord);
        s += &sorted(m.intersection(o).map(|x| dbg(x)).collect(), $ord);
        s += &sorted(m.difference(o).map(|x| dbg(x)).collect(), $ord);
        s += &sorted(m.symmetric_difference(o).map(|x| dbg(x)).collect(), $ord);
        s += &format!("{} {} {} {}", m.is_subset(o), m.is_superset(o), m.is_disjoint(o), m == o);
        s += &sorted((m | o).iter().map(|x| dbg(x)).collect(), false);
        s += &sorted((m & o).iter().map(|x| dbg(x)).collect(), false);
        s += &sorted((m - o).iter().map(|x| dbg(x)).collect(), false);
        s += &sorted((m ^ o).iter().map(|x| dbg(x)).collect(), false);
        s
    }};
}

/// Through the traits, also for the foreign collections that always implement them.
fn by_trait<K: Key, V: Val, M>(m: &mut M, probes: &[K]) -> String
where
    M: MapQuery<K, V> + MapExtras<K, V> + MapIteration<K, V> + Len,
{
    let mut s = format!("{} {}", Len::len(m), Len::is_empty(m));
    for k in probes {
        let _ = write!(s, "{:?} {:?} {}", MapQuery::get(m, k), MapExtras::get_key_value(m, k), MapQuery::contains_key(m, k));
        let _ = write!(s, " {:?}", MapQuery::get_mut(m, k));
    }
    let mut all: Vec<String> = MapIteration::iter(m).map(|x| format!("{x:?}")).collect();
    all.sort();
    s + &format!("{all:?}")
}

fn set_by_trait<T: Key, S>(m: &S, probes: &[T]) -> String
where
    S: SetQuery<T> + SetExtras<T> + SetIteration<T> + Len,
{
    let mut s = format!("{} {}", Len::len(m), Len::is_empty(m));
    for k in probes {
        let _ = write!(s, "{} {:?}", SetQuery::contains(m, k), SetExtras::get(m, k));
    }
    let mut all: Vec<String> = SetIteration::iter(m).map(|x| format!("{x:?}")).collect();
    all.sort();
    s + &format!("{all:?}")
}

fn entries<K: Key, V: Val>(keys: Vec<K>) -> Vec<(K, V)> {
    keys.into_iter().enumerate().map(|(i, k)| (k, V::mk(i as u64 + 1))).collect()
}

fn pick_size(cx: &mut Ctx) -> usize {
    let max = if cx.rng.chance(1, 12) { 1500 } else { 120 };
    size(&mut cx.rng, max)
}

fn distinct<K: Key>(keys: &[K]) -> Vec<K> {
    keys.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect()
}

fn some_of<K: Key>(keys: &[K], probes: &[K]) -> Vec<K> {
    keys.iter().chain(probes).enumerate().filter(|x| x.0 % 3 > 0).map(|x| x.1.clone()).collect()
}

fn keyed(cx: &mut Ctx, log: &mut Log) {
    macro_rules! case {
        ($K:ty, $Q:ty, $V:ty) => {{
            let n = pick_size(cx);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, $V)> = entries(keys.clone());
            let present = distinct(&keys);
            let d = present.len();
            let bh = DynBH::pick(&mut cx.rng, n);
            cx.describe(format!("{} shape={shape} n={} hasher={:?}", stringify!($K), e.len(), bh.kind));
            let mut probes = <$K>::probes(&mut cx.rng, &present, 20);
            probes.push(<$K>::random(&mut cx.rng));
            hash_maps!($K, $V, e, bh, d, |name, m| {
                put(cx, log, name, eval(|| map_text::<$K, $Q, $V>(&mut In(m), &present, &probes, !name.contains("default"))));
            });
            ord_maps!($K, $V, e, |name, m| {
                put(cx, log, name, eval(|| map_text::<$K, $Q, $V>(&mut In(m), &present, &probes, true)));
            });
            for (lim, r) in [("small", maps::HashMap::<$K, $V, SmallCollection, _>::with_hasher(e.clone(), hashers2::BridgeHasher::new(bh.clone())).err()), ("medium", maps::HashMap::<$K, $V, MediumCollection, _>::with_hasher(e.clone(), hashers2::BridgeHasher::new(bh.clone())).err())] {
                put(cx, log, &format!("limit {lim}"), format!("{r:?}"));
            }
            let half = some_of(&keys, &probes);
            let (a, b) = (FzHashSet::with_hasher(keys.clone(), bh.clone()), FzHashSet::with_hasher(half.clone(), bh.clone()));
            put(cx, log, "FzHashSet operations", eval(|| set_ops!(a, b, true)));
            put(cx, log, "FzHashSet", eval(|| set_text::<$K, $Q>(&In(a), &present, &probes, true)));
            put(cx, log, "FzHashSet(default hasher)", eval(|| set_text::<$K, $Q>(&In(FzHashSet::<$K>::new(keys.clone())), &present, &probes, false)));
            let (a, b) = (FzOrderedSet::<$K>::new(keys.clone()), FzOrderedSet::<$K>::new(half.clone()));
            put(cx, log, "FzOrderedSet operations", eval(|| set_ops!(a, b, true)));
            put(cx, log, "FzOrderedSet", eval(|| set_text::<$K, $Q>(&In(a), &present, &probes, true)));
            let m = FzHashMap::with_hasher(e.clone(), bh.clone());
            put(cx, log, "rendering", format!("{m:?} {}", m == m.clone()));
            let all: Vec<$K> = present.iter().chain(&probes).cloned().collect();
            put(cx, log, "traits FzHashMap", eval(|| by_trait(&mut FzHashMap::<$K, $V, _>::with_hasher(e.clone(), bh.clone()), &all)));
            put(cx, log, "traits FzOrderedMap", eval(|| by_trait(&mut FzOrderedMap::<$K, $V>::new(e.clone()), &all)));
            put(cx, log, "traits hashbrown map", eval(|| by_trait(&mut e.iter().cloned().collect::<hashbrown::HashMap<$K, $V>>(), &all)));
            put(cx, log, "traits hashbrown set", eval(|| set_by_trait(&keys.iter().cloned().collect::<hashbrown::HashSet<$K>>(), &all)));
            put(cx, log, "traits FzOrderedSet", eval(|| set_by_trait(&FzOrderedSet::<$K>::new(keys.clone()), &all)));
            put(cx, log, "lengths", format!("{} {} {} {}", Len::len(&keys), Len::len(&*keys), Len::len(&keys.iter().collect::<std::collections::VecDeque<_>>()), Len::len(&std::rc::Rc::new(keys.clone()))));
            cx.sample(|| format!("{shape}: {:?}", e.iter().map(|x| &x.0).take(12).collect::<Vec<_>>()));
        }};
    }
    match cx.rng.below(4) {
        0 => case!(u64, u64, u64),
        1 => case!(String, str, u64),
        2 => case!(Coarse, Coarse, u64),
        _ => case!(Pt, PtRef, String),
    }
}

fn scalar(cx: &mut Ctx, log: &mut Log) {
    macro_rules! case {
        ($K:ty) => {{
            let n = pick_size(cx);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, u64)> = entries(keys.clone());
            let present = distinct(&keys);
            cx.describe(format!("scalar {} shape={shape} n={}", stringify!($K), e.len()));
            let mut probes = <$K>::probes(&mut cx.rng, &present, 20);
            probes.push(<$K>::random(&mut cx.rng));
            scalar_maps!($K, u64, e, |name, m| {
                put(cx, log, name, eval(|| map_text::<$K, $K, u64>(&mut In(m), &present, &probes, true)));
            });
            put(cx, log, "dense or not", format!("{:?}", maps::DenseScalarLookupMap::<$K, u64>::new(e.clone()).err()));
            let (a, b) = (FzScalarSet::<$K>::new(keys.clone()), FzScalarSet::<$K>::new(some_of(&keys, &probes)));
            put(cx, log, "FzScalarSet operations", eval(|| set_ops!(a, b, true)));
            put(cx, log, "FzScalarSet", eval(|| set_text::<$K, $K>(&In(a), &present, &probes, true)));
            let all: Vec<$K> = present.iter().chain(&probes).cloned().collect();
            put(cx, log, "traits FzScalarMap", eval(|| by_trait(&mut FzScalarMap::<$K, u64>::new(e.clone()), &all)));
            put(cx, log, "traits FzScalarSet", eval(|| set_by_trait(&FzScalarSet::<$K>::new(keys.clone()), &all)));
            #[cfg(feature = "serde")]
            json_scalar(cx, log, &e.iter().map(|x| (x.0.index() as u64, x.1)).collect::<Vec<_>>());
        }};
    }
    match cx.rng.below(4) {
        0 => case!(u8),
        1 => case!(i32),
        2 => case!(i64),
        _ => case!(std::num::NonZeroU16),
    }
    let pick = cx.rng.u64();
    macro_rules! positions {
        ($K:ty) => {{
            let v = <$K as Key>::list(&mut cx.rng, 60).0;
            put(cx, log, "positions", format!("{:?}", v.iter().map(|k| Scalar::index(k)).collect::<Vec<_>>()));
        }};
    }
    dispatch_scalars!(pick, positions);
}

fn string(cx: &mut Ctx, log: &mut Log) {
    let n = pick_size(cx);
    let (keys, shape) = Box::<str>::list(&mut cx.rng, n);
    let e: Vec<(Box<str>, u64)> = entries(keys.clone());
    let present = distinct(&keys);
    let bh = DynBH::pick(&mut cx.rng, n);
    cx.describe(format!("string shape={shape} n={} hasher={:?}", e.len(), bh.kind));
    let mut probes = Box::<str>::probes(&mut cx.rng, &present, 20);
    probes.push(Box::<str>::random(&mut cx.rng));
    string_maps!(u64, e, bh, |name, m| {
        put(cx, log, name, eval(|| map_text::<Box<str>, str, u64>(&mut In(m), &present, &probes, !name.contains("default"))));
    });
    let (a, b) = (FzStringSet::<Box<str>, _>::with_hasher(keys.clone(), bh.clone()), FzStringSet::<Box<str>, _>::with_hasher(some_of(&keys, &probes), bh.clone()));
    put(cx, log, "FzStringSet operations", eval(|| set_ops!(a, b, true)));
    put(cx, log, "FzStringSet", eval(|| set_text::<Box<str>, str>(&In(a), &present, &probes, true)));
    put(cx, log, "FzStringSet(default hasher)", eval(|| set_text::<Box<str>, str>(&In(FzStringSet::<Box<str>>::new(keys.clone())), &present, &probes, false)));
    put(cx, log, "lengths of strings", format!("{:?}", keys.iter().map(|k| (Len::len(&**k), Len::len(&k.to_string()), Len::is_empty(&**k))).collect::<Vec<_>>()));
    #[cfg(feature = "serde")]
    json_string(cx, log, &e, &bh);
    #[cfg(feature = "emit")]
    emitted(cx, log);
    #[cfg(feature = "macros")]
    expanded(cx, log);
}

mod hashers2 {
    pub use frozen_collections::hashers::BridgeHasher;
}

#[cfg(feature = "serde")]
fn json_string(cx: &mut Ctx, log: &mut Log, e: &[(Box<str>, u64)], bh: &DynBH) {
    let text = eval(|| {
        let m = FzStringMap::<Box<str>, u64, _>::with_hasher(e.to_vec(), bh.clone());
        let j = serde_json::to_string(&m).unwrap();
        let b: FzStringMap<Box<str>, u64> = serde_json::from_str(&j).unwrap();
        let o: FzOrderedMap<String, u64> = serde_json::from_str(&j).unwrap();
        let h: FzHashMap<String, u64, DynBH> = serde_json::from_reader(j.as_bytes()).unwrap();
        let bad = serde_json::from_str::<FzStringMap<Box<str>, u64>>(&j[..j.len() - 1]).is_err();
        format!("{j} {} {} {} {bad}", b == m, serde_json::to_string(&o).unwrap(), serde_json::to_string(&h).unwrap())
    });
    put(cx, log, "serde: strings", text);
}

#[cfg(feature = "serde")]
fn json_scalar(cx: &mut Ctx, log: &mut Log, e: &[(u64, u64)]) {
    let text = eval(|| {
        let m = FzScalarMap::<u64, u64>::new(e.to_vec());
        let j = serde_json::to_string(&m).unwrap();
        let b: FzScalarMap<u64, u64> = serde_json::from_str(&j).unwrap();
        let s = FzScalarSet::<u64>::new(e.iter().map(|x| x.0).collect());
        let js = serde_json::to_string(&s).unwrap();
        let o: FzOrderedSet<u64> = serde_json::from_str(&js).unwrap();
        format!("{j} {} {js} {}", b == m, serde_json::to_string(&o).unwrap())
    });
    put(cx, log, "serde: scalars", text);
}

#[cfg(feature = "emit")]
fn emitted(cx: &mut Ctx, log: &mut Log) {
    use frozen_collections::emit::{CollectionEmitter, CollectionEntry};
    use syn::parse_quote;
    let n = size(&mut cx.rng, 60);
    let kt: syn::Type = syn::parse_str("u32").unwrap();
    let vt: syn::Type = syn::parse_str("u64").unwrap();
    let st: syn::Type = syn::parse_str("&'static str").unwrap();
    let (ints, _) = u32::list(&mut cx.rng, n);
    let mk = || ints.iter().enumerate().map(|(i, k)| CollectionEntry::map_entry(*k, parse_quote!(#k), { let i = i as u64; parse_quote!(#i) })).collect::<Vec<_>>();
    let text = eval(|| {
        let r = CollectionEmitter::new(&kt).value_type(&vt).symbol_name("SYM").alias_name("Alias").const_keys(true).const_values(true).static_instance(true).emit_scalar_collection(mk());
        format!("{:?}", r.map(|t| t.to_string()))
    });
    put(cx, log, "emit: scalar", text);
    let text = eval(|| {
        let r = CollectionEmitter::new(&kt).value_type(&vt).symbol_name("SYM").emit_ordered_collection(mk());
        format!("{:?}", r.map(|t| t.to_string()))
    });
    put(cx, log, "emit: ordered", text);
    let (strs, _) = String::list(&mut cx.rng, n);
    let text = eval(|| {
        let v = strs.iter().map(|k| CollectionEntry::set_entry(k.clone(), parse_quote!(#k))).collect::<Vec<_>>();
        let r = CollectionEmitter::new(&st).symbol_name("SYM").alias_name("Alias").const_keys(true).static_instance(true).emit_string_collection(v);
        // the emitted tables depend on a seed drawn when the library was built
        format!("{:?}", r.map(|_| ()))
    });
    put(cx, log, "emit: string", text);
}

#[cfg(feature = "macros")]
fn expanded(cx: &mut Ctx, log: &mut Log) {
    use frozen_collections_core::macros::*;
    let n = 1 + cx.rng.idx(40);
    let (ints, _) = u32::list(&mut cx.rng, n);
    let (strs, _) = String::list(&mut cx.rng, n);
    let text = |src: String, f: fn(proc_macro2::TokenStream) -> syn::Result<proc_macro2::TokenStream>| {
        eval(|| {
            let t: proc_macro2::TokenStream = src.parse().unwrap();
            match f(t) {
                Ok(t) => t.to_string(),
                Err(e) => format!("error: {e}"),
            }
        })
    };
    let m: String = ints.iter().enumerate().map(|(i, k)| format!("{k}: {i}, ")).collect();
    let s: String = ints.iter().map(|k| format!("{k}, ")).collect();
    put(cx, log, "macros: scalar map", text(format!("static M: T<u32, i32>, {{ {m} }}"), fz_scalar_map_macro));
    put(cx, log, "macros: scalar set", text(format!("{{ {s} }}"), fz_scalar_set_macro));
    put(cx, log, "macros: hash map", text(format!("let m: T<u32, i32>, {{ {m} }}"), fz_hash_map_macro));
    put(cx, log, "macros: ordered set", text(format!("{{ {s} }}"), fz_ordered_set_macro));
    let m: String = strs.iter().enumerate().map(|(i, k)| format!("{k:?}: {i}, ")).collect();
    let s: String = strs.iter().map(|k| format!("{k:?}, ")).collect();
    put(cx, log, "macros: string map", text(format!("static M: T<&'static str, i32>, {{ {m} }}"), fz_string_map_macro).starts_with("error").to_string());
    put(cx, log, "macros: string set", text(format!("{{ {s} }}"), fz_string_set_macro).starts_with("error").to_string());
    let variants: String = (0..n).map(|i| format!("V{i}, ")).collect();
    put(cx, log, "macros: derive", text(format!("enum E {{ {variants} }}"), derive_scalar_macro));
}

fn main() {
    let mut cx = Ctx::from_args();
    let path = std::env::var("FZFEAT_LOG").expect("FZFEAT_LOG");
    let mut log = Log {
        out: std::io::BufWriter::new(std::fs::File::create(format!("{path}.{}", cx.shard)).unwrap()),
        dump: cx.only_case.is_some(),
    };
    let n = cx.n(4000);
    for i in 0..n {
        match i % 3 {
            0 => cx.run(|cx| keyed(cx, &mut log)),
            1 => cx.run(|cx| scalar(cx, &mut log)),
            _ => cx.run(|cx| string(cx, &mut log)),
        }
    }
    log.out.flush().unwrap();
    cx.finish();
}
