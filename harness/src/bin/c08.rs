//! C08: equality, cloning, conversion and formatting against the contents.
use frozen_collections::hashers::BridgeHasher;
use frozen_collections::maps as blocks;
use frozen_collections::*;
use fzmon::adapt::*;
use fzmon::ctx::Ctx;
use fzmon::fam::Probe;
use fzmon::hashers::DynBH;
use fzmon::iters::clip;
use fzmon::keys::*;
use fzmon::model::*;
use std::collections::{BTreeMap, BTreeSet};

/// The items of a `{..}` or `[..]` debug rendering, in plain or pretty form.
fn items(s: &str) -> Option<Vec<String>> {
    let s = s.trim();
    let inner = s.strip_prefix('{')?.strip_suffix('}')?;
    let (mut out, mut cur) = (vec![], String::new());
    let (mut quoted, mut esc, mut depth) = (false, false, 0);
    for c in inner.chars() {
        if quoted {
            cur.push(c);
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                quoted = false;
            }
        } else if c == '"' {
            quoted = true;
            cur.push(c);
        } else if c == ',' && depth == 0 {
            out.push(std::mem::take(&mut cur));
        } else if !c.is_whitespace() {
            match c {
                '{' => depth += 1,
                '}' => {
                    depth -= 1;
                    if cur.ends_with(',') {
                        cur.pop();
                    }
                }
                _ => {}
            }
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out.sort();
    Some(out)
}

fn rendering(cx: &mut Ctx, name: &str, plain: String, pretty: String, want: Vec<String>) {
    let want = items(&format!("{{{}}}", want.join(", "))).expect("a rendering");
    for (how, s) in [("{:?}", plain), ("{:#?}", pretty)] {
        let got = items(&s);
        cx.check(got.as_ref() == Some(&want), || format!("{name}: {how} shows {}, expected the entries {}", clip(&s), clip(&want)));
        cx.ev("renderings", 1);
    }
}

fn map_items<K: Key, V: Val>(m: &BTreeMap<K, V>) -> Vec<String> {
    m.iter().map(|(k, v)| format!("{k:?}:{v:?}")).collect()
}

fn set_items<K: Key>(m: &BTreeSet<K>) -> Vec<String> {
    m.iter().map(|k| format!("{k:?}")).collect()
}

/// Left and right collections must be equal exactly when `want`.
macro_rules! equal {
    ($cx:ident, $want:expr, [$(($an:literal, $a:expr)),* $(,)?], $rights:tt) => {
        $( equal!(@left $cx, $want, $an, $a, $rights); )*
    };
    (@left $cx:ident, $want:expr, $an:literal, $a:expr, [$(($bn:literal, $b:expr)),* $(,)?]) => {
        $(
            let got = $a == $b;
            $cx.check(got == $want, || format!("{} == {} is {got}, expected {}", $an, $bn, $want));
            let ne = $a != $b;
            $cx.check(ne != $want, || format!("{} != {} is {ne}, expected {}", $an, $bn, !$want));
            $cx.ev(if $want { "equal pairs" } else { "unequal pairs" }, 1);
        )*
    };
}

/// Entries that stand in some relation to others, often differing in a single respect.
fn related<K: Key>(cx: &mut Ctx, e: &[(K, u64)]) -> (Vec<(K, u64)>, &'static str) {
    let mut b = e.to_vec();
    if !b.is_empty() {
        cx.rng.shuffle(&mut b);
        // a shuffled list with repeated keys may mean something else: keep the meaning
        let md = model(e);
        b = md.into_iter().collect();
        cx.rng.shuffle(&mut b);
    }
    let rel = match cx.rng.below(7) {
        0 | 1 => "same",
        2 if !b.is_empty() => {
            let i = cx.rng.idx(b.len());
            b[i].1 ^= 1 << cx.rng.below(64);
            "one value"
        }
        3 if !b.is_empty() => {
            b.pop();
            "one fewer"
        }
        4 => {
            b.push((K::random(&mut cx.rng), 77));
            "one more"
        }
        5 if !b.is_empty() => {
            let i = cx.rng.idx(b.len());
            b[i].0 = b[i].0.near(&mut cx.rng);
            "one key"
        }
        6 if b.len() > 1 => {
            let (i, j) = (cx.rng.idx(b.len()), cx.rng.idx(b.len()));
            let t = b[i].1;
            b[i].1 = b[j].1;
            b[j].1 = t;
            "two values swapped"
        }
        _ => {
            // duplicates with the same meaning
            if !b.is_empty() {
                let x = b[cx.rng.idx(b.len())].clone();
                let y = (x.0.clone(), x.1 ^ 99);
                b.insert(0, y);
            }
            "repeated"
        }
    };
    (b, rel)
}

fn lists<K: Key>(cx: &mut Ctx, what: &str) -> (Vec<(K, u64)>, Vec<(K, u64)>, BTreeMap<K, u64>, BTreeMap<K, u64>, DynBH) {
    let max = if cx.rng.chance(1, 20) { 700 } else { 60 };
    let n = size(&mut cx.rng, max);
    let (keys, shape) = K::list(&mut cx.rng, n);
    let a: Vec<(K, u64)> = entries(keys);
    let (b, rel) = related(cx, &a);
    let bh = DynBH::pick(&mut cx.rng, n);
    let (ma, mb) = (model(&a), model(&b));
    cx.describe(format!("{what} shape={shape} {rel} |a|={} |b|={}", ma.len(), mb.len()));
    cx.ev(rel, 1);
    cx.sample(|| format!("{what} {shape}, {rel}: {} and {}", clip(&a), clip(&b)));
    if !ma.is_empty() {
        cx.distinct(fp(&(&a, &b)));
    }
    (a, b, ma, mb, bh)
}

/// Clones keep the contents and are independent of the original.
fn cloning<K: Probe<K>, M: Clone>(cx: &mut Ctx, name: &str, m: M, md: &BTreeMap<K, u64>)
where
    In<M>: MapLook<K, K, u64> + MapChange<K, K, u64>,
{
    let mut orig = In(m.clone());
    let mut copy = In(m);
    let mut changed = md.clone();
    for (k, v) in MapChange::<K, K, u64>::iter_mut(&mut copy).by_collect() {
        *v = v.wrapping_mul(7).wrapping_add(1);
        changed.insert(k.clone(), *v);
    }
    let probes: Vec<K> = md.keys().take(3).map(|k| k.near(&mut cx.rng)).collect();
    audit_map::<K, K, u64>(cx, name, &mut orig, md, &probes);
    audit_map::<K, K, u64>(cx, name, &mut copy, &changed, &probes);
    let again = orig.0.clone();
    drop(orig);
    audit_map::<K, K, u64>(cx, name, &mut In(again), md, &probes);
    let mut target = copy.0.clone();
    target.clone_from(&copy.0);
    drop(copy);
    audit_map::<K, K, u64>(cx, name, &mut In(target), &changed, &probes);
    cx.ev("clones", 4);
}

fn set_cloning<K: Probe<K>, M: Clone>(cx: &mut Ctx, name: &str, m: M, md: &BTreeSet<K>)
where
    In<M>: SetLook<K, K>,
{
    let c = m.clone();
    drop(m);
    let probes: Vec<K> = md.iter().take(3).map(|k| k.near(&mut cx.rng)).collect();
    audit_set::<K, K>(cx, name, &In(c), md, &probes);
    cx.ev("clones", 1);
}

/// Feeds the items through an iterator whose size hint says nothing or little.
fn vague<T: Clone + 'static>(cx: &mut Ctx, e: &[T]) -> Box<dyn Iterator<Item = T>> {
    let v = e.to_vec();
    match cx.rng.below(4) {
        0 => Box::new(v.into_iter()),
        1 => Box::new(v.into_iter().filter(|_| true)),
        2 => {
            let mut it = v.into_iter();
            Box::new(std::iter::from_fn(move || it.next()))
        }
        _ => {
            let h = v.len() / 2;
            let w = v[h..].to_vec();
            Box::new(v.into_iter().take(h).chain(w))
        }
    }
}

/// Builds from an array of the first N items, for a few N.
macro_rules! arrays {
    ($e:ident, [$($n:literal)*], |$a:ident, $part:ident| $body:block) => {
        $( if $e.len() >= $n {
            let $part = &$e[..$n];
            let $a: [_; $n] = std::array::from_fn(|i| $part[i].clone());
            $body
        } )*
    };
}

macro_rules! sets_of {
    ($m:expr) => {
        $m.keys().cloned().collect::<BTreeSet<_>>()
    };
}

fn scalar_case<K: Key + Scalar + Ord + std::hash::Hash>(cx: &mut Ctx, what: &str) {
    let (a, b, ma, mb, bh) = lists::<K>(cx, what);
    let want = ma == mb;
    let fh = FzHashMap::with_hasher(a.clone(), bh.clone());
    let fo = FzOrderedMap::new(a.clone());
    let fs = FzScalarMap::new(a.clone());
    let bl = blocks::HashMap::<K, u64, LargeCollection, _>::with_hasher(a.clone(), BridgeHasher::new(bh.clone())).expect("large");
    let be = blocks::EytzingerSearchMap::new(a.clone());
    let bs = blocks::ScanMap::new(a.clone());
    let lo = a.iter().map(|x| x.0.index()).min().unwrap_or(0);
    let hi = a.iter().map(|x| x.0.index()).max().unwrap_or(0);
    {
        let (gh, go, gs) = (FzHashMap::<K, u64>::new(b.clone()), FzOrderedMap::new(b.clone()), FzScalarMap::new(b.clone()));
        let ge = blocks::EytzingerSearchMap::new(b.clone());
        let gc = blocks::ScanMap::new(b.clone());
        let st: std::collections::HashMap<K, u64> = mb.clone().into_iter().collect();
        let hb: hashbrown::HashMap<K, u64> = mb.clone().into_iter().collect();
        macro_rules! left {
            ($n:literal, $x:expr) => {
                equal!(cx, want, [($n, $x)], [("FzHashMap", gh), ("FzOrderedMap", go), ("FzScalarMap", gs), ("EytzingerSearchMap", ge), ("ScanMap", gc), ("HashMap", st), ("BTreeMap", mb), ("hashbrown HashMap", hb)]);
            };
        }
        left!("FzHashMap", fh);
        left!("FzOrderedMap", fo);
        left!("FzScalarMap", fs);
        left!("HashMap<large>", bl);
        left!("EytzingerSearchMap", be);
        left!("ScanMap", bs);
        if let Ok(d) = blocks::DenseScalarLookupMap::new(a.clone()) {
            left!("DenseScalarLookupMap", d);
            cloning(cx, "clone of DenseScalarLookupMap", d, &ma);
        }
        if hi - lo < 100_000 {
            let d = blocks::SparseScalarLookupMap::new(a.clone());
            left!("SparseScalarLookupMap", d);
            rendering(cx, "SparseScalarLookupMap", format!("{d:?}"), format!("{d:#?}"), map_items(&ma));
            cloning(cx, "clone of SparseScalarLookupMap", d, &ma);
        }
    }
    for (n, p, q) in [
        ("FzHashMap", format!("{fh:?}"), format!("{fh:#?}")),
        ("FzOrderedMap", format!("{fo:?}"), format!("{fo:#?}")),
        ("FzScalarMap", format!("{fs:?}"), format!("{fs:#?}")),
        ("HashMap<large>", format!("{bl:?}"), format!("{bl:#?}")),
        ("EytzingerSearchMap", format!("{be:?}"), format!("{be:#?}")),
        ("ScanMap", format!("{bs:?}"), format!("{bs:#?}")),
    ] {
        rendering(cx, n, p, q, map_items(&ma));
    }
    cloning(cx, "clone of FzHashMap", fh, &ma);
    cloning(cx, "clone of FzOrderedMap", fo, &ma);
    cloning(cx, "clone of FzScalarMap", fs, &ma);
    cloning(cx, "clone of HashMap<large>", bl, &ma);
    cloning(cx, "clone of EytzingerSearchMap", be, &ma);
    cloning(cx, "clone of ScanMap", bs, &ma);

    // sets
    let (sa, sb) = (sets_of!(ma), sets_of!(mb));
    let (ka, kb): (Vec<K>, Vec<K>) = (a.iter().map(|x| x.0.clone()).collect(), b.iter().map(|x| x.0.clone()).collect());
    let want = sa == sb;
    let (h, o, s) = (FzHashSet::with_hasher(ka.clone(), bh.clone()), FzOrderedSet::new(ka.clone()), FzScalarSet::new(ka.clone()));
    let (gh, go, gs) = (FzHashSet::<K>::new(kb.clone()), FzOrderedSet::new(kb.clone()), FzScalarSet::new(kb.clone()));
    let st: std::collections::HashSet<K> = sb.clone().into_iter().collect();
    let hb: hashbrown::HashSet<K> = sb.clone().into_iter().collect();
    equal!(cx, want, [("FzHashSet", h), ("FzOrderedSet", o), ("FzScalarSet", s)],
        [("FzHashSet", gh), ("FzOrderedSet", go), ("FzScalarSet", gs), ("HashSet", st), ("BTreeSet", sb), ("hashbrown HashSet", hb)]);
    rendering(cx, "FzHashSet", format!("{h:?}"), format!("{h:#?}"), set_items(&sa));
    rendering(cx, "FzOrderedSet", format!("{o:?}"), format!("{o:#?}"), set_items(&sa));
    rendering(cx, "FzScalarSet", format!("{s:?}"), format!("{s:#?}"), set_items(&sa));
    set_cloning(cx, "clone of FzHashSet", h, &sa);
    set_cloning(cx, "clone of FzOrderedSet", o, &sa);
    set_cloning(cx, "clone of FzScalarSet", s, &sa);

    // construction from iterators and arrays, and from maps
    let probes: Vec<K> = ma.keys().take(4).map(|k| k.near(&mut cx.rng)).collect();
    macro_rules! built {
        ($n:literal, $t:ty, $s:ty) => {{
            let x = vague(cx, &a).collect::<$t>();
            audit_map::<K, K, u64>(cx, concat!($n, "Map from an iterator"), &mut In(x), &ma, &probes);
            let x = vague(cx, &ka).collect::<$s>();
            audit_set::<K, K>(cx, concat!($n, "Set from an iterator"), &In(x), &sa, &probes);
            arrays!(a, [0 1 2 3 4 5 7 8 9 16 33], |x, part| {
                let md = model(part);
                audit_map::<K, K, u64>(cx, concat!($n, "Map from an array"), &mut In(<$t>::from(x.clone())), &md, &probes);
                let keys = x.map(|y| y.0);
                audit_set::<K, K>(cx, concat!($n, "Set from an array"), &In(<$s>::from(keys)), &sets_of!(md), &probes);
            });
            cx.ev("constructions", 2);
        }};
    }
    built!("FzHash", FzHashMap<K, u64>, FzHashSet<K>);
    built!("FzOrdered", FzOrderedMap<K, u64>, FzOrderedSet<K>);
    built!("FzScalar", FzScalarMap<K, u64>, FzScalarSet<K>);
    let unit: Vec<(K, ())> = ka.iter().map(|k| (k.clone(), ())).collect();
    audit_set::<K, K>(cx, "FzHashSet from a map", &In(FzHashSet::from(FzHashMap::<K, ()>::new(unit.clone()))), &sa, &probes);
    audit_set::<K, K>(cx, "FzOrderedSet from a map", &In(FzOrderedSet::from(FzOrderedMap::<K, ()>::new(unit.clone()))), &sa, &probes);
    audit_set::<K, K>(cx, "FzScalarSet from a map", &In(FzScalarSet::from(FzScalarMap::<K, ()>::new(unit))), &sa, &probes);
    cx.ev("conversions", 3);

    // the default is empty
    let none = BTreeMap::new();
    let keys: Vec<K> = ma.keys().take(5).cloned().chain(probes.iter().cloned()).collect();
    audit_map::<K, K, u64>(cx, "default FzHashMap", &mut In(FzHashMap::<K, u64>::default()), &none, &keys);
    audit_map::<K, K, u64>(cx, "default FzOrderedMap", &mut In(FzOrderedMap::<K, u64>::default()), &none, &keys);
    audit_map::<K, K, u64>(cx, "default FzScalarMap", &mut In(FzScalarMap::<K, u64>::default()), &none, &keys);
    audit_map::<K, K, u64>(cx, "default HashMap", &mut In(blocks::HashMap::<K, u64, MediumCollection, BridgeHasher<DynBH>>::default()), &none, &keys);
    audit_map::<K, K, u64>(cx, "default EytzingerSearchMap", &mut In(blocks::EytzingerSearchMap::<K, u64>::default()), &none, &keys);
    audit_map::<K, K, u64>(cx, "default ScanMap", &mut In(blocks::ScanMap::<K, u64>::default()), &none, &keys);
    audit_map::<K, K, u64>(cx, "default DenseScalarLookupMap", &mut In(blocks::DenseScalarLookupMap::<K, u64>::default()), &none, &keys);
    audit_map::<K, K, u64>(cx, "default SparseScalarLookupMap", &mut In(blocks::SparseScalarLookupMap::<K, u64>::default()), &none, &keys);
    let none = BTreeSet::new();
    audit_set::<K, K>(cx, "default FzHashSet", &In(FzHashSet::<K>::default()), &none, &keys);
    audit_set::<K, K>(cx, "default FzOrderedSet", &In(FzOrderedSet::<K>::default()), &none, &keys);
    audit_set::<K, K>(cx, "default FzScalarSet", &In(FzScalarSet::<K>::default()), &none, &keys);
    cx.ev("defaults", 11);
}

fn strings(cx: &mut Ctx) {
    type K = Box<str>;
    let (a, b, ma, mb, bh) = lists::<K>(cx, "strings");
    let want = ma == mb;
    let f = FzStringMap::new(a.clone());
    let f2 = FzStringMap::with_hasher(a.clone(), bh.clone());
    let fh = FzHashMap::with_hasher(a.clone(), bh.clone());
    let fo = FzOrderedMap::new(a.clone());
    let (gh, go, gs) = (FzHashMap::<K, u64>::new(b.clone()), FzOrderedMap::new(b.clone()), FzStringMap::with_hasher(b.clone(), bh.clone()));
    let st: std::collections::HashMap<K, u64> = mb.clone().into_iter().collect();
    let hb: hashbrown::HashMap<K, u64> = mb.clone().into_iter().collect();
    equal!(cx, want, [("FzStringMap", f), ("FzStringMap(hasher)", f2), ("FzHashMap", fh), ("FzOrderedMap", fo)],
        [("FzHashMap", gh), ("FzOrderedMap", go), ("FzStringMap", gs), ("HashMap", st), ("BTreeMap", mb), ("hashbrown HashMap", hb)]);
    rendering(cx, "FzStringMap", format!("{f:?}"), format!("{f:#?}"), map_items(&ma));
    rendering(cx, "FzStringMap(hasher)", format!("{f2:?}"), format!("{f2:#?}"), map_items(&ma));
    cloning(cx, "clone of FzStringMap", f, &ma);
    cloning(cx, "clone of FzStringMap(hasher)", f2, &ma);

    let (sa, sb) = (sets_of!(ma), sets_of!(mb));
    let (ka, kb): (Vec<K>, Vec<K>) = (a.iter().map(|x| x.0.clone()).collect(), b.iter().map(|x| x.0.clone()).collect());
    let want = sa == sb;
    let s = FzStringSet::new(ka.clone());
    let s2 = FzStringSet::with_hasher(ka.clone(), bh.clone());
    let (gh, go, gs) = (FzHashSet::<K>::new(kb.clone()), FzOrderedSet::new(kb.clone()), FzStringSet::with_hasher(kb.clone(), bh.clone()));
    let st: std::collections::HashSet<K> = sb.clone().into_iter().collect();
    let hb: hashbrown::HashSet<K> = sb.clone().into_iter().collect();
    equal!(cx, want, [("FzStringSet", s), ("FzStringSet(hasher)", s2)],
        [("FzHashSet", gh), ("FzOrderedSet", go), ("FzStringSet", gs), ("HashSet", st), ("BTreeSet", sb), ("hashbrown HashSet", hb)]);
    rendering(cx, "FzStringSet", format!("{s:?}"), format!("{s:#?}"), set_items(&sa));
    set_cloning(cx, "clone of FzStringSet", s, &sa);
    set_cloning(cx, "clone of FzStringSet(hasher)", s2, &sa);

    let probes: Vec<K> = ma.keys().take(4).map(|k| k.near(&mut cx.rng)).collect();
    let x = vague(cx, &a).collect::<FzStringMap<K, u64>>();
            audit_map::<K, K, u64>(cx, "FzStringMap from an iterator", &mut In(x), &ma, &probes);
    let x = vague(cx, &ka).collect::<FzStringSet<K>>();
            audit_set::<K, K>(cx, "FzStringSet from an iterator", &In(x), &sa, &probes);
    arrays!(a, [0 1 2 3 4 5 7 8 9 16 33], |x, part| {
        let md = model(part);
        audit_map::<K, K, u64>(cx, "FzStringMap from an array", &mut In(FzStringMap::<K, u64>::from(x.clone())), &md, &probes);
        let keys = x.map(|y| y.0);
        audit_set::<K, K>(cx, "FzStringSet from an array", &In(FzStringSet::<K>::from(keys)), &sets_of!(md), &probes);
    });
    cx.ev("constructions", 2);
    let unit: Vec<(K, ())> = ka.iter().map(|k| (k.clone(), ())).collect();
    audit_set::<K, K>(cx, "FzStringSet from a map", &In(FzStringSet::from(FzStringMap::<K, ()>::new(unit))), &sa, &probes);
    cx.ev("conversions", 1);
    let keys: Vec<K> = ma.keys().take(5).cloned().chain(probes.iter().cloned()).collect();
    audit_map::<K, K, u64>(cx, "default FzStringMap", &mut In(FzStringMap::<K, u64>::default()), &BTreeMap::new(), &keys);
    audit_set::<K, K>(cx, "default FzStringSet", &In(FzStringSet::<K>::default()), &BTreeSet::new(), &keys);
    cx.ev("defaults", 2);
}

#[cfg(feature = "fixture")]
mod fixture {
    use super::*;
    macro_rules! visit_map {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty, $V:ty) => {
            $cx.run(|cx| {
                let a: Vec<($K, u64)> = $e;
                let ma = model(&a);
                let m = $m;
                for _ in 0..20 {
                    let (b, rel) = related(cx, &a);
                    let mb = model(&b);
                    let want = ma == mb;
                    cx.describe(format!("{} with {rel}", $desc));
                    let h = FzHashMap::<$K, u64>::new(b.clone());
                    let o = FzOrderedMap::<$K, u64>::new(b.clone());
                    equal!(cx, want, [("inline map", m)], [("FzHashMap", h), ("FzOrderedMap", o), ("BTreeMap", mb)]);
                    equal!(cx, want, [("FzHashMap", h), ("FzOrderedMap", o)], [("inline map", m)]);
                }
                let c = m.clone();
                equal!(cx, true, [("inline map", m)], [("its clone", c)]);
                rendering(cx, "inline map", format!("{m:?}"), format!("{m:#?}"), map_items(&ma));
                cloning::<$K, _>(cx, "clone of inline map", m, &ma);
                cx.ev("inline collections", 1);
            });
        };
    }
    macro_rules! visit_set {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty) => {
            $cx.run(|cx| {
                let a: Vec<($K, u64)> = entries::<$K, u64>($e);
                let ma: BTreeSet<$K> = a.iter().map(|x| x.0.clone()).collect();
                let m = $m;
                for _ in 0..20 {
                    let (b, rel) = related(cx, &a);
                    let b: Vec<$K> = b.into_iter().map(|x| x.0).collect();
                    let mb: BTreeSet<$K> = b.iter().cloned().collect();
                    let want = ma == mb;
                    cx.describe(format!("{} with {rel}", $desc));
                    let h = FzHashSet::<$K>::new(b.clone());
                    let o = FzOrderedSet::<$K>::new(b.clone());
                    equal!(cx, want, [("inline set", m)], [("FzHashSet", h), ("FzOrderedSet", o), ("BTreeSet", mb)]);
                    equal!(cx, want, [("FzHashSet", h), ("FzOrderedSet", o)], [("inline set", m)]);
                }
                let c = m.clone();
                equal!(cx, true, [("inline set", m)], [("its clone", c)]);
                rendering(cx, "inline set", format!("{m:?}"), format!("{m:#?}"), set_items(&ma));
                set_cloning::<$K, _>(cx, "clone of inline set", m, &ma);
                cx.ev("inline collections", 1);
            });
        };
    }
    include!(env!("FZMON_FIXTURE"));
}

fn main() {
    let mut cx = Ctx::from_args();
    #[cfg(feature = "fixture")]
    fixture::run(&mut cx);
    let n = cx.n(6000);
    for i in 0..n {
        match i % 4 {
            0 => cx.run(|cx| scalar_case::<i16>(cx, "i16")),
            1 => cx.run(|cx| scalar_case::<Hue>(cx, "enum")),
            2 => cx.run(|cx| scalar_case::<i64>(cx, "i64")),
            _ => cx.run(strings),
        }
    }
    cx.finish();
}
