//! C16: everything through the traits.
use frozen_collections::*;
use fzmon::adapt::*;
use fzmon::ctx::Ctx;
use fzmon::fam::Probe;
use fzmon::hashers::DynBH;
use fzmon::keys::*;
use fzmon::model::*;
use fzmon::monitors::*;
use fzmon::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

/// A map seen through the traits only: lookups, traversals and changes.
fn map_by_trait<K: Probe<Q>, Q: ?Sized + Eq, V: Val, M>(cx: &mut Ctx, name: &str, m: M, md: &BTreeMap<K, V>, probes: &[K])
where
    M: Map<K, V, Q> + Clone + 'static,
{
    audit_map::<K, Q, V>(cx, name, &mut Tr(m.clone()), md, probes);
    change::<K, Q, V>(cx, name, &mut Tr(m.clone()), md, probes, 10);
    let want: Vec<(K, V)> = md.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    if want.len() < 100 {
        walk_map::<K, V>(cx, name, &mut Tr(m.clone()), &want, false);
    }
    // the query trait can also be used as an object
    let o: &dyn MapQuery<Q, V> = &m;
    cx.check(o.len() == md.len(), || format!("{name}: len() = {} as an object", o.len()));
    for k in md.keys().take(5).chain(probes.iter().take(5)) {
        k.with(|q| {
            let g = o.get(q);
            cx.check(g == md.get(k) && o.contains_key(q) == g.is_some(), || format!("{name}: get({k:?}) = {g:?} as an object"));
        });
    }
    cx.ev("maps by trait", 1);
}

fn set_by_trait<T: Probe<Q>, Q: ?Sized, S>(cx: &mut Ctx, name: &str, s: S, md: &BTreeSet<T>, probes: &[T])
where
    S: Set<T, Q> + Clone + 'static,
    S::IntoIter: 'static,
{
    audit_set::<T, Q>(cx, name, &Tr(s.clone()), md, probes);
    let want: Vec<T> = md.iter().cloned().collect();
    if want.len() < 100 {
        walk_set::<T>(cx, name, &Tr(s.clone()), &want, false);
    }
    let o: &dyn SetQuery<Q> = &s;
    cx.check(o.len() == md.len(), || format!("{name}: len() = {} as an object", o.len()));
    for k in md.iter().take(5).chain(probes.iter().take(5)) {
        k.with(|q| {
            let g = o.contains(q);
            cx.check(g == md.contains(k), || format!("{name}: contains({k:?}) = {g} as an object"));
        });
    }
    cx.ev("sets by trait", 1);
}

/// The foreign maps, which must agree.
macro_rules! foreign_maps {
    ($cx:ident, $K:ty, $Q:ty, $V:ty, $md:ident, $bh:expr, $probes:ident) => {{
        let s: std::collections::HashMap<$K, $V, DynBH> = { let mut m = std::collections::HashMap::with_hasher($bh.clone()); m.extend($md.clone()); m };
        map_by_trait::<$K, $Q, $V, _>($cx, "std HashMap", s, &$md, &$probes);
        let s: hashbrown::HashMap<$K, $V, DynBH> = { let mut m = hashbrown::HashMap::with_hasher($bh.clone()); m.extend($md.clone()); m };
        map_by_trait::<$K, $Q, $V, _>($cx, "hashbrown HashMap", s, &$md, &$probes);
    }};
}
macro_rules! foreign_sets {
    ($cx:ident, $K:ty, $Q:ty, $sd:ident, $bh:expr, $probes:ident) => {{
        let s: hashbrown::HashSet<$K, DynBH> = { let mut m = hashbrown::HashSet::with_hasher($bh.clone()); m.extend($sd.clone()); m };
        set_by_trait::<$K, $Q, _>($cx, "hashbrown HashSet", s, &$sd, &$probes);
    }};
}

fn keyed(cx: &mut Ctx) {
    let pick = cx.rng.u64();
    macro_rules! case {
        ($K:ty, $Q:ty, $V:ty, $sized:tt, $std:tt) => {{
            let n = size(&mut cx.rng, 300);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, $V)> = entries(keys.clone());
            let md = model(&e);
            let sd: BTreeSet<$K> = keys.iter().cloned().collect();
            let bh = DynBH::pick(&mut cx.rng, n);
            cx.describe(format!("{} as {} shape={shape} n={} distinct={} hasher={:?}", stringify!($K), stringify!($Q), e.len(), md.len(), bh.kind));
            let present: Vec<$K> = md.keys().cloned().collect();
            let probes = <$K>::probes(&mut cx.rng, &present, 30);
            hash_maps!($K, $V, e, bh, md.len(), |name, m| {
                map_by_trait::<$K, $Q, $V, _>(cx, name, m, &md, &probes);
            });
            ord_maps!($K, $V, e, |name, m| {
                map_by_trait::<$K, $Q, $V, _>(cx, name, m, &md, &probes);
            });
            hash_sets!($K, keys, bh, |name, m| {
                set_by_trait::<$K, $Q, _>(cx, name, m, &sd, &probes);
            });
            ord_sets!($K, keys, |name, m| {
                set_by_trait::<$K, $Q, _>(cx, name, m, &sd, &probes);
            });
            foreign_sets!(cx, $K, $Q, sd, bh, probes);
            case!(@std $std, $K, $Q, $V, md, sd, bh, probes);
            case!(@sized $sized, $K, $Q, $V, md, sd, bh, probes);
            cx.sample(|| format!("{shape}: {:?}", e.iter().map(|x| &x.0).take(12).collect::<Vec<_>>()));
        }};
        (@std true, $K:ty, $Q:ty, $V:ty, $md:ident, $sd:ident, $bh:ident, $probes:ident) => {
            foreign_maps!(cx, $K, $Q, $V, $md, $bh, $probes)
        };
        (@sized true, $K:ty, $Q:ty, $V:ty, $md:ident, $sd:ident, $bh:ident, $probes:ident) => {
            map_by_trait::<$K, $Q, $V, _>(cx, "BTreeMap", $md.clone(), &$md, &$probes);
            set_by_trait::<$K, $Q, _>(cx, "BTreeSet", $sd.clone(), &$sd, &$probes);
            let s: std::collections::HashSet<$K, DynBH> = { let mut m = std::collections::HashSet::with_hasher($bh.clone()); m.extend($sd.clone()); m };
            set_by_trait::<$K, $Q, _>(cx, "std HashSet", s, &$sd, &$probes);
        };
        (@$other:ident false, $($x:tt)*) => {};
    }
    match pick % 7 {
        0 => case!(u64, u64, u64, true, true),
        1 => case!(String, str, String, false, true),
        2 => case!(Vec<u8>, [u8], Box<u64>, false, true),
        3 => case!(Pt, PtRef, u64, false, false),
        4 => case!(Ci, Ci, u64, true, true),
        5 => case!(Coarse, Coarse, (), true, true),
        _ => case!(Fat, Fat, (u8, [u64; 4]), true, true),
    }
}

fn scalar(cx: &mut Ctx) {
    let pick = cx.rng.u64();
    macro_rules! case {
        ($K:ty) => {{
            let n = size(&mut cx.rng, 300);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, u64)> = entries(keys.clone());
            let md = model(&e);
            let sd: BTreeSet<$K> = keys.iter().cloned().collect();
            cx.describe(format!("scalar {} shape={shape} n={} distinct={}", stringify!($K), e.len(), md.len()));
            let present: Vec<$K> = md.keys().cloned().collect();
            let probes = <$K>::probes(&mut cx.rng, &present, 30);
            scalar_maps!($K, u64, e, |name, m| {
                map_by_trait::<$K, $K, u64, _>(cx, name, m, &md, &probes);
            });
            scalar_sets!($K, keys, |name, m| {
                set_by_trait::<$K, $K, _>(cx, name, m, &sd, &probes);
            });
        }};
    }
    match pick % 5 {
        0 => case!(u8),
        1 => case!(i32),
        2 => case!(WideU),
        3 => case!(Hue),
        _ => case!(std::num::NonZeroI16),
    }
}

fn string(cx: &mut Ctx) {
    type K = Box<str>;
    let n = size(&mut cx.rng, 300);
    let (keys, shape) = K::list(&mut cx.rng, n);
    let e: Vec<(K, u64)> = entries(keys.clone());
    let md = model(&e);
    let sd: BTreeSet<K> = keys.iter().cloned().collect();
    let bh = DynBH::pick(&mut cx.rng, n);
    cx.describe(format!("string shape={shape} n={} distinct={} hasher={:?}", e.len(), md.len(), bh.kind));
    let present: Vec<K> = md.keys().cloned().collect();
    let probes = K::probes(&mut cx.rng, &present, 30);
    string_maps!(u64, e, bh, |name, m| {
        map_by_trait::<K, K, u64, _>(cx, name, m.clone(), &md, &probes);
        map_by_trait::<K, String, u64, _>(cx, name, m, &md, &probes);
    });
    string_sets!(keys, bh, |name, m| {
        set_by_trait::<K, K, _>(cx, name, m.clone(), &sd, &probes);
        set_by_trait::<K, String, _>(cx, name, m, &sd, &probes);
    });
}

/// The length trait on everything else that implements it.
fn lengths(cx: &mut Ctx) {
    let n = size(&mut cx.rng, 70);
    cx.describe(format!("lengths of {n}"));
    fn one<L: Len + ?Sized>(cx: &mut Ctx, what: &str, l: &L, n: usize) {
        cx.check(Len::len(l) == n, || format!("{what}: Len::len = {}, expected {n}", Len::len(l)));
        cx.check(Len::is_empty(l) == (n == 0), || format!("{what}: Len::is_empty = {} with {n}", Len::is_empty(l)));
        cx.ev("lengths", 1);
    }
    let v: Vec<u32> = (0..n as u32).collect();
    let s: String = (0..n).map(|i| char::from(b'a' + (i % 26) as u8)).collect();
    let u = s.replace('b', "é");
    one(cx, "String", &s, n);
    one(cx, "str", s.as_str(), n);
    one(cx, "&str", &s.as_str(), n);
    one(cx, "multi-byte str", u.as_str(), u.len());
    one(cx, "CString", &std::ffi::CString::new(s.clone()).unwrap(), n);
    one(cx, "CStr", std::ffi::CString::new(s.clone()).unwrap().as_c_str(), n);
    one(cx, "OsString", &std::ffi::OsString::from(&s), n);
    one(cx, "OsStr", std::ffi::OsStr::new(&s), n);
    one(cx, "[T]", v.as_slice(), n);
    one(cx, "Vec", &v, n);
    one(cx, "Box<[T]>", &v.clone().into_boxed_slice(), n);
    one(cx, "Rc<str>", &std::rc::Rc::<str>::from(s.as_str()), n);
    one(cx, "Arc<str>", &std::sync::Arc::<str>::from(s.as_str()), n);
    one(cx, "Box<Vec>", &Box::new(v.clone()), n);
    one(cx, "VecDeque", &v.iter().copied().collect::<VecDeque<u32>>(), n);
    one(cx, "BinaryHeap", &v.iter().copied().collect::<std::collections::BinaryHeap<u32>>(), n);
    one(cx, "LinkedList", &v.iter().copied().collect::<std::collections::LinkedList<u32>>(), n);
    one(cx, "BTreeSet", &v.iter().copied().collect::<BTreeSet<u32>>(), n);
    one(cx, "BTreeMap", &v.iter().map(|x| (*x, ())).collect::<BTreeMap<u32, ()>>(), n);
    one(cx, "HashSet", &v.iter().copied().collect::<std::collections::HashSet<u32>>(), n);
    one(cx, "HashMap", &v.iter().map(|x| (*x, ())).collect::<std::collections::HashMap<u32, ()>>(), n);
    one(cx, "hashbrown HashSet", &v.iter().copied().collect::<hashbrown::HashSet<u32>>(), n);
    one(cx, "hashbrown HashMap", &v.iter().map(|x| (*x, ())).collect::<hashbrown::HashMap<u32, ()>>(), n);
}

#[cfg(feature = "fixture")]
mod fixture {
    use super::*;
    /// Strings are looked up by trait in the form they are stored in, where that form is unsized.
    macro_rules! visit_map {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, str, $V:ty) => { visit_map!($cx, $desc, $m, $e, $K, $K, $V) };
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty, $V:ty) => {
            $cx.run(|cx| {
                cx.describe($desc.into());
                let e: Vec<($K, $V)> = $e;
                let md = model(&e);
                let present: Vec<$K> = md.keys().cloned().collect();
                let probes = <$K>::probes(&mut cx.rng, &present, 30);
                map_by_trait::<$K, $Q, $V, _>(cx, "inline map", $m, &md, &probes);
                cx.ev("inline collections", 1);
            });
        };
    }
    macro_rules! visit_set {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, str) => { visit_set!($cx, $desc, $m, $e, $K, $K) };
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty) => {
            $cx.run(|cx| {
                cx.describe($desc.into());
                let e: Vec<$K> = $e;
                let sd: BTreeSet<$K> = e.into_iter().collect();
                let present: Vec<$K> = sd.iter().cloned().collect();
                let probes = <$K>::probes(&mut cx.rng, &present, 30);
                set_by_trait::<$K, $Q, _>(cx, "inline set", $m, &sd, &probes);
                cx.ev("inline collections", 1);
            });
        };
    }
    include!(env!("FZMON_FIXTURE"));
}

fn main() {
    let mut cx = Ctx::from_args();
    #[cfg(feature = "fixture")]
    fixture::run(&mut cx);
    let n = cx.n(2400);
    for i in 0..n {
        match i % 7 {
            0 | 3 => cx.run(keyed),
            1 | 4 => cx.run(scalar),
            2 | 5 => cx.run(string),
            _ => cx.run(lengths),
        }
    }
    cx.finish();
}
