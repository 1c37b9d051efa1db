//! C07: set algebra.
use frozen_collections::*;
use fzmon::ctx::Ctx;
use fzmon::hashers::DynBH;
use fzmon::iters::*;
use fzmon::keys::*;
use fzmon::model::*;
use std::collections::BTreeSet;

/// The four lazy results and the three tests of a pair of sets.
macro_rules! pair {
    ($cx:ident, $T:ty, $an:expr, $a:expr, $bn:expr, $b:expr, $ma:expr, $mb:expr) => {{
        let (a, b, ma, mb): (_, _, &BTreeSet<$T>, &BTreeSet<$T>) = (&$a, &$b, &$ma, &$mb);
        let pair = format!("{} and {}", $an, $bn);
        lazy($cx, &pair, "union", ma.union(mb), &mut |cx, with| with(cx, Box::new(Conv(Box::new(Lazy(SetOps::<$T>::union(a, b))), Clone::clone))));
        lazy($cx, &pair, "intersection", ma.intersection(mb), &mut |cx, with| with(cx, Box::new(Conv(Box::new(Lazy(SetOps::<$T>::intersection(a, b))), Clone::clone))));
        lazy($cx, &pair, "difference", ma.difference(mb), &mut |cx, with| with(cx, Box::new(Conv(Box::new(Lazy(SetOps::<$T>::difference(a, b))), Clone::clone))));
        lazy($cx, &pair, "symmetric_difference", ma.symmetric_difference(mb), &mut |cx, with| {
            with(cx, Box::new(Conv(Box::new(Lazy(SetOps::<$T>::symmetric_difference(a, b))), Clone::clone)))
        });
        tests($cx, &pair, "is_disjoint", SetOps::<$T>::is_disjoint(a, b), ma.is_disjoint(mb));
        tests($cx, &pair, "is_subset", SetOps::<$T>::is_subset(a, b), ma.is_subset(mb));
        tests($cx, &pair, "is_superset", SetOps::<$T>::is_superset(a, b), ma.is_superset(mb));
        // the debug rendering of a lazy result shows it without consuming it
        let u = SetOps::<$T>::intersection(a, b);
        let _ = format!("{u:?}");
        let c = u.count();
        $cx.check(c == ma.intersection(mb).count(), || format!("{pair}: intersection of {c} after rendering it"));
        $cx.ev("pairs", 1);
        if !ma.is_empty() && !mb.is_empty() {
            $cx.distinct(fzmon::rng::mix(situation($an, ma.iter()), situation($bn, mb.iter())));
        }
    }};
}

/// The operator forms; the left side must be a frozen set.
macro_rules! ops {
    ($cx:ident, $T:ty, $an:expr, $a:expr, $bn:expr, $b:expr, $ma:expr, $mb:expr) => {{
        let (a, b, ma, mb): (_, _, &BTreeSet<$T>, &BTreeSet<$T>) = (&$a, &$b, &$ma, &$mb);
        let pair = format!("{} and {}", $an, $bn);
        operator($cx, &pair, "|", &(a | b), ma.union(mb));
        operator($cx, &pair, "&", &(a & b), ma.intersection(mb));
        operator($cx, &pair, "-", &(a - b), ma.difference(mb));
        operator($cx, &pair, "^", &(a ^ b), ma.symmetric_difference(mb));
    }};
}

fn lazy<'a, T: Key>(cx: &mut Ctx, pair: &str, op: &str, want: impl Iterator<Item = &'a T>, mk: &mut dyn FnMut(&mut Ctx, &mut dyn FnMut(&mut Ctx, BIt<'_, T>))) {
    let want: Vec<T> = want.cloned().collect();
    let name = format!("{op} of {pair}");
    audit_iter(cx, &name, &want, false, mk);
    cx.ev(op, 1);
}

fn tests(cx: &mut Ctx, pair: &str, op: &str, got: bool, want: bool) {
    cx.check(got == want, || format!("{op} of {pair} = {got}"));
    cx.ev(if want { "tests true" } else { "tests false" }, 1);
}

fn operator<'a, T: Key>(cx: &mut Ctx, pair: &str, op: &str, got: &hashbrown::HashSet<T>, want: impl Iterator<Item = &'a T>) {
    let want: BTreeSet<T> = want.cloned().collect();
    let g: BTreeSet<T> = got.iter().cloned().collect();
    cx.check(g == want && got.len() == want.len(), || format!("{op} of {pair} = {}, expected {}", clip(&g), clip(&want)));
    cx.ev("operators", 1);
}

/// A second list standing in some relation to the first.
fn related<T: Key>(cx: &mut Ctx, a: &[T]) -> (Vec<T>, &'static str) {
    let mut b: Vec<T>;
    let rel;
    match cx.rng.below(8) {
        0 => {
            b = a.to_vec();
            rel = "equal";
        }
        1 => {
            b = a.iter().filter(|_| cx.rng.chance(1, 2)).cloned().collect();
            rel = "subset";
        }
        2 => {
            b = a.to_vec();
            let n = 1 + cx.rng.idx(8);
            b.extend(T::list(&mut cx.rng, n).0);
            rel = "superset";
        }
        3 => {
            let n = size(&mut cx.rng, 40);
            b = T::list(&mut cx.rng, n).0;
            b.retain(|x| !a.contains(x));
            rel = "disjoint";
        }
        4 => {
            b = vec![];
            rel = "empty";
        }
        5 => {
            b = a.to_vec();
            if !b.is_empty() {
                let i = cx.rng.idx(b.len());
                b[i] = b[i].near(&mut cx.rng);
            }
            rel = "one different";
        }
        6 => {
            b = a.iter().filter(|_| cx.rng.chance(1, 2)).cloned().collect();
            let n = a.len().max(1);
            for _ in 0..n {
                let x = if a.is_empty() { T::random(&mut cx.rng) } else { cx.rng.pick(a).clone().near(&mut cx.rng) };
                b.push(x);
            }
            rel = "overlapping";
        }
        _ => {
            let n = size(&mut cx.rng, 40);
            b = T::list(&mut cx.rng, n).0;
            rel = "independent";
        }
    }
    cx.rng.shuffle(&mut b);
    (b, rel)
}

macro_rules! against {
    ($cx:ident, $T:ty, $an:expr, $a:ident, $ma:ident, $mb:ident, frozen, [$(($bn:expr, $b:ident)),*]) => {{
        $(
            if $cx.rng.chance(1, 2) {
                pair!($cx, $T, $an, $a, $bn, $b, $ma, $mb);
                ops!($cx, $T, $an, $a, $bn, $b, $ma, $mb);
            }
        )*
    }};
    ($cx:ident, $T:ty, $an:expr, $a:ident, $ma:ident, $mb:ident, std, [$(($bn:expr, $b:ident)),*]) => {{
        $(
            if $cx.rng.chance(1, 2) {
                pair!($cx, $T, $an, $a, $bn, $b, $ma, $mb);
            }
        )*
    }};
}

fn lists<T: Key>(cx: &mut Ctx, what: &str) -> (Vec<T>, Vec<T>, BTreeSet<T>, BTreeSet<T>, DynBH) {
    let n = size(&mut cx.rng, 40);
    let (a, shape) = T::list(&mut cx.rng, n);
    let (b, rel) = related(cx, &a);
    let bh = DynBH::pick(&mut cx.rng, n);
    let (a, b) = if cx.rng.chance(1, 2) { (a, b) } else { (b, a) };
    let ma: BTreeSet<T> = a.iter().cloned().collect();
    let mb: BTreeSet<T> = b.iter().cloned().collect();
    cx.describe(format!("{what} shape={shape} {rel} |a|={} |b|={}", ma.len(), mb.len()));
    cx.ev(rel, 1);
    cx.sample(|| format!("{shape}, {rel}: {} and {}", clip(&a), clip(&b)));
    (a, b, ma, mb, bh)
}

macro_rules! scalar_case {
    ($cx:ident, $T:ty) => {{
        let (a, b, ma, mb, bh) = lists::<$T>($cx, stringify!($T));
        let (ah, bhs) = (FzHashSet::with_hasher(a.clone(), bh.clone()), FzHashSet::with_hasher(b.clone(), bh));
        let (ao, bo) = (FzOrderedSet::new(a.clone()), FzOrderedSet::new(b.clone()));
        let (asc, bsc) = (FzScalarSet::new(a.clone()), FzScalarSet::new(b.clone()));
        let (ast, bst): (std::collections::HashSet<$T>, std::collections::HashSet<$T>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
        let (abt, bbt) = (ma.clone(), mb.clone());
        let (ahb, bhb): (hashbrown::HashSet<$T>, hashbrown::HashSet<$T>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
        macro_rules! all {
            ($an:expr, $x:ident, $kind:ident) => {
                against!($cx, $T, $an, $x, ma, mb, $kind, [
                    ("FzHashSet", bhs), ("FzOrderedSet", bo), ("FzScalarSet", bsc), ("std HashSet", bst), ("BTreeSet", bbt), ("hashbrown HashSet", bhb)
                ])
            };
        }
        match $cx.rng.below(6) {
            0 => all!("FzHashSet", ah, frozen),
            1 => all!("FzOrderedSet", ao, frozen),
            2 => all!("FzScalarSet", asc, frozen),
            3 => all!("std HashSet", ast, std),
            4 => all!("BTreeSet", abt, std),
            _ => all!("hashbrown HashSet", ahb, std),
        }
    }};
}

fn scalars(cx: &mut Ctx) {
    if cx.rng.chance(1, 2) { scalar_case!(cx, i16) } else { scalar_case!(cx, Hue) }
}

fn strings(cx: &mut Ctx) {
    type T = Box<str>;
    let (a, b, ma, mb, bh) = lists::<T>(cx, "strings");
    let (ah, bhs) = (FzHashSet::with_hasher(a.clone(), bh.clone()), FzHashSet::with_hasher(b.clone(), bh.clone()));
    let (ao, bo) = (FzOrderedSet::new(a.clone()), FzOrderedSet::new(b.clone()));
    let (asc, bsc) = (FzStringSet::new(a.clone()), FzStringSet::with_hasher(b.clone(), bh));
    let (ast, bst): (std::collections::HashSet<T>, std::collections::HashSet<T>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
    let (abt, bbt) = (ma.clone(), mb.clone());
    let (ahb, bhb): (hashbrown::HashSet<T>, hashbrown::HashSet<T>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
    macro_rules! all {
        ($an:expr, $x:ident, $kind:ident) => {
            against!(cx, T, $an, $x, ma, mb, $kind, [
                ("FzHashSet", bhs), ("FzOrderedSet", bo), ("FzStringSet", bsc), ("std HashSet", bst), ("BTreeSet", bbt), ("hashbrown HashSet", bhb)
            ])
        };
    }
    match cx.rng.below(6) {
        0 => all!("FzHashSet", ah, frozen),
        1 => all!("FzOrderedSet", ao, frozen),
        2 => all!("FzStringSet", asc, frozen),
        3 => all!("std HashSet", ast, std),
        4 => all!("BTreeSet", abt, std),
        _ => all!("hashbrown HashSet", ahb, std),
    }
}

#[cfg(feature = "fixture")]
mod fixture {
    use super::*;
    macro_rules! visit_map {
        ($cx:ident, $($x:tt)*) => { let _ = $cx; };
    }
    macro_rules! visit_set {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty) => {
            $cx.run(|cx| {
                let a: Vec<$K> = $e;
                let ma: BTreeSet<$K> = a.iter().cloned().collect();
                let m = $m;
                for _ in 0..12 {
                    let (b, rel) = related(cx, &a);
                    let mb: BTreeSet<$K> = b.iter().cloned().collect();
                    cx.describe(format!("{} with {rel}", $desc));
                    let h = FzHashSet::<$K>::new(b.clone());
                    let o = FzOrderedSet::<$K>::new(b.clone());
                    pair!(cx, $K, "inline set", m, "FzHashSet", h, ma, mb);
                    ops!(cx, $K, "inline set", m, "FzHashSet", h, ma, mb);
                    pair!(cx, $K, "FzOrderedSet", o, "inline set", m, mb, ma);
                    pair!(cx, $K, "inline set", m, "inline set", m, ma, ma);
                }
                cx.ev("inline collections", 1);
            });
        };
    }
    include!(env!("FZMON_FIXTURE"));
}

fn main() {
    let mut cx = Ctx::from_args();
    #[cfg(feature = "fixture")]
    fixture::run(&mut cx);
    let n = cx.n(24_000);
    for i in 0..n {
        if i % 2 == 0 { cx.run(scalars) } else { cx.run(strings) }
    }
    cx.finish();
}
