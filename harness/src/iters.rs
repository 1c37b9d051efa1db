//! Iterators behind an object-safe interface, keeping access to every overridable method.
use crate::ctx::Ctx;
use std::fmt::Debug;

pub trait It<'a, T> {
    fn next(&mut self) -> Option<T>;
    fn size_hint(&self) -> (usize, Option<usize>);
    /// `ExactSizeIterator::len`, when the iterator is one.
    fn len(&self) -> Option<usize>;
    fn count(self: Box<Self>) -> usize;
    fn fold(self: Box<Self>, f: &mut dyn FnMut(T));
    fn nth(&mut self, n: usize) -> Option<T>;
    fn last(self: Box<Self>) -> Option<T>;
    fn try_clone(&self) -> Option<Box<dyn It<'a, T> + 'a>>;
    fn by_collect(self: Box<Self>) -> Vec<T>;
    fn fused(&self) -> bool;
}

pub type BIt<'a, T> = Box<dyn It<'a, T> + 'a>;

macro_rules! common {
    ($T:ident) => {
        fn next(&mut self) -> Option<$T> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
        fn count(self: Box<Self>) -> usize {
            self.0.count()
        }
        fn fold(self: Box<Self>, f: &mut dyn FnMut($T)) {
            self.0.fold((), |(), x| f(x))
        }
        fn nth(&mut self, n: usize) -> Option<$T> {
            self.0.nth(n)
        }
        fn last(self: Box<Self>) -> Option<$T> {
            self.0.last()
        }
        fn by_collect(self: Box<Self>) -> Vec<$T> {
            self.0.collect()
        }
    };
}

/// Exact, fused and cloneable.
pub struct Full<I>(pub I);
impl<'a, T: 'a, I: Iterator<Item = T> + ExactSizeIterator + Clone + 'a> It<'a, T> for Full<I> {
    common!(T);
    fn len(&self) -> Option<usize> {
        Some(ExactSizeIterator::len(&self.0))
    }
    fn try_clone(&self) -> Option<BIt<'a, T>> {
        Some(Box::new(Full(self.0.clone())))
    }
    fn fused(&self) -> bool {
        true
    }
}

/// Exact and fused.
pub struct NoClone<I>(pub I);
impl<'a, T: 'a, I: Iterator<Item = T> + ExactSizeIterator + 'a> It<'a, T> for NoClone<I> {
    common!(T);
    fn len(&self) -> Option<usize> {
        Some(ExactSizeIterator::len(&self.0))
    }
    fn try_clone(&self) -> Option<BIt<'a, T>> {
        None
    }
    fn fused(&self) -> bool {
        true
    }
}

/// Nothing but an iterator.
pub struct Bare<I>(pub I);
impl<'a, T: 'a, I: Iterator<Item = T> + 'a> It<'a, T> for Bare<I> {
    common!(T);
    fn len(&self) -> Option<usize> {
        None
    }
    fn try_clone(&self) -> Option<BIt<'a, T>> {
        None
    }
    fn fused(&self) -> bool {
        false
    }
}

/// Cloneable and fused, with inexact size hints (set algebra).
pub struct Lazy<I>(pub I);
impl<'a, T: 'a, I: Iterator<Item = T> + Clone + 'a> It<'a, T> for Lazy<I> {
    common!(T);
    fn len(&self) -> Option<usize> {
        None
    }
    fn try_clone(&self) -> Option<BIt<'a, T>> {
        Some(Box::new(Lazy(self.0.clone())))
    }
    fn fused(&self) -> bool {
        true
    }
}

pub fn dbg_of(x: &impl Debug) -> String {
    format!("{x:?}")
}

/// The same iterator with its items turned into something owned.
pub struct Conv<'a, T, X>(pub BIt<'a, T>, pub fn(T) -> X);
impl<'a: 'b, 'b, T: 'a, X: 'b> It<'b, X> for Conv<'a, T, X> {
    fn next(&mut self) -> Option<X> {
        self.0.next().map(self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn len(&self) -> Option<usize> {
        self.0.len()
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn fold(self: Box<Self>, f: &mut dyn FnMut(X)) {
        let g = self.1;
        self.0.fold(&mut |x| f(g(x)));
    }
    fn nth(&mut self, n: usize) -> Option<X> {
        self.0.nth(n).map(self.1)
    }
    fn last(self: Box<Self>) -> Option<X> {
        self.0.last().map(self.1)
    }
    fn try_clone(&self) -> Option<BIt<'b, X>> {
        Some(Box::new(Conv(self.0.try_clone()?, self.1)))
    }
    fn by_collect(self: Box<Self>) -> Vec<X> {
        self.0.by_collect().into_iter().map(self.1).collect()
    }
    fn fused(&self) -> bool {
        self.0.fused()
    }
}

/// Are these the same multiset?
fn same<X: Ord>(a: &mut [X], b: &mut [X]) -> bool {
    a.sort();
    b.sort();
    a == b
}

/// Watches one kind of traversal of a collection that must yield `want` (a multiset).
/// `mk` starts the traversal anew; `exact` says whether the size hints must be exact.
pub fn audit_iter<'a, X: Ord + Clone + Debug + 'a>(
    cx: &mut Ctx,
    name: &str,
    want: &[X],
    exact: bool,
    mk: &mut dyn FnMut(&mut Ctx, &mut dyn FnMut(&mut Ctx, BIt<'_, X>)),
) {
    let n = want.len();
    let mut sorted = want.to_vec();
    sorted.sort();
    fn hint<X>(cx: &mut Ctx, name: &str, it: &dyn It<'_, X>, left: usize, exact: bool, at: &str) {
        let (lo, hi) = it.size_hint();
        let ok = if exact { lo == left && hi == Some(left) } else { lo <= left && hi.is_none_or(|h| h >= left) };
        cx.check(ok, || format!("{name}: size_hint {:?} with {left} items to come ({at})", (lo, hi)));
        if let Some(l) = it.len() {
            cx.check(l == left, || format!("{name}: len() {l} with {left} items to come ({at})"));
        }
        cx.ev("size_hints", 1);
    }

    // stepping through
    mk(cx, &mut |cx, mut it| {
        let mut got = vec![];
        hint(cx, name, &*it, n, exact, "start");
        while let Some(x) = it.next() {
            got.push(x);
            cx.check(got.len() <= n, || format!("{name}: yields more than the {n} items expected: {got:?}"));
            hint(cx, name, &*it, n - got.len(), exact, "stepping");
        }
        let l = got.len();
        cx.check(l == n, || format!("{name}: ended after {l} items, expected {n}"));
        for _ in 0..3 {
            cx.check(it.next().is_none(), || format!("{name}: yields an item after its end"));
            hint(cx, name, &*it, 0, exact, "after the end");
        }
        cx.check(it.nth(0).is_none() && it.nth(2).is_none(), || format!("{name}: nth yields an item after the end"));
        let r = same(&mut got, &mut sorted);
        cx.check(r, || format!("{name}: yields {}, expected {}", clip(&got), clip(&sorted)));
        cx.ev("traversals", 1);
        cx.ev("items", n as u64);
        let c = it.count();
        cx.check(c == 0, || format!("{name}: count() {c} after the end"));
    });

    // from a number of split points
    let splits = [0, n, n / 2, cx.rng.idx(n + 1), cx.rng.idx(n + 1)];
    for (i, &s) in splits.iter().enumerate() {
        for how in 0..6 {
            if (i > 2 || n > 200) && !cx.rng.chance(1, 3) {
                continue;
            }
            mk(cx, &mut |cx, mut it| {
                let mut got: Vec<X> = vec![];
                for _ in 0..s {
                    match it.next() {
                        Some(x) => got.push(x),
                        None => cx.fail(format!("{name}: ended early, after {} of {n}", got.len())),
                    }
                }
                let left = n - s;
                // what stepping a clone yields is what the original must yield in bulk
                let expect: Option<Vec<X>> = it.try_clone().map(|mut c| {
                    let mut v = vec![];
                    while let Some(x) = c.next() {
                        v.push(x);
                        if v.len() > n {
                            break;
                        }
                    }
                    v
                });
                if let Some(e) = &expect {
                    cx.check(e.len() == left, || format!("{name}: a clone made after {s} items yields {} more, expected {left}", e.len()));
                    cx.ev("cloned traversals", 1);
                }
                hint(cx, name, &*it, left, exact, "after cloning");
                match how {
                    0 => {
                        let c = it.count();
                        cx.check(c == left, || format!("{name}: count() = {c} with {left} items to come"));
                    }
                    1 => {
                        let mut rest = vec![];
                        it.fold(&mut |x| rest.push(x));
                        tail(cx, name, "fold", got, rest, expect, &mut sorted);
                    }
                    2 => {
                        let rest = it.by_collect();
                        tail(cx, name, "collect", got, rest, expect, &mut sorted);
                    }
                    3 => {
                        let l = it.last();
                        cx.check(l.is_some() == (left > 0), || format!("{name}: last() = {l:?} with {left} items to come"));
                        if let Some(e) = &expect {
                            cx.check(l.as_ref() == e.last(), || format!("{name}: last() = {l:?}, expected {:?}", e.last()));
                        }
                        if let Some(l) = l {
                            cx.check(sorted.binary_search(&l).is_ok() , || format!("{name}: last() = {l:?} is not an item"));
                        }
                    }
                    4 => {
                        let j = if left == 0 { 0 } else { cx.rng.idx(left + 1) };
                        let x = it.nth(j);
                        cx.check(x.is_some() == (j < left), || format!("{name}: nth({j}) = {x:?} with {left} items to come"));
                        if let Some(e) = &expect {
                            cx.check(x.as_ref() == e.get(j), || format!("{name}: nth({j}) = {x:?}, expected {:?}", e.get(j)));
                        }
                        let after = (left).saturating_sub(j + 1);
                        hint(cx, name, &*it, after, exact, "after nth");
                        let rest = it.by_collect();
                        cx.check(rest.len() == after, || format!("{name}: {} items after nth({j}), expected {after}", rest.len()));
                        if let Some(e) = &expect {
                            cx.check(after == 0 || rest[..] == e[j + 1..], || format!("{name}: yields {} after nth({j}), expected {}", clip(&rest), clip(&e[j + 1..])));
                        }
                        let mut all = got;
                        all.extend(x);
                        all.extend(rest);
                        all.sort();
                        let l = all.len();
                        let sub = all.iter().all(|x| sorted.binary_search(x).is_ok());
                        all.dedup();
                        let mut d = sorted.clone();
                        d.dedup();
                        cx.check(sub && (all.len() == l || d.len() < sorted.len()), || format!("{name}: items repeated or made up around nth({j})"));
                    }
                    _ => {
                        // two independent continuations, interleaved
                        if let Some(mut c) = it.try_clone() {
                            let (mut a, mut b) = (vec![], vec![]);
                            loop {
                                let first = cx.rng.chance(1, 2);
                                let (x, v) = if first { (it.next(), &mut a) } else { (c.next(), &mut b) };
                                match x {
                                    Some(x) => v.push(x),
                                    None => {
                                        while let Some(x) = it.next() {
                                            a.push(x);
                                        }
                                        while let Some(x) = c.next() {
                                            b.push(x);
                                        }
                                        break;
                                    }
                                }
                                cx.check(a.len() <= n && b.len() <= n, || format!("{name}: interleaved clones don't end"));
                            }
                            cx.check(a == b, || format!("{name}: a clone diverges: {} and {}", clip(&a), clip(&b)));
                            tail(cx, name, "clone", got, b, expect, &mut sorted);
                        }
                    }
                }
                cx.ev("bulk operations", 1);
            });
        }
    }
}

fn tail<X: Ord + Debug>(cx: &mut Ctx, name: &str, how: &str, got: Vec<X>, rest: Vec<X>, expect: Option<Vec<X>>, sorted: &mut [X]) {
    if let Some(e) = &expect {
        cx.check(*e == rest, || format!("{name}: {how} yields {}, stepping {}", clip(&rest), clip(e)));
    }
    let s = got.len();
    let mut all = got;
    all.extend(rest);
    let ok = same(&mut all, sorted);
    cx.check(ok, || format!("{name}: {s} steps and then {how} yield {} in all, expected {}", clip(&all), clip(sorted)));
}

pub fn clip<T: Debug + ?Sized>(x: &T) -> String {
    let mut s = format!("{x:?}");
    if s.len() > 300 {
        let mut e = 300;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s.truncate(e);
        s.push_str("...");
    }
    s
}
