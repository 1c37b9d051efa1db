//! C18: codes of equal keys in every form and variant of each hashing strategy, and the lengths these rest on.
use fzmon::ctx::{self, Ctx};
use fzmon::hashers::DynBH;
use fzmon::keys::{FOREIGN, WideI, WideU};
use fzmon::rng::mix;
use frozen_collections::hashers::*;
use frozen_collections::{CollectionMagnitude, Hasher, LargeCollection, Len, MediumCollection, Scalar, SmallCollection};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

/// The hashers of a strategy, by the way they were made, and the part of a key that it is about.
struct Case {
    name: String,
    range: std::ops::Range<usize>,
    right: bool,
}

impl Case {
    fn part<'a, T>(&self, v: &'a [T]) -> Option<&'a [T]> {
        let n = v.len();
        if n < self.range.end {
            None
        } else if self.right {
            Some(&v[n - self.range.end..n - self.range.start])
        } else {
            Some(&v[self.range.clone()])
        }
    }
}

/// Every hasher implements the trait for each of these.
trait ForStr: Hasher<str> + for<'a> Hasher<&'a str> + Hasher<String> + Hasher<Box<str>> + Hasher<Rc<str>> + Hasher<Arc<str>> + for<'a> Hasher<Cow<'a, str>> {}
impl<H: Hasher<str> + for<'a> Hasher<&'a str> + Hasher<String> + Hasher<Box<str>> + Hasher<Rc<str>> + Hasher<Arc<str>> + for<'a> Hasher<Cow<'a, str>>> ForStr for H {}

/// The same code from every form of a string.
fn str_code<H: ForStr>(cx: &mut Ctx, what: &str, h: &H, s: &str) -> u64 {
    let code = <H as Hasher<str>>::hash_one(h, s);
    let forms = [
        ("&str", <H as Hasher<&str>>::hash_one(h, &s)),
        ("String", h.hash_one(&s.to_string())),
        ("Box<str>", h.hash_one(&Box::<str>::from(s))),
        ("Rc<str>", h.hash_one(&Rc::<str>::from(s))),
        ("Arc<str>", h.hash_one(&Arc::<str>::from(s))),
        ("Cow<str>", h.hash_one(&Cow::Borrowed(s))),
        ("str again", <H as Hasher<str>>::hash_one(h, s)),
    ];
    for (form, c) in forms {
        cx.check(c == code, || format!("{what}: {s:?} has code {code:x} as str and {c:x} as {form}"));
    }
    cx.ev("codes of strings", 8);
    code
}

/// Code and part determine one another.
struct Table<P> {
    code: HashMap<P, u64>,
    part: HashMap<u64, P>,
}

impl<P: Hash + Eq + Clone + Debug> Table<P> {
    fn new() -> Self {
        Self { code: HashMap::new(), part: HashMap::new() }
    }
    fn put(&mut self, cx: &mut Ctx, what: &str, p: P, c: u64, apart: bool) {
        let was = *self.code.entry(p.clone()).or_insert(c);
        cx.check(was == c, || format!("{what}: keys that agree in {p:?} have codes {was:x} and {c:x}"));
        if apart {
            let q = self.part.entry(c).or_insert_with(|| p.clone());
            cx.check(*q == p, || format!("{what}: keys with {q:?} and {p:?} share the code {c:x} of a hasher that tells them apart"));
        }
    }
}

fn word(cx: &mut Ctx, max: u64) -> String {
    let n = cx.rng.below(max + 1);
    let uni = cx.rng.chance(1, 3);
    (0..n)
        .map(|_| match cx.rng.below(if uni { 6 } else { 3 }) {
            0 | 1 => (b'a' + cx.rng.below(3) as u8) as char,
            2 => (b' ' + cx.rng.below(90) as u8) as char,
            3 => 'é',
            4 => '日',
            _ => '𝄞',
        })
        .collect()
}

fn strings(cx: &mut Ctx, n: usize, max: u64) -> Vec<String> {
    let mut v: Vec<String> = vec![String::new()];
    for _ in 0..n {
        let w = word(cx, max);
        // neighbours that share a head, a tail or both
        match cx.rng.below(4) {
            0 => v.push(format!("{w}{}", cx.rng.below(4))),
            1 => v.push(format!("{}{w}", cx.rng.below(4))),
            2 => {
                let other = v[cx.rng.idx(v.len())].clone();
                v.push(format!("{other}{w}").chars().take(max as usize + 4).collect());
            }
            _ => {}
        }
        v.push(w);
    }
    v
}

fn ranges_of<HL, HIL, HR, HIR>(cx: &mut Ctx, range: std::ops::Range<usize>, seed: DynBH, l: HL, il: HIL, r: HR, ir: HIR)
where
    HL: ForStr + Hasher<[u8]> + Hasher<[u16]> + Hasher<[String]> + Clone,
    HIL: ForStr + Hasher<[u8]> + Hasher<[u16]> + Hasher<[String]> + Clone,
    HR: ForStr + Hasher<[u8]> + Hasher<[u16]> + Hasher<[String]> + Clone,
    HIR: ForStr + Hasher<[u8]> + Hasher<[u16]> + Hasher<[String]> + Clone,
{
    cx.describe(format!("range {range:?} with {seed:?}"));
    let n = if FOREIGN || cfg!(miri) { 12 } else { 60 };
    let keys = strings(cx, n, range.end as u64 + 6);
    let left = Case { name: format!("left range {range:?}"), range: range.clone(), right: false };
    let right = Case { name: format!("right range {range:?}"), range: range.clone(), right: true };
    both(cx, &left, &keys, &l, &il, &l.clone(), &il.clone());
    both(cx, &right, &keys, &r, &ir, &r.clone(), &ir.clone());
    slices(cx, &left, &l, &il, |cx| cx.rng.below(3) as u8);
    slices(cx, &right, &r, &ir, |cx| cx.rng.below(3) as u8);
    slices(cx, &left, &l, &il, |cx| cx.rng.u64() as u16);
    slices(cx, &right, &r, &ir, |cx| cx.rng.u64() as u16);
    slices(cx, &left, &l, &il, |cx| word(cx, 2));
    slices(cx, &right, &r, &ir, |cx| word(cx, 2));
}

/// Run-time and source-embedded hashers of one strategy, and clones of them.
fn both<H: ForStr, I: ForStr>(cx: &mut Ctx, case: &Case, keys: &[String], h: &H, i: &I, hc: &H, ic: &I) {
    let mut t = Table::new();
    for k in keys {
        let codes = [
            str_code(cx, &case.name, h, k),
            str_code(cx, &format!("inline {}", case.name), i, k),
            <H as Hasher<str>>::hash_one(hc, k),
            <I as Hasher<str>>::hash_one(ic, k),
        ];
        cx.check(codes.iter().all(|c| *c == codes[0]), || format!("{}: {k:?} has codes {codes:x?} at run time, embedded in source, and from clones of these", case.name));
        match case.part(k.as_bytes()) {
            Some(p) => t.put(cx, &case.name, p.to_vec(), codes[0], true),
            None => cx.ev("strings too short", 1),
        }
        cx.distinct(mix(codes[0], case.range.end as u64));
        cx.sample(|| format!("{}: {k:?} has code {:x} in eight forms, at run time, embedded in source and cloned", case.name, codes[0]));
    }
    cx.ev("distinct parts of strings", t.code.len() as u64);
}

fn slices<T: Hash + Eq + Clone + Debug, H: Hasher<[T]>, I: Hasher<[T]>>(cx: &mut Ctx, case: &Case, h: &H, i: &I, mut elem: impl FnMut(&mut Ctx) -> T) {
    let mut t = Table::new();
    for _ in 0..if FOREIGN || cfg!(miri) { 8 } else { 30 } {
        let n = match cx.rng.below(4) {
            0 => case.range.end as u64,
            1 => (case.range.end as u64).saturating_sub(1),
            _ => cx.rng.below(case.range.end as u64 + 5),
        };
        let v: Vec<T> = (0..n).map(|_| elem(cx)).collect();
        let (a, b) = (h.hash_one(&v[..]), i.hash_one(&v[..]));
        cx.check(a == b, || format!("{}: the slice {v:?} has code {a:x} at run time and {b:x} embedded in source", case.name));
        match case.part(&v) {
            Some(p) => t.put(cx, &case.name, p.to_vec(), a, true),
            None => cx.ev("slices too short", 1),
        }
        cx.ev("codes of slices", 2);
    }
}

fn ranges(cx: &mut Ctx) {
    macro_rules! go {
        ($($a:literal $b:literal),*) => {{
            let all: &[fn(&mut Ctx, DynBH)] = &[$(|cx, bh| ranges_of(
                cx, $a..$b, bh.clone(),
                LeftRangeHasher::new(bh.clone(), $a..$b), InlineLeftRangeHasher::<$a, $b, DynBH>::new(bh.clone()),
                RightRangeHasher::new(bh.clone(), $a..$b), InlineRightRangeHasher::<$a, $b, DynBH>::new(bh.clone()),
            )),*];
            let f = *cx.rng.pick(all);
            let bh = DynBH { seed: cx.rng.u64(), ..DynBH::default() };
            f(cx, bh);
        }};
    }
    go!(0 1, 0 2, 0 3, 0 4, 0 7, 0 8, 0 16, 1 2, 1 3, 1 5, 2 3, 2 6, 3 4, 3 9, 4 8, 5 6, 7 8, 7 15, 8 16, 15 16, 15 31, 0 0, 3 3);
}

/// Codes of whole values and of lengths.
fn whole(cx: &mut Ctx) {
    let bh = DynBH { seed: cx.rng.u64(), ..DynBH::default() };
    cx.describe(format!("whole keys and lengths with {bh:?}"));
    let h = BridgeHasher::new(bh);
    let h2 = h.clone();
    let keys = strings(cx, if FOREIGN { 20 } else { 80 }, 12);
    let mut t = Table::new();
    let mut by_len = Table::new();
    for k in &keys {
        let c = str_code(cx, "whole key", &h, k);
        cx.check(c == <BridgeHasher<DynBH> as Hasher<str>>::hash_one(&h2, k), || format!("a cloned hasher gives {k:?} another code"));
        t.put(cx, "whole key", k.clone(), c, true);
        let b = k.as_bytes();
        let codes = [h.hash_one(b), h.hash_one(&b.to_vec()), h.hash_one(&b.to_vec().into_boxed_slice()), h.hash_one(&b)];
        cx.check(codes.iter().all(|x| *x == codes[0]), || format!("whole key: {b:?} has codes {codes:x?} as slice, Vec, Box and reference"));
        let l = LengthHasher;
        let codes = [
            <LengthHasher as Hasher<str>>::hash_one(&l, k),
            l.hash_one(&k.as_str()),
            l.hash_one(k),
            l.hash_one(&Box::<str>::from(k.as_str())),
            l.hash_one(&Rc::<str>::from(k.as_str())),
            l.hash_one(&Arc::<str>::from(k.as_str())),
            l.hash_one(&Box::new(k.clone())),
            LengthHasher::default().hash_one(k),
        ];
        cx.check(codes.iter().all(|x| *x == codes[0]), || format!("length: {k:?} has codes {codes:?} as str, &str, String, Box, Rc, Arc, Box<String> and again"));
        by_len.put(cx, "length", k.len(), codes[0], true);
        let s: &[u8] = b;
        let codes = [l.hash_one(s), l.hash_one(&s.to_vec()), l.hash_one(&s.iter().copied().collect::<VecDeque<_>>())];
        cx.check(codes.iter().all(|x| *x == codes[0]), || format!("length: {s:?} has codes {codes:?} as slice, Vec and VecDeque"));
        cx.ev("codes of strings", 20);
    }
    macro_rules! scalars {
        ($($t:ty),*) => {$({
            let mut t = Table::new();
            for _ in 0..40 {
                let x = (cx.rng.u64() >> cx.rng.below(64)) as $t;
                for x in [x, x.wrapping_add(1), x.wrapping_neg(), <$t>::MIN, <$t>::MAX, 0] {
                    let (c, d) = (ScalarHasher.hash_one(&x), ScalarHasher::default().hash_one(&x.clone()));
                    cx.check(c == d, || format!("scalar {x}: codes {c:x} and {d:x}"));
                    t.put(cx, stringify!($t), x, c, true);
                    cx.check(c == x.index() as u64, || format!("scalar {x}: code {c:x} although its position is {}", x.index()));
                }
            }
            cx.ev("codes of scalars", 240);
        })*};
    }
    scalars!(u8, i8, u16, i16, u32, i32);
    scalars!(WideU, WideI, usize, isize);
}

fn has<T: Len + ?Sized>(cx: &mut Ctx, what: &str, x: &T, n: usize) {
    let (l, e) = (x.len(), x.is_empty());
    cx.check(l == n && e == (n == 0), || format!("{what}: length {l} and emptiness {e} of something with {n} parts"));
    cx.ev("lengths", 1);
    cx.ev(&format!("lengths {what}"), 1);
}

fn lengths(cx: &mut Ctx) {
    cx.describe("lengths".into());
    let n = if cx.rng.chance(1, 4) { cx.rng.idx(3) } else { cx.rng.idx(80) };
    let s: String = {
        let mut s = String::new();
        while s.len() < n {
            let c = *cx.rng.pick(&['a', 'é', '日', '𝄞', 'z']);
            s.push(if s.len() + c.len_utf8() > n { 'x' } else { c });
        }
        s
    };
    cx.distinct(mix(n as u64, s.chars().count() as u64));
    has(cx, "String", &s, n);
    has(cx, "str", s.as_str(), n);
    has(cx, "&str", &s.as_str(), n);
    has(cx, "Box<str>", &Box::<str>::from(s.as_str()), n);
    has(cx, "Rc<str>", &Rc::<str>::from(s.as_str()), n);
    has(cx, "Arc<str>", &Arc::<str>::from(s.as_str()), n);
    has(cx, "Box<String>", &Box::new(s.clone()), n);
    has(cx, "Rc<Vec>", &Rc::new(vec![7; n]), n);
    let cs = std::ffi::CString::new(s.clone()).unwrap();
    has(cx, "CString", &cs, n);
    has(cx, "CStr", cs.as_c_str(), n);
    let os = std::ffi::OsString::from(s.clone());
    has(cx, "OsString", &os, n);
    has(cx, "OsStr", os.as_os_str(), n);
    let v: Vec<u64> = (0..n as u64).collect();
    has(cx, "Vec", &v, n);
    has(cx, "slice", &v[..], n);
    has(cx, "Box<[T]>", &v.clone().into_boxed_slice(), n);
    has(cx, "Arc<[T]>", &Arc::<[u64]>::from(v.clone()), n);
    let mut dq: VecDeque<u64> = v.iter().copied().collect();
    dq.rotate_left(n / 2);
    has(cx, "VecDeque", &dq, n);
    has(cx, "LinkedList", &v.iter().copied().collect::<LinkedList<_>>(), n);
    has(cx, "BinaryHeap", &v.iter().copied().collect::<BinaryHeap<_>>(), n);
    has(cx, "BTreeSet", &v.iter().copied().collect::<BTreeSet<_>>(), n);
    has(cx, "BTreeMap", &v.iter().map(|x| (*x, ())).collect::<BTreeMap<_, _>>(), n);
    has(cx, "HashSet", &v.iter().copied().collect::<HashSet<_>>(), n);
    has(cx, "HashMap", &v.iter().map(|x| (*x, ())).collect::<HashMap<_, _>>(), n);
    has(cx, "hashbrown set", &v.iter().copied().collect::<hashbrown::HashSet<_>>(), n);
    has(cx, "hashbrown map", &v.iter().map(|x| (*x, ())).collect::<hashbrown::HashMap<_, _>>(), n);
}

/// A magnitude holds exactly the sizes up to its capacity, and converts them back and forth.
fn magnitudes(cx: &mut Ctx) {
    cx.describe("magnitudes".into());
    fn one<M: CollectionMagnitude + Debug>(cx: &mut Ctx, name: &str) {
        for _ in 0..60 {
            let x = (cx.rng.u64() >> cx.rng.below(64)) as usize;
            for x in [x, M::MAX_CAPACITY, M::MAX_CAPACITY.wrapping_add(1), M::MAX_CAPACITY - 1, 0] {
                let got: Option<usize> = M::try_from(x).ok().map(Into::into);
                let want = (x <= M::MAX_CAPACITY).then_some(x);
                cx.check(got == want, || format!("{name}: {x} becomes {got:?} with a capacity of {}", M::MAX_CAPACITY));
                cx.ev("magnitudes", 1);
            }
        }
        let z: usize = M::ZERO.into();
        cx.check(z == 0, || format!("{name}: zero is {z}"));
    }
    one::<SmallCollection>(cx, "small");
    one::<MediumCollection>(cx, "medium");
    one::<LargeCollection>(cx, "large");
}

fn main() {
    let mut cx = Ctx::from_args();
    let _ = ctx::panics(|| ());
    let n = cx.n(20_000);
    for i in 0..n {
        match i % 8 {
            0..=4 => cx.run(ranges),
            5 => cx.run(whole),
            6 => cx.run(lengths),
            _ => cx.run(magnitudes),
        }
    }
    cx.finish();
}
