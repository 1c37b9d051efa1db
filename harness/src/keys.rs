//! Key types and generators of hostile key lists and probes.
use crate::rng::Rng;
use equivalent::{Comparable, Equivalent};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// Whether this runs, interpreted, for a machine unlike the one it was compiled on.
pub const FOREIGN: bool = cfg!(any(target_endian = "big", not(target_pointer_width = "64")));

/// Picks a collection size, biased to the places where implementations change their mind.
pub fn size(rng: &mut Rng, max: usize) -> usize {
    const EDGES: &[usize] = &[
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 17, 19, 20, 21, 31, 32, 33, 39, 40, 41, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 254,
        255, 256, 257, 258, 300, 511, 512, 513, 700, 998, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 4095, 4096, 4097,
    ];
    let n = match rng.below(10) {
        0..=4 => rng.range(0, 24) as usize,
        5..=7 => *rng.pick(EDGES),
        8 => rng.range(0, 160) as usize,
        _ => rng.range(0, max as u64) as usize,
    };
    // interpreted for another kind of machine, big collections take too long
    if FOREIGN {
        return if n > 24 && (n > 300 || rng.chance(9, 10)) { n % 25 } else { n }.min(max);
    }
    n.min(max)
}

/// The widest integers that are scalars: 64 bits, where pointers have as many.
#[cfg(target_pointer_width = "64")]
mod wide {
    pub type WideU = u64;
    pub type WideI = i64;
    pub type WideNzU = std::num::NonZeroU64;
    pub type WideNzI = std::num::NonZeroI64;
}
#[cfg(not(target_pointer_width = "64"))]
mod wide {
    pub type WideU = u32;
    pub type WideI = i32;
    pub type WideNzU = std::num::NonZeroU32;
    pub type WideNzI = std::num::NonZeroI32;
}
pub use wide::*;

pub trait Key: Clone + Ord + Hash + Debug + 'static {
    /// A list of keys, possibly with duplicates, and the name of its shape.
    fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str);
    /// A key close to, but usually different from, `self`.
    fn near(&self, rng: &mut Rng) -> Self;
    fn random(rng: &mut Rng) -> Self;

    /// Probes for a collection holding `present`.
    fn probes(rng: &mut Rng, present: &[Self], n: usize) -> Vec<Self> {
        let n = if FOREIGN { n.min(12) } else { n };
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            if present.is_empty() || rng.chance(1, 5) {
                v.push(Self::random(rng));
            } else {
                let p = rng.pick(present).clone();
                v.push(p.near(rng));
            }
        }
        v
    }
}

/// Adds duplicates and shuffles.
pub fn roughen<K: Clone>(rng: &mut Rng, v: &mut Vec<K>) {
    if !v.is_empty() {
        let d = match rng.below(4) {
            0 => 0,
            1 => 1 + rng.idx(3),
            2 => v.len() / 4,
            _ => 0,
        };
        for _ in 0..d {
            let k = v[rng.idx(v.len())].clone();
            v.push(k);
        }
    }
    match rng.below(5) {
        0 => {}
        1 => v.reverse(),
        _ => rng.shuffle(v),
    }
}

fn clampi(x: i128, min: i128, max: i128) -> i128 {
    x.clamp(min, max)
}

fn rand_in(rng: &mut Rng, min: i128, max: i128) -> i128 {
    let span = (max - min) as u128;
    let r = (u128::from(rng.u64()) << 64) | u128::from(rng.u64());
    min + if span == u128::MAX { r } else { r % (span + 1) } as i128
}

pub fn int_list(rng: &mut Rng, n: usize, min: i128, max: i128) -> (Vec<i128>, &'static str) {
    let dom = max - min + 1;
    let ni = (n as i128).min(dom);
    let dense = |s: i128| -> Vec<i128> { (0..ni).map(|i| clampi(s, min, max - ni + 1) + i).collect() };
    let span_subset = |rng: &mut Rng, span: i128| -> Vec<i128> {
        let span = span.clamp(ni.max(1), dom);
        let s = match rng.below(4) {
            0 => min,
            1 => max - span + 1,
            2 => clampi(-(span / 2), min, max - span + 1),
            _ => rand_in(rng, min, max - span + 1),
        };
        let mut v: Vec<i128> = if ni * 2 >= span {
            let mut all: Vec<i128> = (0..span).map(|i| s + i).collect();
            if span > 2 {
                let l = all.len();
                rng.shuffle(&mut all[1..l - 1]);
                all.swap(1, l - 1);
            }
            all.truncate(ni as usize);
            all
        } else {
            let mut v = vec![s, s + span - 1];
            while v.len() < ni as usize {
                v.push(s + rand_in(rng, 0, span - 1));
            }
            v
        };
        v.truncate(ni as usize);
        v
    };
    let nn = n.max(1) as i128;
    match rng.below(15) {
        0 => (dense(rand_in(rng, min, max)), "dense"),
        1 => (dense(min), "dense-at-min"),
        2 => (dense(max), "dense-at-max"),
        3 => (dense(-(ni / 2)), "dense-around-zero"),
        4 => {
            let span = rand_in(rng, nn, nn * 10);
            (span_subset(rng, span), "sparse")
        }
        5 => {
            let span = *rng.pick(&[127, 128, 129, 126, nn * 10 - 1, nn * 10, nn * 10 + 1, nn + 1]);
            (span_subset(rng, span), "sparse-threshold")
        }
        6 | 7 => ((0..ni).map(|_| rand_in(rng, min, max)).collect(), "random"),
        8 => {
            let sh = rng.below(40) as u32;
            let step = 1i128 << sh;
            let base = rand_in(rng, -3, 3);
            (
                (0..ni)
                    .map(|i| base + i * step)
                    .filter(|x| (min..=max).contains(x))
                    .collect(),
                "stride",
            )
        }
        9 => {
            let all = [min, max, 0, -1, 1, min + 1, max - 1, max / 2, min / 2, min + 2, max - 2, 2, -2];
            let mut v: Vec<i128> = (0..ni.max(2).min(n as i128)).map(|_| *rng.pick(&all)).filter(|x| (min..=max).contains(x)).collect();
            if n >= 2 {
                v.push(min);
                v.push(max);
            }
            (v, "extremes")
        }
        10 => {
            let a = rand_in(rng, min, max);
            let b = rand_in(rng, min, max);
            ((0..ni).map(|i| clampi(if i % 2 == 0 { a + i } else { b - i }, min, max)).collect(), "clusters")
        }
        11 => (
            (0..ni)
                .map(|i| (1i128 << (i / 3 % 64)) + (i % 3) - 1)
                .map(|x| clampi(x, min, max))
                .collect(),
            "powers",
        ),
        12 => {
            let k = rng.range(1, 6) as i128;
            ((0..n as i128).map(|i| clampi(i % k, min, max)).collect(), "heavy-duplicates")
        }
        13 => {
            let mut v = dense(rand_in(rng, min, max));
            if v.len() > 2 {
                let i = 1 + rng.idx(v.len() - 2);
                v.remove(i);
            }
            (v, "dense-with-hole")
        }
        _ => {
            let mut v = dense(rand_in(rng, min, max));
            let o = rand_in(rng, min, max);
            if !v.is_empty() {
                v.push(o);
            }
            (v, "dense-with-outlier")
        }
    }
}

fn int_near(rng: &mut Rng, x: i128, min: i128, max: i128) -> i128 {
    let y = match rng.below(10) {
        0 => x + 1,
        1 => x - 1,
        2 => x + (1i128 << rng.below(63)),
        3 => x - (1i128 << rng.below(63)),
        4 => x ^ (1i128 << rng.below(63)),
        5 => -x,
        6 => min,
        7 => max,
        8 => x + rng.range(2, 40) as i128,
        _ => x - rng.range(2, 40) as i128,
    };
    // wrap into the domain, so that the low bits survive
    let dom = max - min + 1;
    min + (y - min).rem_euclid(dom)
}

macro_rules! int_key {
    ($($t:ty),*) => {$(
        impl Key for $t {
            fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
                let (v, s) = int_list(rng, n, <$t>::MIN as i128, <$t>::MAX as i128);
                let mut v: Vec<$t> = v.into_iter().map(|x| x as $t).collect();
                roughen(rng, &mut v);
                (v, s)
            }
            fn near(&self, rng: &mut Rng) -> Self {
                int_near(rng, *self as i128, <$t>::MIN as i128, <$t>::MAX as i128) as $t
            }
            fn random(rng: &mut Rng) -> Self {
                if rng.chance(1, 3) { *rng.pick(&[<$t>::MIN, <$t>::MAX, 0, 1, <$t>::MAX / 2, (-1i128) as $t]) } else { rng.u64() as $t }
            }
        }
    )*};
}
int_key!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);

macro_rules! nz_key {
    ($($t:ty: $p:ty),*) => {$(
        impl Key for $t {
            fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
                let (v, s) = int_list(rng, n, <$p>::MIN as i128, <$p>::MAX as i128);
                let mut v: Vec<$t> = v.into_iter().filter_map(|x| <$t>::new(x as $p)).collect();
                roughen(rng, &mut v);
                (v, s)
            }
            fn near(&self, rng: &mut Rng) -> Self {
                <$t>::new(int_near(rng, self.get() as i128, <$p>::MIN as i128, <$p>::MAX as i128) as $p).unwrap_or(*self)
            }
            fn random(rng: &mut Rng) -> Self {
                let x = if rng.chance(1, 3) { *rng.pick(&[<$p>::MIN, <$p>::MAX, 1, <$p>::MAX / 2, (-1i128) as $p]) } else { rng.u64() as $p };
                <$t>::new(x).unwrap_or(<$t>::new(1).unwrap())
            }
        }
    )*};
}
use std::num::*;
nz_key!(NonZeroU8: u8, NonZeroI8: i8, NonZeroU16: u16, NonZeroI16: i16, NonZeroU32: u32, NonZeroI32: i32,
    NonZeroU64: u64, NonZeroI64: i64, NonZeroUsize: usize, NonZeroIsize: isize);

const ALPHA: &[char] = &['a', 'b', 'c', 'x', 'z', 'A', '0', '9', '_', ' ', '"', '\\', '\n', 'é', 'ß', '漢', '😀', '\u{0}', '\u{7f}', '\u{80}'];

fn ch(rng: &mut Rng, ascii: bool) -> char {
    if ascii { (b'a' + rng.below(26) as u8) as char } else { *rng.pick(ALPHA) }
}

fn word(rng: &mut Rng, len: usize, ascii: bool) -> String {
    (0..len).map(|_| ch(rng, ascii)).collect()
}

/// Distinct short code for `i`, of fixed width.
fn code(i: usize, w: usize, ascii: bool) -> String {
    let base = if ascii { 26 } else { ALPHA.len() };
    let mut i = i;
    let mut s = String::new();
    for _ in 0..w {
        s.push(if ascii { (b'a' + (i % base) as u8) as char } else { ALPHA[i % base] });
        i /= base;
    }
    s
}

pub fn str_list(rng: &mut Rng, n: usize) -> (Vec<String>, &'static str) {
    let ascii = rng.chance(2, 3);
    let base = if ascii { 26usize } else { ALPHA.len() };
    let mut w = 1;
    while base.pow(w as u32) < n {
        w += 1;
    }
    w += rng.idx(2);
    let (mut v, s): (Vec<String>, &'static str) = match rng.below(14) {
        0 => ((0..n).map(|_| { let l = rng.idx(9); word(rng, l, ascii) }).collect(), "random-short"),
        1 => ((0..n).map(|_| { let l = rng.idx(40); word(rng, l, ascii) }).collect(), "random-long"),
        2 => {
            // unique lengths
            let c = ch(rng, ascii);
            let off = rng.idx(3);
            ((0..n.min(400)).map(|i| std::iter::repeat_n(c, i + off).collect()).collect(), "unique-lengths")
        }
        3 => {
            // unique left code after a common prefix, varied tails
            let p = { let l = rng.idx(6); word(rng, l, ascii) };
            let t = rng.idx(6);
            ((0..n).map(|i| { let l = rng.idx(t + 1); format!("{p}{}{}", code(i, w, ascii), word(rng, l, ascii)) }).collect(), "left-code")
        }
        4 => {
            // unique right code before a common suffix, varied heads
            let p = { let l = rng.idx(6); word(rng, l, ascii) };
            let c = ch(rng, ascii);
            let t = 1 + rng.idx(6);
            ((0..n).map(|i| { let l = rng.idx(t + 1); format!("{}{}{p}", std::iter::repeat_n(c, l).collect::<String>(), code(i, w, ascii)) }).collect(), "right-code")
        }
        5 => {
            // same length, code in the middle
            let (a, b) = ({ let l = rng.idx(8); word(rng, l, ascii) }, { let l = rng.idx(8); word(rng, l, ascii) });
            ((0..n).map(|i| format!("{a}{}{b}", code(i, w, ascii))).collect(), "middle-code")
        }
        6 => ((0..n).map(|i| format!("{i}")).collect(), "decimal"),
        7 => ((0..n).map(|i| format!("key_{i:05}")).collect(), "key_00000"),
        8 => {
            // long common prefix beyond the examined subslice length
            let p = { let l = 14 + rng.idx(10); word(rng, l, ascii) };
            ((0..n).map(|i| format!("{p}{i}")).collect(), "long-prefix")
        }
        9 => {
            let p = { let l = 14 + rng.idx(10); word(rng, l, ascii) };
            ((0..n).map(|i| format!("{i}{p}")).collect(), "long-suffix")
        }
        10 => {
            // spread-out differences: no short subslice is unique
            ((0..n).map(|i| {
                let mut s: Vec<u8> = vec![b'-'; 24];
                for b in 0..12 { if (i >> b) & 1 == 1 { s[b * 2] = b'#'; } }
                String::from_utf8(s).unwrap()
            }).collect(), "spread-bits")
        }
        11 => {
            // includes the empty string and one-letter strings
            let mut v: Vec<String> = (0..n.saturating_sub(1)).map(|i| if i < base { code(i, 1, ascii) } else { format!("q{i}") }).collect();
            if n > 0 { v.push(String::new()); }
            (v, "with-empty")
        }
        12 => {
            // a few lengths shared within the tolerated duplicate ratio
            ((0..n).map(|i| { let l = i / 2 % 500; format!("{}{}", std::iter::repeat_n('p', l).collect::<String>(), (b'a' + (i % 2) as u8) as char) }).collect(), "near-unique-lengths")
        }
        _ => {
            // codes with a few percent duplicates in the code part
            ((0..n).map(|i| { let j = if i % 23 == 7 { i - 1 } else { i }; format!("{}:{}", code(j, w, ascii), i) }).collect(), "near-unique-code")
        }
    };
    roughen(rng, &mut v);
    (v, s)
}

pub fn str_near(rng: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match rng.below(9) {
        0 => {
            c.pop();
        }
        1 => {
            if !c.is_empty() {
                c.remove(0);
            }
        }
        2 => c.push(*rng.pick(ALPHA)),
        3 => c.insert(0, *rng.pick(ALPHA)),
        4 | 5 => {
            if !c.is_empty() {
                let i = rng.idx(c.len());
                c[i] = ch(rng, true);
            }
        }
        6 => {
            if c.len() > 1 {
                let (i, j) = (rng.idx(c.len()), rng.idx(c.len()));
                c.swap(i, j);
            }
        }
        7 => {
            let l = rng.idx(c.len() + 1);
            c.truncate(l);
        }
        _ => {
            let l = rng.idx(c.len() + 1);
            c.drain(..l);
        }
    }
    c.into_iter().collect()
}

macro_rules! str_key {
    ($($t:ty),*) => {$(
        impl Key for $t {
            fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
                let (v, s) = str_list(rng, n);
                (v.into_iter().map(Into::into).collect(), s)
            }
            fn near(&self, rng: &mut Rng) -> Self {
                str_near(rng, self).into()
            }
            fn random(rng: &mut Rng) -> Self {
                let l = rng.idx(12);
                let a = rng.chance(1, 2);
                word(rng, l, a).into()
            }
        }
    )*};
}
str_key!(String, Box<str>);

/// Leaks: only for the few generated collections with static strings.
impl Key for &'static str {
    fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        let (v, s) = str_list(rng, n);
        (v.into_iter().map(|s| &*s.leak()).collect(), s)
    }
    fn near(&self, rng: &mut Rng) -> Self {
        str_near(rng, self).leak()
    }
    fn random(rng: &mut Rng) -> Self {
        String::random(rng).leak()
    }
}

impl Key for Vec<u8> {
    fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        let (v, s) = str_list(rng, n);
        (v.into_iter().map(String::into_bytes).collect(), s)
    }
    fn near(&self, rng: &mut Rng) -> Self {
        let mut v = self.clone();
        if v.is_empty() || rng.chance(1, 4) {
            v.push(rng.u64() as u8);
        } else {
            let i = rng.idx(v.len());
            v[i] = v[i].wrapping_add(1);
        }
        v
    }
    fn random(rng: &mut Rng) -> Self {
        let l = rng.idx(8);
        (0..l).map(|_| rng.u64() as u8).collect()
    }
}

impl Key for () {
    fn list(_: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        (vec![(); n], "unit")
    }
    fn near(&self, _: &mut Rng) -> Self {}
    fn random(_: &mut Rng) -> Self {}
}

impl Key for char {
    fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        let (v, s) = int_list(rng, n, 0, 0xD7FF);
        let mut v: Vec<char> = v.into_iter().map(|x| char::from_u32(x as u32).unwrap()).collect();
        roughen(rng, &mut v);
        (v, s)
    }
    fn near(&self, rng: &mut Rng) -> Self {
        char::from_u32(int_near(rng, *self as i128, 0, 0xD7FF) as u32).unwrap_or('x')
    }
    fn random(rng: &mut Rng) -> Self {
        *rng.pick(ALPHA)
    }
}

impl Key for u128 {
    fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        let (v, s) = int_list(rng, n, 0, i128::MAX - 1);
        let mut v: Vec<u128> = v.into_iter().map(|x| (x as u128) << rng.below(2)).collect();
        roughen(rng, &mut v);
        (v, s)
    }
    fn near(&self, rng: &mut Rng) -> Self {
        self ^ (1 << rng.below(128))
    }
    fn random(rng: &mut Rng) -> Self {
        (u128::from(rng.u64()) << 64) | u128::from(rng.u64())
    }
}

/// A heap-owning key with two fields and a borrowed query form, [`PtRef`].
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Pt {
    pub a: i16,
    pub b: Box<i64>,
}

impl Hash for Pt {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.a.hash(state);
        (*self.b).hash(state);
    }
}

impl Key for Pt {
    fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        let (v, s) = i64::list(rng, n);
        let m = rng.range(1, 9) as i64;
        (
            v.into_iter()
                .map(|x| Pt {
                    a: x.rem_euclid(m) as i16,
                    b: Box::new(x.div_euclid(m)),
                })
                .collect(),
            s,
        )
    }
    fn near(&self, rng: &mut Rng) -> Self {
        if rng.chance(1, 2) {
            Pt {
                a: self.a.near(rng),
                b: self.b.clone(),
            }
        } else {
            Pt {
                a: self.a,
                b: Box::new(self.b.near(rng)),
            }
        }
    }
    fn random(rng: &mut Rng) -> Self {
        Pt {
            a: i16::random(rng),
            b: Box::new(i64::random(rng)),
        }
    }
}

/// Query form of [`Pt`]: compares, orders and hashes like it without owning anything.
#[derive(PartialEq, Eq, Debug)]
pub struct PtRef {
    pub a: i16,
    pub b: i64,
}

impl Hash for PtRef {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.a.hash(state);
        self.b.hash(state);
    }
}

impl Equivalent<Pt> for PtRef {
    fn equivalent(&self, k: &Pt) -> bool {
        self.a == k.a && self.b == *k.b
    }
}

impl Comparable<Pt> for PtRef {
    fn compare(&self, k: &Pt) -> Ordering {
        (self.a, self.b).cmp(&(k.a, *k.b))
    }
}

/// A string key that is equal, ordered and hashed without regard to case.
#[derive(Clone, Debug)]
pub struct Ci(pub String);

impl Ci {
    fn norm(&self) -> String {
        self.0.to_lowercase()
    }
}
impl PartialEq for Ci {
    fn eq(&self, o: &Self) -> bool {
        self.norm() == o.norm()
    }
}
impl Eq for Ci {}
impl PartialOrd for Ci {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ci {
    fn cmp(&self, o: &Self) -> Ordering {
        self.norm().cmp(&o.norm())
    }
}
impl Hash for Ci {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.norm().hash(state);
    }
}
impl Key for Ci {
    fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        let (v, s) = str_list(rng, n);
        (
            v.into_iter()
                .map(|s| Ci(if rng.chance(1, 2) { s.to_uppercase() } else { s }))
                .collect(),
            s,
        )
    }
    fn near(&self, rng: &mut Rng) -> Self {
        match rng.below(3) {
            0 => Ci(self.0.to_uppercase()),
            1 => Ci(self.0.to_lowercase()),
            _ => Ci(str_near(rng, &self.0)),
        }
    }
    fn random(rng: &mut Rng) -> Self {
        Ci(String::random(rng))
    }
}

/// A key whose own `Hash` is poor (three bits), whatever the hasher.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Coarse(pub u64);
impl Hash for Coarse {
    fn hash<H: Hasher>(&self, state: &mut H) {
        (self.0 % 7).hash(state);
    }
}
impl Key for Coarse {
    fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        let (v, s) = u64::list(rng, n.min(300));
        (v.into_iter().map(Coarse).collect(), s)
    }
    fn near(&self, rng: &mut Rng) -> Self {
        Coarse(self.0.near(rng))
    }
    fn random(rng: &mut Rng) -> Self {
        Coarse(u64::random(rng))
    }
}

/// Over-aligned, large key.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
#[repr(align(64))]
pub struct Fat(pub u32, pub [u8; 40]);
impl Key for Fat {
    fn list(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        let (v, s) = u32::list(rng, n);
        (v.into_iter().map(|x| Fat(x, [x as u8; 40])).collect(), s)
    }
    fn near(&self, rng: &mut Rng) -> Self {
        let mut f = self.clone();
        if rng.chance(1, 2) {
            f.0 = f.0.near(rng);
        } else {
            let i = rng.idx(40);
            f.1[i] ^= 1;
        }
        f
    }
    fn random(rng: &mut Rng) -> Self {
        Fat(u32::random(rng), [0; 40])
    }
}

/// Value types.
pub trait Val: Clone + PartialEq + Eq + Debug + Ord + 'static {
    fn mk(i: u64) -> Self;
    fn bump(&mut self, by: u64);
}
impl Val for u64 {
    fn mk(i: u64) -> Self {
        i
    }
    fn bump(&mut self, by: u64) {
        *self = crate::rng::mix(*self, by);
    }
}
impl Val for String {
    fn mk(i: u64) -> Self {
        format!("value-{i}")
    }
    fn bump(&mut self, by: u64) {
        self.push_str(&format!("+{by}"));
    }
}
impl Val for () {
    fn mk(_: u64) -> Self {}
    fn bump(&mut self, _: u64) {}
}
impl Val for (u8, [u64; 4]) {
    fn mk(i: u64) -> Self {
        (i as u8, [i, !i, i ^ 0xAAAA, i + 1])
    }
    fn bump(&mut self, by: u64) {
        self.0 = self.0.wrapping_add(1);
        for x in &mut self.1 {
            *x = crate::rng::mix(*x, by);
        }
    }
}
impl Val for Box<u64> {
    fn mk(i: u64) -> Self {
        Box::new(i)
    }
    fn bump(&mut self, by: u64) {
        **self = crate::rng::mix(**self, by);
    }
}

pub fn pt(a: i16, b: i64) -> Pt {
    Pt { a, b: Box::new(b) }
}

pub use crate::hue::*;
