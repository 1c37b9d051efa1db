//! C04, first half: asks the emitter for collections in every configuration, checks what it accepts and refuses,
//! and writes the emitted code, with what it must turn out to be, to `DIR/emitted.rs` and `DIR/probes.rs`.
use frozen_collections::Scalar;
use frozen_collections::emit::{CollectionEmitter, CollectionEntry};
use fzmon::ctx::Ctx;
use fzmon::keys::*;
use fzmon::rng::Rng;
use std::fmt::Write as _;
use std::hash::Hash;
use syn::{Expr, Type, Visibility};

/// Keys that can be written as source text.
trait Src: Key {
    const TYPE: &'static str;
    const QUERY: &'static str;
    /// Whether the text is a constant expression.
    const CONST: bool;
    fn src(&self) -> String;
}
macro_rules! src {
    ($($t:ty, $name:expr, $q:expr, $c:expr, |$x:ident| $e:expr;)*) => {$(
        impl Src for $t {
            const TYPE: &'static str = $name;
            const QUERY: &'static str = $q;
            const CONST: bool = $c;
            fn src(&self) -> String { let $x = self; $e }
        }
    )*};
}
macro_rules! int_src {
    ($($t:ident)*) => { src! { $($t, stringify!($t), stringify!($t), true, |x| format!("{x}{}", stringify!($t));)* } };
}
int_src!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize u128);
use std::num::*;
macro_rules! nz_src {
    ($($t:ident)*) => { src! { $($t, concat!("core::num::", stringify!($t)), concat!("core::num::", stringify!($t)), true, |x| format!("core::num::{}::new({x}).unwrap()", stringify!($t));)* } };
}
nz_src!(NonZeroU8 NonZeroI8 NonZeroU16 NonZeroI16 NonZeroU32 NonZeroI32 NonZeroUsize NonZeroIsize);
src! {
    char, "char", "char", true, |x| format!("{x:?}");
    (), "()", "()", true, |_x| "()".into();
    &'static str, "&'static str", "str", true, |x| format!("{x:?}");
    String, "String", "str", false, |x| format!("String::from({x:?})");
    Box<str>, "Box<str>", "str", false, |x| format!("Box::<str>::from({x:?})");
    Vec<u8>, "Vec<u8>", "[u8]", false, |x| format!("vec!{x:?}");
    Pt, "fzmon::keys::Pt", "fzmon::keys::PtRef", false, |x| format!("fzmon::keys::pt({}, {})", x.a, x.b);
    Hue, "fzmon::keys::Hue", "fzmon::keys::Hue", true, |x| format!("fzmon::keys::Hue::{x:?}");
    Ci, "fzmon::keys::Ci", "fzmon::keys::Ci", false, |x| format!("fzmon::keys::Ci(String::from({:?}))", x.0);
}

/// Types of values: their text, whether constant, and the text of the i-th one.
const VALUES: &[(&str, bool, fn(usize) -> String)] = &[
    ("u64", true, |i| format!("{i}u64")),
    ("u64", true, |i| format!("{{ const X: u64 = {i}; X + 0 }}")),
    ("u64", false, |i| format!("std::convert::identity({i}) + std::hint::black_box(0)")),
    ("String", false, |i| format!("format!(\"v{{}}\", {i})")),
    ("()", true, |_| "()".into()),
    ("Box<u64>", false, |i| format!("Box::new({i})")),
    ("(u8, [u64; 4])", true, |i| format!("({}, [{i}, 1, 2, 3])", i % 256)),
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Hash,
    Ordered,
    Scalar,
    Text,
}

/// One way of configuring an emitter.
#[derive(Clone, Debug)]
struct Config {
    value: Option<usize>,
    symbol: Option<String>,
    alias: Option<String>,
    const_keys: bool,
    const_values: bool,
    visibility: &'static str,
    is_static: bool,
    mutable: bool,
}
impl Config {
    fn valid(&self) -> bool {
        !(self.is_static && self.mutable || self.symbol.is_none() && (self.is_static || self.mutable || self.alias.is_some()))
    }
    fn emitter(&self, rng: &mut Rng, key_type: &str) -> CollectionEmitter {
        let ty = |s: &str| syn::parse_str::<Type>(s).unwrap();
        let mut e = CollectionEmitter::new(&ty(key_type));
        // in any order
        let mut steps: Vec<u32> = (0..8).collect();
        rng.shuffle(&mut steps);
        for s in steps {
            e = match s {
                0 => match self.value {
                    Some(v) => e.value_type(&ty(VALUES[v].0)),
                    None => e,
                },
                1 => match &self.symbol {
                    Some(s) => e.symbol_name(s),
                    None => e,
                },
                2 => match &self.alias {
                    Some(s) => e.alias_name(s),
                    None => e,
                },
                3 => e.const_keys(self.const_keys),
                4 => e.const_values(self.const_values),
                5 => e.visibility(syn::parse_str::<Visibility>(self.visibility).unwrap()),
                6 => e.static_instance(self.is_static),
                _ => e.mutable(self.mutable),
            };
        }
        e
    }
}

#[derive(Default)]
struct Out {
    emitted: String,
    probes: String,
    visits: String,
    outside: String,
    n: usize,
}

/// Emits one collection and writes down the code that examines it.
fn case<K: Src>(cx: &mut Ctx, out: &mut Out, kind: Kind, c: &Config, n: usize, emit: impl FnOnce(CollectionEmitter, &[K], &dyn Fn(usize) -> (Expr, Option<Expr>)) -> Result<proc_macro2::TokenStream, String>) {
    let (keys, shape) = K::list(&mut cx.rng, n);
    let no = out.n;
    cx.describe(format!("{kind:?} {} {} entries ({shape}) of {} -> {:?}, {c:?}", if c.value.is_some() { "map" } else { "set" }, keys.len(), K::TYPE, c.value.map(|v| VALUES[v].0)));
    let desc = cx_desc(cx);
    let expr = |s: &str| syn::parse_str::<Expr>(s).unwrap();
    // sets may be given entries that carry values, which are to be left out
    let stray = cx.rng.chance(1, 3);
    let entry = |i: usize| {
        let value = match c.value {
            Some(v) => Some(expr(&(VALUES[v].2)(i))),
            None => stray.then(|| expr("not_to_be_used()")),
        };
        (expr(&keys[i].src()), value)
    };
    let e = c.emitter(&mut cx.rng, K::TYPE);
    let got = emit(e, &keys, &entry);
    cx.ev(if c.valid() { "valid configurations" } else { "invalid configurations" }, 1);
    let text = match got {
        Err(m) => {
            cx.check(!c.valid(), || format!("a valid configuration is refused: {m}"));
            cx.check(!m.is_empty(), || "refused without saying why".into());
            return;
        }
        Ok(t) => {
            cx.check(c.valid(), || format!("a configuration that can't be honoured yields code: {t}"));
            t.to_string()
        }
    };
    out.n += 1;
    cx.distinct(fzmon::model::fp(&text));
    cx.sample(|| text.clone());
    let mut uses = String::new();
    let (k, q) = (K::TYPE, K::QUERY);
    let sym = c.symbol.as_deref().unwrap_or("it");
    let list: Vec<String> = keys
        .iter()
        .enumerate()
        .map(|(i, x)| match c.value {
            Some(v) => format!("({}, {})", x.src(), (VALUES[v].2)(i)),
            None => x.src(),
        })
        .collect();
    if let Some(a) = &c.alias {
        let _ = writeln!(uses, "let alias: &{a} = &{sym}; std::hint::black_box(alias);");
    }
    if c.mutable {
        let _ = writeln!(uses, "{sym} = {sym}.clone();");
    }
    let clone = if c.is_static { format!("{sym}.clone()") } else { sym.to_string() };
    match c.value {
        Some(v) => {
            let v = VALUES[v].0;
            let list = format!("let e: Vec<({k}, {v})> = vec![{}];", list.join(", "));
            let look = if c.mutable { "map_changes" } else { "map_looks" };
            let _ = writeln!(uses, "{list} look::{look}::<{k}, {q}, {v}>(cx, In({clone}), e);");
        }
        None => {
            let _ = writeln!(uses, "let e: Vec<{k}> = vec![{}]; look::set_looks::<{k}, {q}>(cx, In({clone}), e);", list.join(", "));
        }
    }
    let o = &mut out.emitted;
    let _ = writeln!(o, "//@ {no}: {desc}");
    let d = format!("{desc:?}");
    if c.is_static {
        let vis = c.visibility;
        let _ = writeln!(o, "pub mod g{no} {{ use super::*;");
        let _ = writeln!(o, "pub mod m {{ use super::super::*;\n{text}\npub fn visit(cx: &mut Ctx) {{ cx.run(|cx| {{ cx.describe({d}.into());\n{uses}}}); }} }}");
        let a = c.alias.as_deref().unwrap_or("NoAlias");
        let fallback = format!("pub struct Hidden; static {sym}: Hidden = Hidden; type {a} = Hidden;");
        let seen = |path: &str| format!("{fallback} pub fn seen() -> (bool, bool) {{ use {path}::*; (look::seen(&{sym}), look::seen_type::<{a}>()) }}");
        let _ = writeln!(o, "{}\n}}", seen("self::m"));
        let _ = writeln!(o, "pub mod r{no} {{ use super::look; {} }}", seen(&format!("crate::g{no}::m")));
        let level = ["", "pub(super)", "pub(crate)", "pub"].iter().position(|x| *x == vis).unwrap();
        let has = c.alias.is_some();
        let _ = writeln!(out.visits, "g{no}::m::visit(cx);");
        for (path, least, whence) in [("g", 1, "its parent module"), ("r", 2, "elsewhere in the crate")] {
            let want = level >= least;
            let _ = writeln!(out.visits, "look::visibility(cx, {d}, \"{whence}\", {path}{no}::seen(), ({want}, {}));", want && has);
        }
        let _ = writeln!(out.probes, "mod p{no} {{ use emitted::look; {} }}", seen(&format!("emitted::g{no}::m")));
        let _ = writeln!(out.outside, "look::visibility(cx, {d}, \"another crate\", p{no}::seen(), ({}, {}));", level == 3, level == 3 && has);
    } else {
        let bind = if c.symbol.is_some() { text } else { format!("let it = {text};") };
        let _ = writeln!(o, "#[deny(unused_mut)] pub fn v{no}(cx: &mut Ctx) {{ cx.run(|cx| {{ cx.describe({d}.into());\n{bind}\n{uses}}}); }}");
        let _ = writeln!(out.visits, "v{no}(cx);");
    }
}

fn cx_desc(cx: &Ctx) -> String {
    cx.desc().to_string()
}

fn entries<K>(keys: &[K], entry: &dyn Fn(usize) -> (Expr, Option<Expr>), f: impl Fn(usize) -> K) -> Vec<CollectionEntry<K>> {
    (0..keys.len())
        .map(|i| match entry(i) {
            (k, Some(v)) => CollectionEntry::map_entry(f(i), k, v),
            (k, None) => CollectionEntry::set_entry(f(i), k),
        })
        .collect()
}

fn by_hash<K: Src + Hash + Eq>(cx: &mut Ctx, out: &mut Out, c: &Config, n: usize) {
    case::<K>(cx, out, Kind::Hash, c, n, |e, keys, entry| e.emit_hash_collection(entries(keys, entry, |i| keys[i].clone())));
}
fn by_order<K: Src + Ord>(cx: &mut Ctx, out: &mut Out, c: &Config, n: usize) {
    case::<K>(cx, out, Kind::Ordered, c, n, |e, keys, entry| e.emit_ordered_collection(entries(keys, entry, |i| keys[i].clone())));
}
fn by_index<K: Src + Scalar>(cx: &mut Ctx, out: &mut Out, c: &Config, n: usize) {
    case::<K>(cx, out, Kind::Scalar, c, n, |e, keys, entry| e.emit_scalar_collection(entries(keys, entry, |i| keys[i])));
}
fn by_text<K: Src + AsRef<str>>(cx: &mut Ctx, out: &mut Out, c: &Config, n: usize) {
    case::<K>(cx, out, Kind::Text, c, n, |e, keys, entry| {
        let list = (0..keys.len())
            .map(|i| match entry(i) {
                (k, Some(v)) => CollectionEntry::map_entry(keys[i].as_ref().to_string(), k, v),
                (k, None) => CollectionEntry::set_entry(keys[i].as_ref().to_string(), k),
            })
            .collect();
        e.emit_string_collection(list)
    });
}

/// Calls the emitter for one of the key types that its kind of collection takes; tells whether keys are constant.
fn any(cx: &mut Ctx, out: &mut Out, kind: Kind, which: u64, c: &Config, n: usize) {
    macro_rules! pick {
        ($f:ident: $($t:ty),*) => {{
            let fs: &[(fn(&mut Ctx, &mut Out, &Config, usize), bool)] = &[$(($f::<$t>, <$t as Src>::CONST)),*];
            let (f, constant) = fs[which as usize % fs.len()];
            let mut c = c.clone();
            c.const_keys &= constant;
            f(cx, out, &c, n);
        }};
    }
    match kind {
        Kind::Hash => pick!(by_hash: u64, &'static str, String, i32, char, Vec<u8>, Pt, u8, Ci, (), Hue),
        Kind::Ordered => pick!(by_order: i64, String, &'static str, u16, Pt, char, Vec<u8>, u128, (), Hue, isize),
        Kind::Scalar => pick!(by_index: i32, u8, i8, u16, i16, u32, i64, u64, usize, isize, Hue, NonZeroU8, NonZeroI8, NonZeroU16, NonZeroI16, NonZeroU32, NonZeroI32, NonZeroUsize, NonZeroIsize),
        Kind::Text => pick!(by_text: &'static str, &'static str, &'static str, String, Box<str>),
    }
}

const KINDS: [Kind; 4] = [Kind::Hash, Kind::Ordered, Kind::Scalar, Kind::Text];

fn main() {
    let mut cx = Ctx::from_args();
    let dir = std::env::var("FZMON_DIR").expect("FZMON_DIR");
    let mut out = Out::default();
    let all = |bits: u32, value: Option<usize>, no: usize| Config {
        value,
        symbol: (bits & 1 != 0).then(|| format!("SYM{no}")),
        alias: (bits & 2 != 0).then(|| format!("Alias{no}")),
        const_keys: bits & 4 != 0,
        const_values: bits & 8 != 0,
        visibility: "",
        is_static: bits & 16 != 0,
        mutable: bits & 32 != 0,
    };
    // every configuration that must be refused, for every kind of collection
    for bits in 0..64 {
        for kind in KINDS {
            for value in [None, Some(0)] {
                let c = all(bits, value, 0);
                if !c.valid() {
                    cx.run(|cx| {
                        let n = [0, 2, 6, 20][cx.rng.idx(4)];
                        any(cx, &mut out, kind, 0, &c, n);
                    });
                }
            }
        }
    }
    assert!(out.n == 0 || cx.failed());
    // the others, with all sorts of entries
    let n = cx.n(280);
    for i in 0..n {
        cx.run(|cx| {
            let kind = KINDS[i as usize % 4];
            let no = out.n;
            let mut c = loop {
                let mut bits = cx.rng.below(64) as u32;
                if cx.rng.chance(1, 3) {
                    // static, mostly constant
                    bits = 0b10001 | bits & 0b10 | if cx.rng.chance(2, 3) { 0b1100 } else { bits & 0b1100 };
                }
                let value = if cx.rng.chance(1, 3) { None } else { Some(cx.rng.idx(VALUES.len())) };
                let c = all(bits, value, no);
                if c.valid() {
                    break c;
                }
            };
            if !c.is_static && cx.rng.chance(1, 2) {
                // local names are usually written like this
                c.symbol = c.symbol.map(|s| s.to_lowercase());
            }
            c.const_values &= c.value.is_none_or(|v| VALUES[v].1);
            c.visibility = *cx.rng.pick(&["", "pub(super)", "pub(crate)", "pub"]);
            let n = match cx.rng.below(12) {
                0 => 0,
                1..=3 => cx.rng.range(1, 4) as usize,
                4..=7 => cx.rng.range(4, 20) as usize,
                8..=10 => cx.rng.range(5, 70) as usize,
                _ => *cx.rng.pick(&[127, 128, 129, 254, 255, 256, 257, 300]),
            };
            any(cx, &mut out, kind, i / 4, &c, n);
            cx.ev("emitted collections", 1);
        });
    }
    let Out { emitted, probes, visits, outside, .. } = out;
    std::fs::write(format!("{dir}/emitted.rs"), format!("{emitted}\npub fn run(cx: &mut Ctx) {{\n{visits}}}\n")).unwrap();
    std::fs::write(format!("{dir}/probes.rs"), format!("{probes}\nfn outside(cx: &mut Ctx) {{\n{outside}}}\n")).unwrap();
    cx.finish();
}
