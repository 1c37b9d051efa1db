//! C19: the functions behind the macros get well-formed, malformed and mangled input. An independent reading of the input
//! says whether it has to be accepted or refused, and what has to become of its entries.
use frozen_collections_core::macros::*;
use fzmon::ctx::Ctx;
use fzmon::keys::Key as _;
use fzmon::rng::Rng;
use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashMap;
use std::fmt::Write as _;
use syn::parse::{ParseStream, Parser};
use syn::{Expr, Fields, Item, Lit, Pat, Stmt, Token, Type, Visibility, braced};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Hash,
    Ordered,
    Scalar,
    String,
}
use Kind::*;

type Macro = fn(TokenStream) -> syn::Result<TokenStream>;
const MACROS: [(&str, Kind, bool, Macro); 8] = [
    ("fz_hash_map", Hash, true, fz_hash_map_macro),
    ("fz_hash_set", Hash, false, fz_hash_set_macro),
    ("fz_ordered_map", Ordered, true, fz_ordered_map_macro),
    ("fz_ordered_set", Ordered, false, fz_ordered_set_macro),
    ("fz_scalar_map", Scalar, true, fz_scalar_map_macro),
    ("fz_scalar_set", Scalar, false, fz_scalar_set_macro),
    ("fz_string_map", String, true, fz_string_map_macro),
    ("fz_string_set", String, false, fz_string_set_macro),
];

// ---- the independent reading --------------------------------------------------------------------------------------

#[derive(PartialEq, Clone, Copy, Debug)]
enum Form {
    Short,
    Static,
    Let(bool),
}
struct Invocation {
    form: Form,
    vis: Visibility,
    name: std::string::String,
    alias: std::string::String,
    entries: Vec<(Expr, Option<Expr>)>,
}
fn read(input: ParseStream, map: bool) -> syn::Result<Invocation> {
    let vis: Visibility = input.parse()?;
    let bare = matches!(vis, Visibility::Inherited);
    let form = if input.peek(Token![static]) {
        input.parse::<Token![static]>()?;
        Form::Static
    } else if input.peek(Token![let]) && bare {
        input.parse::<Token![let]>()?;
        Form::Let(input.parse::<Option<Token![mut]>>()?.is_some())
    } else if bare {
        Form::Short
    } else {
        return Err(input.error("visibility"));
    };
    let (mut name, mut alias) = Default::default();
    if form != Form::Short {
        name = input.parse::<syn::Ident>()?.to_string();
        input.parse::<Token![:]>()?;
        alias = input.parse::<syn::Ident>()?.to_string();
        input.parse::<Token![<]>()?;
        input.parse::<Type>()?;
        if map {
            input.parse::<Token![,]>()?;
            input.parse::<Type>()?;
        }
        input.parse::<Token![>]>()?;
        input.parse::<Token![,]>()?;
    }
    let list;
    braced!(list in input);
    let mut entries = vec![];
    while !list.is_empty() {
        let k: Expr = list.parse()?;
        let v = if map {
            list.parse::<Token![:]>()?;
            Some(list.parse::<Expr>()?)
        } else {
            None
        };
        entries.push((k, v));
        if list.is_empty() {
            break;
        }
        list.parse::<Token![,]>()?;
    }
    Ok(Invocation { form, vis, name, alias, entries })
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Key {
    Text(std::string::String),
    Number(i128),
    /// One whose value isn't known while compiling; no two of them count as the same.
    Other(usize),
}
enum Verdict {
    Refuse(&'static str),
    Accept(Invocation, Vec<Key>),
    Open,
}
fn verdict(ts: TokenStream, kind: Kind, map: bool) -> Verdict {
    let Ok(inv) = (|i: ParseStream| read(i, map)).parse2(ts) else { return Verdict::Refuse("grammar") };
    if inv.entries.is_empty() {
        return if inv.form == Form::Short { Verdict::Refuse("no entries, no type") } else { Verdict::Accept(inv, vec![]) };
    }
    let mut keys = vec![];
    let mut suffixes: Vec<std::string::String> = vec![];
    let (mut strs, mut ints, mut open) = (0, 0, false);
    for (i, (k, _)) in inv.entries.iter().enumerate() {
        let key = match k {
            Expr::Lit(l) if !l.attrs.is_empty() => {
                open = true;
                Key::Other(i)
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) => {
                    open |= !s.suffix().is_empty();
                    strs += 1;
                    Key::Text(s.value())
                }
                Lit::Int(n) => {
                    ints += 1;
                    match n.suffix() {
                        "" => (),
                        "i128" | "u128" => open = true,
                        s @ ("i8" | "i16" | "i32" | "i64" | "isize" | "u8" | "u16" | "u32" | "u64" | "usize") => suffixes.push(s.into()),
                        // other complaints may come first, but some complaint has to
                        _ => return Verdict::Refuse("suffix"),
                    }
                    match n.base10_digits().parse::<i128>() {
                        Ok(n) => Key::Number(n),
                        Err(_) => Key::Number(i128::MAX),
                    }
                }
                _ => {
                    open = true;
                    Key::Other(i)
                }
            },
            Expr::Group(_) => {
                open = true;
                Key::Other(i)
            }
            _ => Key::Other(i),
        };
        keys.push(key);
    }
    if kind == Scalar && strs > 0 {
        return Verdict::Refuse("string in a scalar macro");
    }
    if kind == String && ints > 0 {
        return Verdict::Refuse("number in a string macro");
    }
    suffixes.sort();
    suffixes.dedup();
    if suffixes.len() > 1 {
        return Verdict::Refuse("suffixes that differ");
    }
    if ints == keys.len() && !open {
        let (lo, hi): (i128, i128) = match suffixes.first().map_or("i32", |s| s) {
            "i8" => (i8::MIN.into(), i8::MAX.into()),
            "i16" => (i16::MIN.into(), i16::MAX.into()),
            "i32" => (i32::MIN.into(), i32::MAX.into()),
            "i64" | "isize" => (i64::MIN.into(), i64::MAX.into()),
            "u8" => (0, u8::MAX.into()),
            "u16" => (0, u16::MAX.into()),
            "u32" => (0, u32::MAX.into()),
            _ => (0, u64::MAX.into()),
        };
        if keys.iter().any(|k| matches!(k, Key::Number(n) if !(lo..=hi).contains(n))) {
            return Verdict::Refuse("number out of range");
        }
    }
    if open || ints > 0 && strs > 0 {
        return Verdict::Open;
    }
    Verdict::Accept(inv, keys)
}

// ---- what came of it ----------------------------------------------------------------------------------------------

#[derive(Default)]
struct Seen {
    idents: HashMap<std::string::String, usize>,
    texts: HashMap<std::string::String, usize>,
    numbers: HashMap<i128, usize>,
}
fn look(ts: TokenStream, s: &mut Seen) {
    for t in ts {
        match t {
            TokenTree::Group(g) => look(g.stream(), s),
            TokenTree::Ident(i) => *s.idents.entry(i.to_string()).or_default() += 1,
            TokenTree::Literal(l) => match Lit::new(l) {
                Lit::Str(x) => *s.texts.entry(x.value()).or_default() += 1,
                Lit::Int(x) => *s.numbers.entry(x.base10_digits().parse().unwrap_or(i128::MAX)).or_default() += 1,
                _ => (),
            },
            TokenTree::Punct(_) => (),
        }
    }
}

/// A name that occurs nowhere else in the input, written as `m_17` or `k_17`.
fn marker(e: &Expr) -> Option<std::string::String> {
    let Expr::Path(p) = e else { return None };
    let s = p.path.get_ident()?.to_string();
    (s.starts_with("m_") || s.starts_with("k_")).then_some(s)
}

fn outcome(cx: &mut Ctx, inv: &Invocation, keys: &[Key], given: &Seen, out: TokenStream) {
    let text = out.to_string();
    let short = || text.chars().take(600).collect::<std::string::String>();
    match inv.form {
        Form::Short => cx.check(syn::parse2::<Expr>(out.clone()).is_ok(), || format!("the expansion isn't an expression: {}", short())),
        Form::Static => {
            let items = syn::parse2::<syn::File>(out.clone()).map(|f| f.items).unwrap_or_default();
            let vis = inv.vis.to_token_stream().to_string();
            let stat = items.iter().any(|i| matches!(i, Item::Static(s) if s.ident == inv.name && s.vis.to_token_stream().to_string() == vis && matches!(s.mutability, syn::StaticMutability::None)));
            let alias = items.iter().any(|i| matches!(i, Item::Type(s) if s.ident == inv.alias && s.vis.to_token_stream().to_string() == vis));
            cx.check(stat && alias, || format!("static {}: {alias}, alias {}: {stat} in {}", inv.name, inv.alias, short()));
        }
        Form::Let(mutable) => {
            let stmts = syn::Block::parse_within.parse2(out.clone()).unwrap_or_default();
            let there = stmts.iter().any(|s| {
                let Stmt::Local(l) = s else { return false };
                let p = if let Pat::Type(t) = &l.pat { &t.pat } else { &l.pat };
                matches!(p, Pat::Ident(i) if i.ident == inv.name && i.mutability.is_some() == mutable)
            });
            cx.check(there, || format!("no variable {} (mut: {mutable}) in {}", inv.name, short()));
        }
    }
    // last one wins
    let mut last = HashMap::new();
    for (i, k) in keys.iter().enumerate() {
        last.insert(k, i);
    }
    let literal = !keys.iter().any(|k| matches!(k, Key::Other(_)));
    let mut seen = Seen::default();
    look(out, &mut seen);
    for (i, (k, v)) in inv.entries.iter().enumerate() {
        // where all keys are known, all but the last of equal ones may have gone
        let lives = !literal || last[&keys[i]] == i;
        for m in [marker(k), v.as_ref().and_then(marker)].into_iter().flatten() {
            if given.idents[&m] == 1 {
                let n = seen.idents.get(&m).copied().unwrap_or(0);
                cx.check(n == 1 || n == 0 && !lives, || format!("entry {i} of {}, {} => {}, occurs {n} times in the expansion {}", keys.len(), k.to_token_stream(), v.to_token_stream(), short()));
                cx.ev("entries followed", 1);
            }
        }
        match &keys[i] {
            Key::Text(t) => cx.check(seen.texts.contains_key(t), || format!("key {t:?} is missing from the expansion {}", short())),
            Key::Number(n) => cx.check(seen.numbers.contains_key(n), || format!("key {n} is missing from the expansion {}", short())),
            Key::Other(_) => (),
        }
    }
}

// ---- input --------------------------------------------------------------------------------------------------------

fn string_literal(r: &mut Rng, s: &str) -> std::string::String {
    if !s.contains(['"', '#', '\r', '\\']) && r.chance(1, 4) {
        return if r.chance(1, 2) { format!("r#\"{s}\"#") } else { format!("r\"{s}\"") };
    }
    if r.chance(1, 8) { s.chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect::<std::string::String>() } else { return format!("{s:?}") };
    let hex: std::string::String = s.chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect();
    format!("\"{hex}\"")
}
fn number(r: &mut Rng, n: u128) -> std::string::String {
    match r.below(8) {
        0 => format!("0x{n:x}_"),
        1 => format!("0o{n:o}"),
        2 => format!("0b{n:b}"),
        3 => format!("{n}_"),
        _ => format!("{n}"),
    }
}

/// An invocation, mostly well-formed.
fn invocation(r: &mut Rng, kind: Kind, map: bool) -> std::string::String {
    let n = match r.below(16) {
        0 => 0,
        1..=5 => r.range(1, 5),
        6..=12 => r.range(4, 30),
        13..=14 => r.range(20, 140),
        _ => *r.pick(&[127, 128, 129, 255, 256, 257, 400, 700]),
    } as usize;
    // 0: numbers, 1: strings, 2: expressions
    let what = match (kind, r.below(8)) {
        (_, 0) => 2,
        (Scalar, 1..) => 0,
        (String, 1..) => 1,
        (_, x) => x % 3,
    };
    let suffix = *r.pick(&["", "", "i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize"]);
    let mut keys: Vec<std::string::String> = match what {
        0 => {
            macro_rules! of {
                ($t:ty) => {
                    <$t>::list(r, n).0.into_iter().filter_map(|x| u128::try_from(x).ok()).collect()
                };
            }
            let v: Vec<u128> = match suffix {
                "i8" => of!(i8),
                "i16" => of!(i16),
                "" | "i32" => of!(i32),
                "i64" => of!(i64),
                "isize" => of!(isize),
                "u8" => of!(u8),
                "u16" => of!(u16),
                "u32" => of!(u32),
                "u64" => of!(u64),
                _ => of!(usize),
            };
            let all = r.chance(1, 2);
            let first = r.idx(v.len().max(1));
            v.iter()
                .enumerate()
                .map(|(i, x)| {
                    let t = number(r, *x);
                    if all || i == first || r.chance(1, 2) { format!("{t}{suffix}") } else { t }
                })
                .collect()
        }
        1 => std::string::String::list(r, n).0.iter().map(|s| string_literal(r, s)).collect(),
        _ => (0..n).map(|i| if r.chance(1, 6) { ["-1", "f(3)", "(1)", "X::Y", "u64::MAX", "a[2]", "&x", "if a { b } else { c }", "|x| x"][r.idx(9)].into() } else { format!("k_{i}") }).collect(),
    };
    // now and then something that doesn't belong
    if !keys.is_empty() && r.chance(1, 5) {
        let i = r.idx(keys.len());
        keys[i] = (*r.pick(&["300u8", "128i8", "1u8", "1i64", "\"s\"", "k_0", "1.5", "'c'", "b'c'", "b\"x\"", "true", "1foo", "1u128", "4294967296", "2147483648", "99999999999999999999999", "18446744073709551616u64", "-1", "\"s\"x", "#[a] 1"])).to_string();
    }
    let mut s = std::string::String::new();
    let form = r.below(4);
    if form > 0 {
        let name = *r.pick(&["NAME", "name", "r#static", "_x", "nämé"]);
        let ty = |r: &mut Rng| *r.pick(&["u8", "i32", "&'static str", "Vec<Vec<u8>>", "[u8; 4]", "(u8, u16)", "fn(u8) -> u8", "Box<dyn Fn(u8) -> Vec<u8>>", "a::B<{ 1 > 0 }>", "!", "_", "impl X"]);
        let vis = if form == 1 { *r.pick(&["", "", "pub ", "pub(crate) ", "pub(in a::b) ", "pub(super) "]) } else { "" };
        let _ = write!(s, "{vis}{} {name}: {}<{}", ["", "static", "let", "let mut"][form as usize], r.pick(&["Alias", "A_b", "r#type"]), ty(r));
        if map {
            let _ = write!(s, ", {}", ty(r));
        }
        s += ">, ";
    }
    s += "{ ";
    let n = keys.len();
    for (i, k) in keys.iter().enumerate() {
        s += k;
        if map {
            let _ = match r.below(12) {
                0 => write!(s, ": {{ let x = m_{i}; x }}"),
                1 => write!(s, ": [1, 2, {i}]"),
                2 => write!(s, ": S {{ a: {i}, b: m_{i} }}"),
                _ => write!(s, ": m_{i}"),
            };
        }
        if i + 1 < n || r.chance(1, 3) {
            s += ", ";
        }
    }
    s += "}";
    s
}

const POOL: &[&str] = &[
    "static", "let", "mut", "pub", "pub(crate)", "crate", ":", "::", ",", "<", ">", "{ }", "( )", "[ ]", "=", "=>", "->", "-", "!", "#", "#[cfg(test)]", ";", ".", "..", "'a", "\"s\"", "1", "1u8", "300u8", "1u16", "1.5", "'c'",
    "b'c'", "b\"x\"", "c\"x\"", "true", "r\"raw\"", "r#type", "_", "Self", "async", "|x| x", "match", "if", "else", "const { 1 }", "$", "m!()", "0x1F", "1_000", "1e5", "99999999999999999999999999999", "u64::MAX", "X", "Y", "u8", "&", "*",
    "enum", "struct", "union", "= 3", "(u8)", "{ a: u8 }", "where", "for", "unsafe", "1foo", "&&", "<<", "dyn", "impl", "fn",
];
fn mangle(r: &mut Rng, ts: TokenStream) -> TokenStream {
    let mut v: Vec<TokenTree> = ts.into_iter().collect();
    let extra = |r: &mut Rng| r.pick(POOL).parse::<TokenStream>().unwrap().into_iter().collect::<Vec<_>>();
    let groups: Vec<usize> = (0..v.len()).filter(|i| matches!(v[*i], TokenTree::Group(_))).collect();
    if !groups.is_empty() && r.chance(1, 2) {
        let i = *r.pick(&groups);
        let TokenTree::Group(g) = &v[i] else { unreachable!() };
        let g = match r.below(6) {
            0 => Group::new(*r.pick(&[Delimiter::Brace, Delimiter::Bracket, Delimiter::Parenthesis]), g.stream()),
            1 => Group::new(g.delimiter(), TokenStream::new()),
            _ => Group::new(g.delimiter(), mangle(r, g.stream())),
        };
        v[i] = TokenTree::Group(g);
        return v.into_iter().collect();
    }
    if v.is_empty() {
        return extra(r).into_iter().collect();
    }
    let i = r.idx(v.len());
    match r.below(6) {
        0 => {
            v.remove(i);
        }
        1 => v.insert(i, v[i].clone()),
        2 => {
            let j = r.idx(v.len());
            v.swap(i, j);
        }
        3 => {
            v.splice(i..=i, extra(r));
        }
        4 => v.truncate(i),
        _ => {
            v.splice(i..i, extra(r));
        }
    }
    if let Some(TokenTree::Punct(p)) = v.last_mut() {
        *p = proc_macro2::Punct::new(p.as_char(), Spacing::Alone);
    }
    v.into_iter().collect()
}

/// What the compiler would get to see of it: the text, and the tokens that this is split into.
fn settle(ts: TokenStream) -> Option<(std::string::String, TokenStream)> {
    let text = ts.to_string();
    let ts = text.parse().ok()?;
    Some((text, ts))
}

/// Some that were refused, for the compiler to be shown: invocations and items to derive for.
struct Refused(Vec<std::string::String>, Vec<std::string::String>);

fn macros(cx: &mut Ctx, no: usize, refused: &mut Refused) {
    let (name, kind, map, f) = MACROS[no % 8];
    let text = invocation(&mut cx.rng, kind, map);
    let mut ts: TokenStream = text.parse().unwrap_or_else(|e| panic!("the monitor wrote {text}: {e}"));
    let mangled = cx.rng.chance(1, 2);
    if mangled {
        for _ in 0..cx.rng.range(1, 4) {
            ts = mangle(&mut cx.rng, ts);
        }
    }
    let Some((text, ts)) = settle(ts) else { return };
    let small = text.chars().take(4000).collect::<std::string::String>();
    cx.describe(format!("{name}!({small})"));
    let want = verdict(ts.clone(), kind, map);
    let mut given = Seen::default();
    look(ts.clone(), &mut given);
    let got = f(ts);
    cx.ev("invocations", 1);
    cx.sample(|| format!("{name}!({})", text.chars().take(200).collect::<std::string::String>()));
    let class = match (&want, &got) {
        (Verdict::Refuse(why), Ok(out)) => cx.fail(format!("accepted, though {why} speaks against it: {}", out.to_string().chars().take(600).collect::<std::string::String>())),
        (Verdict::Accept(..), Err(e)) => cx.fail(format!("a well-formed invocation is refused: {e}")),
        (Verdict::Refuse(why), Err(_)) => {
            cx.ev(&format!("refused: {why}"), 1);
            1
        }
        (Verdict::Accept(inv, keys), Ok(out)) => {
            outcome(cx, inv, keys, &given, out.clone());
            cx.ev("accepted", 1);
            if mangled {
                cx.ev("accepted though mangled", 1);
            }
            2
        }
        (Verdict::Open, _) => {
            cx.ev("either way", 1);
            3
        }
    };
    if let Err(e) = got {
        complaint(cx, &e);
        if class == 1 && refused.0.len() < 60 && text.len() < 300 && !text.contains(['\n', '\r']) {
            refused.0.push(format!("{name}!{{ {text} }}"));
        }
    }
    cx.distinct(hash(&(name, &text)));
}
fn hash(x: &impl std::hash::Hash) -> u64 {
    use std::hash::BuildHasher;
    std::hash::BuildHasherDefault::<std::hash::DefaultHasher>::default().hash_one(x)
}

/// An error has to say something, as code that the compiler can show.
fn complaint(cx: &mut Ctx, e: &syn::Error) {
    cx.check(!e.to_string().trim().is_empty(), || "refused without saying why".into());
    let ok = syn::parse2::<syn::File>(e.to_compile_error()).is_ok();
    cx.check(ok, || format!("the complaint {e} can't be shown"));
}

fn derives(cx: &mut Ctx, refused: &mut Refused) {
    let r = &mut cx.rng;
    let n = match r.below(8) {
        0 => 0,
        1..=5 => r.range(1, 12),
        6 => r.range(10, 300),
        _ => 1,
    };
    let mut variants: Vec<std::string::String> = (0..n).map(|i| if r.chance(1, 6) { format!("#[doc = \"x\"] V{i}") } else { format!("V{i}") }).collect();
    if !variants.is_empty() && r.chance(1, 2) {
        let i = r.idx(variants.len());
        variants[i] += *r.pick(&["(u8)", "()", " {}", " { a: u8 }", " = 3", " = 0", "(u8) = 1"]);
    }
    let body = variants.join(", ");
    let (vis, generics) = (*r.pick(&["", "pub ", "pub(crate) "]), *r.pick(&["", "", "", "<const N: usize>", "<'a>"]));
    let text = match r.below(12) {
        0 => "struct S;".to_string(),
        1 => "struct S(u8);".to_string(),
        2 => "union U { a: u8, b: i8 }".to_string(),
        3 => "struct S { a: u8 }".to_string(),
        _ => format!("#[repr(u16)] {vis}enum r#E{generics} {{ {body} }}"),
    };
    let mut ts: TokenStream = text.parse().unwrap();
    let mangled = r.chance(1, 3);
    if mangled {
        ts = mangle(r, ts);
    }
    let Some((text, ts)) = settle(ts) else { return };
    cx.describe(format!("#[derive(Scalar)] {}", text.chars().take(3000).collect::<std::string::String>()));
    let item = syn::parse2::<syn::DeriveInput>(ts.clone());
    let ok = matches!(&item, Ok(i) if matches!(&i.data, syn::Data::Enum(e) if !e.variants.is_empty() && e.variants.iter().all(|v| v.fields == Fields::Unit && v.discriminant.is_none())));
    let got = derive_scalar_macro(ts);
    cx.ev("derives", 1);
    match got {
        Ok(out) => {
            cx.check(ok, || format!("accepted as {out}"));
            let name = &item.as_ref().unwrap().ident;
            let items = syn::parse2::<syn::File>(out.clone()).map(|f| f.items).unwrap_or_default();
            let there = items.iter().any(|i| {
                let Item::Impl(i) = i else { return false };
                let t = i.trait_.as_ref().is_some_and(|(_, p, _)| p.segments.last().is_some_and(|s| s.ident == "Scalar"));
                t && matches!(&*i.self_ty, Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == *name))
            });
            cx.check(there, || format!("the trait isn't implemented for {name} by {out}"));
            cx.ev("derives accepted", 1);
        }
        Err(e) => {
            cx.check(!ok, || format!("a fitting enum is refused: {e}"));
            complaint(cx, &e);
            cx.ev("derives refused", 1);
            if !mangled && refused.1.len() < 20 && text.len() < 300 {
                refused.1.push(format!("#[derive(Scalar)] {text}"));
            }
        }
    }
    cx.distinct(hash(&text));
}

fn main() {
    let mut cx = Ctx::from_args();
    let mut refused = Refused(vec![], vec![]);
    let n = cx.n(160_000);
    for i in 0..n {
        let refused = &mut refused;
        cx.run(|cx| if i % 12 == 11 { derives(cx, refused) } else { macros(cx, i as usize, refused) });
    }
    if let Ok(dir) = std::env::var("FZMON_DIR") {
        std::fs::write(format!("{dir}/refused.{}", cx.shard), [refused.0, refused.1].concat().join("\n")).unwrap();
    }
    cx.finish();
}
