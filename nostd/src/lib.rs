//! A user of the crate that has no standard library: statics and locals of literal keys, derived enums, run-time collections.
#![no_std]
extern crate alloc;
use alloc::boxed::Box;
use alloc::string::String;
use frozen_collections::*;

fz_string_set!(pub static S_HASH: TSHash<&'static str>, { "a", "bb", "ccc", "dddd", "zz" });
fz_string_set!(pub static S_SCAN: TSScan<&'static str>, { "a", "bb" });
fz_string_set!(pub static S_EMPTY: TSEmpty<&'static str>, {});
fz_string_set!(pub static S_RANGE: TSRange<&'static str>, { "alpha", "bravo", "cravo", "dravo", "eravo" });
fz_string_map!(pub static M_SCAN: TMScan<&'static str, u8>, { "a": 1u8, "bcd": 2 });
fz_string_map!(pub static M_HASH: TMHash<&'static str, u8>, { "a": 1u8, "bcd": 2, "x": 4, "dddeee": 5, "xxxeee": 6, "ddd": 7, "dddf": 8, "a": 9 });
fz_scalar_map!(pub static I_DENSE: TIDense<u32, u8>, { 1u32: 2u8, 2: 3, 3: 4 });
fz_scalar_map!(pub static I_HASH: TIHash<u32, u8>, { 1u32: 2u8, 12: 3, 13: 4, 5000: 5, 6000: 6, 70000: 7, 800000: 8, 9: 9, 10: 10 });
fz_scalar_set!(pub static I_SPARSE: TISparse<i32>, { 1, 2, 3, 5, 7, 8, 9, 12 });
fz_hash_map!(pub static H: THash<u32, u8>, { 1u32: 2u8, 12: 3, 13: 4, 5000: 5 });
fz_hash_set!(pub static HS: THashSet<&'static str>, { "x", "yy", "zzz", "a b" });
fz_ordered_map!(pub static O: TOrd<u32, u8>, { 1u32: 2u8, 12: 3, 13: 4, 5000: 5 });
fz_ordered_set!(pub static OS: TOrdSet<&'static str>, { "a", "b", "cd", "ef", "hh" });

#[derive(Scalar, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Colour {
    Red,
    Green,
    Blue,
}

pub fn answers(ask: &mut dyn FnMut(&'static str, bool)) {
    let yes = ["a", "bb", "ccc", "dddd", "zz"];
    ask("hashed strings", S_HASH.len() == 5 && yes.iter().all(|k| S_HASH.contains(*k)) && !S_HASH.contains("cc") && !S_HASH.contains(""));
    ask("two strings", S_SCAN.len() == 2 && S_SCAN.contains("bb") && !S_SCAN.contains("b"));
    ask("no strings", S_EMPTY.len() == 0 && !S_EMPTY.contains("") && S_EMPTY.iter().count() == 0);
    ask("strings told apart by a part", S_RANGE.contains("cravo") && !S_RANGE.contains("fravo") && !S_RANGE.contains("cr"));
    ask("map of two strings", M_SCAN.get("bcd") == Some(&2) && M_SCAN.get("x").is_none());
    ask("map of strings, one repeated", M_HASH.len() == 7 && M_HASH.get("a") == Some(&9) && M_HASH.get("dddf") == Some(&8) && M_HASH.get("dddg").is_none());
    ask("dense", I_DENSE.get(&2) == Some(&3) && I_DENSE.get(&4).is_none() && I_DENSE.get(&0).is_none());
    ask("sparse", I_SPARSE.len() == 8 && I_SPARSE.contains(&8) && !I_SPARSE.contains(&4) && !I_SPARSE.contains(&i32::MIN));
    ask("far apart", I_HASH.get(&800_000) == Some(&8) && I_HASH.get(&0).is_none());
    ask("hash", H.get(&5000) == Some(&5) && H.get(&2).is_none() && HS.contains(&"a b") && !HS.contains(&"b"));
    ask("ordered", O.get(&13) == Some(&4) && O.get(&14).is_none() && OS.contains(&"hh") && !OS.contains(&"h"));
    fz_string_map!(let mut local: TLocal<&'static str, u8>, { "a": 1u8, "bcd": 2, "x": 4, "dddeee": 5 });
    *local.get_mut("x").unwrap() = 44;
    ask("a local that changes", local.get("x") == Some(&44) && local.get("a") == Some(&1) && local.len() == 4);
    let e = fz_string_set!({ "q", "w", "e" });
    let g = fz_scalar_map!({ 5: 1, 9: 3 });
    ask("expressions", e.contains("w") && !e.contains("r") && g.get(&9) == Some(&3) && g.get(&7).is_none());
    let m = FzScalarMap::from([(Colour::Red, 1), (Colour::Blue, 2), (Colour::Red, 3)]);
    ask("derived", Colour::Blue.index() == 2 && m.get(&Colour::Red) == Some(&3) && m.get(&Colour::Green).is_none());
    let m: FzStringMap<Box<str>, u32> = (0..300u32).map(|i| (alloc::format!("k{i}"), i)).collect();
    ask("run time strings", (0..300u32).all(|i| m.get(&alloc::format!("k{i}")) == Some(&i)) && m.get("k300").is_none());
    let m: FzHashMap<String, u32> = (0..300u32).map(|i| (alloc::format!("k{i}"), i)).collect();
    ask("run time hash", (0..300u32).all(|i| m.get(&alloc::format!("k{i}")) == Some(&i)) && m.len() == 300);
    let s: FzOrderedSet<u64> = (0..300u64).map(|i| i * i).collect();
    ask("run time ordered", (0..90_000).filter(|x| s.contains(x)).count() == 300);
}
