//! C09: serialization writes each entry once and round-trips; repeated, malformed and hostile input.
use fzmon::adapt::*;
use fzmon::ctx::Ctx;
use fzmon::fam::Probe;
use fzmon::hashers::DynBH;
use fzmon::keys::*;
use fzmon::meter::{Meter, metered};
use fzmon::model::*;
use fzmon::rng::Rng;
use fzmon::*;
use bincode::Options as _;
use ciborium::Value as Cbor;
use frozen_collections::*;
use serde::de::{DeserializeOwned, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::io::Read;
use std::marker::PhantomData;

#[global_allocator]
static METER: Meter = Meter;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fmt {
    Json,
    Bincode,
    Cbor,
    Ron,
}
const FMTS: [Fmt; 4] = [Fmt::Json, Fmt::Bincode, Fmt::Cbor, Fmt::Ron];

/// Where the deserializer takes its input from.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    Borrowed,
    Streamed,
    Owned,
}
const MODES: [Mode; 3] = [Mode::Borrowed, Mode::Streamed, Mode::Owned];

/// Delivers a few bytes at a time and optionally fails at some point.
struct Drip<'a> {
    data: &'a [u8],
    step: usize,
    fail_at: Option<usize>,
    at: usize,
}
impl Read for Drip<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.fail_at.is_some_and(|f| self.at >= f) {
            return Err(std::io::Error::other("the stream broke"));
        }
        let mut n = buf.len().min(self.step).min(self.data.len() - self.at);
        if let Some(f) = self.fail_at {
            n = n.min(f - self.at);
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn encode<T: Serialize + ?Sized>(f: Fmt, x: &T) -> Result<Vec<u8>, String> {
    match f {
        Fmt::Json => serde_json::to_vec(x).map_err(|e| e.to_string()),
        Fmt::Bincode => bincode::serialize(x).map_err(|e| e.to_string()),
        Fmt::Cbor => {
            let mut v = vec![];
            ciborium::into_writer(x, &mut v).map_err(|e| e.to_string())?;
            Ok(v)
        }
        Fmt::Ron => ron::to_string(x).map(String::into_bytes).map_err(|e| e.to_string()),
    }
}

fn decode<T: DeserializeOwned>(f: Fmt, m: Mode, b: &[u8], step: usize, fail_at: Option<usize>) -> Result<T, String> {
    let drip = || Drip { data: b, step, fail_at, at: 0 };
    match (f, m) {
        (Fmt::Json, Mode::Borrowed) => match std::str::from_utf8(b) {
            Ok(s) => serde_json::from_str(s).map_err(|e| e.to_string()),
            Err(_) => serde_json::from_slice(b).map_err(|e| e.to_string()),
        },
        (Fmt::Json, Mode::Streamed) => serde_json::from_reader(drip()).map_err(|e| e.to_string()),
        // a JSON value holds each key once (the last), as the collections do
        (Fmt::Json, Mode::Owned) => serde_json::from_value(serde_json::from_slice(b).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        (Fmt::Bincode, Mode::Streamed) => bincode::options().with_fixint_encoding().with_limit(b.len() as u64 + 64).deserialize_from(drip()).map_err(|e| e.to_string()),
        (Fmt::Bincode, _) => bincode::options().with_fixint_encoding().with_no_limit().deserialize(b).map_err(|e| e.to_string()),
        (Fmt::Cbor, Mode::Owned) => {
            let v: Cbor = ciborium::from_reader(b).map_err(|e| e.to_string())?;
            v.deserialized().map_err(|e| e.to_string())
        }
        (Fmt::Cbor, _) => ciborium::from_reader(drip()).map_err(|e| e.to_string()),
        (Fmt::Ron, Mode::Streamed) => ron::de::from_reader(drip()).map_err(|e| e.to_string()),
        (Fmt::Ron, _) => ron::de::from_bytes(b).map_err(|e| e.to_string()),
    }
}

/// Records the entries of a map in the order they come, repeated ones included.
#[derive(Debug, PartialEq)]
struct Pairs<K, V>(Vec<(K, V)>);
impl<K: Serialize, V: Serialize> Serialize for Pairs<K, V> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in &self.0 {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}
impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for Pairs<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<K, V>(PhantomData<(K, V)>);
        impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Visitor<'de> for Vis<K, V> {
            type Value = Pairs<K, V>;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut v = Vec::new();
                while let Some(x) = a.next_entry()? {
                    v.push(x);
                }
                Ok(Pairs(v))
            }
        }
        d.deserialize_map(Vis(PhantomData))
    }
}

/// The same for sequences.
#[derive(Debug, PartialEq)]
struct Items<T>(Vec<T>);
impl<T: Serialize> Serialize for Items<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(&self.0)
    }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Items<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<T>(PhantomData<T>);
        impl<'de, T: Deserialize<'de>> Visitor<'de> for Vis<T> {
            type Value = Items<T>;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("a sequence")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut v = Vec::new();
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Items(v))
            }
        }
        d.deserialize_seq(Vis(PhantomData))
    }
}

/// A deserializer that announces any number of entries and may fail after some of them.
struct Liar {
    items: std::vec::IntoIter<(serde_json::Value, serde_json::Value)>,
    value: Option<serde_json::Value>,
    hint: Option<usize>,
    fail_in: Option<usize>,
}
impl Liar {
    fn step(&mut self) -> Result<Option<(serde_json::Value, serde_json::Value)>, serde_json::Error> {
        if let Some(f) = &mut self.fail_in {
            if *f == 0 {
                return Err(serde::de::Error::custom("gave up"));
            }
            *f -= 1;
        }
        Ok(self.items.next())
    }
}
impl<'de> MapAccess<'de> for &mut Liar {
    type Error = serde_json::Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Self::Error> {
        let Some((k, v)) = self.step()? else { return Ok(None) };
        self.value = Some(v);
        seed.deserialize(k).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Self::Error> {
        seed.deserialize(self.value.take().expect("a key came first"))
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'de> SeqAccess<'de> for &mut Liar {
    type Error = serde_json::Error;
    fn next_element_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Self::Error> {
        let Some((k, _)) = self.step()? else { return Ok(None) };
        seed.deserialize(k).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
struct AsMap<'a>(&'a mut Liar);
impl<'de> Deserializer<'de> for AsMap<'_> {
    type Error = serde_json::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_map(self.0)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct AsSeq<'a>(&'a mut Liar);
impl<'de> Deserializer<'de> for AsSeq<'_> {
    type Error = serde_json::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_seq(self.0)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

/// Memory a deserialization may hold: a constant plus a generous multiple of its input.
fn modest(cx: &mut Ctx, what: &str, input: usize, peak: usize) {
    let allowed = (16 << 20) + 2000 * input;
    cx.check(peak <= allowed, || format!("{what}: deserializing {input} bytes took {peak} bytes of memory"));
    cx.ev("metered deserializations", 1);
}

/// What a map wrote, seen through the formats, against the dictionary.
fn written_map<M: Serialize, K: Serialize + Debug, V: Serialize + Debug>(cx: &mut Ctx, name: &str, m: &M, want: &[(K, V)]) {
    let got = Cbor::serialized(m);
    let Ok(Cbor::Map(got)) = got else { cx.fail(format!("{name}: was not written as a map: {got:?}")) };
    let mut got: Vec<String> = got.into_iter().map(|p| format!("{p:?}")).collect();
    let mut exp: Vec<String> = want.iter().map(|(k, v)| format!("{:?}", (Cbor::serialized(k).unwrap(), Cbor::serialized(v).unwrap()))).collect();
    got.sort();
    exp.sort();
    cx.check(got == exp, || format!("{name}: wrote {} entries {:.300}, expected {} entries {:.300}", got.len(), format!("{got:?}"), exp.len(), format!("{exp:?}")));
    // the announced length matters to binary formats
    let b = encode(Fmt::Bincode, m);
    let Ok(b) = b else { cx.fail(format!("{name}: could not be written: {b:?}")) };
    let n = u64::from_le_bytes(b[..8].try_into().unwrap());
    let size: u64 = 8 + want.iter().map(|x| bincode::serialized_size(x).unwrap()).sum::<u64>();
    cx.check(n == want.len() as u64 && b.len() as u64 == size, || format!("{name}: announced {n} entries in {} bytes, expected {} in {size}", b.len(), want.len()));
    cx.ev("maps written", 1);
}

fn written_set<M: Serialize, K: Serialize + Debug>(cx: &mut Ctx, name: &str, m: &M, want: &[K]) {
    let got = Cbor::serialized(m);
    let Ok(Cbor::Array(got)) = got else { cx.fail(format!("{name}: was not written as a sequence: {got:?}")) };
    let mut got: Vec<String> = got.into_iter().map(|p| format!("{p:?}")).collect();
    let mut exp: Vec<String> = want.iter().map(|k| format!("{:?}", Cbor::serialized(k).unwrap())).collect();
    got.sort();
    exp.sort();
    cx.check(got == exp, || format!("{name}: wrote {} elements {:.300}, expected {} elements {:.300}", got.len(), format!("{got:?}"), exp.len(), format!("{exp:?}")));
    let b = encode(Fmt::Bincode, m);
    let Ok(b) = b else { cx.fail(format!("{name}: could not be written: {b:?}")) };
    let n = u64::from_le_bytes(b[..8].try_into().unwrap());
    let size: u64 = 8 + want.iter().map(|x| bincode::serialized_size(x).unwrap()).sum::<u64>();
    cx.check(n == want.len() as u64 && b.len() as u64 == size, || format!("{name}: announced {n} elements in {} bytes, expected {} in {size}", b.len(), want.len()));
    cx.ev("sets written", 1);
}

fn mangle(rng: &mut Rng, b: &[u8]) -> (Vec<u8>, &'static str) {
    let mut v = b.to_vec();
    let k = rng.below(9);
    let at = if v.is_empty() { 0 } else { rng.idx(v.len()) };
    match k {
        0 | 1 => {
            v.truncate(at);
            (v, "truncated")
        }
        2 => {
            if !v.is_empty() {
                v[at] ^= 1 << rng.below(8);
            }
            (v, "bit flipped")
        }
        3 => {
            if !v.is_empty() {
                v[at] = rng.u64() as u8;
            }
            (v, "byte replaced")
        }
        4 => {
            v.insert(at, *rng.pick(&[0, b'"', b',', b':', b'{', b'}', b'[', b']', b'\\', 0xff, 0x80, b'n', b'1']));
            (v, "byte inserted")
        }
        5 => {
            if !v.is_empty() {
                v.remove(at);
            }
            (v, "byte removed")
        }
        6 => {
            let end = (at + rng.idx(20)).min(v.len());
            let part = v[at.min(end)..end].to_vec();
            let to = rng.idx(v.len() + 1);
            v.splice(to..to, part);
            (v, "piece repeated")
        }
        7 => {
            let n = rng.idx(30);
            v.extend((0..n).map(|_| rng.u64() as u8));
            (v, "trailing garbage")
        }
        _ => ((0..rng.idx(40)).map(|_| rng.u64() as u8).collect(), "random bytes"),
    }
}

/// The same content with another announced number of entries.
fn relength(rng: &mut Rng, f: Fmt, b: &[u8], n: usize, map: bool) -> Option<(Vec<u8>, u64)> {
    let len = match rng.below(10) {
        0 => n as u64 + 1,
        1 => 1 << 16,
        2 => 1 << 24,
        3 => 1 << 28,
        4 => 1 << 32,
        5 => 1 << 40,
        6 => 1 << 56,
        7 => u64::MAX,
        8 => i64::MAX as u64,
        _ => rng.u64() >> rng.below(60),
    };
    match f {
        Fmt::Bincode => {
            let mut v = b.to_vec();
            v[..8].copy_from_slice(&len.to_le_bytes());
            Some((v, len))
        }
        Fmt::Cbor => {
            let head = match b[0] & 31 {
                0..=23 => 1,
                24 => 2,
                25 => 3,
                26 => 5,
                _ => return None,
            };
            let mut v = vec![if map { 0xBB } else { 0x9B }];
            v.extend(len.to_be_bytes());
            v.extend(&b[head..]);
            Some((v, len))
        }
        _ => None,
    }
}

/// Decodes some bytes as the frozen collection and as the recorder: both must agree.
macro_rules! agree {
    ($cx:ident, $name:expr, $M:ty, $Ref:ty, $f:expr, $mode:expr, $b:expr, $step:expr, $fail:expr, $how:expr, |$m:ident, $pairs:ident| $body:block) => {{
        let b: &[u8] = $b;
        let reference = decode::<$Ref>($f, $mode, b, $step, $fail);
        let (got, peak, _) = metered(|| decode::<$M>($f, $mode, b, $step, $fail));
        modest($cx, $name, b.len(), peak);
        match (got, reference) {
            (Ok($m), Ok($pairs)) => {
                $cx.ev("accepted", 1);
                $body
            }
            (Err(_), Err(_)) => $cx.ev("rejected", 1),
            (g, r) => {
                let (g, r) = (g.map(|_| ()), r.map(|_| ()));
                $cx.fail(format!("{} from {:?} {:?} ({}): {g:?}, but the entries one by one: {r:?}; input {:.200}", $name, $f, $mode, $how, String::from_utf8_lossy(b)))
            }
        }
    }};
}

/// Everything about one map type that can be read and written.
macro_rules! map_type {
    ($cx:ident, $name:expr, $M:ty, $K:ty, $Q:ty, $V:ty, $m:expr, $e:expr, $md:expr, $probes:expr) => {{
        let cx: &mut Ctx = $cx;
        let want: Vec<($K, $V)> = $md.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let m: $M = $m;
        written_map(cx, $name, &m, &want);
        for f in FMTS {
            let raw = encode(f, &Pairs($e.clone()));
            let one = encode(f, &m);
            let (Ok(raw), Ok(one)) = (raw, one) else {
                // structured keys can't be written to JSON, by any collection
                cx.check(f == Fmt::Json && encode(f, &$md).is_err(), || format!("{}: can't be written as {f:?}", $name));
                continue;
            };
            for mode in MODES {
                let step = 1 + cx.rng.idx(9);
                // what the collection wrote
                let (back, peak, _) = metered(|| decode::<$M>(f, mode, &one, step, None));
                modest(cx, $name, one.len(), peak);
                let mut back = In(match back {
                    Ok(x) => x,
                    Err(e) => cx.fail(format!("{} doesn't read back from {f:?} {mode:?}: {e}; {:.200}", $name, String::from_utf8_lossy(&one))),
                });
                cx.check(back.0 == m && m == back.0, || format!("{} read back from {f:?} {mode:?} differs", $name));
                audit_map::<$K, $Q, $V>(cx, $name, &mut back, &$md, &$probes);
                // what an ordinary collection would write, with repeated keys
                let mut back = In(match decode::<$M>(f, mode, &raw, step, None) {
                    Ok(x) => x,
                    Err(e) => cx.fail(format!("{} doesn't read an ordinary map from {f:?} {mode:?}: {e}", $name)),
                });
                audit_map::<$K, $Q, $V>(cx, $name, &mut back, &$md, &$probes);
                cx.ev("round trips", 1);
                cx.ev(&format!("{f:?} {mode:?}"), 1);
                if want.len() < $e.len() {
                    cx.ev("inputs with repeated keys", 1);
                }
            }
            // ordinary collections read it too
            for mode in MODES {
                let back = decode::<BTreeMap<$K, $V>>(f, mode, &one, 7, None);
                cx.check(back.as_ref().is_ok_and(|b| *b == $md), || format!("{}: a BTreeMap reads {f:?} as {:.200}", $name, format!("{back:?}")));
            }
            for _ in 0..6 {
                let (bad, how) = mangle(&mut cx.rng, &raw);
                let mode = *cx.rng.pick(&MODES);
                let fail = cx.rng.chance(1, 4).then(|| cx.rng.idx(bad.len() + 1));
                agree!(cx, $name, $M, Pairs<$K, $V>, f, mode, &bad, 5, fail, how, |m, p| {
                    let md = model(&p.0);
                    audit_map::<$K, $Q, $V>(cx, $name, &mut In(m), &md, &$probes);
                });
                cx.ev(how, 1);
            }
            if f == Fmt::Bincode || f == Fmt::Cbor {
                for _ in 0..3 {
                    let Some((bad, len)) = relength(&mut cx.rng, f, &raw, $e.len(), true) else { continue };
                    let mode = *cx.rng.pick(&[Mode::Borrowed, Mode::Streamed]);
                    agree!(cx, $name, $M, Pairs<$K, $V>, f, mode, &bad, 50, None, format!("announces {len} entries"), |m, p| {
                        let md = model(&p.0);
                        audit_map::<$K, $Q, $V>(cx, $name, &mut In(m), &md, &$probes);
                    });
                    cx.ev("false lengths", 1);
                }
            }
        }
        // straight from a deserializer with any size hint, failing anywhere
        let items: Vec<_> = $e.iter().map(|(k, v)| (serde_json::to_value(k).unwrap(), serde_json::to_value(v).unwrap())).collect();
        for _ in 0..6 {
            let n = items.len();
            let hint = match cx.rng.below(9) {
                0 => None,
                1 => Some(0),
                2 => Some(n),
                3 => Some(n / 2),
                4 => Some(n + 1),
                5 => Some(usize::MAX),
                6 => Some(1 << 32),
                7 => Some(isize::MAX as usize / 16),
                _ => Some(1 << (20 + cx.rng.idx(40))),
            };
            let fail_in = cx.rng.chance(1, 2).then(|| cx.rng.idx(n + 1));
            let mut liar = Liar { items: items.clone().into_iter(), value: None, hint, fail_in };
            let (r, peak, _) = metered(|| <$M as Deserialize>::deserialize(AsMap(&mut liar)));
            modest(cx, $name, 100 + n * 100, peak);
            match r {
                Ok(m) => {
                    cx.check(fail_in.is_none(), || format!("{}: the failure after {fail_in:?} of {n} entries was ignored", $name));
                    audit_map::<$K, $Q, $V>(cx, $name, &mut In(m), &$md, &$probes);
                }
                Err(e) => cx.check(fail_in.is_some(), || format!("{}: size hint {hint:?} for {n} entries: {e}", $name)),
            }
            cx.ev("size hints", 1);
        }
        // wrong kind of input
        for bad in ["[]", "null", "1", "\"x\"", "[1,2]", "", "{", "{\"", "{:}", "true"] {
            let r = serde_json::from_str::<$M>(bad);
            cx.check(r.is_err(), || format!("{} was read from {bad}", $name));
        }
    }};
}

macro_rules! set_type {
    ($cx:ident, $name:expr, $M:ty, $K:ty, $Q:ty, $m:expr, $e:expr, $md:expr, $probes:expr) => {{
        let cx: &mut Ctx = $cx;
        let want: Vec<$K> = $md.iter().cloned().collect();
        let m: $M = $m;
        written_set(cx, $name, &m, &want);
        for f in FMTS {
            let raw = encode(f, &Items($e.clone())).expect("elements can be written");
            let one = match encode(f, &m) {
                Ok(x) => x,
                Err(e) => cx.fail(format!("{} can't be written as {f:?}: {e}", $name)),
            };
            for mode in MODES {
                let step = 1 + cx.rng.idx(9);
                let (back, peak, _) = metered(|| decode::<$M>(f, mode, &one, step, None));
                modest(cx, $name, one.len(), peak);
                let back = match back {
                    Ok(x) => x,
                    Err(e) => cx.fail(format!("{} doesn't read back from {f:?} {mode:?}: {e}; {:.200}", $name, String::from_utf8_lossy(&one))),
                };
                cx.check(back == m && m == back, || format!("{} read back from {f:?} {mode:?} differs", $name));
                audit_set::<$K, $Q>(cx, $name, &In(back), &$md, &$probes);
                let back = match decode::<$M>(f, mode, &raw, step, None) {
                    Ok(x) => x,
                    Err(e) => cx.fail(format!("{} doesn't read an ordinary sequence from {f:?} {mode:?}: {e}", $name)),
                };
                audit_set::<$K, $Q>(cx, $name, &In(back), &$md, &$probes);
                cx.ev("round trips", 1);
                cx.ev(&format!("{f:?} {mode:?}"), 1);
                let back = decode::<BTreeSet<$K>>(f, mode, &one, 7, None);
                cx.check(back.as_ref().is_ok_and(|b| *b == $md), || format!("{}: a BTreeSet reads {f:?} as {:.200}", $name, format!("{back:?}")));
            }
            for _ in 0..6 {
                let (bad, how) = mangle(&mut cx.rng, &raw);
                let mode = *cx.rng.pick(&MODES);
                let fail = cx.rng.chance(1, 4).then(|| cx.rng.idx(bad.len() + 1));
                agree!(cx, $name, $M, Items<$K>, f, mode, &bad, 5, fail, how, |m, p| {
                    let md: BTreeSet<$K> = p.0.into_iter().collect();
                    audit_set::<$K, $Q>(cx, $name, &In(m), &md, &$probes);
                });
                cx.ev(how, 1);
            }
            if f == Fmt::Bincode || f == Fmt::Cbor {
                for _ in 0..3 {
                    let Some((bad, len)) = relength(&mut cx.rng, f, &raw, $e.len(), false) else { continue };
                    let mode = *cx.rng.pick(&[Mode::Borrowed, Mode::Streamed]);
                    agree!(cx, $name, $M, Items<$K>, f, mode, &bad, 50, None, format!("announces {len} elements"), |m, p| {
                        let md: BTreeSet<$K> = p.0.into_iter().collect();
                        audit_set::<$K, $Q>(cx, $name, &In(m), &md, &$probes);
                    });
                    cx.ev("false lengths", 1);
                }
            }
        }
        let items: Vec<_> = $e.iter().map(|k| (serde_json::to_value(k).unwrap(), serde_json::Value::Null)).collect();
        for _ in 0..6 {
            let n = items.len();
            let hint = match cx.rng.below(8) {
                0 => None,
                1 => Some(0),
                2 => Some(n),
                3 => Some(n / 2),
                4 => Some(n + 1),
                5 => Some(usize::MAX),
                6 => Some(1 << 32),
                _ => Some(1 << (20 + cx.rng.idx(40))),
            };
            let fail_in = cx.rng.chance(1, 2).then(|| cx.rng.idx(n + 1));
            let mut liar = Liar { items: items.clone().into_iter(), value: None, hint, fail_in };
            let (r, peak, _) = metered(|| <$M as Deserialize>::deserialize(AsSeq(&mut liar)));
            modest(cx, $name, 100 + n * 100, peak);
            match r {
                Ok(m) => {
                    cx.check(fail_in.is_none(), || format!("{}: the failure after {fail_in:?} of {n} elements was ignored", $name));
                    audit_set::<$K, $Q>(cx, $name, &In(m), &$md, &$probes);
                }
                Err(e) => cx.check(fail_in.is_some(), || format!("{}: size hint {hint:?} for {n} elements: {e}", $name)),
            }
            cx.ev("size hints", 1);
        }
        for bad in ["{}", "null", "1", "\"x\"", "{\"1\":2}", "", "[", "[,]", "true"] {
            let r = serde_json::from_str::<$M>(bad);
            cx.check(r.is_err(), || format!("{} was read from {bad}", $name));
        }
    }};
}

fn pick_size(cx: &mut Ctx) -> usize {
    let max = if cx.rng.chance(1, 10) { if cx.thorough { 3000 } else { 600 } } else { 40 };
    size(&mut cx.rng, max)
}

fn keyed(cx: &mut Ctx) {
    let pick = cx.rng.below(4);
    macro_rules! case {
        ($K:ty, $Q:ty, $V:ty) => {{
            let n = pick_size(cx);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, $V)> = entries(keys.clone());
            let md = model(&e);
            cx.describe(format!("{} shape={shape} n={} distinct={}", stringify!($K), e.len(), md.len()));
            let present: Vec<$K> = md.keys().cloned().collect();
            let probes = <$K>::probes(&mut cx.rng, &present, 10);
            map_type!(cx, "FzHashMap", FzHashMap<$K, $V>, $K, $Q, $V, FzHashMap::new(e.clone()), e, md, probes);
            map_type!(cx, "FzHashMap(own hasher)", FzHashMap<$K, $V, DynBH>, $K, $Q, $V, FzHashMap::with_hasher(e.clone(), DynBH::default()), e, md, probes);
            map_type!(cx, "FzOrderedMap", FzOrderedMap<$K, $V>, $K, $Q, $V, FzOrderedMap::new(e.clone()), e, md, probes);
            let want: Vec<($K, $V)> = md.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            hash_maps!($K, $V, e, DynBH::default(), md.len(), |name, m| { written_map(cx, name, &m, &want) });
            ord_maps!($K, $V, e, |name, m| { written_map(cx, name, &m, &want) });
            let ms: BTreeSet<$K> = keys.iter().cloned().collect();
            set_type!(cx, "FzHashSet", FzHashSet<$K>, $K, $Q, FzHashSet::new(keys.clone()), keys, ms, probes);
            set_type!(cx, "FzHashSet(own hasher)", FzHashSet<$K, DynBH>, $K, $Q, FzHashSet::with_hasher(keys.clone(), DynBH::default()), keys, ms, probes);
            set_type!(cx, "FzOrderedSet", FzOrderedSet<$K>, $K, $Q, FzOrderedSet::new(keys.clone()), keys, ms, probes);
            cx.sample(|| format!("{shape}: {:?}", e.iter().map(|x| &x.0).take(12).collect::<Vec<_>>()));
        }};
    }
    match pick {
        0 => case!(u64, u64, String),
        1 => case!(String, str, Vec2),
        2 => case!(char, char, Box<u64>),
        _ => case!(Pt, PtRef, u64),
    }
}

/// A structured value.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Serialize, Deserialize)]
struct Vec2 {
    x: Option<u32>,
    y: Vec<String>,
}
impl Val for Vec2 {
    fn mk(i: u64) -> Self {
        Self { x: (i % 3 > 0).then_some(i as u32), y: (0..i % 3).map(|k| format!("{k}\u{e9}\"{i}")).collect() }
    }
    fn bump(&mut self, by: u64) {
        self.y.push(format!("{by}"));
    }
}

fn scalar(cx: &mut Ctx) {
    let pick = cx.rng.below(4);
    macro_rules! case {
        ($K:ty) => {{
            let n = pick_size(cx);
            let (keys, shape) = <$K as Key>::list(&mut cx.rng, n);
            let e: Vec<($K, u64)> = entries(keys.clone());
            let md = model(&e);
            cx.describe(format!("scalar {} shape={shape} n={} distinct={}", stringify!($K), e.len(), md.len()));
            let present: Vec<$K> = md.keys().cloned().collect();
            let probes = <$K>::probes(&mut cx.rng, &present, 10);
            map_type!(cx, "FzScalarMap", FzScalarMap<$K, u64>, $K, $K, u64, FzScalarMap::new(e.clone()), e, md, probes);
            let want: Vec<($K, u64)> = md.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            scalar_maps!($K, u64, e, |name, m| { written_map(cx, name, &m, &want) });
            let ms: BTreeSet<$K> = keys.iter().cloned().collect();
            set_type!(cx, "FzScalarSet", FzScalarSet<$K>, $K, $K, FzScalarSet::new(keys.clone()), keys, ms, probes);
        }};
    }
    match pick {
        0 => case!(u8),
        1 => case!(i64),
        2 => case!(std::num::NonZeroU16),
        _ => case!(Hue),
    }
}

fn string(cx: &mut Ctx) {
    let n = pick_size(cx);
    let (mut keys, shape) = Box::<str>::list(&mut cx.rng, n);
    // what needs escaping in text formats
    if cx.rng.chance(1, 2) {
        for k in &mut keys {
            if cx.rng.chance(1, 3) {
                let s = *cx.rng.pick(&["\"", "\\", "\n", "\u{0}", "\u{7f}", "\u{2028}", "\u{10ffff}", "\\u0041", "é", "</script>", "\t{"]);
                *k = if cx.rng.chance(1, 2) { format!("{k}{s}") } else { format!("{s}{k}") }.into_boxed_str();
            }
        }
    }
    let e: Vec<(Box<str>, u64)> = entries(keys.clone());
    let md = model(&e);
    cx.describe(format!("string shape={shape} n={} distinct={}", e.len(), md.len()));
    let present: Vec<Box<str>> = md.keys().cloned().collect();
    let probes = Box::<str>::probes(&mut cx.rng, &present, 10);
    map_type!(cx, "FzStringMap", FzStringMap<Box<str>, u64>, Box<str>, str, u64, FzStringMap::new(e.clone()), e, md, probes);
    let want: Vec<(Box<str>, u64)> = md.iter().map(|(k, v)| (k.clone(), *v)).collect();
    string_maps!(u64, e, DynBH::default(), |name, m| { written_map(cx, name, &m, &want) });
    let ms: BTreeSet<Box<str>> = keys.iter().cloned().collect();
    set_type!(cx, "FzStringSet", FzStringSet<Box<str>>, Box<str>, str, FzStringSet::new(keys.clone()), keys, ms, probes);
    // another hasher: reading only
    for mode in MODES {
        let b = encode(Fmt::Json, &Items(keys.clone())).unwrap();
        let s = decode::<FzStringSet<Box<str>, DynBH>>(Fmt::Json, mode, &b, 3, None);
        let Ok(s) = s else { cx.fail(format!("FzStringSet(own hasher) doesn't read {mode:?}")) };
        audit_set::<Box<str>, str>(cx, "FzStringSet(own hasher)", &In(s), &ms, &probes);
    }
    borrowing(cx, &e);
    nested(cx, &e, &md, &probes);
    cx.sample(|| format!("string {shape}: {:?}", e.iter().map(|x| &x.0).take(8).collect::<Vec<_>>()));
}

/// Keys and values borrowed from the input.
fn borrowing(cx: &mut Ctx, e: &[(Box<str>, u64)]) {
    let text: Vec<(String, String)> = e.iter().map(|(k, v)| (k.chars().filter(|c| !c.is_control() && *c != '"' && *c != '\\').collect(), format!("v{v}"))).collect();
    let json = String::from_utf8(encode(Fmt::Json, &Pairs(text.clone())).unwrap()).unwrap();
    let bin = encode(Fmt::Bincode, &Pairs(text.clone())).unwrap();
    let want: BTreeMap<&str, &str> = text.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
    macro_rules! map {
        ($M:ident) => {
            for (src, r) in [("json", serde_json::from_str::<$M<&str, &str>>(&json).map_err(|e| e.to_string())), ("bincode", bincode::deserialize::<$M<&str, &str>>(&bin).map_err(|e| e.to_string()))] {
                match r {
                    Ok(m) => {
                        let got: BTreeMap<&str, &str> = m.iter().map(|(k, v)| (*k, *v)).collect();
                        cx.check(got == want && m.len() == want.len() && want.iter().all(|(k, v)| m.get(k) == Some(v)), || format!("{}<&str, &str> from {src}: {:.300}", stringify!($M), format!("{got:?}")));
                        cx.ev("borrowed keys", m.len() as u64);
                    }
                    Err(x) => cx.fail(format!("{}<&str, &str> from {src}: {x}", stringify!($M))),
                }
            }
        };
    }
    map!(FzHashMap);
    map!(FzOrderedMap);
    let keys: Vec<&String> = text.iter().map(|x| &x.0).collect();
    let json = String::from_utf8(encode(Fmt::Json, &keys).unwrap()).unwrap();
    let want: BTreeSet<&str> = keys.iter().map(|x| x.as_str()).collect();
    macro_rules! set {
        ($M:ident) => {
            match serde_json::from_str::<$M<&str>>(&json) {
                Ok(m) => {
                    let got: BTreeSet<&str> = m.iter().copied().collect();
                    cx.check(got == want && m.len() == want.len() && want.iter().all(|k| m.contains(k)), || format!("{}<&str>: {:.300}", stringify!($M), format!("{got:?}")));
                }
                Err(x) => cx.fail(format!("{}<&str>: {x}", stringify!($M))),
            }
        };
    }
    set!(FzHashSet);
    set!(FzOrderedSet);
}

#[derive(Serialize, Deserialize)]
struct Doc {
    id: u32,
    inner: FzHashMap<Box<str>, FzOrderedSet<u64>>,
    list: Vec<FzScalarSet<u8>>,
    maybe: Option<FzStringSet<Box<str>>>,
    #[serde(flatten)]
    rest: FzStringMap<Box<str>, u64>,
}

#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum Either {
    Set(FzStringSet<Box<str>>),
    Map(FzStringMap<Box<str>, u64>),
    Num(FzScalarMap<u32, FzHashSet<String>>),
}

#[derive(Serialize, Deserialize)]
struct Plain<T> {
    id: u8,
    one: T,
    two: T,
}

/// Collections inside of other data, whose deserializers buffer what they read.
fn nested(cx: &mut Ctx, e: &[(Box<str>, u64)], md: &BTreeMap<Box<str>, u64>, probes: &[Box<str>]) {
    let free: Vec<(Box<str>, u64)> = e.iter().filter(|(k, _)| !["id", "inner", "list", "maybe"].contains(&&**k)).cloned().collect();
    let fmd = model(&free);
    let doc = Doc {
        id: 7,
        inner: e.iter().map(|(k, v)| (k.clone(), FzOrderedSet::from_iter([*v, *v / 2, 3]))).collect(),
        list: vec![FzScalarSet::from_iter([1, 2, 3, 2]), FzScalarSet::from_iter([]), FzScalarSet::from_iter([255, 0])],
        maybe: Some(e.iter().map(|x| x.0.to_string()).collect()),
        rest: FzStringMap::new(free.clone()),
    };
    for f in [Fmt::Json, Fmt::Cbor] {
        for mode in MODES {
            let b = encode(f, &doc).unwrap_or_else(|e| cx.fail(format!("nested {f:?}: {e}")));
            let d: Doc = decode(f, mode, &b, 11, None).unwrap_or_else(|e| cx.fail(format!("nested {f:?} {mode:?}: {e}; {:.300}", String::from_utf8_lossy(&b))));
            cx.check(d.id == 7 && d.inner == doc.inner && d.list == doc.list && d.maybe == doc.maybe, || format!("nested {f:?} {mode:?} differs"));
            audit_map::<Box<str>, str, u64>(cx, "FzStringMap(flattened)", &mut In(d.rest), &fmd, probes);
            let b = encode(f, &Pairs(e.to_vec())).unwrap();
            match decode::<Either>(f, mode, &b, 11, None) {
                Ok(Either::Map(m)) => audit_map::<Box<str>, str, u64>(cx, "FzStringMap(untagged)", &mut In(m), md, probes),
                Ok(_) => cx.fail(format!("untagged {f:?} {mode:?}: taken for something else")),
                Err(x) => cx.fail(format!("untagged {f:?} {mode:?}: {x}")),
            }
            let b = encode(f, &Items(e.iter().map(|x| x.0.clone()).collect())).unwrap();
            match decode::<Either>(f, mode, &b, 11, None) {
                Ok(Either::Set(s)) => audit_set::<Box<str>, str>(cx, "FzStringSet(untagged)", &In(s), &md.keys().cloned().collect(), probes),
                Ok(_) => cx.fail(format!("untagged {f:?} {mode:?}: taken for something else")),
                Err(x) => cx.fail(format!("untagged {f:?} {mode:?}: {x}")),
            }
            cx.ev("nested", 3);
        }
    }
    for f in FMTS {
        for mode in MODES {
            let p = Plain { id: 9, one: FzStringMap::<Box<str>, u64>::new(e.to_vec()), two: FzStringMap::from_iter([("k\"", 1)]) };
            let b = encode(f, &p).unwrap_or_else(|e| cx.fail(format!("nested {f:?}: {e}")));
            let d: Plain<FzStringMap<Box<str>, u64>> = decode(f, mode, &b, 11, None).unwrap_or_else(|e| cx.fail(format!("nested {f:?} {mode:?}: {e}; {:.300}", String::from_utf8_lossy(&b))));
            cx.check(d.id == 9 && d.one == p.one && d.two == p.two, || format!("nested {f:?} {mode:?} differs"));
            let p = Plain { id: 9, one: FzOrderedMap::<u64, FzHashSet<u16>>::from_iter([(3, FzHashSet::from_iter([4, 5, 4]))]), two: e.iter().map(|x| (x.1, FzHashSet::from_iter([x.1 as u16]))).collect() };
            let b = encode(f, &p).unwrap_or_else(|e| cx.fail(format!("nested {f:?}: {e}")));
            let d: Plain<FzOrderedMap<u64, FzHashSet<u16>>> = decode(f, mode, &b, 11, None).unwrap_or_else(|e| cx.fail(format!("nested {f:?} {mode:?}: {e}; {:.300}", String::from_utf8_lossy(&b))));
            cx.check(d.id == 9 && d.one == p.one && d.two == p.two, || format!("nested {f:?} {mode:?} differs"));
            cx.ev("nested", 2);
        }
    }
}

/// Every truncation of one encoding, in every format and mode.
fn truncations(cx: &mut Ctx) {
    let n = 1 + cx.rng.idx(12);
    let (keys, shape) = String::list(&mut cx.rng, n);
    let e: Vec<(String, String)> = entries(keys.clone());
    let md = model(&e);
    cx.describe(format!("truncations of {shape} n={}", e.len()));
    for f in FMTS {
        let b = encode(f, &Pairs(e.clone())).unwrap();
        let s = encode(f, &Items(keys.clone())).unwrap();
        for cut in 0..=b.len() {
            for mode in MODES {
                macro_rules! one {
                    ($name:expr, $M:ty) => {
                        agree!(cx, $name, $M, Pairs<String, String>, f, mode, &b[..cut], 64, None, "truncated", |m, p| {
                            cx.check(model(&p.0) == md && m.len() == md.len() && md.iter().all(|(k, v)| m.get(k.as_str()) == Some(v)), || format!("{}: wrong contents", $name));
                        })
                    };
                }
                one!("FzHashMap", FzHashMap<String, String>);
                one!("FzOrderedMap", FzOrderedMap<String, String>);
                one!("FzStringMap", FzStringMap<Box<str>, String>);
            }
        }
        for cut in 0..=s.len() {
            for mode in MODES {
                macro_rules! one {
                    ($name:expr, $M:ty) => {
                        agree!(cx, $name, $M, Items<String>, f, mode, &s[..cut], 64, None, "truncated", |m, p| {
                            cx.check(m.len() == p.0.iter().collect::<BTreeSet<_>>().len() && p.0.iter().all(|k| m.contains(k.as_str())), || format!("{}: wrong contents", $name));
                        })
                    };
                }
                one!("FzHashSet", FzHashSet<String>);
                one!("FzOrderedSet", FzOrderedSet<String>);
                one!("FzStringSet", FzStringSet<Box<str>>);
            }
        }
        cx.ev("truncation series", 1);
    }
    cx.distinct(situation("truncations", md.keys()));
}

#[cfg(feature = "fixture")]
mod fixture {
    use super::*;
    macro_rules! visit_map {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty, $V:ty) => {
            $cx.run(|cx| {
                cx.describe($desc.into());
                let e: Vec<($K, $V)> = $e;
                let want: Vec<($K, $V)> = model(&e).into_iter().collect();
                let m = $m;
                written_map(cx, "inline map", &m, &want);
                cx.distinct(situation($desc, want.iter()));
                cx.ev("inline collections", 1);
            });
        };
    }
    macro_rules! visit_set {
        ($cx:ident, $desc:expr, $m:expr, $e:expr, $K:ty, $Q:ty) => {
            $cx.run(|cx| {
                cx.describe($desc.into());
                let e: Vec<$K> = $e;
                let want: Vec<$K> = e.into_iter().collect::<BTreeSet<_>>().into_iter().collect();
                let m = $m;
                written_set(cx, "inline set", &m, &want);
                cx.distinct(situation($desc, want.iter()));
                cx.ev("inline collections", 1);
            });
        };
    }
    include!(env!("FZMON_FIXTURE"));
}

fn assert_probe<K: Probe<Q>, Q: ?Sized>() {}

fn main() {
    assert_probe::<Box<str>, str>();
    let mut cx = Ctx::from_args();
    #[cfg(feature = "fixture")]
    fixture::run(&mut cx);
    let n = cx.n(6400);
    for i in 0..n {
        match i % 8 {
            0 | 3 => cx.run(keyed),
            1 | 4 | 6 => cx.run(scalar),
            2 | 5 => cx.run(string),
            _ => cx.run(truncations),
        }
    }
    cx.finish();
}
