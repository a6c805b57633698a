//! C13: serde support against String's own.
mod probe;
use arraystring::prelude::*;
use kit::choices::Ch;
use kit::mini::{Problem, Verdict};
use probe::{Probe, Tok};
use serde::de::{DeserializeOwned, MapAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize};
use std::fmt::{self, Debug};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What is read: directly or inside something.
#[derive(Debug, Hash, Clone, Copy, PartialEq)]
pub enum Shape {
    Plain,
    Option,
    List,
    Pair,
    Key,
    Field,
    Newtype,
    Untagged,
    Tagged,
    Flat,
}
const SHAPES: [Shape; 10] = [
    Shape::Plain, Shape::Option, Shape::List, Shape::Pair, Shape::Key, Shape::Field, Shape::Newtype, Shape::Untagged, Shape::Tagged, Shape::Flat,
];
#[derive(Debug, Hash, Clone, Copy, PartialEq)]
pub enum Via {
    Str,
    Slice,
    /// a reader handing out this many bytes at a time
    Reader(u8),
    Value,
    ValueRef,
}
#[derive(Debug, Hash, Clone)]
pub enum Case {
    /// JSON bytes read as the type and as String
    Json(u8, Shape, Via, Vec<u8>),
    /// a deserialiser that calls exactly this visitor method
    Probe(u8, Tok, bool, bool),
    /// a deserialiser of this kind, into a string that holds other text
    InPlace(u8, u8, String, String),
    /// one of serde's own value deserialisers
    Value(u8, u8, String),
    /// text (put on top of other text that was cleared), then written and read back
    Write(u8, String, String),
}

pub trait Subject: Serialize + DeserializeOwned + AsRef<str> + Debug + Clone + PartialEq {
    const CAP: usize;
    fn cut(s: &str) -> Self;
    fn soiled(junk: &str, s: &str) -> Self;
}
macro_rules! subject {
    ($t: ty, $n: expr) => {
        impl Subject for $t {
            const CAP: usize = $n;
            fn cut(s: &str) -> Self {
                <$t>::from_str_truncate(s)
            }
            fn soiled(junk: &str, s: &str) -> Self {
                let mut x = <$t>::from_str_truncate(junk);
                x.clear();
                x.push_str_truncate(s);
                x
            }
        }
    };
}
macro_rules! subjects {
    ($($i: literal: $n: literal)*) => {
        $(subject!(ArrayString<$n>, $n);)*
        const CAPS: &[usize] = &[63, $($n),*];
        fn dispatch(i: u8, case: &Case, v: &mut Verdict, trace: bool) -> Option<String> {
            match i {
                0 => judge::<CacheString>(case, v, trace),
                $($i => judge::<ArrayString<$n>>(case, v, trace),)*
                _ => unreachable!(),
            }
        }
    };
}
subject!(CacheString, 63);
subjects! { 1: 1 2: 2 3: 3 4: 4 5: 5 6: 7 7: 8 8: 16 9: 23 10: 63 11: 64 12: 127 13: 128 14: 255 }

fn prefix(s: &str, cap: usize) -> &str {
    let mut n = s.len().min(cap);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    &s[..n]
}

#[derive(Deserialize, Serialize, Debug, Clone, PartialEq)]
struct Field<T> {
    n: T,
    #[serde(default)]
    k: u32,
}
#[derive(Deserialize, Serialize, Debug, Clone, PartialEq)]
struct Newtype<T>(T);
#[derive(Deserialize, Serialize, Debug, Clone, PartialEq)]
#[serde(untagged)]
enum Untagged<T> {
    Num(u64),
    Text(T),
    List(Vec<T>),
}
#[derive(Deserialize, Serialize, Debug, Clone, PartialEq)]
#[serde(tag = "t", content = "c")]
enum Tagged<T> {
    A(T),
    B { n: T },
}
#[derive(Deserialize, Serialize, Debug, Clone, PartialEq)]
struct Flat<T> {
    #[serde(flatten)]
    inner: Field<T>,
}
/// A map's entries in the order they come, so that keys made equal by truncation stay apart.
#[derive(Debug)]
struct Entries<T>(Vec<(T, serde_json::Value)>);
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Entries<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<T>(PhantomData<T>);
        impl<'de, T: Deserialize<'de>> Visitor<'de> for V<T> {
            type Value = Entries<T>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut v = vec![];
                while let Some(e) = a.next_entry()? {
                    v.push(e);
                }
                Ok(Entries(v))
            }
        }
        d.deserialize_map(V(PhantomData))
    }
}

struct Slow<'a>(&'a [u8], usize);
impl std::io::Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(self.1).min(b.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn read<T: DeserializeOwned>(via: Via, b: &[u8]) -> Option<T> {
    match via {
        Via::Str => serde_json::from_str(std::str::from_utf8(b).ok()?).ok(),
        Via::Slice => serde_json::from_slice(b).ok(),
        Via::Reader(n) => serde_json::from_reader(Slow(b, n as usize + 1)).ok(),
        Via::Value => serde_json::from_value(serde_json::from_slice::<serde_json::Value>(b).ok()?).ok(),
        Via::ValueRef => T::deserialize(&serde_json::from_slice::<serde_json::Value>(b).ok()?).ok(),
    }
}
/// What was read, as the texts it contains; None where reading failed.
fn texts<T: DeserializeOwned + AsRef<str>>(shape: Shape, via: Via, b: &[u8]) -> Option<Vec<String>> {
    let s = |x: &T| x.as_ref().to_owned();
    Some(match shape {
        Shape::Plain => vec![s(&read::<T>(via, b)?)],
        Shape::Option => read::<Option<T>>(via, b)?.iter().map(s).collect(),
        Shape::List => read::<Vec<T>>(via, b)?.iter().map(s).collect(),
        Shape::Pair => {
            let (x, n, y) = read::<(T, u32, T)>(via, b)?;
            vec![s(&x), n.to_string(), s(&y)]
        }
        Shape::Key => read::<Entries<T>>(via, b)?.0.iter().map(|e| s(&e.0)).collect(),
        Shape::Field => vec![s(&read::<Field<T>>(via, b)?.n)],
        Shape::Newtype => vec![s(&read::<Newtype<T>>(via, b)?.0)],
        Shape::Untagged => match read::<Untagged<T>>(via, b)? {
            Untagged::Num(_) => vec![],
            Untagged::Text(x) => vec![s(&x)],
            Untagged::List(v) => v.iter().map(s).collect(),
        },
        Shape::Tagged => match read::<Tagged<T>>(via, b)? {
            Tagged::A(x) => vec![s(&x)],
            Tagged::B { n } => vec![s(&n)],
        },
        Shape::Flat => vec![s(&read::<Flat<T>>(via, b)?.inner.n)],
    })
}
fn agree(what: &str, cap: usize, ours: Option<Vec<String>>, theirs: Option<Vec<String>>) -> Option<String> {
    let want: Option<Vec<String>> = theirs.map(|v| v.iter().map(|s| prefix(s, cap).to_owned()).collect());
    (ours != want).then(|| format!("{} gave {:?}, expected {:?} (String, cut to {} bytes)", what, ours, want, cap))
}

fn judge<T: Subject>(case: &Case, v: &mut Verdict, trace: bool) -> Option<String> {
    match case {
        Case::Json(_, shape, via, b) => {
            let (ours, theirs) = (texts::<T>(*shape, *via, b), texts_string(*shape, *via, b));
            let cut = theirs.iter().flatten().any(|s| s.len() > T::CAP);
            let escaped = b.contains(&b'\\');
            v.classes.push(match (&theirs, escaped, cut) {
                (None, ..) => "JSON String rejects",
                (_, false, false) => "JSON plain, fits",
                (_, true, false) => "JSON escaped, fits",
                (_, false, true) => "JSON plain, cut",
                (_, true, true) => "JSON escaped, cut",
            });
            v.nontrivial = theirs.as_ref().map_or(true, |t| t.iter().any(|s| !s.is_empty()));
            if trace {
                v.trace.push(format!("{:?} via {:?} of {} as String {:?}, as the type {:?}", shape, via, String::from_utf8_lossy(b), theirs, ours));
            }
            agree(&format!("{:?} via {:?} of {:?}", shape, via, String::from_utf8_lossy(b)), T::CAP, ours, theirs)
        }
        Case::Probe(_, tok, strict, human) => {
            let ours = T::deserialize(Probe { tok, strict: *strict, human: *human }).ok().map(|x| vec![x.as_ref().to_owned()]);
            let theirs = String::deserialize(Probe { tok, strict: *strict, human: *human }).ok().map(|x| vec![x]);
            v.classes.push(if theirs.is_some() { "visitor call String takes" } else { "visitor call String rejects" });
            v.nontrivial = true;
            if trace {
                v.trace.push(format!("{:?} as String {:?}, as the type {:?}", tok, theirs, ours));
            }
            agree(&format!("{:?}", tok), T::CAP, ours, theirs)
        }
        Case::InPlace(_, k, old, s) => {
            v.classes.push("deserialised in place");
            v.nontrivial = !s.is_empty();
            let (mut ours, mut theirs) = (T::cut(old), old.clone());
            let (a, b) = (in_place(*k, s, &mut ours), in_place(*k, s, &mut theirs));
            if trace {
                v.trace.push(format!("deserialiser {} of {:?} onto {:?} as String {:?} {:?}, as the type {:?} {:?}", k, s, old, b, theirs, a, ours));
            }
            agree(&format!("deserialiser {} of {:?} in place of {:?}", k, s, old), T::CAP, a.then(|| vec![ours.as_ref().to_owned()]), b.then(|| vec![theirs]))
        }
        Case::Value(_, k, s) => {
            v.classes.push("serde value deserialiser");
            v.nontrivial = !s.is_empty();
            let (ours, theirs) = (value::<T>(*k, s), value::<String>(*k, s));
            if trace {
                v.trace.push(format!("deserialiser {} of {:?} as String {:?}, as the type {:?}", k, s, theirs, ours));
            }
            agree(&format!("value deserialiser {} of {:?}", k, s), T::CAP, ours, theirs)
        }
        Case::Write(_, junk, s) => {
            let t = T::soiled(junk, s);
            let text = t.as_ref().to_owned();
            v.classes.push(if text.len() == T::CAP { "written from a full string" } else { "written" });
            v.nontrivial = !text.is_empty();
            let x = text.as_str();
            let pairs = [
                ("to_string", serde_json::to_string(&t).ok(), serde_json::to_string(x).ok()),
                ("to_string_pretty", serde_json::to_string_pretty(&[&t]).ok(), serde_json::to_string_pretty(&[x]).ok()),
                ("to_vec", serde_json::to_vec(&t).ok().map(|b| String::from_utf8_lossy(&b).into()), serde_json::to_vec(x).ok().map(|b| String::from_utf8_lossy(&b).into())),
                ("to_value", serde_json::to_value(&t).ok().map(|b| format!("{:?}", b)), serde_json::to_value(x).ok().map(|b| format!("{:?}", b))),
                ("map key", serde_json::to_string(&One(&t, 7)).ok(), serde_json::to_string(&One(x, 7)).ok()),
                ("field", serde_json::to_string(&Field { n: t.clone(), k: 1 }).ok(), serde_json::to_string(&Field { n: x, k: 1 }).ok()),
                ("recorded", Some(probe::recorded(&t, true)), Some(probe::recorded(x, true))),
                ("recorded, not human-readable", Some(probe::recorded(&t, false)), Some(probe::recorded(x, false))),
            ];
            if trace {
                v.trace.push(format!("{:?} written as {:?}", text, pairs[0].1));
            }
            for (n, a, b) in pairs {
                if a != b {
                    return Some(format!("{} of {:?} gives {:?}, its text gives {:?}", n, text, a, b));
                }
            }
            let json = serde_json::to_string(&t).ok()?;
            for via in [Via::Str, Via::Slice, Via::Reader(2), Via::Value, Via::ValueRef] {
                let back: Option<T> = read(via, json.as_bytes());
                if back.as_ref() != Some(&t) || back.map(|b| b.as_ref() == text) != Some(true) {
                    return Some(format!("{:?} written as {} reads back differently via {:?}", text, json, via));
                }
            }
            None
        }
    }
}
fn texts_string(shape: Shape, via: Via, b: &[u8]) -> Option<Vec<String>> {
    texts::<String>(shape, via, b)
}
struct One<'a, T: ?Sized>(&'a T, u32);
impl<T: Serialize + ?Sized> Serialize for One<'_, T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(Some(1))?;
        m.serialize_entry(self.0, &self.1)?;
        m.end()
    }
}
fn in_place<T: DeserializeOwned>(k: u8, s: &str, at: &mut T) -> bool {
    let json = || serde_json::to_string(s).unwrap();
    match k {
        0 => T::deserialize_in_place(&mut serde_json::Deserializer::from_str(&json()), at).is_ok(),
        1 => T::deserialize_in_place(&mut serde_json::Deserializer::from_reader(json().as_bytes()), at).is_ok(),
        2 => T::deserialize_in_place(Probe { tok: &Tok::Str(s.to_owned()), strict: true, human: true }, at).is_ok(),
        3 => T::deserialize_in_place(Probe { tok: &Tok::String(s.to_owned()), strict: true, human: false }, at).is_ok(),
        4 => T::deserialize_in_place(Probe { tok: &Tok::BorrowedBytes(s.as_bytes().to_vec()), strict: false, human: false }, at).is_ok(),
        _ => T::deserialize_in_place(serde_json::Value::String(s.to_owned()), at).is_ok(),
    }
}
fn value<T: DeserializeOwned + AsRef<str>>(k: u8, s: &str) -> Option<Vec<String>> {
    use serde::de::value::*;
    use serde::de::IntoDeserializer;
    type E = Error;
    let r: Result<T, E> = match k {
        0 => T::deserialize(IntoDeserializer::<E>::into_deserializer(s)),
        1 => T::deserialize(BorrowedStrDeserializer::<E>::new(s)),
        2 => T::deserialize(IntoDeserializer::<E>::into_deserializer(s.to_owned())),
        3 => T::deserialize(IntoDeserializer::<E>::into_deserializer(std::borrow::Cow::Borrowed(s))),
        4 => T::deserialize(IntoDeserializer::<E>::into_deserializer(std::borrow::Cow::<str>::Owned(s.to_owned()))),
        5 => T::deserialize(BytesDeserializer::<E>::new(s.as_bytes())),
        6 => T::deserialize(BorrowedBytesDeserializer::<E>::new(s.as_bytes())),
        7 => T::deserialize(IntoDeserializer::<E>::into_deserializer(s.chars().next().unwrap_or('x'))),
        8 => T::deserialize(IntoDeserializer::<E>::into_deserializer(s.len() as u64)),
        9 => T::deserialize(IntoDeserializer::<E>::into_deserializer(())),
        10 => T::deserialize(SeqDeserializer::<_, E>::new(s.bytes())),
        _ => {
            // a truncated char at the end of the bytes
            let n = s.len().saturating_sub(1);
            T::deserialize(BytesDeserializer::<E>::new(&s.as_bytes()[..n]))
        }
    };
    r.ok().map(|x| vec![x.as_ref().to_owned()])
}

// ---- generation

const CHARS: [char; 22] = [
    'a', 'Z', ' ', '"', '\\', '/', '\n', '\0', '\u{1f}', '\u{7f}', 'é', '€', '\u{d7ff}', '\u{ffff}', '😀', '\u{2028}', '\r', '\t', '\u{85}', '\u{feff}', '\u{fffd}', '\u{10ffff}',
];
fn any(c: &mut Ch) -> char {
    if c.flag() {
        return kit::chars::ch(c);
    }
    c.of(&CHARS)
}
fn text(c: &mut Ch, cap: usize, small: bool) -> String {
    if small {
        let n = c.pick(3);
        return (0..n).map(|_| c.of(&['a', '"', 'é', '€', '😀'])).collect();
    }
    if c.chance(1, 8) {
        // as they come in the wild
        return kit::chars::wild(c);
    }
    let target = match c.weighted(&[60, 60, 30, 10, 1]) {
        0 => c.pick(8) as usize,
        1 => (cap + 4).saturating_sub(c.pick(9) as usize),
        2 => c.pick(300) as usize,
        // lengths that vanish when narrowed
        3 => 256 * (1 + c.pick(3) as usize) - 2 + c.pick(cap as u32 + 4) as usize,
        _ => 65536 - 2 + c.pick(cap as u32 + 4) as usize,
    };
    let one = any(c);
    let mixed = c.flag() && target < 1000;
    let mut s = String::new();
    for _ in 0..c.pick(4) {
        s.push('-');
    }
    while s.len() < target {
        s.push(if mixed { any(c) } else { one });
    }
    s
}
/// A JSON string literal, each char escaped or not.
fn literal(c: &mut Ch, s: &str, out: &mut Vec<u8>) {
    let style = c.pick(4);
    out.push(b'"');
    for ch in s.chars() {
        let how = match style {
            0 => 0,
            1 => 1,
            _ => c.pick(4),
        };
        if how == 1 {
            for u in ch.encode_utf16(&mut [0; 2]) {
                let h = format!("\\u{:04x}", u);
                out.extend(if c.flag() { h.to_uppercase().replace("\\U", "\\u") } else { h }.bytes());
            }
            continue;
        }
        let short = match ch {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '\n' => Some("\\n"),
            '/' if how == 2 => Some("\\/"),
            _ => None,
        };
        match short {
            Some(x) => out.extend(x.bytes()),
            None if (ch as u32) < 0x20 && how != 3 => out.extend(format!("\\u{:04x}", ch as u32).bytes()),
            None => out.extend(ch.encode_utf8(&mut [0; 4]).bytes()),
        }
    }
    out.push(b'"');
}
fn item(c: &mut Ch, cap: usize, small: bool, out: &mut Vec<u8>) {
    match c.weighted(if small { &[1, 1] } else { &[14, 1] }) {
        0 => {
            let t = text(c, cap, small);
            literal(c, &t, out)
        }
        _ => out.extend(c.of(&["null", "1", "-2.5e3", "true", "[]", "{}", "[\"a\"]", "\"\\ud83d\"", "\"\\ud83d\\u0041\"", "\"\\q\"", "\"abc", "", "nul", "\"\\u00"]).bytes()),
    }
}
fn json(c: &mut Ch, shape: Shape, cap: usize, small: bool) -> Vec<u8> {
    let mut o = vec![];
    let p = |o: &mut Vec<u8>, s: &str| o.extend(s.bytes());
    match shape {
        Shape::Plain | Shape::Option | Shape::Newtype => item(c, cap, small, &mut o),
        Shape::List => {
            p(&mut o, "[");
            for i in 0..c.pick(4) {
                if i > 0 {
                    p(&mut o, " , ");
                }
                item(c, cap, small, &mut o);
            }
            p(&mut o, "]");
        }
        Shape::Pair => {
            p(&mut o, "[");
            item(c, cap, small, &mut o);
            p(&mut o, ",5,");
            item(c, cap, small, &mut o);
            p(&mut o, "]");
        }
        Shape::Key => {
            p(&mut o, "{");
            for i in 0..c.pick(3) {
                if i > 0 {
                    p(&mut o, ",");
                }
                item(c, cap, small, &mut o);
                p(&mut o, ":");
                item(c, 4, true, &mut o);
            }
            p(&mut o, "}");
        }
        Shape::Field | Shape::Flat => {
            p(&mut o, if c.flag() { "{\"k\":3,\"n\":" } else { "{\"n\":" });
            item(c, cap, small, &mut o);
            p(&mut o, "}");
        }
        Shape::Untagged => {
            let l = c.chance(1, 4);
            p(&mut o, if l { "[" } else { "" });
            item(c, cap, small, &mut o);
            p(&mut o, if l { "]" } else { "" });
        }
        Shape::Tagged => {
            let b = c.flag();
            let first = c.flag();
            p(&mut o, if first { if b { "{\"t\":\"B\",\"c\":" } else { "{\"t\":\"A\",\"c\":" } } else { "{\"c\":" });
            p(&mut o, if b { "{\"n\":" } else { "" });
            item(c, cap, small, &mut o);
            p(&mut o, if b { "}" } else { "" });
            p(&mut o, if first { "}" } else if b { ",\"t\":\"B\"}" } else { ",\"t\":\"A\"}" });
        }
    }
    if !small {
        match c.weighted(&[20, 2, 1, 1]) {
            1 => {
                let mut w = b" \n".to_vec();
                w.extend(o);
                w.push(b'\t');
                o = w;
            }
            2 if !o.is_empty() => {
                // one byte spoilt
                let i = c.pick(o.len() as u32) as usize;
                o[i] = c.of(&[0xffu8, 0xc3, 0x80, b'"', b'\\', 0, 0xed, 0xf0, b'x']);
            }
            3 => o.push(c.of(&[b'x', b'"', b' ', 0])),
            _ => {}
        }
    }
    o
}
fn tok(c: &mut Ch, cap: usize, small: bool, depth: u32) -> Tok {
    let n = if depth > 1 { 17 } else { 22 };
    match c.pick(n) {
        0 => Tok::Str(text(c, cap, small)),
        1 => Tok::BorrowedStr(text(c, cap, small)),
        2 => Tok::String(text(c, cap, small)),
        k @ 3..=5 => {
            let mut b = text(c, cap, small).into_bytes();
            match c.pick(4) {
                1 => b.push(0xff),
                2 => drop(b.pop()),
                3 => b.insert(0, 0xa9),
                _ => {}
            }
            match k {
                3 => Tok::Bytes(b),
                4 => Tok::BorrowedBytes(b),
                _ => Tok::ByteBuf(b),
            }
        }
        6 => Tok::Char(c.of(&CHARS)),
        7 => Tok::Bool(c.flag()),
        8 => Tok::U64(c.pick(300) as u64),
        9 => Tok::I64(-(c.pick(300) as i64)),
        10 => Tok::F64(c.pick(300)),
        11 => Tok::Unit,
        12 => Tok::None,
        13 => Tok::Seq(c.pick(3) as u8),
        14 => Tok::Map(c.pick(3) as u8),
        15 => Tok::U128,
        16 => Tok::Enum,
        17 | 18 => Tok::Some(Box::new(tok(c, cap, small, depth + 1))),
        19 | 20 => Tok::Newtype(Box::new(tok(c, cap, small, depth + 1))),
        _ => Tok::Fail,
    }
}
struct C13;
impl Problem for C13 {
    type Case = Case;
    type Ctx = ();
    fn ctx(&self) {}
    fn case(&self, c: &mut Ch, small: bool) -> Case {
        let i = c.pick(if small { 6 } else { CAPS.len() as u32 }) as u8;
        let cap = CAPS[i as usize];
        match c.weighted(if small { &[1, 1, 1, 1, 1] } else { &[12, 3, 2, 4, 2] }) {
            0 => {
                let shape = c.of(&SHAPES);
                let via = if small {
                    c.of(&[Via::Str, Via::Reader(0), Via::Value])
                } else {
                    match c.pick(5) {
                        0 => Via::Str,
                        1 => Via::Slice,
                        2 => Via::Reader(c.pick(6) as u8),
                        3 => Via::Value,
                        _ => Via::ValueRef,
                    }
                };
                if small && !matches!(shape, Shape::Plain | Shape::Untagged) {
                    // composite shapes: one text, escaped as it must be
                    let s = text(c, cap, true);
                    let mut b = vec![];
                    literal(&mut Ch::given(vec![]), &s, &mut b);
                    let l = String::from_utf8(b).unwrap();
                    let j = match shape {
                        Shape::List => format!("[{l},{l}]"),
                        Shape::Pair => format!("[{l},1,{l}]"),
                        Shape::Key => format!("{{{l}:1}}"),
                        Shape::Field | Shape::Flat => format!("{{\"n\":{l}}}"),
                        Shape::Tagged => format!("{{\"c\":{l},\"t\":\"A\"}}"),
                        _ => l,
                    };
                    return Case::Json(i, shape, via, j.into_bytes());
                }
                Case::Json(i, shape, via, json(c, shape, cap, small))
            }
            1 => Case::Probe(i, tok(c, cap, small, if small { 2 } else { 0 }), c.flag(), c.flag()),
            2 => Case::Value(i, c.pick(12) as u8, text(c, cap, small)),
            4 => Case::InPlace(i, c.pick(6) as u8, text(c, cap, small), text(c, cap, small)),
            _ => Case::Write(i, if c.flag() { "x".repeat(255) } else { String::new() }, text(c, cap, small)),
        }
    }
    fn check(&self, _: &mut (), case: &Case, trace: bool) -> Verdict {
        let i = match case {
            Case::Json(i, ..) | Case::Probe(i, ..) | Case::Value(i, ..) | Case::InPlace(i, ..) | Case::Write(i, ..) => *i,
        };
        let mut v = Verdict::default();
        match catch_unwind(AssertUnwindSafe(|| dispatch(i, case, &mut v, trace))) {
            Ok(f) => v.finding = f.map(|f| format!("capacity {}: {}", CAPS[i as usize], f)),
            Err(_) => v.finding = Some(format!("capacity {}: panicked", CAPS[i as usize])),
        }
        v
    }
    fn rule(&self) -> String {
        "cases are JSON documents (ten shapes around the text, five ways of reading, escapes, broken surrogates, spoilt bytes), single visitor calls of every sort, serde's value deserialisers, texts read in place of others, and texts written through eight serialisers and read back; a case is non-trivial when the text is not empty or String rejects the input, distinct by type and input".into()
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    kit::mini::main(|p| (p == "C13").then_some(C13))
}
