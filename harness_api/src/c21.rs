//! Error values: conversions keep the kind, equality and hash follow it, texts name it.
use arraystring::error::{Error, OutOfBounds, Utf16, Utf8};
use arraystring::prelude::*;
use kit::choices::Ch;
use kit::mini::Verdict;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display, Write};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Hash, Clone)]
pub enum Src {
    /// the combined error, one variant
    Plain(u8),
    /// a specific error, converted
    Specific(u8),
    /// what `str::from_utf8` says about these bytes
    Bytes(Vec<u8>),
    /// what `char::decode_utf16` says about these units
    Units(Vec<u16>),
    /// an encoder that consumed some units of a text
    Encode(String, u8),
    /// the error of an operation: text, index
    Op(u8, String, usize),
}
#[derive(Debug, Hash, Clone)]
pub struct Case {
    a: Src,
    b: Src,
}
pub const RULE: &str = "cases are pairs of errors made in every available way (variants, specific errors, errors of std's UTF-8 and UTF-16 decoders over generated bytes and units, UTF-16 encoders, failing operations); a case is non-trivial when at least one of the two is a conversion of a decoding error or comes out of an operation, distinct by the pair";

fn src(c: &mut Ch, small: bool) -> Src {
    const CH: [char; 6] = ['a', 'é', '€', '😀', '\0', '\u{ffff}'];
    match c.pick(6) {
        0 => Src::Plain(c.pick(3) as u8),
        1 => Src::Specific(c.pick(3) as u8),
        2 => {
            let n = if small { 1 + c.pick(3) } else { 1 + c.pick(24) };
            let v = (0..n)
                .map(|_| {
                    if small {
                        c.of(&[0x61u8, 0xc3, 0xa9, 0xe2, 0xf0, 0xff])
                    } else if c.flag() {
                        c.of(&[0x61u8, 0xc2, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0x98, 0x80, 0xed, 0xa0, 0xc0, 0xff, 0xf8])
                    } else {
                        c.pick(256) as u8
                    }
                })
                .collect();
            Src::Bytes(v)
        }
        3 => {
            let n = if small { 1 + c.pick(2) } else { 1 + c.pick(12) };
            Src::Units((0..n).map(|_| if small || c.flag() { c.of(&[0x61u16, 0xd800, 0xdc00, 0xd83d, 0xdfff]) } else { c.pick(65536) as u16 }).collect())
        }
        4 => {
            let n = if small { c.pick(2) } else { c.pick(8) };
            let s = (0..n).map(|_| c.of(&CH)).collect();
            Src::Encode(s, c.pick(3) as u8)
        }
        _ => {
            let n = if small { c.pick(2) } else { c.pick(6) };
            let s = (0..n).map(|_| c.of(&CH)).collect();
            Src::Op(c.pick(9) as u8, s, c.pick(if small { 3 } else { 30 }) as usize)
        }
    }
}
pub fn case(c: &mut Ch, small: bool) -> Case {
    Case { a: src(c, small), b: src(c, small) }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Utf8,
    Utf16,
    Oob,
}
fn name(k: K) -> &'static str {
    match k {
        K::Utf8 => "utf8",
        K::Utf16 => "utf16",
        K::Oob => "outofbounds",
    }
}
fn of(e: &Error) -> K {
    match e {
        Error::Utf8 => K::Utf8,
        Error::Utf16 => K::Utf16,
        Error::OutOfBounds => K::Oob,
    }
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).flat_map(|c| c.to_lowercase()).collect()
}
/// Does this text name kind `k`, and no other?
fn names(t: &str, k: K) -> bool {
    let t = squeeze(t);
    [K::Utf8, K::Utf16, K::Oob].iter().all(|x| t.contains(name(*x)) == (*x == k))
}
fn texts(what: &str, d: &dyn Display, g: &dyn Debug, k: K) -> Option<String> {
    let (d1, g1) = (d.to_string(), format!("{:?}", g));
    if !names(&d1, k) {
        return Some(format!("{} of kind {:?} displays as {:?}", what, k, d1));
    }
    // through a sink of another sort
    let mut s = ArrayString::<64>::new();
    if write!(s, "{}", d).is_err() || s.as_str() != d1 {
        return Some(format!("{} displays as {:?} and, written elsewhere, as {:?}", what, d1, s.as_str()));
    }
    // under any flags and width the display still names the kind and no other
    let all = [format!("{:#}", d), format!("{:24}", d), format!("{:>24}", d), format!("{:*^24}", d), format!("{:+}", d), format!("{:-}", d), format!("{:024}", d), format!("{:#.40}", d)];
    if let Some(x) = all.iter().find(|x| !names(x, k)) {
        return Some(format!("{} of kind {:?} displays under some flags as {:?}", what, k, x));
    }
    // the debug text need not name the kind, but not another one either
    let other = |t: &str| [K::Utf8, K::Utf16, K::Oob].iter().any(|x| *x != k && squeeze(t).contains(name(*x)));
    let g2 = format!("{:#?}", g);
    if other(&g1) || other(&g2) {
        return Some(format!("{} of kind {:?} has the debug text {:?}", what, k, g1));
    }
    if g1.is_empty() || g2.is_empty() {
        return Some(format!("{} has no debug text", what));
    }
    None
}
/// The error, the kind it must have, whether it is interesting.
fn make(s: &Src) -> Result<Option<(Error, K, bool)>, String> {
    fn q<E>(r: Result<(), E>) -> Result<(), Error>
    where
        Error: From<E>,
    {
        // the conversion `?` makes
        r?;
        Ok(())
    }
    Ok(Some(match s {
        Src::Plain(0) => (Error::Utf8, K::Utf8, false),
        Src::Plain(1) => (Error::Utf16, K::Utf16, false),
        Src::Plain(_) => (Error::OutOfBounds, K::Oob, false),
        Src::Specific(n) => {
            let (e, k, t) = match n {
                0 => (q(Err(Utf8)).unwrap_err(), K::Utf8, texts("Utf8", &Utf8, &Utf8, K::Utf8)),
                1 => (q(Err(Utf16)).unwrap_err(), K::Utf16, texts("Utf16", &Utf16, &Utf16, K::Utf16)),
                _ => (q(Err(OutOfBounds)).unwrap_err(), K::Oob, texts("OutOfBounds", &OutOfBounds, &OutOfBounds, K::Oob)),
            };
            if let Some(t) = t {
                return Err(t);
            }
            let d = [format!("{:?}", Utf8), format!("{:?}", Utf16), format!("{:?}", OutOfBounds)];
            if d[0] == d[1] || d[0] == d[2] || d[1] == d[2] {
                return Err(format!("two kinds of error have one debug text: {:?}", d));
            }
            if Utf8 != Utf8::default() || Utf16 != Utf16::default() || OutOfBounds != OutOfBounds::default() || Utf8.clone() != Utf8 || Utf16.clone() != Utf16 || OutOfBounds.clone() != OutOfBounds {
                return Err("equal specific errors compare unequal".into());
            }
            (e, k, false)
        }
        Src::Bytes(b) => match std::str::from_utf8(b) {
            Ok(_) => return Ok(None),
            Err(e) => {
                let s: Utf8 = e.into();
                let twice: Error = s.into();
                let once: Error = e.into();
                if of(&twice) != K::Utf8 || of(&once) != of(&twice) {
                    return Err(format!("{:?} becomes {:?} directly and {:?} through Utf8", e, once, twice));
                }
                (q(Err(e)).unwrap_err(), K::Utf8, true)
            }
        },
        Src::Units(u) => match std::char::decode_utf16(u.iter().copied()).find_map(|r| r.err()) {
            None => return Ok(None),
            Some(e) => {
                let s: Utf16 = e.clone().into();
                let twice: Error = s.into();
                let once: Error = e.clone().into();
                if of(&twice) != K::Utf16 || of(&once) != of(&twice) {
                    return Err(format!("{:?} becomes {:?} directly and {:?} through Utf16", e, once, twice));
                }
                (q(Err(e)).unwrap_err(), K::Utf16, true)
            }
        },
        Src::Encode(t, n) => {
            let mut e = t.encode_utf16();
            for _ in 0..*n {
                e.next();
            }
            let s: Utf16 = e.clone().into();
            let twice: Error = s.into();
            if of(&twice) != K::Utf16 {
                return Err(format!("an encoder becomes {:?} through Utf16", twice));
            }
            (Error::from(e), K::Utf16, true)
        }
        Src::Op(n, t, i) => {
            // the specific error of an operation, taken into the combined type by `?`
            let mut s = ArrayString::<4>::from_str_truncate(t);
            let mut c = CacheString::from_str_truncate(t);
            let inside = |x: &str| *i <= x.len() && !x.is_char_boundary(*i);
            let (r, k) = match n {
                0 => (q(ArrayString::<4>::try_from_str(t).map(drop)), K::Oob),
                1 => (q(s.try_push_str(t)), K::Oob),
                2 => (q(t.parse::<ArrayString<2>>().map(drop)), K::Oob),
                3 => {
                    let k = if inside(s.as_str()) { K::Utf8 } else { K::Oob };
                    (q(s.truncate(*i)), k)
                }
                4 => {
                    let k = if inside(c.as_str()) { K::Utf8 } else { K::Oob };
                    (q(c.remove(*i).map(drop)), k)
                }
                5 => {
                    let k = if inside(c.as_str()) { K::Utf8 } else { K::Oob };
                    (q(c.split_off(*i).map(drop)), k)
                }
                6 => (q(ArrayString::<255>::try_from_utf16(&[0xd800, *i as u16 & 0xff]).map(drop)), K::Utf16),
                7 => (q(ArrayString::<4>::try_from_chars(t.chars()).map(drop)), K::Oob),
                _ => {
                    let k = if inside(s.as_str()) { K::Utf8 } else { K::Oob };
                    (q(s.try_insert(*i, '\u{1F600}')), k)
                }
            };
            match r {
                Ok(()) => return Ok(None),
                // which error an operation must report is C03's business; where both a boundary and
                // a bound are violated either may come
                Err(e) if *n == 8 && matches!(e, Error::OutOfBounds) => (e, K::Oob, true),
                Err(e) => (e, k, true),
            }
        }
    }))
}
fn h<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
pub fn check(k: &Case, trace: bool) -> Verdict {
    let mut v = Verdict::default();
    match catch_unwind(AssertUnwindSafe(|| judge(k, trace, &mut v))) {
        Ok(f) => v.finding = f,
        Err(_) => v.finding = Some(format!("panicked on {:?}", k)),
    }
    v
}
fn judge(k: &Case, trace: bool, v: &mut Verdict) -> Option<String> {
    let mut got = vec![];
    for s in [&k.a, &k.b] {
        v.classes.push(match s {
            Src::Plain(_) => "plain",
            Src::Specific(_) => "specific",
            Src::Bytes(_) => "UTF-8 decoding",
            Src::Units(_) => "UTF-16 decoding",
            Src::Encode(..) => "UTF-16 encoder",
            Src::Op(..) => "operation",
        });
        match make(s) {
            Err(f) => return Some(format!("{:?}: {}", s, f)),
            Ok(None) => v.classes.push("no error to convert"),
            Ok(Some((e, kind, interesting))) => {
                v.nontrivial |= interesting;
                if of(&e) != kind {
                    return Some(format!("{:?} became {:?}, its kind is {:?}", s, of(&e), kind));
                }
                if let Some(f) = texts("Error", &e, &e, kind) {
                    return Some(f);
                }
                let copy = e;
                #[allow(clippy::clone_on_copy)]
                let clone = e.clone();
                if copy != e || clone != e || of(&copy) != kind || of(&clone) != kind || h(&copy) != h(&e) {
                    return Some(format!("a copy of {:?} differs from it", e));
                }
                if trace {
                    v.trace.push(format!("{:?} => {:?}, displayed {:?}", s, e, e.to_string()));
                }
                got.push((e, kind));
            }
        }
    }
    if let [(a, ka), (b, kb)] = got[..] {
        v.classes.push(if ka == kb { "pair of one kind" } else { "pair of two kinds" });
        let same = ka == kb;
        if (a == b) != same || (b == a) != same || (a != b) == same || (b != a) == same {
            return Some(format!("{:?} == {:?} is {}", a, b, a == b));
        }
        if same && h(&a) != h(&b) {
            return Some(format!("{:?} and {:?} are equal and hash differently", a, b));
        }
        let debugs = |e: &Error| [format!("{:#?}", e), format!("{:30?}", e), format!("{:x?}", e), format!("{:#X?}", e), format!("{:+?}", e)];
        if same && (a.to_string() != b.to_string() || format!("{:?}", a) != format!("{:?}", b) || debugs(&a) != debugs(&b)) {
            return Some(format!("two errors of kind {:?} read differently", ka));
        }
        if !same && debugs(&a).iter().zip(&debugs(&b)).any(|(x, y)| x == y) {
            return Some(format!("{:?} and {:?} read alike under some flags", ka, kb));
        }
        if !same && (a.to_string() == b.to_string() || format!("{:?}", a) == format!("{:?}", b)) {
            return Some(format!("{:?} and {:?} read alike", ka, kb));
        }
    }
    None
}
