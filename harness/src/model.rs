//! The reference: what each operation must do, written with `String` and `str` alone.
use crate::exec::edit;
use crate::ops::*;
use std::ops::Bound;

#[derive(Debug, Clone)]
pub struct Exp {
    /// acceptable outcomes; several only when several preconditions are violated at once
    pub outs: Vec<Out>,
    pub text: String,
    /// the operation must report an error
    pub fails: bool,
    /// text was cut to fit
    pub cut: bool,
}
impl Exp {
    fn ok(out: Out, text: String) -> Self {
        Exp { outs: vec![out], text, fails: false, cut: false }
    }
    fn err(kinds: Vec<EK>, s: &str) -> Self {
        Exp { outs: kinds.into_iter().map(Out::Err).collect(), text: s.to_owned(), fails: true, cut: false }
    }
    fn cut(out: Out, text: String, cut: bool) -> Self {
        Exp { outs: vec![out], text, fails: false, cut }
    }
}

/// Longest prefix of `x` that ends on a char boundary and has at most `room` bytes.
pub fn prefix(x: &str, room: usize) -> &str {
    let mut n = room.min(x.len());
    while !x.is_char_boundary(n) {
        n -= 1;
    }
    &x[..n]
}
fn splice(s: &str, a: usize, b: usize, x: &str) -> String {
    let mut t = s.to_owned();
    t.replace_range(a..b, x);
    t
}
/// First and one-past-last byte; `None` past the largest integer.
fn ends(r: &RB, len: usize) -> (Option<usize>, Option<usize>) {
    let a = match r.0 {
        Bound::Included(a) => Some(a),
        Bound::Excluded(a) => a.checked_add(1),
        Bound::Unbounded => Some(0),
    };
    let b = match r.1 {
        Bound::Included(b) => b.checked_add(1),
        Bound::Excluded(b) => Some(b),
        Bound::Unbounded => Some(len),
    };
    (a, b)
}
/// Every precondition of a range that is violated, or its two ends.
fn range(r: &RB, s: &str) -> Result<(usize, usize), Vec<EK>> {
    let (a, b) = ends(r, s.len());
    let mut e = vec![];
    let beyond = |x: Option<usize>| x.map_or(true, |x| x > s.len());
    let inside = |x: Option<usize>| x.map_or(false, |x| x < s.len() && !s.is_char_boundary(x));
    // an end past the largest integer lies beyond everything
    let inverted = match (a, b) {
        (Some(a), Some(b)) => a > b,
        (None, Some(_)) => true,
        _ => false,
    };
    if inverted || beyond(a) || beyond(b) {
        e.push(EK::Oob);
    }
    if inside(a) || inside(b) {
        e.push(EK::Utf8);
    }
    if e.is_empty() {
        Ok((a.unwrap(), b.unwrap()))
    } else {
        Err(e)
    }
}
fn at(i: usize, s: &str) -> Vec<EK> {
    if i > s.len() {
        vec![EK::Oob]
    } else if !s.is_char_boundary(i) {
        vec![EK::Utf8]
    } else {
        vec![]
    }
}
fn uniq(mut v: Vec<EK>) -> Vec<EK> {
    let mut out = vec![];
    for k in v.drain(..) {
        if !out.contains(&k) {
            out.push(k)
        }
    }
    out
}
/// Pieces of a source, an endless one cut well past any capacity.
fn source<T: Clone>(k: It, items: Vec<T>, bytes: usize, width: impl Fn(&T) -> usize) -> Vec<T> {
    if k != It::Endless || bytes == 0 {
        return items;
    }
    let mut out = vec![];
    let mut n = 0;
    while n < 600 {
        for x in &items {
            n += width(x);
            out.push(x.clone());
        }
    }
    out
}
fn ctor(x: &str, s: &str, cap: usize, trunc: bool) -> Exp {
    if trunc {
        Exp::cut(Out::Ok, prefix(x, cap).to_owned(), x.len() > cap)
    } else if x.len() <= cap {
        Exp::ok(Out::Ok, x.to_owned())
    } else {
        Exp::err(vec![EK::Oob], s)
    }
}
pub fn str_index(s: &str, k: Rk, a: u8, b: u8) -> Option<(usize, usize)> {
    let k = fresh(k, a, b);
    let (a, b) = (a as usize, b as usize);
    let (lo, hi) = match k {
        Rk::Full => (0, s.len()),
        Rk::From => (a, s.len()),
        Rk::To => (0, b),
        Rk::ToInc => (0, b + 1),
        Rk::Range => (a, b),
        Rk::Inc => (a, b + 1),
        // whatever str does with one
        Rk::Spent | Rk::SpentBack => {
            let at = s.get(spent(a, b, k == Rk::SpentBack))?.as_ptr() as usize - s.as_ptr() as usize;
            (at, at)
        }
    };
    s.get(lo..hi).map(|_| (lo, hi))
}

pub fn expect(op: &ROp, s: &str, cap: usize) -> Exp {
    let room = cap - s.len();
    let push = |x: &str, e: EK| {
        if x.len() <= room {
            Exp::ok(Out::Ok, format!("{s}{x}"))
        } else {
            Exp::err(vec![e], s)
        }
    };
    let push_cut = |x: &str| Exp::cut(Out::Ok, format!("{}{}", s, prefix(x, room)), x.len() > room);
    match op {
        ROp::TryPushStr(x) => push(x, EK::Oob),
        ROp::PushStrTrunc(x) => push_cut(x),
        ROp::TryPush(c) => push(c.encode_utf8(&mut [0; 4]), EK::Oob),
        ROp::Truncate(n) => {
            if *n >= s.len() {
                Exp::ok(Out::Ok, s.to_owned())
            } else if s.is_char_boundary(*n) {
                Exp::ok(Out::Ok, s[..*n].to_owned())
            } else {
                Exp::err(vec![EK::Utf8], s)
            }
        }
        ROp::Pop() => {
            let mut t = s.to_owned();
            let c = t.pop();
            Exp::ok(Out::Ch(c), t)
        }
        ROp::Trim() => Exp::ok(Out::Ok, s.trim().to_owned()),
        ROp::Remove(i) => {
            if *i >= s.len() {
                Exp::err(vec![EK::Oob], s)
            } else if !s.is_char_boundary(*i) {
                Exp::err(vec![EK::Utf8], s)
            } else {
                let mut t = s.to_owned();
                let c = t.remove(*i);
                Exp::ok(Out::OkCh(c), t)
            }
        }
        ROp::Retain(p) => {
            let mut t = s.to_owned();
            let mut n = 0;
            t.retain(|c| {
                n += 1;
                p.keep(n - 1, c)
            });
            Exp::ok(Out::Asked(s.chars().collect()), t)
        }
        ROp::TryInsert(i, c) => expect(&ROp::TryInsertStr(*i, c.to_string()), s, cap),
        ROp::TryInsertStr(i, x) => {
            let mut e = at(*i, s);
            if x.len() > room {
                e.push(EK::Oob);
            }
            if e.is_empty() {
                Exp::ok(Out::Ok, splice(s, *i, *i, x))
            } else {
                Exp::err(uniq(e), s)
            }
        }
        ROp::InsertStrTrunc(i, x) => {
            let e = at(*i, s);
            if e.is_empty() {
                Exp::cut(Out::Ok, splice(s, *i, *i, prefix(x, room)), x.len() > room)
            } else {
                Exp::err(e, s)
            }
        }
        ROp::SplitOff(i) => {
            let e = at(*i, s);
            if e.is_empty() {
                Exp::ok(Out::OkStr(s[*i..].as_bytes().to_vec()), s[..*i].to_owned())
            } else {
                Exp::err(e, s)
            }
        }
        ROp::Clear() => Exp::ok(Out::Ok, String::new()),
        ROp::Drain(r, steps, end) => match range(r, s) {
            Err(e) => Exp::err(e, s),
            Ok((a, b)) => Exp::ok(Out::Drained(drain(&s[a..b], steps, *end)), splice(s, a, b, "")),
        },
        ROp::Replace(r, x) => match range(r, s) {
            Err(mut e) => {
                // too long for any range, or for the range if it were sound
                let (a, b) = ends(r, s.len());
                let cutout = b.unwrap_or(usize::MAX).saturating_sub(a.unwrap_or(usize::MAX)).min(s.len());
                if s.len() - cutout + x.len() > cap {
                    e.push(EK::Oob);
                }
                Exp::err(uniq(e), s)
            }
            Ok((a, b)) => {
                if s.len() - (b - a) + x.len() > cap {
                    Exp::err(vec![EK::Oob], s)
                } else {
                    Exp::ok(Out::Ok, splice(s, a, b, x))
                }
            }
        },
        ROp::Add(x) => push_cut(x),
        ROp::ExtChars(k, x) | ROp::ExtCharRefs(k, x) => {
            let all: String = source(*k, x.chars().collect(), x.len(), |c| c.len_utf8()).into_iter().collect();
            push_cut(&all)
        }
        ROp::ExtStrs(k, v) => {
            push_cut(&source(*k, v.clone(), v.iter().map(|x| x.len()).sum(), |x| x.len()).concat())
        }
        ROp::WriteStr(x) => push(x, EK::Fmt),
        ROp::WriteChar(c) => push(c.encode_utf8(&mut [0; 4]), EK::Fmt),
        ROp::WriteFmt(v) => {
            let mut t = s.to_owned();
            for x in v {
                if t.len() + x.len() > cap {
                    return Exp { outs: vec![Out::Err(EK::Fmt)], text: t, fails: true, cut: false };
                }
                t.push_str(x);
            }
            Exp::ok(Out::Ok, t)
        }
        ROp::New(_) => Exp::ok(Out::Ok, String::new()),
        ROp::CtorStr(k, x) => ctor(x, s, cap, matches!(k, Sc::FromStrTrunc | Sc::FromRef)),
        ROp::CtorIter(k, i, v) => {
            let all = source(*i, v.clone(), v.iter().map(|x| x.len()).sum(), |x| x.len()).concat();
            ctor(&all, s, cap, *k != Ic::TryIter)
        }
        ROp::CtorChars(k, i, x) => {
            let all: String = source(*i, x.chars().collect(), x.len(), |c| c.len_utf8()).into_iter().collect();
            ctor(&all, s, cap, *k != Ic::TryIter)
        }
        ROp::CtorU16(k, v) => utf16(*k, v, s, cap),
        ROp::Index(k, a, b) => match str_index(s, *k, *a, *b) {
            None => Exp::ok(Out::Panic("index".into()), s.to_owned()),
            Some((lo, hi)) => Exp::ok(slice(s, lo, hi), s.to_owned()),
        },
        ROp::IndexMut(k, a, b) => match str_index(s, *k, *a, *b) {
            None => Exp::ok(Out::Panic("index".into()), s.to_owned()),
            Some((lo, hi)) => {
                let mut t = s.to_owned();
                edit(&mut t[lo..hi], Ed::Upper);
                Exp::ok(slice(s, lo, hi), t)
            }
        },
        ROp::Compare(..) => Exp::ok(Out::Cmp(vec![]), s.to_owned()),
        // judged by `fmt_ok`
        ROp::Fmt(_) => Exp { outs: vec![], text: s.to_owned(), fails: false, cut: false },
        ROp::MutView(_, e) => {
            let mut t = s.to_owned();
            edit(&mut t, *e);
            Exp::ok(Out::Ok, t)
        }
        ROp::Copies(_, inner, edit_copy) => {
            let quiet = matches!(**inner, ROp::Copies(..) | ROp::SplitOff(..) | ROp::Compare(..) | ROp::Fmt(_));
            let e = if quiet { s.to_owned() } else { expect(inner, s, cap).text };
            if *edit_copy {
                Exp::ok(Out::Other(e.into_bytes()), s.to_owned())
            } else {
                Exp::ok(Out::Other(s.as_bytes().to_vec()), e)
            }
        }
        // judged by `hostile_ok`
        ROp::Hostile(..) => Exp { outs: vec![], text: s.to_owned(), fails: false, cut: false },
    }
}

fn slice(s: &str, lo: usize, hi: usize) -> Out {
    Out::Slice(if lo == hi { 0 } else { lo }, s.as_bytes()[lo..hi].to_vec())
}

fn utf16(k: Uc, v: &[u16], s: &str, cap: usize) -> Exp {
    let mut t = String::new();
    for r in char::decode_utf16(v.iter().copied()) {
        let c = match (r, k) {
            (Ok(c), _) => c,
            (Err(_), Uc::Lossy) => char::REPLACEMENT_CHARACTER,
            (Err(_), _) => return Exp::err(vec![EK::Utf16], s),
        };
        if t.len() + c.len_utf8() > cap {
            return match k {
                Uc::Try => Exp::err(vec![EK::Oob], s),
                _ => Exp::cut(Out::Ok, t, true),
            };
        }
        t.push(c);
    }
    Exp::ok(Out::Ok, t)
}

/// The reference draining iterator is the removed text's own `chars()`.
fn drain(t: &str, steps: &[Ds], end: De) -> Vec<DOut> {
    let mut it = t.chars();
    let mut out = vec![];
    for st in steps {
        out.push(match *st {
            Ds::Front => DOut::Ch(it.next()),
            Ds::Back => DOut::Ch(it.next_back()),
            Ds::Nth(k) => DOut::Ch(it.nth(k as usize)),
            Ds::NthBack(k) => DOut::Ch(it.nth_back(k as usize)),
            Ds::Find(k) => DOut::Ch(it.nth(k as usize)),
            Ds::RFind(k) => DOut::Ch(it.nth_back(k as usize)),
            Ds::Any(k) => DOut::N(it.nth(k as usize).is_some() as usize),
            Ds::AsStr => DOut::Text(it.as_str().to_owned()),
            // any truthful hint is accepted, see `drained_ok`
            Ds::Hint => DOut::Hint(it.clone().count(), None),
            Ds::CopyRest => DOut::Chars(it.clone().collect()),
            Ds::Fmt => DOut::N(1),
        });
    }
    match end {
        De::Drop => {}
        De::Collect | De::Fold | De::ForEach => out.push(DOut::Chars(it.collect())),
        De::Max => out.push(DOut::Ch(it.max())),
        De::CollectStr => out.push(DOut::Text(it.collect())),
        De::RevStr => out.push(DOut::Text(it.rev().collect())),
        De::Rev | De::RFold => out.push(DOut::Chars(it.rev().collect())),
        De::Count => out.push(DOut::N(it.count())),
        De::Last => out.push(DOut::Ch(it.last())),
        De::Fused => {
            out.push(DOut::Chars(it.collect()));
            out.extend([DOut::Ch(None), DOut::Ch(None), DOut::Ch(None), DOut::Ch(None)]);
            out.push(DOut::Text(String::new()));
        }
    }
    out
}
pub fn drained_ok(got: &[DOut], want: &[DOut]) -> bool {
    got.len() == want.len()
        && got.iter().zip(want).all(|(g, w)| match (g, w) {
            (DOut::Hint(lo, hi), DOut::Hint(n, _)) => lo <= n && hi.map_or(true, |h| h >= *n),
            _ => g == w,
        })
}
/// Display is the text; debug shows it quoted, and its length, and nothing but the text matters.
pub fn fmt_ok(s: &str, got: &Out) -> Result<(), String> {
    let Out::Fmt { display, debug, fresh_debug, pretty, spec, debug_spec, short } = got else { return Err("no formatting result".into()) };
    let quoted = format!("{:?}", s);
    if display != s {
        return Err(format!("displays as {:?}", display));
    }
    // a width or a precision may be honoured as str does, or not at all
    if spec.0 != s && spec.0 != spec.1 {
        return Err(format!("displays as {:?} under a specification that makes str {:?}", spec.0, spec.1));
    }
    if debug_spec.0 != debug_spec.1 {
        return Err(format!("debug output {:?} differs from {:?} of a fresh string with the same text under the same specification", debug_spec.0, debug_spec.1));
    }
    let (room, shown, reported) = short;
    if *reported != (s.len() > *room) || !s.starts_with(shown.as_str()) || (!*reported && shown != s) {
        return Err(format!("displayed into a sink of {} bytes it left {:?}, error reported: {}", room, shown, reported));
    }
    if debug != fresh_debug {
        return Err(format!("debug output {:?} differs from {:?} of a fresh string with the same text", debug, fresh_debug));
    }
    for (name, d) in [("debug", debug), ("pretty debug", pretty)] {
        let Some(i) = d.find(&quoted) else { return Err(format!("{} output {:?} does not show the quoted text", name, d)) };
        // the length must appear as a number of its own, outside the quoted text
        let rest = format!("{} {}", &d[..i], &d[i + quoted.len()..]);
        let n = s.len().to_string();
        if !rest.split(|c: char| !c.is_ascii_digit()).any(|w| w == n) {
            return Err(format!("{} output {:?} does not show the length", name, d));
        }
    }
    Ok(())
}
/// What may be left after caller code misbehaved.
pub fn hostile_ok(op: &ROp, before: &str, out: &Out, after: &str) -> Result<(), String> {
    let ROp::Hostile(t, ..) = op else { return Ok(()) };
    let Out::Hostile { injected_panic } = out else { return Ok(()) };
    if !*injected_panic {
        return Ok(());
    }
    match t {
        Ht::ExtChars | Ht::ExtCharRefs | Ht::ExtStrs | Ht::WriteFmt => {
            if !after.starts_with(before) {
                return Err(format!("the source panicked and {:?} became {:?}, not an extension of it", before, after));
            }
        }
        Ht::Retain => {
            let mut rest = before.chars();
            if !after.chars().all(|c| rest.any(|d| c == d)) {
                return Err(format!("the predicate panicked and {:?} became {:?}, not a subsequence of it", before, after));
            }
        }
        _ => {
            if after != before {
                return Err(format!("the conversion panicked and {:?} became {:?}", before, after));
            }
        }
    }
    Ok(())
}
