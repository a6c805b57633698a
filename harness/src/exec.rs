//! Executes one operation on a subject and reports what was observable.
use crate::busy::{self, Busy};
use crate::meter::{last_panic, m, Injected, RunawayMark};
use crate::ops::*;
use crate::subject::*;
use std::cell::Cell;
use std::fmt::{self, Debug, Display, Write};
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What the string looks like from outside.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Snap {
    pub len: usize,
    /// bytes of the text (empty if the length is impossible)
    pub bytes: Vec<u8>,
    /// why the text is not valid
    pub invalid: Option<String>,
    /// disagreement between views
    pub views: Option<String>,
    /// the text cannot be told for certain
    pub adrift: bool,
    /// damaged guard zone
    pub guard: Option<&'static str>,
}

pub fn snap(s: &mut dyn Subject, cap: usize) -> Snap {
    let guard = s.guard();
    let len = s.len();
    let mut out = Snap { len, guard, ..Default::default() };
    if len > cap {
        out.invalid = Some(format!("length {} exceeds capacity {}", len, cap));
        return out;
    }
    let (addr, size) = (s.addr(), s.size_align().0);
    let b = s.bytes();
    let p = b.as_ptr() as usize;
    if b.len() <= cap {
        out.bytes = b.to_vec();
    }
    if !b.is_empty() && (p < addr || p + b.len() > addr + size) {
        out.views = Some("the text does not lie inside the value".into());
        out.adrift = true;
        return out;
    }
    if b.len() != len {
        out.views = Some(format!("len() is {} but the byte view has {} bytes", len, b.len()));
        out.adrift = true;
        return out;
    }
    if let Err(e) = std::str::from_utf8(b) {
        out.invalid = Some(format!("text is not UTF-8 ({}): {:02x?}", e, b));
        return out;
    }
    out.views = views(s, &out.bytes, cap);
    out
}
/// First disagreement of any view with the byte view.
fn views(s: &mut dyn Subject, bytes: &[u8], cap: usize) -> Option<String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let differs = |name: &str, v: &str| {
            (v.as_bytes() != bytes).then(|| format!("{} shows {:?}, the byte view {:02x?}", name, v, bytes))
        };
        if s.capacity() != cap {
            return Some(format!("capacity() is {}, not {}", s.capacity(), cap));
        }
        if s.is_empty() != bytes.is_empty() {
            return Some(format!("is_empty() is {} for {} bytes", s.is_empty(), bytes.len()));
        }
        for k in 0..VIEWS {
            let (name, v) = s.view(k);
            if let Some(e) = differs(name, v) {
                return Some(e);
            }
        }
        for k in MVS {
            if let Some(e) = differs("a mutable view", s.view_mut(k)) {
                return Some(format!("{:?}: {}", k, e));
            }
        }
        None
    }));
    r.unwrap_or_else(|_| Some(format!("a view panicked: {}", last_panic())))
}
/// The text of the spare string, checked like any other.
fn alt_out(s: &mut dyn Subject) -> Out {
    s.swap_alt();
    let cap = s.capacity();
    let n = snap(s, cap);
    s.swap_alt();
    match n.invalid.or(n.views) {
        Some(e) => Out::BadStr(e),
        None => Out::OkStr(n.bytes),
    }
}

/// Source iterator over borrowed items with a chosen, honest size hint.
struct Src<'a, T> {
    items: &'a [T],
    i: usize,
    k: It,
    budget: usize,
    /// an empty piece, where the items are strs, and how many more come before the next item
    empty: Option<&'a T>,
    run: u16,
    ended: bool,
}
impl<'a, T> Src<'a, T> {
    fn new(items: &'a [T], k: It) -> Self {
        Src { items, i: 0, k, budget: if cfg!(any(miri, fuzzing)) { 2_000 } else { 20_000 }, empty: None, run: 0, ended: false }
    }
    fn strs(items: &'a [T], k: It, empty: &'a T) -> Self {
        let run = if let It::Sparse(n) = k { n } else { 0 };
        Src { empty: Some(empty), run, ..Self::new(items, k) }
    }
}
impl<'a, T> Iterator for Src<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        busy::call();
        if self.k == It::Endless && !self.items.is_empty() {
            if self.budget == 0 {
                std::panic::panic_any(RunawayMark);
            }
            self.budget -= 1;
            let x = &self.items[self.i];
            self.i = (self.i + 1) % self.items.len();
            return Some(x);
        }
        if self.k == It::Resumes && self.ended {
            self.k = It::NoHint;
            self.i = 0;
        }
        if let (It::Sparse(n), Some(e)) = (self.k, self.empty) {
            if self.i < self.items.len() {
                if self.run > 0 {
                    self.run -= 1;
                    return Some(e);
                }
                self.run = n;
            }
        }
        let Some(x) = self.items.get(self.i) else {
            self.ended = true;
            return None;
        };
        self.i += 1;
        Some(x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len() - self.i.min(self.items.len());
        match self.k {
            It::Exact => (n, Some(n)),
            It::NoHint => (0, None),
            It::Upper => (0, Some(n)),
            It::Loose => (n / 2, Some(n * 2)),
            It::Endless if self.items.is_empty() => (0, Some(0)),
            It::Endless => (usize::MAX, None),
            It::Resumes | It::Sparse(_) => (0, None),
        }
    }
}
/// An endless source of nothing but empty pieces never fills anything: give it an end.
fn tame(k: It, total: usize) -> It {
    if k == It::Endless && total == 0 {
        It::Exact
    } else {
        k
    }
}

/// Caller code that changes its answers and may panic at its k-th call.
struct Liar<'a, T> {
    answers: &'a [T],
    calls: &'a Cell<usize>,
    panic_at: Option<usize>,
}
impl<'a, T> Liar<'a, T> {
    fn tick(&self) -> &T {
        let n = self.calls.get();
        self.calls.set(n + 1);
        busy::call();
        if Some(n) == self.panic_at {
            std::panic::panic_any(Injected);
        }
        &self.answers[n % self.answers.len()]
    }
}
impl AsRef<str> for Liar<'_, String> {
    fn as_ref(&self) -> &str {
        self.tick()
    }
}
impl AsRef<[u16]> for Liar<'_, Vec<u16>> {
    fn as_ref(&self) -> &[u16] {
        self.tick()
    }
}
impl Bounds for Liar<'_, RB> {
    fn lo(&self) -> Bound<&usize> {
        self.tick().0.as_ref()
    }
    fn hi(&self) -> Bound<&usize> {
        self.tick().1.as_ref()
    }
}
impl Display for Liar<'_, String> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.tick())
    }
}
/// Iterator with a false size hint, resuming after its end, panicking at its k-th call.
struct LiarIter<I: Iterator> {
    it: I,
    n: usize,
    panic_at: Option<usize>,
    hint: u8,
}
impl<I: Iterator> Iterator for LiarIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let n = self.n;
        self.n += 1;
        busy::call();
        if Some(n) == self.panic_at {
            std::panic::panic_any(Injected);
        }
        // a hole: reports its end once, then goes on
        if self.hint & 8 != 0 && n == 2 {
            return None;
        }
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint & 7 {
            0 => self.it.size_hint(),
            1 => (usize::MAX, Some(usize::MAX)),
            2 => (usize::MAX, None),
            3 => (0, Some(0)),
            4 => (1, Some(1)),
            5 => (300, Some(300)),
            6 => (5, Some(2)),
            _ => (usize::MAX / 2, Some(0)),
        }
    }
}

/// Records what is hashed, call by call: what every hasher gets to see.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        busy::call();
        self.0.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.0.extend_from_slice(b)
    }
}
/// FNV-1a, which does not touch the heap.
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        busy::call();
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
fn rec(f: impl FnOnce(&mut dyn Hasher)) -> Vec<u8> {
    let mut r = Rec::default();
    f(&mut r);
    r.0
}

/// A sink that keeps text without touching the heap while metered.
struct Sink {
    room: usize,
    buf: [u8; 4096],
    n: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        busy::call();
        let b = s.as_bytes();
        if self.n + b.len() > self.room {
            return Err(fmt::Error);
        }
        self.buf[self.n..self.n + b.len()].copy_from_slice(b);
        self.n += b.len();
        Ok(())
    }
}
/// Display under one of some specifications beyond the plain one.
fn display_as(k: u8, d: &dyn Display) -> String {
    match k {
        0 => fmt_metered(format_args!("{:#}", d)),
        1 => fmt_metered(format_args!("{:5}", d)),
        2 => fmt_metered(format_args!("{:>20}", d)),
        3 => fmt_metered(format_args!("{:^9}", d)),
        4 => fmt_metered(format_args!("{:*<12}", d)),
        5 => fmt_metered(format_args!("{:.3}", d)),
        6 => fmt_metered(format_args!("{:08}", d)),
        7 => fmt_metered(format_args!("{:+}", d)),
        8 => fmt_metered(format_args!("{:€^300}", d)),
        9 => fmt_metered(format_args!("{:.0}", d)),
        10 => fmt_metered(format_args!("{:-}", d)),
        11 => fmt_metered(format_args!("{:^7.2}", d)),
        12 => fmt_metered(format_args!("{:#>70.40}", d)),
        _ => fmt_metered(format_args!("{:w$.p$}", d, w = k as usize * 7, p = k as usize * 5)),
    }
}
/// The same for debug.
fn debug_as(k: u8, d: &dyn Debug) -> String {
    match k {
        0 => fmt_metered(format_args!("{:#?}", d)),
        1 => fmt_metered(format_args!("{:5?}", d)),
        2 => fmt_metered(format_args!("{:>20?}", d)),
        3 => fmt_metered(format_args!("{:x?}", d)),
        4 => fmt_metered(format_args!("{:*<12?}", d)),
        5 => fmt_metered(format_args!("{:.3?}", d)),
        6 => fmt_metered(format_args!("{:08?}", d)),
        7 => fmt_metered(format_args!("{:+?}", d)),
        8 => fmt_metered(format_args!("{:€^300?}", d)),
        9 => fmt_metered(format_args!("{:X?}", d)),
        10 => fmt_metered(format_args!("{:#x?}", d)),
        11 => fmt_metered(format_args!("{:^7.2?}", d)),
        _ => fmt_metered(format_args!("{:w$.p$?}", d, w = k as usize * 7, p = k as usize * 5)),
    }
}
fn fmt_metered(a: fmt::Arguments) -> String {
    let mut k = Sink { room: 4096, buf: [0; 4096], n: 0 };
    let r = m(|| k.write_fmt(a));
    let t = String::from_utf8_lossy(&k.buf[..k.n]).into_owned();
    match r {
        Ok(()) => t,
        Err(_) => format!("<fmt error after {:?}>", t),
    }
}

/// In-place edit of a str view: keeps UTF-8 and length by construction.
pub fn edit(v: &mut str, e: Ed) {
    match e {
        Ed::Upper => v.make_ascii_uppercase(),
        Ed::Lower => v.make_ascii_lowercase(),
        Ed::UpperPart(a, b) => {
            let mut a = a as usize % (v.len() + 1);
            let mut b = b as usize % (v.len() + 1);
            while !v.is_char_boundary(a) {
                a -= 1;
            }
            while !v.is_char_boundary(b) {
                b -= 1;
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            v[a..b].make_ascii_uppercase()
        }
    }
}

fn run_drain(s: &mut dyn Subject, steps: &[Ds], end: De) -> Vec<DOut> {
    let mut out = Vec::with_capacity(steps.len() + 4);
    for st in steps {
        out.push(match *st {
            Ds::Front => DOut::Ch(m(|| s.dr_next(false))),
            Ds::Back => DOut::Ch(m(|| s.dr_next(true))),
            Ds::Nth(k) => DOut::Ch(m(|| s.dr_nth(false, k as usize))),
            Ds::NthBack(k) => DOut::Ch(m(|| s.dr_nth(true, k as usize))),
            Ds::Find(k) => DOut::Ch(m(|| s.dr_find(false, k as usize))),
            Ds::RFind(k) => DOut::Ch(m(|| s.dr_find(true, k as usize))),
            Ds::Any(k) => DOut::N(m(|| s.dr_any(k as usize)) as usize),
            Ds::AsStr => DOut::Text(lossy(m(|| s.dr_str()))),
            Ds::Hint => {
                let (a, b) = m(|| s.dr_hint());
                DOut::Hint(a, b)
            }
            Ds::CopyRest => {
                m(|| s.dr_copy(Some(steps.len() % 2 == 0)));
                s.dr_swap();
                let mut v = vec![];
                while let Some(c) = m(|| s.dr_next(false)) {
                    v.push(c);
                    if v.len() > 300 {
                        break;
                    }
                }
                s.dr_swap();
                DOut::Chars(v)
            }
            Ds::Fmt => {
                // shown: the remaining text, quoted
                let t = fmt_metered(format_args!("{:?}", s.dr_debug()));
                DOut::N(t.contains(&format!("{:?}", s.dr_str())) as usize)
            }
        });
    }
    match end {
        De::Drop => {}
        De::CollectStr => out.push(DOut::Text(s.dr_collect(false))),
        De::RevStr => out.push(DOut::Text(s.dr_collect(true))),
        De::Count => out.push(DOut::N(m(|| s.dr_count()))),
        De::Last => out.push(DOut::Ch(m(|| s.dr_last()))),
        De::Fold | De::RFold | De::ForEach => out.push(DOut::Chars(s.dr_fold(end))),
        De::Max => out.push(DOut::Ch(m(|| s.dr_max()))),
        De::Collect | De::Rev | De::Fused => {
            let back = end == De::Rev;
            let mut v = vec![];
            while let Some(c) = m(|| s.dr_next(back)) {
                v.push(c);
                if v.len() > 300 {
                    break;
                }
            }
            out.push(DOut::Chars(v));
            if end == De::Fused {
                for _ in 0..2 {
                    out.push(DOut::Ch(s.dr_next(false)));
                    out.push(DOut::Ch(s.dr_next(true)));
                }
                out.push(DOut::Text(lossy(s.dr_str())));
            }
        }
    }
    out
}

/// A string of the subject's, which need not be valid, made safe to print.
fn lossy(s: &str) -> String {
    String::from_utf8_lossy(s.as_bytes()).into_owned()
}
fn text_of(s: &dyn Subject) -> String {
    String::from_utf8_lossy(s.bytes()).into_owned()
}
/// Fills the storage with other text, then empties the string again.
pub fn soil(s: &mut dyn Subject) {
    let cap = s.capacity();
    s.push_str_truncate(&"~".repeat(cap));
    s.clear();
}

fn str_slice_hash(x: &[&str], h: &mut impl Hasher) {
    Hash::hash_slice(x, h)
}

/// Compares the string with strings built from `others`; every disagreement with the texts is listed.
fn compare(s: &mut dyn Subject, others: &[String], dirty: bool) -> Vec<String> {
    let mut bad = vec![];
    let st = text_of(s);
    macro_rules! same {
        ($name:expr, $got:expr, $want:expr, $xt:expr) => {
            let (g, w) = ($got, $want);
            if g != w {
                bad.push(format!("{} of {:?} and {:?}: got {:?}, the texts give {:?}", $name, st, $xt, g, w));
            }
        };
    }
    for k in 0..=others.len() {
        if k == 0 {
            m(|| s.copy_to_alt(dirty));
        } else {
            s.swap_alt();
            s.c_new(false);
            if dirty {
                soil(s);
                s.push_str_truncate(&others[k - 1]);
                // the same text by a longer history
                if s.try_push('q').is_ok() {
                    s.pop();
                }
            } else {
                s.c_from_str_truncate(&others[k - 1]);
            }
            s.swap_alt();
        }
        s.swap_alt();
        let xt = text_of(s);
        let xh = rec(|h| s.hash(h));
        s.swap_alt();
        let (a, b) = (st.as_str(), xt.as_str());
        same!("==, !=, <, <=, >, >=", m(|| s.rel_alt()), [a == b, a != b, a < b, a <= b, a > b, a >= b], xt);
        same!("cmp, partial_cmp", m(|| s.cmp_alt()), (a.cmp(b), a.partial_cmp(b)), xt);
        let (mx, mn) = s.max_min_alt();
        same!("max", mx, a.max(b).as_bytes(), xt);
        same!("min", mn, a.min(b).as_bytes(), xt);
        let (c1, c2) = s.clamp_alt();
        same!("clamp between the other twice", c1, b.as_bytes(), xt);
        same!("clamp between the smaller and the string", c2, a.as_bytes(), xt);
        let mut hw = Rec::default();
        str_slice_hash(&[a, b], &mut hw);
        same!("bytes hashed as a slice", rec(|h| s.hash_both(h)), hw.0, xt);
        same!("==, != with str, &str", m(|| s.rel_str(b)), [a == b, a != b, a == b, a != b], xt);
        let mut xw = Rec::default();
        b.hash(&mut xw);
        same!("hashed bytes", xh, xw.0, xt);
    }
    let mut f = Fnv(7);
    m(|| s.hash(&mut f));
    let mut g = Fnv(7);
    st.as_str().hash(&mut g);
    same!("hash", f.0, g.0, st);
    // plain strs, also longer than any string of this capacity
    for o in others {
        let (a, b) = (st.as_str(), o.as_str());
        same!("==, != with long str, &str", m(|| s.rel_str(b)), [a == b, a != b, a == b, a != b], o);
    }
    // keys in maps, the original found by its plain text among near-equal others
    let mut asked = others.to_vec();
    asked.push(format!("{st}q"));
    asked.push(st.chars().rev().skip(1).collect::<Vec<_>>().into_iter().rev().collect());
    bad.extend(s.maps(others, &asked));
    // draining iterators compare by what is left in them
    s.copy_to_alt(false);
    if s.drain(R(&(Bound::Unbounded, Bound::Unbounded))).is_ok() {
        if dirty {
            s.dr_next(false);
        }
        let dt = lossy(s.dr_str());
        let dh = rec(|h| s.dr_hash(h));
        for k in 0..=others.len() + 1 {
            if k == 0 {
                s.dr_copy(Some(dirty));
            } else if k == 1 {
                s.dr_copy(None);
            } else {
                s.dr_swap();
                s.c_from_str_truncate(&others[k - 2]);
                let _ = s.drain(R(&(Bound::Unbounded, Bound::Unbounded)));
                if dirty && k % 2 == 0 {
                    s.dr_next(false);
                }
                s.dr_swap();
            }
            s.dr_swap();
            let ot = lossy(s.dr_str());
            let oh = rec(|h| s.dr_hash(h));
            s.dr_swap();
            let (a, b) = (dt.as_str(), ot.as_str());
            same!("draining iterators: ==, !=, <, <=, >, >=, cmp, partial_cmp", m(|| s.dr_rel()), ([a == b, a != b, a < b, a <= b, a > b, a >= b], a.cmp(b), a.partial_cmp(b)), ot);
            if a == b {
                same!("draining iterators: hashed bytes", &dh, &oh, ot);
            }
        }
    }
    s.swap_alt();
    bad
}

fn unit(r: Re) -> Out {
    match r {
        Ok(()) => Out::Ok,
        Err(e) => Out::Err(e),
    }
}
fn slice_of(base: usize, v: &str) -> Out {
    // an empty slice selects nothing wherever it points
    let off = if v.is_empty() { 0 } else { (v.as_ptr() as usize).wrapping_sub(base) };
    Out::Slice(off, v.as_bytes().to_vec())
}

fn go(s: &mut dyn Subject, op: &ROp) -> Out {
    match op {
        ROp::TryPushStr(x) => unit(m(|| s.try_push_str(&Busy(x)))),
        ROp::PushStrTrunc(x) => {
            m(|| s.push_str_truncate(&Busy(x)));
            Out::Ok
        }
        ROp::TryPush(c) => unit(m(|| s.try_push(*c))),
        ROp::Truncate(n) => unit(m(|| s.truncate(*n))),
        ROp::Pop() => Out::Ch(m(|| s.pop())),
        ROp::Trim() => {
            m(|| s.trim());
            Out::Ok
        }
        ROp::Remove(i) => match m(|| s.remove(*i)) {
            Ok(c) => Out::OkCh(c),
            Err(e) => Out::Err(e),
        },
        ROp::Retain(p) => {
            let mut asked = Vec::with_capacity(260);
            let mut n = 0usize;
            m(|| {
                s.retain(&mut |c| {
                    if asked.len() < asked.capacity() {
                        asked.push(c);
                    }
                    n += 1;
                    busy::call();
                    p.keep(n - 1, c)
                })
            });
            Out::Asked(asked)
        }
        ROp::TryInsert(i, c) => unit(m(|| s.try_insert(*i, *c))),
        ROp::TryInsertStr(i, x) => unit(m(|| s.try_insert_str(*i, &Busy(x)))),
        ROp::InsertStrTrunc(i, x) => unit(m(|| s.insert_str_truncate(*i, &Busy(x)))),
        ROp::SplitOff(i) => match m(|| s.split_off(*i)) {
            Ok(()) => alt_out(s),
            Err(e) => Out::Err(e),
        },
        ROp::Clear() => {
            m(|| s.clear());
            Out::Ok
        }
        ROp::Drain(r, steps, end) => match m(|| s.drain(R(&Busy(r)))) {
            Ok(()) => Out::Drained(run_drain(s, steps, *end)),
            Err(e) => Out::Err(e),
        },
        ROp::Replace(r, x) => unit(m(|| s.replace_range(R(&Busy(r)), &Busy(x)))),
        ROp::Add(x) => {
            m(|| s.add(x));
            Out::Ok
        }
        ROp::ExtChars(k, x) => {
            let v: Vec<char> = x.chars().collect();
            let mut it = Src::new(&v, tame(*k, x.len())).copied();
            m(|| s.ext_chars(&mut it));
            Out::Ok
        }
        ROp::ExtCharRefs(k, x) => {
            let v: Vec<char> = x.chars().collect();
            let mut it = Src::new(&v, tame(*k, x.len()));
            m(|| s.ext_refs(&mut it));
            Out::Ok
        }
        ROp::ExtStrs(k, v) => {
            let v: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
            let mut it = Src::strs(&v, tame(*k, v.iter().map(|x| x.len()).sum()), &"").copied();
            m(|| s.ext_strs(&mut it));
            Out::Ok
        }
        ROp::WriteStr(x) => unit(m(|| s.write_str(x))),
        ROp::WriteChar(c) => unit(m(|| s.write_char(*c))),
        ROp::WriteFmt(v) => {
            struct Parts<'a>(&'a [String]);
            impl Display for Parts<'_> {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    for x in self.0 {
                        busy::call();
                        f.write_str(x)?;
                    }
                    Ok(())
                }
            }
            unit(m(|| s.write_fmt(format_args!("{}", Parts(v)))))
        }
        ROp::New(d) => {
            m(|| s.c_new(*d));
            Out::Ok
        }
        ROp::CtorStr(k, x) => unit(m(|| s.c_str(*k, x))),
        ROp::CtorIter(k, i, v) => {
            let i = tame(*i, v.iter().map(|x| x.len()).sum());
            if *k == Ic::FromIter {
                let v: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
                let mut it = Src::strs(&v, i, &"").copied();
                m(|| s.c_collect_str(&mut it));
                Out::Ok
            } else {
                let v: Vec<Busy<String>> = v.iter().map(Busy).collect();
                let v: Vec<Txt> = v.iter().map(|x| x as Txt).collect();
                let none: Txt = &"";
                let mut it = Src::strs(&v, i, &none).copied();
                unit(m(|| s.c_iter(*k == Ic::IterTrunc, &mut it)))
            }
        }
        ROp::CtorChars(k, i, x) => {
            let v: Vec<char> = x.chars().collect();
            let mut it = Src::new(&v, tame(*i, x.len())).copied();
            unit(m(|| s.c_chars(*k, &mut it)))
        }
        ROp::CtorU16(k, v) => unit(m(|| s.c_utf16(*k, &Busy(v)))),
        ROp::Index(k, a, b) => {
            let base = s.bytes().as_ptr() as usize;
            match catch_unwind(AssertUnwindSafe(|| slice_of(base, m(|| s.index(*k, *a, *b))))) {
                Ok(o) => o,
                Err(_) => Out::Panic("index".into()),
            }
        }
        ROp::IndexMut(k, a, b) => {
            let base = s.bytes().as_ptr() as usize;
            let r = catch_unwind(AssertUnwindSafe(|| {
                let v = m(|| s.index_mut(*k, *a, *b));
                let o = slice_of(base, v);
                edit(v, Ed::Upper);
                o
            }));
            r.unwrap_or_else(|_| Out::Panic("index".into()))
        }
        ROp::Compare(v, d) => Out::Cmp(compare(s, v, *d)),
        ROp::Fmt(k) => {
            let t = text_of(s);
            s.swap_alt();
            s.c_new(false);
            s.c_from_str_truncate(&t);
            let fresh_debug = format!("{:?}", s.debug());
            let fresh_spec = debug_as(*k, s.debug());
            s.swap_alt();
            let display = fmt_metered(format_args!("{}", s.display()));
            let ts = s.display().to_string();
            Out::Fmt {
                display: if ts == display { display } else { format!("<to_string {:?}, display {:?}>", ts, display) },
                debug: fmt_metered(format_args!("{:?}", s.debug())),
                fresh_debug,
                pretty: format!("{:#?}", s.debug()),
                spec: (display_as(*k, s.display()), display_as(*k, &t.as_str())),
                debug_spec: (debug_as(*k, s.debug()), fresh_spec),
                short: {
                    let room = *k as usize * 13;
                    let mut b = Sink { room, buf: [0; 4096], n: 0 };
                    let r = m(|| write!(b, "{}", s.display()));
                    (room, String::from_utf8_lossy(&b.buf[..b.n]).into_owned(), r.is_err())
                },
            }
        }
        ROp::MutView(v, e) => {
            let view = m(|| s.view_mut(*v));
            edit(view, *e);
            Out::Ok
        }
        ROp::Copies(clone, inner, edit_copy) => {
            m(|| s.copy_to_alt(*clone));
            if !s.rel_alt()[0] {
                return Out::BadStr("a fresh copy differs from its original".into());
            }
            // the other copy is kept aside as plain bytes: inner operations may use the spare slot
            if *edit_copy {
                // edit the copy, then look at both
                let before = s.bytes().to_vec();
                s.swap_alt();
                let quiet = matches!(**inner, ROp::Copies(..) | ROp::SplitOff(..) | ROp::Compare(..) | ROp::Fmt(_));
                if !quiet {
                    let _ = apply(s, inner);
                }
                let edited = s.bytes().to_vec();
                s.swap_alt();
                if s.bytes() != &before[..] {
                    return Out::BadStr(format!("editing a copy changed the original from {:02x?} to {:02x?}", before, s.bytes()));
                }
                Out::Other(if quiet { before } else { edited })
            } else {
                let quiet = matches!(**inner, ROp::Copies(..) | ROp::SplitOff(..) | ROp::Compare(..) | ROp::Fmt(_));
                if !quiet {
                    let _ = apply(s, inner);
                }
                s.swap_alt();
                let other = s.bytes().to_vec();
                s.swap_alt();
                Out::Other(other)
            }
        }
        ROp::Hostile(t, texts, ranges, idx, panic_at, hint) => {
            hostile(s, *t, texts, ranges, *idx, panic_at.map(|p| p as usize), *hint)
        }
    }
}

fn hostile(s: &mut dyn Subject, t: Ht, texts: &[String], ranges: &[RB], idx: usize, panic_at: Option<usize>, hint: u8) -> Out {
    let calls = Cell::new(0usize);
    let liar = || Liar { answers: texts, calls: &calls, panic_at };
    let rliar = || Liar { answers: ranges, calls: &calls, panic_at };
    let wide: Vec<Vec<u16>> = texts.iter().map(|x| x.encode_utf16().collect()).collect();
    let uliar = || Liar { answers: &wide[..], calls: &calls, panic_at };
    let chars: Vec<char> = texts.iter().flat_map(|x| x.chars()).take(600).collect();
    let refs: Vec<&str> = texts.iter().map(|x| x.as_str()).collect();
    let mut citer = LiarIter { it: chars.iter().copied(), n: 0, panic_at, hint };
    let mut siter = LiarIter { it: refs.iter().copied(), n: 0, panic_at, hint };
    let liars = [liar(), liar(), liar()];
    let mut titer = LiarIter { it: liars.iter().map(|l| l as Txt), n: 0, panic_at: None, hint };
    let r = catch_unwind(AssertUnwindSafe(|| match t {
        Ht::TryPushStr => drop(s.try_push_str(&liar())),
        Ht::PushStrTrunc => s.push_str_truncate(&liar()),
        Ht::TryInsertStr => drop(s.try_insert_str(idx, &liar())),
        Ht::InsertStrTrunc => drop(s.insert_str_truncate(idx, &liar())),
        Ht::Replace => drop(s.replace_range(R(&ranges[0]), &liar())),
        Ht::TryFromStr => drop(s.c_try_from_str(&liar())),
        Ht::FromStrTrunc => s.c_from_str_truncate(&liar()),
        Ht::TryIter => drop(s.c_iter(false, &mut titer)),
        Ht::IterTrunc => drop(s.c_iter(true, &mut titer)),
        Ht::FromIterStr => s.c_collect_str(&mut siter),
        Ht::TryChars => drop(s.c_chars(Ic::TryIter, &mut citer)),
        Ht::CharsTrunc => drop(s.c_chars(Ic::IterTrunc, &mut citer)),
        Ht::FromIterChar => drop(s.c_chars(Ic::FromIter, &mut citer)),
        Ht::ExtChars => s.ext_chars(&mut citer),
        Ht::ExtCharRefs => s.ext_refs(&mut LiarIter { it: chars.iter(), n: 0, panic_at, hint }),
        Ht::ExtStrs => s.ext_strs(&mut siter),
        Ht::Utf16Try => drop(s.c_utf16(Uc::Try, &uliar())),
        Ht::Utf16Trunc => drop(s.c_utf16(Uc::Trunc, &uliar())),
        Ht::Utf16Lossy => drop(s.c_utf16(Uc::Lossy, &uliar())),
        Ht::Retain => {
            let mut n = 0;
            s.retain(&mut |c| {
                n += 1;
                busy::call();
                if Some(n - 1) == panic_at {
                    std::panic::panic_any(Injected);
                }
                (c as usize + n * hint as usize) % 3 != 0
            })
        }
        Ht::DrainRange => {
            if s.drain(R(&rliar())).is_ok() {
                s.dr_count();
            }
        }
        Ht::ReplaceRange => drop(s.replace_range(R(&rliar()), &texts[0])),
        Ht::WriteFmt => drop(s.write_fmt(format_args!("{}{}{}", liar(), liar(), liar()))),
    }));
    match r {
        Ok(()) => Out::Hostile { injected_panic: false },
        Err(p) if p.is::<Injected>() => Out::Hostile { injected_panic: true },
        Err(p) if p.is::<RunawayMark>() => Out::Runaway,
        Err(_) => Out::Panic(last_panic()),
    }
}

pub fn apply(s: &mut dyn Subject, op: &ROp) -> Out {
    busy::start();
    let out = done(s, op);
    match busy::wrong() {
        Some(e) if !matches!(out, Out::Panic(_)) => Out::BadStr(format!("a string of the caller's own, used inside the call: {} went wrong", e)),
        _ => out,
    }
}
fn done(s: &mut dyn Subject, op: &ROp) -> Out {
    match catch_unwind(AssertUnwindSafe(|| go(s, op))) {
        Ok(o) => o,
        Err(p) if p.is::<RunawayMark>() => Out::Runaway,
        Err(_) => Out::Panic(last_panic()),
    }
}
