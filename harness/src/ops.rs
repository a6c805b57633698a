//! Operations as generated (`Op`, relative to the current state) and as executed (`ROp`, absolute).
use std::ops::{Bound, RangeInclusive};

/// Which type a case runs on.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cap {
    /// `ArrayString<N>`
    A(u8),
    /// `CacheString`
    Cache,
}
impl Cap {
    pub fn bytes(self) -> usize {
        match self {
            Cap::A(n) => n as usize,
            Cap::Cache => 63,
        }
    }
}

/// A text, relative to the current state of the string it is used on.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum StrSpec {
    Lit(String),
    /// another text, a few of whose chars are exchanged for others
    Spots(Box<StrSpec>, Vec<(Spot, char)>),
    /// `pad` ASCII bytes, then `pat` repeated, aiming at `base + delta` bytes.
    Fill {
        base: Base,
        delta: i32,
        pad: u8,
        pat: Vec<char>,
        over: bool,
    },
    /// The current text.
    Cur,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Base {
    Zero,
    Remaining,
    Cap,
}
/// Where an unlike char is put into an otherwise uniform text: in 256ths of it, in bytes from either end.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Spot {
    Part(u8),
    Front(u8),
    Back(u8),
}
impl StrSpec {
    pub fn resolve(&self, cur: &str, cap: usize) -> String {
        match self {
            StrSpec::Lit(s) => s.clone(),
            StrSpec::Cur => cur.to_owned(),
            StrSpec::Spots(fill, spots) => {
                let mut out = fill.resolve(cur, cap);
                let len = out.len();
                for (at, c) in spots {
                    let at = match at {
                        Spot::Part(k) => out.len() * *k as usize / 256,
                        Spot::Front(k) => *k as usize,
                        Spot::Back(k) => out.len().saturating_sub(*k as usize),
                    };
                    let at = (0..=at.min(out.len())).rev().find(|i| out.is_char_boundary(*i)).unwrap_or(0);
                    if let Some(old) = out[at..].chars().next() {
                        out.replace_range(at..at + old.len_utf8(), c.encode_utf8(&mut [0; 4]));
                    }
                }
                // of the same length as before
                while out.len() > len {
                    out.pop();
                }
                while out.len() < len {
                    out.push('x');
                }
                out
            }
            StrSpec::Fill { base, delta, pad, pat, over } => {
                let b = match base {
                    Base::Zero => 0,
                    Base::Remaining => cap.saturating_sub(cur.len()),
                    Base::Cap => cap,
                } as i64;
                let target = (b + *delta as i64).clamp(0, if cfg!(any(miri, fuzzing)) { 600 } else { 70_000 }) as usize;
                let mut out = String::with_capacity(target + 4);
                for i in 0..*pad {
                    if out.len() < target {
                        out.push((b'0' + i % 10) as char);
                    }
                }
                if pat.is_empty() {
                    return out;
                }
                let mut i = 0;
                while out.len() < target {
                    let c = pat[i % pat.len()];
                    if !*over && out.len() + c.len_utf8() > target {
                        break;
                    }
                    out.push(c);
                    i += 1;
                }
                out
            }
        }
    }
}

/// A byte index, relative to the current state.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Idx {
    /// k-th char boundary, counted modulo their number
    Bnd(u16),
    /// k-th boundary from the end
    BndEnd(u16),
    /// some byte inside a char if there is one, else a boundary
    Inside(u16),
    /// k modulo len + 3
    Byte(u16),
    /// len + k
    Len(i16),
    /// capacity + k
    Cap(i16),
    /// a boundary plus m * 2^shift: equal to a valid index after a lossy cast
    Wrap { k: u16, shift: u8, m: u8 },
    /// usize::MAX - k
    Max(u8),
    Abs(usize),
}
impl Idx {
    pub fn resolve(&self, s: &str, cap: usize) -> usize {
        let bnds = || -> Vec<usize> {
            s.char_indices().map(|(i, _)| i).chain(std::iter::once(s.len())).collect()
        };
        match *self {
            Idx::Bnd(k) => {
                let b = bnds();
                b[k as usize % b.len()]
            }
            Idx::BndEnd(k) => {
                let b = bnds();
                b[b.len() - 1 - k as usize % b.len()]
            }
            Idx::Inside(k) => {
                let ins: Vec<usize> = (0..s.len()).filter(|&i| !s.is_char_boundary(i)).collect();
                if ins.is_empty() {
                    let b = bnds();
                    b[k as usize % b.len()]
                } else {
                    ins[k as usize % ins.len()]
                }
            }
            Idx::Byte(k) => k as usize % (s.len() + 3),
            Idx::Len(d) => (s.len() as i64 + d as i64).max(0) as usize,
            Idx::Cap(d) => (cap as i64 + d as i64).max(0) as usize,
            Idx::Wrap { k, shift, m } => {
                let b = bnds();
                let base = b[k as usize % b.len()];
                let bits = usize::BITS as u8;
                base.wrapping_add((m as usize).wrapping_shl((shift % bits) as u32))
            }
            Idx::Max(k) => usize::MAX - k as usize,
            Idx::Abs(i) => i,
        }
    }
}

/// How a bound is expressed.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bk {
    Inc,
    Exc,
    Unb,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Rng {
    pub a: Idx,
    pub b: Idx,
    /// order the two ends
    pub sort: bool,
    pub sk: Bk,
    pub ek: Bk,
}
pub type RB = (Bound<usize>, Bound<usize>);
impl Rng {
    pub fn resolve(&self, s: &str, cap: usize) -> RB {
        let (mut a, mut b) = (self.a.resolve(s, cap), self.b.resolve(s, cap));
        if self.sort && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        // where stepping back would keep an end away from the largest integers, it is taken as it is
        let huge = usize::MAX - 8;
        let lo = match self.sk {
            Bk::Inc => Bound::Included(a),
            Bk::Exc if a >= huge => Bound::Excluded(a),
            // same first byte, expressed as an excluded bound, where possible
            Bk::Exc if a > 0 => Bound::Excluded(a - 1),
            Bk::Exc => Bound::Included(0),
            Bk::Unb => Bound::Unbounded,
        };
        let hi = match self.ek {
            Bk::Exc => Bound::Excluded(b),
            Bk::Inc if b >= huge => Bound::Included(b),
            Bk::Inc if b > 0 => Bound::Included(b - 1),
            Bk::Inc => Bound::Excluded(0),
            Bk::Unb => Bound::Unbounded,
        };
        (lo, hi)
    }
}

/// Behaviour of a generated source iterator.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum It {
    /// exact size hint
    Exact,
    /// (0, None)
    NoHint,
    /// (0, Some(n))
    Upper,
    /// (n/2, Some(2n))
    Loose,
    /// repeats its items for ever
    Endless,
    /// starts over after its end, which a consumer must not notice
    Resumes,
    /// as many empty pieces before each item, where its items are strs
    Sparse(u16),
}

/// Retain predicate.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    /// decision for the i-th call is bit i mod 64
    Mask(u64),
    /// keep chars of these widths (bit w-1)
    Width(u8),
    NotWs,
    Not(char),
    /// keep only the first k chars
    First(u8),
}
impl Pred {
    pub fn keep(&self, i: usize, c: char) -> bool {
        match *self {
            Pred::Mask(m) => m >> (i % 64) & 1 == 1,
            Pred::Width(w) => w >> (c.len_utf8() - 1) & 1 == 1,
            Pred::NotWs => !c.is_whitespace(),
            Pred::Not(d) => c != d,
            Pred::First(k) => i < k as usize,
        }
    }
}

/// One step on a draining iterator.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ds {
    Front,
    Back,
    Nth(u8),
    NthBack(u8),
    /// the (k+1)-th char asked about is wanted
    Find(u8),
    RFind(u8),
    Any(u8),
    AsStr,
    Hint,
    /// copy the iterator, run the copy to its end, keep the original
    CopyRest,
    Fmt,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum De {
    Drop,
    Collect,
    CollectStr,
    RevStr,
    Rev,
    Count,
    Last,
    /// the whole rest by internal iteration
    Fold,
    RFold,
    ForEach,
    Max,
    /// exhaust from the front then poll both ends again
    Fused,
}

/// Str constructors.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sc {
    TryFromStr,
    FromStr,
    FromStrTrunc,
    FromRef,
}
/// Constructors from str iterators.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ic {
    TryIter,
    IterTrunc,
    FromIter,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Uc {
    Try,
    Trunc,
    Lossy,
}
/// Range forms of `Index<_<u8>>`.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rk {
    Full,
    From,
    To,
    ToInc,
    Range,
    Inc,
    /// inclusive, iterated to its end from the front first
    Spent,
    /// inclusive, iterated to its end from the back first
    SpentBack,
}
pub const RKS: [Rk; 8] = [Rk::Full, Rk::From, Rk::To, Rk::ToInc, Rk::Range, Rk::Inc, Rk::Spent, Rk::SpentBack];
/// A bound that overflows its type is left unspecified by the iteration: such ranges stay fresh.
pub fn fresh(k: Rk, a: u8, b: u8) -> Rk {
    match k {
        Rk::Spent if b == 255 => Rk::Inc,
        Rk::SpentBack if a == 0 => Rk::Inc,
        k => k,
    }
}
/// The inclusive range after iteration to its end, which then selects nothing.
pub fn spent<T>(a: T, b: T, back: bool) -> RangeInclusive<T>
where
    RangeInclusive<T>: DoubleEndedIterator,
{
    let mut r = a..=b;
    if back {
        while r.next_back().is_some() {}
    } else {
        while r.next().is_some() {}
    }
    r
}
/// Mutable str views.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mv {
    AsMutStr,
    AsMut,
    Deref,
    Borrow,
    Index,
}
pub const MVS: [Mv; 5] = [Mv::AsMutStr, Mv::AsMut, Mv::Deref, Mv::Borrow, Mv::Index];
/// In-place edits of a `&mut str`.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ed {
    Upper,
    Lower,
    /// upper-case only between two boundaries
    UpperPart(u8, u8),
}

/// Hostile caller code.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ht {
    TryPushStr,
    PushStrTrunc,
    TryInsertStr,
    InsertStrTrunc,
    Replace,
    TryFromStr,
    FromStrTrunc,
    TryIter,
    IterTrunc,
    FromIterStr,
    TryChars,
    CharsTrunc,
    FromIterChar,
    ExtChars,
    ExtCharRefs,
    ExtStrs,
    Utf16Try,
    Utf16Trunc,
    Utf16Lossy,
    Retain,
    DrainRange,
    ReplaceRange,
    WriteFmt,
}
pub const HTS: [Ht; 23] = [
    Ht::TryPushStr,
    Ht::PushStrTrunc,
    Ht::TryInsertStr,
    Ht::InsertStrTrunc,
    Ht::Replace,
    Ht::TryFromStr,
    Ht::FromStrTrunc,
    Ht::TryIter,
    Ht::IterTrunc,
    Ht::FromIterStr,
    Ht::TryChars,
    Ht::CharsTrunc,
    Ht::FromIterChar,
    Ht::ExtChars,
    Ht::ExtCharRefs,
    Ht::ExtStrs,
    Ht::Utf16Try,
    Ht::Utf16Trunc,
    Ht::Utf16Lossy,
    Ht::Retain,
    Ht::DrainRange,
    Ht::ReplaceRange,
    Ht::WriteFmt,
];

macro_rules! ops {
    ($( $name:ident ( $($sf:ty => $rf:ty),* ) ),* $(,)?) => {
        /// An operation as generated.
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub enum Op { $( $name ( $($sf),* ) ),* }
        /// An operation as executed.
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub enum ROp { $( $name ( $($rf),* ) ),* }
    };
}
ops! {
    TryPushStr(StrSpec => String),
    PushStrTrunc(StrSpec => String),
    TryPush(char => char),
    Truncate(Idx => usize),
    Pop(),
    Trim(),
    Remove(Idx => usize),
    Retain(Pred => Pred),
    TryInsert(Idx => usize, char => char),
    TryInsertStr(Idx => usize, StrSpec => String),
    InsertStrTrunc(Idx => usize, StrSpec => String),
    SplitOff(Idx => usize),
    Clear(),
    Drain(Rng => RB, Vec<Ds> => Vec<Ds>, De => De),
    Replace(Rng => RB, StrSpec => String),
    Add(StrSpec => String),
    ExtChars(It => It, StrSpec => String),
    ExtCharRefs(It => It, StrSpec => String),
    ExtStrs(It => It, Vec<StrSpec> => Vec<String>),
    WriteStr(StrSpec => String),
    WriteChar(char => char),
    WriteFmt(Vec<StrSpec> => Vec<String>),
    // constructors: on success the string under test becomes the new value
    New(bool => bool),
    CtorStr(Sc => Sc, StrSpec => String),
    CtorIter(Ic => Ic, It => It, Vec<StrSpec> => Vec<String>),
    CtorChars(Ic => Ic, It => It, StrSpec => String),
    CtorU16(Uc => Uc, Vec<u16> => Vec<u16>),
    // queries
    Index(Rk => Rk, u8 => u8, u8 => u8),
    IndexMut(Rk => Rk, u8 => u8, u8 => u8),
    Compare(Vec<StrSpec> => Vec<String>, bool => bool),
    // which of the format specifications to try besides the plain one
    Fmt(u8 => u8),
    // copies and views
    MutView(Mv => Mv, Ed => Ed),
    Copies(bool => bool, Box<Op> => Box<ROp>, bool => bool),
    // hostile caller code: target, answers, range ends, index, panic at call, false hint
    Hostile(Ht => Ht, Vec<StrSpec> => Vec<String>, Vec<Rng> => Vec<RB>, Idx => usize, Option<u8> => Option<u8>, u8 => u8),
}

impl Op {
    pub fn resolve(&self, s: &str, cap: usize) -> ROp {
        let st = |x: &StrSpec| x.resolve(s, cap);
        let sv = |v: &Vec<StrSpec>| v.iter().map(|x| x.resolve(s, cap)).collect::<Vec<_>>();
        let ix = |x: &Idx| x.resolve(s, cap);
        match self {
            Op::TryPushStr(x) => ROp::TryPushStr(st(x)),
            Op::PushStrTrunc(x) => ROp::PushStrTrunc(st(x)),
            Op::TryPush(c) => ROp::TryPush(*c),
            Op::Truncate(i) => ROp::Truncate(ix(i)),
            Op::Pop() => ROp::Pop(),
            Op::Trim() => ROp::Trim(),
            Op::Remove(i) => ROp::Remove(ix(i)),
            Op::Retain(p) => ROp::Retain(*p),
            Op::TryInsert(i, c) => ROp::TryInsert(ix(i), *c),
            Op::TryInsertStr(i, x) => ROp::TryInsertStr(ix(i), st(x)),
            Op::InsertStrTrunc(i, x) => ROp::InsertStrTrunc(ix(i), st(x)),
            Op::SplitOff(i) => ROp::SplitOff(ix(i)),
            Op::Clear() => ROp::Clear(),
            Op::Drain(r, d, e) => ROp::Drain(r.resolve(s, cap), d.clone(), *e),
            Op::Replace(r, x) => ROp::Replace(r.resolve(s, cap), st(x)),
            Op::Add(x) => ROp::Add(st(x)),
            Op::ExtChars(k, x) => ROp::ExtChars(*k, st(x)),
            Op::ExtCharRefs(k, x) => ROp::ExtCharRefs(*k, st(x)),
            Op::ExtStrs(k, v) => ROp::ExtStrs(*k, sv(v)),
            Op::WriteStr(x) => ROp::WriteStr(st(x)),
            Op::WriteChar(c) => ROp::WriteChar(*c),
            Op::WriteFmt(v) => ROp::WriteFmt(sv(v)),
            Op::New(b) => ROp::New(*b),
            Op::CtorStr(k, x) => ROp::CtorStr(*k, st(x)),
            Op::CtorIter(k, i, v) => ROp::CtorIter(*k, *i, sv(v)),
            Op::CtorChars(k, i, x) => ROp::CtorChars(*k, *i, st(x)),
            Op::CtorU16(k, v) => ROp::CtorU16(*k, v.clone()),
            Op::Index(k, a, b) => ROp::Index(*k, *a, *b),
            Op::IndexMut(k, a, b) => ROp::IndexMut(*k, *a, *b),
            Op::Compare(v, d) => ROp::Compare(sv(v), *d),
            Op::Fmt(k) => ROp::Fmt(*k),
            Op::MutView(m, e) => ROp::MutView(*m, *e),
            Op::Copies(c, o, w) => ROp::Copies(*c, Box::new(o.resolve(s, cap)), *w),
            Op::Hostile(t, v, r, i, p, h) => ROp::Hostile(
                *t,
                sv(v),
                r.iter().map(|x| x.resolve(s, cap)).collect(),
                ix(i),
                *p,
                *h,
            ),
        }
    }
}

/// One generated case.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub cap: Cap,
    /// fill the storage with other text first
    pub dirty: bool,
    pub init: StrSpec,
    pub ops: Vec<Op>,
}

/// Error kinds as observed.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EK {
    Oob,
    Utf8,
    Utf16,
    Fmt,
}

/// What a drain step showed.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum DOut {
    Ch(Option<char>),
    Text(String),
    Hint(usize, Option<usize>),
    Chars(Vec<char>),
    N(usize),
}

/// What an operation returned.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Ok,
    Err(EK),
    Ch(Option<char>),
    OkCh(char),
    /// a returned string: its bytes
    OkStr(Vec<u8>),
    /// a returned string breaking its own invariants
    BadStr(String),
    Drained(Vec<DOut>),
    Asked(Vec<char>),
    /// offset and bytes of a selected slice
    Slice(usize, Vec<u8>),
    /// comparison results that disagree with the texts' own
    Cmp(Vec<String>),
    Fmt {
        display: String,
        debug: String,
        fresh_debug: String,
        pretty: String,
        /// display under the other specification, and a str's
        spec: (String, String),
        /// debug under the other specification, and that of a fresh string
        debug_spec: (String, String),
        /// room of a sink that refuses more, what it got, whether that was reported
        short: (usize, String, bool),
    },
    /// text of the other copy after the edit
    Other(Vec<u8>),
    Hostile { injected_panic: bool },
    /// the API panicked on its own
    Panic(String),
    /// an endless source was read beyond any reasonable need
    Runaway,
}
