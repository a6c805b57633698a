//! The code under test behind one object-safe interface, so that everything above it is
//! compiled once rather than once per capacity.
use crate::busy::{call, BusyStr};
use crate::ops::*;
use arraystring::error::{Error, OutOfBounds, Utf16, Utf8};
use arraystring::{prelude::*, Drain};
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display, Write};
use std::hash::{Hash, Hasher};
use std::ops::*;
use std::str::FromStr;

pub type Txt<'a> = &'a dyn AsRef<str>;
pub type Wide<'a> = &'a dyn AsRef<[u16]>;
/// Object-safe face of `RangeBounds<usize>`.
pub trait Bounds {
    fn lo(&self) -> Bound<&usize>;
    fn hi(&self) -> Bound<&usize>;
}
impl Bounds for RB {
    fn lo(&self) -> Bound<&usize> {
        self.0.as_ref()
    }
    fn hi(&self) -> Bound<&usize> {
        self.1.as_ref()
    }
}
pub struct R<'a>(pub &'a dyn Bounds);
impl RangeBounds<usize> for R<'_> {
    fn start_bound(&self) -> Bound<&usize> {
        self.0.lo()
    }
    fn end_bound(&self) -> Bound<&usize> {
        self.0.hi()
    }
}
pub type ItTxt<'a, 'b> = &'a mut dyn Iterator<Item = Txt<'b>>;
pub type ItChar<'a> = &'a mut dyn Iterator<Item = char>;
pub type ItCharRef<'a, 'b> = &'a mut dyn Iterator<Item = &'b char>;
pub type ItStr<'a, 'b> = &'a mut dyn Iterator<Item = &'b str>;
pub type Re = Result<(), EK>;

pub trait Subject {
    fn reset(&mut self);
    fn size_align(&self) -> (usize, usize);
    /// Exchanges the string and the spare string.
    fn swap_alt(&mut self);
    fn copy_to_alt(&mut self, clone: bool);
    /// Describes a damaged guard zone, then repairs it.
    fn guard(&mut self) -> Option<&'static str>;
    fn addr(&self) -> usize;

    // constructors: replace the string on success
    fn c_new(&mut self, default: bool);
    fn c_str(&mut self, k: Sc, s: &str) -> Re;
    fn c_try_from_str(&mut self, s: Txt) -> Re;
    fn c_from_str_truncate(&mut self, s: Txt);
    fn c_iter(&mut self, trunc: bool, i: ItTxt) -> Re;
    fn c_collect_str(&mut self, i: ItStr);
    fn c_chars(&mut self, k: Ic, i: ItChar) -> Re;
    fn c_utf16(&mut self, k: Uc, s: Wide) -> Re;

    // views
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn capacity(&self) -> usize;
    fn bytes(&self) -> &[u8];
    fn view(&self, k: usize) -> (&'static str, &str);
    fn view_mut(&mut self, k: Mv) -> &mut str;

    // edits
    fn try_push_str(&mut self, s: Txt) -> Re;
    fn push_str_truncate(&mut self, s: Txt);
    fn try_push(&mut self, c: char) -> Re;
    fn truncate(&mut self, n: usize) -> Re;
    fn pop(&mut self) -> Option<char>;
    fn trim(&mut self);
    fn remove(&mut self, i: usize) -> Result<char, EK>;
    fn retain(&mut self, f: &mut dyn FnMut(char) -> bool);
    fn try_insert(&mut self, i: usize, c: char) -> Re;
    fn try_insert_str(&mut self, i: usize, s: Txt) -> Re;
    fn insert_str_truncate(&mut self, i: usize, s: Txt) -> Re;
    /// The tail goes to the spare string.
    fn split_off(&mut self, i: usize) -> Re;
    fn clear(&mut self);
    /// The iterator goes to the drain slot.
    fn drain(&mut self, r: R) -> Re;
    fn replace_range(&mut self, r: R, s: Txt) -> Re;
    fn add(&mut self, s: &str);
    fn ext_chars(&mut self, i: ItChar);
    fn ext_refs(&mut self, i: ItCharRef);
    fn ext_strs(&mut self, i: ItStr);
    fn write_str(&mut self, s: &str) -> Re;
    fn write_char(&mut self, c: char) -> Re;
    fn write_fmt(&mut self, a: fmt::Arguments) -> Re;

    // queries
    fn index(&self, k: Rk, a: u8, b: u8) -> &str;
    fn index_mut(&mut self, k: Rk, a: u8, b: u8) -> &mut str;
    fn display(&self) -> &dyn Display;
    fn debug(&self) -> &dyn Debug;
    fn hash(&self, h: &mut dyn Hasher);
    /// Comparison with the spare string: ==, !=, <, <=, >, >=
    fn rel_alt(&self) -> [bool; 6];
    fn cmp_alt(&self) -> (Ordering, Option<Ordering>);
    /// Which of the two `max` and `min` choose: bytes of the results.
    fn max_min_alt(&self) -> (Vec<u8>, Vec<u8>);
    /// the string clamped to alt..=alt, and alt clamped to what lies between the string and itself
    fn clamp_alt(&self) -> (Vec<u8>, Vec<u8>);
    /// the string and alt hashed as a slice
    fn hash_both(&self, h: &mut dyn Hasher);
    /// ==, != with str, then with &str
    fn rel_str(&self, s: &str) -> [bool; 4];
    /// Puts the string and strings built from `others` into maps and looks them up as plain strs; what is not as with String keys.
    fn maps(&self, others: &[String], asked: &[String]) -> Vec<String>;

    // the drain slot and its copy
    fn dr_next(&mut self, back: bool) -> Option<char>;
    fn dr_nth(&mut self, back: bool, n: usize) -> Option<char>;
    fn dr_str(&self) -> &str;
    fn dr_hint(&self) -> (usize, Option<usize>);
    fn dr_debug(&self) -> &dyn Debug;
    /// Copies the iterator to the second slot, `None` stores a default one.
    fn dr_copy(&mut self, clone: Option<bool>);
    fn dr_swap(&mut self);
    fn dr_count(&mut self) -> usize;
    fn dr_last(&mut self) -> Option<char>;
    fn dr_collect(&mut self, rev: bool) -> String;
    fn dr_find(&mut self, back: bool, k: usize) -> Option<char>;
    fn dr_any(&mut self, k: usize) -> bool;
    fn dr_fold(&mut self, how: De) -> Vec<char>;
    fn dr_max(&mut self) -> Option<char>;
    fn dr_rel(&self) -> ([bool; 6], Ordering, Option<Ordering>);
    fn dr_hash(&self, h: &mut dyn Hasher);
}

/// The inherent methods, made nameable for every capacity (the crate seals the bound).
pub trait Api: Sized {
    type Dr: DoubleEndedIterator<Item = char> + Copy + Clone + Debug + Eq + Ord + Hash + Default;
    fn new_() -> Self;
    fn capacity_() -> usize;
    fn try_from_str_(s: Txt) -> Result<Self, OutOfBounds>;
    fn from_str_truncate_(s: Txt) -> Self;
    fn try_from_iterator_(i: ItTxt) -> Result<Self, OutOfBounds>;
    fn from_iterator_truncate_(i: ItTxt) -> Self;
    fn try_from_chars_(i: ItChar) -> Result<Self, OutOfBounds>;
    fn from_chars_truncate_(i: ItChar) -> Self;
    fn try_from_utf16_(s: Wide) -> Result<Self, Error>;
    fn from_utf16_truncate_(s: Wide) -> Result<Self, Utf16>;
    fn from_utf16_lossy_truncate_(s: Wide) -> Self;
    fn as_str_(&self) -> &str;
    fn as_mut_str_(&mut self) -> &mut str;
    fn deref_(&self) -> &str;
    fn deref_mut_(&mut self) -> &mut str;
    fn len_(&self) -> usize;
    fn is_empty_(&self) -> bool;
    fn try_push_str_(&mut self, s: Txt) -> Result<(), OutOfBounds>;
    fn push_str_truncate_(&mut self, s: Txt);
    fn try_push_(&mut self, c: char) -> Result<(), OutOfBounds>;
    fn truncate_(&mut self, n: usize) -> Result<(), Utf8>;
    fn pop_(&mut self) -> Option<char>;
    fn trim_(&mut self);
    fn remove_(&mut self, i: usize) -> Result<char, Error>;
    fn retain_(&mut self, f: &mut dyn FnMut(char) -> bool);
    fn try_insert_(&mut self, i: usize, c: char) -> Result<(), Error>;
    fn try_insert_str_(&mut self, i: usize, s: Txt) -> Result<(), Error>;
    fn insert_str_truncate_(&mut self, i: usize, s: Txt) -> Result<(), Error>;
    fn split_off_(&mut self, i: usize) -> Result<Self, Error>;
    fn clear_(&mut self);
    fn drain_(&mut self, r: R) -> Result<Self::Dr, Error>;
    fn replace_range_(&mut self, r: R, s: Txt) -> Result<(), Error>;
    fn dr_as_str(d: &Self::Dr) -> &str;
}

#[macro_export]
macro_rules! forward {
    ($($t:ty, $n:literal, |$s:ident| $d:expr, |$sm:ident| $dm:expr;)*) => { $(
        impl Api for $t {
            type Dr = Drain<$n>;
            fn new_() -> Self { <$t>::new() }
            fn capacity_() -> usize { <$t>::capacity() }
            fn try_from_str_(s: Txt) -> Result<Self, OutOfBounds> { <$t>::try_from_str(s) }
            fn from_str_truncate_(s: Txt) -> Self { <$t>::from_str_truncate(s) }
            fn try_from_iterator_(i: ItTxt) -> Result<Self, OutOfBounds> { <$t>::try_from_iterator(i) }
            fn from_iterator_truncate_(i: ItTxt) -> Self { <$t>::from_iterator_truncate(i) }
            fn try_from_chars_(i: ItChar) -> Result<Self, OutOfBounds> { <$t>::try_from_chars(i) }
            fn from_chars_truncate_(i: ItChar) -> Self { <$t>::from_chars_truncate(i) }
            fn try_from_utf16_(s: Wide) -> Result<Self, Error> { <$t>::try_from_utf16(s) }
            fn from_utf16_truncate_(s: Wide) -> Result<Self, Utf16> { <$t>::from_utf16_truncate(s) }
            fn from_utf16_lossy_truncate_(s: Wide) -> Self { <$t>::from_utf16_lossy_truncate(s) }
            fn as_str_(&self) -> &str { self.as_str() }
            fn as_mut_str_(&mut self) -> &mut str { self.as_mut_str() }
            fn deref_(&self) -> &str { let $s = self; $d }
            fn deref_mut_(&mut self) -> &mut str { let $sm = self; $dm }
            fn len_(&self) -> usize { self.len() }
            fn is_empty_(&self) -> bool { self.is_empty() }
            fn try_push_str_(&mut self, s: Txt) -> Result<(), OutOfBounds> { self.try_push_str(s) }
            fn push_str_truncate_(&mut self, s: Txt) { self.push_str_truncate(s) }
            fn try_push_(&mut self, c: char) -> Result<(), OutOfBounds> { self.try_push(c) }
            fn truncate_(&mut self, n: usize) -> Result<(), Utf8> { self.truncate(n) }
            fn pop_(&mut self) -> Option<char> { self.pop() }
            fn trim_(&mut self) { self.trim() }
            fn remove_(&mut self, i: usize) -> Result<char, Error> { self.remove(i) }
            fn retain_(&mut self, f: &mut dyn FnMut(char) -> bool) { self.retain(f) }
            fn try_insert_(&mut self, i: usize, c: char) -> Result<(), Error> { self.try_insert(i, c) }
            fn try_insert_str_(&mut self, i: usize, s: Txt) -> Result<(), Error> { self.try_insert_str(i, s) }
            fn insert_str_truncate_(&mut self, i: usize, s: Txt) -> Result<(), Error> { self.insert_str_truncate(i, s) }
            fn split_off_(&mut self, i: usize) -> Result<Self, Error> { self.split_off(i) }
            fn clear_(&mut self) { self.clear() }
            fn drain_(&mut self, r: R) -> Result<Self::Dr, Error> { self.drain(r) }
            fn replace_range_(&mut self, r: R, s: Txt) -> Result<(), Error> { self.replace_range(r, s) }
            fn dr_as_str(d: &Self::Dr) -> &str { d.as_str() }
        }
    )* };
}
macro_rules! caps {
    ($($n:literal)*) => {
        forward! { $( ArrayString<$n>, $n, |s| &**s, |s| &mut **s; )* }
        fn make_array(n: u8) -> Option<Box<dyn Subject>> {
            Some(match n {
                $( $n => Box::new(Guarded::<ArrayString<$n>>::new()), )*
                #[allow(unreachable_patterns)]
                _ => return None,
            })
        }
        /// The capacities this build can run.
        pub const CAPS: &[u8] = &[$($n),*];
    };
}
forward! { CacheString, 63, |s| { let a: &ArrayString<63> = &**s; a }, |s| { let a: &mut ArrayString<63> = &mut **s; a }; }
// the interpreter takes a while to start for each type, and coverage counts each type's code anew
#[cfg(any(miri, fuzzing))]
caps! { 1 2 3 4 5 6 7 8 9 16 63 255 }
#[cfg(not(any(feature = "allcaps", miri, fuzzing)))]
include!("caps.rs");
#[cfg(all(feature = "allcaps", not(any(miri, fuzzing))))]
include!("caps_all.rs");
/// A fresh, empty subject of the given type.
pub fn make(cap: Cap) -> Box<dyn Subject> {
    match cap {
        Cap::A(n) => make_array(n).expect("capacity not built into this harness"),
        Cap::Cache => Box::new(Guarded::<CacheString>::new()),
    }
}

// Under a memory checker the value is an allocation of its own, so that one byte too far is seen.
#[cfg(any(miri, exact))]
const ZONE: (usize, usize) = (0, 0);
#[cfg(not(any(miri, exact)))]
const ZONE: (usize, usize) = (128, 512);
#[repr(C)]
struct Zoned<T> {
    pre: [u8; ZONE.0],
    v: T,
    post: [u8; ZONE.1],
}
impl<T> Zoned<T> {
    fn new(v: T) -> Box<Self> {
        Box::new(Zoned { pre: [0xA5; ZONE.0], v, post: [0x5A; ZONE.1] })
    }
    fn bad(&mut self) -> Option<&'static str> {
        let (a, b) = (self.pre.iter().any(|&b| b != 0xA5), self.post.iter().any(|&b| b != 0x5A));
        if a || b {
            self.pre = [0xA5; ZONE.0];
            self.post = [0x5A; ZONE.1];
            return Some(if a { "bytes before the value were overwritten" } else { "bytes after the value were overwritten" });
        }
        None
    }
}
pub struct Guarded<S: Api> {
    s: Box<Zoned<S>>,
    alt: Box<Zoned<S>>,
    dr: Box<Zoned<S::Dr>>,
    dr2: Box<Zoned<S::Dr>>,
}
impl<S: Api> Guarded<S> {
    fn new() -> Self {
        Guarded {
            s: Zoned::new(S::new_()),
            alt: Zoned::new(S::new_()),
            dr: Zoned::new(S::Dr::default()),
            dr2: Zoned::new(S::Dr::default()),
        }
    }
}
fn ek(e: Error) -> EK {
    match e {
        Error::Utf8 => EK::Utf8,
        Error::Utf16 => EK::Utf16,
        Error::OutOfBounds => EK::Oob,
    }
}
fn oob(_: OutOfBounds) -> EK {
    EK::Oob
}
fn fm(_: fmt::Error) -> EK {
    EK::Fmt
}

/// What the generic code needs besides the inherent methods.
pub trait Traits:
    Api
    + Copy
    + Clone
    + Default
    + Debug
    + Display
    + Eq
    + Ord
    + Hash
    + AsRef<str>
    + AsMut<str>
    + AsRef<[u8]>
    + Borrow<str>
    + BorrowMut<str>
    + PartialEq<str>
    + for<'a> PartialEq<&'a str>
    + for<'a> From<&'a str>
    + for<'a> Add<&'a str, Output = Self>
    + FromStr<Err = OutOfBounds>
    + Write
    + FromIterator<char>
    + for<'a> FromIterator<&'a str>
    + Extend<char>
    + for<'a> Extend<&'a char>
    + for<'a> Extend<&'a str>
    + Index<RangeFull, Output = str>
    + Index<RangeFrom<u8>, Output = str>
    + Index<RangeTo<u8>, Output = str>
    + Index<RangeToInclusive<u8>, Output = str>
    + Index<Range<u8>, Output = str>
    + Index<RangeInclusive<u8>, Output = str>
    + IndexMut<RangeFull>
    + IndexMut<RangeFrom<u8>>
    + IndexMut<RangeTo<u8>>
    + IndexMut<RangeToInclusive<u8>>
    + IndexMut<Range<u8>>
    + IndexMut<RangeInclusive<u8>>
{
}
impl<S> Traits for S where
    S: Api
        + Copy
        + Clone
        + Default
        + Debug
        + Display
        + Eq
        + Ord
        + Hash
        + AsRef<str>
        + AsMut<str>
        + AsRef<[u8]>
        + Borrow<str>
        + BorrowMut<str>
        + PartialEq<str>
        + for<'a> PartialEq<&'a str>
        + for<'a> From<&'a str>
        + for<'a> Add<&'a str, Output = Self>
        + FromStr<Err = OutOfBounds>
        + Write
        + FromIterator<char>
        + for<'a> FromIterator<&'a str>
        + Extend<char>
        + for<'a> Extend<&'a char>
        + for<'a> Extend<&'a str>
        + Index<RangeFull, Output = str>
        + Index<RangeFrom<u8>, Output = str>
        + Index<RangeTo<u8>, Output = str>
        + Index<RangeToInclusive<u8>, Output = str>
        + Index<Range<u8>, Output = str>
        + Index<RangeInclusive<u8>, Output = str>
        + IndexMut<RangeFull>
        + IndexMut<RangeFrom<u8>>
        + IndexMut<RangeTo<u8>>
        + IndexMut<RangeToInclusive<u8>>
        + IndexMut<Range<u8>>
        + IndexMut<RangeInclusive<u8>>
{
}

impl<S: Traits> Guarded<S> {
    fn set<E>(&mut self, r: Result<S, E>, f: fn(E) -> EK) -> Re {
        match r {
            Ok(n) => {
                self.s.v = n;
                Ok(())
            }
            Err(e) => Err(f(e)),
        }
    }
}
pub const VIEWS: usize = 4;
impl<S: Traits> Subject for Guarded<S> {
    fn reset(&mut self) {
        self.s.v = S::new_();
        self.alt.v = S::new_();
        self.dr.v = Default::default();
        self.dr2.v = Default::default();
    }
    fn size_align(&self) -> (usize, usize) {
        (std::mem::size_of::<S>(), std::mem::align_of::<S>())
    }
    fn swap_alt(&mut self) {
        std::mem::swap(&mut self.s, &mut self.alt)
    }
    fn copy_to_alt(&mut self, clone: bool) {
        if clone {
            let by_clone = Clone::clone(&self.s.v);
            // onto whatever text is there
            self.alt.v.clone_from(&self.s.v);
            if AsRef::<[u8]>::as_ref(&self.alt.v) != AsRef::<[u8]>::as_ref(&self.s.v) {
                return; // the caller looks at it
            }
            self.alt.v = by_clone
        } else {
            self.alt.v = self.s.v
        }
    }
    fn guard(&mut self) -> Option<&'static str> {
        let a = [self.s.bad(), self.alt.bad(), self.dr.bad(), self.dr2.bad()];
        a.into_iter().flatten().next()
    }
    fn addr(&self) -> usize {
        &self.s.v as *const S as usize
    }

    fn c_new(&mut self, default: bool) {
        self.s.v = if default { S::default() } else { S::new_() }
    }
    fn c_str(&mut self, k: Sc, s: &str) -> Re {
        match k {
            Sc::TryFromStr => self.c_try_from_str(&BusyStr(s)),
            Sc::FromStr => self.set(<S as FromStr>::from_str(s), oob),
            Sc::FromStrTrunc => {
                self.c_from_str_truncate(&BusyStr(s));
                Ok(())
            }
            Sc::FromRef => {
                self.s.v = S::from(s);
                Ok(())
            }
        }
    }
    fn c_try_from_str(&mut self, s: Txt) -> Re {
        self.set(S::try_from_str_(s), oob)
    }
    fn c_from_str_truncate(&mut self, s: Txt) {
        self.s.v = S::from_str_truncate_(s)
    }
    fn c_iter(&mut self, trunc: bool, i: ItTxt) -> Re {
        if trunc {
            self.s.v = S::from_iterator_truncate_(i);
            Ok(())
        } else {
            self.set(S::try_from_iterator_(i), oob)
        }
    }
    fn c_collect_str(&mut self, i: ItStr) {
        self.s.v = i.collect()
    }
    fn c_chars(&mut self, k: Ic, i: ItChar) -> Re {
        match k {
            Ic::TryIter => self.set(S::try_from_chars_(i), oob),
            Ic::IterTrunc => {
                self.s.v = S::from_chars_truncate_(i);
                Ok(())
            }
            Ic::FromIter => {
                self.s.v = i.collect();
                Ok(())
            }
        }
    }
    fn c_utf16(&mut self, k: Uc, s: Wide) -> Re {
        match k {
            Uc::Try => self.set(S::try_from_utf16_(s), ek),
            Uc::Trunc => self.set(S::from_utf16_truncate_(s), |_| EK::Utf16),
            Uc::Lossy => {
                self.s.v = S::from_utf16_lossy_truncate_(s);
                Ok(())
            }
        }
    }

    fn len(&self) -> usize {
        self.s.v.len_()
    }
    fn is_empty(&self) -> bool {
        self.s.v.is_empty_()
    }
    fn capacity(&self) -> usize {
        S::capacity_()
    }
    fn bytes(&self) -> &[u8] {
        self.s.v.as_ref()
    }
    fn view(&self, k: usize) -> (&'static str, &str) {
        let s = &self.s.v;
        match k {
            0 => ("as_str", s.as_str_()),
            1 => ("AsRef<str>", AsRef::<str>::as_ref(s)),
            2 => ("Deref", s.deref_()),
            _ => ("Borrow<str>", Borrow::<str>::borrow(s)),
        }
    }
    fn view_mut(&mut self, k: Mv) -> &mut str {
        let s = &mut self.s.v;
        match k {
            Mv::AsMutStr => s.as_mut_str_(),
            Mv::AsMut => AsMut::<str>::as_mut(s),
            Mv::Deref => s.deref_mut_(),
            Mv::Borrow => BorrowMut::<str>::borrow_mut(s),
            Mv::Index => &mut s[..],
        }
    }

    fn try_push_str(&mut self, s: Txt) -> Re {
        self.s.v.try_push_str_(s).map_err(oob)
    }
    fn push_str_truncate(&mut self, s: Txt) {
        self.s.v.push_str_truncate_(s)
    }
    fn try_push(&mut self, c: char) -> Re {
        self.s.v.try_push_(c).map_err(oob)
    }
    fn truncate(&mut self, n: usize) -> Re {
        self.s.v.truncate_(n).map_err(|_: Utf8| EK::Utf8)
    }
    fn pop(&mut self) -> Option<char> {
        self.s.v.pop_()
    }
    fn trim(&mut self) {
        self.s.v.trim_()
    }
    fn remove(&mut self, i: usize) -> Result<char, EK> {
        self.s.v.remove_(i).map_err(ek)
    }
    fn retain(&mut self, f: &mut dyn FnMut(char) -> bool) {
        self.s.v.retain_(f)
    }
    fn try_insert(&mut self, i: usize, c: char) -> Re {
        self.s.v.try_insert_(i, c).map_err(ek)
    }
    fn try_insert_str(&mut self, i: usize, s: Txt) -> Re {
        self.s.v.try_insert_str_(i, s).map_err(ek)
    }
    fn insert_str_truncate(&mut self, i: usize, s: Txt) -> Re {
        self.s.v.insert_str_truncate_(i, s).map_err(ek)
    }
    fn split_off(&mut self, i: usize) -> Re {
        self.alt.v = self.s.v.split_off_(i).map_err(ek)?;
        Ok(())
    }
    fn clear(&mut self) {
        self.s.v.clear_()
    }
    fn drain(&mut self, r: R) -> Re {
        self.dr.v = self.s.v.drain_(r).map_err(ek)?;
        Ok(())
    }
    fn replace_range(&mut self, r: R, s: Txt) -> Re {
        self.s.v.replace_range_(r, s).map_err(ek)
    }
    fn add(&mut self, s: &str) {
        let n = self.s.v + s;
        self.s.v = n
    }
    fn ext_chars(&mut self, i: ItChar) {
        self.s.v.extend(i)
    }
    fn ext_refs(&mut self, i: ItCharRef) {
        self.s.v.extend(i)
    }
    fn ext_strs(&mut self, i: ItStr) {
        self.s.v.extend(i)
    }
    fn write_str(&mut self, s: &str) -> Re {
        self.s.v.write_str(s).map_err(fm)
    }
    fn write_char(&mut self, c: char) -> Re {
        self.s.v.write_char(c).map_err(fm)
    }
    fn write_fmt(&mut self, a: fmt::Arguments) -> Re {
        self.s.v.write_fmt(a).map_err(fm)
    }

    fn index(&self, k: Rk, a: u8, b: u8) -> &str {
        let s = &self.s.v;
        match fresh(k, a, b) {
            Rk::Full => &s[..],
            Rk::From => &s[a..],
            Rk::To => &s[..b],
            Rk::ToInc => &s[..=b],
            Rk::Range => &s[a..b],
            Rk::Inc => &s[a..=b],
            Rk::Spent | Rk::SpentBack => &s[spent(a, b, k == Rk::SpentBack)],
        }
    }
    fn index_mut(&mut self, k: Rk, a: u8, b: u8) -> &mut str {
        let s = &mut self.s.v;
        match fresh(k, a, b) {
            Rk::Full => &mut s[..],
            Rk::From => &mut s[a..],
            Rk::To => &mut s[..b],
            Rk::ToInc => &mut s[..=b],
            Rk::Range => &mut s[a..b],
            Rk::Inc => &mut s[a..=b],
            Rk::Spent | Rk::SpentBack => &mut s[spent(a, b, k == Rk::SpentBack)],
        }
    }
    fn display(&self) -> &dyn Display {
        &self.s.v
    }
    fn debug(&self) -> &dyn Debug {
        &self.s.v
    }
    fn hash(&self, h: &mut dyn Hasher) {
        let mut h = h;
        self.s.v.hash(&mut h)
    }
    fn rel_alt(&self) -> [bool; 6] {
        let (a, b) = (&self.s.v, &self.alt.v);
        [a == b, a != b, a < b, a <= b, a > b, a >= b]
    }
    fn cmp_alt(&self) -> (Ordering, Option<Ordering>) {
        (self.s.v.cmp(&self.alt.v), self.s.v.partial_cmp(&self.alt.v))
    }
    fn max_min_alt(&self) -> (Vec<u8>, Vec<u8>) {
        let (a, b) = (self.s.v, self.alt.v);
        let v = |x: S| AsRef::<[u8]>::as_ref(&x).to_vec();
        (v(Ord::max(a, b)), v(Ord::min(a, b)))
    }
    fn clamp_alt(&self) -> (Vec<u8>, Vec<u8>) {
        let (a, b) = (self.s.v, self.alt.v);
        let v = |x: S| AsRef::<[u8]>::as_ref(&x).to_vec();
        let ordered = AsRef::<[u8]>::as_ref(&a) <= AsRef::<[u8]>::as_ref(&b);
        (v(Ord::clamp(a, b, b)), v(if ordered { Ord::clamp(b, a, a) } else { Ord::clamp(a, b, a) }))
    }
    fn hash_both(&self, h: &mut dyn Hasher) {
        let mut h = h;
        S::hash_slice(&[self.s.v, self.alt.v], &mut h)
    }
    fn rel_str(&self, s: &str) -> [bool; 4] {
        let a = &self.s.v;
        [
            PartialEq::<str>::eq(a, s),
            PartialEq::<str>::ne(a, s),
            PartialEq::<&str>::eq(a, &s),
            PartialEq::<&str>::ne(a, &s),
        ]
    }

    fn maps(&self, others: &[String], asked: &[String]) -> Vec<String> {
        use std::collections::{BTreeMap, HashMap};
        type H = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
        let (mut hm, mut bm): (HashMap<S, usize, H>, BTreeMap<S, usize>) = Default::default();
        let (mut hw, mut bw): (HashMap<String, usize, H>, BTreeMap<String, usize>) = Default::default();
        let keys = std::iter::once(self.s.v).chain(others.iter().map(|o| S::from_str_truncate_(&o)));
        for (i, k) in keys.enumerate() {
            let t = AsRef::<str>::as_ref(&k).to_owned();
            hm.insert(k, i);
            bm.insert(k, i);
            hw.insert(t.clone(), i);
            bw.insert(t, i);
        }
        let mut bad = vec![];
        let text = |k: &S| AsRef::<str>::as_ref(k).to_owned();
        for q in hw.keys().map(|k| k.as_str()).chain(asked.iter().map(|a| a.as_str())) {
            if hm.get(q) != hw.get(q) {
                bad.push(format!("hash map looked up by {:?}: {:?}, with String keys {:?}", q, hm.get(q), hw.get(q)));
            }
            if bm.get(q) != bw.get(q) {
                bad.push(format!("tree map looked up by {:?}: {:?}, with String keys {:?}", q, bm.get(q), bw.get(q)));
            }
            let (a, b): (Vec<_>, Vec<_>) = (bm.range::<str, _>((Bound::Included(q), Bound::Unbounded)).map(|e| text(e.0)).collect(), bw.range::<str, _>((Bound::Included(q), Bound::Unbounded)).map(|e| e.0.clone()).collect());
            if a != b {
                bad.push(format!("tree map from {:?} on: {:?}, with String keys {:?}", q, a, b));
            }
        }
        if hm.len() != hw.len() || bm.len() != bw.len() {
            bad.push(format!("maps of {:?} have {} and {} entries, with String keys {}", hw.keys(), hm.len(), bm.len(), hw.len()));
        }
        bad
    }

    fn dr_next(&mut self, back: bool) -> Option<char> {
        if back {
            self.dr.v.next_back()
        } else {
            self.dr.v.next()
        }
    }
    fn dr_nth(&mut self, back: bool, n: usize) -> Option<char> {
        if back {
            self.dr.v.nth_back(n)
        } else {
            self.dr.v.nth(n)
        }
    }
    fn dr_str(&self) -> &str {
        S::dr_as_str(&self.dr.v)
    }
    fn dr_hint(&self) -> (usize, Option<usize>) {
        self.dr.v.size_hint()
    }
    fn dr_debug(&self) -> &dyn Debug {
        &self.dr.v
    }
    fn dr_copy(&mut self, clone: Option<bool>) {
        self.dr2.v = match clone {
            None => Default::default(),
            Some(true) => self.dr.v.clone(),
            Some(false) => self.dr.v,
        }
    }
    fn dr_swap(&mut self) {
        std::mem::swap(&mut self.dr, &mut self.dr2)
    }
    fn dr_count(&mut self) -> usize {
        self.dr.v.count()
    }
    fn dr_last(&mut self) -> Option<char> {
        self.dr.v.last()
    }
    fn dr_collect(&mut self, rev: bool) -> String {
        if rev {
            self.dr.v.rev().collect()
        } else {
            self.dr.v.collect()
        }
    }
    fn dr_find(&mut self, back: bool, k: usize) -> Option<char> {
        let mut n = 0;
        let mut wanted = |_: &char| {
            n += 1;
            call();
            n > k
        };
        if back {
            self.dr.v.rfind(&mut wanted)
        } else {
            self.dr.v.find(&mut wanted)
        }
    }
    fn dr_any(&mut self, k: usize) -> bool {
        let mut n = 0;
        self.dr.v.any(|_| {
            n += 1;
            call();
            n > k
        })
    }
    fn dr_fold(&mut self, how: De) -> Vec<char> {
        let mut v = vec![];
        match how {
            De::RFold => {
                v = self.dr.v.rfold(v, |mut v, c| {
                    call();
                    v.push(c);
                    v
                })
            }
            De::ForEach => self.dr.v.for_each(|c| {
                call();
                v.push(c)
            }),
            _ => {
                v = self.dr.v.fold(v, |mut v, c| {
                    call();
                    v.push(c);
                    v
                })
            }
        }
        v
    }
    fn dr_max(&mut self) -> Option<char> {
        Iterator::max(self.dr.v)
    }
    fn dr_rel(&self) -> ([bool; 6], Ordering, Option<Ordering>) {
        let (a, b) = (&self.dr.v, &self.dr2.v);
        ([a == b, a != b, a < b, a <= b, a > b, a >= b], a.cmp(b), a.partial_cmp(b))
    }
    fn dr_hash(&self, h: &mut dyn Hasher) {
        let mut h = h;
        self.dr.v.hash(&mut h)
    }
}
