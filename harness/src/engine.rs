//! Runs one case and judges every step; what counts depends on the property being decided.
use crate::busy;
use crate::exec::{apply, snap, soil, Snap};
use crate::gen::{kind, Kd, Profile};
use crate::meter::take_inside;
use crate::model::{drained_ok, expect, fmt_ok, hostile_ok, Exp};
use crate::ops::*;
use crate::subject::{make, Subject};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Facet {
    /// bytes outside the value were written
    Guard,
    /// not UTF-8, or longer than the capacity
    Invalid,
    /// views disagree
    Views,
    /// returned something else
    Value,
    /// left another text
    State,
    /// should have failed
    ErrMissing,
    /// should not have failed
    ErrSpurious,
    ErrKind,
    /// failed and changed the text
    Atomic,
    Panic,
    Alloc,
    /// read an endless source without bound
    Runaway,
    /// wrong text after caller code misbehaved
    Hostile,
    /// a failed operation influenced later ones
    History,
    /// two types that must agree do not
    Differ,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Prop {
    C01,
    C02,
    C03,
    C04,
    C05,
    C06,
    C07,
    C08,
    C09,
    C10,
    C11,
    C12,
    C15,
    C16,
    C18,
    C19,
    C20,
    C22,
    C23,
}
use Facet::*;
use Prop::*;
pub const PROPS: [Prop; 19] = [C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C15, C16, C18, C19, C20, C22, C23];

const EDITS: [Kd; 20] = [
    Kd::TryPushStr, Kd::PushStrTrunc, Kd::TryPush, Kd::Truncate, Kd::Pop, Kd::Trim, Kd::Remove, Kd::Retain, Kd::TryInsert,
    Kd::TryInsertStr, Kd::InsertStrTrunc, Kd::SplitOff, Kd::Clear, Kd::Drain, Kd::Replace, Kd::Add, Kd::ExtChars,
    Kd::ExtCharRefs, Kd::ExtStrs, Kd::WriteStr,
];
const FALLIBLE: [Kd; 11] = [
    Kd::TryPushStr, Kd::TryPush, Kd::Truncate, Kd::Remove, Kd::TryInsert, Kd::TryInsertStr, Kd::InsertStrTrunc, Kd::SplitOff,
    Kd::Drain, Kd::Replace, Kd::WriteStr,
];
const CUTTING: [Kd; 9] = [
    Kd::PushStrTrunc, Kd::InsertStrTrunc, Kd::Add, Kd::ExtChars, Kd::ExtCharRefs, Kd::ExtStrs, Kd::CtorStr, Kd::CtorIter, Kd::CtorChars,
];
const CHECKED: [Kd; 7] = [Kd::CtorStr, Kd::CtorIter, Kd::CtorChars, Kd::TryPushStr, Kd::TryPush, Kd::WriteStr, Kd::WriteChar];

impl Prop {
    pub fn parse(s: &str) -> Option<Prop> {
        PROPS.into_iter().find(|p| format!("{:?}", p) == s)
    }
    /// The operations this property is about.
    pub fn focus(self) -> Vec<Kd> {
        use Kd::*;
        match self {
            C02 => [&EDITS[..], &[WriteChar]].concat(),
            C03 => FALLIBLE.to_vec(),
            C04 => [&FALLIBLE[..], &[WriteChar, CtorStr, CtorIter, CtorChars, CtorU16]].concat(),
            C05 => CUTTING.to_vec(),
            C06 => CHECKED.to_vec(),
            C07 => vec![CtorU16],
            C08 => vec![Drain],
            C09 => vec![Compare],
            C11 => vec![Index, IndexMut],
            C12 => vec![Fmt, WriteStr, WriteChar, WriteFmt],
            C18 => vec![Hostile],
            C20 => vec![Copies, MutView, IndexMut],
            C23 => vec![
                Retain, ExtChars, ExtCharRefs, ExtStrs, CtorIter, CtorChars, CtorStr, CtorU16, PushStrTrunc, TryPushStr, TryInsertStr, InsertStrTrunc, Replace, Drain,
                WriteFmt, Hostile, Fmt, Compare,
                // and a few beyond the callers' for the sake of threads
                SplitOff, Remove, Trim, Truncate,
            ]
            .into_iter()
            .filter(|k| !cfg!(miri) || !matches!(k, Fmt | Compare))
            .collect(),
            C01 | C15 | C16 | C22 => crate::gen::ALL.to_vec(),
            C10 | C19 => crate::gen::ALL.iter().copied().filter(|k| *k != Hostile || self == C10).collect(),
        }
    }
    pub fn profile(self) -> Profile {
        let focus = self.focus();
        let all = crate::gen::ALL;
        let mut mix: Vec<(Kd, u32)> = vec![];
        for k in all {
            let base = match k {
                // heavy steps that seldom matter outside their own property
                Kd::Compare | Kd::Fmt | Kd::Hostile => 0,
                Kd::Clear | Kd::New | Kd::Copies => 1,
                _ => 2,
            };
            let own = if focus.contains(&k) {
                if focus.len() > 15 {
                    6
                } else {
                    // the property's own steps make up about half of a history
                    (60 / focus.len() as u32).max(6)
                }
            } else {
                0
            };
            if base + own > 0 {
                mix.push((k, base + own));
            }
        }
        let mut p = Profile { mix, focus, cache_only: self == C10, caps: crate::subject::CAPS, regress: vec![] };
        if !cfg!(miri) {
            p.regress = crate::regress::for_profile(&p);
        }
        p
    }
    /// Is a deviation of this sort, on this operation, a violation of this property?
    pub fn covers(self, op: &ROp, f: Facet, exp: &Exp, after_hostile: bool) -> bool {
        let k = kind(op);
        let cutting = match op {
            ROp::CtorStr(k, _) => matches!(k, Sc::FromStrTrunc | Sc::FromRef),
            ROp::CtorIter(k, ..) | ROp::CtorChars(k, ..) => *k != Ic::TryIter,
            _ => CUTTING.contains(&k),
        };
        let wrong = matches!(f, Value | State | ErrMissing | ErrSpurious | ErrKind | Panic | Invalid | Runaway | Views | Atomic);
        match self {
            C01 => matches!(f, Invalid | Views),
            C02 => (EDITS.contains(&k) || k == Kd::WriteChar) && !exp.fails && !exp.cut && matches!(f, Value | State | ErrSpurious | Panic | Invalid | Runaway),
            C03 => FALLIBLE.contains(&k) && matches!(f, ErrMissing | ErrSpurious | ErrKind | Panic),
            C04 => matches!(f, Atomic | History) && k != Kd::WriteFmt,
            C05 => cutting && wrong,
            C06 => CHECKED.contains(&k) && !cutting && wrong,
            C07 => k == Kd::CtorU16 && wrong,
            C08 => k == Kd::Drain && wrong,
            C09 => k == Kd::Compare && wrong,
            C10 | C19 | C23 => f == Differ,
            C11 => matches!(k, Kd::Index | Kd::IndexMut) && wrong,
            C12 => matches!(k, Kd::Fmt | Kd::WriteStr | Kd::WriteChar | Kd::WriteFmt) && wrong,
            C15 => f == Panic && !matches!(k, Kd::Index | Kd::IndexMut),
            C16 => f == Alloc,
            C18 => (k == Kd::Hostile && (wrong || f == Hostile || f == Guard)) || (after_hostile && matches!(f, Invalid | Views | Guard | Panic)),
            C20 => matches!(k, Kd::Copies | Kd::MutView | Kd::IndexMut) && wrong,
            C22 => f == Guard,
        }
    }
    /// Does this step exercise the property rather than pass it by? (The evidence's `rule`.)
    pub fn nontrivial(self, op: &ROp, before: &str, exp: &Exp, out: &Out, after: &[u8], cap: usize) -> bool {
        let k = kind(op);
        let changed = before.as_bytes() != after;
        match self {
            C01 => changed && (!after.is_ascii() || after.len() == cap),
            C02 => self.focus_has(k) && !exp.fails && !exp.cut && changed,
            C03 => self.focus_has(k) && exp.fails,
            C04 => exp.fails && !before.is_empty(),
            C05 => exp.cut,
            C06 => self.focus_has(k) && (exp.fails || (changed && after.len() + 4 >= cap)),
            C07 => match op {
                ROp::CtorU16(_, v) => exp.fails || exp.cut || v.iter().any(|u| (0xd800..0xe000).contains(u)),
                _ => false,
            },
            C08 => k == Kd::Drain && changed && matches!(op, ROp::Drain(_, st, _) if !st.is_empty()),
            C09 => matches!(op, ROp::Compare(v, _) if v.iter().any(|x| !x.is_empty())),
            C10 | C19 | C23 => changed || exp.fails || matches!(out, Out::Err(_)),
            C11 => matches!(out, Out::Slice(_, v) if !v.is_empty() && v.len() < before.len()) || matches!(out, Out::Panic(_)),
            C12 => match op {
                ROp::Fmt(_) => !before.is_empty(),
                ROp::WriteStr(_) | ROp::WriteChar(_) | ROp::WriteFmt(_) => changed || exp.fails,
                _ => false,
            },
            C15 => exp.fails || exp.cut,
            C16 => !before.is_empty(),
            C18 => matches!(out, Out::Hostile { injected_panic: true }) || (matches!(out, Out::Hostile { .. }) && changed),
            C20 => matches!(k, Kd::Copies | Kd::MutView | Kd::IndexMut) && !before.is_empty(),
            C22 => changed || exp.fails,
        }
    }
    fn focus_has(self, k: Kd) -> bool {
        match self {
            C02 => EDITS.contains(&k) || k == Kd::WriteChar,
            C03 => FALLIBLE.contains(&k),
            C06 => CHECKED.contains(&k),
            _ => true,
        }
    }
    pub fn rule(self) -> &'static str {
        match self {
            C01 => "a step changes the text and leaves it non-ASCII or exactly full",
            C02 => "an edit that String accepts and that fits changes the text",
            C03 => "an edit violates a documented precondition, so that an error is due",
            C04 => "an operation on a non-empty string fails",
            C05 => "a truncating operation really cuts the supplied text",
            C06 => "a checked constructor or append fails, or leaves at most 4 bytes free",
            C07 => "the units contain surrogates, are cut, or are rejected",
            C08 => "a non-empty range is drained and the iterator is used step by step",
            C09 => "the string is compared with strings built from at least one non-empty text",
            C10 => "a step changes the text or fails, on both types",
            C11 => "the range selects a proper, non-empty part, or must panic",
            C12 => "non-empty text is formatted, or a formatted write changes the text or fails",
            C15 => "a step's arguments violate a precondition or do not fit",
            C16 => "a step runs on a non-empty string",
            C18 => "the caller code panics inside the operation, or its changing answers change the text",
            C19 => "a step changes the text or fails",
            C20 => "a non-empty string is copied and one copy edited, or is changed through a mutable view",
            C23 => "a step on one string runs inside the caller code of an operation on another, and changes its text",
            C22 => "a step moves bytes, or is refused because of its arguments",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub facet: Facet,
    pub step: usize,
    pub detail: String,
}
#[derive(Default, Clone, Debug)]
pub struct Report {
    pub finding: Option<Finding>,
    pub steps: u32,
    pub nontrivial: u32,
    pub failed_ops: u32,
    pub cut_ops: u32,
    pub full_states: u32,
    pub wide_states: u32,
    /// deviations that belong to other properties
    pub foreign: u32,
    /// identifies the resolved case
    pub key: u64,
    /// identifies everything observed
    pub digest: u64,
    pub trace: Vec<String>,
}
#[derive(Default)]
pub struct Pool(HashMap<Cap, (Box<dyn Subject>, usize)>);
impl Pool {
    fn take(&mut self, cap: Cap) -> (Box<dyn Subject>, usize) {
        let (mut s, z) = self.0.remove(&cap).unwrap_or_else(|| {
            let s = make(cap);
            let z = s.capacity();
            (s, z)
        });
        s.reset();
        (s, z)
    }
    fn give(&mut self, cap: Cap, s: Box<dyn Subject>, z: usize) {
        self.0.insert(cap, (s, z));
    }
}
fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => format!("{:?}", s),
        Err(_) => format!("{:02x?}", b),
    }
}

/// Every way in which a step deviates from its expectation.
fn judge(op: &ROp, before: &str, exp: &Exp, out: &Out, sn: &Snap, allocs: u64) -> Vec<(Facet, String)> {
    let mut v: Vec<(Facet, String)> = vec![];
    if let Some(g) = sn.guard {
        v.push((Guard, g.to_owned()));
    }
    if let Some(e) = &sn.invalid {
        v.push((Invalid, e.clone()));
    }
    if let Some(e) = &sn.views {
        v.push((Views, e.clone()));
    }
    if allocs > 0 {
        v.push((Alloc, format!("{} heap calls were made inside the operation", allocs)));
    }
    let unexpected_panic = matches!(out, Out::Panic(_)) && !exp.outs.contains(out);
    let state_differs = sn.bytes != exp.text.as_bytes();
    match out {
        Out::Panic(p) if unexpected_panic => v.push((Panic, format!("panicked: {}", p))),
        Out::Runaway => v.push((Runaway, "kept reading a source that never ends".into())),
        Out::BadStr(e) => {
            v.push((Invalid, format!("returned string: {}", e)));
            v.push((Value, format!("returned string: {}", e)));
        }
        _ => match op {
            ROp::Hostile(..) => {
                if let Err(e) = hostile_ok(op, before, out, &String::from_utf8_lossy(&sn.bytes)) {
                    v.push((Hostile, e));
                }
                return v;
            }
            ROp::Fmt(_) => {
                if let Err(e) = fmt_ok(before, out) {
                    v.push((Value, e));
                }
            }
            _ if exp.fails => match out {
                Out::Err(_) if exp.outs.contains(out) => {}
                Out::Err(_) => v.push((ErrKind, format!("reported {:?}, expected {:?}", out, exp.outs))),
                _ => v.push((ErrMissing, format!("succeeded with {:?}, expected {:?}", out, exp.outs))),
            },
            _ => match (out, exp.outs.first()) {
                (Out::Drained(g), Some(Out::Drained(w))) if drained_ok(g, w) => {}
                (o, Some(w)) if o == w => {}
                (Out::Err(_), w) => v.push((ErrSpurious, format!("reported {:?}, expected {:?}", out, w))),
                (o, w) => v.push((Value, format!("gave {:?}, expected {:?}", o, w))),
            },
        },
    }
    if state_differs && !matches!(op, ROp::Hostile(..)) {
        let d = format!("left {}, expected {:?}", show(&sn.bytes), exp.text);
        // a failing piecewise write legitimately keeps its earlier pieces
        if matches!(out, Out::Err(_)) && sn.bytes != before.as_bytes() && !matches!(op, ROp::WriteFmt(_)) {
            v.push((Atomic, format!("reported {:?} but changed {:?} to {}", out, before, show(&sn.bytes))));
        }
        v.push((State, d));
    }
    v
}

pub struct Opts {
    pub prop: Prop,
    pub trace: bool,
    /// announce every step on stderr before it runs (the process may not survive it)
    pub watch: bool,
}
impl Opts {
    fn announce(&self, step: usize, op: &ROp, before: &str, exp: &Exp, cap: usize, after_hostile: bool) {
        if self.watch {
            // dying is at least panicking, and is never within bounds
            let p = self.prop;
            let counts = p.covers(op, Panic, exp, after_hostile) || matches!(p, C01 | C10 | C15 | C19 | C22) || (p == C04 && exp.fails);
            eprintln!("STEP {} {} {:?} on {:?} (capacity {})", step, counts as u8, op, before, cap);
        }
    }
}

/// Runs the operations on one subject against the model.
pub fn run(pool: &mut Pool, case: &Case, o: &Opts) -> Report {
    busy::mode(busy::Mode::Work);
    let judged = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match o.prop {
        C10 => lockstep(pool, case, o),
        C23 => together(pool, case, o),
        _ => modelled(pool, case, o),
    }));
    judged.unwrap_or_else(|_| {
        // only a string broken beyond reading (text that is not UTF-8 handed out as str) gets here: an outcome of
        // its own for comparing builds, and left to the properties that say what must be readable
        *pool = Pool::default();
        let _ = take_inside();
        Report { steps: 1, foreign: 1, key: h64(&format!("{:?}", case)), digest: h64(&"unreadable"), ..Report::default() }
    })
}

/// Runs the operations without a model, for interpreters that watch the memory themselves: every step runs, every
/// view is read at the end, and a text that is no longer valid ends the case.
pub fn run_unjudged(pool: &mut Pool, case: &Case, o: &Opts) -> Report {
    let cap = case.cap.bytes();
    let (mut s, z) = pool.take(case.cap);
    let mut r = Report::default();
    if case.dirty {
        prepare(&mut *s, case);
    }
    let mut text = String::new();
    for step in 0..=case.ops.len() {
        let op = if step == 0 { first_op(case, cap) } else { case.ops[step - 1].resolve(&text, cap) };
        if o.watch {
            eprintln!("STEP {} 1 {:?} on {:?} (capacity {})", step, op, text, cap);
        }
        // formatting and comparing long texts costs an interpreter much and shows it little
        if text.len() > 24 && matches!(op, ROp::Fmt(_) | ROp::Compare(..)) {
            continue;
        }
        let out = apply(&mut *s, &op);
        r.steps += 1;
        let failed = matches!(out, Out::Err(_) | Out::Panic(_));
        r.failed_ops += failed as u32;
        let b = s.bytes();
        let valid = b.len() <= cap && std::str::from_utf8(b).is_ok();
        r.full_states += (b.len() == cap) as u32;
        r.wide_states += !b.is_ascii() as u32;
        r.nontrivial += (failed || b != text.as_bytes()) as u32;
        if !valid {
            r.foreign += 1;
            pool.give(case.cap, make(case.cap), z);
            return r;
        }
        text = String::from_utf8(s.bytes().to_vec()).unwrap();
    }
    if o.watch {
        eprintln!("STEP {} 1 every view of {:?} (capacity {})", case.ops.len() + 1, text, cap);
    }
    let sn = snap(&mut *s, cap);
    r.foreign += (sn.invalid.is_some() || sn.views.is_some()) as u32;
    pool.give(case.cap, s, z);
    r
}

fn prepare(s: &mut dyn Subject, case: &Case) {
    if case.dirty {
        soil(s);
    }
}
fn first_op(case: &Case, cap: usize) -> ROp {
    ROp::PushStrTrunc(case.init.resolve("", cap))
}

fn modelled(pool: &mut Pool, case: &Case, o: &Opts) -> Report {
    let cap = case.cap.bytes();
    let (mut s, z) = pool.take(case.cap);
    let mut r = Report::default();
    let mut text = String::new();
    let mut rops: Vec<(ROp, Out, bool)> = vec![];
    let mut key = DefaultHasher::new();
    let mut dig = DefaultHasher::new();
    (case.cap, case.dirty).hash(&mut key);
    (case.cap, case.dirty).hash(&mut dig);
    let mut after_hostile = false;
    let mut usable = z == cap;
    if !usable {
        r.finding = Some(Finding { facet: Views, step: 0, detail: format!("capacity() is {} for a string of capacity {}", z, cap) });
        let op = ROp::Clear();
        if !o.prop.covers(&op, Views, &expect(&op, "", cap), false) {
            r.finding = None;
        }
    } else {
        prepare(&mut *s, case);
        let _ = take_inside();
    }
    let mut step = 0;
    while usable && step <= case.ops.len() {
        let op = if step == 0 { first_op(case, cap) } else { case.ops[step - 1].resolve(&text, cap) };
        op.hash(&mut key);
        let exp = expect(&op, &text, cap);
        o.announce(step, &op, &text, &exp, cap, after_hostile || matches!(op, ROp::Hostile(..)));
        let out = apply(&mut *s, &op);
        let allocs = take_inside();
        let sn = snap(&mut *s, cap);
        let _ = take_inside();
        r.steps += 1;
        r.failed_ops += exp.fails as u32;
        r.cut_ops += exp.cut as u32;
        r.full_states += (sn.len == cap) as u32;
        r.wide_states += !sn.bytes.is_ascii() as u32;
        if !matches!(op, ROp::Hostile(..)) {
            match &out {
                Out::Panic(_) => "panic".hash(&mut dig),
                x => x.hash(&mut dig),
            }
            sn.bytes.hash(&mut dig);
            sn.len.hash(&mut dig);
        }
        if o.trace {
            r.trace.push(format!("{}: {:?} . {:?} => {:?}, text {}", step, text, op, out, show(&sn.bytes)));
        }
        if o.prop.nontrivial(&op, &text, &exp, &out, &sn.bytes, cap) {
            r.nontrivial += 1;
        }
        let dev = judge(&op, &text, &exp, &out, &sn, allocs);
        if matches!(op, ROp::Hostile(..)) {
            after_hostile = true;
        }
        if let Some((f, d)) = dev.iter().find(|(f, _)| o.prop.covers(&op, *f, &exp, after_hostile)) {
            r.finding = Some(Finding { facet: *f, step, detail: format!("{:?} on {:?} (capacity {}): {}", op, text, cap, d) });
            break;
        }
        r.foreign += dev.len() as u32;
        // go on from what is really there
        if sn.invalid.is_some() || sn.adrift {
            usable = false;
        } else {
            text = String::from_utf8(sn.bytes).unwrap();
        }
        if o.prop == C04 {
            let failed = matches!(out, Out::Err(_)) && !matches!(op, ROp::WriteFmt(_));
            rops.push((op, out, failed));
        }
        step += 1;
    }
    if o.prop == C04 && r.finding.is_none() && usable && rops.iter().any(|x| x.2) {
        r.finding = without_failures(&mut *s, case, cap, &rops, text.as_bytes());
    }
    r.key = key.finish();
    r.digest = dig.finish();
    pool.give(case.cap, s, z);
    r
}

/// The same history without its failed operations must show the same results and end in the same text.
fn without_failures(s: &mut dyn Subject, case: &Case, cap: usize, rops: &[(ROp, Out, bool)], end: &[u8]) -> Option<Finding> {
    s.reset();
    prepare(s, case);
    for (step, (op, out, failed)) in rops.iter().enumerate() {
        if *failed {
            continue;
        }
        let again = apply(s, op);
        if again != *out && !matches!(op, ROp::Hostile(..)) {
            return Some(Finding {
                facet: History,
                step,
                detail: format!("{:?} gave {:?} after failed operations and {:?} without them", op, out, again),
            });
        }
    }
    let sn = snap(s, cap);
    (sn.bytes != end).then(|| Finding {
        facet: History,
        step: rops.len(),
        detail: format!("the history ends in {} with its failed operations and in {} without them", show(end), show(&sn.bytes)),
    })
}

/// The cache-line string and an ordinary string of capacity 63, step by step.
fn lockstep(pool: &mut Pool, case: &Case, o: &Opts) -> Report {
    let (mut a, za) = pool.take(Cap::Cache);
    let (mut b, zb) = pool.take(Cap::A(63));
    let mut r = Report::default();
    let mut key = DefaultHasher::new();
    case.dirty.hash(&mut key);
    let cap = 63;
    if za != zb {
        r.finding = Some(Finding { facet: Differ, step: 0, detail: format!("capacities {} and {}", za, zb) });
    } else {
        prepare(&mut *a, case);
        prepare(&mut *b, case);
        let mut text = String::new();
        for step in 0..=case.ops.len() {
            let op = if step == 0 { first_op(case, cap) } else { case.ops[step - 1].resolve(&text, cap) };
            op.hash(&mut key);
            let exp = expect(&op, &text, cap);
            o.announce(step, &op, &text, &exp, cap, false);
            let (oa, ob) = (apply(&mut *a, &op), apply(&mut *b, &op));
            let (sa, sb) = (snap(&mut *a, cap), snap(&mut *b, cap));
            r.steps += 1;
            r.failed_ops += exp.fails as u32;
            r.cut_ops += exp.cut as u32;
            r.full_states += (sb.len == cap) as u32;
            r.wide_states += !sb.bytes.is_ascii() as u32;
            if o.trace {
                r.trace.push(format!("{}: {:?} . {:?} => cache {:?}, text {}; capacity 63 {:?}, text {}", step, text, op, oa, show(&sa.bytes), ob, show(&sb.bytes)));
            }
            if o.prop.nontrivial(&op, &text, &exp, &ob, &sb.bytes, cap) {
                r.nontrivial += 1;
            }
            let same = match (&oa, &ob) {
                (Out::Panic(_), Out::Panic(_)) => true,
                // the wrapper shows what it wraps, under its own name
                (
                    Out::Fmt { display: d1, debug: g1, fresh_debug: f1, spec: s1, debug_spec: p1, short: x1, .. },
                    Out::Fmt { display: d2, debug: g2, spec: s2, short: x2, .. },
                ) => {
                    d1 == d2 && s1 == s2 && p1.0 == p1.1 && x1.2 == x2.2 && g1 == f1 && (g1.contains(g2.as_str()) || fmt_ok(&text, &oa).is_ok())
                }
                (x, y) => x == y,
            };
            let state = sa.len == sb.len && sa.bytes == sb.bytes && sa.invalid.is_some() == sb.invalid.is_some() && sa.views.is_some() == sb.views.is_some() && sa.guard == sb.guard;
            if !same || !state {
                r.finding = Some(Finding {
                    facet: Differ,
                    step,
                    detail: format!(
                        "{:?} on {:?}: the cache-line string gave {:?} and holds {}{}, the ordinary one gave {:?} and holds {}{}",
                        op, text, oa, show(&sa.bytes), sa.views.map(|v| format!(" ({v})")).unwrap_or_default(),
                        ob, show(&sb.bytes), sb.views.map(|v| format!(" ({v})")).unwrap_or_default()
                    ),
                });
                break;
            }
            if sb.invalid.is_some() || sb.adrift {
                break;
            }
            text = String::from_utf8(sb.bytes).unwrap();
        }
        if r.finding.is_none() {
            if let Some(d) = convert(&text) {
                r.finding = Some(Finding { facet: Differ, step: case.ops.len(), detail: d });
            }
        }
    }
    r.key = key.finish();
    r.digest = h64(&r.key);
    pool.give(Cap::Cache, a, za);
    pool.give(Cap::A(63), b, zb);
    r
}
/// One string and its history, taken a step at a time.
struct Line {
    case: Rc<Case>,
    s: Box<dyn Subject>,
    z: usize,
    text: String,
    /// operation, result, length and text after it
    seen: Vec<(ROp, Out, usize, Vec<u8>)>,
    changes: u32,
    stuck: bool,
    watch: Option<u8>,
}
impl Line {
    fn new(pool: &mut Pool, case: &Rc<Case>, watch: Option<u8>) -> Line {
        let (mut s, z) = pool.take(case.cap);
        prepare(&mut *s, case);
        Line { case: case.clone(), s, z, text: String::new(), seen: vec![], changes: 0, stuck: z != case.cap.bytes(), watch }
    }
    fn done(&self) -> bool {
        self.stuck || self.seen.len() > self.case.ops.len()
    }
    fn step(&mut self) {
        if self.done() {
            return;
        }
        let (cap, step) = (self.case.cap.bytes(), self.seen.len());
        let op = if step == 0 { first_op(&self.case, cap) } else { self.case.ops[step - 1].resolve(&self.text, cap) };
        if let Some(w) = self.watch {
            eprintln!("STEP {} {} {:?} on {:?} (capacity {})", step, w, op, self.text, cap);
        }
        let out = apply(&mut *self.s, &op);
        let sn = snap(&mut *self.s, cap);
        self.seen.push((op, out, sn.len, sn.bytes.clone()));
        if sn.invalid.is_some() || sn.adrift {
            self.stuck = true;
        } else {
            self.changes += (sn.bytes != self.text.as_bytes()) as u32;
            self.text = String::from_utf8(sn.bytes).unwrap();
        }
    }
    fn all(mut self, pool: &mut Pool) -> Vec<(ROp, Out, usize, Vec<u8>)> {
        while !self.done() {
            self.step();
        }
        pool.give(self.case.cap, self.s, self.z);
        self.seen
    }
}
/// Two strings, each on its own and then together: the second goes on inside the caller code of the first, and in between.
fn together(pool: &mut Pool, case: &Case, o: &Opts) -> Report {
    let mut r = Report::default();
    r.key = h64(&format!("{:?}", case));
    if let Some(d) = confined() {
        r.steps = 1;
        r.finding = Some(Finding { facet: Differ, step: 0, detail: d });
        return r;
    }
    // the second is made of the same steps the other way round
    let mut ops: Vec<Op> = case.ops.clone();
    ops.reverse();
    let caps = crate::subject::CAPS;
    let k = case.ops.len() * 7 + case.dirty as usize + case.cap.bytes();
    let cap = if k % 3 == 0 { case.cap } else if k % 11 == 1 { Cap::Cache } else { Cap::A(caps[k * 5 % caps.len()]) };
    let (ca, cb) = (Rc::new(case.clone()), Rc::new(Case { cap, dirty: !case.dirty, init: case.init.clone(), ops }));
    let watch = |w: u8| o.watch.then_some(w);
    busy::mode(busy::Mode::Nothing);
    let wa = Line::new(pool, &ca, watch(0)).all(pool);
    let wb = Line::new(pool, &cb, watch(0)).all(pool);
    let mut a = Line::new(pool, &ca, watch(1));
    let b = Rc::new(RefCell::new(Line::new(pool, &cb, watch(1))));
    let inner = b.clone();
    let nested = Rc::new(RefCell::new((0u32, 0u32)));
    let count = nested.clone();
    busy::mode(busy::Mode::This(Box::new(move || {
        let mut b = inner.borrow_mut();
        let before = (b.seen.len(), b.changes);
        b.step();
        let mut c = count.borrow_mut();
        c.0 += (b.seen.len() - before.0) as u32;
        c.1 += b.changes - before.1;
    })));
    // the interpreter has no time for what the compiled builds do anyway
    while !a.done() && !cfg!(miri) {
        a.step();
        if b.borrow().seen.len() < a.seen.len() {
            busy::quietly(|| b.borrow_mut().step());
        }
    }
    busy::mode(busy::Mode::Nothing);
    let woven = |l: Line, pool: &mut Pool| if cfg!(miri) { vec![] } else { l.all(pool) };
    let ga = woven(a, pool);
    let b = match Rc::try_unwrap(b) {
        Ok(b) => b.into_inner(),
        Err(_) => unreachable!("the hook is gone"),
    };
    let gb = woven(b, pool);
    // and on two threads: what the compiled builds leave to chance (there are always other threads at work), the interpreter's scheduler provokes
    // each step on both at the same moment
    let init = StrSpec::Fill { base: Base::Cap, delta: -((k % 4) as i32), pad: 0, pat: vec!['z', '\u{e9}'], over: false };
    let cc = Rc::new(Case { cap, init, ..(*ca).clone() });
    let apart = (cfg!(miri) || r.key % 128 == 0).then(|| {
        let wc = Line::new(pool, &cc, watch(0)).all(pool);
        let at_once = std::sync::Barrier::new(2);
        let beside = |c: &Case| {
            busy::mode(busy::Mode::Nothing);
            let mut pool = Pool::default();
            let mut l = Line::new(&mut pool, &Rc::new(c.clone()), watch(1));
            for _ in 0..=c.ops.len() {
                at_once.wait();
                l.step();
            }
            l.seen
        };
        let (ca, cc): (&Case, &Case) = (&ca, &cc);
        std::thread::scope(|sc| {
            let other = sc.spawn(|| beside(cc));
            let a = beside(ca);
            (a, other.join().unwrap_or_default(), wc)
        })
    });
    busy::mode(busy::Mode::Work);
    let _ = take_inside();
    r.steps = (wa.len() + wb.len()) as u32;
    r.nontrivial = if cfg!(miri) { wa.len().min(wb.len()) as u32 } else { nested.borrow().1 };
    let same = |x: &Out, y: &Out| x == y || matches!((x, y), (Out::Panic(_), Out::Panic(_)));
    let mut pairs = vec![("the string", &ca, &ga, &wa), ("the other string", &cb, &gb, &wb)];
    if let Some((a, c, wc)) = &apart {
        pairs.extend([("the string, beside another thread,", &ca, a, &wa), ("the string of the other thread", &cc, c, wc)]);
    }
    for (n, c, g, w) in pairs {
        for i in 0..g.len().max(w.len()) {
            let (Some(g), Some(w)) = (g.get(i), w.get(i)) else {
                break;
            };
            r.full_states += (g.2 == c.cap.bytes()) as u32;
            r.wide_states += !g.3.is_ascii() as u32;
            r.failed_ops += matches!(g.1, Out::Err(_)) as u32;
            if o.trace {
                r.trace.push(format!("{} {}: {:?} => {:?}, text {}", n, i, g.0, g.1, show(&g.3)));
            }
            if g.0 != w.0 || !same(&g.1, &w.1) || g.2 != w.2 || g.3 != w.3 {
                r.finding.get_or_insert(Finding {
                    facet: Differ,
                    step: i,
                    detail: format!("{:?} on {} (capacity {}): while another string was worked on it gave {:?} and left {}, alone {:?} and {}", g.0, n, c.cap.bytes(), g.1, show(&g.3), w.1, show(&w.3)),
                });
            }
        }
    }
    r.digest = h64(&(wa.iter().map(|x| (x.2, &x.3)).collect::<Vec<_>>(), wb.len()));
    r
}
/// What cannot be moved to or shared between threads.
fn confined() -> Option<String> {
    use std::sync::OnceLock;
    static FOUND: OnceLock<Option<String>> = OnceLock::new();
    FOUND
        .get_or_init(|| {
            use arraystring::{error::*, prelude::*, Drain};
            use std::marker::PhantomData;
            struct Is<T>(PhantomData<T>);
            trait Not {
                fn send(&self) -> bool {
                    false
                }
                fn sync(&self) -> bool {
                    false
                }
            }
            impl<T> Not for &Is<T> {}
            trait Send_ {
                fn send(&self) -> bool {
                    true
                }
            }
            impl<T: Send> Send_ for Is<T> {}
            trait Sync_ {
                fn sync(&self) -> bool {
                    true
                }
            }
            impl<T: Sync> Sync_ for Is<T> {}
            let mut bad: Option<String> = None;
            macro_rules! look {
                ($($t:ty),*) => { $(
                    let p: Is<$t> = Is(PhantomData);
                    if !(&p).send() {
                        bad.get_or_insert(format!("{} cannot be moved to another thread", stringify!($t)));
                    }
                    if !(&p).sync() {
                        bad.get_or_insert(format!("{} cannot be shared between threads", stringify!($t)));
                    }
                )* };
            }
            look!(ArrayString<1>, ArrayString<7>, ArrayString<23>, ArrayString<63>, ArrayString<255>, SmallString, MaxString, CacheString, Drain<1>, Drain<63>, Drain<255>, Error, Utf8, Utf16, OutOfBounds);
            bad
        })
        .clone()
}
/// Conversions between the two types.
fn convert(text: &str) -> Option<String> {
    use arraystring::prelude::*;
    let a = ArrayString::<63>::from_str_truncate(text);
    let c = CacheString::from(a);
    let back: ArrayString<63> = *c;
    let into: CacheString = a.into();
    for (n, t) in [("From<ArrayString<63>>", c.as_str()), ("Deref", back.as_str()), ("Into", into.as_str())] {
        if t != text {
            return Some(format!("{} turned {:?} into {:?}", n, text, t));
        }
    }
    None
}
