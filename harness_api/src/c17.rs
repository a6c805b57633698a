//! Every capacity from 1 to 255 (and the named types): size, alignment, capacity, and room for
//! exactly that many bytes after any history.
use arraystring::prelude::*;
use kit::choices::Ch;
use kit::mini::Verdict;
use std::mem::{align_of, size_of, size_of_val};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Hash, Clone, Copy, PartialEq)]
pub enum Ty {
    A(u8),
    Cache,
    Small,
    Max,
}
#[derive(Debug, Hash, Clone)]
pub enum Step {
    TryPush(char),
    PushStr(String),
    PushTrunc(String),
    Insert(usize, String),
    InsertTrunc(usize, String),
    Pop,
    Remove(usize),
    Truncate(usize),
    Clear,
    SplitOff(usize),
    Drain(usize, usize),
    Replace(usize, usize, String),
    Retain(u8),
    FromStr(String),
    New,
}
/// How the string is filled at the end.
#[derive(Debug, Hash, Clone, Copy)]
pub enum Fill {
    PushStr,
    Push,
    PushTrunc,
    InsertFront,
    InsertTrunc,
    Replace,
    /// the whole text, by one of exactly the capacity
    ReplaceAll,
    /// the second half, and the rest
    ReplaceTail,
    Ctor,
    CtorTrunc,
    Chars,
    Write,
    Utf16,
}
const FILLS: [Fill; 13] = [
    Fill::PushStr, Fill::Push, Fill::PushTrunc, Fill::InsertFront, Fill::InsertTrunc, Fill::Replace, Fill::ReplaceAll, Fill::ReplaceTail, Fill::Ctor, Fill::CtorTrunc, Fill::Chars, Fill::Write, Fill::Utf16,
];
#[derive(Debug, Hash, Clone)]
pub struct Case {
    ty: Ty,
    steps: Vec<Step>,
    fill: Fill,
    /// the char the string is filled with
    with: char,
}
pub const RULE: &str = "cases are a type (each of the 255 capacities, CacheString, SmallString, MaxString), a history of edits, and a way of filling the string to its last byte; enumerated: every type x way of filling x char width on an empty string; random: after histories. A case is non-trivial when at least one byte had to be added to fill the string, distinct by all of these";

trait Light {
    fn facts(&self) -> (usize, usize, usize, usize);
    fn text(&self) -> &str;
    fn count(&self) -> usize;
    fn put(&mut self, c: char) -> bool;
    fn push(&mut self, x: &str) -> bool;
    fn push_cut(&mut self, x: &str);
    fn insert(&mut self, i: usize, x: &str) -> bool;
    fn insert_cut(&mut self, i: usize, x: &str) -> bool;
    fn take(&mut self);
    fn remove_at(&mut self, i: usize) -> bool;
    fn cut(&mut self, i: usize) -> bool;
    fn wipe(&mut self);
    fn split(&mut self, i: usize) -> bool;
    fn drain_range(&mut self, a: usize, b: usize) -> bool;
    fn replace(&mut self, a: usize, b: usize, x: &str) -> bool;
    fn keep(&mut self, f: &mut dyn FnMut(char) -> bool);
    fn write(&mut self, x: &str) -> bool;
    fn fresh(&mut self);
    fn from(&mut self, x: &str) -> bool;
    fn from_cut(&mut self, x: &str);
    fn from_chars(&mut self, x: &str) -> bool;
    fn from_units(&mut self, x: &[u16]) -> bool;
}
fn set<T, E>(to: &mut T, v: Result<T, E>) -> bool {
    match v {
        Ok(v) => {
            *to = v;
            true
        }
        Err(_) => false,
    }
}
macro_rules! light {
    ($t: ty) => {
        impl Light for $t {
            fn facts(&self) -> (usize, usize, usize, usize) {
                (size_of::<$t>(), size_of_val(self), align_of::<$t>(), <$t>::capacity())
            }
            fn text(&self) -> &str {
                self.as_str()
            }
            fn count(&self) -> usize {
                self.len() as usize
            }
            fn put(&mut self, c: char) -> bool {
                self.try_push(c).is_ok()
            }
            fn push(&mut self, x: &str) -> bool {
                self.try_push_str(x).is_ok()
            }
            fn push_cut(&mut self, x: &str) {
                self.push_str_truncate(x)
            }
            fn insert(&mut self, i: usize, x: &str) -> bool {
                self.try_insert_str(i, x).is_ok()
            }
            fn insert_cut(&mut self, i: usize, x: &str) -> bool {
                self.insert_str_truncate(i, x).is_ok()
            }
            fn take(&mut self) {
                self.pop();
            }
            fn remove_at(&mut self, i: usize) -> bool {
                self.remove(i).is_ok()
            }
            fn cut(&mut self, i: usize) -> bool {
                self.truncate(i).is_ok()
            }
            fn wipe(&mut self) {
                self.clear()
            }
            fn split(&mut self, i: usize) -> bool {
                self.split_off(i).is_ok()
            }
            fn drain_range(&mut self, a: usize, b: usize) -> bool {
                self.drain(a..b).is_ok()
            }
            fn replace(&mut self, a: usize, b: usize, x: &str) -> bool {
                self.replace_range(a..b, x).is_ok()
            }
            fn keep(&mut self, f: &mut dyn FnMut(char) -> bool) {
                self.retain(f)
            }
            fn write(&mut self, x: &str) -> bool {
                std::fmt::Write::write_str(self, x).is_ok()
            }
            fn fresh(&mut self) {
                *self = <$t>::new()
            }
            fn from(&mut self, x: &str) -> bool {
                set(self, <$t>::try_from_str(x))
            }
            fn from_cut(&mut self, x: &str) {
                *self = <$t>::from_str_truncate(x)
            }
            fn from_chars(&mut self, x: &str) -> bool {
                set(self, <$t>::try_from_chars(x.chars()))
            }
            fn from_units(&mut self, x: &[u16]) -> bool {
                set(self, <$t>::try_from_utf16(x))
            }
        }
    };
}
fn step(s: &mut dyn Light, st: &Step) -> bool {
    match st {
        Step::TryPush(c) => s.put(*c),
        Step::PushStr(x) => s.push(x),
        Step::PushTrunc(x) => {
            s.push_cut(x);
            true
        }
        Step::Insert(i, x) => s.insert(*i, x),
        Step::InsertTrunc(i, x) => s.insert_cut(*i, x),
        Step::Pop => {
            s.take();
            true
        }
        Step::Remove(i) => s.remove_at(*i),
        Step::Truncate(i) => s.cut(*i),
        Step::Clear => {
            s.wipe();
            true
        }
        Step::SplitOff(i) => s.split(*i),
        Step::Drain(a, b) => s.drain_range(*a, *b),
        Step::Replace(a, b, x) => s.replace(*a, *b, x),
        Step::Retain(k) => {
            let mut n = 0u8;
            s.keep(&mut |_| {
                n = n.wrapping_add(1);
                n % 4 != *k
            });
            true
        }
        Step::FromStr(x) => s.from(x),
        Step::New => {
            s.fresh();
            true
        }
    }
}
fn half(t: &str) -> usize {
    (0..=t.len() / 2).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0)
}
fn fill(s: &mut dyn Light, f: Fill, text: &str) -> bool {
    let whole = s.text().to_owned() + text;
    match f {
        Fill::PushStr => s.push(text),
        Fill::Push => text.chars().all(|c| s.put(c)),
        Fill::PushTrunc => {
            s.push_cut(text);
            true
        }
        Fill::InsertFront => s.insert(0, text),
        Fill::InsertTrunc => s.insert_cut(0, text),
        Fill::Replace => {
            let n = s.count();
            s.replace(n, n, text)
        }
        Fill::ReplaceAll => s.replace(0, s.count(), &whole),
        Fill::ReplaceTail => {
            let at = half(s.text());
            s.replace(at, s.count(), &whole[at..])
        }
        Fill::Ctor => s.from(&whole),
        Fill::CtorTrunc => {
            s.from_cut(&whole);
            true
        }
        Fill::Chars => s.from_chars(&whole),
        Fill::Write => s.write(text),
        Fill::Utf16 => s.from_units(&whole.encode_utf16().collect::<Vec<_>>()),
    }
}
macro_rules! all {
    ($($n: literal)*) => {
        $(light!(ArrayString<$n>);)*
        fn make(t: Ty) -> Box<dyn Light> {
            match t {
                $(Ty::A($n) => Box::new(ArrayString::<$n>::new()),)*
                Ty::A(0) => unreachable!(),
                Ty::Cache => Box::new(CacheString::new()),
                Ty::Small => Box::new(SmallString::new()),
                Ty::Max => Box::new(MaxString::new()),
            }
        }
    };
}
light!(CacheString);
include!("all.rs");
fn ty(k: u32) -> Ty {
    match k {
        0 => Ty::Small,
        1 => Ty::Cache,
        2 => Ty::Max,
        n => Ty::A((n - 2) as u8),
    }
}
fn cap_of(t: Ty) -> usize {
    match t {
        Ty::A(n) => n as usize,
        Ty::Cache => 63,
        Ty::Small => size_of::<String>() - 1,
        Ty::Max => 255,
    }
}
fn word(c: &mut Ch) -> String {
    let n = match c.weighted(&[4, 2, 1]) {
        0 => c.pick(4),
        1 => c.pick(40),
        _ => c.pick(300),
    };
    let ch = c.of(&['a', 'é', '€', '😀', ' ']);
    let mut s = String::new();
    if c.flag() {
        s.push('-');
    }
    (0..n).for_each(|_| s.push(ch));
    s
}
pub fn case(c: &mut Ch, small: bool) -> Case {
    let t = ty(c.pick(258));
    let fill = c.of(&FILLS);
    let with = c.of(&['x', 'é', '€', '😀']);
    let mut steps = vec![];
    if !small {
        let n = c.pick(10);
        for _ in 0..n {
            let z = cap_of(t) as u32 + 2;
            steps.push(match c.pick(15) {
                0 => Step::TryPush(c.of(&['a', 'é', '€', '😀'])),
                1 => Step::PushStr(word(c)),
                2 => Step::PushTrunc(word(c)),
                3 => Step::Insert(c.pick(z) as usize, word(c)),
                4 => Step::InsertTrunc(c.pick(z) as usize, word(c)),
                5 => Step::Pop,
                6 => Step::Remove(c.pick(z) as usize),
                7 => Step::Truncate(c.pick(z) as usize),
                8 => Step::Clear,
                9 => Step::SplitOff(c.pick(z) as usize),
                10 => Step::Drain(c.pick(z) as usize, c.pick(z) as usize),
                11 => Step::Replace(c.pick(z) as usize, c.pick(z) as usize, word(c)),
                12 => Step::Retain(c.pick(4) as u8),
                13 => Step::FromStr(word(c)),
                _ => Step::New,
            });
        }
    }
    Case { ty: t, steps, fill, with }
}
pub fn check(k: &Case, trace: bool) -> Verdict {
    let mut v = Verdict::default();
    let r = catch_unwind(AssertUnwindSafe(|| judge(k, trace, &mut v)));
    match r {
        Ok(Some(f)) => v.finding = Some(format!("{:?}: {}", k.ty, f)),
        Ok(None) => {}
        Err(_) => v.finding = Some(format!("{:?}: panicked", k.ty)),
    }
    v
}
fn judge(k: &Case, trace: bool, v: &mut Verdict) -> Option<String> {
    let cap = cap_of(k.ty);
    let mut s = make(k.ty);
    let (size, size_v, align, capacity) = s.facts();
    let (want, want_align) = match k.ty {
        Ty::A(n) => (n as usize + 1, 1),
        Ty::Cache => (64, 64),
        Ty::Small => (size_of::<String>(), 1),
        Ty::Max => (256, 1),
    };
    if capacity != cap {
        return Some(format!("reports capacity {}, documented {}", capacity, cap));
    }
    if size != want || size_v != want {
        return Some(format!("occupies {} bytes, documented {}", size, want));
    }
    if k.ty == Ty::Cache && align != want_align {
        return Some(format!("is aligned to {}, documented {}", align, want_align));
    }
    for (i, st) in k.steps.iter().enumerate() {
        let ok = step(&mut *s, st);
        if trace {
            v.trace.push(format!("{}: {:?} {} => {} bytes", i, st, if ok { "done" } else { "refused" }, s.count()));
        }
    }
    // whatever it holds now, it must take exactly the rest
    let before = s.text().as_bytes().to_vec();
    if before.len() != s.count() || before.len() > cap {
        return Some(format!("holds {} bytes and reports {}", before.len(), s.count()));
    }
    let room = cap - before.len();
    let mut text = "-".repeat(room % k.with.len_utf8());
    while text.len() < room {
        text.push(k.with);
    }
    v.classes.push(match (room, before.len()) {
        (0, _) => "already full",
        (_, 0) => "filled from empty",
        _ => "filled from a history",
    });
    v.nontrivial = room > 0;
    let ok = fill(&mut *s, k.fill, &text);
    let mut want = before.clone();
    match k.fill {
        Fill::InsertFront | Fill::InsertTrunc => {
            want.splice(0..0, text.bytes());
        }
        _ => want.extend(text.bytes()),
    }
    if trace {
        v.trace.push(format!("{:?} with {} bytes => {}", k.fill, room, if ok { "done" } else { "refused" }));
    }
    if !ok {
        return Some(format!("holding {} bytes, refused {} more by {:?}", before.len(), room, k.fill));
    }
    if s.text().as_bytes() != want || s.count() != cap {
        return Some(format!("filled from {} to {} bytes by {:?}, holds {:?}", before.len(), cap, k.fill, s.text()));
    }
    if s.put('!') || s.push("!") || s.count() != cap {
        return Some(format!("took more than {} bytes", cap));
    }
    None
}
