//! Caller code is at liberty to work on strings of its own while an operation on another one is under way.
use arraystring::{prelude::*, Drain};
use std::cell::{Cell, RefCell};
use std::fmt::Write;

thread_local! {
    static CALLS: Cell<u32> = const { Cell::new(0) };
    static WRONG: Cell<Option<&'static str>> = const { Cell::new(None) };
    static MODE: RefCell<Mode> = const { RefCell::new(Mode::Work) };
}
/// What caller code does besides answering.
pub enum Mode {
    /// works on a few strings with known results
    Work,
    Nothing,
    /// anything else
    This(Box<dyn FnMut()>),
}
pub fn mode(m: Mode) {
    MODE.with(|x| *x.borrow_mut() = m)
}

/// Forgets the calls counted so far.
pub fn start() {
    CALLS.with(|c| c.set(0));
    WRONG.with(|w| w.set(None));
}
/// What the strings of caller code got wrong since.
pub fn wrong() -> Option<&'static str> {
    WRONG.with(|w| w.take())
}
/// Called wherever caller code is: at its first calls, and now and then later, it works on other strings.
pub fn call() {
    let n = CALLS.with(|c| c.replace(c.get().wrapping_add(1)));
    let (first, later, every) = if cfg!(any(miri, fuzzing)) { (2, 5, 64) } else { (3, 5, 16) };
    if n >= first && n % every != later {
        return;
    }
    let mine = MODE.with(|m| match &mut *m.borrow_mut() {
        Mode::Nothing => None,
        Mode::Work => Some(Mode::Work),
        this => Some(std::mem::replace(this, Mode::Nothing)),
    });
    match mine {
        None | Some(Mode::Nothing) => {}
        Some(Mode::Work) => {
            if let Err(e) = work(n) {
                WRONG.with(|w| w.set(Some(e)));
            }
        }
        Some(Mode::This(mut f)) => {
            f();
            CALLS.with(|c| c.set(n + 1));
            mode(Mode::This(f));
        }
    }
}
/// Runs something during which caller code does nothing else.
pub fn quietly(f: impl FnOnce()) {
    let before = MODE.with(|m| m.replace(Mode::Nothing));
    f();
    mode(before);
}
fn is(what: &'static str, yes: bool) -> Result<(), &'static str> {
    if yes {
        Ok(())
    } else {
        Err(what)
    }
}
/// Some of everything, with the results known; nothing here may use the heap.
fn work(n: u32) -> Result<(), &'static str> {
    let mut a = ArrayString::<16>::from_str_truncate("  ab\u{e9}\u{20ac}cd  and more");
    is("from_str_truncate", a.as_str() == "  ab\u{e9}\u{20ac}cd  and")?;
    is("pop", a.pop() == Some('d') && a.truncate(13).is_ok())?;
    a.trim();
    is("trim", a.as_str() == "ab\u{e9}\u{20ac}cd")?;
    is("insert", a.try_insert(2, 'X').is_ok() && a.as_str() == "abX\u{e9}\u{20ac}cd")?;
    is("remove", a.remove(0) == Ok('a') && a.as_str() == "bX\u{e9}\u{20ac}cd")?;
    if n % 2 == 0 {
        a.retain(|c| c != '\u{e9}');
        is("retain", a.as_str() == "bX\u{20ac}cd")?;
        is("insert_str", a.try_insert_str(1, "12").is_ok() && a.as_str() == "b12X\u{20ac}cd")?;
        let b = a.split_off(3).map_err(|_| "split_off")?;
        is("split_off", a.as_str() == "b12" && b.as_str() == "X\u{20ac}cd")?;
        is("order", a > b && a != b)?;
        is("replace_range", a.replace_range(1..2, "\u{e4}\u{f6}").is_ok() && a.as_str() == "b\u{e4}\u{f6}2")?;
    } else {
        let d: Drain<16> = a.drain(1..4).map_err(|_| "drain")?;
        is("drain", d.as_str() == "X\u{e9}" && d.rev().eq(['\u{e9}', 'X']) && a.as_str() == "b\u{20ac}cd")?;
        a.extend(['1', '\u{e9}']);
        a.extend(["23", "4"]);
        is("extend", a.as_str() == "b\u{20ac}cd1\u{e9}234")?;
        is("write", write!(a, "{}", 7).is_ok() && a.as_str() == "b\u{20ac}cd1\u{e9}2347")?;
        is("truncate", a.truncate(4).is_ok() && a.as_str() == "b\u{20ac}")?;
        let u = CacheString::try_from_utf16([0x61, 0xd83d, 0xde00]).map_err(|_| "from_utf16")?;
        is("from_utf16", u.as_str() == "a\u{1f600}")?;
    }
    Ok(())
}

/// A text or range conversion that is busy.
pub struct Busy<'a, T: ?Sized>(pub &'a T);
impl AsRef<str> for Busy<'_, String> {
    fn as_ref(&self) -> &str {
        call();
        self.0
    }
}
impl AsRef<[u16]> for Busy<'_, Vec<u16>> {
    fn as_ref(&self) -> &[u16] {
        call();
        self.0
    }
}
impl crate::subject::Bounds for Busy<'_, crate::ops::RB> {
    fn lo(&self) -> std::ops::Bound<&usize> {
        call();
        self.0 .0.as_ref()
    }
    fn hi(&self) -> std::ops::Bound<&usize> {
        call();
        self.0 .1.as_ref()
    }
}
pub struct BusyStr<'a>(pub &'a str);
impl AsRef<str> for BusyStr<'_> {
    fn as_ref(&self) -> &str {
        call();
        self.0
    }
}
