//! Chars and short texts, shared by all generators: whatever code might treat in a way of its own turns up.
use crate::choices::Ch;

pub const SPACES: [char; 25] = [
    ' ', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}',
    '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}',
    '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];
const NEAR_SPACES: [char; 8] = ['\u{200b}', '\u{feff}', '\u{180e}', '\u{1f}', '\u{1c}', '\u{2060}', '\u{84}', '\u{7f}'];
const EDGES: [char; 14] = [
    '\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}',
    '\u{301}', '"', '\\',
];
const PLAIN: [char; 12] = ['a', 'b', 'z', 'A', 'Z', '0', '9', '~', '_', '-', '{', '%'];
const WIDE: [char; 9] = ['é', 'ß', 'Ω', '€', 'ｱ', '日', '😀', '🤔', '𝄞'];

/// Chars that renderers, editors, case mapping and decoders treat in a way of their own.
const ODD: [char; 36] = [
    '\u{1}', '\u{8}', '\u{1b}', '\'', '\u{ad}', '\u{ff}', '\u{100}', '\u{130}', '\u{131}', '\u{17f}', '\u{1c5}', '\u{345}', '\u{378}', '\u{3c2}', '\u{61c}',
    '\u{9ff}', '\u{1100}', '\u{11a8}', '\u{1e9e}', '\u{200c}', '\u{200d}', '\u{200e}', '\u{202e}', '\u{2069}', '\u{20e3}', '\u{212a}', '\u{d7fb}', '\u{e001}',
    '\u{fb00}', '\u{fdd0}', '\u{fe0f}', '\u{fffe}', '\u{1f1e6}', '\u{1f3fb}', '\u{3ffff}', '\u{e0001}',
];
/// Several scalar values that are one thing to some.
pub const TOGETHER: [&str; 10] =
    ["\r\n", "e\u{301}", "\u{1f468}\u{200d}\u{1f469}\u{200d}\u{1f467}", "\u{1f1e9}\u{1f1ea}", "\u{2764}\u{fe0f}", "\u{1100}\u{1161}\u{11a8}", "\0\0", "\u{feff}\u{feff}", "\u{d7ff}\u{e000}", "{}"];

pub fn ch(c: &mut Ch) -> char {
    match c.weighted(&[20, 16, 6, 2, 6, 1, 2, 2, 1, 1]) {
        0 => c.of(&PLAIN),
        1 => c.of(&WIDE),
        2 => c.of(&SPACES),
        3 => c.of(&NEAR_SPACES),
        4 => c.of(&EDGES),
        6 => c.of(&ODD),
        // any of one byte, two, three
        7 => c.pick(0x80) as u8 as char,
        8 => char::from_u32(0x80 + c.pick(0x780)).unwrap(),
        9 => {
            let x = 0x800 + c.pick(0xf800 - 0x800);
            char::from_u32(if x < 0xd800 { x } else { x + 0x800 }).unwrap()
        }
        _ => {
            // any scalar value
            let x = c.pick(0x110000 - 0x800);
            char::from_u32(if x < 0xd800 { x } else { x + 0x800 }).unwrap()
        }
    }
}
pub fn lit(c: &mut Ch, max: u32) -> String {
    let n = c.pick(max + 1);
    (0..n).map(|_| ch(c)).collect()
}
/// Chars of one kind only.
pub fn kindred(c: &mut Ch) -> String {
    let (lo, n) = c.of(&[
        ('0', 10), ('a', 26), ('A', 26), ('A', 6), ('!', 15), ('\u{9}', 5), ('\u{0}', 32), ('\u{c0}', 63), ('\u{410}', 64), ('\u{3041}', 80), ('\u{4e00}', 20_000), ('\u{1f600}', 80),
    ]);
    let k = (1 + c.pick(8)) * c.of(&[1, 1, 4, 9]);
    (0..k).map(|_| char::from_u32(lo as u32 + c.pick(n)).unwrap()).collect()
}
/// A text of one kind, or with several scalar values that belong together.
pub fn wild(c: &mut Ch) -> String {
    if c.flag() {
        return kindred(c);
    }
    let (a, b) = (lit(c, 3), lit(c, 3));
    a + c.of(&TOGETHER) + &b
}
