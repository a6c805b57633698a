//! Plain cases kept from earlier failures and from reading the code; run first, every time.
use crate::gen::{Kd, Profile};
use crate::ops::*;

fn lit(s: &str) -> StrSpec {
    StrSpec::Lit(s.into())
}
fn r(a: Bk, x: usize, b: Bk, y: usize) -> Rng {
    Rng { a: Idx::Abs(x), b: Idx::Abs(y), sort: false, sk: a, ek: b }
}
fn case(n: u8, init: &str, ops: Vec<Op>) -> Case {
    Case { cap: Cap::A(n), dirty: false, init: lit(init), ops }
}
/// Cases for any property; each property judges them by its own rules.
pub fn cases() -> Vec<Case> {
    use Bk::*;
    let max = Idx::Max(0);
    let mut v = vec![
        // an empty edit at an index beyond the text or inside a char (repaired defect)
        case(8, "abc", vec![Op::TryInsertStr(Idx::Abs(1000), lit(""))]),
        case(8, "é", vec![Op::TryInsertStr(Idx::Abs(1), lit(""))]),
        case(8, "é", vec![Op::Replace(r(Inc, 1, Exc, 1), lit(""))]),
        case(8, "abc", vec![Op::Replace(r(Inc, 7, Exc, 7), lit(""))]),
        case(4, "abcd", vec![Op::InsertStrTrunc(Idx::Abs(9), lit("x")), Op::Fmt(0)]),
        case(5, "éé", vec![Op::InsertStrTrunc(Idx::Abs(1), lit("é"))]),
        case(5, "aéb", vec![Op::Drain(r(Inc, 2, Exc, 2), vec![], De::Collect)]),
        // largest integers
        case(8, "abc", vec![Op::Remove(max), Op::Truncate(max), Op::SplitOff(max), Op::TryInsert(max, 'x')]),
        case(8, "abc", vec![Op::Replace(Rng { a: Idx::Abs(0), b: max, sort: false, sk: Inc, ek: Exc }, lit("x"))]),
        // inclusive up to the very end, written directly
        case(255, "abc", vec![Op::Drain(r(Unb, 0, Inc, 2), vec![Ds::Back], De::Drop)]),
        // no room, no text
        case(1, "", vec![Op::Pop(), Op::Trim(), Op::Remove(Idx::Abs(0)), Op::SplitOff(Idx::Abs(0)), Op::Clear()]),
        case(1, "é", vec![Op::PushStrTrunc(lit("é")), Op::TryPush('é'), Op::TryPush('a'), Op::Pop()]),
    ];
    // every space char at either end, and the look-alikes
    for c in crate::gen::SPACES.iter().chain(&['\u{200b}', '\u{feff}', '\u{180e}', '\u{1c}', '\u{1f}', '\u{84}']) {
        v.push(case(24, &format!("{c}a{c}b{c}"), vec![Op::Trim(), Op::Trim()]));
        v.push(case(24, &format!("{c}{c}"), vec![Op::Trim(), Op::TryPush('x')]));
    }
    // full strings of every char width at the edges of u8
    for n in [1u8, 2, 3, 4, 5, 63, 127, 128, 129, 239, 252, 253, 254, 255] {
        for p in ['x', 'é', '€', '😀'] {
            for pad in 0..4 {
                let f = |base, delta, over| StrSpec::Fill { base, delta, pad, pat: vec![p], over };
                v.push(Case {
                    cap: Cap::A(n),
                    dirty: pad % 2 == 1,
                    init: f(Base::Cap, 0, false),
                    ops: vec![
                        Op::TryPush('x'),
                        Op::PushStrTrunc(f(Base::Cap, 9, true)),
                        Op::Replace(Rng { a: Idx::Bnd(1), b: Idx::BndEnd(0), sort: true, sk: Inc, ek: Exc }, f(Base::Cap, -1, false)),
                        Op::InsertStrTrunc(Idx::Bnd(1), f(Base::Cap, 3, true)),
                        Op::SplitOff(Idx::Bnd(3)),
                        Op::ExtChars(It::Endless, f(Base::Zero, 9, true)),
                        Op::Drain(Rng { a: Idx::Bnd(1), b: Idx::BndEnd(1), sort: true, sk: Inc, ek: Exc }, vec![Ds::Front, Ds::Back, Ds::AsStr], De::Fused),
                    ],
                });
                for delta in -1..=5 {
                    for k in [Sc::TryFromStr, Sc::FromStr, Sc::FromStrTrunc, Sc::FromRef] {
                        v.push(Case { cap: Cap::A(n), dirty: false, init: lit(""), ops: vec![Op::CtorStr(k, f(Base::Cap, delta, true))] });
                    }
                }
            }
        }
    }
    // lengths that a narrowing cast turns into small ones
    for n in [4u8, 63, 255] {
        for delta in [256, 257, 255, 511, 512, 65536, 65537] {
            let t = StrSpec::Fill { base: Base::Zero, delta, pad: 0, pat: vec!['x'], over: false };
            v.push(Case {
                cap: Cap::A(n),
                dirty: true,
                init: lit("ab"),
                ops: vec![Op::TryPushStr(t.clone()), Op::TryInsertStr(Idx::Abs(1), t.clone()), Op::Replace(r(Inc, 0, Exc, 1), t.clone()), Op::PushStrTrunc(t.clone()), Op::Add(t)],
            });
        }
    }
    v
}
/// The kept cases a property's profile can run.
pub fn for_profile(p: &Profile) -> Vec<Case> {
    let mut v = cases();
    for c in &mut v {
        if p.cache_only {
            c.cap = Cap::Cache;
        }
        // a step no property but its own can judge cheaply is left out by keeping to the focus where it matters
        if !p.focus.contains(&Kd::Hostile) {
            c.ops.retain(|o| !matches!(o, Op::Hostile(..)));
        }
    }
    v
}
