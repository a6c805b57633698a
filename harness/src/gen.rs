//! Generators: every one is a function from a choice sequence to a case.
use crate::choices::Ch;
use crate::ops::*;

/// Operation families a generator can be asked for.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kd {
    TryPushStr,
    PushStrTrunc,
    TryPush,
    Truncate,
    Pop,
    Trim,
    Remove,
    Retain,
    TryInsert,
    TryInsertStr,
    InsertStrTrunc,
    SplitOff,
    Clear,
    Drain,
    Replace,
    Add,
    ExtChars,
    ExtCharRefs,
    ExtStrs,
    WriteStr,
    WriteChar,
    WriteFmt,
    New,
    CtorStr,
    CtorIter,
    CtorChars,
    CtorU16,
    Index,
    IndexMut,
    Compare,
    Fmt,
    MutView,
    Copies,
    Hostile,
}
use Kd::*;
pub const ALL: [Kd; 34] = [
    TryPushStr, PushStrTrunc, TryPush, Truncate, Pop, Trim, Remove, Retain, TryInsert, TryInsertStr, InsertStrTrunc,
    SplitOff, Clear, Drain, Replace, Add, ExtChars, ExtCharRefs, ExtStrs, WriteStr, WriteChar, WriteFmt, New, CtorStr,
    CtorIter, CtorChars, CtorU16, Index, IndexMut, Compare, Fmt, MutView, Copies, Hostile,
];
pub fn kind(op: &ROp) -> Kd {
    match op {
        ROp::TryPushStr(..) => TryPushStr,
        ROp::PushStrTrunc(..) => PushStrTrunc,
        ROp::TryPush(..) => TryPush,
        ROp::Truncate(..) => Truncate,
        ROp::Pop() => Pop,
        ROp::Trim() => Trim,
        ROp::Remove(..) => Remove,
        ROp::Retain(..) => Retain,
        ROp::TryInsert(..) => TryInsert,
        ROp::TryInsertStr(..) => TryInsertStr,
        ROp::InsertStrTrunc(..) => InsertStrTrunc,
        ROp::SplitOff(..) => SplitOff,
        ROp::Clear() => Clear,
        ROp::Drain(..) => Drain,
        ROp::Replace(..) => Replace,
        ROp::Add(..) => Add,
        ROp::ExtChars(..) => ExtChars,
        ROp::ExtCharRefs(..) => ExtCharRefs,
        ROp::ExtStrs(..) => ExtStrs,
        ROp::WriteStr(..) => WriteStr,
        ROp::WriteChar(..) => WriteChar,
        ROp::WriteFmt(..) => WriteFmt,
        ROp::New(..) => New,
        ROp::CtorStr(..) => CtorStr,
        ROp::CtorIter(..) => CtorIter,
        ROp::CtorChars(..) => CtorChars,
        ROp::CtorU16(..) => CtorU16,
        ROp::Index(..) => Index,
        ROp::IndexMut(..) => IndexMut,
        ROp::Compare(..) => Compare,
        ROp::Fmt(_) => Fmt,
        ROp::MutView(..) => MutView,
        ROp::Copies(..) => Copies,
        ROp::Hostile(..) => Hostile,
    }
}

pub struct Profile {
    /// families and weights of a history's operations
    pub mix: Vec<(Kd, u32)>,
    /// families whose single steps are enumerated in small scope
    pub focus: Vec<Kd>,
    pub cache_only: bool,
    pub caps: &'static [u8],
    pub regress: Vec<Case>,
}

pub use kit::chars::{ch, lit, SPACES};
use kit::chars::wild;
fn pat(c: &mut Ch) -> Vec<char> {
    let n = 1 + c.weighted(&[6, 2, 1]);
    (0..n)
        .map(|_| match c.weighted(&[3, 3, 3, 3, 1]) {
            0 => 'x',
            1 => 'é',
            2 => '€',
            3 => '😀',
            _ => c.of(&SPACES),
        })
        .collect()
}
pub fn text(c: &mut Ch) -> StrSpec {
    match c.weighted(&[3, 10, 4, 8, 5, 2, 3, 1, 1, 4]) {
        0 => StrSpec::Lit(String::new()),
        1 => StrSpec::Lit(lit(c, 4)),
        2 if c.chance(1, 4) => StrSpec::Lit(wild(c)),
        2 => StrSpec::Lit(lit(c, 20)),
        3 => fill(c, Base::Remaining),
        4 => fill(c, Base::Cap),
        5 => fill(c, Base::Zero),
        6 => {
            // framed by white space
            let (a, m, b) = (c.pick(4), c.pick(4), c.pick(4));
            let mut s = String::new();
            (0..a).for_each(|_| s.push(c.of(&SPACES)));
            (0..m).for_each(|_| s.push(ch(c)));
            (0..b).for_each(|_| s.push(c.of(&SPACES)));
            StrSpec::Lit(s)
        }
        7 => StrSpec::Cur,
        9 => {
            let f = match c.weighted(&[3, 2, 2]) {
                0 => fill(c, Base::Remaining),
                1 => fill(c, Base::Cap),
                _ => fill(c, Base::Zero),
            };
            spotted(c, f)
        }
        _ => {
            // lengths that vanish or wrap when narrowed
            let delta = c.of(&[256i32, 255, 257, 511, 512, 513, 300, 254, 65535, 65536, 65537]);
            let k = if delta > 60_000 && !c.chance(1, 8) { 256 } else { delta };
            StrSpec::Fill { base: c.of(&[Base::Zero, Base::Remaining]), delta: k + c.range(-3, 3) as i32, pad: c.pick(4) as u8, pat: pat(c), over: c.flag() }
        }
    }
}
/// The same text with a few chars exchanged.
fn spotted(c: &mut Ch, f: StrSpec) -> StrSpec {
    const EDGE: [u8; 16] = [0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 126, 127, 128, 129];
    let n = 1 + c.pick(3);
    let spots = (0..n)
        .map(|_| {
            let at = match c.pick(3) {
                0 => Spot::Part(c.pick(256) as u8),
                1 => Spot::Front(c.of(&EDGE)),
                _ => Spot::Back(c.of(&EDGE)),
            };
            (at, ch(c))
        })
        .collect();
    StrSpec::Spots(Box::new(f), spots)
}
fn fill(c: &mut Ch, base: Base) -> StrSpec {
    let delta = match base {
        Base::Zero => c.pick(256) as i32,
        _ => *[0, -1, 1, -2, 2, -3, 3, -4, 4, 5, -5, 8, -8].get(c.pick(13) as usize).unwrap(),
    };
    StrSpec::Fill { base, delta, pad: c.pick(4) as u8, pat: pat(c), over: c.flag() }
}
fn texts(c: &mut Ch, max: u32) -> Vec<StrSpec> {
    let n = c.pick(max + 1);
    (0..n).map(|_| text(c)).collect()
}
pub fn idx(c: &mut Ch) -> Idx {
    match c.weighted(&[10, 4, 5, 3, 4, 2, 2, 1, 1]) {
        0 => Idx::Bnd(c.pick(64) as u16),
        1 => Idx::BndEnd(c.pick(4) as u16),
        2 => Idx::Inside(c.pick(64) as u16),
        3 => Idx::Byte(c.pick(260) as u16),
        4 => Idx::Len(c.range(-2, 4) as i16),
        5 => Idx::Cap(c.range(-2, 4) as i16),
        6 => Idx::Wrap { k: c.pick(64) as u16, shift: c.of(&[8u8, 16, 32, 63, 7, 62, 31, 9]), m: 1 + c.pick(3) as u8 },
        7 => Idx::Max(c.pick(6) as u8),
        _ => Idx::Abs(c.of(&[255usize, 256, 257, 127, 128, 65535, 65536, 1 << 31, u32::MAX as usize, usize::MAX / 2, usize::MAX / 2 + 1])),
    }
}
pub fn rng(c: &mut Ch) -> Rng {
    const BK: [Bk; 3] = [Bk::Inc, Bk::Exc, Bk::Unb];
    // mostly valid ranges
    let simple = c.chance(2, 3);
    let (a, b) = if simple { (Idx::Bnd(c.pick(64) as u16), Idx::Bnd(c.pick(64) as u16)) } else { (idx(c), idx(c)) };
    Rng {
        a,
        b,
        sort: simple || c.flag(),
        sk: BK[c.weighted(&[6, 2, 2])],
        ek: [Bk::Exc, Bk::Inc, Bk::Unb][c.weighted(&[5, 3, 2])],
    }
}
fn it(c: &mut Ch) -> It {
    match c.weighted(&[12, 6, 3, 3, 6, 2, 1]) {
        0 => It::Exact,
        1 => It::NoHint,
        2 => It::Upper,
        3 => It::Loose,
        4 => It::Endless,
        5 => It::Resumes,
        _ => It::Sparse(c.of(&[1, 3, 17, 64, 65, 128, 255, 256, 257, 300, 513, 1025])),
    }
}
fn pred(c: &mut Ch) -> Pred {
    match c.weighted(&[3, 3, 2, 2, 2]) {
        0 => Pred::Mask(c.u64()),
        1 => Pred::Width(c.pick(16) as u8),
        2 => Pred::NotWs,
        3 => Pred::Not(ch(c)),
        _ => Pred::First(c.pick(8) as u8),
    }
}
fn dsteps(c: &mut Ch) -> Vec<Ds> {
    let n = c.weighted(&[3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1]);
    (0..n)
        .map(|_| match c.weighted(&[6, 6, 1, 1, 3, 2, 2, 1, 1, 1, 1]) {
            0 => Ds::Front,
            1 => Ds::Back,
            2 => Ds::Nth(c.pick(4) as u8),
            3 => Ds::NthBack(c.pick(4) as u8),
            4 => Ds::AsStr,
            5 => Ds::Hint,
            6 => Ds::CopyRest,
            7 => Ds::Fmt,
            8 => Ds::Find(c.pick(4) as u8),
            9 => Ds::RFind(c.pick(4) as u8),
            _ => Ds::Any(c.pick(4) as u8),
        })
        .collect()
}
fn dend(c: &mut Ch) -> De {
    [De::Drop, De::Collect, De::Rev, De::CollectStr, De::RevStr, De::Count, De::Last, De::Fused, De::Fold, De::RFold, De::ForEach, De::Max][c.weighted(&[3, 4, 3, 1, 1, 1, 1, 3, 1, 1, 1, 1])]
}
/// UTF-16 units: valid text with broken surrogates worked in.
fn units(c: &mut Ch, cap: usize) -> Vec<u16> {
    let mut v: Vec<u16> = vec![];
    let near = c.chance(1, 3);
    let n = if near { 200 } else { 1 + c.pick(12) };
    let target = (cap as i64 + c.range(-4, 6)).max(0) as usize;
    let broken = c.weighted(&[3, 1, 2]);
    let filler = if near { Some(pat(c)) } else { None };
    let mut bytes = 0;
    let mut k = 0;
    while k < n {
        k += 1;
        if broken == 2 && !near && c.chance(1, 3) || broken == 1 && (near && bytes + 8 > target) && c.chance(1, 3) {
            match c.pick(4) {
                0 => v.push(0xd800 + c.pick(0x400) as u16),
                1 => v.push(0xdc00 + c.pick(0x400) as u16),
                2 => v.extend([0xdc00 + c.pick(0x400) as u16, 0xd800 + c.pick(0x400) as u16]),
                _ => v.extend([0xd83d, 0xd83d, 0xde00]),
            }
            bytes += 3;
        }
        let x = match &filler {
            Some(p) => p[k as usize % p.len()],
            None => ch(c),
        };
        if near && bytes > target {
            break;
        }
        bytes += x.len_utf8();
        v.extend(x.encode_utf16(&mut [0; 2]).iter());
    }
    if c.chance(1, 6) {
        v.push(c.of(&[0xd800u16, 0xdbff, 0xdc00, 0xdfff]));
    }
    v
}
fn u8b(c: &mut Ch, cap: usize) -> u8 {
    match c.weighted(&[4, 3, 1]) {
        0 => c.pick(10) as u8,
        1 => c.pick(cap as u32 + 3).min(255) as u8,
        _ => c.of(&[255u8, 254, 128, 127, 0]),
    }
}
pub fn op(c: &mut Ch, k: Kd, cap: usize) -> Op {
    match k {
        TryPushStr => Op::TryPushStr(text(c)),
        PushStrTrunc => Op::PushStrTrunc(text(c)),
        TryPush => Op::TryPush(ch(c)),
        Truncate => Op::Truncate(idx(c)),
        Pop => Op::Pop(),
        Trim => Op::Trim(),
        Remove => Op::Remove(idx(c)),
        Retain => Op::Retain(pred(c)),
        TryInsert => Op::TryInsert(idx(c), ch(c)),
        TryInsertStr => Op::TryInsertStr(idx(c), text(c)),
        InsertStrTrunc => Op::InsertStrTrunc(idx(c), text(c)),
        SplitOff => Op::SplitOff(idx(c)),
        Clear => Op::Clear(),
        Drain => Op::Drain(rng(c), dsteps(c), dend(c)),
        Replace => Op::Replace(rng(c), text(c)),
        Add => Op::Add(text(c)),
        ExtChars => Op::ExtChars(it(c), text(c)),
        ExtCharRefs => Op::ExtCharRefs(it(c), text(c)),
        ExtStrs => Op::ExtStrs(it(c), texts(c, 5)),
        WriteStr => Op::WriteStr(text(c)),
        WriteChar => Op::WriteChar(ch(c)),
        WriteFmt => Op::WriteFmt(texts(c, 4)),
        New => Op::New(c.flag()),
        CtorStr => Op::CtorStr(c.of(&[Sc::TryFromStr, Sc::FromStr, Sc::FromStrTrunc, Sc::FromRef]), text(c)),
        CtorIter => Op::CtorIter(c.of(&[Ic::TryIter, Ic::IterTrunc, Ic::FromIter]), it(c), texts(c, 5)),
        CtorChars => Op::CtorChars(c.of(&[Ic::TryIter, Ic::IterTrunc, Ic::FromIter]), it(c), text(c)),
        CtorU16 => Op::CtorU16(c.of(&[Uc::Try, Uc::Trunc, Uc::Lossy]), units(c, cap)),
        Index => Op::Index(c.of(&RKS), u8b(c, cap), u8b(c, cap)),
        IndexMut => Op::IndexMut(c.of(&RKS), u8b(c, cap), u8b(c, cap)),
        Compare => {
            let mut v = texts(c, 3);
            if c.flag() {
                v.push(StrSpec::Cur)
            }
            Op::Compare(v, c.flag())
        }
        Fmt => Op::Fmt(c.pick(20) as u8),
        MutView => Op::MutView(
            c.of(&MVS),
            match c.pick(3) {
                0 => Ed::Upper,
                1 => Ed::Lower,
                _ => Ed::UpperPart(c.pick(256) as u8, c.pick(256) as u8),
            },
        ),
        Copies => {
            let inner = c.of(&[TryPushStr, PushStrTrunc, Truncate, Pop, Trim, Remove, Retain, TryInsertStr, Clear, Drain, Replace, MutView, IndexMut, CtorStr]);
            Op::Copies(c.flag(), Box::new(op(c, inner, cap)), c.flag())
        }
        Hostile => {
            let t = c.of(&HTS);
            let mut v = texts(c, 2);
            v.push(text(c));
            let r = vec![rng(c), rng(c), rng(c)];
            let i = idx(c);
            let p = if c.flag() { Some(c.pick(12) as u8) } else { None };
            Op::Hostile(t, v, r, i, p, c.pick(16) as u8)
        }
    }
}
pub fn cap(c: &mut Ch, p: &Profile) -> Cap {
    if p.cache_only {
        return Cap::Cache;
    }
    match c.weighted(&[5, 12, 2]) {
        0 => Cap::A(p.caps[c.pick(9) as usize]),
        1 => Cap::A(c.of(p.caps)),
        _ => Cap::Cache,
    }
}
/// A history: initial text, then operations.
pub fn history(c: &mut Ch, p: &Profile) -> Case {
    let cap = cap(c, p);
    let dirty = c.flag();
    let init = text(c);
    let w: Vec<u32> = p.mix.iter().map(|x| x.1).collect();
    let mut ops = vec![];
    loop {
        let k = c.weighted(&w);
        ops.push(op(c, p.mix[k].0, cap.bytes()));
        // ends with probability 1/8
        if ops.len() >= 24 || c.pick(8) == 0 {
            break;
        }
    }
    Case { cap, dirty, init, ops }
}
/// One focused operation at a capacity boundary: the storage nearly full of chars of one width.
pub fn boundary(c: &mut Ch, p: &Profile) -> Case {
    let cap = if p.cache_only { Cap::Cache } else { Cap::A(c.of(p.caps)) };
    let wide = |c: &mut Ch| c.of(&['x', 'é', '€', '😀']);
    let init = StrSpec::Fill { base: Base::Cap, delta: -(c.weighted(&[4, 2, 2, 2, 2, 1, 1, 1, 1]) as i32), pad: c.pick(4) as u8, pat: vec![wide(c)], over: false };
    let init = if c.pick(4) == 3 { spotted(c, init) } else { init };
    let k = c.of(&p.focus);
    let mut o = op(c, k, cap.bytes());
    // aim texts at the room that is left
    if c.chance(3, 4) {
        let aimed = StrSpec::Fill { base: Base::Remaining, delta: c.range(-4, 5) as i32, pad: c.pick(4) as u8, pat: vec![wide(c)], over: c.flag() };
        match &mut o {
            Op::TryPushStr(x) | Op::PushStrTrunc(x) | Op::TryInsertStr(_, x) | Op::InsertStrTrunc(_, x) | Op::Replace(_, x) => *x = aimed,
            Op::Add(x) | Op::ExtChars(_, x) | Op::ExtCharRefs(_, x) | Op::WriteStr(x) | Op::CtorStr(_, x) | Op::CtorChars(_, _, x) => *x = aimed,
            Op::ExtStrs(_, v) | Op::WriteFmt(v) | Op::CtorIter(_, _, v) => v.insert(0, aimed),
            _ => {}
        }
    }
    let mut ops = vec![o];
    for _ in 0..c.pick(3) {
        let k = c.of(&p.focus);
        ops.push(op(c, k, cap.bytes()));
    }
    Case { cap, dirty: c.flag(), init, ops }
}

const TINY: [char; 5] = ['a', ' ', 'é', '€', '😀'];
/// Every string over `TINY` of at most `max` chars.
fn tiny(c: &mut Ch, max: u32) -> String {
    let n = c.pick(max + 1);
    (0..n).map(|_| c.of(&TINY)).collect()
}
fn tiny_idx(c: &mut Ch, cap: usize) -> Idx {
    let n = cap as u32 + 3;
    let k = c.pick(n + 3);
    if k < n {
        Idx::Abs(k as usize)
    } else {
        [Idx::Max(0), Idx::Abs(256), Idx::Wrap { k: 1, shift: 8, m: 1 }][(k - n) as usize]
    }
}
fn tiny_rng(c: &mut Ch, cap: usize) -> Rng {
    let (sk, ek) = c.of(&[(Bk::Inc, Bk::Exc), (Bk::Inc, Bk::Inc), (Bk::Unb, Bk::Exc), (Bk::Inc, Bk::Unb), (Bk::Exc, Bk::Exc), (Bk::Unb, Bk::Unb), (Bk::Unb, Bk::Inc), (Bk::Exc, Bk::Unb)]);
    let z = Idx::Abs(0);
    Rng {
        a: if sk == Bk::Unb { z } else { tiny_idx(c, cap) },
        b: if ek == Bk::Unb { z } else { tiny_idx(c, cap) },
        sort: false,
        sk,
        ek,
    }
}
/// Small scope, meant to be enumerated completely: one operation on one short text, with every
/// argument from a small set. The first choice selects capacity and family together.
pub fn small(c: &mut Ch, p: &Profile, depth: u32) -> Case {
    let caps: &[u8] = if depth > 2 { &[1, 2, 3, 4, 5, 6, 7] } else { &[1, 2, 3, 4, 5] };
    let nf = p.focus.len() as u32;
    let first = c.pick(caps.len() as u32 * nf);
    let k = p.focus[(first % nf) as usize];
    let n = caps[(first / nf) as usize] as usize;
    let cap = if p.cache_only { Cap::Cache } else { Cap::A(n as u8) };
    let mut init = tiny(c, depth.min(n as u32));
    if init.len() > n {
        // does not fit: keep the part that does
        init = crate::model::prefix(&init, n).to_owned();
    }
    let t = |c: &mut Ch| StrSpec::Lit(tiny(c, 2));
    let cc = |c: &mut Ch| c.of(&TINY);
    let it = |c: &mut Ch| c.of(&[It::Exact, It::NoHint, It::Endless, It::Resumes, It::Sparse(300)]);
    let tv = |c: &mut Ch| (0..2).map(|_| StrSpec::Lit(tiny(c, 1))).collect::<Vec<_>>();
    let o = match k {
        TryPushStr => Op::TryPushStr(t(c)),
        PushStrTrunc => Op::PushStrTrunc(t(c)),
        TryPush => Op::TryPush(cc(c)),
        Truncate => Op::Truncate(tiny_idx(c, n)),
        Pop => Op::Pop(),
        Trim => Op::Trim(),
        Remove => Op::Remove(tiny_idx(c, n)),
        Retain => Op::Retain(Pred::Mask(c.pick(8) as u64)),
        TryInsert => Op::TryInsert(tiny_idx(c, n), cc(c)),
        TryInsertStr => Op::TryInsertStr(tiny_idx(c, n), t(c)),
        InsertStrTrunc => Op::InsertStrTrunc(tiny_idx(c, n), t(c)),
        SplitOff => Op::SplitOff(tiny_idx(c, n)),
        Clear => Op::Clear(),
        Drain => {
            let r = tiny_rng(c, n);
            let steps: Vec<Ds> = match c.pick(4) {
                0 => vec![],
                1 => vec![Ds::Front, Ds::AsStr, Ds::Hint],
                2 => vec![Ds::Back, Ds::AsStr, Ds::CopyRest],
                _ => vec![Ds::Back, Ds::Front, Ds::AsStr],
            };
            Op::Drain(r, steps, c.of(&[De::Drop, De::Fused, De::Rev]))
        }
        Replace => Op::Replace(tiny_rng(c, n), t(c)),
        Add => Op::Add(t(c)),
        ExtChars => Op::ExtChars(it(c), t(c)),
        ExtCharRefs => Op::ExtCharRefs(it(c), t(c)),
        ExtStrs => Op::ExtStrs(it(c), tv(c)),
        WriteStr => Op::WriteStr(t(c)),
        WriteChar => Op::WriteChar(cc(c)),
        WriteFmt => Op::WriteFmt(tv(c)),
        New => Op::New(c.flag()),
        CtorStr => Op::CtorStr(c.of(&[Sc::TryFromStr, Sc::FromStr, Sc::FromStrTrunc, Sc::FromRef]), t(c)),
        CtorIter => Op::CtorIter(c.of(&[Ic::TryIter, Ic::IterTrunc, Ic::FromIter]), it(c), tv(c)),
        CtorChars => Op::CtorChars(c.of(&[Ic::TryIter, Ic::IterTrunc, Ic::FromIter]), it(c), t(c)),
        CtorU16 => {
            let len = c.pick(5);
            let v = (0..len).map(|_| c.of(&[0x61u16, 0xe9, 0x20ac, 0xd83d, 0xde00, 0xfffd])).collect();
            Op::CtorU16(c.of(&[Uc::Try, Uc::Trunc, Uc::Lossy]), v)
        }
        Index => Op::Index(c.of(&RKS), c.pick(n as u32 + 3) as u8, c.pick(n as u32 + 3) as u8),
        IndexMut => Op::IndexMut(c.of(&RKS), c.pick(n as u32 + 3) as u8, c.pick(n as u32 + 3) as u8),
        Compare => Op::Compare(vec![t(c)], c.flag()),
        Fmt => Op::Fmt(c.of(&[0, 4, 15])),
        MutView => Op::MutView(c.of(&MVS), c.of(&[Ed::Upper, Ed::UpperPart(0, 2), Ed::UpperPart(1, 255)])),
        Copies => {
            let inner = match c.pick(5) {
                0 => Op::PushStrTrunc(StrSpec::Lit("b".into())),
                1 => Op::Clear(),
                2 => Op::Remove(Idx::Bnd(0)),
                3 => Op::MutView(Mv::AsMutStr, Ed::Upper),
                _ => Op::Pop(),
            };
            Op::Copies(c.flag(), Box::new(inner), c.flag())
        }
        Hostile => {
            let ht = c.of(&HTS);
            // only what this call looks at
            let ranged = matches!(ht, Ht::Replace | Ht::DrainRange | Ht::ReplaceRange);
            let hinted = matches!(ht, Ht::TryIter | Ht::IterTrunc | Ht::FromIterStr | Ht::TryChars | Ht::CharsTrunc | Ht::FromIterChar | Ht::ExtChars | Ht::ExtCharRefs | Ht::ExtStrs | Ht::Retain);
            let mut v = vec![StrSpec::Lit(String::new()); 2];
            if !matches!(ht, Ht::Retain | Ht::DrainRange) {
                v = (0..2).map(|_| StrSpec::Lit(tiny(c, 1))).collect();
            }
            let (lo, hi) = if ranged { c.of(&[(0usize, 1usize), (0, 2), (1, 2), (2, 0)]) } else { (0, 0) };
            let r = |a: usize, b: usize| Rng { a: Idx::Abs(a), b: Idx::Abs(b), sort: false, sk: Bk::Inc, ek: Bk::Exc };
            let i = if matches!(ht, Ht::TryInsertStr | Ht::InsertStrTrunc) { c.pick(2) as usize } else { 0 };
            let p = c.pick(4);
            let hint = if hinted { c.of(&[0u8, 1, 11]) } else { 0 };
            Op::Hostile(ht, v, vec![r(lo, hi), r(hi, lo)], Idx::Abs(i), if p == 0 { None } else { Some(p as u8 - 1) }, hint)
        }
    };
    Case { cap, dirty: c.flag(), init: StrSpec::Lit(init), ops: vec![o] }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Gen {
    Small,
    SmallDeep,
    Boundary,
    History,
    Regress,
}
pub const GENS: [Gen; 5] = [Gen::Small, Gen::SmallDeep, Gen::Boundary, Gen::History, Gen::Regress];
impl Gen {
    pub fn case(self, c: &mut Ch, p: &Profile) -> Case {
        match self {
            Gen::Small => small(c, p, 2),
            Gen::SmallDeep => small(c, p, 3),
            Gen::Boundary => boundary(c, p),
            Gen::History => history(c, p),
            Gen::Regress => {
                let v = &p.regress;
                v[c.pick(v.len() as u32) as usize].clone()
            }
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Gen::Small => "small",
            Gen::SmallDeep => "small-deep",
            Gen::Boundary => "boundary",
            Gen::History => "history",
            Gen::Regress => "regress",
        }
    }
    pub fn parse(s: &str) -> Option<Gen> {
        GENS.into_iter().find(|g| g.name() == s)
    }
    pub fn id(self) -> u32 {
        self as u32
    }
    pub fn from_id(i: u32) -> Option<Gen> {
        GENS.get(i as usize).copied()
    }
}
