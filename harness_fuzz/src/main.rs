//! libFuzzer over the engine's cases: the first byte chooses the generator, the rest are its choices.
//!
//! FUZZ_PROP, FUZZ_OUT (result), FUZZ_HASHES (distinct cases), FUZZ_SLOTS (the running case, survives the process).
#![no_main]
use harness::choices::Ch;
use harness::engine::{run, Opts, Pool, Prop};
use harness::gen::{Gen, Profile};
use harness::meter::quiet_panics;
use harness::search::Tally;
use kit::{js, map_slots, nums, Slots};
use libfuzzer_sys as _;
use std::fmt::Write as _;

#[global_allocator]
static A: harness::meter::Counting = harness::meter::Counting;

struct State {
    prop: Prop,
    profile: Profile,
    pool: Pool,
    tally: Tally,
    slots: Slots,
    finding: Option<String>,
}
static mut STATE: Option<State> = None;

fn var(k: &str) -> Option<String> {
    std::env::var(k).ok()
}

extern "C" fn write_out() {
    let Some(s) = (unsafe { (*(&raw mut STATE)).as_mut() }) else { return };
    let t = &s.tally;
    let mut o = String::from("{\n");
    write!(
        o,
        "\"cases\": {}, \"steps\": {}, \"nontrivial_cases\": {}, \"nontrivial_steps\": {}, \"distinct_nontrivial\": {},\n\"failed_ops\": {}, \"cut_ops\": {}, \"full_states\": {}, \"non_ascii_states\": {}, \"foreign_deviations\": {},\n",
        t.cases, t.steps, t.nontrivial_cases, t.nontrivial_steps, t.keys.len(), t.failed_ops, t.cut_ops, t.full_states, t.wide_states, t.foreign
    )
    .unwrap();
    write!(o, "\"rule\": {}, \"samples\": [], \"finding\": {}\n}}\n", js(s.prop.rule()), s.finding.as_deref().unwrap_or("null")).unwrap();
    if let Some(f) = var("FUZZ_HASHES") {
        let b: Vec<u8> = t.keys.iter().flat_map(|k| k.to_le_bytes()).collect();
        let _ = std::fs::write(f, b);
    }
    if let Some(f) = var("FUZZ_OUT") {
        let _ = std::fs::write(f, o);
    }
}

fn start() {
    quiet_panics();
    let prop = Prop::parse(&var("FUZZ_PROP").unwrap_or_default()).expect("FUZZ_PROP");
    let slots = var("FUZZ_SLOTS").map(|f| map_slots(&f, 1)).unwrap_or(Slots(std::ptr::null_mut(), 0));
    unsafe {
        STATE = Some(State { prop, profile: prop.profile(), pool: Pool::default(), tally: Tally::default(), slots, finding: None });
        libc::atexit(write_out);
    }
}

#[no_mangle]
fn rust_fuzzer_test_input(data: &[u8]) -> i32 {
    if unsafe { (*(&raw const STATE)).is_none() } {
        start();
    }
    let s = unsafe { (*(&raw mut STATE)).as_mut().unwrap() };
    let Some((first, rest)) = data.split_first() else { return -1 };
    let g = if first % 2 == 0 { Gen::History } else { Gen::Boundary };
    let mut c = Ch::bytes(rest);
    let case = g.case(&mut c, &s.profile);
    s.slots.note(0, g.id(), &c.rec);
    let r = run(&mut s.pool, &case, &Opts { prop: s.prop, trace: false, watch: false });
    s.slots.done(0);
    s.tally.add(g, &r, &c);
    s.tally.samples.clear();
    if let Some(f) = r.finding {
        s.finding = Some(format!(
            "{{\"facet\": {}, \"detail\": {}, \"generator\": {}, \"choices\": {}, \"case\": null}}",
            js(&format!("{:?}", f.facet)), js(&f.detail), js(g.name()), nums(&c.choices())
        ));
        write_out();
        unsafe { libc::_exit(77) };
    }
    0
}
