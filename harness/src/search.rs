//! The search: enumerated small scope, then seeded random blocks on all cores, then shrinking.
use crate::choices::{next_odometer, Ch, Rng};
use crate::engine::{run, run_unjudged, Facet, Opts, Pool, Prop, Report};
use crate::gen::{Gen, Profile};
pub use kit::{map_slots, shrink, Slots, SLOT};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub const BLOCK: u64 = 256;

pub struct Plan {
    pub prop: Prop,
    pub seed: u64,
    pub salt: u64,
    pub small: Option<Gen>,
    pub boundary: u64,
    pub history: u64,
    pub threads: usize,
    pub digests: bool,
}
#[derive(Default, Clone)]
pub struct Tally {
    pub cases: u64,
    pub steps: u64,
    pub nontrivial_cases: u64,
    pub nontrivial_steps: u64,
    pub failed_ops: u64,
    pub cut_ops: u64,
    pub full_states: u64,
    pub wide_states: u64,
    pub foreign: u64,
    pub foreign_example: Option<(Gen, Vec<u32>)>,
    pub by_gen: [u64; 5],
    pub keys: HashSet<u64>,
    pub samples: Vec<(Gen, Vec<u32>)>,
    pub digests: Vec<(u32, u64, u64)>,
}
impl Tally {
    pub fn add(&mut self, g: Gen, r: &Report, c: &Ch) {
        self.cases += 1;
        self.by_gen[g.id() as usize] += 1;
        self.steps += r.steps as u64;
        self.nontrivial_steps += r.nontrivial as u64;
        self.failed_ops += r.failed_ops as u64;
        self.cut_ops += r.cut_ops as u64;
        self.full_states += r.full_states as u64;
        self.wide_states += r.wide_states as u64;
        self.foreign += r.foreign as u64;
        if r.foreign > 0 && self.foreign_example.is_none() {
            self.foreign_example = Some((g, c.choices()));
        }
        if r.nontrivial > 0 {
            self.nontrivial_cases += 1;
            if self.keys.insert(r.key) && self.samples.len() < 40 && self.keys.len() % 997 == 1 {
                self.samples.push((g, c.choices()));
            }
        }
    }
    fn merge(&mut self, o: Tally) {
        self.cases += o.cases;
        self.steps += o.steps;
        self.nontrivial_cases += o.nontrivial_cases;
        self.nontrivial_steps += o.nontrivial_steps;
        self.failed_ops += o.failed_ops;
        self.cut_ops += o.cut_ops;
        self.full_states += o.full_states;
        self.wide_states += o.wide_states;
        self.foreign += o.foreign;
        if self.foreign_example.is_none() {
            self.foreign_example = o.foreign_example;
        }
        for i in 0..5 {
            self.by_gen[i] += o.by_gen[i];
        }
        self.keys.extend(o.keys);
        self.samples.extend(o.samples);
        self.digests.extend(o.digests);
    }
}
#[derive(Clone, Debug)]
pub struct Hit {
    pub gen: Gen,
    pub order: (u64, u64),
    pub choices: Vec<u32>,
    pub facet: Facet,
    pub detail: String,
}

/// Rng of one block: depends on nothing but the plan's seed and the block's name.
pub fn block_rng(plan: &Plan, g: Gen, b: u64) -> Rng {
    let mut r = Rng::new(plan.seed ^ plan.salt.wrapping_mul(0x51_7c_c1_b7_27_22_0a_95));
    let x = r.next() ^ (plan.prop as u64) << 48 ^ (g.id() as u64) << 40;
    Rng::new(x.wrapping_add(b.wrapping_mul(0x2545_F491_4F6C_DD1D)))
}

/// All prefixes of `n` choices of a generator.
pub fn prefixes(g: Gen, p: &Profile, n: usize) -> Vec<Vec<u32>> {
    let mut out = vec![];
    let mut next = Some(vec![]);
    let mut c = Ch::given(vec![]);
    while let Some(v) = next {
        c.regive(&v);
        g.case(&mut c, p);
        let k = c.rec.len().min(n);
        out.push(c.rec[..k].iter().map(|x| x.0).collect());
        next = next_odometer(&c.rec[..k], 0);
    }
    out
}

pub fn search(plan: &Plan, slots: Slots) -> (Tally, Option<Hit>) {
    let profile = plan.prop.profile();
    let opts = Opts { prop: plan.prop, trace: false, watch: false };
    let total = Mutex::new(Tally::default());
    let hits: Mutex<Vec<Hit>> = Mutex::new(vec![]);
    // stop handing out work that comes after a failure
    let limit = AtomicU64::new(u64::MAX);
    let phases: Vec<(Gen, u64)> = {
        let mut v = vec![(Gen::Regress, profile.regress.len() as u64)];
        if let Some(g) = plan.small {
            v.push((g, 0));
        }
        v.push((Gen::Boundary, plan.boundary));
        v.push((Gen::History, plan.history));
        v
    };
    for (ph, (g, n)) in phases.into_iter().enumerate() {
        if limit.load(Ordering::SeqCst) != u64::MAX {
            break;
        }
        let enumerated = matches!(g, Gen::Small | Gen::SmallDeep | Gen::Regress);
        let items = if enumerated { prefixes(g, &profile, 4) } else { vec![] };
        let count = if enumerated { items.len() as u64 } else { n.div_ceil(BLOCK) };
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for t in 0..plan.threads {
                let (items, next, total, hits, limit, profile, opts) = (&items, &next, &total, &hits, &limit, &profile, &opts);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut pool = Pool::default();
                        let mut tally = Tally::default();
                        loop {
                            let b = next.fetch_add(1, Ordering::Relaxed) as u64;
                            if b >= count || b > limit.load(Ordering::SeqCst) {
                                break;
                            }
                            let mut dig = 0u64;
                            let mut one = |c: &mut Ch, i: u64| -> bool {
                                let case = g.case(c, profile);
                                slots.note(t, g.id(), &c.rec);
                                let r = run(&mut pool, &case, opts);
                                slots.done(t);
                                tally.add(g, &r, c);
                                dig = dig.rotate_left(5).wrapping_mul(0x100000001b3) ^ r.digest;
                                if let Some(f) = r.finding {
                                    hits.lock().unwrap().push(Hit { gen: g, order: (b, i), choices: c.choices(), facet: f.facet, detail: f.detail });
                                    limit.fetch_min(b, Ordering::SeqCst);
                                    return true;
                                }
                                false
                            };
                            if enumerated {
                                let fixed = items[b as usize].len();
                                let mut nx = Some(items[b as usize].clone());
                                let mut c = Ch::given(vec![]);
                                let mut i = 0;
                                while let Some(v) = nx {
                                    c.regive(&v);
                                    if one(&mut c, i) {
                                        break;
                                    }
                                    i += 1;
                                    nx = next_odometer(&c.rec, fixed);
                                }
                            } else {
                                let mut c = Ch::random(block_rng(plan, g, b));
                                for i in 0..BLOCK {
                                    c.again();
                                    if one(&mut c, i) {
                                        break;
                                    }
                                }
                            }
                            if plan.digests {
                                tally.digests.push((g.id(), b, dig));
                            }
                        }
                        let _ = ph;
                        total.lock().unwrap().merge(tally);
                    })
                    .expect("cannot start a thread");
            }
        });
    }
    let mut hits = hits.into_inner().unwrap();
    hits.sort_by_key(|h| (h.gen.id(), h.order));
    let mut t = total.into_inner().unwrap();
    t.digests.sort();
    (t, hits.into_iter().next())
}

/// Random cases one after another on this thread, each noted in a file before it runs: for interpreters.
/// Unless `judged`, only the interpreter judges.
pub fn search_slowly(plan: &Plan, note: &str, seconds: u64, judged: bool) -> (Tally, Option<Hit>) {
    let start = std::time::Instant::now();
    let profile = plan.prop.profile();
    let opts = Opts { prop: plan.prop, trace: false, watch: false };
    let mut tally = Tally::default();
    let mut pool = Pool::default();
    for b in 0..plan.boundary.max(plan.history) {
        if start.elapsed().as_secs() >= seconds {
            break;
        }
        // one of each in turn, and as many small ones as take the same time
        for (g, n) in [(Gen::Boundary, plan.boundary), (Gen::History, plan.history)].into_iter().chain(plan.small.map(|g| (g, u64::MAX)).into_iter().cycle().take(4)) {
            if b >= n || start.elapsed().as_secs() >= seconds {
                continue;
            }
            let mut c = Ch::random(block_rng(plan, g, if g == Gen::Boundary || g == Gen::History { b } else { 1_000_000 + tally.cases }));
            let case = g.case(&mut c, &profile);
            let mut raw = vec![];
            for (x, _) in std::iter::once(&(g.id(), 0)).chain(&c.rec) {
                raw.extend_from_slice(&x.to_le_bytes());
            }
            std::fs::write(note, &raw).expect("note file");
            if judged {
                let r = run(&mut pool, &case, &opts);
                tally.add(g, &r, &c);
                if let Some(f) = r.finding {
                    let h = Hit { gen: g, order: (b, 0), choices: c.choices(), facet: f.facet, detail: f.detail };
                    return (tally, Some(h));
                }
                continue;
            }
            let mut r = run_unjudged(&mut pool, &case, &opts);
            r.key = raw.chunks(4).fold(case.cap.bytes() as u64, |h, x| (h ^ u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as u64).wrapping_mul(0x100000001b3).rotate_left(29));
            tally.add(g, &r, &c);
        }
    }
    (tally, None)
}

/// Reruns one choice sequence.
pub fn rerun(prop: Prop, g: Gen, choices: &[u32], trace: bool) -> (Report, crate::ops::Case) {
    rerun_watched(prop, g, choices, trace, false)
}
pub fn rerun_watched(prop: Prop, g: Gen, choices: &[u32], trace: bool, watch: bool) -> (Report, crate::ops::Case) {
    let profile = prop.profile();
    let mut c = Ch::given(choices.to_vec());
    let case = g.case(&mut c, &profile);
    let r = run(&mut Pool::default(), &case, &Opts { prop, trace, watch });
    (r, case)
}
