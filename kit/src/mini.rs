//! A driver for the smaller harnesses: the same phases, evidence and replay as the engine's.
use crate::choices::{next_odometer, Ch, Rng};
use crate::{js, list, map_slots, nums, short, shrink, Slots};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::{Debug, Write as _};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Default, Debug)]
pub struct Verdict {
    /// what is wrong, if anything
    pub finding: Option<String>,
    pub nontrivial: bool,
    /// what sort of case it was, for the distribution
    pub classes: Vec<&'static str>,
    /// what was observed
    pub trace: Vec<String>,
}
pub trait Problem {
    type Case: Debug + Hash;
    /// per-thread state (a connection, say)
    type Ctx;
    fn ctx(&self) -> Self::Ctx;
    /// `small` generators are enumerated completely.
    fn case(&self, c: &mut Ch, small: bool) -> Self::Case;
    fn check(&self, ctx: &mut Self::Ctx, case: &Self::Case, trace: bool) -> Verdict;
    fn rule(&self) -> String;
}
const BLOCK: u64 = if cfg!(miri) { 1 } else { 256 };

/// Same numbering as the engine's generators: 0 small, 3 history.
fn gen_name(small: bool) -> &'static str {
    if small {
        "small"
    } else {
        "history"
    }
}

/// All that one case shows: what was observed and what is wrong with it.
fn digest(v: &Verdict) -> u64 {
    key(&(&v.trace, &v.finding))
}

struct Hit {
    order: (u64, u64),
    small: bool,
    choices: Vec<u32>,
    detail: String,
}
#[derive(Default)]
struct Tally {
    cases: u64,
    nontrivial: u64,
    by: [u64; 2],
    classes: BTreeMap<&'static str, u64>,
    keys: HashSet<u64>,
    samples: Vec<(bool, Vec<u32>)>,
    /// per block, when asked for
    digests: Vec<(bool, u64, u64)>,
}

fn prefixes<P: Problem>(p: &P, n: usize) -> Vec<Vec<u32>> {
    let mut out = vec![];
    let mut next = Some(vec![]);
    let mut c = Ch::given(vec![]);
    while let Some(v) = next {
        c.regive(&v);
        p.case(&mut c, true);
        let k = c.rec.len().min(n);
        out.push(c.rec[..k].iter().map(|x| x.0).collect());
        next = next_odometer(&c.rec[..k], 0);
    }
    out
}
fn key<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn enumerated(items: &[Vec<u32>], b: u64, mut one: impl FnMut(&mut Ch, u64) -> bool) {
    let fixed = items[b as usize].len();
    let mut nx = Some(items[b as usize].clone());
    let mut c = Ch::given(vec![]);
    let mut i = 0;
    while let Some(v) = nx {
        c.regive(&v);
        if one(&mut c, i) {
            break;
        }
        i += 1;
        nx = next_odometer(&c.rec, fixed);
    }
}
fn drawn(seed: u64, salt: u64, b: u64, mut one: impl FnMut(&mut Ch, u64) -> bool) {
    let mut r = Rng::new(seed ^ salt.wrapping_mul(0x517c_c1b7_2722_0a95));
    let x = r.next();
    let mut c = Ch::random(Rng::new(x.wrapping_add(b.wrapping_mul(0x2545_F491_4F6C_DD1D))));
    for i in 0..BLOCK {
        c.again();
        if one(&mut c, i) {
            break;
        }
    }
}
fn written<P: Problem>(p: &P, small: bool, choices: &[u32]) -> (Verdict, String) {
    let mut c = Ch::given(choices.to_vec());
    let case = p.case(&mut c, small);
    let v = p.check(&mut p.ctx(), &case, true);
    let s = format!(
        "{{\"generator\": {}, \"choices\": {}, \"case\": {}, \"steps\": {}}}",
        js(gen_name(small)),
        nums(choices),
        js(&short(&format!("{:?}", case))),
        list(&v.trace, |t| js(&short(t)))
    );
    (v, s)
}

/// `run|one|block|union` over the problem that `pick` chooses for `--prop`.
pub fn main<P: Problem + Sync>(pick: impl Fn(&str) -> Option<P>) {
    let mut args: HashMap<String, String> = HashMap::new();
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut rest = vec![];
    while let Some(a) = it.next() {
        match a.strip_prefix("--") {
            Some(k) => {
                args.insert(k.to_owned(), it.next().unwrap_or_default());
            }
            None => rest.push(a),
        }
    }
    if cmd == "union" {
        let mut set = HashSet::new();
        for f in &rest {
            let b = std::fs::read(f).expect("hash file");
            set.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        println!("{}", set.len());
        return;
    }
    #[cfg(feature = "log")]
    if args.get("logger").is_some_and(|x| x == "1") || std::env::var_os("KIT_LOGGER").is_some() {
        crate::logger::install();
    }
    let p = pick(args.get("prop").map(|s| s.as_str()).unwrap_or("")).expect("--prop");
    let num = |k: &str, d: u64| args.get(k).map(|v| v.parse().expect("a number")).unwrap_or(d);
    match cmd.as_str() {
        "run" => {
            let threads = num("threads", 8) as usize;
            let slots = args.get("slots").map(|f| map_slots(f, threads)).unwrap_or(Slots(std::ptr::null_mut(), 0));
            let (t, hit) = search(&p, num("seed", 1), num("salt", 0), args.contains_key("small"), num("history", 10_000), threads, args.contains_key("digests"), num("seconds", u64::MAX), slots);
            let mut o = String::from("{\n");
            write!(
                o,
                "\"cases\": {}, \"nontrivial_cases\": {}, \"distinct_nontrivial\": {}, \"by_generator\": {{\"small\": {}, \"history\": {}}},\n\"classes\": {{{}}},\n\"rule\": {},\n",
                t.cases,
                t.nontrivial,
                t.keys.len(),
                t.by[0],
                t.by[1],
                t.classes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "),
                js(&p.rule())
            )
            .unwrap();
            let picked: Vec<_> = [true, false].iter().flat_map(|s| t.samples.iter().filter(|x| x.0 == *s).take(3)).collect();
            write!(o, "\"samples\": {},\n", list(picked, |s| written(&p, s.0, &s.1).1)).unwrap();
            match hit {
                None => o.push_str("\"finding\": null\n}\n"),
                Some(h) => {
                    let found = |d: &str, c: &[u32], case: &str| {
                        format!("\"finding\": {{\"detail\": {}, \"generator\": {}, \"choices\": {}, \"found_as\": {}, \"case\": {}}}\n}}\n", js(d), js(gen_name(h.small)), nums(c), nums(&h.choices), case)
                    };
                    std::fs::write(&args["out"], format!("{}{}", o, found(&h.detail, &h.choices, "null"))).expect("result file");
                    let mut ctx = p.ctx();
                    let small = shrink(&h.choices, if cfg!(miri) { 60 } else { 3000 }, |v| {
                        let case = p.case(&mut Ch::given(v.to_vec()), h.small);
                        p.check(&mut ctx, &case, false).finding.is_some()
                    });
                    let (v, w) = written(&p, h.small, &small);
                    o.push_str(&found(&v.finding.unwrap_or(h.detail.clone()), &small, &w));
                }
            }
            if let Some(f) = args.get("digests") {
                let lines: String = t.digests.iter().map(|d| format!("{} {} {:016x}\n", gen_name(d.0), d.1, d.2)).collect();
                std::fs::write(f, lines).expect("digest file");
            }
            if let Some(f) = args.get("hashes") {
                let b: Vec<u8> = t.keys.iter().flat_map(|k| k.to_le_bytes()).collect();
                std::fs::write(f, b).expect("hash file");
            }
            std::fs::write(&args["out"], o).expect("result file");
        }
        "one" => {
            let choices: Vec<u32> = args["choices"].split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().expect("choices")).collect();
            if args.contains_key("watch") {
                eprintln!("STEP 0 1 the whole case");
            }
            let (v, w) = written(&p, args["gen"] == "small", &choices);
            println!("{{\"digest\": \"{:016x}\", \"case\": {}, \"finding\": {}}}", digest(&v), w, v.finding.as_deref().map(js).unwrap_or("null".into()));
            if v.finding.is_some() {
                std::process::exit(1);
            }
        }
        "block" => {
            let mut ctx = p.ctx();
            let small = args["gen"] == "small";
            let mut one = |c: &mut Ch, _: u64| {
                let case = p.case(c, small);
                let v = p.check(&mut ctx, &case, true);
                println!("{:016x} {}", digest(&v), c.choices().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                false
            };
            let b = num("block", 0);
            if small {
                enumerated(&prefixes(&p, 3), b, &mut one);
            } else {
                drawn(num("seed", 1), num("salt", 0), b, &mut one);
            }
        }
        _ => {
            eprintln!("usage: run|one|block|union --prop Cnn ...");
            std::process::exit(2);
        }
    }
}

fn search<P: Problem + Sync>(p: &P, seed: u64, salt: u64, small: bool, history: u64, threads: usize, digests: bool, seconds: u64, slots: Slots) -> (Tally, Option<Hit>) {
    let start = std::time::Instant::now();
    let total = Mutex::new(Tally::default());
    let hits: Mutex<Vec<Hit>> = Mutex::new(vec![]);
    for small in if small { vec![true, false] } else { vec![false] } {
        if !hits.lock().unwrap().is_empty() {
            break;
        }
        let limit = AtomicU64::new(u64::MAX);
        let items = if small { prefixes(p, 3) } else { vec![] };
        let count = if small { items.len() as u64 } else { history.div_ceil(BLOCK) };
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for th in 0..threads {
                let (items, next, total, hits, limit) = (&items, &next, &total, &hits, &limit);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut ctx = p.ctx();
                        let mut t = Tally::default();
                        loop {
                            let b = next.fetch_add(1, Ordering::Relaxed) as u64;
                            if b >= count || b > limit.load(Ordering::SeqCst) || start.elapsed().as_secs() >= seconds {
                                break;
                            }
                            let mut dig = DefaultHasher::new();
                            let mut one = |c: &mut Ch, i: u64| -> bool {
                                let case = p.case(c, small);
                                slots.note(th, if small { 0 } else { 3 }, &c.rec);
                                let v = p.check(&mut ctx, &case, digests);
                                slots.done(th);
                                if digests {
                                    digest(&v).hash(&mut dig);
                                }
                                t.cases += 1;
                                t.by[!small as usize] += 1;
                                for k in &v.classes {
                                    *t.classes.entry(k).or_default() += 1;
                                }
                                if v.nontrivial {
                                    t.nontrivial += 1;
                                    if t.keys.insert(key(&case)) && t.samples.len() < 20 && t.keys.len() % 101 == 1 {
                                        t.samples.push((small, c.choices()));
                                    }
                                }
                                if let (Some(detail), false) = (v.finding, digests) {
                                    hits.lock().unwrap().push(Hit { order: (b, i), small, choices: c.choices(), detail });
                                    limit.fetch_min(b, Ordering::SeqCst);
                                    return true;
                                }
                                false
                            };
                            if small {
                                enumerated(items, b, &mut one);
                            } else {
                                drawn(seed, salt, b, &mut one);
                            }
                            if digests {
                                t.digests.push((small, b, dig.finish()));
                            }
                        }
                        let mut all = total.lock().unwrap();
                        all.cases += t.cases;
                        all.nontrivial += t.nontrivial;
                        all.by[0] += t.by[0];
                        all.by[1] += t.by[1];
                        for (k, v) in t.classes {
                            *all.classes.entry(k).or_default() += v;
                        }
                        all.keys.extend(t.keys);
                        all.digests.extend(t.digests);
                        all.samples.extend(t.samples);
                    })
                    .expect("cannot start a thread");
            }
        });
    }
    let mut hits = hits.into_inner().unwrap();
    hits.sort_by_key(|h| h.order);
    (total.into_inner().unwrap(), hits.into_iter().next())
}
